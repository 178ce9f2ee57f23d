package main

import (
	"math"
	"reflect"

	"github.com/fairDataSociety/FaVe/pkg/hnsw"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairDataSociety/FaVe/vmc/vtime"
	"github.com/weaviate/weaviate/adapters/repos/db/helpers"
	"github.com/weaviate/weaviate/entities/schema"
	ent "github.com/weaviate/weaviate/entities/vectorindex/hnsw"
)

// widths are the settings of searches that an open index can be given.
var widths = func() (cs []config) {
	for _, ef := range []int{-1, 0, 1, 2, 5, 17} {
		for _, dyn := range [][3]int{{1, 3, 1}, {2, 40, 3}, {6, 6, 8}, {10, 20, 2}, {100, 500, 8}} {
			for _, cut := range []int{0, 3, 40000} {
				cs = append(cs, config{Metric: "l2", M: 4, EFC: 6, EF: ef, Dyn: dyn, Cutoff: cut})
			}
		}
	}
	return cs
}()

// width is the breadth of a search that the settings ask for.
func (c config) width(k int) int {
	ef := c.EF
	if ef < 1 {
		ef = k * c.Dyn[2]
		if ef > c.Dyn[1] {
			ef = c.Dyn[1]
		} else if ef < c.Dyn[0] {
			ef = c.Dyn[0]
		}
	}
	if ef < k {
		ef = k
	}
	return ef
}

func (c config) ent() ent.UserConfig {
	u := ent.NewDefaultUserConfig()
	u.MaxConnections, u.EFConstruction, u.EF, u.FlatSearchCutoff = c.M, c.EFC, c.EF, c.Cutoff
	u.DynamicEFMin, u.DynamicEFMax, u.DynamicEFFactor = c.Dyn[0], c.Dyn[1], c.Dyn[2]
	return u
}

// spread is a graph that is far from complete, so that the breadth of a search
// shows in its answer.
func spread(n int) [][]float32 {
	var vs [][]float32
	for i := 0; i < n; i++ {
		a, b, c := float64(i)*0.7, float64(i)*1.9, float64(i*i)*0.013
		vs = append(vs, []float32{float32(math.Sin(a) * 3), float32(math.Cos(b) * 2), float32(math.Sin(c)), float32(i % 5)})
	}
	return vs
}

type answer struct {
	ids   []uint64
	dists []float32
}

var updQueries = [][]float32{{0, 0, 0, 0}, {3, -2, 0.5, 4}, {-1, 1, -1, 2}, {0.3, 2, 0.9, 1}, {-3, 0, 0, 3}}

var updKs = []int{1, 2, 3, 7, 12}

var updAllows = []func() helpers.AllowList{
	func() helpers.AllowList { return nil },
	func() helpers.AllowList { return helpers.NewAllowList(3, 90) },
	func() helpers.AllowList { return helpers.NewAllowList(1, 2, 30, 31, 77, 78, 120, 150) },
}

// answers are all answers of an index.
func (w *world) answers() (as []answer, err error) {
	for _, q := range updQueries {
		for _, k := range updKs {
			for _, al := range updAllows {
				ids, ds, err := w.idx.SearchByVector(append([]float32{}, q...), k, al())
				if err != nil {
					return nil, err
				}
				as = append(as, answer{ids, ds})
			}
		}
	}
	return as, nil
}

type updater interface {
	UpdateUserConfig(updated schema.VectorIndexConfig, callback func()) error
}

// runUpdate: opened with the settings `from` and changed to every step-th other in
// turn, an index searches as one that was opened with them; and that one as one with
// the breadth that they ask for.
func runUpdate(r *kit.Result, from, step int) {
	vtime.Reset()
	w, err := newWorld(widths[from], 5)
	if err != nil {
		r.Fail("create", "creating an index: %v", err)
		return
	}
	for i, v := range spread(160) {
		if err := w.add(uint64(i), v); err != nil {
			r.Fail("create", "adding: %v", err)
			return
		}
	}
	if err := w.save(160); err != nil {
		r.Fail("create", "flushing: %v", err)
		return
	}
	openAs := func(c config) ([]answer, bool) {
		w.cfg = c
		if err := w.open(); err != nil {
			r.Fail("open", "opening with %+v: %v", c, err)
			return nil, false
		}
		as, err := w.answers()
		if err != nil {
			r.Fail("open", "searching with %+v: %v", c, err)
			return nil, false
		}
		return as, true
	}
	base, ok := openAs(widths[from])
	if !ok {
		return
	}
	// each answer is that of an index with exactly this breadth
	perQ := len(updKs) * len(updAllows)
	for ki, k := range updKs {
		c := widths[from]
		c.EF, c.Dyn = c.width(k), [3]int{}
		exact, ok := openAs(c)
		if !ok {
			return
		}
		for qi := range updQueries {
			for ai := range updAllows {
				i := qi*perQ + ki*len(updAllows) + ai
				r.Executions++
				if !reflect.DeepEqual(base[i], exact[i]) {
					r.Fail("breadth", "search %d for %d with %+v finds %v, with a breadth of %d %v", i, k, widths[from], base[i], c.EF, exact[i])
					return
				}
			}
		}
	}
	if _, ok = openAs(widths[from]); !ok {
		return
	}
	open := w.idx
	u, is := open.(updater)
	if !is {
		return
	}
	for to := range widths {
		if to%step != from%step && to != 0 {
			continue
		}
		want, ok := openAs(widths[to])
		if !ok {
			return
		}
		w.idx = open
		called := 0
		err := u.UpdateUserConfig(widths[to].ent(), func() { called++ })
		r.Executions++
		r.Transitions++
		if err != nil || called != 1 {
			r.Fail("update", "changing settings %+v to %+v: %v, %d notifications", widths[from], widths[to], err, called)
			return
		}
		got, err := w.answers()
		if err != nil {
			r.Fail("update", "searching after changing settings %+v to %+v: %v", widths[from], widths[to], err)
			return
		}
		for i := range got {
			if !reflect.DeepEqual(got[i], want[i]) {
				r.Fail("update", "settings changed, first from %+v, now to %+v: search %d finds %v, an index opened with them %v", widths[from], widths[to], i, got[i], want[i])
				return
			}
		}
	}
}

// runValidate: a change is refused exactly if it changes what cannot be
// changed.
func runValidate(r *kit.Result) {
	set := []func(u *ent.UserConfig, d int){
		func(u *ent.UserConfig, d int) { u.MaxConnections += d },
		func(u *ent.UserConfig, d int) { u.EFConstruction += d },
		func(u *ent.UserConfig, d int) { u.CleanupIntervalSeconds += d },
		func(u *ent.UserConfig, d int) { u.EF += d },
		func(u *ent.UserConfig, d int) { u.DynamicEFMin += d },
		func(u *ent.UserConfig, d int) { u.DynamicEFMax += d },
		func(u *ent.UserConfig, d int) { u.DynamicEFFactor += d },
		func(u *ent.UserConfig, d int) { u.VectorCacheMaxObjects += d },
		func(u *ent.UserConfig, d int) { u.FlatSearchCutoff += d },
		func(u *ent.UserConfig, d int) { u.PQ.Enabled = true },
	}
	for mask := 0; mask < 1<<len(set); mask++ {
		for _, d := range []int{1, -1, 60, -60} {
			a := ent.NewDefaultUserConfig()
			a.MaxConnections, a.EFConstruction, a.CleanupIntervalSeconds = 32, 128, 300
			b := a
			for i := range set {
				if mask>>i&1 == 1 {
					set[i](&b, d)
				}
			}
			for turn := 0; turn < 2; turn++ {
				err := hnsw.ValidateUserConfigUpdate(a, b)
				r.Executions++
				if (err != nil) != (mask&7 != 0) {
					r.Fail("validate", "changing %+v to %+v: %v", a, b, err)
					return
				}
				a, b = b, a
			}
		}
	}
	for _, x := range []schema.VectorIndexConfig{nil, other{}} {
		for _, y := range []schema.VectorIndexConfig{nil, other{}, ent.NewDefaultUserConfig()} {
			r.Executions += 2
			if hnsw.ValidateUserConfigUpdate(x, y) == nil || hnsw.ValidateUserConfigUpdate(y, x) == nil {
				r.Fail("validate", "a change from %T to %T, or back, is accepted", x, y)
			}
		}
	}
	w, err := newWorld(widths[0], 5)
	if err != nil {
		r.Fail("create", "creating an index: %v", err)
		return
	}
	if u, is := w.idx.(updater); is {
		for _, x := range []schema.VectorIndexConfig{nil, other{}} {
			called := 0
			if err := u.UpdateUserConfig(x, func() { called++ }); err == nil || called != 1 {
				r.Fail("validate", "changing the settings to a %T: %v, %d notifications", x, err, called)
			}
		}
	}
}

type other struct{}

func (other) IndexType() string    { return "other" }
func (other) DistanceName() string { return "" }
