package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"

	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairDataSociety/FaVe/vmc/vtime"
)

// sizeCase: N vectors of family Fam with ids First, First+Step, ...; Every:
// flush (and with Restart reopen, with Wipe empty the vector cache) after that
// many.
type sizeCase struct {
	Fam     string `json:"fam"`
	N       int    `json:"n"`
	M       int    `json:"m"`
	Seed    int64  `json:"seed"`
	First   uint64 `json:"first,omitempty"`
	Step    uint64 `json:"step,omitempty"`
	Every   int    `json:"every,omitempty"`
	Restart bool   `json:"restart,omitempty"`
	Wipe    bool   `json:"wipe,omitempty"`
	Probe   int    `json:"probe,omitempty"` // ask for every Probe-th vector only
	Order   string `json:"order,omitempty"` // of the ids: rising, "down" or "mix"
}

// family vectors are all different unless said so.
func family(name string, n, i int) []float32 {
	f := func(x ...float64) []float32 {
		v := make([]float32, len(x))
		for i := range x {
			v[i] = float32(x[i])
		}
		return v
	}
	t := float64(i) / float64(n)
	switch name {
	case "circle":
		return f(math.Cos(2*math.Pi*t), math.Sin(2*math.Pi*t))
	case "arc": // a narrow arc, in order
		return f(math.Cos(t), math.Sin(t), 1)
	case "helix":
		return f(math.Cos(2.399963*float64(i)), math.Sin(2.399963*float64(i)), 2*t-1)
	case "clusters": // five far apart clusters
		c := float64(i % 5)
		return f(math.Cos(c)+0.01*math.Cos(float64(i)), math.Sin(c)+0.01*math.Sin(2*float64(i)), 0.3*c+0.01*t, 1)
	case "blocks": // the clusters one after the other
		c := float64(i * 5 / n)
		return f(math.Cos(c)+0.01*math.Cos(float64(i)), math.Sin(c)+0.01*math.Sin(2*float64(i)), 0.3*c+0.01*t, 1)
	case "axes": // 16 dimensions
		v := make([]float64, 16)
		v[i%16] = 1
		v[(i/16+1+i)%16] += 0.5
		v[(i/7)%16] -= 0.25
		v[15] += 0.001 * float64(i)
		return f(v...)
	case "outlier": // a cluster, the last vector opposite
		if i == n-1 {
			return f(-1, 0.1, 0.2)
		}
		return f(1, 0.1*math.Cos(2.399963*float64(i)), 0.1*math.Sin(2.399963*float64(i))*(1+t))
	case "outliers": // some of the vectors opposite
		if i%25 == 24 {
			return f(-1, 0.01*float64(i), 0.3*math.Sin(float64(i)))
		}
		return f(1, 0.1*math.Cos(2.399963*float64(i)), 0.1*math.Sin(2.399963*float64(i))*(1+t))
	case "opposite": // a cluster, then the opposite one
		x := 1.0
		if 2*i >= n {
			x = -1
		}
		return f(x, 0.1*math.Cos(2.399963*float64(i)), 0.1*math.Sin(2.399963*float64(i))*(1+t))
	case "onehot", "against": // all at right angles; the last one against all of them
		v := make([]float64, 160)
		v[i%160] = 1
		if name == "against" && i == n-1 {
			for j := range v {
				v[j] = -1
			}
		}
		return f(v...)
	case "same":
		return f(0.5, 0.25, 0.125)
	case "pairs":
		return family("helix", n, i/2*2)
	case "three": // three different vectors
		return family("helix", 3, i%3)
	}
	panic(name)
}

func runSize(c kit.Case, r *kit.Result) {
	var sc sizeCase
	if err := json.Unmarshal(c.Data, &sc); err != nil {
		panic(err)
	}
	if c.Group == "race-search" {
		raceSearch(sc, r)
		return
	}
	vtime.Reset()
	cfg := config{Metric: "cosine", M: sc.M, EFC: 2 * sc.M}
	w, err := newWorld(cfg, sc.Seed)
	if err != nil {
		r.Fail("create", "creating an index: %v", err)
		return
	}
	desc := func() string { return fmt.Sprintf("%+v", sc) }
	if sc.Step == 0 {
		sc.Step = 1
	}
	id := func(i int) uint64 {
		switch sc.Order {
		case "down":
			i = sc.N - 1 - i
		case "mix":
			if i%2 == 1 {
				i = sc.N - 1 - i/2
			} else {
				i /= 2
			}
		}
		return sc.First + uint64(i)*sc.Step
	}
	for i := 0; i < sc.N; i++ {
		if err := w.add(id(i), family(sc.Fam, sc.N, i)); err != nil {
			r.Fail("add", "vector %d: %v: %s", i, err, desc())
			return
		}
		r.Transitions++
		if sc.Every > 0 && (i+1)%sc.Every == 0 || sc.Every > 0 && i == sc.N-1 {
			if err := w.save(uint64(i + 1)); err != nil {
				r.Fail("flush", "after vector %d: %v: %s", i, err, desc())
				return
			}
			if sc.Restart {
				rand.Seed(sc.Seed + int64(i)) //nolint
				if err := w.open(); err != nil {
					r.Fail("restart", "after vector %d: %v: %s", i, err, desc())
					return
				}
			}
			if sc.Wipe {
				vtime.Fire()
			}
		}
	}
	equal := map[string]int{"same": sc.N, "pairs": 2, "three": (sc.N + 2) / 3}[sc.Fam]
	against := sc.Fam == "against" && sc.N > 2*sc.M+1
	probe := sc.Probe
	if probe == 0 {
		probe = 1
	}
	for i := 0; i < sc.N; i += probe {
		q := family(sc.Fam, sc.N, i)
		ids, ds, err := w.idx.KnnSearchByVectorMaxDist(q, 2.5, 800, nil)
		r.Transitions++
		if err != nil || len(ids) == 0 || ds[0] > 1e-5 {
			sig := "self"
			if equal > 2*sc.M {
				sig = "many-duplicates"
			} else if against && i == sc.N-1 {
				sig = "outlier"
			}
			r.Fail(sig, "the search for vector %d itself found %.100v at %.100v, %v: %s", i, fmt.Sprint(ids), fmt.Sprint(ds), err, desc())
			break
		}
	}
	if sc.N <= 800 {
		for i := 0; i < sc.N; i += 1 + sc.N/4 {
			q := family(sc.Fam, sc.N, i)
			ids, ds, err := w.idx.KnnSearchByVectorMaxDist(q, 2.5, 0, nil)
			r.Transitions++
			if err == nil {
				err = w.judge(ids, ds, q, nil, -1, 2.5)
			}
			if err != nil {
				sig := "all"
				if equal > 2*sc.M {
					sig = "many-duplicates"
				} else if against {
					sig = "outlier"
				}
				r.Fail(sig, "the unlimited search for vector %d: %.300s: %s", i, err, desc())
				break
			}
		}
	}
	if sc.N <= 300 && sc.Fam != "same" {
		// filtered: the allowed ones may lie far apart and far away
		for _, mod := range []int{2, 7, 40} {
			allow := map[uint64]bool{}
			for i := mod - 1; i < sc.N; i += mod {
				allow[id(i)] = true
			}
			for i := 0; i < sc.N; i += 1 + sc.N/3 {
				q := family(sc.Fam, sc.N, i)
				ids, ds, err := w.idx.KnnSearchByVectorMaxDist(q, 2.5, 0, allowList(allow))
				r.Transitions++
				if err == nil {
					err = w.judge(ids, ds, q, allow, -1, 2.5)
				}
				if err != nil {
					sig := "filter"
					if equal > 2*sc.M {
						sig = "many-duplicates"
					} else if against {
						sig = "outlier"
					}
					r.Fail(sig, "the search for vector %d among every %d-th: %.300s: %s", i, mod, err, desc())
					break
				}
			}
		}
	}
	w.checkCountIf(sc.Every > 0, r, desc)
	r.Executions++
	r.State(desc())
	r.Outcome(fmt.Sprintf("%s: %d vectors", sc.Fam, sc.N))
}

func (w *world) checkCountIf(b bool, r *kit.Result, desc func() string) {
	if b {
		w.checkCount(r, desc)
	}
}

func sizeCases(tier string) (cs []kit.Case) {
	deep := tier == "thorough"
	add := func(g string, sc sizeCase) {
		if sc.M == 0 {
			sc.M = 30 // as the client
		}
		cs = append(cs, kit.MkCase(g, sc))
	}
	// the big ones first: they take longest
	for _, n := range []int{6, 30} {
		for _, first := range []uint64{0, 24998, 50000} {
			for _, step := range []uint64{1, 5000} {
				if n > 6 && step > 1 && !deep {
					continue
				}
				for _, h := range []sizeCase{{}, {Restart: true}, {Wipe: true}} {
					h.Fam, h.N, h.Seed, h.First, h.Step = "circle", n, 1, first, step
					add("race-search", h)
				}
			}
		}
	}
	many := func(n, every int, restart, wipe bool) {
		add("many", sizeCase{Fam: "helix", N: n, Seed: 1, Every: every, Restart: restart, Wipe: wipe, Probe: 1 + n/40})
	}
	many(10050, 0, false, false)
	many(10050, 10050, true, false)
	if deep {
		many(10050, 3000, true, false)
		many(10050, 5000, false, true)
		many(25010, 25010, true, false)
		many(25010, 0, false, false)
	}
	// ids beyond and around what is preallocated for visited vectors
	for _, first := range []uint64{0, 24970, 25000, 49990, 1000000} {
		for _, step := range []uint64{1, 2, 1000, 25001} {
			for _, order := range []string{"", "down", "mix"} {
				for _, h := range []sizeCase{{}, {Every: 8, Restart: true}, {Every: 8, Wipe: true}} {
					h.Fam, h.N, h.Seed, h.First, h.Step, h.Order = "circle", 40, 1, first, step, order
					add("ids", h)
				}
			}
		}
	}
	ns := []int{29, 30, 31, 32, 60, 61, 62, 100, 150, 300}
	seeds := int64(3)
	if deep {
		ns = append(ns, 33, 45, 75, 90, 200, 450, 799, 800)
		seeds = 12
	}
	for _, fam := range []string{"circle", "arc", "helix", "clusters", "blocks", "axes", "outlier", "outliers", "opposite", "onehot", "against", "same", "pairs", "three"} {
		for _, n := range ns {
			for seed := int64(1); seed <= seeds; seed++ {
				add("family", sizeCase{Fam: fam, N: n, Seed: seed})
			}
			if n <= 150 {
				add("family", sizeCase{Fam: fam, N: n, Seed: 1, Every: 10, Restart: true})
				add("family", sizeCase{Fam: fam, N: n, Seed: 2, Every: 7, Wipe: true})
			}
			if deep && n <= 100 {
				for _, every := range []int{1, 2, 3, 13, 31, 50} {
					add("family", sizeCase{Fam: fam, N: n, Seed: 3, Every: every, Restart: true})
					add("family", sizeCase{Fam: fam, N: n, Seed: 4, Every: every, Wipe: true})
					add("family", sizeCase{Fam: fam, N: n, Seed: 5, Every: every, Restart: true, Order: "mix"})
				}
			}
		}
	}
	return cs
}
