package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"

	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairDataSociety/FaVe/vmc/vtime"
)

// knnCase: an index with configuration Cfg gets the vectors Vecs (of the
// alphabet) in order; Ops is a history of a (add the next vector), f (flush and
// commit), r (restart), w (the vector cache is emptied), s (search).
// Kind "metric", "layers", "history", "fault": runKnn checks different things.
type knnCase struct {
	Kind string `json:"kind"`
	Cfg  config `json:"cfg"`
	Seed int64  `json:"seed"`
	Vecs []int  `json:"vecs"`
	Ids  int    `json:"ids,omitempty"`
	Ops  string `json:"ops"`
	N    int    `json:"n,omitempty"`
}

var alphabet = [][]float32{{1, 0, 0}, {0, 1, 0}, {1, 1, 0}, {-1, 0, 0.5}, {0.6, 0.8, 0}, {2, 0, 0}, {0.1, -0.2, 3}, {-2, -2, -2}, {0.3, 0.3, 0.31}}

var queries = [][]float32{{1, 0, 0}, {-1, 0.2, 0.4}, {0.5, 0.5, 0.5}, {3, -4, 12}, {1, 1, 0}}

// idOf spreads the ids in several ways.
func idOf(pattern, i int) uint64 {
	switch pattern {
	case 1:
		return uint64(100 - i)
	case 2:
		return uint64(i * 1000)
	case 3:
		return uint64(24998 + i)
	}
	return uint64(i)
}

func runKnn(c kit.Case, r *kit.Result) {
	var kc knnCase
	if err := json.Unmarshal(c.Data, &kc); err != nil {
		panic(err)
	}
	if kc.Kind == "page" {
		runPage(kc, r)
		return
	}
	if kc.Kind == "lattice" {
		runLattice(kc, r)
		return
	}
	vtime.Reset()
	w, err := newWorld(kc.Cfg, kc.Seed)
	if err != nil {
		r.Fail("create", "creating an index: %v", err)
		return
	}
	desc := func() string {
		return fmt.Sprintf("history %s of vectors %v, ids pattern %d, seed %d, %+v", kc.Ops, kc.Vecs, kc.Ids, kc.Seed, kc.Cfg)
	}
	next := 0
	cnt := uint64(0)
	light := func() {
		q := queries[next%len(queries)]
		w.battery(r, q, nil, desc)
		w.checkCount(r, desc)
	}
	for i := 0; i < len(kc.Ops); i++ {
		var err error
		switch kc.Ops[i] {
		case 'a':
			if next < len(kc.Vecs) {
				err = w.add(idOf(kc.Ids, next), alphabet[kc.Vecs[next]])
				next++
			}
		case 'f':
			cnt += 3
			err = w.save(cnt)
		case 'r':
			err = w.open()
		case 'w':
			vtime.Fire()
		case '1', '2', '3', '4', '5':
			// any but the first vector, where the search begins
			id := idOf(kc.Ids, int(kc.Ops[i]-'0'))
			if d, ok := w.idx.(interface{ Delete(...uint64) error }); ok {
				err = d.Delete(id)
				delete(w.now, id)
			}
		}
		if err != nil {
			r.Fail("operation", "operation %d: %v: %s", i, err, desc())
			return
		}
		if kc.Kind == "history" || kc.Kind == "deleted" {
			light()
		}
	}
	switch kc.Kind {
	case "metric":
		ids := w.ids()
		for _, q := range queries {
			w.battery(r, q, nil, desc)
		}
		for m := 0; m < 1<<len(ids); m++ {
			allow := map[uint64]bool{}
			for b, id := range ids {
				if m>>b&1 == 1 {
					allow[id] = true
				}
			}
			if m%3 == 1 {
				allow[7777] = true // not in the index
			}
			w.battery(r, queries[m%len(queries)], allow, desc)
		}
		w.checkCount(r, desc)
	case "layers", "deleted":
		for _, q := range queries {
			w.battery(r, q, nil, desc)
		}
	case "fault":
		w.faults(r, desc)
	}
	r.Executions++
	r.State(kc.Cfg, w.ids(), kc.Ops, kc.Seed)
	r.Outcome(fmt.Sprintf("%s %s: %d vectors", kc.Kind, kc.Cfg.Metric, len(w.now)))
	r.Sample("%s: all searches right", desc())
}

// faults lets every store call of every kind of search fail once, on a
// restarted index: the search is an error or right, and right afterwards.
func (w *world) faults(r *kit.Result, desc func() string) {
	type search struct {
		name string
		run  func(q []float32) ([]uint64, []float32, error)
		al   map[uint64]bool
		want int
		max  float64
	}
	ids := w.ids()
	some := map[uint64]bool{}
	for i, id := range ids {
		if i%2 == 0 {
			some[id] = true
		}
	}
	mk := func(al map[uint64]bool) []search {
		list := allowList(al)
		return []search{
			{"SearchByVector", func(q []float32) ([]uint64, []float32, error) { return w.idx.SearchByVector(q, 2, list) }, al, 2, math.MaxFloat32},
			{"SearchByVectorDistance", func(q []float32) ([]uint64, []float32, error) {
				return w.idx.SearchByVectorDistance(q, 1000, -1, list)
			}, al, -1, 1000},
			{"KnnSearchByVectorMaxDist", func(q []float32) ([]uint64, []float32, error) {
				return w.idx.KnnSearchByVectorMaxDist(q, 1000, 0, list)
			}, al, -1, 1000},
		}
	}
	q := queries[2]
	// a failure of one call, and of several in a row (reads are retried)
	for _, s := range append(mk(nil), mk(some)...) {
		for _, win := range []int{1, 4, 7, 12, 1 << 30} {
			for k := 0; ; k++ {
				if err := w.open(); err != nil {
					r.Fail("reopen", "%v: %s", err, desc())
					return
				}
				calls := 0
				hit := false
				w.st.Hook = func(op fenv.Op, mut bool, key string) error {
					calls++
					if calls >= k+1 && calls-k-1 < win {
						hit = true
						return fenv.ErrInjected
					}
					return nil
				}
				a, d, err := s.run(append([]float32{}, q...))
				w.st.Hook = nil
				r.Transitions++
				r.Executions++
				if !hit {
					if err != nil {
						r.Fail("fault-free", "%s: %v: %s", s.name, err, desc())
					}
					break
				}
				if err == nil {
					if err := w.judge(a, d, q, s.al, s.want, s.max); err != nil {
						r.Fail("fault", "%s (allow %v) with %d store calls from call %d failing is no error but %v: %s", s.name, s.al, win, k, err, desc())
					}
				}
				a, d, err = s.run(append([]float32{}, q...))
				if err == nil {
					err = w.judge(a, d, q, s.al, s.want, s.max)
				}
				if err != nil {
					r.Fail("after-fault", "%s (allow %v) after %d store calls from call %d failed: %v: %s", s.name, s.al, win, k, err, desc())
				}
			}
		}
	}
	// adds
	for _, win := range []int{1, 4, 7, 12, 1 << 30} {
		for k := 0; ; k++ {
			keep := w.st.Clone()
			if err := w.open(); err != nil {
				r.Fail("reopen", "%v: %s", err, desc())
				return
			}
			calls := 0
			hit := false
			w.st.Hook = func(op fenv.Op, mut bool, key string) error {
				calls++
				if calls >= k+1 && calls-k-1 < win {
					hit = true
					return fenv.ErrInjected
				}
				return nil
			}
			err := w.idx.Add(5000, alphabet[8])
			w.st.Hook = nil
			r.Executions++
			if err == nil {
				w.now[5000] = alphabet[8]
				w.battery(r, q, nil, desc)
			} else if !hit {
				r.Fail("fault-free", "Add: %v: %s", err, desc())
			}
			w.st = keep
			if !hit {
				break
			}
		}
	}
}

// runLattice: the vectors of a lattice, of which many have exactly the same
// distance, with integers all the way: searches within exactly that distance.
func runLattice(kc knnCase, r *kit.Result) {
	vtime.Reset()
	w, err := newWorld(kc.Cfg, kc.Seed)
	if err != nil {
		r.Fail("create", "creating an index: %v", err)
		return
	}
	desc := func() string { return fmt.Sprintf("%d vectors of a lattice, seed %d, %+v", kc.N, kc.Seed, kc.Cfg) }
	for i := 0; i < kc.N; i++ {
		j := i * 7 % 125
		if err := w.add(uint64(i), []float32{float32(j%5) - 2, float32(j/5%5) - 2, float32(j/25) - 2}); err != nil {
			r.Fail("operation", "%v: %s", err, desc())
			return
		}
	}
	if kc.Ops == "r" {
		err := w.save(uint64(kc.N))
		if err == nil {
			err = w.open()
		}
		if err != nil {
			r.Fail("operation", "%v: %s", err, desc())
			return
		}
	}
	for _, q := range [][]float32{{0, 0, 0}, {1, 1, 1}, {2, 2, 2}, {-2, 0, 1}} {
		ref := w.all(q, nil)
		seen := map[float64]bool{}
		for n, x := range ref {
			if seen[x.d] {
				continue
			}
			seen[x.d] = true
			within := n
			for within < len(ref) && ref[within].d <= x.d {
				within++
			}
			ids, ds, err := w.idx.SearchByVectorDistance(q, float32(x.d), -1, nil)
			if err == nil {
				err = w.judge(ids, ds, q, nil, -1, x.d)
			}
			if err == nil && len(ids) != within {
				err = fmt.Errorf("%d results", len(ids))
			}
			r.Transitions++
			if err != nil {
				r.Fail("tie", "SearchByVectorDistance(%v, %v) with %d within, many at that distance: %v: %s", q, x.d, within, err, desc())
			}
		}
	}
	r.Executions++
	r.State(kc)
	r.Outcome(fmt.Sprintf("lattice %s", kc.Cfg.Metric))
}

// runPage: more results than one page of SearchByVectorDistance.
func runPage(kc knnCase, r *kit.Result) {
	vtime.Reset()
	w, err := newWorld(kc.Cfg, kc.Seed)
	if err != nil {
		r.Fail("create", "creating an index: %v", err)
		return
	}
	desc := func() string { return fmt.Sprintf("%d vectors on a helix, seed %d, %+v", kc.N, kc.Seed, kc.Cfg) }
	for i := 0; i < kc.N; i++ {
		a := float64(i) * 2.399963
		v := []float32{float32(math.Cos(a) * (1 + float64(i)/50)), float32(math.Sin(a)), float32(i)/100 - 0.5}
		if err := w.add(uint64(i), v); err != nil {
			r.Fail("operation", "%v: %s", err, desc())
			return
		}
	}
	if kc.Ops == "f" || kc.Ops == "r" {
		if err := w.save(uint64(kc.N)); err != nil {
			r.Fail("operation", "%v: %s", err, desc())
			return
		}
	}
	if kc.Ops == "r" {
		if err := w.open(); err != nil {
			r.Fail("operation", "%v: %s", err, desc())
			return
		}
	}
	for _, q := range queries[:3] {
		ref := w.all(q, nil)
		for _, m := range []int{1, 50, 99, 100, 101, kc.N - 1, kc.N} {
			if m > kc.N {
				continue
			}
			t := float32(ref[m-1].d + 1e-4*(1+math.Abs(ref[m-1].d)))
			ids, ds, err := w.idx.SearchByVectorDistance(q, t, -1, nil)
			if err == nil {
				err = w.judge(ids, ds, q, nil, -1, float64(t))
			}
			r.Transitions++
			if err != nil {
				r.Fail("page", "SearchByVectorDistance(%v, %v) with %d within: %v: %s", q, t, m, err, desc())
			}
			ids, ds, err = w.idx.SearchByVector(q, m, nil)
			if err == nil {
				err = w.judge(ids, ds, q, nil, m, math.MaxFloat32)
			}
			if err != nil {
				r.Fail("page-knn", "SearchByVector(%v, %d): %v: %s", q, m, err, desc())
			}
		}
	}
	r.Executions++
	r.State(kc)
	r.Outcome(fmt.Sprintf("page %s: %d vectors", kc.Cfg.Metric, kc.N))
}

// seedsFor returns, for a number of connections, one seed for every assignment
// of layers (up to max) to n draws.
func seedsFor(m, n, max int) []int64 {
	norm := 1 / math.Log(float64(m))
	seen := map[string]bool{}
	var out []int64
	total := 1
	for i := 0; i < n; i++ {
		total *= max + 1
	}
	for s := int64(1); s < 20000 && len(seen) < total; s++ {
		rng := rand.New(rand.NewSource(s))
		key := ""
		ok := true
		for i := 0; i < n; i++ {
			l := int(math.Floor(-math.Log(rng.Float64()) * norm))
			ok = ok && l <= max
			key += fmt.Sprint(l)
		}
		if ok && !seen[key] {
			seen[key] = true
			out = append(out, s)
		}
	}
	return out
}

var metrics = []string{"cosine", "dot", "l2", "manhattan", "hamming"}

func tuples(n, k int) (out [][]int) {
	if k == 0 {
		return [][]int{nil}
	}
	for _, t := range tuples(n, k-1) {
		for i := 0; i < n; i++ {
			out = append(out, append(append([]int{}, t...), i))
		}
	}
	return out
}

func knnCases(tier string) (cs []kit.Case) {
	add := func(kc knnCase) { cs = append(cs, kit.MkCase(kc.Kind, kc)) }
	thorough := tier == "thorough"
	cfgs := []config{{M: 8, EFC: 16}, {M: 4, EFC: 8, EF: 1, Cutoff: 2}, {M: 64, EFC: 128, EF: -1, Dyn: [3]int{1, 3, 1}, Cutoff: 100}}
	ends := []string{"", "f", "fr"}
	// vectors x metric x searches x allow lists
	maxLen := 3
	if thorough {
		maxLen = 4
	}
	n := 0
	for l := 0; l <= maxLen; l++ {
		for _, t := range tuples(len(alphabet)-2, l) {
			for mi, m := range metrics {
				ops := ""
				for range t {
					ops += "a"
				}
				var pick []config
				if l < 3 || thorough {
					pick = cfgs
				} else {
					pick = []config{cfgs[(n+mi)%3]}
				}
				for ci, cfg := range pick {
					cfg.Metric = m
					add(knnCase{Kind: "metric", Cfg: cfg, Seed: int64(1 + (n+mi)%7), Vecs: t, Ids: (n + mi + ci) % 4, Ops: ops + ends[(n+ci+mi)%3]})
				}
			}
			n++
		}
	}
	// layers x restart placement
	perms := [][]int{{0, 1, 2, 3, 6}, {6, 3, 8, 0, 5}}
	for pi, p := range perms {
		for si, seed := range seedsFor(4, 4, 2) {
			for m := 0; m < 16; m++ {
				if !thorough && (si+m)%4 != 0 {
					continue
				}
				ops := "a"
				for i := 0; i < 4; i++ {
					if m>>i&1 == 1 {
						ops += "fr"
					}
					ops += "a"
				}
				add(knnCase{Kind: "layers", Cfg: config{Metric: metrics[(pi*2+m)%3], M: 6, EFC: 12}, Seed: seed, Vecs: p, Ops: ops})
			}
		}
	}
	// deleted vectors
	for mi, m := range metrics {
		for _, seed := range seedsFor(8, 6, 0)[:1] {
			for cut := 0; cut <= 100; cut += 100 {
				for mask := 0; mask < 32; mask++ {
					del := ""
					for i := 1; i <= 5; i++ {
						if mask>>(i-1)&1 == 1 {
							del += fmt.Sprint(i)
						}
					}
					ops := []string{"aaaaaa" + del + "a", "aaaaaaf" + del + "wa", "aaaaaa" + del + "fa"}[(mask+mi)%3]
					add(knnCase{Kind: "deleted", Cfg: config{Metric: m, M: 8, EFC: 16, Cutoff: cut}, Seed: seed, Vecs: []int{3, 0, 6, 1, 8, 5, 2}, Ids: (mask + mi) % 4, Ops: ops})
				}
			}
		}
	}
	// histories
	depth := 5
	if thorough {
		depth = 6
	}
	for l := 1; l <= depth; l++ {
		for ti, t := range tuples(4, l) {
			ops := ""
			for _, x := range t {
				ops += string("afrw"[x])
			}
			add(knnCase{Kind: "history", Cfg: config{Metric: metrics[ti%4], M: 8, EFC: 16, Cutoff: ti % 2 * 10}, Seed: int64(1 + ti%5), Vecs: []int{3, 0, 6, 1, 8, 5}, Ids: ti % 4, Ops: ops})
		}
	}
	// store failures
	for _, m := range metrics {
		for _, ops := range []string{"af", "aaf", "aafaf", "aaaaf"} {
			for _, cut := range []int{0, 100} {
				add(knnCase{Kind: "fault", Cfg: config{Metric: m, M: 8, EFC: 16, Cutoff: cut}, Seed: 3, Vecs: []int{3, 0, 6, 1}, Ops: ops})
			}
		}
	}
	// pages
	for _, m := range metrics[:4] {
		if m != "cosine" {
			for _, n := range []int{99, 100, 101, 102, 125} {
				for _, ops := range []string{"", "r"} {
					add(knnCase{Kind: "lattice", Cfg: config{Metric: m, M: 128, EFC: 140}, Seed: 1, N: n, Ops: ops})
				}
			}
		}
		for _, n := range []int{99, 100, 101, 128} {
			for _, ops := range []string{"", "f", "r"} {
				if ops == "r" && n != 128 && !thorough {
					continue
				}
				add(knnCase{Kind: "page", Cfg: config{Metric: m, M: 128, EFC: 140}, Seed: 1, N: n, Ops: ops})
			}
		}
		if thorough {
			add(knnCase{Kind: "page", Cfg: config{Metric: m, M: 1200, EFC: 1300}, Seed: 1, N: 1150})
		}
	}
	return cs
}
