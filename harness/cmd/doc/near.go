package main

import (
	"encoding/json"
	"fmt"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

// nearCase: documents with the given alphabet vectors, added in batches of
// the given sizes; the process is restarted before the batches listed in
// Restart. Mode: "v" explicit vectors, "t" vectorized text, "m" alternating
// vector / text / no vector.
type nearCase struct {
	Vecs    []int  `json:"v"`
	Batches []int  `json:"b"`
	Restart []int  `json:"r,omitempty"`
	Mode    string `json:"m"`
	Seed    int64  `json:"s"`
	Gen     int    `json:"g,omitempty"` // >0: Gen generated vectors instead of Vecs
	Dim     int    `json:"d,omitempty"`
	Full    bool   `json:"f,omitempty"` // ask every query of the menu
	Final   bool   `json:"x,omitempty"` // restart before querying
}

// genVec enumerates a deterministic family of distinct directions.
func genVec(i, dim int) []float32 {
	v := make([]float32, dim)
	x := uint32(i*2654435761 + 12345)
	for j := range v {
		x = x*1664525 + 1013904223
		v[j] = float32(int32(x>>8)%2001-1000) / 1000
	}
	v[i%dim] += 0.001
	return v
}

var nearDists = []float32{2.5, 1, 0.25, 0}

func (nc nearCase) docs() []*dsim.MDoc {
	var ds []*dsim.MDoc
	n := len(nc.Vecs)
	if nc.Gen > 0 {
		n = nc.Gen
	}
	for i := 0; i < n; i++ {
		id := fmt.Sprintf("doc%02d", i)
		var d *dsim.MDoc
		mode := nc.Mode
		if mode == "m" {
			mode = []string{"v", "t", "n"}[i%3]
		}
		switch {
		case nc.Gen > 0:
			d = dsim.D(id, i, genVec(i, nc.Dim))
		case mode == "t":
			d = dsim.DT(id, i, nc.Vecs[i])
		case mode == "n":
			d = dsim.DN(id, i)
		default:
			d = dsim.D(id, i, dsim.Alphabet[nc.Vecs[i]])
		}
		ds = append(ds, d)
	}
	return ds
}

func (nc nearCase) queries(ds []*dsim.MDoc) []dsim.Near {
	var qs []dsim.Near
	if nc.Gen > 0 {
		for i := 0; i < nc.Gen; i += 1 + nc.Gen/6 {
			v := genVec(i, nc.Dim)
			for _, dist := range []float32{2.5, 1, 0.6} {
				for _, lim := range []int{0, 1, 5, nc.Gen - 1, nc.Gen + 3} {
					qs = append(qs, dsim.Near{Vec: v, Dist: dist, Limit: lim})
				}
			}
		}
		qs = append(qs, dsim.Near{Vec: genVec(nc.Gen+7, nc.Dim), Dist: 2.5})
		return qs
	}
	lims := []int{0, 1, 2}
	if !nc.Full {
		for i := range dsim.Alphabet {
			qs = append(qs, dsim.Near{Vec: dsim.Alphabet[i], Dist: nearDists[i%3], Limit: lims[(i/3)%3]})
		}
		qs = append(qs, dsim.Near{Vec: dsim.Alphabet[nc.Vecs[0]], Dist: 0.00002}, dsim.Near{Vec: dsim.Alphabet[7], Dist: 2.5})
		for i := 0; i < 3; i++ {
			qs = append(qs, dsim.Near{Text: fmt.Sprintf("v%d", (nc.Vecs[0]+3*i)%9), Dist: nearDists[i], Limit: i})
		}
		return qs
	}
	for i := range dsim.Alphabet {
		for _, dist := range nearDists {
			for _, lim := range []int{0, 1, 2, 4} {
				qs = append(qs, dsim.Near{Vec: dsim.Alphabet[i], Dist: dist, Limit: lim})
				if lim != 2 {
					qs = append(qs, dsim.Near{Text: fmt.Sprintf("v%d", i), Dist: dist, Limit: lim})
				}
			}
		}
	}
	return qs
}

func contains(l []int, x int) bool {
	for _, y := range l {
		if y == x {
			return true
		}
	}
	return false
}

func runNear(c kit.Case, r *kit.Result) {
	var nc nearCase
	if err := json.Unmarshal(c.Data, &nc); err != nil {
		panic(err)
	}
	dsim.SeedLevels(nc.Seed)
	st := dsim.World.Fresh()
	cl := dsim.Open(st)
	m := dsim.NewCol("col")
	if err := cl.CreateCollection(m.Real()); err != nil {
		r.Fail("create-failed", "create failed: %v case %s", err, c.Data)
		return
	}
	ds := nc.docs()
	at := 0
	for bi, b := range nc.Batches {
		if contains(nc.Restart, bi) {
			cl = dsim.Open(st)
		}
		batch := ds[at : at+b]
		at += b
		if err := dsim.Add(cl, m.Name, batch...); err != nil {
			r.Fail("add-failed", "valid add failed: %v case %s", err, c.Data)
			return
		}
		m.Put(batch...)
		r.Transitions++
		if bi < len(nc.Batches)-1 && !nearAll(cl, m, nc.queries(ds)[:4], r, c) {
			return
		}
	}
	if nc.Final {
		cl = dsim.Open(st)
	}
	if nearAll(cl, m, nc.queries(ds), r, c) {
		r.Executions++
		r.State(m.Docs, nc.Batches, nc.Restart)
		r.Sample("%s: all answers exact", c.Data)
	}
}

func nearAll(cl *document.Client, m *dsim.MCol, qs []dsim.Near, r *kit.Result, c kit.Case) bool {
	for _, q := range qs {
		docs, dists, err := q.Do(cl, m.Name)
		r.Transitions++
		if e := dsim.JudgeNear(dsim.Want{Must: m.Docs}, q, docs, dists, err); e != nil {
			r.Fail("near-inexact", "%v; %d documents; case %s", e, len(m.Docs), c.Data)
			return false
		}
		if k := len(docs); q.Limit == 0 && k > 0 {
			// the distance itself is included
			e := q
			e.Dist = dists[(len(m.Docs)+int(q.Dist))%k]
			docs, ds2, err := e.Do(cl, m.Name)
			r.Transitions++
			if err != nil || len(ds2) == 0 || ds2[len(ds2)-1] != e.Dist || len(docs) != len(ds2) {
				r.Fail("near-boundary", "%v does not return the document that %v reports at exactly that distance (%v, %v); case %s", e, q, ds2, err, c.Data)
				return false
			}
		}
		r.Outcome(fmt.Sprintf("%s dist=%v limit=%d n=%d -> %d results", kindOf(q), q.Dist, q.Limit, len(m.Docs), len(docs)))
	}
	return true
}

func kindOf(q dsim.Near) string {
	if q.Text != "" {
		return "text"
	}
	return "vector"
}

// compositions enumerates all ordered ways to split n into positive parts.
func compositions(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for f := 1; f <= n; f++ {
		for _, rest := range compositions(n - f) {
			out = append(out, append([]int{f}, rest...))
		}
	}
	return out
}

func subsets(n int) [][]int {
	var out [][]int
	for m := 0; m < 1<<n; m++ {
		s := []int{}
		for i := 0; i < n; i++ {
			if m>>i&1 == 1 {
				s = append(s, i)
			}
		}
		out = append(out, s)
	}
	return out
}

func nearCases(tier string) []kit.Case {
	var cs []kit.Case
	a := len(dsim.Alphabet)
	add := func(g string, nc nearCase) { cs = append(cs, kit.MkCase(g, nc)) }
	// the empty collection
	add("empty", nearCase{Vecs: []int{}, Batches: []int{}, Gen: 0, Mode: "e", Full: true})
	// every ordered tuple of vectors, full query menu for 1 and 2 documents
	for i := 0; i < a; i++ {
		add("tuple1", nearCase{Vecs: []int{i}, Batches: []int{1}, Mode: "v", Seed: 1, Full: true})
		add("tuple1", nearCase{Vecs: []int{i}, Batches: []int{1}, Mode: "t", Seed: 1, Full: true, Final: true})
		for j := 0; j < a; j++ {
			add("tuple2", nearCase{Vecs: []int{i, j}, Batches: []int{2}, Mode: "v", Seed: 2, Full: tier == "thorough" || j%3 == 0})
			add("tuple2", nearCase{Vecs: []int{i, j}, Batches: []int{1, 1}, Mode: "t", Seed: 3, Restart: []int{1}})
			for k := 0; k < a; k++ {
				add("tuple3", nearCase{Vecs: []int{i, j, k}, Batches: []int{3}, Mode: "v", Seed: int64(i*81 + j*9 + k), Final: k%2 == 0})
				if tier == "thorough" {
					add("tuple3", nearCase{Vecs: []int{i, j, k}, Batches: []int{2, 1}, Restart: []int{1}, Mode: "m", Seed: 5})
					for l := 0; l < a; l++ {
						add("tuple4", nearCase{Vecs: []int{i, j, k, l}, Batches: []int{4}, Mode: "v", Seed: 7})
					}
				}
			}
		}
	}
	// every batching of 5 documents x every set of restarts, three mixes
	nb := 4
	if tier == "thorough" {
		nb = 5
	}
	for mi, mode := range []string{"v", "t", "m"} {
		for _, comp := range compositions(nb) {
			for _, rs := range subsets(len(comp)) {
				add("batching", nearCase{Vecs: []int{6, 7, 0, 4, 8, 3}[:nb], Batches: comp, Restart: rs, Mode: mode, Seed: int64(mi + 1), Final: len(rs)%2 == 1})
			}
		}
	}
	// every assignment of upper layers (sum <= 3) to 6 vectors
	for li, ls := range levelSeeds {
		for pi, perm := range [][]int{{6, 7, 0, 4, 8, 3}, {3, 8, 1, 2, 0, 7}, {5, 0, 4, 7, 6, 1}} {
			if tier != "thorough" && pi > 0 && (li+pi)%2 == 0 {
				continue
			}
			add("levels", nearCase{Vecs: perm, Batches: []int{6}, Mode: "v", Seed: ls.Seed, Full: true})
			add("levels", nearCase{Vecs: perm, Batches: []int{3, 3}, Mode: "t", Seed: ls.Seed})
			add("levels", nearCase{Vecs: perm, Batches: []int{3, 2, 1}, Restart: []int{1, 2}, Mode: "v", Seed: ls.Seed, Final: pi == 1})
		}
	}
	// many documents: the search may not stop short of them
	sizes := []int{420}
	if tier == "thorough" {
		sizes = []int{300, 420, 600, 799}
	}
	for _, n := range sizes {
		add("many", nearCase{Gen: n, Dim: 8, Batches: []int{n}, Mode: "v", Seed: 1, Final: true})
		add("many", nearCase{Gen: n, Dim: 16, Batches: []int{n / 2, n - n/2}, Mode: "v", Seed: 2})
	}
	// collections in which connections are selected and several layers exist
	for _, n := range []int{64, 100, 150} {
		for _, dim := range []int{2, 3, 8} {
			for s := int64(0); s < 3; s++ {
				add("big", nearCase{Gen: n, Dim: dim, Batches: []int{n}, Mode: "v", Seed: s})
				add("big", nearCase{Gen: n, Dim: dim, Batches: []int{n / 3, n - n/3}, Restart: []int{1}, Mode: "v", Seed: s, Final: s == 1})
			}
		}
	}
	// larger collections: still small enough that the level-0 graph is complete
	for _, n := range []int{5, 8, 12, 17, 23, 28} {
		for _, dim := range []int{2, 3, 7, 8, 9, 16, 33} {
			for s := int64(0); s < 2; s++ {
				half := []int{n / 2, n - n/2}
				add("larger", nearCase{Gen: n, Dim: dim, Batches: []int{n}, Mode: "v", Seed: s})
				add("larger", nearCase{Gen: n, Dim: dim, Batches: half, Restart: []int{1}, Mode: "v", Seed: s + 11, Final: true})
				if tier == "thorough" {
					ones := []int{}
					for i := 0; i < n; i++ {
						ones = append(ones, 1)
					}
					add("larger", nearCase{Gen: n, Dim: dim, Batches: ones, Mode: "v", Seed: s + 20})
				}
			}
		}
	}
	return cs
}
