package main

import (
	"encoding/json"
	"fmt"

	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

// crashCase: an operation sequence (hist operations, -1 = the collection is
// created after the crash window opens) executed once; then every crash point
// of the last operation (and of the creation, when Create is set) is a process
// death: only the writes before it are in the store.
type crashCase struct {
	Ops    []int `json:"ops"`
	Seed   int64 `json:"s"`
	Create bool  `json:"c,omitempty"` // crash inside the creation instead of the last operation
	Lo     int   `json:"lo"`          // slice of the crash points: those with n % Of == Lo
	Of     int   `json:"of"`
	Bulk   int   `json:"b,omitempty"` // begins with this many documents
}

// exact checks that precisely the acknowledged state is there and that the
// interrupted add can be repeated.
func exact(h *hist, docs []*dsim.MDoc, r *kit.Result) error {
	if err := h.checkAll(r); err != nil {
		return fmt.Errorf("after recovery: %v", err)
	}
	for _, d := range docs {
		if h.m.Get(d.ID) == nil {
			if raw, err := h.cl.GetDocument(h.m.Name, "id", d.ID); err == nil {
				return fmt.Errorf("after recovery document %s of the interrupted operation is there: %s", d.ID, raw)
			}
		}
	}
	if len(docs) == 0 {
		docs = []*dsim.MDoc{dsim.D("x", 7000, dsim.Alphabet[2]), dsim.DT("y", 8000, 3)}
	}
	if err := dsim.Add(h.cl, h.m.Name, docs...); err != nil {
		return fmt.Errorf("adding after recovery failed: %v", err)
	}
	h.m = h.m.Clone()
	h.m.Put(docs...)
	if err := h.checkAll(r); err != nil {
		return fmt.Errorf("after recovery and an add: %v", err)
	}
	h.cl = dsim.Open(h.st)
	if err := h.checkAll(r); err != nil {
		return fmt.Errorf("after recovery, an add and a restart: %v", err)
	}
	return nil
}

// torn checks a store in which only some of the feeds of the interrupted
// operation were published.
func torn(h *hist, before *dsim.MCol, docs []*dsim.MDoc, r *kit.Result) (acked, sane error) {
	inter := map[string]bool{}
	for _, d := range docs {
		inter[d.ID] = true
	}
	keep := before.Clone()
	keep.Docs = nil
	versions := map[string][]*dsim.MDoc{}
	for _, d := range before.Docs {
		versions[d.ID] = append(versions[d.ID], d)
		if !inter[d.ID] {
			keep.Docs = append(keep.Docs, d)
		}
	}
	for _, d := range docs {
		versions[d.ID] = append(versions[d.ID], d)
	}
	for id, vs := range versions {
		raw, err := h.cl.GetDocument(before.Name, "id", id)
		if err != nil {
			continue
		}
		ok := false
		for _, d := range vs {
			ok = ok || dsim.SameDoc(raw, d) == nil
		}
		if !ok {
			sane = fmt.Errorf("get id=%s returned %s, which was never added", id, raw)
		}
	}
	var maybe []*dsim.MDoc
	for _, vs := range versions {
		maybe = append(maybe, vs...)
	}
	acked = dsim.CheckCol(h.cl, keep, maybe)
	return acked, sane
}

func runCrash(c kit.Case, r *kit.Result) {
	var cc crashCase
	if err := json.Unmarshal(c.Data, &cc); err != nil {
		panic(err)
	}
	h, err := newHistBulk(cc.Seed, cc.Bulk)
	if err != nil {
		r.Fail("create-failed", "%v", err)
		return
	}
	created := h.st.Writes()
	before := h.m.Clone()
	from := 0
	for i, op := range cc.Ops {
		if i == len(cc.Ops)-1 {
			before = h.m.Clone()
			from = h.st.Writes()
		}
		if err := h.step(op); err != nil {
			r.Fail("history", "%v at step %d of %q", err, i, opNames(cc.Ops))
			return
		}
	}
	to := h.st.Writes()
	if cc.Create {
		from, to = 0, created
	}
	// documents of the interrupted operation
	var docs []*dsim.MDoc
	for _, d := range h.m.Docs {
		if before.Get(d.ID) != d {
			docs = append(docs, d)
		}
	}
	src := h.st
	publish := src.FirstSOC(from)
	r.Outcome(fmt.Sprintf("%d writes, %d of them feed updates", to-from, to-publish))
	for n := from; n <= to; n++ {
		if n%cc.Of != cc.Lo {
			continue
		}
		hr := &hist{st: src.At(n)}
		hr.cl = dsim.Open(hr.st)
		r.Transitions++
		r.Executions++
		r.State(fmt.Sprint(cc, n))
		if cc.Create {
			where := fmt.Sprintf("process death after write %d of %d of the creation (first feed update: %d)", n, to, publish)
			if n == to {
				names, err := dsim.Names(hr.cl)
				if err != nil || len(names) != 1 {
					r.Fail("crash", "%s: acknowledged collection missing: %v %v", where, names, err)
					return
				}
			}
			sig := "crash"
			if n > publish && n < to {
				sig = "torn-create"
			}
			// creating again must work, and the collection must be usable
			hr.m = dsim.NewCol("col")
			if err := hr.cl.CreateCollection(hr.m.Real()); err != nil {
				r.Fail(sig, "%s: creating the collection again fails: %v", where, err)
				continue
			}
			if err := exact(hr, nil, r); err != nil {
				r.Fail(sig, "%s: %v", where, err)
			}
			continue
		}
		where := fmt.Sprintf("process death after write %d of %d of %q (first feed update: %d)", n-from, to-from, opNames(cc.Ops), publish-from)
		switch {
		case n <= publish:
			hr.m = before
			if err := exact(hr, docs, r); err != nil {
				r.Fail("crash", "%s: %v", where, err)
				return
			}
		case n == to:
			hr.m = h.m
			if err := exact(hr, nil, r); err != nil {
				r.Fail("crash", "%s: %v", where, err)
				return
			}
		default:
			acked, sane := torn(hr, before, docs, r)
			if sane != nil {
				r.Fail("torn-garbage", "%s: %v", where, sane)
			}
			if acked != nil {
				r.Fail("torn-commit", "%s: %v", where, acked)
			}
		}
	}
	r.Sample("%q: all %d crash points recovered", opNames(cc.Ops), to-from+1)
}

func crashCases(tier string) []kit.Case {
	var cs []kit.Case
	of := 4
	add := func(g string, cc crashCase) {
		for lo := 0; lo < of; lo++ {
			cc.Lo, cc.Of = lo, of
			cs = append(cs, kit.MkCase(g, cc))
		}
	}
	add("create", crashCase{Create: true})
	depth := 2
	if tier == "thorough" {
		depth = 3
	}
	sequences(len(histOps), depth, func(ops []int) {
		if l := ops[len(ops)-1]; l >= 5 && l <= 7 {
			return
		}
		add(fmt.Sprintf("depth%d", len(ops)), crashCase{Ops: ops, Seed: 1})
	})
	// next to many documents
	of = 8
	add("bulk", crashCase{Ops: []int{0}, Seed: 1, Bulk: 75})
	add("bulk", crashCase{Ops: []int{3}, Seed: 1, Bulk: 75})
	if tier == "thorough" {
		add("bulk", crashCase{Ops: []int{4}, Seed: 1, Bulk: 75})
		add("bulk", crashCase{Ops: []int{0, 9}, Seed: 1, Bulk: 140})
	}
	return cs
}
