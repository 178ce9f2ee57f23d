package main

import (
	"encoding/json"
	"fmt"
	"runtime/debug"
	"strings"
	"sync/atomic"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairdatasociety/fairOS-dfs/pkg/collection"
)

// faultCase: a history, optionally a restart, then one target operation during
// which the Kth store call fails (Outage: all calls from the Kth on fail).
type faultCase struct {
	Ops     []int  `json:"ops"`
	Target  string `json:"t"`
	Restart bool   `json:"r,omitempty"`
	Outage  bool   `json:"o,omitempty"`
	Win     int    `json:"w,omitempty"` // this many calls in a row fail (0: one)
	Lo, Of  int
	Bulk    int   `json:"b,omitempty"` // begins with this many documents
	Seed    int64 `json:"s"`
}

// fails tells whether the nth call fails when the failing starts with the kth.
func (fc faultCase) fails(n, k int) bool {
	return n == k || n > k && (fc.Outage || n < k+fc.Win)
}

// target operations: reads return an error or the right answer; adds are
// hist operations by number.
var faultReads = []string{"near-vector", "near-text", "get-id", "get-title", "get-n", "list"}
var faultAdds = []int{0, 1, 2, 3, 9}

func (h *hist) faultRead(t string) error {
	pick := func() *dsim.MDoc {
		if len(h.m.Docs) == 0 {
			return nil
		}
		return h.m.Docs[len(h.m.Docs)/2]
	}
	judge := func(err, wrong error) error {
		if err != nil {
			return nil // a reported failure is fine
		}
		return wrong
	}
	switch t {
	case "near-vector", "near-text":
		q := dsim.Near{Vec: dsim.Alphabet[6], Dist: 2.5}
		if t == "near-text" {
			q = dsim.Near{Text: "v7", Dist: 1.5, Limit: 2}
		}
		docs, dists, err := q.Do(h.cl, h.m.Name)
		return judge(err, dsim.JudgeNear(dsim.Want{Must: h.m.Docs}, q, docs, dists, nil))
	case "get-id", "get-title", "get-n":
		d := pick()
		if d == nil {
			return nil
		}
		p := t[4:]
		v := fmt.Sprint(d.Props[p])
		if p == "id" {
			v = d.ID
		}
		raw, err := h.cl.GetDocument(h.m.Name, p, v)
		return judge(err, dsim.SameDoc(raw, d))
	case "list":
		names, err := dsim.Names(h.cl)
		return judge(err, func() error {
			if len(names) != 1 || names[0] != h.m.Name {
				return fmt.Errorf("collections listed as %v", names)
			}
			return nil
		}())
	}
	panic(t)
}

type faultErr struct {
	sig  string
	err  error
	stop bool
}

// judgeFaultyAdd checks the state after an add during which the store failed:
// acknowledged documents (also those of the add, when it was acknowledged) are
// all there, now and after a restart, and the add can be repeated.
func (h *hist) judgeFaultyAdd(before *dsim.MCol, docs []*dsim.MDoc, addErr error, r *kit.Result) *faultErr {
	if addErr == nil {
		if err := h.checkAll(r); err != nil {
			return &faultErr{"acked-add-lost", fmt.Errorf("the add was acknowledged: %v", err), true}
		}
		h.cl = dsim.Open(h.st)
		if err := h.checkAll(r); err != nil {
			return &faultErr{"acked-add-lost-restart", fmt.Errorf("the add was acknowledged, but after a restart: %v", err), true}
		}
		return nil
	}
	// untouched documents are exact, touched ones are old or new
	inter := map[string]bool{}
	for _, d := range docs {
		inter[d.ID] = true
	}
	keep := before.Clone()
	keep.Docs = nil
	maybe := append([]*dsim.MDoc{}, docs...)
	for _, d := range before.Docs {
		if inter[d.ID] {
			maybe = append(maybe, d)
		} else {
			keep.Docs = append(keep.Docs, d)
		}
	}
	if err := dsim.CheckCol(h.cl, keep, maybe); err != nil {
		return &faultErr{"failed-add-harm", fmt.Errorf("the add failed (%v) and then: %v", addErr, err), true}
	}
	// a restart after the failure: nothing of the failed add was committed
	hr := &hist{st: h.st.Clone()}
	hr.cl = dsim.Open(hr.st)
	if err := dsim.CheckCol(hr.cl, keep, maybe); err != nil {
		return &faultErr{"failed-add-harm-restart", fmt.Errorf("the add failed (%v) and after a restart: %v", addErr, err), true}
	}
	// another document
	x := dsim.D("x-after", 9001, dsim.Alphabet[1])
	if err := dsim.Add(h.cl, before.Name, x); err != nil {
		return &faultErr{"add-after-failed-add", fmt.Errorf("the add failed (%v); adding another document then failed: %v", addErr, err), true}
	}
	keep.Put(x)
	if err := dsim.CheckCol(h.cl, keep, maybe); err != nil {
		return &faultErr{"add-after-failed-add", fmt.Errorf("the add failed (%v), another one succeeded, and then: %v", addErr, err), true}
	}
	// repeating the add
	if err := dsim.Add(h.cl, before.Name, docs...); err != nil {
		return &faultErr{"retry", fmt.Errorf("the add failed (%v); repeating it with a working store failed: %v", addErr, err), true}
	}
	h.m = before.Clone()
	h.m.Put(x)
	h.m.Put(docs...)
	if err := h.checkAll(r); err != nil {
		return &faultErr{"retry", fmt.Errorf("the add failed (%v), was repeated, and then: %v", addErr, err), true}
	}
	h.cl = dsim.Open(h.st)
	if err := h.checkAll(r); err != nil {
		return &faultErr{"retry", fmt.Errorf("the add failed (%v), was repeated, and after a restart: %v", addErr, err), true}
	}
	return nil
}

// runFaultLife: a collection "col" with documents; deleting it, or creating a
// second one, while a store call fails.
func runFaultLife(fc faultCase, r *kit.Result) {
	for k := fc.Lo; ; k += fc.Of {
		h, err := newHistBulk(fc.Seed, fc.Bulk)
		if err != nil {
			r.Fail("create-failed", "%v", err)
			return
		}
		for i, op := range fc.Ops {
			if err := h.step(op); err != nil {
				r.Fail("history", "%v at step %d of %q", err, i, opNames(fc.Ops))
				return
			}
		}
		if fc.Restart {
			h.cl = dsim.Open(h.st)
		}
		l := &life{st: h.st, cl: h.cl, cols: map[string]*dsim.MCol{"col": h.m}}
		var calls int32
		var hit, inCommit int32
		phase := ""
		h.st.Hook = func(op fenv.Op, mut bool, key string) error {
			n := int(atomic.AddInt32(&calls, 1) - 1)
			if fc.fails(n, k) {
				ph := faultPhase()
				if n == k {
					phase = ph + " " + string(op)
				}
				if ph == "commit" {
					atomic.StoreInt32(&inCommit, 1)
				}
				atomic.StoreInt32(&hit, 1)
				return fenv.ErrInjected
			}
			return nil
		}
		do := func() error {
			if fc.Target == "delete" {
				return l.cl.DeleteCollection("col")
			}
			return l.cl.CreateCollection(&document.Collection{Name: "second", Indexes: map[string]collection.IndexType{"title": collection.StringIndex}})
		}
		err = do()
		h.st.Hook = nil
		where := fmt.Sprintf("failing store call %d (%s, outage=%v) of %s after %q restart=%v", k, phase, fc.Outage, fc.Target, opNames(fc.Ops), fc.Restart)
		r.Executions++
		r.Transitions++
		r.Outcome(fmt.Sprintf("%s %s hit=%v failed=%v", fc.Target, phase, hit == 1, err != nil))
		judge := func(what string) error {
			names, err := dsim.Names(l.cl)
			if err != nil {
				return fmt.Errorf("%s: listing failed: %v", what, err)
			}
			if fc.Target == "delete" {
				if len(names) != 0 {
					return fmt.Errorf("%s: collections %v are listed", what, names)
				}
				if raw, err := l.cl.GetDocument("col", "id", "a"); err == nil {
					return fmt.Errorf("%s: a document of the deleted collection is returned: %s", what, raw)
				}
				return nil
			}
			if fmt.Sprint(names) != "[col second]" {
				return fmt.Errorf("%s: collections %v are listed", what, names)
			}
			if err := h.checkOn(l.cl, r); err != nil {
				return fmt.Errorf("%s: the other collection: %v", what, err)
			}
			return nil
		}
		usable := func() error {
			m := dsim.NewCol("col")
			if fc.Target == "create" {
				m.Name = "second"
				m.Indexes = map[string]collection.IndexType{"title": collection.StringIndex}
			} else if err := l.cl.CreateCollection(m.Real()); err != nil {
				return fmt.Errorf("creating it again failed: %v", err)
			}
			d := dsim.D("fresh", 77, dsim.Alphabet[4])
			if err := dsim.Add(l.cl, m.Name, d); err != nil {
				return fmt.Errorf("adding to the new collection failed: %v", err)
			}
			m.Put(d)
			if err := dsim.CheckCol(l.cl, m, nil); err != nil {
				return fmt.Errorf("new collection: %v", err)
			}
			l.cl = dsim.Open(h.st)
			if err := dsim.CheckCol(l.cl, m, nil); err != nil {
				return fmt.Errorf("new collection after a restart: %v", err)
			}
			return nil
		}
		fail := func(sig string, e error) {
			if inCommit == 1 {
				sig = "commit-failure-swallowed"
			}
			r.Fail(sig, "%s: %v", where, e)
		}
		if err == nil {
			e := judge("acknowledged")
			if e == nil {
				l.cl = dsim.Open(h.st)
				e = judge("acknowledged, after a restart")
			}
			if e == nil {
				e = usable()
			}
			if e != nil {
				fail("acked-"+fc.Target+"-lost", e)
			}
		} else {
			e := do()
			if e != nil && (e.Error() == "index already present" || e.Error() == "index not present") {
				r.Fail("retry-"+fc.Target+"-partial", "%s: it failed (%v); repeating it with a working store failed: %v", where, err, e)
				l.cl = dsim.Open(h.st)
				e = do()
			}
			if e != nil {
				e = fmt.Errorf("repeating it with a working store failed: %v", e)
			}
			if e == nil {
				e = judge("failed and repeated")
			}
			if e == nil {
				e = usable()
			}
			if e != nil {
				fail("retry-"+fc.Target, fmt.Errorf("it failed (%v); %v", err, e))
			}
		}
		r.State(fmt.Sprint(fc, k))
		if hit == 0 {
			break
		}
	}
	r.Sample("%s after %q: every failing call handled", fc.Target, opNames(fc.Ops))
}

// replaces tells whether one of the documents replaces an earlier one.
func replaces(before *dsim.MCol, docs []*dsim.MDoc) bool {
	seen := map[string]bool{}
	for _, d := range docs {
		if before.Get(d.ID) != nil || seen[d.ID] {
			return true
		}
		seen[d.ID] = true
	}
	return false
}

// faultPhase tells which part of the dependency made the failing call: the
// publishing of feeds, the document store's put, or anything else.
func faultPhase() string {
	stack := string(debug.Stack())
	switch {
	case strings.Contains(stack, "feed.(*Handler).commit"):
		return "commit"
	case strings.Contains(stack, "collection.(*Document).Put"):
		return "put"
	}
	return "other"
}

func runFault(c kit.Case, r *kit.Result) {
	var fc faultCase
	if err := json.Unmarshal(c.Data, &fc); err != nil {
		panic(err)
	}
	if fc.Target == "delete" || fc.Target == "create" {
		runFaultLife(fc, r)
		return
	}
	addOp, isRead := -1, false
	for _, t := range faultReads {
		isRead = isRead || t == fc.Target
	}
	if !isRead {
		if _, err := fmt.Sscanf(fc.Target, "add%d", &addOp); err != nil {
			panic(err)
		}
	}
	// the failing call is the Kth of the operation: K grows until the
	// operation completes without reaching it
	for k := fc.Lo; ; k += fc.Of {
		h, err := newHistBulk(fc.Seed, fc.Bulk)
		if err != nil {
			r.Fail("create-failed", "%v", err)
			return
		}
		for i, op := range fc.Ops {
			if err := h.step(op); err != nil {
				r.Fail("history", "%v at step %d of %q", err, i, opNames(fc.Ops))
				return
			}
		}
		if fc.Restart {
			h.cl = dsim.Open(h.st)
		}
		before := h.m.Clone()
		var calls, hit int32
		kind := fenv.Op("")
		phase, inCommit := "", int32(0)
		h.st.Hook = func(op fenv.Op, mut bool, key string) error {
			n := int(atomic.AddInt32(&calls, 1) - 1)
			if n == k {
				kind = op
			}
			if fc.fails(n, k) {
				ph := faultPhase()
				if n == k {
					phase = ph
				}
				if ph == "commit" {
					atomic.StoreInt32(&inCommit, 1)
				}
			}
			if fc.fails(n, k) {
				atomic.StoreInt32(&hit, 1)
				return fenv.ErrInjected
			}
			return nil
		}
		where := func() string {
			w := "failing store call"
			if fc.Outage {
				w = "store outage from call"
			} else if fc.Win > 1 {
				w = fmt.Sprintf("%d failing store calls from call", fc.Win)
			}
			return fmt.Sprintf("%s %d (%s, %s) of %s after %q restart=%v", w, k, kind, phase, fc.Target, opNames(fc.Ops), fc.Restart)
		}
		r.Executions++
		r.Transitions++
		if isRead {
			err := h.faultRead(fc.Target)
			h.st.Hook = nil
			if err != nil {
				r.Fail("fault-read", "%s: the answer is neither right nor an error: %v", where(), err)
				return
			}
			if err := h.checkAll(r); err != nil {
				r.Fail("fault-read-after", "%s: afterwards, with a working store: %v", where(), err)
				return
			}
		} else {
			err := h.step(addOp)
			h.st.Hook = nil
			r.Outcome(fmt.Sprintf("%s %s hit=%v failed=%v", fc.Target, kind, hit == 1, err != nil))
			if e := h.judgeFaultyAdd(before, h.lastDocs, err, r); e != nil {
				sig := e.sig
				if strings.HasPrefix(e.sig, "acked-add-lost") && inCommit == 1 {
					sig = "commit-failure-swallowed"
				}
				if strings.HasPrefix(e.sig, "acked-add-lost") && phase == "put" && (kind == fenv.OpDlBlob || kind == fenv.OpDlChunk) && replaces(before, h.lastDocs) {
					sig = "replace-read-failure-masked"
				}
				if e.sig == "retry" && phase == "put" {
					sig = "retry-after-partial-put"
				}
				r.Fail(sig, "%s: %v", where(), e.err)
			}
		}
		r.State(fmt.Sprint(fc, k))
		if hit == 0 {
			break
		}
	}
	r.Sample("%s after %q: every failing call handled", fc.Target, opNames(fc.Ops))
}

func faultCases(tier string) []kit.Case {
	var cs []kit.Case
	hists := [][]int{{}, {0}, {1}, {2}, {3}, {0, 5, 3}, {3, 4}}
	of := 8
	if tier == "thorough" {
		hists = nil
		sequences(6, 2, func(ops []int) { hists = append(hists, ops) })
		hists = append(hists, []int{}, []int{3, 4, 0}, []int{0, 5, 3, 9})
		of = 4
	}
	for _, ops := range hists {
		for _, restart := range []bool{false, true} {
			for _, win := range []int{0, -1, 4, 7, 12} {
				outage := win < 0
				if win < 0 {
					win = 0
				}
				ts := append([]string{}, faultReads...)
				if len(ops) == 0 {
					ts = []string{"near-vector", "list"}
				}
				for _, a := range faultAdds {
					ts = append(ts, fmt.Sprintf("add%d", a))
				}
				ts = append(ts, "create", "delete")
				for _, t := range ts {
					if win > 0 && (!restart || t[:4] != "near" && t[:3] != "add") {
						continue // reads that are retried or made in parallel
					}
					if tier != "thorough" {
						if win > 0 && (t != "near-vector" || len(ops) == 0 || win == 4) && (t != "add3" || len(ops) != 1 || win != 7) {
							continue
						}
						if (t == "create" || t == "delete") && len(ops) > 0 && ops[0] != 3 {
							continue
						}
						// quick: outages only where reads miss the caches, and
						// adds only after the histories that differ for them
						if outage && (!restart || len(ops) != 1) || t[:3] == "add" && (len(ops) == 1 && ops[0] != 0 || len(ops) == 3 || len(ops) == 2 && !restart) {
							continue
						}
					}
					for lo := 0; lo < of; lo++ {
						if lo > 1 && (t == "create" || t == "delete") {
							continue
						}
						g := "read"
						if t[:3] == "add" {
							g = "add"
						}
						of := of
						if t == "create" || t == "delete" {
							g, of = "life", 2
						}
						cs = append(cs, kit.MkCase(g, faultCase{Ops: ops, Target: t, Restart: restart, Outage: outage, Win: win, Lo: lo, Of: of, Seed: 3}))
					}
				}
			}
		}
	}
	// vectors on higher layers in the failing add, in the next and in the
	// repeated one
	for _, ls := range levelSeeds {
		top := ls.Levels[0] + ls.Levels[1] + ls.Levels[2]
		if top == 0 || tier != "thorough" && (top < 2 || top > 3 || ls.Levels[0] == 0 || ls.Levels[1] == 0 && ls.Levels[2] == 0) {
			continue
		}
		for _, t := range []string{"add3", "add0"} {
			if t == "add0" && (ls.Levels[0] == 0 || tier != "thorough") {
				continue
			}
			for lo := 0; lo < of; lo++ {
				cs = append(cs, kit.MkCase("layers", faultCase{Ops: []int{0}, Target: t, Lo: lo, Of: of, Seed: ls.Seed}))
			}
		}
	}
	// next to many documents (quick: every second call of the search and every fourth of the add)
	for lo := 0; lo < 16; lo++ {
		cs = append(cs, kit.MkCase("bulk", faultCase{Target: "near-vector", Lo: 2 * lo, Of: 32, Seed: 1, Bulk: 75}),
			kit.MkCase("bulk", faultCase{Target: "add0", Lo: 4 * lo, Of: 64, Seed: 1, Bulk: 75}))
		if tier == "thorough" {
			cs = append(cs, kit.MkCase("bulk", faultCase{Target: "near-vector", Lo: 2*lo + 1, Of: 32, Seed: 1, Bulk: 75}),
				kit.MkCase("bulk", faultCase{Target: "near-vector", Outage: true, Lo: lo, Of: 16, Seed: 1, Bulk: 75}),
				kit.MkCase("bulk", faultCase{Target: "add0", Lo: 4*lo + 1, Of: 64, Seed: 1, Bulk: 75}),
				kit.MkCase("bulk", faultCase{Target: "add0", Lo: 4*lo + 2, Of: 64, Seed: 1, Bulk: 75}),
				kit.MkCase("bulk", faultCase{Target: "add0", Lo: 4*lo + 3, Of: 64, Seed: 1, Bulk: 75}),
				kit.MkCase("bulk", faultCase{Target: "add3", Lo: lo, Of: 16, Seed: 1, Bulk: 75}))
		}
	}
	return cs
}
