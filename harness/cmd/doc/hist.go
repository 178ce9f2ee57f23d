package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/fairDataSociety/FaVe/pkg/document"
	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

// histCase is one operation sequence on one collection.
type histCase struct {
	Ops  []int `json:"ops"`
	Seed int64 `json:"s"`
	Bulk int   `json:"b,omitempty"` // begins with this many documents
}

// hist runs operation sequences; rev numbers make every stored version of a
// document distinguishable.
type hist struct {
	st  *fenv.Store
	cl  *document.Client
	m   *dsim.MCol
	rev int
	// documents of the last add, also when it failed
	lastDocs []*dsim.MDoc
}

func newHist(seed int64) (*hist, error) {
	dsim.SeedLevels(seed)
	h := &hist{st: dsim.World.Fresh(), m: dsim.NewCol("col")}
	h.cl = dsim.Open(h.st)
	return h, h.cl.CreateCollection(h.m.Real())
}

var bulkStores = map[int]*fenv.Store{}

func bulkDocs(n int) []*dsim.MDoc {
	var ds []*dsim.MDoc
	for i := 0; i < n; i++ {
		f := float32(i) / float32(n)
		v := []float32{1, f / 2, f * f}
		if i%2 == 1 {
			v = []float32{-1, f * f, f / 3}
		}
		d := dsim.D(fmt.Sprintf("bulk%03d", i), 10000+i, v)
		d.Bulk = i%25 != 7
		ds = append(ds, d)
	}
	return ds
}

// newHistBulk begins with a collection of n documents, more than a node of the
// vector index has links, in a process that was started after they were added.
func newHistBulk(seed int64, n int) (*hist, error) {
	if n == 0 {
		return newHist(seed)
	}
	ds := bulkDocs(n)
	if bulkStores[n] == nil {
		h, err := newHist(1)
		if err != nil {
			return nil, err
		}
		for at := 0; at < n; {
			to := at + n/2 + 1
			if to > n {
				to = n
			}
			if err := dsim.Add(h.cl, h.m.Name, ds[at:to]...); err != nil {
				return nil, err
			}
			at = to
		}
		bulkStores[n] = h.st
	}
	dsim.SeedLevels(seed)
	h := &hist{st: bulkStores[n].Clone(), m: dsim.NewCol("col")}
	h.m.Docs = ds
	h.cl = dsim.Open(h.st)
	return h, nil
}

func (h *hist) doc(kind, id string) *dsim.MDoc {
	h.rev++
	vi := h.rev % len(dsim.Alphabet)
	var d *dsim.MDoc
	switch kind {
	case "t":
		d = dsim.DT(id, h.rev, vi)
	case "n":
		d = dsim.DN(id, h.rev)
	default:
		d = dsim.D(id, h.rev, dsim.Alphabet[vi])
		d.Form = kind
	}
	d.Props["title"] = fmt.Sprintf("t-%s-%d", id, h.rev)
	return d
}

var histOps = []string{"add a(vector)", "add b(text)", "add c(no vector)", "batch d(vector) e(text) f(no vector)",
	"batch a(vector) g(vector) a(vector) again", "restart", "near-search", "restart and get", "replace a without vector", "replace b(vector) and c(text)"}

func (h *hist) step(op int) error {
	var ds []*dsim.MDoc
	switch op {
	case 0:
		ds = append(ds, h.doc("v", "a"))
	case 1:
		ds = append(ds, h.doc("t", "b"))
	case 2:
		ds = append(ds, h.doc("n", "c"))
	case 3:
		ds = append(ds, h.doc("f64", "d"), h.doc("t", "e"), h.doc("n", "f"))
	case 4:
		ds = append(ds, h.doc("num", "a"), h.doc("v", "g"), h.doc("v", "a"))
	case 5:
		h.cl = dsim.Open(h.st)
		return nil
	case 6:
		return dsim.CheckNear(h.cl, h.m.Name, dsim.Want{Must: h.m.Docs}, dsim.Near{Text: "v4", Dist: 2.5, Limit: 1})
	case 7:
		h.cl = dsim.Open(h.st)
		return dsim.CheckLookup(h.cl, h.m.Name, h.m.Docs, "id", "a")
	case 8:
		ds = append(ds, h.doc("n", "a"))
	case 9:
		ds = append(ds, h.doc("v", "b"), h.doc("t", "c"))
	}
	h.lastDocs = ds
	if err := dsim.Add(h.cl, h.m.Name, ds...); err != nil {
		return fmt.Errorf("%s failed: %v", histOps[op], err)
	}
	h.m.Put(ds...)
	return nil
}

func opNames(ops []int) []string {
	var s []string
	for _, o := range ops {
		s = append(s, histOps[o])
	}
	return s
}

// checkAll: every way of reaching the documents, plus limited searches.
func (h *hist) checkAll(r *kit.Result) error {
	if err := dsim.CheckCol(h.cl, h.m, nil); err != nil {
		return err
	}
	for _, q := range []dsim.Near{{Vec: dsim.Alphabet[1], Dist: 2.5, Limit: 1}, {Text: "v7", Dist: 2.5, Limit: 2}, {Vec: dsim.Alphabet[8], Dist: 0.9}} {
		if err := dsim.CheckNear(h.cl, h.m.Name, dsim.Want{Must: h.m.Docs}, q); err != nil {
			return err
		}
		r.Transitions++
	}
	for _, id := range []string{"a", "b", "zz"} {
		if h.m.Get(id) == nil {
			if raw, err := h.cl.GetDocument(h.m.Name, "id", id); err == nil {
				return fmt.Errorf("get id=%s, never added, returned %s", id, raw)
			}
		}
	}
	return nil
}

// checkOn is checkAll with another client.
func (h *hist) checkOn(cl *document.Client, r *kit.Result) error {
	o := *h
	o.cl = cl
	return o.checkAll(r)
}

func runHist(c kit.Case, r *kit.Result) {
	if c.Group == "values" {
		runValue(c, r)
		return
	}
	var hc histCase
	if err := json.Unmarshal(c.Data, &hc); err != nil {
		panic(err)
	}
	h, err := newHistBulk(hc.Seed, hc.Bulk)
	if err != nil {
		r.Fail("create-failed", "%v", err)
		return
	}
	for i, op := range hc.Ops {
		if err := h.step(op); err != nil {
			r.Fail("history", "%v at step %d of %q", err, i, opNames(hc.Ops))
			return
		}
		r.Transitions++
	}
	if err := h.checkAll(r); err != nil {
		r.Fail("history", "%v after %q", err, opNames(hc.Ops))
		return
	}
	h.cl = dsim.Open(h.st)
	if err := h.checkAll(r); err != nil {
		r.Fail("history-restart", "%v after %q and a restart", err, opNames(hc.Ops))
		return
	}
	r.Executions++
	key := ""
	for _, d := range h.m.Docs {
		key += fmt.Sprint(d.ID, d.Props["n"], d.Vec != nil, ";")
	}
	r.State(key)
	r.Outcome(fmt.Sprintf("%d documents, %d steps", len(h.m.Docs), len(hc.Ops)))
	r.Sample("%q: all %d documents intact before and after a restart", opNames(hc.Ops), len(h.m.Docs))
}

func sequences(n, depth int, f func([]int)) {
	var rec func([]int)
	rec = func(p []int) {
		if len(p) > 0 {
			f(append([]int{}, p...))
		}
		if len(p) == depth {
			return
		}
		for o := 0; o < n; o++ {
			rec(append(p, o))
		}
	}
	rec(nil)
}

// valueCase: a document with one unusual property survives everything intact.
type valueCase struct {
	Value int    `json:"v"`
	Place string `json:"p"` // top, nested, list, name, reserved
	Kind  string `json:"k"` // kind of document
}

func long(s string, n int) string { return strings.Repeat(s, n) }

var histValues = []interface{}{"", " ", "plain", "ä", "日本語", "\U0001F600", "a\"b", `a\b`, "a\nb\tc", "<b>&amp;</b>", "\u2028\u2029", "\x00", "null", "true", "1", "1e3", "{}", "[]", `{"id":"x"}`,
	long("x", 255), long("y", 4095), long("z", 4096), long("w", 5000), long("é", 9000), 0.0, 1.0, -1.0, 0.1, 1e21, 1e-9, 1e308, 123456789012345.0, -2147483649.0, 4294967296.0, true, false, nil,
	[]interface{}{}, map[string]interface{}{}, []interface{}{nil, []interface{}{}, "x", 1.5, map[string]interface{}{"": nil}}, map[string]interface{}{"id": "zz", "vector": []interface{}{1.0}, "hnswId": "7", "a.b": "c", "": 1.0}}

var histNames = []string{"", " ", "ID", "Id", "_id", "hnswid", "vectors", "distance", "properties", "a.b", "$x", "content ", "ä", "日本", `"`, `\`, "<>&", "\n", "title ", "nn", long("k", 300)}

func runValue(c kit.Case, r *kit.Result) {
	var vc valueCase
	if err := json.Unmarshal(c.Data, &vc); err != nil {
		panic(err)
	}
	h, err := newHist(int64(vc.Value))
	if err != nil {
		r.Fail("create-failed", "%v", err)
		return
	}
	var what string
	mk := func(id string) *dsim.MDoc {
		d := h.doc(vc.Kind, id)
		switch vc.Place {
		case "top":
			d.Props["extra"] = histValues[vc.Value]
			what = fmt.Sprintf("%q", d.Props["extra"])
		case "nested":
			d.Props["extra"] = map[string]interface{}{"x": histValues[vc.Value], "y": map[string]interface{}{"z": histValues[vc.Value]}}
		case "list":
			d.Props["extra"] = []interface{}{histValues[vc.Value], "mid", histValues[vc.Value]}
		case "name":
			d.Props[histNames[vc.Value]] = "value of " + id
			what = fmt.Sprintf("property named %q", histNames[vc.Value])
		case "reserved":
			// names the database uses itself: its own values have to win
			d.Props[[]string{"id", "hnswId"}[vc.Value%2]] = []interface{}{"x1", "7", "other", 7.0, nil, ""}[vc.Value/2]
		}
		return d
	}
	other := func(id string) *dsim.MDoc { return h.doc("v", id) }
	add := func(ds ...*dsim.MDoc) bool {
		if err := dsim.Add(h.cl, h.m.Name, ds...); err != nil {
			r.Fail("value", "adding a document with %s (%s, %s) failed: %v", what, vc.Place, vc.Kind, err)
			return false
		}
		h.m.Put(ds...)
		r.Transitions++
		return true
	}
	check := func(when string) bool {
		r.Executions++
		if err := h.checkAll(r); err != nil {
			r.Fail("value", "%v, %s (%s of %s document, %s)", err, when, vc.Place, vc.Kind, what)
			return false
		}
		return true
	}
	if !add(other("other")) || !add(mk("x1")) || !check("after the add") {
		return
	}
	h.cl = dsim.Open(h.st)
	if !check("after a restart") || !add(mk("x2"), other("o2"), mk("x1")) || !check("after a batch that replaces it") {
		return
	}
	h.cl = dsim.Open(h.st)
	if !check("after a second restart") || !add(other("x1")) || !check("after replacing it with a plain document") {
		return
	}
	r.State(string(c.Data))
	r.Outcome("values: " + vc.Place)
	r.Sample("document with %s (%s) intact after adds, replacements and restarts", what, vc.Place)
}

func valueCases(tier string) []kit.Case {
	var cs []kit.Case
	kinds := []string{"v"}
	if tier == "thorough" {
		kinds = []string{"v", "t", "n"}
	}
	for _, k := range kinds {
		for _, p := range []string{"top", "nested", "list"} {
			for v := range histValues {
				cs = append(cs, kit.MkCase("values", valueCase{v, p, k}))
			}
		}
		for v := range histNames {
			cs = append(cs, kit.MkCase("values", valueCase{v, "name", k}))
		}
		for v := 0; v < 12; v++ {
			cs = append(cs, kit.MkCase("values", valueCase{v, "reserved", k}))
		}
	}
	return cs
}

func histCases(tier string) []kit.Case {
	cs := valueCases(tier)
	depth := 3
	if tier == "thorough" {
		depth = 5
	}
	sequences(len(histOps), depth, func(ops []int) {
		// two reads or restarts in a row are the same as one
		for i := 1; i < len(ops); i++ {
			if ops[i] == ops[i-1] && (ops[i] == 5 || ops[i] == 6 || ops[i] == 7) {
				return
			}
		}
		if l := ops[len(ops)-1]; l >= 5 && l <= 7 {
			return // the final check reads and restarts anyway
		}
		cs = append(cs, kit.MkCase(fmt.Sprintf("depth%d", len(ops)), histCase{Ops: ops, Seed: int64(len(cs) % 7)}))
	})
	// deeper, on the operations that interact: replace, restart, batch
	if tier != "thorough" {
		sub := []int{0, 3, 4, 5, 8}
		sequences(len(sub), 5, func(ix []int) {
			if len(ix) < 4 {
				return
			}
			ops := []int{}
			for i, x := range ix {
				if i > 0 && ix[i] == ix[i-1] && sub[x] == 5 {
					return
				}
				ops = append(ops, sub[x])
			}
			if ops[len(ops)-1] == 5 {
				return
			}
			if len(ops) == 5 && (ops[1] != 5 && ops[2] != 5 && ops[3] != 5) {
				return
			}
			cs = append(cs, kit.MkCase(fmt.Sprintf("deep%d", len(ops)), histCase{Ops: ops, Seed: int64(len(cs) % 7)}))
		})
	}
	// the same next to many documents
	d := 2
	if tier == "thorough" {
		d = 3
	}
	sequences(len(histOps), d, func(ops []int) {
		if l := ops[len(ops)-1]; l >= 5 && l <= 7 {
			return
		}
		cs = append(cs, kit.MkCase("bulk", histCase{Ops: ops, Seed: int64(len(cs)), Bulk: 75}))
		if len(ops) == 2 {
			cs = append(cs, kit.MkCase("bulk", histCase{Ops: append([]int{3, 5}, ops...), Seed: int64(len(cs)), Bulk: 62}))
		}
	})
	return cs
}
