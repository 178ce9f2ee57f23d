package main

import (
	"encoding/json"
	"fmt"
	"sync"
	"sync/atomic"
	"time"

	"github.com/fairDataSociety/FaVe/vmc/dsim"
	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairDataSociety/FaVe/vmc/vrace"
	"github.com/fairDataSociety/FaVe/vmc/vsync"
)

// concCase: operation A is preempted at its Kth scheduling point (store call
// or lock operation), then B runs; A continues when B is done, waits for
// something A holds, or, with J >= 0, is itself preempted at its Jth point.
type concCase struct {
	A, B  int
	Fresh bool `json:"f,omitempty"` // the process was just started, nothing is open
	Lo    int
	Of    int
	Race  bool `json:"race,omitempty"` // watch for unsynchronised accesses
	Two   bool `json:"two,omitempty"`  // preempt B as well, at every store call
	All   bool `json:"all,omitempty"`  // every point; otherwise see concPoints
}

// concPoints chooses the points of A at which it is preempted. Reads of the
// store do not change anything: of a run of reads only the first and the last
// are distinguished. A fresh process differs from a warm one until the first
// write to the store.
func concPoints(trace []string, cc concCase) (ks []int) {
	if cc.Race && !cc.All {
		// accesses without order are found in any schedule in which nothing
		// orders them by chance: A is done, or at one of seven points on its way
		for i := 1; i < 8; i++ {
			ks = append(ks, i*len(trace)/8)
		}
		return append(ks, len(trace))
	}
	for k, kind := range trace {
		if cc.All {
			ks = append(ks, k)
			continue
		}
		if cc.Fresh && kind == "write" {
			break
		}
		if kind != "read" || k == 0 || trace[k-1] != "read" || k+1 == len(trace) || trace[k+1] != "read" {
			ks = append(ks, k)
		}
	}
	return append(ks, len(trace)) // A is done when B starts
}

type concOp struct {
	name string
	// write operations: applied to the model (the pre-generated documents)
	col  string
	docs []*dsim.MDoc
	kind string // add, create, delete, near, get, list
	q    dsim.Near
	id   string
	prop string
}

// concOps builds the operations anew for every execution; the tag makes the
// documents of the two sides different.
func concOps(tag string) []concOp {
	mk := func(kind, id string, n, vi int) *dsim.MDoc {
		var d *dsim.MDoc
		switch kind {
		case "t":
			d = dsim.DT(id, n, vi)
		case "n":
			d = dsim.DN(id, n)
		default:
			d = dsim.D(id, n, dsim.Alphabet[vi])
		}
		d.Props["title"] = fmt.Sprintf("%s-%s-%d", id, tag, n)
		return d
	}
	o := 0
	if tag == "B" {
		o = 500
	}
	return []concOp{
		{name: "add one", kind: "add", col: "col", docs: []*dsim.MDoc{mk("v", "x"+tag, 100+o, 1)}},
		{name: "add batch", kind: "add", col: "col", docs: []*dsim.MDoc{mk("t", "y"+tag, 110+o, 2), mk("n", "z"+tag, 120+o, 0), mk("v", "w"+tag, 130+o, 7)}},
		{name: "replace a", kind: "add", col: "col", docs: []*dsim.MDoc{mk("v", "a", 140+o, 8)}},
		{name: "near-vector", kind: "near", col: "col", q: dsim.Near{Vec: dsim.Alphabet[6], Dist: 2.5}},
		{name: "near-text", kind: "near", col: "col", q: dsim.Near{Text: "v7", Dist: 2.5, Limit: 2}},
		{name: "get b", kind: "get", col: "col", prop: "id", id: "b"},
		{name: "list", kind: "list"},
		{name: "create second", kind: "create", col: "second"},
		{name: "delete other", kind: "delete", col: "other"},
		{name: "add to other", kind: "add", col: "other", docs: []*dsim.MDoc{mk("v", "ox"+tag, 150+o, 3)}},
		{name: "near on other", kind: "near", col: "other", q: dsim.Near{Vec: dsim.Alphabet[0], Dist: 2.5}},
		{name: "create col again", kind: "create", col: "col"},
		{name: "get a", kind: "get", col: "col", prop: "id", id: "a"},
	}
}

type concWorld struct {
	st   *fenv.Store
	base *fenv.Store
	cols map[string]*dsim.MCol
}

// concBase builds the starting collections once per worker.
var concBase = sync.OnceValue(func() *concWorld {
	w := &concWorld{st: dsim.World.Fresh(), cols: map[string]*dsim.MCol{}}
	dsim.SeedLevels(4)
	cl := dsim.Open(w.st)
	for _, n := range []string{"col", "other"} {
		m := dsim.NewCol(n)
		if err := cl.CreateCollection(m.Real()); err != nil {
			panic(err)
		}
		ds := []*dsim.MDoc{dsim.D("a", 1, dsim.Alphabet[0]), dsim.DT("b", 2, 4), dsim.DN("c", 3)}
		for _, d := range ds {
			d.Props["title"] = n + "-" + d.ID
		}
		if err := dsim.Add(cl, n, ds...); err != nil {
			panic(err)
		}
		m.Put(ds...)
		w.cols[n] = m
	}
	return w
})

type concRes struct {
	err   error
	docs  [][]byte
	dists []float32
	raw   []byte
	names []string
}

func (o concOp) run(l *life) (res concRes) {
	switch o.kind {
	case "add":
		res.err = dsim.Add(l.cl, o.col, o.docs...)
	case "near":
		res.docs, res.dists, res.err = o.q.Do(l.cl, o.col)
	case "get":
		res.raw, res.err = l.cl.GetDocument(o.col, o.prop, o.id)
	case "list":
		res.names, res.err = dsim.Names(l.cl)
	case "create":
		m := dsim.NewCol(o.col)
		res.err = l.cl.CreateCollection(m.Real())
	case "delete":
		res.err = l.cl.DeleteCollection(o.col)
	}
	return
}

// apply performs a write on the model; ok tells whether it is expected to be
// acknowledged.
func (o concOp) apply(cols map[string]*dsim.MCol) (ok bool) {
	switch o.kind {
	case "add":
		m := cols[o.col]
		if m == nil {
			return false
		}
		m = m.Clone()
		m.Put(o.docs...)
		cols[o.col] = m
	case "create":
		if cols[o.col] == nil {
			cols[o.col] = dsim.NewCol(o.col)
		}
	case "delete":
		delete(cols, o.col)
	}
	return true
}

func copyCols(c map[string]*dsim.MCol) map[string]*dsim.MCol {
	n := map[string]*dsim.MCol{}
	for k, v := range c {
		n[k] = v.Clone()
	}
	return n
}

// judgeRead: o ran while other was running.
func (o concOp) judgeRead(before map[string]*dsim.MCol, other concOp, res concRes) error {
	m := before[o.col]
	switch o.kind {
	case "near", "get":
		if other.kind == "delete" && other.col == o.col && res.err != nil {
			return nil // deleted in between
		}
		// the documents of an add appear one after the other, each in one step
		states := [][]*dsim.MDoc{m.Docs}
		if other.kind == "add" && other.col == o.col {
			mm := m
			for _, d := range other.docs {
				mm = mm.Clone()
				mm.Put(d)
				states = append(states, mm.Docs)
			}
		}
		var first error
		for _, docs := range states {
			var err error
			if o.kind == "near" {
				err = dsim.JudgeNear(dsim.Want{Must: docs}, o.q, res.docs, res.dists, res.err)
			} else {
				err = fmt.Errorf("get %s failed: %v", o.id, res.err)
				if res.err == nil {
					err = fmt.Errorf("get %s returned %s", o.id, res.raw)
					for _, d := range docs {
						if d.ID == o.id && dsim.SameDoc(res.raw, d) == nil {
							err = nil
						}
					}
				}
			}
			if err == nil {
				return nil
			}
			if first == nil {
				first = err
			}
		}
		return first
	case "list":
		if res.err != nil {
			return fmt.Errorf("listing failed: %v", res.err)
		}
		after := copyCols(before)
		other.apply(after)
		if fmt.Sprint(res.names) != fmt.Sprint(sortedNames(before)) && fmt.Sprint(res.names) != fmt.Sprint(sortedNames(after)) {
			return fmt.Errorf("collections listed as %v", res.names)
		}
	}
	return nil
}

func sortedNames(c map[string]*dsim.MCol) []string {
	l := &life{cols: c}
	return l.names()
}

const farAway = 1 << 30

// concRun performs one schedule. reached tells whether A got to its Kth point.
func concRun(cc concCase, k, j int, trace *[]string) (a, b concRes, opA, opB concOp, l *life, reachedA, reachedB bool, hang string) {
	base := concBase()
	l = &life{st: base.st.Clone(), cols: copyCols(base.cols)}
	dsim.SeedLevels(9)
	l.cl = dsim.Open(l.st)
	opA, opB = concOps("A")[cc.A], concOps("B")[cc.B]
	if !cc.Fresh {
		// everything is open and cached
		for _, n := range []string{"col", "other"} {
			if err := l.near(n, dsim.Near{Vec: dsim.Alphabet[5], Dist: 2.5}); err != nil {
				panic(err)
			}
		}
	}
	var tmu sync.Mutex
	var whoA, whoB atomic.Int64
	var nA, nB, moves, blocked int32
	parkedA, parkedB := make(chan struct{}), make(chan struct{})
	resumeA, resumeB := make(chan struct{}), make(chan struct{})
	point := func(kind string) {
		who := vsync.Who()
		if who == 0 {
			return // background work
		}
		switch who {
		case whoA.Load():
			atomic.AddInt32(&moves, 1)
			if trace != nil {
				tmu.Lock()
				*trace = append(*trace, kind)
				tmu.Unlock()
			}
			if n := atomic.AddInt32(&nA, 1) - 1; int(n) == k {
				close(parkedA)
				<-resumeA
			}
		case whoB.Load():
			atomic.AddInt32(&moves, 1)
			if cc.Two && (kind == "read" || kind == "write") {
				if n := atomic.AddInt32(&nB, 1) - 1; int(n) == j {
					close(parkedB)
					<-resumeB
				}
			}
		}
	}
	vsync.Control(point, func(d int) {
		if who := vsync.Who(); who != 0 && (who == whoA.Load() || who == whoB.Load()) {
			atomic.AddInt32(&blocked, int32(d))
		}
	})
	defer vsync.Control(nil, nil)
	l.st.Hook = func(op fenv.Op, mut bool, key string) error {
		if mut {
			point("write")
		} else {
			point("read")
		}
		return nil
	}
	doneA, doneB := make(chan struct{}), make(chan struct{})
	quit := time.After(60 * time.Second)

	// the race detector is to see the synchronisation of the code under test
	// only, not that of this scheduler
	finA, finB := make(chan struct{}), make(chan struct{})
	start := func(who *atomic.Int64, op concOp, res *concRes, done, fin chan struct{}) {
		vrace.Hide()
		who.Store(vsync.Begin())
		vrace.Show()
		*res = op.run(l)
		vrace.Hide()
		close(done)
		vrace.Show()
		close(fin)
	}
	go start(&whoA, opA, &a, doneA, finA)
	vrace.Hide()
	defer vrace.Show()
	select {
	case <-parkedA:
		reachedA = true
	case <-doneA:
	case <-quit:
		hang = "A alone does not finish"
		return
	}
	vrace.Show()
	go start(&whoB, opB, &b, doneB, finB)
	vrace.Hide()
	// until B is done, preempted, or waits for A
	idle, last := 0, int32(-1)
wait:
	for {
		select {
		case <-doneB:
			break wait
		case <-parkedB:
			reachedB = true
			break wait
		case <-time.After(500 * time.Microsecond):
			if m := atomic.LoadInt32(&moves); m != last {
				last, idle = m, 0
			} else {
				idle++
			}
			if idle >= 4 && atomic.LoadInt32(&blocked) > 0 || idle >= 40 {
				break wait
			}
		}
	}
	close(resumeA)
	if reachedB {
		// A runs until it is done or waits for B
		idle, last = 0, -1
	waitA:
		for {
			select {
			case <-doneA:
				break waitA
			case <-time.After(500 * time.Microsecond):
				if m := atomic.LoadInt32(&moves); m != last {
					last, idle = m, 0
				} else {
					idle++
				}
				if idle >= 4 && atomic.LoadInt32(&blocked) > 0 || idle >= 40 {
					break waitA
				}
			}
		}
	}
	close(resumeB)
	for _, d := range []chan struct{}{doneA, doneB} {
		select {
		case <-d:
		case <-quit:
			hang = "the two operations wait for each other"
			return
		}
	}
	vrace.Show()
	<-finA
	<-finB
	vrace.Hide()
	l.st.Hook = nil
	return
}

func concJudge(cc concCase, a, b concRes, opA, opB concOp, l *life) error {
	before := l.cols
	for _, x := range []struct {
		o, other concOp
		r        concRes
	}{{opA, opB, a}, {opB, opA, b}} {
		if err := x.o.judgeRead(before, x.other, x.r); err != nil {
			return fmt.Errorf("%s: %v", x.o.name, err)
		}
	}
	// the writes are equivalent to one of the two orders
	var first error
	for order := 0; order < 2; order++ {
		cols := copyCols(before)
		f, s, rf, rs := opA, opB, a, b
		if order == 1 {
			f, s, rf, rs = opB, opA, b, a
		}
		err := func() error {
			for _, x := range []struct {
				o concOp
				r concRes
			}{{f, rf}, {s, rs}} {
				ok := x.o.apply(cols)
				if write := x.o.kind == "add" || x.o.kind == "create" || x.o.kind == "delete"; write && ok != (x.r.err == nil) {
					return fmt.Errorf("%s: acknowledged=%v error=%v", x.o.name, x.r.err == nil, x.r.err)
				}
			}
			l.cols = cols
			if err := l.brief("col", "other", "second"); err != nil {
				return fmt.Errorf("afterwards: %v", err)
			}
			return nil
		}()
		if err == nil {
			first = nil
			break
		}
		if first == nil {
			first = err
		}
	}
	if first != nil {
		return first
	}
	// and further requests work
	write := func(o concOp) bool { return o.kind == "add" || o.kind == "create" || o.kind == "delete" }
	if write(opA) && write(opB) {
		l.cols = copyCols(l.cols)
		for _, n := range []string{"col", "other"} {
			m := l.cols[n]
			if m == nil {
				m = dsim.NewCol(n)
				if err := l.cl.CreateCollection(m.Real()); err != nil {
					return fmt.Errorf("afterwards creating %q again failed: %v", n, err)
				}
				l.cols[n] = m
			} else if n != opA.col && n != opB.col {
				continue
			}
			d := dsim.D("post", 900, dsim.Alphabet[3])
			d.Props["title"] = n + "-post"
			if err := dsim.Add(l.cl, n, d); err != nil {
				return fmt.Errorf("a further add to %q failed: %v", n, err)
			}
			m.Put(d)
		}
		if err := l.brief("col", "other", "second"); err != nil {
			return fmt.Errorf("after a further request: %v", err)
		}
	}
	// and stay so
	l.cl = dsim.Open(l.st)
	if err := l.checkNamed("col", "other", "second"); err != nil {
		return fmt.Errorf("after a restart: %v", err)
	}
	return nil
}

// brief checks the listing, every document by id and by near-search.
func (l *life) brief(names ...string) error {
	got, err := dsim.Names(l.cl)
	if err != nil || fmt.Sprint(got) != fmt.Sprint(l.names()) {
		return fmt.Errorf("collections listed as %v (%v), existing are %v", got, err, l.names())
	}
	for _, n := range names {
		if err := l.near(n, dsim.Near{Vec: dsim.Alphabet[6], Dist: 2.5}); err != nil {
			return err
		}
		if m := l.cols[n]; m != nil {
			for _, d := range m.Docs {
				if err := dsim.CheckGet(l.cl, n, d); err != nil {
					return err
				}
			}
		}
	}
	return nil
}

func runConc(c kit.Case, r *kit.Result) {
	var cc concCase
	if err := json.Unmarshal(c.Data, &cc); err != nil {
		panic(err)
	}
	one := func(k, j int) (reachedA, reachedB bool) {
		a, b, opA, opB, l, ra, rb, hang := concRun(cc, k, j, nil)
		r.Executions++
		r.Transitions += 2
		where := fmt.Sprintf("%q preempted at point %d, %q runs (preempted at %d), fresh=%v", opA.name, k, opB.name, j, cc.Fresh)
		if hang != "" {
			r.Fail("deadlock", "%s: %s", where, hang)
			return false, false
		}
		if cc.Race {
			for _, rep := range vrace.New() {
				r.Fail("race", "%s: unsynchronised accesses: %s", where, rep)
			}
			r.State(fmt.Sprint("race", cc, k, j))
			r.Outcome(fmt.Sprintf("race: %s | %s: no unsynchronised access", opA.name, opB.name))
			return ra, rb
		}
		if err := concJudge(cc, a, b, opA, opB, l); err != nil {
			sig := "schedule"
			if opA.kind == "get" && opB.name == "replace a" || opB.kind == "get" && opA.name == "replace a" {
				if g := map[bool]concOp{true: opA, false: opB}[opA.kind == "get"]; g.id == "a" {
					sig = "get-during-replace"
				}
			}
			r.Fail(sig, "%s: %v", where, err)
		}
		r.State(fmt.Sprint(cc, k, j))
		r.Outcome(fmt.Sprintf("%s | %s: %v %v, %d %d documents", opA.name, opB.name, a.err == nil, b.err == nil, len(a.docs), len(b.docs)))
		return ra, rb
	}
	var trace []string
	if _, _, _, _, _, _, _, hang := concRun(cc, farAway, farAway, &trace); hang != "" {
		r.Fail("deadlock", "%s without preemption: %s", c.Data, hang)
		return
	}
	ks := concPoints(trace, cc)
	for i := cc.Lo; i < len(ks); i += cc.Of {
		if !cc.Two {
			one(ks[i], farAway)
			continue
		}
		for j := 0; ; j++ {
			if _, rb := one(ks[i], j); !rb {
				break
			}
		}
	}
	r.Sample("%s: every preemption gives a legal outcome", c.Data)
}

func concCases(tier string) []kit.Case {
	var cs []kit.Case
	ops := concOps("A")
	write := func(o concOp) bool { return o.kind == "add" || o.kind == "create" || o.kind == "delete" }
	// unsynchronised accesses of any two requests, also of reads
	for _, fresh := range []bool{false, true} {
		for a := range ops {
			for b := range ops {
				cs = append(cs, kit.MkCase("race", concCase{A: a, B: b, Fresh: fresh, Of: 1, Race: true, All: tier == "thorough"}))
			}
		}
	}
	for _, fresh := range []bool{false, true} {
		for a := range ops {
			for b := range ops {
				if !write(ops[a]) && !write(ops[b]) {
					continue // reads do not change anything
				}
				of := 4
				for lo := 0; lo < of; lo++ {
					cs = append(cs, kit.MkCase("pair", concCase{A: a, B: b, Fresh: fresh, Lo: lo, Of: of, All: tier == "thorough"}))
				}
			}
		}
	}
	// reads open the collection
	for _, p := range [][2]int{{3, 3}, {4, 5}, {5, 3}, {12, 5}} {
		cs = append(cs, kit.MkCase("reads", concCase{A: p[0], B: p[1], Fresh: true, Of: 1, All: tier == "thorough"}))
	}
	if tier == "thorough" {
		for a := range ops {
			for b := range ops {
				if write(ops[a]) && ops[b].kind != "list" || write(ops[b]) && ops[a].kind != "list" {
					for lo := 0; lo < 16; lo++ {
						cs = append(cs, kit.MkCase("two", concCase{A: a, B: b, Lo: lo, Of: 16, Two: true}))
					}
				}
			}
		}
	}
	return cs
}
