package main

import (
	"fmt"
	"math/rand"
	"sync/atomic"

	"github.com/fairDataSociety/FaVe/vmc/fenv"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairDataSociety/FaVe/vmc/vos"
	"github.com/fairDataSociety/FaVe/vmc/vrace"
	"github.com/fairDataSociety/FaVe/vmc/vtime"
)

// raceSearch: two operations, searches first of all, of which nothing but the
// index orders one before the other; for every pair the index is as after Every's restart, cache
// wipe or neither.
func raceSearch(sc sizeCase, r *kit.Result) {
	vtime.Reset()
	w, err := newWorld(config{Metric: "cosine", M: sc.M, EFC: 2 * sc.M, Cutoff: 20}, sc.Seed)
	desc := func() string { return fmt.Sprintf("%+v", sc) }
	if err != nil {
		r.Fail("create", "creating an index: %v", err)
		return
	}
	vec := func(i int) []float32 { return family(sc.Fam, sc.N, i) }
	few := map[uint64]bool{}
	for i := 0; i < sc.N; i++ {
		id := sc.First + uint64(i)*sc.Step
		if i%2 == 1 {
			few[id] = true
		}
		if err := w.add(id, vec(i)); err != nil {
			r.Fail("add", "vector %d: %v: %s", i, err, desc())
			return
		}
	}
	if err := w.save(uint64(sc.N)); err != nil {
		r.Fail("flush", "%v: %s", err, desc())
		return
	}
	added := uint64(0)
	type op struct {
		name string
		run  func() error
	}
	ops := []op{
		{"nearest", func() error {
			ids, ds, err := w.idx.SearchByVector(vec(1), 3, nil)
			if err == nil {
				err = w.judge(ids, ds, vec(1), nil, 3, 10)
			}
			return err
		}},
		{"all", func() error {
			ids, ds, err := w.idx.KnnSearchByVectorMaxDist(vec(sc.N-1), 2.5, 0, nil)
			if err == nil {
				err = w.judge(ids, ds, vec(sc.N-1), nil, -1, 2.5)
			}
			return err
		}},
		{"filter", func() error {
			ids, ds, err := w.idx.SearchByVector(vec(0), 3, allowList(few))
			if err == nil {
				err = w.judge(ids, ds, vec(0), few, 3, 10)
			}
			return err
		}},
		{"distance", func() error {
			ids, ds, err := w.idx.SearchByVectorDistance(vec(2), 0.5, -1, allowList(few))
			if err == nil {
				err = w.judge(ids, ds, vec(2), few, -1, 0.5)
			}
			return err
		}},
		{"wipe", func() error { vtime.Fire(); return nil }},
		{"update", func() error {
			return w.idx.(updater).UpdateUserConfig(config{M: sc.M, EFC: 2 * sc.M, Cutoff: 20, EF: 5}.ent(), func() {})
		}},
		{"count", func() error {
			n, err := w.idx.GetDocCount()
			if err == nil && n != uint64(sc.N) {
				err = fmt.Errorf("%d vectors", n)
			}
			return err
		}},
		{"add", func() error {
			added++
			return w.idx.Add(added+sc.First+uint64(sc.N)*sc.Step, vec(1))
		}},
		{"add and flush", func() error {
			added++
			err := w.idx.Add(added+sc.First+uint64(sc.N)*sc.Step, vec(2))
			if err == nil {
				err = w.idx.Flush(uint64(sc.N))
			}
			return err
		}},
	}
	type pair struct{ a, b op }
	var pairs []pair // those with an add last: it changes what is found
	reads := ops[:len(ops)-2]
	for _, a := range reads {
		for _, b := range reads {
			pairs = append(pairs, pair{a, b})
		}
	}
	for _, add := range ops[len(ops)-2:] { // (adds wait for each other in the client)
		for _, a := range reads {
			pairs = append(pairs, pair{a, add}, pair{add, a})
		}
	}
	for _, p := range pairs {
		a, b := p.a, p.b
		// the second one runs at a call of the store by the first, or when a
		// vector is not in its cache
		for _, at := range []int64{0, missing, missing + 3} {
			if sc.Restart {
				vtime.Reset()
				rand.Seed(sc.Seed) //nolint
				if err := w.open(); err != nil {
					r.Fail("restart", "%v: %s", err, desc())
					return
				}
			}
			if sc.Wipe {
				vtime.Fire()
			}
			var errs [2]error
			var calls atomic.Int64
			vrace.Within(func(pause func()) {
				w.st.Hook = func(fenv.Op, bool, string) error {
					if calls.Add(1) == at+1 {
						pause()
					}
					return nil
				}
				var misses atomic.Int64
				w.thunk = func() {
					vrace.Hide()
					defer vrace.Show()
					if misses.Add(1) == at-missing+1 {
						pause()
					}
				}
				errs[0] = a.run()
			}, func() { errs[1] = b.run() })
			w.st.Hook, w.thunk = nil, nil
			r.Executions++
			r.Transitions += 2
			for _, err := range errs {
				if err != nil && added == 0 { // (what was added may or may not be found)
					r.Fail("race-search", "%s and %s: %v: %s", a.name, b.name, err, desc())
				}
			}
			for _, rep := range vrace.New() {
				r.Fail("race-search", "%s and %s: unsynchronised accesses: %s: %s", a.name, b.name, rep, desc())
			}
		}
	}
	r.State("race-search", desc())
	r.Outcome("race-search: no unsynchronised access")
}

const missing = 1000000

// raceLog: one operation on a commit log, and another at every change of the
// file system that the first one makes, or after it.
func raceLog(cc clogCase, r *kit.Result) {
	type op struct {
		name string
		run  func(l *clog) error
	}
	ops := []op{
		{"switch", func(l *clog) error { return l.log.SwitchCommitLogs(true) }},
		{"autoswitch", func(l *clog) error { l.sw.tick(); return nil }},
		{"tick", func(l *clog) error { l.cc.tick(); return nil }},
		{"flush", func(l *clog) error { return l.log.Flush() }},
		{"busy", func(l *clog) error {
			l.log.(interface{ MaintenanceInProgress() bool }).MaintenanceInProgress()
			return nil
		}},
	}
	for _, rc := range []rec{{T: "node", ID: far, L: 1}, {T: "link", ID: 1, To: []uint64{0}}, {T: "replace", ID: 0, To: []uint64{far}}, {T: "clearlevel", ID: 0},
		{T: "ep", ID: 1}, {T: "tomb", ID: 1}, {T: "delete", ID: 0}, {T: "untomb", ID: 0}, {T: "clear", ID: 0}, {T: "reset"}} {
		rc := rc
		ops = append(ops, op{rc.String(), func(l *clog) error { return l.write(rc) }})
	}
	a := ops[cc.Size]
	for _, b := range ops {
		if a.name == b.name && (a.name == "tick" || a.name == "autoswitch") {
			continue // a cycle never runs twice at a time
		}
		for at := int64(0); ; at++ {
			l, err := newClog(40, 1<<40, false)
			if err != nil {
				r.Fail("harness", "%v", err)
				return
			}
			desc := fmt.Sprintf("a log with %d runs of maintenance, %s, at its change %d of the files %s", cc.Every, a.name, at, b.name)
			calls, ok := raceLogOnce(l, cc.Every, at, func() error { return a.run(l) }, func() error { return b.run(l) }, desc, r)
			l.remove()
			if !ok {
				return
			}
			if calls <= at {
				break
			}
		}
	}
	r.State("race-log", a.name, cc.Every)
	r.Outcome("race-log: no unsynchronised access")
}

func raceLogOnce(l *clog, ticks int, at int64, a, b func() error, desc string, r *kit.Result) (int64, bool) {
	fail := func(err error) (int64, bool) {
		r.Fail("race-log", "%s: %v", desc, err)
		return 0, false
	}
	if _, err := l.open(); err != nil {
		return fail(err)
	}
	for _, rc := range append(append([]rec{}, maintPrefix...), rec{T: "switch"}, rec{T: "link", ID: 0, L: 1, To: []uint64{1}}, rec{T: "switch"},
		rec{T: "tomb", ID: 5}, rec{T: "switch"}, rec{T: "replace", ID: 1, To: []uint64{0}}, rec{T: "node", ID: 2}, rec{T: "node", ID: 3}, rec{T: "node", ID: 4}) {
		var err error
		if rc.T == "switch" {
			err = l.log.SwitchCommitLogs(true)
		} else {
			err = l.write(rc)
		}
		if err != nil {
			return fail(err)
		}
	}
	for i := 0; i < ticks; i++ {
		l.cc.tick()
	}
	var errs [2]error
	var calls atomic.Int64
	before := len(l.all)
	vrace.Within(func(pause func()) {
		vos.Hook = func(string, string) {
			vrace.Hide()
			defer vrace.Show()
			if calls.Add(1) == at+1 {
				pause()
			}
		}
		errs[0] = a()
	}, func() { errs[1] = b() })
	vos.Hook = nil
	r.Executions++
	r.Transitions += 2
	for _, err := range errs {
		if err != nil {
			return fail(err)
		}
	}
	for _, rep := range vrace.New() {
		r.Fail("race-log", "%s: unsynchronised accesses: %s", desc, rep)
	}
	if err := l.flush(); err != nil {
		return fail(err)
	}
	got, err := l.look()
	want := stateOf(l.all)
	if err == nil && got.String() != want.String() && len(l.all) == before+2 {
		l.all[before], l.all[before+1] = l.all[before+1], l.all[before]
		want = stateOf(l.all)
	}
	if err != nil || got.String() != want.String() {
		return fail(fmt.Errorf("the log reads {%v} (%v), want {%v}", got, err, want))
	}
	return calls.Load(), true
}

// raceConf: two documents of settings are read at the same time.
func raceConf(f int, r *kit.Result) {
	for g := range fields {
		for _, all := range []bool{false, true} {
			a, b := []setting{{f, distinct(f, 0)}}, []setting{{g, distinct(g, 1)}}
			if all {
				for h := range fields {
					if h != f {
						a = append(a, setting{h, distinct(h, 1)})
					}
				}
			}
			var m [2]kit.Result
			vrace.Apart(func() { checkSettings(&m[0], a) }, func() { checkSettings(&m[1], b) })
			r.Executions++
			r.Transitions += 2
			for i := range m {
				for _, v := range m[i].Violations {
					r.Fail(v.Signature, "at the same time as others: %s", v.Detail)
				}
			}
			for _, rep := range vrace.New() {
				r.Fail("race-conf", "settings %s and %s read at the same time: unsynchronised accesses: %s", document(a), document(b), rep)
			}
		}
	}
}
