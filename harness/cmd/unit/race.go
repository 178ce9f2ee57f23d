package main

import (
	"fmt"
	"math"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/distancer"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"
	"github.com/fairDataSociety/FaVe/vmc/kit"
	"github.com/fairDataSociety/FaVe/vmc/vrace"
)

// poolRace: two users of one pool, each with a sequence of b (borrow and visit),
// r (return what was borrowed last) and d (destroy).
func poolRace(size int, r *kit.Result) {
	var seqs []string
	for _, a := range []string{"b", "r", "d"} {
		seqs = append(seqs, a)
		for _, b := range []string{"b", "r", "d"} {
			seqs = append(seqs, a+b)
			for _, c := range []string{"b", "r", "d"} {
				seqs = append(seqs, a+b+c)
			}
		}
	}
	for _, s := range seqs {
		for _, t := range seqs {
			p := visited.NewPool(size, 8)
			var hands [2][]visited.ListSet
			var errs [2]error
			for u := range hands {
				hands[u] = []visited.ListSet{p.Borrow()}
			}
			user := func(u int, ops string) func() {
				return func() {
					for _, op := range ops {
						hand := hands[u]
						switch {
						case op == 'b':
							l := p.Borrow()
							for n := uint64(0); n < 8; n++ {
								if l.Visited(n) {
									errs[u] = fmt.Errorf("user %d: node %d of a borrowed set is visited already", u, n)
								}
							}
							l.Visit(uint64(u))
							hands[u] = append(hand, l)
						case op == 'r' && len(hand) > 0:
							p.Return(hand[len(hand)-1])
							hands[u] = hand[:len(hand)-1]
						case op == 'd':
							p.Destroy()
						}
					}
				}
			}
			vrace.Apart(user(0, s), user(1, t))
			r.Executions++
			r.Transitions += len(s) + len(t)
			for _, err := range errs {
				if err != nil {
					r.Fail("race-pool", "pool of %d, users %s and %s: %v", size, s, t, err)
				}
			}
			for _, rep := range vrace.New() {
				r.Fail("race-pool", "pool of %d, users %s and %s: unsynchronised accesses: %s", size, s, t, rep)
			}
		}
	}
	r.State("race-pool", size)
	r.Outcome("race-pool: no unsynchronised access")
}

// distRace: two callers of distance functions at the same time.
func distRace(r *kit.Result) {
	type call struct {
		name string
		run  func(n int) error
	}
	geo := distancer.NewGeoProvider()
	var calls []call
	var m kit.Result // of the calls
	pair := func(n, p int) (a, b []float32) {
		a, b = make([]float32, n), make([]float32, n)
		for i := range a {
			a[i], b[i] = values(p, i)
		}
		return a, b
	}
	for _, x := range metrics() {
		x := x
		calls = append(calls, call{x.name, func(n int) error {
			a, b := pair(n, 10)
			return x.check(a, b, &m)
		}})
	}
	calls = append(calls, call{"normalize", func(n int) error {
		v, _ := pair(n, 11)
		var norm float64
		for _, x := range v {
			norm += float64(x) * float64(x)
		}
		for i, x := range distancer.Normalize(v) {
			if want := float64(v[i]) / math.Sqrt(norm); norm > 0 && math.Abs(float64(x)-want) > 1e-4*math.Abs(want)+1e-30 {
				return fmt.Errorf("component %d is %v, want %v", i, x, want)
			}
		}
		return nil
	}}, call{"geo", func(n int) error {
		d, _, err := geo.SingleDist([]float32{52.366, 4.9}, []float32{45, float32(n)})
		e, _, err2 := geo.New([]float32{52.366, 4.9}).Distance([]float32{45, float32(n)})
		if err != nil || err2 != nil || d != e {
			return fmt.Errorf("%v %v %v %v", d, e, err, err2)
		}
		return nil
	}})
	for _, x := range calls {
		for _, y := range calls {
			for _, n := range []int{0, 1, 2, 3, 7, 8, 16, 33, 130, 257} {
				for _, o := range []int{n, 5, 64} {
					var errs [2]error
					vrace.Apart(func() { errs[0] = x.run(n) }, func() { errs[1] = y.run(o) })
					r.Executions++
					r.Transitions += 2
					for _, err := range errs {
						if err != nil {
							r.Fail("race-dist", "%s of %d and %s of %d dimensions at the same time: %v", x.name, n, y.name, o, err)
						}
					}
					for _, rep := range vrace.New() {
						r.Fail("race-dist", "%s of %d and %s of %d dimensions at the same time: unsynchronised accesses: %s", x.name, n, y.name, o, rep)
					}
				}
			}
		}
		r.State("race-dist", x.name)
	}
	r.Outcome("race-dist: no unsynchronised access")
}

// queueRace: two queues (or visited sets), each of one user, at the same time.
func queueRace(r *kit.Result) {
	var seqs [][]int
	for a := 0; a < 7; a++ {
		for b := 0; b < 7; b++ {
			seqs = append(seqs, []int{a, b, 1, 3, 0, 2, 4, 3, 6, 1, 3})
		}
	}
	kinds := []string{"min", "max", "min-index", "max-index", "visited"}
	for _, k := range kinds {
		for _, l := range kinds {
			for i, s := range seqs {
				for _, t := range [][]int{s, seqs[(i*5+3)%len(seqs)]} {
					var errs [2]error
					var m [2]kit.Result
					user := func(u int, kind string, ops []int) func() {
						return func() {
							if kind == "visited" {
								errs[u] = visitSeq(4, ops, &m[u])
							} else {
								errs[u] = queueSeq(kind, 2, ops, &m[u])
							}
						}
					}
					vrace.Apart(user(0, k, s), user(1, l, t))
					r.Executions++
					r.Transitions += len(s) + len(t)
					for _, err := range errs {
						if err != nil {
							r.Fail("race-queue", "%s %v and %s %v at the same time: %v", k, s, l, t, err)
						}
					}
					for _, rep := range vrace.New() {
						r.Fail("race-queue", "%s %v and %s %v at the same time: unsynchronised accesses: %s", k, s, l, t, rep)
					}
				}
			}
		}
		r.State("race-queue", k)
	}
	r.Outcome("race-queue: no unsynchronised access")
}
