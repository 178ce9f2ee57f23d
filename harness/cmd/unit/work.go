package main

import (
	"encoding/json"
	"fmt"

	"github.com/fairDataSociety/FaVe/pkg/hnsw/priorityqueue"
	"github.com/fairDataSociety/FaVe/pkg/hnsw/visited"
	"github.com/fairDataSociety/FaVe/vmc/kit"
)

// workCase: every continuation of the given prefix of operations up to Depth.
type workCase struct {
	Kind   string `json:"k"`
	Size   int    `json:"s,omitempty"`
	Prefix []int  `json:"p"`
	Depth  int    `json:"d"`
}

// queue is what both queues have in common.
type queue interface {
	Insert(id uint64, dist float32)
	Pop() priorityqueue.Item
	Top() priorityqueue.Item
	Len() int
	Reset()
	ResetCap(int)
}

type indexed struct {
	q *priorityqueue.QueueWithIndex
	r *kit.Result
}

func (i indexed) item(x priorityqueue.ItemWithIndex) priorityqueue.Item {
	if x.Index != x.ID*7+1 {
		i.r.Fail("index", "item %d comes back with index %d", x.ID, x.Index)
	}
	return priorityqueue.Item{ID: x.ID, Dist: x.Dist}
}
func (i indexed) Insert(id uint64, dist float32) { i.q.Insert(id, id*7+1, dist) }
func (i indexed) Pop() priorityqueue.Item        { return i.item(i.q.Pop()) }
func (i indexed) Top() priorityqueue.Item        { return i.item(i.q.Top()) }
func (i indexed) Len() int                       { return i.q.Len() }
func (i indexed) Reset()                         { i.q.Reset() }
func (i indexed) ResetCap(n int)                 { i.q.ResetCap(n) }

func newQueue(kind string, size int, r *kit.Result) queue {
	switch kind {
	case "min":
		return priorityqueue.NewMin(size)
	case "max":
		return priorityqueue.NewMax(size)
	case "min-index":
		return indexed{priorityqueue.NewMinWithIndex(size), r}
	}
	return indexed{priorityqueue.NewMaxWithIndex(size), r}
}

var queueDists = []float32{1, -1, 2.5}

type qmodel struct {
	max   bool
	items map[uint64]float32
	next  uint64
}

// take checks that got is a legal next item.
func (m *qmodel) check(got priorityqueue.Item) error {
	d, ok := m.items[got.ID]
	if !ok {
		return fmt.Errorf("item %d is not in the queue", got.ID)
	}
	if d != got.Dist {
		return fmt.Errorf("item %d was inserted with %v, comes back with %v", got.ID, d, got.Dist)
	}
	for id, o := range m.items {
		if m.max && o > d || !m.max && o < d {
			return fmt.Errorf("item %d (%v) comes before item %d (%v)", got.ID, d, id, o)
		}
	}
	return nil
}

// queueSeq runs one sequence: 0..2 insert, 3 pop, 4 top, 5 reset, 6 reset with
// another capacity; at the end everything is taken out.
func queueSeq(kind string, size int, ops []int, r *kit.Result) error {
	q := newQueue(kind, size, r)
	m := &qmodel{max: kind[:3] == "max", items: map[uint64]float32{}}
	pop := func() error {
		got := q.Pop()
		if err := m.check(got); err != nil {
			return err
		}
		delete(m.items, got.ID)
		return nil
	}
	for _, op := range ops {
		switch op {
		case 0, 1, 2:
			m.next++
			m.items[m.next] = queueDists[op]
			q.Insert(m.next, queueDists[op])
		case 3:
			if len(m.items) > 0 {
				if err := pop(); err != nil {
					return err
				}
			}
		case 4:
			if len(m.items) > 0 {
				if err := m.check(q.Top()); err != nil {
					return err
				}
			}
		case 5:
			q.Reset()
			m.items = map[uint64]float32{}
		case 6:
			q.ResetCap(size + 3)
			m.items = map[uint64]float32{}
		}
		r.Transitions++
		if q.Len() != len(m.items) {
			return fmt.Errorf("length %d instead of %d", q.Len(), len(m.items))
		}
	}
	for len(m.items) > 0 {
		if err := pop(); err != nil {
			return err
		}
	}
	if q.Len() != 0 {
		return fmt.Errorf("emptied queue has length %d", q.Len())
	}
	return nil
}

// fill inserts the given distances, then takes everything out (with one insert
// in between), in order.
func queueFill(kind string, dists []int, r *kit.Result) error {
	for mid := -1; mid <= len(dists); mid++ {
		q := newQueue(kind, 1, r)
		m := &qmodel{max: kind[:3] == "max", items: map[uint64]float32{}}
		for i, d := range dists {
			m.items[uint64(i)] = float32(d)
			q.Insert(uint64(i), float32(d))
		}
		for n := 0; len(m.items) > 0; n++ {
			if n == mid {
				m.items[99] = float32(len(dists) / 2)
				q.Insert(99, float32(len(dists)/2))
			}
			got := q.Pop()
			r.Transitions++
			if err := m.check(got); err != nil {
				return err
			}
			delete(m.items, got.ID)
		}
		if mid >= 0 && len(dists) < 7 {
			continue
		}
		if mid >= 0 {
			break
		}
	}
	return nil
}

// queueLarge fills a queue of n items in the order of the generator (i*step
// mod n, n multiples of a few distances, ascending, descending), takes a part
// out, fills it up again and empties it.
func queueLarge(kind string, n, step int, r *kit.Result) error {
	q := newQueue(kind, step%7, r)
	m := &qmodel{max: kind[:3] == "max", items: map[uint64]float32{}}
	dist := func(i int) float32 {
		switch step % 4 {
		case 0:
			return float32(i * step % n % 5)
		case 1:
			return float32(i * step % n)
		case 2:
			return -float32(i * step % n)
		}
		return float32(i%step) - float32(i)/float32(n)
	}
	insert := func(i int) {
		m.items[uint64(i)] = dist(i)
		q.Insert(uint64(i), dist(i))
		r.Transitions++
	}
	pop := func() error {
		if err := m.check(q.Top()); err != nil {
			return err
		}
		got := q.Pop()
		if err := m.check(got); err != nil {
			return err
		}
		delete(m.items, got.ID)
		r.Transitions++
		return nil
	}
	for i := 0; i < n; i++ {
		insert(i)
		if err := m.check(q.Top()); err != nil {
			return err
		}
	}
	for i := 0; i < n/2; i++ {
		if err := pop(); err != nil {
			return err
		}
	}
	for i := n; i < n+n/3; i++ {
		insert(i)
	}
	for len(m.items) > 0 {
		if q.Len() != len(m.items) {
			return fmt.Errorf("length %d instead of %d", q.Len(), len(m.items))
		}
		if err := pop(); err != nil {
			return err
		}
	}
	return nil
}

var visitNodes = []uint64{0, 1, 2, 7, 8, 1100, 70000}

// visitSeq: operations 0..6 visit a node, 7 reset, 8 reset 254 times, 9 reset
// 255 times, 10 the set is handed on by value.
func visitSeq(size int, ops []int, r *kit.Result) error {
	l := visited.NewList(size)
	m := map[uint64]bool{}
	for _, op := range ops {
		switch {
		case op < 7:
			l.Visit(visitNodes[op])
			m[visitNodes[op]] = true
		case op == 10:
			c := l
			l = c
		default:
			n := map[int]int{7: 1, 8: 254, 9: 255}[op]
			for i := 0; i < n; i++ {
				l.Reset()
			}
			m = map[uint64]bool{}
		}
		r.Transitions++
		for _, n := range append([]uint64{3, 6, 9, 2000, 100000}, visitNodes...) {
			if l.Visited(n) != m[n] {
				return fmt.Errorf("visited(%d) is %v, should be %v", n, l.Visited(n), m[n])
			}
		}
		if l.Len() < size {
			return fmt.Errorf("the set shrank to %d", l.Len())
		}
	}
	return nil
}

// poolSeq: 0 borrow; 1,2,3 return the set in the hand; 4,5,6 visit a small
// node with it; 7 visit a far node with the first; 8 destroy.
func poolSeq(size int, ops []int, r *kit.Result) error {
	p := visited.NewPool(size, 8)
	type held struct {
		l visited.ListSet
		m map[uint64]bool
	}
	var hand []*held
	for _, op := range ops {
		switch {
		case op == 0:
			if len(hand) < 3 {
				h := &held{p.Borrow(), map[uint64]bool{}}
				hand = append(hand, h)
			}
		case op <= 3:
			if i := op - 1; i < len(hand) {
				p.Return(hand[i].l)
				hand = append(append([]*held{}, hand[:i]...), hand[i+1:]...)
			}
		case op <= 6:
			if i := op - 4; i < len(hand) {
				hand[i].l.Visit(uint64(op))
				hand[i].m[uint64(op)] = true
			}
		case op == 7:
			if len(hand) > 0 {
				hand[0].l.Visit(3000)
				hand[0].m[3000] = true
			}
		case op == 8:
			p.Destroy()
		}
		r.Transitions++
		for i, h := range hand {
			for _, n := range []uint64{0, 4, 5, 6, 7, 8, 3000, 4000} {
				if h.l.Visited(n) != h.m[n] {
					return fmt.Errorf("borrowed set %d: visited(%d) is %v", i, n, h.l.Visited(n))
				}
			}
		}
	}
	return nil
}

// poolWrap returns and borrows one set until its version wraps around, several
// times over.
func poolWrap(every int, r *kit.Result) error {
	p := visited.NewPool(1, 8)
	for i := 0; i < 1100; i++ {
		l := p.Borrow()
		for n := uint64(0); n < 9; n++ {
			if l.Visited(n) {
				return fmt.Errorf("borrow %d: node %d is visited already", i, n)
			}
		}
		if i%every == 0 {
			l.Visit(uint64(i/every) % 8)
			if !l.Visited(uint64(i/every) % 8) {
				return fmt.Errorf("borrow %d: the visited node is not", i)
			}
		}
		p.Return(l)
		r.Transitions++
	}
	return nil
}

func runWork(c kit.Case, r *kit.Result) {
	var wc workCase
	if err := json.Unmarshal(c.Data, &wc); err != nil {
		panic(err)
	}
	fail := func(seq []int, err error) {
		if err != nil {
			r.Fail(c.Group, "%s(%d) %v: %v", wc.Kind, wc.Size, seq, err)
		}
	}
	var n int
	var f func(seq []int) error
	switch c.Group {
	case "queue":
		n, f = 7, func(s []int) error { return queueSeq(wc.Kind, wc.Size, s, r) }
	case "visited":
		n, f = 11, func(s []int) error { return visitSeq(wc.Size, s, r) }
	case "pool":
		n, f = 9, func(s []int) error { return poolSeq(wc.Size, s, r) }
	case "wrap":
		for e := 1; e < 300; e++ {
			fail([]int{e}, poolWrap(e, r))
			r.Executions++
		}
		return
	case "race-queue":
		queueRace(r)
		return
	case "race-pool":
		poolRace(wc.Size, r)
		return
	case "large":
		for step := 1; step <= wc.Size && step < 40; step++ {
			fail([]int{step}, queueLarge(wc.Kind, wc.Size, step, r))
			r.Executions++
		}
		r.State(c.Data)
		r.Outcome(wc.Kind + " in order")
		return
	case "fill":
		n, f = 3, func(s []int) error { return queueFill(wc.Kind, s, r) }
	case "permutation":
		var rec func(done []int)
		rec = func(done []int) {
			if len(done) == wc.Depth {
				fail(done, queueFill(wc.Kind, done, r))
				r.Executions++
				return
			}
		next:
			for d := 0; d < wc.Depth; d++ {
				for _, x := range done {
					if x == d {
						continue next
					}
				}
				rec(append(append([]int{}, done...), d))
			}
		}
		rec(wc.Prefix)
		r.State(c.Data)
		r.Outcome(wc.Kind + " in order")
		return
	}
	var rec func(s []int)
	rec = func(s []int) {
		if len(s) == wc.Depth {
			fail(s, f(s))
			r.Executions++
			return
		}
		for op := 0; op < n; op++ {
			rec(append(append(make([]int, 0, wc.Depth), s...), op))
		}
	}
	rec(wc.Prefix)
	r.State(c.Data)
	r.Outcome(c.Group + " " + wc.Kind + " like the model")
}

func workCases(tier string) []kit.Case {
	deep := 1
	if tier == "thorough" {
		deep = 2
	}
	var cs []kit.Case
	// a sequence of full depth contains all shorter ones, checked step by step
	for _, kind := range []string{"min", "max", "min-index", "max-index"} {
		for a := 0; a < 7; a++ {
			for b := 0; b < 7; b++ {
				cs = append(cs, kit.MkCase("queue", workCase{kind, a % 3, []int{a, b}, 7 + deep}))
			}
		}
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				for d := 3; d <= 10+deep; d++ {
					cs = append(cs, kit.MkCase("fill", workCase{kind, 0, []int{a, b}, d}))
				}
			}
		}
		for _, n := range []int{5, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 150, 255, 256, 257, 260, 300} {
			cs = append(cs, kit.MkCase("large", workCase{Kind: kind, Size: n}))
		}
		for n := 1; n <= 8+deep; n++ {
			for a := 0; a < n; a++ {
				cs = append(cs, kit.MkCase("permutation", workCase{kind, 0, []int{a}, n}))
			}
		}
	}
	for a := 0; a < 11; a++ {
		for b := 0; b < 11; b++ {
			for _, size := range []int{0, 1, 8} {
				cs = append(cs, kit.MkCase("visited", workCase{"list", size, []int{a, b}, 5 + deep}))
			}
		}
	}
	for a := 0; a < 9; a++ {
		for _, size := range []int{0, 1, 2} {
			cs = append(cs, kit.MkCase("pool", workCase{"pool", size, []int{0, a}, 6 + deep}))
		}
	}
	cs = append(cs, kit.MkCase("race-queue", workCase{Kind: "queue"}))
	for size := 0; size < 4; size++ {
		cs = append(cs, kit.MkCase("race-pool", workCase{Kind: "pool", Size: size}))
	}
	return append(cs, kit.MkCase("wrap", workCase{Kind: "pool"}))
}
