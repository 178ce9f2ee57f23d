// Package vsync stands in for package sync in the packages under test when
// schedules are explored: every lock operation is a scheduling point, and
// waiting for a lock is reported. Without a controller it only delegates.
package vsync

import (
	"bytes"
	"runtime"
	"sync"
	"sync/atomic"

	"github.com/fairDataSociety/FaVe/vmc/vrace"
)

// goroutine number -> operation
var owners sync.Map

func number(b []byte) (n int64) {
	for _, c := range b {
		if c < '0' || c > '9' {
			break
		}
		n = n*10 + int64(c-'0')
	}
	return
}

// self returns the number of the calling goroutine and, if needed, of the one
// that started it.
func self(parent bool) (me, by int64) {
	size := 64
	if parent {
		size = 64 << 10
	}
	b := make([]byte, size)
	b = b[:runtime.Stack(b, false)]
	me = number(bytes.TrimPrefix(b, []byte("goroutine ")))
	if i := bytes.LastIndex(b, []byte(" in goroutine ")); parent && i >= 0 {
		by = number(b[i+len(" in goroutine "):])
	}
	return
}

// Who identifies the operation on whose behalf the calling goroutine runs:
// goroutines inherit it from the one that started them. 0: none.
func Who() int64 {
	me, _ := self(false)
	if o, ok := owners.Load(me); ok {
		return o.(int64)
	}
	_, by := self(true)
	o := int64(0)
	if p, ok := owners.Load(by); ok {
		o = p.(int64)
	}
	owners.Store(me, o)
	return o
}

var opCount atomic.Int64

// Begin starts a new operation on the calling goroutine.
func Begin() int64 {
	vrace.Hide()
	defer vrace.Show()
	me, _ := self(false)
	o := opCount.Add(1)
	owners.Store(me, o)
	return o
}

type controller struct {
	point   func(kind string)
	blocked func(delta int)
}

var ctl atomic.Pointer[controller]

// Control installs (or, with nil functions, removes) the controller.
func Control(point func(kind string), blocked func(delta int)) {
	if point == nil {
		ctl.Store(nil)
		return
	}
	ctl.Store(&controller{point, blocked})
}

// Point is a scheduling point.
func Point(kind string) {
	vrace.Hide()
	defer vrace.Show()
	if c := ctl.Load(); c != nil {
		c.point(kind)
	}
}

func wait(try func() bool, lock func()) {
	if try() {
		return
	}
	vrace.Hide()
	c := ctl.Load()
	if c != nil {
		c.blocked(1)
	}
	vrace.Show()
	lock()
	if c != nil {
		vrace.Hide()
		c.blocked(-1)
		vrace.Show()
	}
}

type Mutex struct{ m sync.Mutex }

func (m *Mutex) Lock()         { Point("lock"); wait(m.m.TryLock, m.m.Lock) }
func (m *Mutex) TryLock() bool { Point("trylock"); return m.m.TryLock() }
func (m *Mutex) Unlock()       { m.m.Unlock() }

type RWMutex struct{ m sync.RWMutex }

func (m *RWMutex) Lock()          { Point("lock"); wait(m.m.TryLock, m.m.Lock) }
func (m *RWMutex) TryLock() bool  { Point("trylock"); return m.m.TryLock() }
func (m *RWMutex) Unlock()        { m.m.Unlock() }
func (m *RWMutex) RLock()         { Point("rlock"); wait(m.m.TryRLock, m.m.RLock) }
func (m *RWMutex) TryRLock() bool { Point("tryrlock"); return m.m.TryRLock() }
func (m *RWMutex) RUnlock()       { m.m.RUnlock() }
func (m *RWMutex) RLocker() Locker {
	return (*rlocker)(m)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type (
	Locker    = sync.Locker
	Once      = sync.Once
	Pool      = sync.Pool
	WaitGroup = sync.WaitGroup
	Cond      = sync.Cond
	Map       = sync.Map
)

func NewCond(l Locker) *Cond                             { return sync.NewCond(l) }
func OnceFunc(f func()) func()                           { return sync.OnceFunc(f) }
func OnceValue[T any](f func() T) func() T               { return sync.OnceValue(f) }
func OnceValues[A, B any](f func() (A, B)) func() (A, B) { return sync.OnceValues(f) }
