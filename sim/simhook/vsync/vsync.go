// Package vsync replaces "sync" in instrumented code: blocking goes through the
// simulator's scheduler.
package vsync

import (
	"sync"

	h "github.com/zyedidia/generic/simhookverif"
)

type (
	Locker    = sync.Locker
	Map       = sync.Map
	WaitGroup = sync.WaitGroup
)

// Mutex is a simulated mutex.
type Mutex struct{ rw RWMutex }

func (m *Mutex) Lock()         { m.rw.Lock() }
func (m *Mutex) Unlock()       { m.rw.Unlock() }
func (m *Mutex) TryLock() bool { return m.rw.TryLock() }

// RWMutex is a simulated readers-writer mutex.
type RWMutex struct {
	w    bool
	r    int
	a, b byte
}

//go:norace
func (m *RWMutex) TryLock() bool {
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	acquire(&m.a)
	acquire(&m.b)
	return true
}

//go:norace
func (m *RWMutex) Lock() {
	for !m.TryLock() {
		wait()
	}
}

//go:norace
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: unlock of unlocked mutex")
	}
	release(&m.a)
	m.w = false
	wake()
}

//go:norace
func (m *RWMutex) TryRLock() bool {
	if m.w {
		return false
	}
	m.r++
	acquire(&m.a)
	return true
}

//go:norace
func (m *RWMutex) RLock() {
	for !m.TryRLock() {
		wait()
	}
}

//go:norace
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	releaseMerge(&m.b)
	m.r--
	wake()
}

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type rlocker struct{ m *RWMutex }

func (r rlocker) Lock()   { r.m.RLock() }
func (r rlocker) Unlock() { r.m.RUnlock() }

//go:norace
func wait() {
	if h.Block == nil {
		panic("vsync: deadlock outside the simulation")
	}
	h.Block()
}

//go:norace
func wake() {
	if h.Wake != nil {
		h.Wake()
	}
}

// Once is a simulated once.
type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

// OnceFunc is sync.OnceFunc.
func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

// OnceValue is sync.OnceValue.
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T {
		o.Do(func() { v = f() })
		return v
	}
}

// Pool is a deterministic last-in first-out pool.
type Pool struct {
	m     Mutex
	items []any
	New   func() any
}

func (p *Pool) Get() any {
	p.m.Lock()
	if n := len(p.items); n > 0 {
		x := p.items[n-1]
		p.items = p.items[:n-1]
		p.m.Unlock()
		return x
	}
	p.m.Unlock()
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil {
		return
	}
	p.m.Lock()
	p.items = append(p.items, x)
	p.m.Unlock()
}

// OnceValues is sync.OnceValues.
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var w U
	return func() (T, U) {
		o.Do(func() { v, w = f() })
		return v, w
	}
}
