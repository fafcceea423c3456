// Package sync stands in for the standard package of the same name inside the
// instrumented code: waiting goes through the simulated scheduler, and each
// primitive still performs the real operation once it is free to, so that the
// race detector sees exactly the edges the real primitive would create.
package sync

import (
	std "sync"

	"verifsim/simrt"
)

type (
	Map    = std.Map
	Locker = std.Locker
)

type Mutex struct {
	mu   std.Mutex
	held bool
}

//go:norace
func (m *Mutex) busy() bool { return m.held }

//go:norace
func (m *Mutex) set(b bool) { m.held = b }

func (m *Mutex) Lock() {
	simrt.Y(simrt.SiteBlock)
	for simrt.Active() && m.busy() {
		simrt.Blocked()
	}
	m.mu.Lock()
	m.set(true)
}

func (m *Mutex) TryLock() bool {
	simrt.Y(simrt.SiteBlock)
	if m.busy() || !m.mu.TryLock() {
		return false
	}
	m.set(true)
	return true
}

func (m *Mutex) Unlock() {
	m.set(false)
	m.mu.Unlock()
	simrt.Y(simrt.SiteBlock)
}

type RWMutex struct {
	mu      std.RWMutex
	readers int
	writer  bool
}

//go:norace
func (m *RWMutex) busyW() bool { return m.writer || m.readers > 0 }

//go:norace
func (m *RWMutex) busyR() bool { return m.writer }

//go:norace
func (m *RWMutex) setW(b bool) { m.writer = b }

//go:norace
func (m *RWMutex) addR(d int) { m.readers += d }

func (m *RWMutex) Lock() {
	simrt.Y(simrt.SiteBlock)
	for simrt.Active() && m.busyW() {
		simrt.Blocked()
	}
	m.mu.Lock()
	m.setW(true)
}

func (m *RWMutex) Unlock() {
	m.setW(false)
	m.mu.Unlock()
	simrt.Y(simrt.SiteBlock)
}

func (m *RWMutex) RLock() {
	simrt.Y(simrt.SiteBlock)
	for simrt.Active() && m.busyR() {
		simrt.Blocked()
	}
	m.mu.RLock()
	m.addR(1)
}

func (m *RWMutex) RUnlock() {
	m.addR(-1)
	m.mu.RUnlock()
	simrt.Y(simrt.SiteBlock)
}

func (m *RWMutex) TryLock() bool {
	if m.busyW() || !m.mu.TryLock() {
		return false
	}
	m.setW(true)
	return true
}

func (m *RWMutex) TryRLock() bool {
	if m.busyR() || !m.mu.TryRLock() {
		return false
	}
	m.addR(1)
	return true
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

func OnceFunc(f func()) func() {
	var o Once
	var failed bool
	var p any
	return func() {
		o.Do(func() {
			failed = true
			defer func() {
				if failed {
					p = recover()
				}
			}()
			f()
			failed = false
		})
		if failed {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var v T
	once := OnceFunc(func() { v = f() })
	return func() T { once(); return v }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var v1 T1
	var v2 T2
	once := OnceFunc(func() { v1, v2 = f() })
	return func() (T1, T2) { once(); return v1, v2 }
}

const poolCap = 16

type poolItem struct {
	v  any
	mu std.Mutex
}

// Pool keeps what it is given and hands out a seeded choice of it or, as the
// real one may at any time, nothing.
type Pool struct {
	New   func() any
	items [poolCap]*poolItem
	k     int
}

// newItem is no access for the race detector: the lock alone orders Put before Get.
//
//go:norace
//go:noinline
func newItem(v any) *poolItem { return &poolItem{v: v} }

//go:norace
//go:noinline
func (it *poolItem) get() any { return it.v }

//go:norace
func (p *Pool) put(it *poolItem) {
	if p.k < poolCap {
		p.items[p.k] = it
		p.k++
	}
}

//go:norace
func (p *Pool) get() *poolItem {
	r := simrt.PoolRand()
	if p.k == 0 || r%8 == 0 {
		return nil
	}
	i := 0
	if r>>8%4 == 0 {
		i = int(r >> 16 % uint64(p.k))
	} else {
		i = p.k - 1
	}
	it := p.items[i]
	p.k--
	p.items[i] = p.items[p.k]
	p.items[p.k] = nil
	return it
}

func (p *Pool) Put(v any) {
	if v == nil {
		return
	}
	simrt.Y(simrt.SiteBlock)
	it := newItem(v)
	it.mu.Lock()
	it.mu.Unlock()
	p.put(it)
	simrt.Y(simrt.SiteBlock)
}

func (p *Pool) Get() any {
	simrt.Y(simrt.SiteBlock)
	if it := p.get(); it != nil {
		it.mu.Lock()
		it.mu.Unlock()
		return it.get()
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}
