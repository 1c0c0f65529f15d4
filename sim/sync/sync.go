// Package sync is the simulated counterpart of the standard package: blocking
// is decided by the simulator's scheduler.
package sync

import (
	stdsync "sync"
	"unsafe"

	"trcsim/rt"
)

// Locker is the standard interface.
type Locker = stdsync.Locker

func addr[T any](p *T) unsafe.Pointer { return unsafe.Pointer(p) }

type noCopy struct{}

func (*noCopy) Lock()   {}
func (*noCopy) Unlock() {}

// Mutex is a simulated mutex.
type Mutex struct {
	held bool
	sema uint32
}

func (m *Mutex) Lock() {
	if !rt.Active() {
		if rt.Dying() {
			m.held = true
			return
		}
		if m.held {
			panic("sim: Lock outside of a run would block")
		}
		m.held = true
		return
	}
	rt.SyncPoint(10)
	for m.held {
		rt.Block("mutex", func() bool { return !m.held })
	}
	m.held = true
	rt.RaceAcquire(addr(m))
}

func (m *Mutex) TryLock() bool {
	rt.SyncPoint(11)
	if m.held {
		return false
	}
	m.held = true
	rt.RaceAcquire(addr(m))
	return true
}

func (m *Mutex) Unlock() {
	if rt.Dying() {
		m.held = false
		return
	}
	if !m.held {
		panic("sync: unlock of unlocked mutex")
	}
	rt.RaceRelease(addr(m))
	m.held = false
	rt.SyncPoint(12)
}

// RWMutex is a simulated reader/writer mutex; waiting writers block new readers.
type RWMutex struct {
	w        bool
	readers  int
	waiting  int
	rel, wel byte
}

func (m *RWMutex) Lock() {
	if !rt.Active() {
		m.w = true
		return
	}
	rt.SyncPoint(13)
	m.waiting++
	for m.w || m.readers > 0 {
		rt.Block("rwmutex", func() bool { return !m.w && m.readers == 0 })
	}
	m.waiting--
	m.w = true
	rt.RaceAcquire(addr(&m.wel))
	rt.RaceAcquire(addr(&m.rel))
}

func (m *RWMutex) TryLock() bool {
	rt.SyncPoint(13)
	if m.w || m.readers > 0 {
		return false
	}
	m.w = true
	rt.RaceAcquire(addr(&m.wel))
	rt.RaceAcquire(addr(&m.rel))
	return true
}

func (m *RWMutex) Unlock() {
	if rt.Dying() {
		m.w = false
		return
	}
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	rt.RaceRelease(addr(&m.wel))
	m.w = false
	rt.SyncPoint(14)
}

func (m *RWMutex) RLock() {
	if !rt.Active() {
		m.readers++
		return
	}
	rt.SyncPoint(15)
	for m.w || m.waiting > 0 {
		rt.Block("rwmutex-r", func() bool { return !m.w && m.waiting == 0 })
	}
	m.readers++
	rt.RaceAcquire(addr(&m.wel))
}

func (m *RWMutex) TryRLock() bool {
	rt.SyncPoint(15)
	if m.w || m.waiting > 0 {
		return false
	}
	m.readers++
	rt.RaceAcquire(addr(&m.wel))
	return true
}

func (m *RWMutex) RUnlock() {
	if rt.Dying() {
		m.readers--
		return
	}
	if m.readers <= 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	rt.RaceReleaseMerge(addr(&m.rel))
	m.readers--
	rt.SyncPoint(16)
}

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

// WaitGroup is a simulated wait group.
type WaitGroup struct {
	n int
	b byte
}

func (wg *WaitGroup) Add(d int) {
	if d < 0 {
		rt.RaceReleaseMerge(addr(&wg.b))
	}
	wg.n += d
	if wg.n < 0 && !rt.Dying() {
		panic("sync: negative WaitGroup counter")
	}
	rt.SyncPoint(17)
}
func (wg *WaitGroup) Done() { wg.Add(-1) }
func (wg *WaitGroup) Wait() {
	rt.SyncPoint(18)
	if wg.n > 0 {
		rt.Block("waitgroup", func() bool { return wg.n == 0 })
	}
	rt.RaceAcquire(addr(&wg.b))
}

// Go runs f in a new task.
func (wg *WaitGroup) Go(f func()) {
	wg.Add(1)
	rt.Go(func() {
		defer wg.Done()
		f()
	})
}

// Once runs a function once.
type Once struct {
	done bool
	m    Mutex
}

func (o *Once) Do(f func()) {
	rt.SyncPoint(19)
	if o.done {
		rt.RaceAcquire(addr(o))
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() {
			rt.RaceRelease(addr(o))
			o.done = true
		}()
		f()
	}
}

func OnceFunc(f func()) func() {
	var (
		once  Once
		valid bool
		p     any
	)
	return func() {
		once.Do(func() {
			defer func() {
				p = recover()
				if !valid {
					panic(p)
				}
			}()
			f()
			f = nil
			valid = true
		})
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

type poolItem struct {
	v any
	b *byte
}

// Pool is a deterministic pool. Which item is reused, and whether items get
// lost as if to a garbage collection, is decided by the simulator.
type Pool struct {
	noCopy noCopy
	items  []poolItem
	run    uint64

	New func() any
}

func (p *Pool) Get() any {
	rt.SyncPoint(20)
	if p.run != rt.RunCount {
		p.items, p.run = nil, rt.RunCount
	}
	n := len(p.items)
	if n > 0 {
		i := n - 1
		switch rt.PoolMode() {
		case 1:
			i = 0
		case 2:
			x := rt.Choose(rt.TagPool, n+1)
			if x == n { // lost to GC
				p.items = nil
				rt.Count("fault.pool_gc", 1)
				i = -1
			} else {
				i = n - 1 - x
			}
		}
		if i >= 0 {
			it := p.items[i]
			p.items = append(append([]poolItem{}, p.items[:i]...), p.items[i+1:]...)
			rt.RaceAcquire(addr(it.b))
			rt.Count("pool.reuse", 1)
			return it.v
		}
	}
	if p.New != nil {
		return p.New()
	}
	return nil
}

func (p *Pool) Put(x any) {
	if x == nil || !rt.Active() || rt.PoolMode() == 3 {
		return
	}
	rt.SyncPoint(21)
	if p.run != rt.RunCount {
		p.items, p.run = nil, rt.RunCount
	}
	if len(p.items) == 0 {
		rt.OnPurge(func() { p.items = nil })
	}
	it := poolItem{x, new(byte)}
	rt.RaceRelease(addr(it.b))
	p.items = append(p.items, it)
	rt.SyncPoint(22)
}

// Cond is a simulated condition variable.
type Cond struct {
	L       Locker
	waiters []*bool
	b       byte
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := new(bool)
	c.waiters = append(c.waiters, w)
	c.L.Unlock()
	rt.Block("cond", func() bool { return *w })
	rt.RaceAcquire(addr(&c.b))
	c.L.Lock()
}

func (c *Cond) Signal() {
	rt.RaceReleaseMerge(addr(&c.b))
	if len(c.waiters) > 0 {
		*c.waiters[0] = true
		c.waiters = c.waiters[1:]
	}
	rt.SyncPoint(23)
}

func (c *Cond) Broadcast() {
	rt.RaceReleaseMerge(addr(&c.b))
	for _, w := range c.waiters {
		*w = true
	}
	c.waiters = nil
	rt.SyncPoint(23)
}

// Map is a simulated concurrent map with deterministic iteration.
type Map struct {
	m    map[any]any
	keys []any
	b    byte
}

func (m *Map) acq() { rt.SyncPoint(24); rt.RaceAcquire(addr(&m.b)) }
func (m *Map) rel() { rt.RaceReleaseMerge(addr(&m.b)); rt.SyncPoint(25) }

func (m *Map) Load(key any) (any, bool) {
	m.acq()
	v, ok := m.m[key]
	return v, ok
}

func (m *Map) set(key, value any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	if _, ok := m.m[key]; !ok {
		m.keys = append(m.keys, key)
	}
	m.m[key] = value
}

func (m *Map) del(key any) {
	if _, ok := m.m[key]; !ok {
		return
	}
	delete(m.m, key)
	for i, k := range m.keys {
		if k == key {
			m.keys = append(append([]any{}, m.keys[:i]...), m.keys[i+1:]...)
			break
		}
	}
}

func (m *Map) Store(key, value any) { m.acq(); m.set(key, value); m.rel() }
func (m *Map) Clear()               { m.acq(); m.m, m.keys = nil, nil; m.rel() }
func (m *Map) Delete(key any)       { m.acq(); m.del(key); m.rel() }
func (m *Map) LoadOrStore(key, value any) (any, bool) {
	m.acq()
	if v, ok := m.m[key]; ok {
		return v, true
	}
	m.set(key, value)
	m.rel()
	return value, false
}
func (m *Map) LoadAndDelete(key any) (any, bool) {
	m.acq()
	v, ok := m.m[key]
	m.del(key)
	m.rel()
	return v, ok
}
func (m *Map) Swap(key, value any) (any, bool) {
	m.acq()
	v, ok := m.m[key]
	m.set(key, value)
	m.rel()
	return v, ok
}
func (m *Map) CompareAndSwap(key, old, new any) bool {
	m.acq()
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.set(key, new)
	m.rel()
	return true
}
func (m *Map) CompareAndDelete(key, old any) bool {
	m.acq()
	if v, ok := m.m[key]; !ok || v != old {
		return false
	}
	m.del(key)
	m.rel()
	return true
}
func (m *Map) Range(f func(key, value any) bool) {
	m.acq()
	for _, k := range append([]any{}, m.keys...) {
		v, ok := m.m[k]
		if !ok {
			continue
		}
		if !f(k, v) {
			return
		}
		m.acq()
	}
}
