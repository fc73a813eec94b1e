// Package sync is the simulator's stand-in for the standard package: same
// types, but who gets a lock, when a waiter wakes and what a pool returns is
// decided by zsim/rt. The real primitives are used underneath, without ever
// blocking, so that their happens-before edges are the real ones.
package sync

import (
	rsync "sync"
	"unsafe"

	"JXLMOD/zsim/rt"
)

type Locker = rsync.Locker

type Mutex struct{ m rsync.Mutex }

//go:norace
func (m *Mutex) Lock() {
	if !rt.Active() {
		m.m.Lock()
		return
	}
	rt.SyncPoint()
	for !m.m.TryLock() {
		rt.Block(unsafe.Pointer(m), "mutex lock")
	}
}

//go:norace
func (m *Mutex) TryLock() bool { rt.SyncPoint(); return m.m.TryLock() }

//go:norace
func (m *Mutex) Unlock() {
	rt.SyncPoint()
	m.m.Unlock()
	rt.WakeAll(unsafe.Pointer(m))
}

type RWMutex struct {
	m       rsync.RWMutex
	writers int32
}

//go:norace
func (m *RWMutex) Lock() {
	if !rt.Active() {
		m.m.Lock()
		return
	}
	rt.SyncPoint()
	m.writers++
	for !m.m.TryLock() {
		rt.Block(unsafe.Pointer(m), "rwmutex lock")
	}
	m.writers--
}

//go:norace
func (m *RWMutex) TryLock() bool { rt.SyncPoint(); return m.m.TryLock() }

//go:norace
func (m *RWMutex) Unlock() {
	rt.SyncPoint()
	m.m.Unlock()
	rt.WakeAll(unsafe.Pointer(m))
}

//go:norace
func (m *RWMutex) RLock() {
	if !rt.Active() {
		m.m.RLock()
		return
	}
	rt.SyncPoint()
	// a waiting writer keeps new readers out, as in the real one
	for m.writers > 0 || !m.m.TryRLock() {
		rt.Block(unsafe.Pointer(m), "rwmutex rlock")
	}
}

//go:norace
func (m *RWMutex) TryRLock() bool { rt.SyncPoint(); return m.writers == 0 && m.m.TryRLock() }

//go:norace
func (m *RWMutex) RUnlock() {
	rt.SyncPoint()
	m.m.RUnlock()
	rt.WakeAll(unsafe.Pointer(m))
}

type rlocker RWMutex

func (r *rlocker) Lock()           { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock()         { (*RWMutex)(r).RUnlock() }
func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type WaitGroup struct {
	w rsync.WaitGroup
	n int64
}

//go:norace
func (w *WaitGroup) Add(d int) {
	rt.SyncPoint()
	w.w.Add(d) // panics when it goes negative
	w.n += int64(d)
	if w.n == 0 {
		rt.WakeAll(unsafe.Pointer(w))
	}
}

func (w *WaitGroup) Done() { w.Add(-1) }

//go:norace
func (w *WaitGroup) Wait() {
	if !rt.Active() {
		w.w.Wait()
		return
	}
	rt.SyncPoint()
	for w.n > 0 {
		rt.Block(unsafe.Pointer(w), "waitgroup wait")
	}
	w.w.Wait()
}

func (w *WaitGroup) Go(f func()) {
	w.Add(1)
	rt.Go(func() {
		defer w.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done uint32
	hb   byte
}

//go:norace
func (o *Once) isDone() bool {
	if o.done != 0 {
		rt.HBAcquire(unsafe.Pointer(&o.hb))
		return true
	}
	return false
}

//go:norace
func (o *Once) setDone() {
	rt.HBRelease(unsafe.Pointer(&o.hb))
	o.done = 1
}

func (o *Once) Do(f func()) {
	rt.SyncPoint()
	if o.isDone() {
		return
	}
	o.m.Lock()
	defer o.m.Unlock()
	if !o.isDone() {
		defer o.setDone()
		f()
	}
}

func OnceFunc(f func()) func() {
	var once Once
	var valid bool
	var p any
	g := func() {
		defer func() {
			p = recover()
			if !valid {
				panic(p)
			}
		}()
		f()
		f = nil
		valid = true
	}
	return func() {
		once.Do(g)
		if !valid {
			panic(p)
		}
	}
}

func OnceValue[T any](f func() T) func() T {
	var r T
	g := OnceFunc(func() { r = f() })
	return func() T { g(); return r }
}

func OnceValues[T1, T2 any](f func() (T1, T2)) func() (T1, T2) {
	var r1 T1
	var r2 T2
	g := OnceFunc(func() { r1, r2 = f() })
	return func() (T1, T2) { g(); return r1, r2 }
}

type node struct {
	next *node
	v    any
	hb   byte
}

// Pool keeps its objects in the order they were put; rt chooses.
type Pool struct {
	noCopy noCopy
	first  *node
	n      int
	New    func() any
}

type noCopy struct{}

//go:norace
func (p *Pool) Get() any {
	rt.SyncPoint()
	i := rt.PoolPick(p.n)
	if i < 0 {
		if p.New != nil {
			return p.New()
		}
		return nil
	}
	pp := &p.first
	for ; i > 0; i-- {
		pp = &(*pp).next
	}
	nd := *pp
	*pp = nd.next
	p.n--
	rt.HBAcquire(unsafe.Pointer(&nd.hb))
	return nd.v
}

//go:norace
func (p *Pool) Put(x any) {
	rt.SyncPoint()
	if x == nil || !rt.PoolKeep() {
		return
	}
	nd := &node{v: x}
	rt.HBRelease(unsafe.Pointer(&nd.hb))
	pp := &p.first
	for *pp != nil {
		pp = &(*pp).next
	}
	*pp = nd
	p.n++
}

type Cond struct {
	L       Locker
	waiters int64
	signals int64
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

//go:norace
func (c *Cond) Wait() {
	c.waiters++
	c.L.Unlock()
	for c.signals == 0 {
		rt.Block(unsafe.Pointer(c), "cond wait")
	}
	c.signals--
	c.waiters--
	c.L.Lock()
}

//go:norace
func (c *Cond) Signal() {
	rt.SyncPoint()
	if c.signals < c.waiters {
		c.signals++
		rt.WakeAll(unsafe.Pointer(c))
	}
}

//go:norace
func (c *Cond) Broadcast() {
	rt.SyncPoint()
	c.signals = c.waiters
	rt.WakeAll(unsafe.Pointer(c))
}

// Map never blocks, so the real one is used, with a scheduling point before
// each operation.
type Map struct{ m rsync.Map }

func (m *Map) Load(k any) (any, bool)           { rt.SyncPoint(); return m.m.Load(k) }
func (m *Map) Store(k, v any)                   { rt.SyncPoint(); m.m.Store(k, v) }
func (m *Map) Clear()                           { rt.SyncPoint(); m.m.Clear() }
func (m *Map) LoadOrStore(k, v any) (any, bool) { rt.SyncPoint(); return m.m.LoadOrStore(k, v) }
func (m *Map) LoadAndDelete(k any) (any, bool)  { rt.SyncPoint(); return m.m.LoadAndDelete(k) }
func (m *Map) Delete(k any)                     { rt.SyncPoint(); m.m.Delete(k) }
func (m *Map) Swap(k, v any) (any, bool)        { rt.SyncPoint(); return m.m.Swap(k, v) }
func (m *Map) CompareAndSwap(k, o, n any) bool  { rt.SyncPoint(); return m.m.CompareAndSwap(k, o, n) }
func (m *Map) CompareAndDelete(k, o any) bool   { rt.SyncPoint(); return m.m.CompareAndDelete(k, o) }
func (m *Map) Range(f func(k, v any) bool) {
	rt.SyncPoint()
	all := map[any]any{}
	m.m.Range(func(k, v any) bool { all[k] = v; return true })
	for k, v := range rt.RangeMap(all) {
		if !f(k, v) {
			return
		}
	}
}
