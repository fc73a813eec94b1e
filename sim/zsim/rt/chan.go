package rt

import (
	"cmp"
	"fmt"
	"iter"
	"slices"
	"unsafe"
)

// Channels. A buffered channel stays a native one, used without blocking, so
// that its happens-before edges are the native ones. A rendezvous on an
// unbuffered channel is made here: a blocked task's entry is completed by its
// peer. The edges of a rendezvous are put in by hb.

//go:norace
func ptrOf[T any](ch chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func sptr[T any](ch chan<- T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

//go:norace
func rptr[T any](ch <-chan T) unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

// peer finds a blocked task with an open entry for the other side.
//
//go:norace
func peer(ch unsafe.Pointer, send bool) (*Task, int) {
	n := 0
	for i := 0; i < nlive; i++ {
		t := live[i]
		if t.state != stBlocked || t.fired >= 0 || t == cur {
			continue
		}
		for j := 0; j < t.nents; j++ {
			if t.ents[j].ch == ch && t.ents[j].unb && t.ents[j].send == send {
				n++
			}
		}
	}
	if n == 0 {
		return nil, 0
	}
	// waiting goroutines are served in order, as the Go runtime does
	for i := 0; i < nlive; i++ {
		t := live[i]
		if t.state != stBlocked || t.fired >= 0 || t == cur {
			continue
		}
		for j := 0; j < t.nents; j++ {
			if t.ents[j].ch == ch && t.ents[j].unb && t.ents[j].send == send {
				return t, j
			}
		}
	}
	return nil, 0
}

//go:norace
func trySend[T any](ch chan<- T, v *T) bool {
	if ch == nil {
		return false
	}
	if cap(ch) > 0 {
		select {
		case ch <- *v:
			WakeAll(sptr(ch))
			return true
		default:
			return false
		}
	}
	if t, j := peer(sptr(ch), false); t != nil {
		*(*T)(t.ents[j].val) = *v
		t.ents[j].ok = true
		t.fired = int32(j)
		t.state = stRunnable
		rendezvous(t)
		progress()
		return true
	}
	// a send on a closed channel panics; natively nobody ever receives here
	select {
	case ch <- *v:
		return true
	default:
		return false
	}
}

//go:norace
func tryRecv[T any](ch <-chan T, v *T, ok *bool) bool {
	if ch == nil {
		return false
	}
	if cap(ch) == 0 {
		if t, j := peer(rptr(ch), true); t != nil {
			*v = *(*T)(t.ents[j].val)
			*ok = true
			t.fired = int32(j)
			t.state = stRunnable
			rendezvous(t)
			progress()
			return true
		}
	}
	select {
	case x, o := <-ch:
		*v, *ok = x, o
		WakeAll(rptr(ch))
		return true
	default:
		return false
	}
}

//go:norace
func waitEnts(where string) int {
	me := cur
	me.fired = -1
	me.where = where
	me.key = nil
	releaseSelf(me)
	park()
	f := me.fired
	me.fired = -1
	if f >= 0 {
		rendezvousDone(me)
	}
	return int(f)
}

// SendTo(ch)(v) is ch <- v.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) { send(ch, v) }
}

//go:norace
func send[T any](ch chan<- T, v T) {
	if !active {
		ch <- v
		return
	}
	SyncPoint()
	for {
		if trySend(ch, &v) {
			return
		}
		cur.ents[0] = ent{ch: sptr(ch), val: unsafe.Pointer(&v), send: true, unb: cap(ch) == 0 && ch != nil}
		cur.nents = 1
		f := waitEnts("chan send")
		cur.nents = 0
		if f >= 0 {
			return
		}
	}
}

// Recv is <-ch.
//
//go:norace
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
//
//go:norace
func Recv2[T any](ch <-chan T) (T, bool) {
	if !active {
		v, ok := <-ch
		return v, ok
	}
	SyncPoint()
	var v T
	var ok bool
	for {
		if tryRecv(ch, &v, &ok) {
			return v, ok
		}
		cur.ents[0] = ent{ch: rptr(ch), val: unsafe.Pointer(&v), unb: cap(ch) == 0 && ch != nil}
		cur.nents = 1
		f := waitEnts("chan receive")
		ok = cur.ents[0].ok
		cur.nents = 0
		if f >= 0 {
			return v, ok
		}
	}
}

// RangeChan is range ch.
func RangeChan[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	SyncPoint()
	close(ch)
	WakeAll(sptr(ch))
}

// Case is one arm of a select.
type Case interface {
	try() bool
	entry() ent
	done()
}

type SendC[T any] struct {
	ch chan<- T
	v  T
}

//go:norace
func (c *SendC[T]) try() bool { return trySend(c.ch, &c.v) }

//go:norace
func (c *SendC[T]) entry() ent {
	return ent{ch: sptr(c.ch), val: unsafe.Pointer(&c.v), send: true, unb: c.ch != nil && cap(c.ch) == 0}
}
func (c *SendC[T]) done() {}

type RecvC[T any] struct {
	ch  <-chan T
	Val T
	Ok  bool
}

//go:norace
func (c *RecvC[T]) try() bool { return tryRecv(c.ch, &c.Val, &c.Ok) }

//go:norace
func (c *RecvC[T]) entry() ent {
	return ent{ch: rptr(c.ch), val: unsafe.Pointer(&c.Val), unb: c.ch != nil && cap(c.ch) == 0}
}

//go:norace
func (c *RecvC[T]) done() { c.Ok = true }

func SendCase[T any](ch chan<- T) func(T) *SendC[T] {
	return func(v T) *SendC[T] { return &SendC[T]{ch: ch, v: v} }
}
func RecvCase[T any](ch <-chan T) *RecvC[T] { return &RecvC[T]{ch: ch} }

// Select runs a select statement and returns the index of the arm taken, or
// -1 for the default one.
//
//go:norace
func Select(hasDefault bool, cs ...Case) int {
	if !active {
		panic("zsim: select outside a simulation")
	}
	SyncPoint()
	for {
		n := len(cs)
		if n > 0 {
			start := int(rs.n(uint64(n)))
			for k := 0; k < n; k++ {
				i := (start + k) % n
				if cs[i].try() {
					return i
				}
			}
		}
		if hasDefault {
			return -1
		}
		if n > len(cur.ents) {
			panic("zsim: too many select cases")
		}
		for i := 0; i < n; i++ {
			cur.ents[i] = cs[i].entry()
		}
		cur.nents = n
		f := waitEnts("select")
		cur.nents = 0
		if f >= 0 {
			cs[f].done()
			return f
		}
	}
}

func keysOf[K comparable, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	type sk struct {
		k K
		s string
	}
	ss := make([]sk, len(ks))
	for i, k := range ks {
		ss[i] = sk{k, fmt.Sprintf("%v", k)}
	}
	slices.SortFunc(ss, func(a, b sk) int { return cmp.Compare(a.s, b.s) })
	for i := range ss {
		ks[i] = ss[i].k
	}
	shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	return ks
}

//go:norace
func shuffle(n int, swap func(i, j int)) {
	stat.MapRanges++
	for i := n - 1; i > 0; i-- {
		swap(i, int(rm.n(uint64(i+1))))
	}
}

// RangeMap is range m with a seeded order.
func RangeMap[K comparable, V any](m map[K]V) iter.Seq2[K, V] {
	return func(yield func(K, V) bool) {
		for _, k := range keysOf(m) {
			v, ok := m[k]
			if ok && !yield(k, v) {
				return
			}
		}
	}
}

// RangeMapKeys is range m over keys with a seeded order.
func RangeMapKeys[K comparable, V any](m map[K]V) iter.Seq[K] {
	return func(yield func(K) bool) {
		for _, k := range keysOf(m) {
			if _, ok := m[k]; ok && !yield(k) {
				return
			}
		}
	}
}

// Pools: which object a Get returns, and which a Put keeps, is the runtime's
// choice; here it is the seed's.

// PoolPick returns which of n stored objects a Get takes, or -1 for none.
//
//go:norace
func PoolPick(n int) int {
	if n == 0 {
		stat.PoolMiss++
		return -1
	}
	i := n - 1
	switch cfg.PoolMode {
	case "fifo":
		i = 0
	case "random":
		if rp.n(4) == 0 {
			i = -1
		} else {
			i = int(rp.n(uint64(n)))
		}
	case "miss":
		i = -1
	}
	if i < 0 {
		stat.PoolMiss++
	} else {
		stat.PoolHit++
	}
	return i
}

// PoolKeep reports whether a Put keeps its object.
//
//go:norace
func PoolKeep() bool {
	keep := true
	switch cfg.PoolMode {
	case "drop":
		keep = rp.n(2) == 0
	case "random":
		keep = rp.n(8) != 0
	}
	if !keep {
		stat.PoolDrop++
	}
	return keep
}
