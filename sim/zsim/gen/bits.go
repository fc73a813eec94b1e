// Package gen makes valid JPEG XL files whose exact pixels are known, file
// layouts around codestreams, and damage to stored bytes. It is written from
// the format, not from the decoder under test, and uses none of its code.
package gen

// BitWriter writes a bit string, least significant bit first.
//
// Pieces that cannot be written yet are put in their places with Later; they
// follow when the bits are resolved.
type BitWriter struct {
	B    []byte
	n    int
	done []piece
}

type piece struct {
	w    *BitWriter
	late func(w *BitWriter)
}

// Later leaves a place for what f writes.
func (w *BitWriter) Later(f func(w *BitWriter)) {
	w.done = append(w.done, piece{w: &BitWriter{B: w.B, n: w.n}, late: f})
	w.B, w.n = nil, 0
}

// Resolve writes everything that was left for later.
func (w *BitWriter) Resolve() {
	if len(w.done) == 0 {
		return
	}
	o := &BitWriter{}
	for _, p := range w.done {
		o.Append(p.w)
		p.late(o)
	}
	o.Append(&BitWriter{B: w.B, n: w.n})
	*w = *o
}

func (w *BitWriter) Bits(v uint64, n int) {
	if spoil != nil && n > 0 {
		v = spoil.pass(-1, v, 1<<uint(n)-1)
	}
	w.put(v, n)
}

func (w *BitWriter) put(v uint64, n int) {
	if w.n%8 == 0 && n == 8 {
		w.B = append(w.B, byte(v))
		w.n += 8
		return
	}
	for i := 0; i < n; i++ {
		if w.n%8 == 0 {
			w.B = append(w.B, 0)
		}
		if v>>uint(i)&1 != 0 {
			w.B[len(w.B)-1] |= 1 << uint(w.n%8)
		}
		w.n++
	}
}

func (w *BitWriter) Bool(b bool) {
	if b {
		w.Bits(1, 1)
	} else {
		w.Bits(0, 1)
	}
}

func (w *BitWriter) Len() int { return w.n }

func (w *BitWriter) Pad() {
	for w.n%8 != 0 {
		w.Bits(0, 1)
	}
}

// Append adds the bits of another writer.
func (w *BitWriter) Append(o *BitWriter) {
	for _, p := range o.done {
		w.Append(p.w)
		w.Later(p.late)
	}
	if w.n%8 == 0 {
		w.B = append(w.B[:len(w.B):len(w.B)], o.B...)
		w.n += o.n
		return
	}
	for i := 0; i < o.n; i++ {
		w.put(uint64(o.B[i/8]>>uint(i%8)&1), 1)
	}
}

// U32 writes v with the first of the four (offset, bits) choices that fits.
func (w *BitWriter) U32(v uint64, d [8]int) {
	for i := 0; i < 4; i++ {
		c, u := uint64(d[2*i]), d[2*i+1]
		if v >= c && v-c < 1<<uint(u) {
			w.Bits(uint64(i), 2)
			w.Bits(v-c, u)
			return
		}
	}
	panic("value does not fit")
}

func (w *BitWriter) U64(v uint64) {
	switch {
	case v == 0:
		w.Bits(0, 2)
	case v <= 16:
		w.Bits(1, 2)
		w.Bits(v-1, 4)
	case v <= 272:
		w.Bits(2, 2)
		w.Bits(v-17, 8)
	default:
		w.Bits(3, 2)
		w.Bits(v&4095, 12)
		v >>= 12
		s := 12
		for v > 0 && s < 60 {
			w.Bits(1, 1)
			w.Bits(v&255, 8)
			v >>= 8
			s += 8
		}
		if v > 0 {
			w.Bits(1, 1)
			w.Bits(v&15, 4)
			return
		}
		w.Bits(0, 1)
	}
}

func (w *BitWriter) Enum(v int) { w.U32(uint64(v), [8]int{0, 0, 1, 0, 2, 4, 18, 6}) }

func ilog2(v uint32) int {
	n := -1
	for v > 0 {
		v >>= 1
		n++
	}
	return n
}

// ceilLog1p is the number of bits needed for values 0..v.
func ceilLog1p(v int) int {
	n := 0
	for 1<<uint(n) < v+1 {
		n++
	}
	return n
}

func pack(v int32) uint32 {
	if v >= 0 {
		return uint32(v) << 1
	}
	return uint32(-v)<<1 - 1
}

// Rng is a small seeded generator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed*0x9E3779B97F4A7C15 + 0x1234567} }
func (r *Rng) Next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}
func (r *Rng) P(num, den int) bool      { return r.N(den) < num }
func (r *Rng) Pick(v ...int) int        { return v[r.N(len(v))] }
func (r *Rng) PickS(v ...string) string { return v[r.N(len(v))] }
func (r *Rng) Range(lo, hi int) int     { return lo + r.N(hi-lo+1) }
func (r *Rng) Split() *Rng              { return NewRng(r.Next()) }
