package gen

import "sort"

// Entropy coding. The values are collected first; what the code looks like is
// decided once all of them are known.

// Kinds of entropy codes that a coder may choose from.
const (
	CodePrefix = 1 << iota // prefix codes and integer configurations of all kinds
	CodeANS
	CodeLZ77
	CodeMap // cluster maps of all kinds, many clusters
)

type hybrid struct{ e, m, l int }

// token splits a value.
func (h hybrid) token(v uint32) (tok, ex uint32, nb int) {
	if h.e >= 32 || v < 1<<uint(h.e) {
		return v, 0, 0
	}
	n := ilog2(v)
	tok = 1<<uint(h.e) + uint32(n-h.e)<<uint(h.m+h.l) + (v>>uint(n-h.m)&(1<<uint(h.m)-1))<<uint(h.l) + v&(1<<uint(h.l)-1)
	nb = n - h.m - h.l
	return tok, v >> uint(h.l) & uint32(uint64(1)<<uint(nb)-1), nb
}

// bound is at least the largest token of the values up to v.
func (h hybrid) bound(v uint32) int {
	if v < 1<<uint(h.e) {
		return int(v)
	}
	return 1<<uint(h.e) + (ilog2(v)-h.e+1)<<uint(h.m+h.l) - 1
}

func (h hybrid) write(w *BitWriter, logAlpha int) {
	w.Bits(uint64(h.e), ceilLog1p(logAlpha))
	if h.e != logAlpha {
		w.Bits(uint64(h.m), ceilLog1p(h.e))
		w.Bits(uint64(h.l), ceilLog1p(h.e-h.m))
	}
}

type sym struct {
	ctx int32
	v   uint32
}

// event is a token of a distribution with its extra bits.
type event struct {
	cl  int32
	tok uint32
	ex  uint32
	nb  int
}

// session is one run of values with a state of its own.
type session struct {
	c    *coder
	mult int // for the distances of LZ77
	syms []sym
	ev   []event
}

func (s *session) sym(ctx int, v uint32) {
	if spoil != nil {
		v = uint32(spoil.pass(s.c.id, uint64(v), 1<<32-1))
	}
	s.syms = append(s.syms, sym{int32(ctx), v})
}

// coder is an entropy code for a number of contexts.
type coder struct {
	r     *Rng
	kinds int
	n     int
	dists int // about how many distributions
	id    int // of what is spoilt
	sess  []*session

	done     bool
	ctx      []int
	cfg      []hybrid
	count    [][]int // of the tokens of each distribution
	codes    []*code
	lz       bool
	lzLen    hybrid
	lzMinSym int
	lzMinLen int
	ans      bool
	logAlpha int
}

func newCoder(r *Rng, kinds, n, dists int) *coder {
	c := &coder{r: r.Split(), kinds: kinds, n: n, dists: dists}
	if spoil != nil {
		c.id = len(spoil.counts) - 1
		spoil.counts = append(spoil.counts, 0)
	}
	return c
}

// open starts a run of values at this place of w.
func (c *coder) open(w *BitWriter, mult int) *session {
	s := &session{c: c, mult: mult}
	c.sess = append(c.sess, s)
	w.Later(func(w *BitWriter) {
		c.finish()
		s.write(w)
	})
	return s
}

// header puts the description of the code at this place of w.
func (c *coder) header(w *BitWriter) {
	w.Later(func(w *BitWriter) {
		c.finish()
		c.writeHeader(w)
	})
}

func (c *coder) pickConfig(max uint32, limit int) hybrid {
	r := c.r
	for try := 0; ; try++ {
		var h hybrid
		switch {
		case try > 60:
		case r.P(1, 4):
			h.e = r.N(c.logAlpha + 1)
			if h.e > 10 && !r.P(1, 8) {
				continue
			}
			if h.e < c.logAlpha {
				h.m = r.N(h.e + 1)
				h.l = r.N(h.e - h.m + 1)
			}
		case r.P(1, 4):
			h.e = r.Range(2, min(8, c.logAlpha))
			h.l = r.N(h.e + 1)
			h.m = r.N(h.e - h.l + 1)
		case r.P(1, 3):
			h = hybrid{4, 2, 0}
		default:
			h.e = r.N(min(c.logAlpha, 6))
			h.m = r.N(min(3, h.e+1))
			h.l = r.N(min(2, h.e-h.m+1))
		}
		if h.e == c.logAlpha {
			h.m, h.l = 0, 0
			if max >= 1<<uint(h.e) {
				continue
			}
		}
		if b := h.bound(max); b < limit {
			return h
		}
	}
}

func (c *coder) finish() {
	if c.done {
		return
	}
	c.done = true
	r := c.r
	c.logAlpha = 15
	total := c.n
	if c.kinds&CodeLZ77 != 0 && r.P(3, 4) {
		c.lz = true
		total++
	}
	nd := max(1, min(c.dists, total))
	if c.kinds&CodeMap != 0 && r.P(1, 2) {
		nd = min(total, r.Pick(1, 2, 3, 8, 9, 16, 17, 40))
	}
	c.ctx = make([]int, total)
	for i := range c.ctx {
		c.ctx[i] = r.N(nd)
	}
	// every distribution is used
	for i, k := range r.perm(total)[:nd] {
		c.ctx[k] = i
	}
	if c.kinds == 0 {
		for i := 0; i < nd; i++ {
			c.ctx[i] = i
		}
	}
	// copies
	type item struct {
		sym
		n, d int // copy of n values, distance symbol d
	}
	var runs [][]item
	longest := 0
	if c.lz {
		c.lzMinLen = r.Pick(3, 4, 5, 6, 8, 9, 20)
	}
	for _, s := range c.sess {
		var l []item
		if !c.lz {
			for _, y := range s.syms {
				l = append(l, item{sym: y})
			}
			runs = append(runs, l)
			continue
		}
		seen := map[[3]uint32]int{}
		eager := r.Pick(1, 2, 8)
		for i := 0; i < len(s.syms); {
			n, d := 0, 0
			if !r.P(1, 6) {
				n, d = c.match(s, i, seen, eager)
			}
			step := 1
			if n > 0 {
				if n > c.lzMinLen && r.P(1, 3) {
					n = r.Range(c.lzMinLen, n)
				}
				l = append(l, item{s.syms[i], n, d})
				longest = max(longest, n)
				step = n
			} else {
				l = append(l, item{sym: s.syms[i]})
			}
			for k := i; k < i+step && k+2 < len(s.syms); k++ {
				seen[[3]uint32{s.syms[k].v, s.syms[k+1].v, s.syms[k+2].v}] = k
			}
			i += step
		}
		runs = append(runs, l)
	}
	top := make([]uint32, nd) // largest value of each distribution
	for _, l := range runs {
		for _, x := range l {
			k := c.ctx[x.ctx]
			if x.n == 0 {
				top[k] = max(top[k], x.v)
			} else {
				k = c.ctx[total-1]
				top[k] = max(top[k], uint32(x.d))
			}
		}
	}
	c.cfg = make([]hybrid, nd)
	c.ans = c.kinds&CodeANS != 0 && r.P(4, 5)
	switch {
	case c.kinds == 0:
		for i := range c.cfg {
			if r.P(1, 2) && nd > 1 {
				c.cfg[i] = hybrid{4, r.N(2), r.N(2)}
			}
		}
	default:
		limit := r.Pick(64, 256, 256, 256, 2000)
		if c.ans {
			c.logAlpha = r.Pick(5, 6, 7, 8, 8)
			if c.lz {
				c.logAlpha = 8
			}
			limit = 1 << uint(c.logAlpha)
			if c.logAlpha == 5 {
				limit++ // for the largest values
			}
			if c.lz {
				limit -= 40
			}
		}
		for i := range c.cfg {
			c.cfg[i] = c.pickConfig(top[i], limit)
			if c.ans && c.cfg[i].bound(top[i]) >= 1<<uint(c.logAlpha) {
				c.logAlpha = 6
			}
		}
	}
	if c.lz {
		at := 8
		for i, h := range c.cfg {
			at = max(at, h.bound(top[i])+1)
		}
		for {
			c.lzLen = hybrid{e: r.N(5)}
			c.lzLen.m = r.N(min(2, c.lzLen.e+1))
			c.lzLen.l = r.N(min(2, c.lzLen.e-c.lzLen.m+1))
			if c.lzLen.bound(uint32(max(0, longest-c.lzMinLen))) < 38 {
				break
			}
		}
		c.lzMinSym = at + r.N(2)
		if o := r.Pick(224, 512, 4096); o >= at && (!c.ans || o == 224 && c.lzLen.bound(uint32(longest)) < 32) {
			c.lzMinSym = o
		}
	}
	// tokens
	c.count = make([][]int, nd)
	put := func(s *session, k int, tok, ex uint32, nb int) {
		for len(c.count[k]) <= int(tok) {
			c.count[k] = append(c.count[k], 0)
		}
		c.count[k][tok]++
		s.ev = append(s.ev, event{int32(k), tok, ex, nb})
	}
	for i, s := range c.sess {
		for _, x := range runs[i] {
			k := c.ctx[x.ctx]
			if x.n == 0 {
				tok, ex, nb := c.cfg[k].token(x.v)
				put(s, k, tok, ex, nb)
				continue
			}
			tok, ex, nb := c.lzLen.token(uint32(x.n - c.lzMinLen))
			put(s, k, tok+uint32(c.lzMinSym), ex, nb)
			k = c.ctx[total-1]
			tok, ex, nb = c.cfg[k].token(uint32(x.d))
			put(s, k, tok, ex, nb)
		}
		s.syms = nil
	}
	for i := range c.count {
		if len(c.count[i]) == 0 {
			c.count[i] = []int{1} // not used
		}
		switch {
		case c.ans:
			c.codes = append(c.codes, newANS(r, c.count[i], c.logAlpha))
		case c.kinds == 0:
			n := 5
			if c.cfg[i].e > 0 {
				n = 7
			}
			c.codes = append(c.codes, uniformCode(n))
		default:
			c.codes = append(c.codes, newPrefix(r, c.count[i]))
		}
	}
}

var specialDist = [120][2]int{
	{0, 1}, {1, 0}, {1, 1}, {-1, 1}, {0, 2}, {2, 0}, {1, 2}, {-1, 2}, {2, 1}, {-2, 1}, {2, 2}, {-2, 2}, {0, 3}, {3, 0}, {1, 3}, {-1, 3}, {3, 1}, {-3, 1}, {2, 3}, {-2, 3},
	{3, 2}, {-3, 2}, {0, 4}, {4, 0}, {1, 4}, {-1, 4}, {4, 1}, {-4, 1}, {3, 3}, {-3, 3}, {2, 4}, {-2, 4}, {4, 2}, {-4, 2}, {0, 5}, {3, 4}, {-3, 4}, {4, 3}, {-4, 3}, {5, 0},
	{1, 5}, {-1, 5}, {5, 1}, {-5, 1}, {2, 5}, {-2, 5}, {5, 2}, {-5, 2}, {4, 4}, {-4, 4}, {3, 5}, {-3, 5}, {5, 3}, {-5, 3}, {0, 6}, {6, 0}, {1, 6}, {-1, 6}, {6, 1}, {-6, 1},
	{2, 6}, {-2, 6}, {6, 2}, {-6, 2}, {4, 5}, {-4, 5}, {5, 4}, {-5, 4}, {3, 6}, {-3, 6}, {6, 3}, {-6, 3}, {0, 7}, {7, 0}, {1, 7}, {-1, 7}, {5, 5}, {-5, 5}, {7, 1}, {-7, 1},
	{4, 6}, {-4, 6}, {6, 4}, {-6, 4}, {2, 7}, {-2, 7}, {7, 2}, {-7, 2}, {3, 7}, {-3, 7}, {7, 3}, {-7, 3}, {5, 6}, {-5, 6}, {6, 5}, {-6, 5}, {8, 0}, {4, 7}, {-4, 7}, {7, 4},
	{-7, 4}, {8, 1}, {8, 2}, {6, 6}, {-6, 6}, {8, 3}, {5, 7}, {-5, 7}, {7, 5}, {-7, 5}, {8, 4}, {6, 7}, {-6, 7}, {7, 6}, {-7, 6}, {8, 5}, {7, 7}, {-7, 7}, {8, 6}, {8, 7},
}

// match looks for a copy at i: its length, 0 if none, and distance symbol.
func (c *coder) match(s *session, i int, seen map[[3]uint32]int, eager int) (int, int) {
	r := c.r
	length := func(d int) int { // d: 1..i, or more at the start, where zeros are
		n := 0
		for i+n < len(s.syms) {
			want := uint32(0)
			if d = min(d, i); d > 0 {
				k := i + n - d
				want = s.syms[k].v
			}
			if s.syms[i+n].v != want {
				break
			}
			n++
			if n > 100000 {
				break
			}
		}
		return n
	}
	// symbols to try
	var best, at int
	try := func(symb, d int) {
		if n := length(min(d, 1<<20)); n >= c.lzMinLen && n > best {
			best, at = n, symb
		}
	}
	of := func(d int) int { // symbol of a distance
		if s.mult == 0 {
			return d - 1
		}
		if r.P(1, 2) {
			for k, o := range specialDist {
				if max(1, o[0]+s.mult*o[1]) == d && r.P(1, 2) {
					return k
				}
			}
		}
		return d + 119
	}
	if i+2 < len(s.syms) {
		if k, ok := seen[[3]uint32{s.syms[i].v, s.syms[i+1].v, s.syms[i+2].v}]; ok {
			try(of(i-k), i-k)
		}
	}
	for k := 0; k < eager; k++ {
		switch r.N(4) {
		case 0:
			d := r.Range(1, 8)
			try(of(d), d)
		case 1:
			if s.mult > 0 {
				k := r.N(120)
				try(k, max(1, specialDist[k][0]+s.mult*specialDist[k][1]))
			}
		case 2: // farther than what there is
			d := i + r.Pick(1, 2, 1000, 1<<20)
			if s.mult > 0 {
				try(d+119, d)
			} else {
				try(d-1, d)
			}
		case 3:
			d := r.Range(1, i+1)
			try(of(d), d)
		}
	}
	return best, at
}

func (c *coder) writeHeader(w *BitWriter) {
	w.Bool(c.lz)
	if c.lz {
		w.U32(uint64(c.lzMinSym), [8]int{224, 0, 512, 0, 4096, 0, 8, 15})
		w.U32(uint64(c.lzMinLen), [8]int{3, 0, 4, 0, 5, 2, 9, 8})
		c.lzLen.write(w, 8)
	}
	if len(c.ctx) > 1 {
		writeClusters(w, c.r, c.ctx, len(c.cfg), c.kinds)
	}
	w.Bool(!c.ans)
	if c.ans {
		w.Bits(uint64(c.logAlpha-5), 2)
	}
	for _, h := range c.cfg {
		h.write(w, c.logAlpha)
	}
	if c.ans {
		for _, k := range c.codes {
			w.Append(k.desc)
		}
		return
	}
	for _, k := range c.codes {
		w.Bool(k.size > 1)
		if k.size > 1 {
			n := ilog2(uint32(k.size - 1))
			w.Bits(uint64(n), 4)
			w.Bits(uint64(k.size-1-1<<uint(n)), n)
		}
	}
	for _, k := range c.codes {
		if k.size > 1 {
			w.Append(k.desc)
		}
	}
}

// writeClusters writes which of the nd distributions each context takes.
func writeClusters(w *BitWriter, r *Rng, ctx []int, nd, kinds int) {
	if nd <= 8 && (kinds&CodeMap == 0 || r.P(1, 3)) {
		w.Bool(true)
		nb := ceilLog1p(nd - 1)
		if kinds&CodeMap != 0 {
			nb = min(3, nb+r.N(2))
		}
		w.Bits(uint64(nb), 2)
		for _, k := range ctx {
			w.Bits(uint64(k), nb)
		}
	} else {
		w.Bool(false)
		mtf := r.P(1, 2)
		w.Bool(mtf)
		kinds &^= CodeMap
		if len(ctx) <= 2 {
			kinds &^= CodeLZ77
		}
		o := &BitWriter{}
		in := newCoder(r, kinds, 1, 1)
		in.header(o)
		s := in.open(o, 0)
		var list [256]int
		for i := range list {
			list[i] = i
		}
		for _, k := range ctx {
			if mtf {
				p := 0
				for list[p] != k {
					p++
				}
				copy(list[1:p+1], list[:p])
				list[0] = k
				k = p
			}
			s.sym(0, uint32(k))
		}
		o.Resolve()
		w.Append(o)
	}
}

func (s *session) write(w *BitWriter) {
	c := s.c
	if len(s.ev) == 0 {
		return
	}
	if !c.ans {
		for _, e := range s.ev {
			k := c.codes[e.cl]
			w.put(k.bits[e.tok], k.lens[e.tok])
			w.put(uint64(e.ex), e.nb)
		}
		s.ev = nil
		return
	}
	state := uint32(0x130000)
	refill := make([]int32, len(s.ev)) // -1: none
	for i := len(s.ev) - 1; i >= 0; i-- {
		k := c.codes[s.ev[i].cl]
		f := k.freq[s.ev[i].tok]
		refill[i] = -1
		if state>>20 >= f {
			refill[i] = int32(state & 0xffff)
			state >>= 16
		}
		state = state/f<<12 | k.slots[s.ev[i].tok][state%f]
	}
	w.put(uint64(state), 32)
	for i, e := range s.ev {
		if refill[i] >= 0 {
			w.put(uint64(refill[i]), 16)
		}
		w.put(uint64(e.ex), e.nb)
	}
	s.ev = nil
}

// code is one distribution.
type code struct {
	size int // of the alphabet
	desc *BitWriter
	// prefix codes
	lens []int
	bits []uint64
	// ANS
	freq  []uint32
	slots [][]uint32 // places in the table by symbol and offset
}

func revBits(v uint32, n int) uint64 {
	r := uint64(0)
	for i := 0; i < n; i++ {
		r = r<<1 | uint64(v>>uint(i)&1)
	}
	return r
}

// assign makes the codes; order lists symbols with lengths as they follow
// each other.
func (k *code) assign(order []int) {
	k.bits = make([]uint64, len(k.lens))
	at := uint64(0)
	for _, s := range order {
		n := k.lens[s]
		k.bits[s] = revBits(uint32(at>>uint(32-n)), n)
		at += 1 << uint(32-n)
	}
	if at != 1<<32 && len(order) > 1 {
		panic("code is not complete")
	}
}

func canonical(lens []int) []int {
	var l []int
	for n := 1; n <= 15; n++ {
		for s, k := range lens {
			if k == n {
				l = append(l, s)
			}
		}
	}
	return l
}

func uniformCode(n int) *code {
	k := &code{size: 1 << uint(n), lens: make([]int, 1<<uint(n)), desc: &BitWriter{}}
	for i := range k.lens {
		k.lens[i] = n
	}
	k.assign(canonical(k.lens))
	writeLengths(k.desc, nil, k.lens)
	return k
}

// limited gives code lengths of at most n bits.
func limited(weights []int, n int) []int {
	type nd struct{ w, a, b int }
	w := append([]int{}, weights...)
	for {
		var leaves []int
		for i, v := range w {
			if v > 0 {
				leaves = append(leaves, i)
			}
		}
		sort.SliceStable(leaves, func(i, j int) bool { return w[leaves[i]] < w[leaves[j]] })
		var t []nd
		for _, i := range leaves {
			t = append(t, nd{w[i], i, -1})
		}
		m := len(leaves)
		i, j := 0, m
		take := func() int {
			if i < m && (j >= len(t) || t[i].w <= t[j].w) {
				i++
				return i - 1
			}
			j++
			return j - 1
		}
		for k := 0; k < m-1; k++ {
			a := take()
			b := take()
			t = append(t, nd{t[a].w + t[b].w, a, b})
		}
		lens := make([]int, len(w))
		depth := make([]int, len(t))
		worst := 0
		for k := len(t) - 1; k >= 0; k-- {
			if k < m {
				lens[t[k].a] = depth[k]
				worst = max(worst, depth[k])
			} else {
				depth[t[k].a], depth[t[k].b] = depth[k]+1, depth[k]+1
			}
		}
		if worst <= n {
			return lens
		}
		for k := range w {
			if w[k] > 0 {
				w[k] = w[k]/2 + 1
			}
		}
	}
}

func newPrefix(r *Rng, count []int) *code {
	k := &code{desc: &BitWriter{}}
	var used []int
	for s, n := range count {
		if n > 0 {
			used = append(used, s)
		}
	}
	k.size = len(count)
	if len(used) == 1 && used[0] == 0 && r.P(3, 4) {
		k.size = 1
		k.lens, k.bits = []int{0}, []uint64{0}
		return k
	}
	if r.P(1, 3) || k.size < 2 {
		k.size += r.Pick(1, 1, 2, 7, 30)
	}
	if len(used) < 2 || len(used) <= 4 && r.P(1, 2) {
		// a simple code, perhaps with symbols that do not occur
		for len(used) < 4 && len(used) < k.size && r.P(1, 4) {
			s := r.N(k.size)
			dup := false
			for _, u := range used {
				dup = dup || u == s
			}
			if !dup {
				used = append(used, s)
			}
		}
		for i := len(used) - 1; i > 0; i-- {
			j := r.N(i + 1)
			used[i], used[j] = used[j], used[i]
		}
		lens := [][]int{{0}, {1, 1}, {1, 2, 2}, {2, 2, 2, 2}}[len(used)-1]
		w := k.desc
		w.Bits(1, 2)
		w.Bits(uint64(len(used)-1), 2)
		for _, s := range used {
			w.Bits(uint64(s), ceilLog1p(k.size-1))
		}
		if len(used) == 4 {
			deep := r.P(1, 2)
			w.Bool(deep)
			if deep {
				lens = []int{1, 2, 3, 3}
			}
		}
		k.lens = make([]int, k.size)
		for i, s := range used {
			k.lens[s] = lens[i]
		}
		k.assign(canonical(k.lens))
		if len(used) == 1 {
			k.bits = make([]uint64, k.size)
		}
		return k
	}
	weights := make([]int, k.size)
	copy(weights, count)
	style := r.N(4)
	for i := range weights {
		if weights[i] == 0 && r.P(1, 12) {
			weights[i] = 1
		}
		if weights[i] == 0 {
			continue
		}
		switch style {
		case 1:
			weights[i] = 1 + r.N(20)
		case 2:
			weights[i] = 1 << uint(r.N(24))
		case 3:
			weights[i] = 1
		}
	}
	k.lens = limited(weights, 15)
	k.assign(canonical(k.lens))
	writeLengths(k.desc, r, k.lens)
	return k
}

// writeLengths describes the code lengths of a prefix code.
func writeLengths(w *BitWriter, r *Rng, lens []int) {
	type lc struct{ c, ex, nb int }
	var l []lc
	last := len(lens) - 1
	for lens[last] == 0 {
		last--
	}
	prev := 8
	runs := r != nil && r.P(3, 4)
	repeat := func(c, n, base int) { // n >= 3
		var rev []lc
		nb := 2
		if c == 17 {
			nb = 3
		}
		n -= 3
		for {
			rev = append(rev, lc{c, n & (base - 1), nb})
			n >>= uint(nb)
			if n == 0 {
				break
			}
			n--
		}
		for i := len(rev) - 1; i >= 0; i-- {
			l = append(l, rev[i])
		}
	}
	for i := 0; i <= last; {
		n := 1
		for i+n <= last && lens[i+n] == lens[i] {
			n++
		}
		v := lens[i]
		i += n
		if v == 0 {
			lit := 0
			if !runs || n < 3 {
				lit = n
			} else if r.P(1, 4) {
				lit = r.N(n + 1)
				if n-lit < 3 {
					lit = n
				}
			}
			for k := 0; k < lit; k++ {
				l = append(l, lc{c: 0})
			}
			if n > lit {
				repeat(17, n-lit, 8)
			}
			continue
		}
		lit := n
		if runs {
			lo := 1
			if v == prev {
				lo = 0
			}
			if n-lo >= 3 && !r.P(1, 5) {
				lit = lo
				if r.P(1, 4) {
					lit = r.Range(lo, n-3)
				}
			}
		}
		for k := 0; k < lit; k++ {
			l = append(l, lc{c: v})
		}
		prev = v
		if n > lit {
			repeat(16, n-lit, 4)
		}
	}
	count := make([]int, 18)
	kinds := 0
	for _, x := range l {
		if count[x.c] == 0 {
			kinds++
		}
		count[x.c]++
	}
	order := []int{1, 2, 3, 4, 0, 5, 17, 6, 16, 7, 8, 9, 10, 11, 12, 13, 14, 15}
	if r != nil && r.P(1, 3) {
		k := r.N(18)
		if count[k] == 0 {
			count[k]++
			kinds++
		}
	}
	one := &code{lens: make([]int, 18), bits: make([]uint64, 18)}
	if kinds == 1 {
		for c, n := range count {
			if n > 0 {
				one.lens[c] = 4
				if r != nil {
					one.lens[c] = r.Range(1, 5)
				}
			}
		}
	} else {
		one.lens = limited(count, 5)
		one.assign(canonical(one.lens))
	}
	skip := 0
	if r != nil && one.lens[1] == 0 && one.lens[2] == 0 && r.P(1, 2) {
		skip = 2
		if one.lens[3] == 0 && r.P(1, 2) {
			skip = 3
		}
	}
	w.Bits(uint64(skip), 2)
	total := 0
	for _, c := range order[skip:] {
		n := one.lens[c]
		switch n {
		case 0:
			w.Bits(0, 2)
		case 1:
			w.Bits(7, 4)
		case 2:
			w.Bits(3, 3)
		case 3:
			w.Bits(2, 2)
		case 4:
			w.Bits(1, 2)
		case 5:
			w.Bits(15, 4)
		}
		if n > 0 {
			total += 32 >> uint(n)
		}
		if total == 32 {
			break
		}
	}
	for _, x := range l {
		if kinds > 1 {
			w.Bits(one.bits[x.c], one.lens[x.c])
		}
		w.Bits(uint64(x.ex), x.nb)
	}
}

func (w *BitWriter) u8(v int) {
	w.Bool(v > 0)
	if v > 0 {
		n := ilog2(uint32(v))
		w.Bits(uint64(n), 3)
		w.Bits(uint64(v)-1<<uint(n), n)
	}
}

var logCountCode = [14][2]int{{17, 5}, {11, 4}, {15, 4}, {3, 4}, {9, 4}, {7, 4}, {4, 3}, {2, 3}, {5, 3}, {6, 3}, {0, 3}, {33, 6}, {1, 7}, {65, 7}}

func newANS(r *Rng, count []int, logAlpha int) *code {
	k := &code{desc: &BitWriter{}}
	w := k.desc
	size := len(count)
	var used []int
	for s, n := range count {
		if n > 0 {
			used = append(used, s)
		}
	}
	k.freq = make([]uint32, 1<<uint(logAlpha))
	switch {
	case len(used) == 1 && r.P(2, 3):
		w.Bool(true)
		w.Bool(false)
		w.u8(used[0])
		k.freq[used[0]] = 4096
	case len(used) <= 2 && r.P(1, 2):
		a := used[0]
		b := a
		if len(used) == 2 {
			b = used[1]
		}
		for a == b {
			b = r.N(1 << uint(logAlpha))
		}
		if r.P(1, 2) {
			a, b = b, a
		}
		f := r.Pick(1, 2048, 4095, r.Range(1, 4095))
		if len(used) == 1 && b == used[0] && r.P(1, 2) {
			f = 0 // the other one does not occur
		}
		w.Bool(true)
		w.Bool(true)
		w.u8(a)
		w.u8(b)
		w.Bits(uint64(f), 12)
		k.freq[a], k.freq[b] = uint32(f), uint32(4096-f)
	case r.P(1, 5):
		n := min(1<<uint(logAlpha), size+r.Pick(0, 0, 1, 5, 100))
		w.Bool(false)
		w.Bool(true)
		w.u8(n - 1)
		for i := 0; i < n; i++ {
			k.freq[i] = uint32(4096 / n)
			if i < 4096%n {
				k.freq[i]++
			}
		}
	default:
		n := min(1<<uint(logAlpha), max(3, size+r.Pick(0, 0, 1, 9)))
		shift := r.Pick(0, 1, 4, 8, 11, 12, 13, 13)
		k.general(r, count, n, shift)
	}
	// table
	lb := 12 - logAlpha
	bucket := 1 << uint(lb)
	n := 1 << uint(logAlpha)
	sym, off, cut := make([]int, n), make([]int, n), make([]int, n)
	single := -1
	for s, f := range k.freq {
		if f == 4096 {
			single = s
		}
	}
	if single >= 0 {
		for i := range sym {
			sym[i], off[i] = single, i*bucket
		}
	} else {
		var over, under []int
		for i := range cut {
			cut[i] = int(k.freq[i])
			if cut[i] > bucket {
				over = append(over, i)
			} else if cut[i] < bucket {
				under = append(under, i)
			}
		}
		for len(over) > 0 {
			o, u := over[len(over)-1], under[len(under)-1]
			over, under = over[:len(over)-1], under[:len(under)-1]
			cut[o] -= bucket - cut[u]
			sym[u], off[u] = o, cut[o]
			if cut[o] < bucket {
				under = append(under, o)
			} else if cut[o] > bucket {
				over = append(over, o)
			}
		}
		for i := range cut {
			if cut[i] == bucket {
				sym[i], off[i], cut[i] = i, 0, 0
			} else {
				off[i] -= cut[i]
			}
		}
	}
	k.slots = make([][]uint32, n)
	for s, f := range k.freq {
		k.slots[s] = make([]uint32, f)
	}
	for i := 0; i < 4096; i++ {
		b, p := i>>uint(lb), i&(bucket-1)
		if p >= cut[b] {
			k.slots[sym[b]][off[b]+p] = uint32(i)
		} else {
			k.slots[b][p] = uint32(i)
		}
	}
	return k
}

// general writes a distribution symbol by symbol.
func (k *code) general(r *Rng, count []int, n, shift int) {
	w := k.desc
	weight := make([]int, n)
	style := r.N(3)
	for i := range weight {
		if i < len(count) {
			weight[i] = count[i]
		}
		if weight[i] == 0 && r.P(1, 20) {
			weight[i] = 1
		}
		if weight[i] > 0 && style > 0 {
			weight[i] = 1 + r.N([]int{0, 3, 5000}[style])
		}
	}
	if len(count) > 2 && r.P(1, 3) { // equal ones next to each other
		a := r.N(n)
		for i := a + 1; i < n && i < a+r.Pick(5, 12, 60); i++ {
			if weight[i] > 0 && weight[a] > 0 {
				weight[i] = weight[a]
			}
		}
	}
	total := 0
	for _, v := range weight {
		total += v
	}
	f := make([]int, n)
	lc := make([]int, n)
	bc := make([]int, n)
	sum := 0
	precise := func(i int) {
		c := ilog2(uint32(f[i])) + 1
		lc[i] = c
		if c <= 1 {
			return
		}
		b := shift - (12-(c-1))>>1
		b = max(0, min(b, c-1))
		bc[i] = b
		low := uint(c - 1 - b)
		f[i] = f[i] >> low << low
	}
	// room for one of everything
	for i := range f {
		if weight[i] > 0 {
			f[i] = max(1, weight[i]*(4096-n)/total)
			precise(i)
			sum += f[i]
		}
	}
	// the one that gets the rest: the first with the largest count
	omit := 0
	for i := range lc {
		if lc[i] > lc[omit] {
			omit = i
		}
	}
	lc[omit] = min(lc[omit], 12)
	f[omit] = 4096 - (sum - f[omit])
	w.Bool(false)
	w.Bool(false)
	// shift
	v := shift + 1
	l := ilog2(uint32(v))
	for i := 0; i < l; i++ {
		w.Bool(true)
	}
	if l < 3 {
		w.Bool(false)
	}
	w.Bits(uint64(v)-1<<uint(l), l)
	w.u8(n - 3)
	run := make([]int, n) // length of a run that starts here
	runs := r.P(2, 3)
	for i := 0; i < n; i++ {
		if runs && i != omit+1 {
			prev := 0
			if i > 0 {
				prev = f[i-1]
			}
			m := 0
			for i+m < n && i+m != omit && f[i+m] == prev && m < 259 {
				m++
			}
			if m >= 4 && !r.P(1, 6) {
				if r.P(1, 5) {
					m = r.Range(4, m)
				}
				run[i] = m
				w.Bits(uint64(logCountCode[13][0]), logCountCode[13][1])
				w.u8(m - 4)
				i += m - 1
				continue
			}
		}
		c := logCountCode[lc[i]]
		w.Bits(uint64(c[0]), c[1])
	}
	for i := 0; i < n; i++ {
		if run[i] > 0 {
			i += run[i] - 1
			continue
		}
		if i == omit || lc[i] <= 1 {
			continue
		}
		w.Bits(uint64(f[i]-1<<uint(lc[i]-1))>>uint(lc[i]-1-bc[i]), bc[i])
	}
	for i, x := range f {
		k.freq[i] = uint32(x)
	}
}

func (r *Rng) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
