package gen

import "slices"

// Modular image coding: channels, prediction trees, forward transforms.

type channel struct {
	w, h, hs, vs int
	d            []int32
	// where it was cut from
	of     *channel
	ox, oy int
}

func newChannel(w, h, hs, vs int) *channel {
	return &channel{w: w, h: h, hs: hs, vs: vs, d: make([]int32, w*h)}
}
func (c *channel) at(x, y int) int32 { return c.d[y*c.w+x] }

func (c *channel) crop(x0, y0, w, h int) *channel {
	r := newChannel(w, h, c.hs, c.vs)
	r.of, r.ox, r.oy = c, x0, y0
	for y := 0; y < h; y++ {
		copy(r.d[y*w:(y+1)*w], c.d[(y0+y)*c.w+x0:(y0+y)*c.w+x0+w])
	}
	return r
}

// set changes a sample, also in what the channel was cut from.
func (c *channel) set(x, y int, v int32) {
	for ; c != nil; c = c.of {
		c.d[y*c.w+x] = v
		x, y = x+c.ox, y+c.oy
	}
}

func (c *channel) like(o *channel) bool {
	return c.w == o.w && c.h == o.h && c.hs == o.hs && c.vs == o.vs
}

func (c *channel) W(x, y int) int32 {
	if x > 0 {
		return c.at(x-1, y)
	}
	if y > 0 {
		return c.at(x, y-1)
	}
	return 0
}
func (c *channel) N(x, y int) int32 {
	if y > 0 {
		return c.at(x, y-1)
	}
	return c.W(x, y)
}
func (c *channel) NW(x, y int) int32 {
	if x > 0 && y > 0 {
		return c.at(x-1, y-1)
	}
	return c.W(x, y)
}
func (c *channel) NE(x, y int) int32 {
	if x+1 < c.w && y > 0 {
		return c.at(x+1, y-1)
	}
	return c.N(x, y)
}
func (c *channel) NN(x, y int) int32 {
	if y > 1 {
		return c.at(x, y-2)
	}
	return c.N(x, y)
}
func (c *channel) NEE(x, y int) int32 {
	if x+2 < c.w && y > 0 {
		return c.at(x+2, y-1)
	}
	return c.NE(x, y)
}
func (c *channel) WW(x, y int) int32 {
	if x > 1 {
		return c.at(x-2, y)
	}
	return c.W(x, y)
}

func abs32(v int32) int32 {
	if v < 0 {
		return -v
	}
	return v
}

func (c *channel) predict(x, y, k int) int32 {
	switch k {
	case 0:
		return 0
	case 1:
		return c.W(x, y)
	case 2:
		return c.N(x, y)
	case 3:
		return (c.W(x, y) + c.N(x, y)) / 2
	case 4:
		if abs32(c.N(x, y)-c.NW(x, y)) < abs32(c.W(x, y)-c.NW(x, y)) {
			return c.W(x, y)
		}
		return c.N(x, y)
	case 5:
		w, n := c.W(x, y), c.N(x, y)
		v := w + n - c.NW(x, y)
		return max(min(w, n), min(max(w, n), v))
	case 7:
		return c.NE(x, y)
	case 8:
		return c.NW(x, y)
	case 9:
		return c.WW(x, y)
	case 10:
		return (c.W(x, y) + c.NW(x, y)) / 2
	case 11:
		return (c.N(x, y) + c.NW(x, y)) / 2
	case 12:
		return (c.N(x, y) + c.NE(x, y)) / 2
	case 13:
		return (6*c.N(x, y) - 2*c.NN(x, y) + 7*c.W(x, y) + c.WW(x, y) + c.NEE(x, y) + 3*c.NE(x, y) + 8) / 16
	}
	panic("predictor")
}

// wp is the state of the weighted predictor for a channel.
type wp struct {
	c    *channel
	p    [7]int32
	wt   [4]int64
	err  [5][]int32 // of the four parts and, with its sign, of the whole
	sub  [4]int32
	pred int32
	max  int32 // largest error next to the sample
}

func (o *wpParams) open(c *channel) *wp {
	s := &wp{c: c, p: [7]int32{16, 10, 7, 7, 7, 0, 0}, wt: [4]int64{13, 12, 12, 12}}
	if o != nil {
		s.p, s.wt = o.p, o.wt
	}
	for i := range s.err {
		s.err[i] = make([]int32, c.w*c.h)
	}
	return s
}

type wpParams struct {
	p  [7]int32
	wt [4]int64
}

func (o *wpParams) write(w *BitWriter) {
	w.Bool(o == nil)
	if o != nil {
		for _, v := range o.p {
			w.Bits(uint64(v), 5)
		}
		for _, v := range o.wt {
			w.Bits(uint64(v), 4)
		}
	}
}

// predict has to be called for every sample, and learn afterwards.
func (s *wp) predict(x, y int) int32 {
	c := s.c
	n, w, nw, ne, nn := c.N(x, y)*8, c.W(x, y)*8, c.NW(x, y)*8, c.NE(x, y)*8, c.NN(x, y)*8
	eN := func(k int) int32 {
		if y == 0 {
			return 0
		}
		return s.err[k][(y-1)*c.w+x]
	}
	eW := func(k, d int) int32 {
		if x < d {
			return 0
		}
		return s.err[k][y*c.w+x-d]
	}
	eNW := func(k int) int32 {
		if x > 0 && y > 0 {
			return s.err[k][(y-1)*c.w+x-1]
		}
		return eN(k)
	}
	eNE := func(k int) int32 {
		if x+1 < c.w && y > 0 {
			return s.err[k][(y-1)*c.w+x+1]
		}
		return eN(k)
	}
	tN, tW, tNW, tNE := eN(4), eW(4, 1), eNW(4), eNE(4)
	s.sub[0] = w + ne - n
	s.sub[1] = n - (tW+tN+tNE)*s.p[0]>>5
	s.sub[2] = w - (tW+tN+tNW)*s.p[1]>>5
	s.sub[3] = n - (tNW*s.p[2]+tN*s.p[3]+tNE*s.p[4]+(nn-n)*s.p[5]+(nw-w)*s.p[6])>>5
	var weight [4]int64
	sum := int64(0)
	for k := range weight {
		e := uint32(eN(k) + eW(k, 1) + eNW(k) + eW(k, 2) + eNE(k))
		if x+1 == c.w {
			e += uint32(eW(k, 1))
		}
		sh := uint(max(0, ilog2(e+1)-5))
		weight[k] = 4 + s.wt[k]*(1<<24/int64(e>>sh+1))>>sh
		sum += weight[k]
	}
	sh := uint(ilog2(uint32(sum)) - 4)
	sum = 0
	total := int64(0)
	for k := range weight {
		weight[k] >>= sh
		sum += weight[k]
		total += weight[k] * int64(s.sub[k])
	}
	total += sum/2 - 1
	s.pred = int32(total * (1 << 24 / sum) >> 24)
	if (tN^tW)|(tN^tNW) <= 0 {
		s.pred = max(min(w, n, ne), min(max(w, n, ne), s.pred))
	}
	s.max = tW
	for _, e := range []int32{tN, tNW, tNE} {
		if abs32(e) > abs32(s.max) {
			s.max = e
		}
	}
	return (s.pred + 3) >> 3
}

func (s *wp) learn(x, y int, v int32) {
	at := y*s.c.w + x
	for k := range s.sub {
		s.err[k][at] = (abs32(s.sub[k]-v*8) + 3) >> 3
	}
	s.err[4][at] = s.pred - v*8
}

func (c *channel) property(k, ch, stream, x, y int, before []*channel, wp *wp) int32 {
	switch k {
	case 0:
		return int32(ch)
	case 1:
		return int32(stream)
	case 2:
		return int32(y)
	case 3:
		return int32(x)
	case 4:
		return abs32(c.N(x, y))
	case 5:
		return abs32(c.W(x, y))
	case 6:
		return c.N(x, y)
	case 7:
		return c.W(x, y)
	case 8:
		v := c.W(x, y)
		if x > 0 {
			v -= c.property(9, ch, stream, x-1, y, before, wp)
		}
		return v
	case 9:
		return c.W(x, y) + c.N(x, y) - c.NW(x, y)
	case 10:
		return c.W(x, y) - c.NW(x, y)
	case 11:
		return c.NW(x, y) - c.N(x, y)
	case 12:
		return c.N(x, y) - c.NE(x, y)
	case 13:
		return c.N(x, y) - c.NN(x, y)
	case 14:
		return c.W(x, y) - c.WW(x, y)
	case 15:
		return wp.max
	}
	// earlier channels of the same shape, the nearest first
	k -= 16
	for i := len(before) - 1; i >= 0; i-- {
		o := before[i]
		if !o.like(c) {
			continue
		}
		if k >= 4 {
			k -= 4
			continue
		}
		v := o.at(x, y)
		switch k {
		case 0:
			return abs32(v)
		case 1:
			return v
		}
		w := int32(0)
		if x > 0 {
			w = o.at(x-1, y)
		}
		n, nw := w, w
		if y > 0 {
			n = o.at(x, y-1)
			if x > 0 {
				nw = o.at(x-1, y-1)
			}
		}
		v -= max(min(w, n), min(max(w, n), w+n-nw))
		if k == 2 {
			v = abs32(v)
		}
		return v
	}
	return 0
}

type node struct {
	prop        int // -1: leaf
	val         int32
	left, right *node
	pred, ctx   int
	offset      int32
	mulLog      int
	mulBits     int
}

type tree struct {
	p      *Params
	r      *Rng
	root   *node
	order  []*node // breadth first
	leaves int
	code   *coder
	wp     bool
}

// What prediction trees may use, Params.Pred
const (
	PredWeighted = 1 << iota
	PredWeights  // other parameters of the weighted predictor
	PredBefore   // properties of earlier channels
	PredMultiply // multipliers, for images without transforms
)

func newTree(r *Rng, p *Params, maxStream int) *tree {
	preds := []int{0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 11, 12, 13}
	props := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
	kind := p.Tree
	if p.Pred&PredWeighted != 0 {
		preds = append(preds, 6, 6, 6, 6)
		props = append(props, 15, 15, 15)
		kind = max(kind, r.N(2))
	}
	if p.Pred&PredBefore != 0 {
		for i := 0; i < 12; i++ {
			props = append(props, 16+i%8)
		}
		props = append(props, 24+r.N(8))
	}
	least := slices.Min(p.depths()) // a multiplier is less than the largest sample
	leaf := func() *node {
		n := &node{prop: -1, pred: preds[r.N(len(preds))]}
		if r.P(1, 4) {
			n.offset = int32(r.Range(-5, 5))
		}
		if p.Pred&PredMultiply != 0 && least >= 5 && r.P(1, 2) {
			n.mulLog, n.mulBits = r.Pick(0, 0, 1, 2), r.Pick(0, 1, 2, 4)
		}
		return n
	}
	type bounds struct{ lo, hi int64 }
	in := map[int]bounds{}
	var build func(d int) *node
	build = func(d int) *node {
		if d == 0 || r.P(1, 5) {
			return leaf()
		}
		n := &node{prop: props[r.N(len(props))]}
		switch n.prop {
		case 0:
			n.val = int32(r.N(4))
		case 1:
			n.val = int32(r.N(maxStream + 1))
		case 2, 3:
			n.val = int32(r.N(200))
		case 4, 5, 6, 7, 9:
			n.val = int32(r.N(256))
		default:
			n.val = int32(r.Range(-20, 20))
			if n.prop >= 16 && n.prop%4 < 2 {
				n.val = int32(r.N(256))
			}
		}
		was, ok := in[n.prop]
		if !ok {
			was = bounds{-1 << 31, 1<<31 - 1}
		}
		if int64(n.val) < was.lo || int64(n.val) >= was.hi {
			return leaf() // nothing is decided by it
		}
		in[n.prop] = bounds{int64(n.val) + 1, was.hi}
		n.left = build(d - 1)
		in[n.prop] = bounds{was.lo, int64(n.val)}
		n.right = build(d - 1)
		in[n.prop] = was
		return n
	}
	t := &tree{p: p, r: r.Split()}
	if kind == 0 {
		t.root = &node{prop: -1, pred: 5}
	} else {
		t.root = build(kind)
	}
	q := []*node{t.root}
	for len(q) > 0 {
		n := q[0]
		q = q[1:]
		t.order = append(t.order, n)
		t.wp = t.wp || n.prop == 15
		if n.prop >= 0 {
			q = append(q, n.left, n.right)
		} else {
			n.ctx = t.leaves
			t.leaves++
			t.wp = t.wp || n.pred == 6
		}
	}
	t.code = newCoder(r, p.Code, t.leaves, r.Range(1, min(4, t.leaves)))
	return t
}

func (t *tree) write(w *BitWriter) {
	c := newCoder(t.r, t.p.Code, 6, 6)
	c.header(w)
	s := c.open(w, 0)
	for _, n := range t.order {
		if n.prop >= 0 {
			s.sym(1, uint32(n.prop+1))
			s.sym(0, pack(n.val))
		} else {
			s.sym(1, 0)
			s.sym(2, uint32(n.pred))
			s.sym(3, pack(n.offset))
			s.sym(4, uint32(n.mulLog))
			s.sym(5, uint32(n.mulBits))
		}
	}
	t.code.header(w)
}

// encode writes the channels of a stream; mult has to be that of the code.
func (t *tree) encode(w *BitWriter, cs []*channel, stream int, wps *wpParams) {
	mult := 0
	n := 0
	for _, c := range cs {
		if c.w > 0 && c.h > 0 {
			mult = max(mult, c.w)
			n++
		}
	}
	if n == 0 {
		return
	}
	s := t.code.open(w, mult)
	top := int32(1)<<uint(slices.Min(t.p.depths())) - 1
	for ch, c := range cs {
		var st *wp
		if t.wp {
			st = wps.open(c)
		}
		for y := 0; y < c.h; y++ {
			for x := 0; x < c.w; x++ {
				guess := int32(0)
				if st != nil {
					guess = st.predict(x, y)
				}
				n := t.root
				for n.prop >= 0 {
					if c.property(n.prop, ch, stream, x, y, cs[:ch], st) > n.val {
						n = n.left
					} else {
						n = n.right
					}
				}
				if n.pred != 6 {
					guess = c.predict(x, y, n.pred)
				}
				d := c.at(x, y) - guess - n.offset
				if m := int32(n.mulBits+1) << uint(n.mulLog); m > 1 {
					// the sample changes to one that can be written
					v := c.at(x, y) - d%m
					if v < 0 {
						v += m
					} else if v > top {
						v -= m
					}
					c.set(x, y, v)
					d = (v - guess - n.offset) / m
				}
				if st != nil {
					st.learn(x, y, c.at(x, y))
				}
				s.sym(n.ctx, pack(d))
			}
		}
	}
}

var rctPerm = [6][3]int{{0, 1, 2}, {1, 2, 0}, {2, 0, 1}, {0, 2, 1}, {1, 0, 2}, {2, 1, 0}}

func forwardRCT(cs []*channel, begin, typ int) {
	p, t := typ/7, typ%7
	var v [3]*channel
	for j := 0; j < 3; j++ {
		v[j] = cs[begin+rctPerm[p][j]]
	}
	for i := range v[0].d {
		d, e, f := v[0].d[i], v[1].d[i], v[2].d[i]
		if t == 6 {
			b := d - f
			tmp := f + b>>1
			c := e - tmp
			v[0].d[i], v[1].d[i], v[2].d[i] = tmp+c>>1, b, c
			continue
		}
		switch t >> 1 {
		case 1:
			e -= d
		case 2:
			e -= (d + f) >> 1
		}
		if t&1 != 0 {
			f -= d
		}
		v[0].d[i], v[1].d[i], v[2].d[i] = d, e, f
	}
	for j := 0; j < 3; j++ {
		cs[begin+j] = v[j]
	}
}

func tendency(a, b, c int32) int32 {
	var x int32
	if a >= b && b >= c {
		x = (4*a - 3*c - b + 6) / 12
		if x-(x&1) > 2*(a-b) {
			x = 2*(a-b) + 1
		}
		if x+(x&1) > 2*(b-c) {
			x = 2 * (b - c)
		}
	} else if a <= b && b <= c {
		x = (4*a - 3*c - b - 6) / 12
		if x+(x&1) < 2*(a-b) {
			x = 2*(a-b) - 1
		}
		if x-(x&1) < 2*(b-c) {
			x = 2 * (b - c)
		}
	}
	return x
}

// halve splits a line into averages and residuals.
func halve(in []int32) (avg, res []int32) {
	n := len(in)
	avg, res = make([]int32, (n+1)/2), make([]int32, n/2)
	for i := 0; i < n/2; i++ {
		a, b := in[2*i], in[2*i+1]
		g := int32(0)
		if a > b {
			g = 1
		}
		avg[i] = (a + b + g) >> 1
	}
	if n%2 == 1 {
		avg[n/2] = in[n-1]
	}
	for i := 0; i < n/2; i++ {
		next := avg[i]
		if i+1 < len(avg) {
			next = avg[i+1]
		}
		left := avg[i]
		if i > 0 {
			left = in[2*i-1]
		}
		res[i] = in[2*i] - in[2*i+1] - tendency(left, avg[i], next)
	}
	return
}

func squeezeH(c *channel) (*channel, *channel) {
	a, r := newChannel((c.w+1)/2, c.h, c.hs+1, c.vs), newChannel(c.w/2, c.h, c.hs+1, c.vs)
	for y := 0; y < c.h; y++ {
		x, z := halve(c.d[y*c.w : (y+1)*c.w])
		copy(a.d[y*a.w:], x)
		copy(r.d[y*r.w:], z)
	}
	return a, r
}

func squeezeV(c *channel) (*channel, *channel) {
	a, r := newChannel(c.w, (c.h+1)/2, c.hs, c.vs+1), newChannel(c.w, c.h/2, c.hs, c.vs+1)
	col := make([]int32, c.h)
	for x := 0; x < c.w; x++ {
		for y := range col {
			col[y] = c.at(x, y)
		}
		p, q := halve(col)
		for y := range p {
			a.d[y*a.w+x] = p[y]
		}
		for y := range q {
			r.d[y*r.w+x] = q[y]
		}
	}
	return a, r
}
