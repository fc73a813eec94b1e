package gen

// Transforms of modular images.

// What transforms there may be besides those asked for one by one, Params.Xf
const (
	XfStack   = 1 << iota // any in any order
	XfGroups              // in groups
	XfPalette             // palettes with deltas and implicit colours
	XfSqueeze             // squeezes with parameters of their own
)

type squeeze struct {
	hor, inPlace bool
	begin, num   int
}

type xform struct {
	kind                 int // 0 RCT, 1 palette, 2 squeeze
	begin                int
	rct                  int
	numC, colors, deltas int
	pred                 int
	sq                   []squeeze // none: the default
}

func (x xform) write(w *BitWriter) {
	at := [8]int{0, 3, 8, 6, 72, 10, 1096, 13}
	w.Bits(uint64(x.kind), 2)
	if x.kind != 2 {
		w.U32(uint64(x.begin), at)
	}
	switch x.kind {
	case 0:
		w.U32(uint64(x.rct), [8]int{6, 0, 0, 2, 2, 4, 10, 6})
	case 1:
		w.U32(uint64(x.numC), [8]int{1, 0, 3, 0, 4, 0, 1, 13})
		w.U32(uint64(x.colors), [8]int{0, 8, 256, 10, 1280, 12, 5376, 16})
		w.U32(uint64(x.deltas), [8]int{0, 0, 1, 8, 257, 10, 1281, 16})
		w.Bits(uint64(x.pred), 4)
	case 2:
		w.U32(uint64(len(x.sq)), [8]int{0, 0, 1, 4, 9, 6, 41, 8})
		for _, q := range x.sq {
			w.Bool(q.hor)
			w.Bool(q.inPlace)
			w.U32(uint64(q.begin), at)
			w.U32(uint64(q.num), [8]int{1, 0, 2, 0, 3, 0, 4, 4})
		}
	}
}

// image is a list of channels and what was done to it.
type image struct {
	p    *Params
	r    *Rng
	cs   []*channel
	meta int
	xs   []xform
	wps  *wpParams
	raw  bool // the channels still are what the decoder shows
}

// alike counts the channels from begin on that have the same shape.
func (m *image) alike(begin int) int {
	n := 1
	for begin+n < len(m.cs) && m.cs[begin+n].like(m.cs[begin]) {
		n++
	}
	return n
}

func (m *image) rct(begin, typ int) {
	if begin < m.meta || m.alike(begin) < 3 {
		return
	}
	forwardRCT(m.cs, begin, typ)
	m.xs = append(m.xs, xform{kind: 0, begin: begin, rct: typ})
	m.raw = false
}

// delta tables of the format
var implicit = [72][3]int32{
	{0, 0, 0}, {4, 4, 4}, {11, 0, 0}, {0, 0, -13}, {0, -12, 0}, {-10, -10, -10}, {-18, -18, -18}, {-27, -27, -27},
	{-18, -18, 0}, {0, 0, -32}, {-32, 0, 0}, {-37, -37, -37}, {0, -32, -32}, {24, 24, 45}, {50, 50, 50}, {-45, -24, -24},
	{-24, -45, -45}, {0, -24, -24}, {-34, -34, 0}, {-24, 0, -24}, {-45, -45, -24}, {64, 64, 64}, {-32, 0, -32}, {0, -32, 0},
	{-32, 0, 32}, {-24, -45, -24}, {45, 24, 45}, {24, -24, -45}, {-45, -24, 24}, {80, 80, 80}, {64, 0, 0}, {0, 0, -64},
	{0, -64, -64}, {-24, -24, 45}, {96, 96, 96}, {64, 64, 0}, {45, -24, -24}, {34, -34, 0}, {112, 112, 112}, {24, -45, -45},
	{45, 45, -24}, {0, -32, 32}, {24, -24, 45}, {0, 96, 96}, {45, -24, 24}, {24, -45, -24}, {-24, -45, 24}, {0, -64, 0},
	{96, 0, 0}, {128, 128, 128}, {64, 0, 64}, {144, 144, 144}, {96, 96, 0}, {-36, -36, 36}, {45, -24, -45}, {45, -45, -24},
	{0, 0, -96}, {0, 128, 128}, {0, 96, 0}, {45, 24, -45}, {-128, 0, 0}, {24, -45, 24}, {-45, 24, -45}, {64, 0, -64},
	{64, -64, -64}, {96, 0, 96}, {45, -45, 24}, {24, 45, -45}, {64, 64, -64}, {128, 128, 0}, {0, 0, -128}, {-24, 45, -45},
}

// implicitDelta is the value that a negative index stands for.
func implicitDelta(index int32, c, bits int) int32 {
	if c >= 3 {
		return 0
	}
	i := -(index + 1) % 143
	v := implicit[(i+1)>>1][c]
	if i&1 == 0 {
		v = -v
	}
	if bits > 8 {
		v *= 1 << uint(bits-8)
	}
	return v
}

// cube is the value of an index behind the palette.
func cube(index int32, c, bits int) int32 {
	if c >= 3 {
		return 0
	}
	top := int64(1)<<uint(bits) - 1
	if index < 64 {
		return int32(int64(index>>uint(2*c)%4)*top/4 + 1<<uint(max(0, bits-3)))
	}
	index -= 64
	for ; c > 0; c-- {
		index /= 5
	}
	return int32(int64(index%5) * top / 4)
}

// palette replaces numC channels by one of indices and a palette in front.
// With craft, samples may change to what the rarer indices stand for.
func (m *image) palette(begin, numC, limit int, deltas, craft bool) bool {
	if begin < m.meta || m.alike(begin) < numC {
		return false
	}
	r, bits := m.r, m.p.Bits
	cs := m.cs[begin : begin+numC]
	key := func(v []int32) string {
		b := make([]byte, 0, 4*len(v))
		for _, k := range v {
			b = append(b, byte(k), byte(k>>8), byte(k>>16), byte(k>>24))
		}
		return string(b)
	}
	top := int32(1)<<uint(bits) - 1
	fits := func(v []int32) bool {
		for _, k := range v {
			if k < 0 || k > top {
				return false
			}
		}
		return true
	}
	x := xform{kind: 1, begin: begin, numC: numC}
	ndelta := 0
	if deltas || craft {
		x.pred = r.N(14)
		if m.p.Pred&PredWeighted == 0 && x.pred == 6 {
			x.pred = 5
		}
		if deltas {
			ndelta = r.Pick(0, 1, 2, 5, 20)
		}
	}
	var dl [][]int32
	dIdx, cIdx := map[string]int32{}, map[string]int32{}
	var cols [][]int32
	negative := map[string]int32{}
	if deltas || craft {
		for i := int32(-286); i < 0; i++ {
			v := make([]int32, numC)
			for c := range v {
				v[c] = implicitDelta(i, c, bits)
			}
			negative[key(v)] = i
		}
	}
	if craft {
		// deltas need not be those of the image
		for len(dl) < ndelta/2 {
			v := make([]int32, numC)
			for c := range v {
				v[c] = int32(r.Range(-9, 9))
			}
			if _, ok := dIdx[key(v)]; !ok || r.P(1, 4) {
				dIdx[key(v)] = int32(len(dl))
				dl = append(dl, v)
			}
		}
	}
	w, h := cs[0].w, cs[0].h
	ic := newChannel(w, h, cs[0].hs, cs[0].vs)
	var st []*wp
	for _, c := range cs {
		if x.pred == 6 {
			st = append(st, m.wps.open(c))
		}
	}
	const (
		isColour = 1 << 24 // index of a colour
		isCube   = 2 << 24 // behind the colours
	)
	often := r.Pick(1, 1, 3, 10)
	for y := 0; y < h; y++ {
		for px := 0; px < w; px++ {
			v, d, p := make([]int32, numC), make([]int32, numC), make([]int32, numC)
			for c, ch := range cs {
				v[c] = ch.at(px, y)
				if x.pred == 6 {
					p[c] = st[c].predict(px, y)
				} else if deltas || craft {
					p[c] = ch.predict(px, y, x.pred)
				}
				d[c] = v[c] - p[c]
			}
			idx := int32(-1 << 30)
			if craft && r.P(1, often) {
				z := make([]int32, numC)
				var i int32
				k := r.N(4)
				if numC > 3 {
					k = 2 + k%2 // decoders do not agree about cubes there
				}
				switch k {
				case 0:
					i = int32(r.N(64))
					for c := range z {
						z[c] = cube(i, c, bits)
					}
					i += isCube
				case 1:
					i = 64 + int32(r.N(130))
					for c := range z {
						z[c] = cube(i, c, bits)
					}
					i += isCube
				case 2:
					i = -1 - int32(r.N(200))
					for c := range z {
						z[c] = implicitDelta(i, c, bits) + p[c]
					}
				case 3:
					if len(dl) > 0 {
						i = int32(r.N(len(dl)))
						for c := range z {
							z[c] = dl[i][c] + p[c]
						}
					} else {
						i = -1
						copy(z, p)
						for c := range z {
							z[c] += implicitDelta(i, c, bits)
						}
					}
				}
				if fits(z) {
					idx = i
					copy(v, z)
					for c, ch := range cs {
						ch.set(px, y, v[c])
					}
				}
			}
			if idx == -1<<30 && deltas && !r.P(1, 5) {
				k := key(d)
				if i, ok := dIdx[k]; ok {
					idx = i
				} else if i, ok := negative[k]; ok && r.P(1, 2) {
					idx = i
				} else if len(dl) < ndelta && r.P(1, 3) {
					idx = int32(len(dl))
					dIdx[k] = idx
					dl = append(dl, d)
				}
			}
			if idx == -1<<30 {
				k := key(v)
				i, ok := cIdx[k]
				if !ok {
					if len(cols) == limit {
						if !craft {
							return false
						}
						// one of the colours there are
						i = int32(r.N(limit))
						copy(v, cols[i])
						for c, ch := range cs {
							ch.set(px, y, v[c])
						}
					} else {
						i = int32(len(cols))
						cIdx[k] = i
						cols = append(cols, v)
					}
				}
				idx = i + isColour
			}
			ic.d[y*w+px] = idx
			for c := range st {
				st[c].learn(px, y, v[c])
			}
		}
	}
	if len(dl)+len(cols) == 0 {
		cols = append(cols, make([]int32, numC))
	}
	x.deltas = len(dl)
	all := append(dl, cols...)
	x.colors = len(all)
	for i, v := range ic.d {
		switch {
		case v >= isCube:
			ic.d[i] = v - isCube + int32(len(all))
		case v >= isColour:
			ic.d[i] = v - isColour + int32(len(dl))
		}
	}
	pal := newChannel(len(all), numC, -1, -1)
	for i, v := range all {
		for c := range v {
			pal.d[c*len(all)+i] = v[c]
		}
	}
	out := []*channel{pal}
	out = append(out, m.cs[:begin]...)
	out = append(out, ic)
	m.cs = append(out, m.cs[begin+numC:]...)
	m.meta++
	m.xs = append(m.xs, x)
	m.raw = false
	return true
}

// whole tells that no channel has been squeezed. Too many squeezes make
// channels that are too small for a part in each group.
func (m *image) whole() bool {
	for _, c := range m.cs[m.meta:] {
		if c.hs > 0 || c.vs > 0 {
			return false
		}
	}
	return true
}

// squeeze applies the given squeezes, or the default ones.
func (m *image) squeeze(list []squeeze) {
	x := xform{kind: 2, sq: list}
	for _, c := range m.cs[m.meta:] {
		if c.w == 0 || c.h == 0 {
			return
		}
	}
	if list == nil {
		first := m.meta
		w, h := m.cs[first].w, m.cs[first].h
		n := len(m.cs) - first
		if n > 2 && m.cs[first+1].w == w && m.cs[first+1].h == h {
			list = append(list, squeeze{true, false, first + 1, 2}, squeeze{false, false, first + 1, 2})
		}
		if h >= w && h > 8 {
			list = append(list, squeeze{false, true, first, n})
			h = (h + 1) / 2
		}
		for w > 8 || h > 8 {
			if w > 8 {
				list = append(list, squeeze{true, true, first, n})
				w = (w + 1) / 2
			}
			if h > 8 {
				list = append(list, squeeze{false, true, first, n})
				h = (h + 1) / 2
			}
		}
	}
	for _, q := range list {
		m.squeezeOnce(q)
	}
	m.xs = append(m.xs, x)
	m.raw = false
}

func (m *image) squeezeOnce(q squeeze) {
	at := len(m.cs)
	if q.inPlace {
		at = q.begin + q.num
	}
	for c := q.begin; c < q.begin+q.num; c++ {
		var a, r *channel
		if q.hor {
			a, r = squeezeH(m.cs[c])
		} else {
			a, r = squeezeV(m.cs[c])
		}
		m.cs[c] = a
		k := at + c - q.begin
		m.cs = append(m.cs[:k:k], append([]*channel{r}, m.cs[k:]...)...)
	}
}

// newWP are the parameters of the weighted predictor for one stream.
func newWP(r *Rng, p *Params) *wpParams {
	if p.Pred&PredWeights == 0 || r.P(1, 3) {
		return nil
	}
	o := &wpParams{}
	for i := range o.p {
		o.p[i] = int32(r.Pick(r.N(32), r.N(32), 0, 31, 16))
	}
	for i := range o.wt {
		o.wt[i] = int64(r.Pick(r.N(16), 15, 0, 12))
	}
	return o
}

// plan makes squeezes; the list it returns has been tried on shapes only.
func (m *image) plan() []squeeze {
	try := &image{}
	for _, c := range m.cs {
		try.cs = append(try.cs, newChannel(c.w, c.h, c.hs, c.vs))
	}
	var list []squeeze
	for k := m.r.Range(1, 6); k > 0; k-- {
		q := squeeze{hor: m.r.P(1, 2), inPlace: m.r.P(1, 2), begin: m.r.Range(m.meta, len(try.cs)-1), num: 1}
		q.num = m.r.Range(1, min(4, len(try.cs)-q.begin))
		ok := true
		for _, c := range try.cs[q.begin : q.begin+q.num] {
			if c.w == 0 || c.h == 0 || c.hs > 6 || c.vs > 6 {
				ok = false
			}
		}
		if !ok || len(try.cs) > 24 {
			continue
		}
		try.squeezeOnce(q)
		list = append(list, q)
	}
	return list
}

// stack applies some transforms.
func (m *image) stack(n int) {
	r := m.r
	for ; n > 0; n-- {
		if m.meta >= len(m.cs) {
			return
		}
		b := r.Range(m.meta, len(m.cs)-1)
		switch r.N(4) {
		case 0, 1:
			if m.alike(b) < 3 {
				b = m.meta
			}
			m.rct(b, r.N(42))
		case 2:
			num := r.Range(1, min(5, m.alike(b)))
			m.palette(b, num, r.Pick(30, 300, 2000), m.p.Xf&XfPalette != 0, m.raw && m.p.Xf&XfPalette != 0 && r.P(1, 2))
		case 3:
			if m.p.Xf&XfSqueeze != 0 && r.P(2, 3) {
				if l := m.plan(); l != nil {
					m.squeeze(l)
				}
			} else if (m.p.Xf&XfSqueeze != 0 || r.P(1, 3)) && m.whole() {
				m.squeeze(nil)
			}
		}
	}
}
