package gen

import "sort"

// Lossy (VarDCT) images. What the coefficients look like once decoded is not
// known here; but the data of every group of 256x256 is made from the seed and
// the place of the group alone, so that each group can also be stored as an
// image of its own and has to look the same there.

// VarDCT describes a generated lossy image.
type VarDCT struct {
	Smooth   bool `json:"smooth,omitempty"`   // adaptive smoothing of the LF image
	Default  bool `json:"default,omitempty"`  // default restoration filters, otherwise those of Filters
	Large    bool `json:"large,omitempty"`    // transforms above 64x64, too
	Orders   bool `json:"orders,omitempty"`   // coefficient orders of their own
	Presets  int  `json:"presets,omitempty"`  // sets of contexts to choose from
	Loose    bool `json:"loose,omitempty"`    // blocks at places that are no multiples of their sizes
	Sparse   bool `json:"sparse,omitempty"`   // few coefficients
	CfL      bool `json:"cfl,omitempty"`      // colours from luma
	Clusters int  `json:"clusters,omitempty"` // distributions of the coefficients
	Contexts bool `json:"contexts,omitempty"` // block contexts that depend on the LF samples and the quantisation
	Quant    int  `json:"quant,omitempty"`    // what of the quantisation is not as usual
	YCC      int  `json:"ycc,omitempty"`      // YCbCr: 1 444, 2 420, 3 422, 4 440; 5 RGB
	Ups      int  `json:"ups,omitempty"`      // log2 of the upsampling
	Depth    int  `json:"depth,omitempty"`    // bits per sample that the header says, if not 8
	// Known wants to know what the image looks like.
	Known bool `json:"known,omitempty"`
	// Part makes the image from one group of the described one.
	Part *Part `json:"part,omitempty"`
}

// Subsampled tells whether chroma has fewer samples.
func (v *VarDCT) Subsampled() bool { return v.YCC > 1 && v.YCC < 5 }

// What VarDCT.Quant may say
const (
	QuantScale     = 1 << iota // global scale and LF quantiser
	QuantLF                    // dequantisation of the LF image
	QuantColour                // colour correlation
	QuantQM                    // scales of X and B
	QuantTables                // tables of the transforms
	QuantPrecision             // LF samples of more precision
)

// subsampling of Cb, Y and Cr in log2: across and down
func (v *VarDCT) sub() (m [3][2]int) {
	if v.Subsampled() {
		s := [5][2]int{2: {1, 1}, 3: {1, 0}, 4: {0, 1}}[v.YCC]
		m[0], m[2] = s, s
	}
	return
}

// blocks is the number of blocks of 8 for a size, as far as they are stored.
func (v *VarDCT) blocks(w, h int) (int, int) {
	s := v.sub()[0]
	return ((w+7)/8 + s[0]) >> uint(s[0]) << uint(s[0]), ((h+7)/8 + s[1]) >> uint(s[1]) << uint(s[1])
}

// Part is one group of an image.
type Part struct {
	GX int `json:"gx"`
	GY int `json:"gy"`
}

// Groups lists where the groups of the image lie and how large they are.
func Groups(p Params) (out []Group) {
	d := 256 << uint(p.VarDCT.Ups)
	for y := 0; y*d < p.H; y++ {
		for x := 0; x*d < p.W; x++ {
			out = append(out, Group{Part{x, y}, x * d, y * d, min(d, p.W-x*d), min(d, p.H-y*d)})
		}
	}
	return
}

// Group is a group and its area.
type Group struct {
	Part
	X, Y, W, H int
}

// transforms: rows and columns in blocks of 8, class of order
var dcts = [27][3]int{
	{1, 1, 0}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {2, 2, 2}, {4, 4, 3}, {2, 1, 4}, {1, 2, 4}, {4, 1, 5}, {1, 4, 5},
	{4, 2, 6}, {2, 4, 6}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {1, 1, 1}, {8, 8, 7}, {8, 4, 8},
	{4, 8, 8}, {16, 16, 9}, {16, 8, 10}, {8, 16, 10}, {32, 32, 11}, {32, 16, 12}, {16, 32, 12},
}

var blockClusters = [39]int{
	0, 1, 2, 2, 3, 3, 4, 5, 6, 6, 6, 6, 6,
	7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14,
	7, 8, 9, 9, 10, 11, 12, 13, 14, 14, 14, 14, 14,
}

var freqCtx = [64]int{
	0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14,
	15, 15, 16, 16, 17, 17, 18, 18, 19, 19, 20, 20, 21, 21, 22, 22,
	23, 23, 23, 23, 24, 24, 24, 24, 25, 25, 25, 25, 26, 26, 26, 26,
	27, 27, 27, 27, 28, 28, 28, 28, 29, 29, 29, 29, 30, 30, 30, 30,
}

func nonzeroCtx(n int) int {
	switch {
	case n <= 1:
		return 0
	case n == 2:
		return 31
	case n <= 4:
		return 62
	case n <= 8:
		return 93
	case n <= 12:
		return 123
	case n <= 20:
		return 152
	case n <= 32:
		return 180
	}
	return 206
}

type vblock struct {
	x, y, typ, mult int
	coef            [3][]int32 // X, Y, B: up to the last that is not zero
}

type vgroup struct {
	bw, bh int
	blocks []vblock
	at     []int      // block at each place, -1 none
	lf     [3][]int32 // X, Y, B
	sharp  []int32
	cfl    [2][16]int32
	preset uint64
}

func makeGroup(p *Params, frame, gx, gy, w, h int) *vgroup {
	v := p.VarDCT
	r := NewRng(p.Seed ^ uint64(frame*1000003+gy*1009+gx+1)*0x9E3779B97F4A7C15)
	g := &vgroup{}
	g.bw, g.bh = v.blocks(w, h)
	n := g.bw * g.bh
	g.preset = r.Next()
	for c := range g.lf {
		g.lf[c] = make([]int32, n)
	}
	g.sharp = make([]int32, n)
	flat := r.P(1, 6)
	ly, lx, lb := r.Range(20, 400), r.Range(-20, 20), r.Range(-10, 10)
	for i := range g.sharp {
		g.sharp[i] = int32(r.N(8))
		if flat {
			g.lf[1][i], g.lf[0][i], g.lf[2][i] = int32(ly), int32(lx), int32(lb)
			continue
		}
		switch p.Pattern % 3 {
		case 0:
			g.lf[1][i], g.lf[0][i], g.lf[2][i] = int32(r.N(440)), int32(r.Range(-30, 40)), int32(r.Range(-20, 20))
		case 1:
			x, y := i%g.bw, i/g.bw
			g.lf[1][i], g.lf[0][i], g.lf[2][i] = int32(60+x*7+y*3+ly/8), int32(x-y), int32(y-16)
		default:
			g.lf[1][i], g.lf[0][i], g.lf[2][i] = int32(ly+r.Range(-19, 19)), int32(lx+r.Range(-4, 4)), int32(lb+r.Range(-3, 3))
		}
	}
	if v.CfL {
		for i := range g.cfl {
			for k := range g.cfl[i] {
				g.cfl[i][k] = int32(r.Range(-40, 40))
			}
		}
	}
	g.at = make([]int, n)
	for i := range g.at {
		g.at[i] = -1
	}
	one := r.P(1, 4) // a single kind of transform where it fits
	kind := r.N(27)
	for i := 0; i < n; i++ {
		if g.at[i] >= 0 {
			continue
		}
		x, y := i%g.bw, i/g.bw
		typ := 0
		for try := 0; try < 4; try++ {
			t := r.Pick(0, 0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20)
			if v.Large && r.P(1, 8) {
				t = r.Range(21, 26)
			}
			if one && try == 0 && (kind < 21 || v.Large) {
				t = kind
			}
			th, tw := dcts[t][0], dcts[t][1]
			if v.Subsampled() && th*tw > 1 {
				continue
			}
			if x+tw > g.bw || y+th > g.bh {
				continue
			}
			if !v.Loose && (x%tw != 0 || y%th != 0) {
				continue
			}
			free := true
			for dy := 0; dy < th && free; dy++ {
				for dx := 0; dx < tw; dx++ {
					free = free && g.at[(y+dy)*g.bw+x+dx] < 0
				}
			}
			if free {
				typ = t
				break
			}
		}
		th, tw := dcts[typ][0], dcts[typ][1]
		b := vblock{x: x, y: y, typ: typ, mult: r.Pick(1, 1, 2, 3, 5, 8, 16)}
		for dy := 0; dy < th; dy++ {
			for dx := 0; dx < tw; dx++ {
				g.at[(y+dy)*g.bw+x+dx] = len(g.blocks)
			}
		}
		size := th * tw * 63
		for c := range b.coef {
			nz := r.Pick(0, 0, 0, 1, 1, 2, 3, 5, 9, 20)
			if v.Sparse {
				nz = r.Pick(0, 0, 0, 0, 0, 0, 1)
			}
			if !v.Sparse && r.P(1, 40) {
				nz = r.Range(20, 63)
			}
			nz = min(nz, size)
			zeros := r.Pick(1, 2, 4) // chance of a zero in between
			for nz > 0 {
				if len(b.coef[c])+nz < size && !r.P(1, zeros) {
					b.coef[c] = append(b.coef[c], 0)
					continue
				}
				k := int32(r.Pick(1, 1, 1, 2, 3, 7))
				if r.P(1, 2) {
					k = -k
				}
				b.coef[c] = append(b.coef[c], k)
				nz--
			}
		}
		g.blocks = append(g.blocks, b)
	}
	return g
}

// contexts say which distributions the coefficients of a block take.
type contexts struct {
	lf  [3][]int32 // thresholds of the LF samples X, Y, B
	qf  []int32
	to  []int // cluster of each
	num int
	dc  int // number of LF contexts
}

func newContexts(r *Rng, v *VarDCT) *contexts {
	if !v.Contexts {
		return &contexts{to: blockClusters[:], num: 15, dc: 1}
	}
	k := &contexts{}
	for {
		k.dc = 1
		for c := range k.lf {
			k.lf[c] = nil
			lo, hi := -30, 40
			if c == 1 {
				lo, hi = 0, 440
			}
			for i := r.Pick(0, 0, 1, 1, 2, 3, 15); i > 0; i-- {
				t := int32(r.Range(lo, hi))
				if r.P(1, 12) {
					t = int32(r.Range(-70000, 70000))
				}
				k.lf[c] = append(k.lf[c], t)
			}
			k.dc *= len(k.lf[c]) + 1
		}
		k.qf = nil
		for i := r.Pick(0, 0, 1, 2, 3); i > 0; i-- {
			k.qf = append(k.qf, int32(r.Pick(1, 2, 3, 4, 5, 8, 12, 15, 40, 200)))
		}
		if k.dc*(len(k.qf)+1) <= 64 {
			break
		}
	}
	k.to = make([]int, 39*k.dc*(len(k.qf)+1))
	k.num = min(r.Pick(1, 2, 3, 7, 15, 16), len(k.to))
	for i := range k.to {
		k.to[i] = r.N(k.num)
		if i < k.num {
			k.to[i] = i
		}
	}
	return k
}

func (k *contexts) write(w *BitWriter, r *Rng, v *VarDCT) {
	w.Bool(!v.Contexts)
	if !v.Contexts {
		return
	}
	for c := range k.lf {
		w.Bits(uint64(len(k.lf[c])), 4)
		for _, t := range k.lf[c] {
			w.U32(uint64(pack(t)), [8]int{0, 4, 16, 8, 272, 16, 65808, 32})
		}
	}
	w.Bits(uint64(len(k.qf)), 4)
	for _, t := range k.qf {
		w.U32(uint64(t-1), [8]int{0, 2, 4, 3, 12, 5, 44, 8})
	}
	writeClusters(w, r, k.to, k.num, r.N(16))
}

func (k *contexts) block(c, ord, mult int, lf [3]int32) int {
	if c < 2 {
		c = 1 - c
	}
	i := (c*13 + ord) * (len(k.qf) + 1)
	for _, t := range k.qf {
		if int32(mult) > t {
			i++
		}
	}
	above := func(c int) (n int) {
		for _, t := range k.lf[c] {
			if lf[c] > t {
				n++
			}
		}
		return
	}
	d := above(0)
	d = d*(len(k.lf[2])+1) + above(2)
	d = d*(len(k.lf[1])+1) + above(1)
	return k.to[i*k.dc+d]
}

// write puts the coefficients of a group into its section. The LF samples are
// stored with some more bits.
func (g *vgroup) write(w *BitWriter, code *coder, v *VarDCT, k *contexts, presets int, more uint) {
	pre := int(g.preset % uint64(presets))
	w.Bits(uint64(pre), ceilLog1p(presets-1))
	off := 495 * k.num * pre
	s := code.open(w, 0)
	sub := v.sub()
	var count [3][]int
	for c := range count {
		count[c] = make([]int, g.bw*g.bh)
	}
	for _, b := range g.blocks {
		th, tw, ord := dcts[b.typ][0], dcts[b.typ][1], dcts[b.typ][2]
		nb := th * tw
		var lf [3]int32
		for c := range lf {
			x, y := b.x>>uint(sub[c][0]), b.y>>uint(sub[c][1])
			lf[c] = g.lf[c][y*g.bw+x] << more
		}
		for _, c := range []int{1, 0, 2} {
			x, y := b.x>>uint(sub[c][0]), b.y>>uint(sub[c][1])
			if x<<uint(sub[c][0]) != b.x || y<<uint(sub[c][1]) != b.y {
				continue
			}
			bctx := k.block(c, ord, b.mult, lf)
			var pred int
			switch {
			case x == 0 && y == 0:
				pred = 32
			case x == 0:
				pred = count[c][(y-1)*g.bw]
			case y == 0:
				pred = count[c][x-1]
			default:
				pred = (count[c][(y-1)*g.bw+x] + count[c][y*g.bw+x-1] + 1) >> 1
			}
			pred = min(pred, 64)
			if pred >= 8 {
				pred = 4 + pred/2
			}
			nz := 0
			for _, k := range b.coef[c] {
				if k != 0 {
					nz++
				}
			}
			s.sym(off+bctx+k.num*pred, uint32(nz))
			for dy := 0; dy < th; dy++ {
				for dx := 0; dx < tw; dx++ {
					count[c][(y+dy)*g.bw+x+dx] = (nz + nb - 1) / nb
				}
			}
			prev := 1
			if nz > nb*64/16 {
				prev = 0
			}
			for i, co := range b.coef[c] {
				ctx := (nonzeroCtx((nz+nb-1)/nb)+freqCtx[(i+nb)/nb])*2 + prev
				s.sym(off+458*bctx+37*k.num+ctx, pack(co))
				prev = 0
				if co != 0 {
					prev = 1
					nz--
				}
			}
		}
	}
}

// halves that are common, from small to large
var halves = []int{0x0400, 0x1400, 0x2000, 0x2400, 0x2800, 0x2E66, 0x3000, 0x3400, 0x3800, 0x3A00, 0x3C00, 0x3D00, 0x3E00, 0x4000, 0x4200, 0x4800, 0x4C00, 0x5000, 0x5200, 0x5380}

// half draws one of them.
func half(w *BitWriter, r *Rng, from, to int, signed bool) float64 {
	var l []int
	for _, h := range halves {
		if h >= from && h <= to {
			l = append(l, h)
		}
	}
	h := l[r.N(len(l))]
	if signed && r.P(1, 2) {
		h |= 0x8000
	}
	w.Bits(uint64(h), 16)
	return halfValue(h)
}

// dims of the tables: of the wide ones of the transforms
var tableDims = [17][2]int{
	{8, 8}, {8, 8}, {8, 8}, {8, 8}, {16, 16}, {32, 32}, {16, 8}, {32, 8}, {32, 16}, {8, 8}, {8, 8},
	{64, 64}, {64, 32}, {128, 128}, {128, 64}, {256, 256}, {256, 128},
}

// writeTables writes quantisation tables of the image's own.
func writeTables(w *BitWriter, r *Rng, look *look, raw func(i int, cc []*channel)) {
	for i, d := range tableDims {
		mode := r.Pick(0, 0, 0, 6, 7)
		if i <= 3 || i == 9 || i == 10 {
			mode = r.Pick(0, 0, 1, 2, 3, 4, 5, 5, 6, 7)
		}
		if mode == 7 && i > 10 && !r.P(1, 6) {
			mode = 0
		}
		w.Bits(uint64(mode), 3)
		if mode == 0 {
			continue
		}
		t := qtable{mode: mode}
		values := func(n, from int) {
			for c := range t.vals {
				for k := 0; k < n; k++ {
					t.vals[c] = append(t.vals[c], 64*half(w, r, from, 0x5380, false))
				}
			}
		}
		divisors := func(n int) {
			for c := range t.vals {
				for k := 0; k < n; k++ {
					t.vals[c] = append(t.vals[c], half(w, r, 0x3800, 0x4200, false))
				}
			}
		}
		bands := func(to *[3][]float64) {
			n := r.Range(1, 8)
			w.Bits(uint64(n-1), 4)
			for c := range to {
				to[c] = append(to[c], 64*half(w, r, 0x4000, 0x5380, false))
				for k := 1; k < n; k++ {
					to[c] = append(to[c], half(w, r, 0x2000, 0x3E00, true))
				}
			}
		}
		switch mode {
		case 1:
			values(3, 0x4000)
		case 2:
			values(6, 0x3C00)
		case 3:
			divisors(2)
			bands(&t.bands)
		case 4:
			divisors(1)
			bands(&t.bands)
		case 5:
			for c := range t.vals {
				for k := 0; k < 6; k++ {
					t.vals[c] = append(t.vals[c], 64*half(w, r, 0x3C00, 0x5380, false))
				}
				for k := 0; k < 3; k++ {
					t.vals[c] = append(t.vals[c], half(w, r, 0x2000, 0x3E00, true))
				}
			}
			bands(&t.bands)
			bands(&t.more)
		case 6:
			bands(&t.bands)
		case 7:
			t.den = half(w, r, 0x0400, 0x1400, false)
			var cc []*channel
			for c := range t.raw {
				ch := newChannel(d[0], d[1], 0, 0)
				a, b := r.Range(1, 9), r.Range(0, 9)
				for k := range ch.d {
					ch.d[k] = int32(1 + a*(k%d[0])/4 + b*(k/d[0])/4 + r.N(3))
				}
				cc = append(cc, ch)
				t.raw[c] = ch.crop(0, 0, ch.w, ch.h)
			}
			raw(i, cc)
		}
		look.tables[i] = t
	}
}

// writePermutation writes what place each of the elements goes to.
func writePermutation(s *session, place []int, skip int) {
	n := len(place)
	var avail []int
	for i := 0; i < n; i++ {
		avail = append(avail, i)
	}
	lehmer := make([]int, n)
	for i := range place {
		k := sort.SearchInts(avail, place[i])
		lehmer[i] = k
		avail = append(avail[:k], avail[k+1:]...)
	}
	end := n
	for end > skip && lehmer[end-1] == 0 {
		end--
	}
	ctx := func(v int) int { return min(7, ceilLog1p(v)) }
	s.sym(ctx(n), uint32(end-skip))
	prev := 0
	for i := skip; i < end; i++ {
		s.sym(ctx(prev), uint32(lehmer[i]))
		prev = lehmer[i]
	}
}

func buildVarDCT(p Params) *Image {
	v := p.VarDCT
	full := p
	p.Bits, p.Passes, p.GroupShift = 8, 1, 1
	if v.Depth > 0 {
		p.Bits = v.Depth
	}
	p.Pred &^= PredMultiply
	up := 1 << uint(v.Ups)
	x0, y0 := 0, 0
	if v.Part != nil {
		x0, y0 = v.Part.GX, v.Part.GY
		d := 256 * up
		p.W, p.H = min(d, full.W-d*x0), min(d, full.H-d*y0)
	}
	im := &Image{Bits: p.Bits, Depths: p.depths(), Colours: p.nchan() - p.Extra, W: p.W, H: p.H, Lossy: true, Alpha: -1}
	if a := p.alphas(); len(a) > 0 {
		im.Alpha = a[0]
	}
	if p.Orientation > 4 {
		im.W, im.H = p.H, p.W
	}
	w := &BitWriter{}
	im.writeHeader(w, &p, v.YCC == 0)
	im.HeaderLen = len(w.B)
	r := NewRng(p.Seed)
	for i := 0; i <= p.Frames; i++ {
		f := &frame{w: (p.W + up - 1) / up, h: (p.H + up - 1) / up, cw: p.W, ch: p.H, last: i == p.Frames, ups: v.Ups}
		q := full
		q.Gray = true // one channel and the extra ones
		q.Bits = p.Bits
		whole := fill(r, &q, (full.W+up-1)/up, (full.H+up-1)/up)[1:]
		for _, c := range whole {
			f.pix = append(f.pix, c.crop(256*x0, 256*y0, f.w, f.h))
		}
		encodeVarDCT(w, &p, r.Split(), f, i, x0, y0, im)
	}
	im.Codestream = w.B
	return im
}

func encodeVarDCT(w *BitWriter, p *Params, r *Rng, f *frame, fi, x0, y0 int, im *Image) {
	v := p.VarDCT
	look := newLook(p)
	writeFrameHeader(w, p, f, fi, false, v.YCC == 0)
	if v.Quant&QuantQM != 0 {
		q := NewRng(p.Seed + 3)
		look.qmX, look.qmB = q.N(8), q.N(8)
	}
	gw, gh := (f.w+255)/256, (f.h+255)/256
	lw, lh := (f.w+2047)/2048, (f.h+2047)/2048
	numG, numLF := gw*gh, lw*lh
	var groups []*vgroup
	for y := 0; y < gh; y++ {
		for x := 0; x < gw; x++ {
			groups = append(groups, makeGroup(p, fi, x0+x, y0+y, min(256, f.w-256*x), min(256, f.h-256*y)))
		}
	}
	maxStream := 18 + 3*numLF + numG
	glob := newTree(r, p, maxStream)
	stream := func(b *BitWriter, cc []*channel, k int) {
		t := glob
		wps := newWP(r, p)
		b.Bool(!p.LocalTree)
		wps.write(b)
		b.Bits(0, 2)
		if p.LocalTree {
			t = newTree(r, p, maxStream)
			t.write(b)
		}
		t.encode(b, cc, k, wps)
	}
	sub := v.sub()
	var more []uint
	var secs []*BitWriter
	var kinds []string
	add := func(k string) *BitWriter {
		b := &BitWriter{}
		secs, kinds = append(secs, b), append(kinds, k)
		return b
	}
	// global part
	b := add("lfglobal")
	qr := NewRng(p.Seed + 7) // the same for the whole and its parts
	b.Bool(v.Quant&QuantLF == 0)
	if v.Quant&QuantLF != 0 {
		look.lf[0] = half(b, qr, 0x2400, 0x2E66, false) / 128
		look.lf[1] = half(b, qr, 0x3000, 0x3A00, false) / 128
		look.lf[2] = half(b, qr, 0x3400, 0x3C00, false) / 128
	}
	scale, lq := 4096, 16
	if v.Quant&QuantScale != 0 {
		scale = qr.Pick(1000, 2048, 2049, 4096, 4097, 8192, 8193, 9000, 30000)
		lq = qr.Pick(1, 8, 16, 17, 32, 33, 200, 256, 257, 1000)
		for scale*lq < 1<<14 {
			lq *= 2
		}
	}
	look.scale, look.lq = scale, lq
	b.U32(uint64(scale), [8]int{1, 11, 2049, 11, 4097, 12, 8193, 16})
	b.U32(uint64(lq), [8]int{16, 0, 1, 5, 1, 8, 1, 16})
	kr := NewRng(p.Seed ^ uint64(fi*1009+x0*131+y0*17+5)<<32)
	k := newContexts(kr, v)
	k.write(b, kr, v)
	b.Bool(v.Quant&QuantColour == 0)
	if v.Quant&QuantColour != 0 {
		look.colour = qr.Pick(84, 256, 2, 60, 257, 300, 1000)
		b.U32(uint64(look.colour), [8]int{84, 0, 256, 0, 2, 8, 258, 16})
		look.baseX = half(b, qr, 0x2000, 0x3800, true)
		look.baseB = half(b, qr, 0x3400, 0x3E00, true)
		look.lfX, look.lfB = qr.Range(100, 156), qr.Range(100, 156)
		b.Bits(uint64(look.lfX), 8)
		b.Bits(uint64(look.lfB), 8)
	}
	b.Bool(!p.LocalTree)
	if !p.LocalTree {
		glob.write(b)
	}
	small := f.w <= 256 && f.h <= 256
	if len(f.pix) > 0 {
		if small {
			stream(b, f.pix, 0)
		} else {
			stream(b, nil, 0)
		}
	}
	// LF groups
	for ly := 0; ly < lh; ly++ {
		for lx := 0; lx < lw; lx++ {
			b := add("lfgroup")
			k := ly*lw + lx
			bw, bh := v.blocks(min(2048, f.w-2048*lx), min(2048, f.h-2048*ly))
			place := func(x, y int) (*vgroup, int) {
				g := groups[(ly*8+y/32)*gw+lx*8+x/32]
				return g, y%32*g.bw + x%32
			}
			extra := uint(0)
			if v.Quant&QuantPrecision != 0 {
				extra = uint(kr.N(4))
			}
			more = append(more, extra)
			var lf []*channel
			for _, o := range []int{1, 0, 2} {
				sx, sy := sub[o][0], sub[o][1]
				c := newChannel(bw>>uint(sx), bh>>uint(sy), sx, sy)
				lf = append(lf, c)
				for y := 0; y < c.h; y++ {
					for x := 0; x < c.w; x++ {
						// the samples of a group lie in its top left
						gx, gy := x<<uint(sx)/32, y<<uint(sy)/32
						g := groups[(ly*8+gy)*gw+lx*8+gx]
						c.d[y*c.w+x] = g.lf[o][(y-gy*32>>uint(sy))*g.bw+x-gx*32>>uint(sx)] << extra
					}
				}
			}
			sharp := newChannel(bw, bh, 0, 0)
			var order []*vblock
			for y := 0; y < bh; y++ {
				for x := 0; x < bw; x++ {
					g, i := place(x, y)
					sharp.d[y*bw+x] = g.sharp[i]
					if t := &g.blocks[g.at[i]]; t.x == x%32 && t.y == y%32 {
						order = append(order, t)
					}
				}
			}
			b.Bits(uint64(extra), 2)
			stream(b, lf, 1+k)
			info := newChannel(len(order), 2, 0, 0)
			for i, t := range order {
				info.d[i], info.d[len(order)+i] = int32(t.typ), int32(t.mult-1)
			}
			tw, th := (bw+7)/8, (bh+7)/8
			cx, cb := newChannel(tw, th, 0, 0), newChannel(tw, th, 0, 0)
			for y := 0; y < th; y++ {
				for x := 0; x < tw; x++ {
					g, _ := place(x*8, y*8)
					cx.d[y*tw+x], cb.d[y*tw+x] = g.cfl[0][y%4*4+x%4], g.cfl[1][y%4*4+x%4]
				}
			}
			b.Bits(uint64(len(order)-1), ceilLog1p(bw*bh-1))
			stream(b, []*channel{cx, cb, info, sharp}, 1+2*numLF+k)
		}
	}
	// HF global
	b = add("hfglobal")
	b.Bool(v.Quant&QuantTables == 0)
	if v.Quant&QuantTables != 0 {
		writeTables(b, qr, look, func(i int, cc []*channel) { stream(b, cc, 1+3*numLF+i) })
	}
	presets := max(1, min(v.Presets, numG))
	b.Bits(uint64(presets-1), ceilLog1p(numG-1))
	if v.Orders {
		b.U32(1, [8]int{0x5F, 0, 0x13, 0, 0, 0, 0, 13})
		c := newCoder(r, p.Code, 8, 8)
		c.header(b)
		cs := c.open(b, 0)
		ro := NewRng(p.Seed + 99)
		for i := 0; i < 3; i++ {
			place := make([]int, 64)
			for k := range place {
				place[k] = k
			}
			for k := 63; k > 1; k-- {
				j := 1 + ro.N(k)
				place[k], place[j] = place[j], place[k]
			}
			writePermutation(cs, place, 1)
			look.place[i] = place
		}
	} else {
		b.U32(0, [8]int{0x5F, 0, 0x13, 0, 0, 0, 0, 13})
	}
	code := newCoder(r, p.Code, 495*k.num*presets, max(1, min(v.Clusters, 8)))
	code.header(b)
	// groups
	for i, g := range groups {
		b := add("pass")
		g.write(b, code, v, k, presets, more[i/gw/8*lw+i%gw/8])
		if len(f.pix) > 0 && !small {
			gx, gy := i%gw*256, i/gw*256
			var cc []*channel
			for _, c := range f.pix {
				cc = append(cc, c.crop(gx, gy, min(256, f.w-gx), min(256, f.h-gy)))
			}
			stream(b, cc, 18+3*numLF+i)
		}
	}
	if numG == 1 {
		all := &BitWriter{}
		for _, s := range secs {
			all.Append(s)
		}
		secs, kinds = []*BitWriter{all}, []string{"all"}
	}
	writeTOC(w, p, r, fi, secs, kinds, im)
	if v.Known && f.last {
		look.show(p, f, groups, im)
	}
}
