package gen

import (
	"math"
	"sync"
)

// What lossy images look like: a plain decoder for what makeGroup made up,
// with sums instead of fast transforms and in double precision.

// qtable describes the quantisation table of a kind of transforms.
type qtable struct {
	mode  int // as stored
	bands [3][]float64
	vals  [3][]float64
	more  [3][]float64
	raw   [3]*channel
	den   float64
}

// look is what the samples of a frame depend on besides its groups.
type look struct {
	lf           [3]float64 // dequantisation of LF samples
	scale, lq    int
	colour       int // factor of the colour correlation
	baseX, baseB float64
	lfX, lfB     int
	qmX, qmB     int
	tables       [17]qtable
	place        [3][]int // orders of the 8x8 blocks
	xyb          *xybParams
	ups          []float64
	filters      *filters
}

func newLook(p *Params) *look {
	k := &look{lf: [3]float64{1.0 / 4096, 1.0 / 512, 1.0 / 256}, scale: 4096, lq: 16, colour: 84, baseB: 1, lfX: 128, lfB: 128, qmX: 3, qmB: 2}
	k.tables = defaultTables
	k.filters = p.filters()
	k.xyb, k.ups = usualXYB(), upWeights[max(0, p.VarDCT.Ups-1)]
	if p.Head&HeadCustom != 0 {
		c := p.custom(p.VarDCT.YCC == 0)
		if p.Head&HeadICC != 0 { // which says no colours then
			c.white, c.prim = 1, 1
		}
		k.xyb, k.ups = c.xyb(), c.upsampling(p.VarDCT.Ups)
	}
	return k
}

// half precision, without subnormal numbers
func halfValue(h int) float64 {
	v := math.Ldexp(float64(h&0x3FF|0x400), h>>10&31-25)
	if h>>10&31 == 0 {
		v = math.Ldexp(float64(h&0x3FF), -24)
	}
	if h>>15 != 0 {
		v = -v
	}
	return v
}

func between(pos float64, b []float64) float64 {
	if len(b) == 1 {
		return b[0]
	}
	i := int(pos)
	if i+1 >= len(b) {
		return b[len(b)-1]
	}
	return b[i] * math.Pow(b[i+1]/b[i], pos-float64(i))
}

func bandsOf(l []float64) []float64 {
	b := []float64{l[0]}
	for i := 1; i < len(l); i++ {
		m := 1 + l[i]
		if l[i] < 0 {
			m = 1 / (1 - l[i])
		}
		b = append(b, b[i-1]*m)
	}
	return b
}

func dctWeights(h, w int, l []float64) []float64 {
	b := bandsOf(l)
	scale := float64(len(b)-1) / (math.Sqrt2 + 1e-6)
	out := make([]float64, h*w)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			dy, dx := float64(y)/float64(h-1), float64(x)/float64(w-1)
			out[y*w+x] = between(scale*math.Sqrt(dx*dx+dy*dy), b)
		}
	}
	return out
}

// factors are what the coefficients are multiplied with, rows first, in the
// wide form of the transforms.
func (q *qtable) factors(i, c int) []float64 {
	w, h := tableDims[i][0], tableDims[i][1]
	out := make([]float64, w*h)
	if q.mode == 7 {
		for k := range out {
			out[k] = q.den * float64(q.raw[c].d[k])
		}
		return out
	}
	v := q.vals[c]
	switch q.mode {
	case 1:
		for k := range out {
			out[k] = v[0]
		}
		out[1], out[8], out[9] = v[1], v[1], v[2]
	case 2:
		for k := range out {
			y, x := k/8, k%8
			n := 0
			for s := 1; s < 8; s *= 2 {
				switch {
				case y < s && x >= s && x < 2*s, x < s && y >= s && y < 2*s:
					out[k] = v[n]
				case y >= s && y < 2*s && x >= s && x < 2*s:
					out[k] = v[n+1]
				}
				n += 2
			}
		}
	case 3:
		t := dctWeights(4, 4, q.bands[c])
		for k := range out {
			out[k] = t[k/8/2*4+k%8/2]
		}
		out[1] /= v[0]
		out[8] /= v[0]
		out[9] /= v[1]
	case 4:
		t := dctWeights(4, 8, q.bands[c])
		for k := range out {
			out[k] = t[k/8/2*8+k%8]
		}
		out[8] /= v[0]
	case 5:
		t48, t44 := dctWeights(4, 8, q.bands[c]), dctWeights(4, 4, q.more[c])
		lo, hi := afvFreqs[2], afvFreqs[15]
		b := bandsOf(v[5:9])
		for y := 0; y < 8; y++ {
			for x := 0; x < 8; x++ {
				switch {
				case y%2 == 1:
					out[y*8+x] = t48[y/2*8+x]
				case x%2 == 1:
					out[y*8+x] = t44[y/2*4+x/2]
				default:
					out[y*8+x] = between((afvFreqs[y/2*4+x/2]-lo)/(hi-lo)*3, b)
				}
			}
		}
		out[8], out[1], out[16], out[2], out[18] = v[0], v[1], v[2], v[3], v[4]
	case 6:
		out = dctWeights(h, w, q.bands[c])
	}
	for k := range out {
		out[k] = 1 / out[k]
	}
	return out
}

// which table the transforms take
var tableOf = [27]int{0, 1, 2, 3, 4, 5, 6, 6, 7, 7, 8, 8, 9, 9, 10, 10, 10, 10, 11, 12, 12, 13, 14, 14, 15, 16, 16}

// natural is the usual order of the coefficients of a transform in its wide
// form of h rows, in blocks.
func natural(h, w int) []int {
	ratio := w / h
	order := make([]int, h*w*64)
	n := h * w
	put := func(x, y int) {
		if y%ratio != 0 {
			return
		}
		y /= ratio
		if x < w && y < h {
			order[y*w+x] = y*w*8 + x
			return
		}
		order[n] = y*w*8 + x
		n++
	}
	d := w * 8
	for i := 0; i < 2*d-1; i++ {
		for j := 0; j <= i; j++ {
			x, y := j, i-j
			if i%2 == 1 {
				x, y = y, x
			}
			if x < d && y < d {
				put(x, y)
			}
		}
	}
	return order
}

// cosines[n][k*n+x] is the k-th wave of n samples
var cosines sync.Map

func waves(n int) []float64 {
	if t, ok := cosines.Load(n); ok {
		return t.([]float64)
	}
	t := make([]float64, n*n)
	for k := 0; k < n; k++ {
		for x := 0; x < n; x++ {
			t[k*n+x] = 1
			if k > 0 {
				t[k*n+x] = math.Sqrt2 * math.Cos(float64(2*x+1)*float64(k)*math.Pi/float64(2*n))
			}
		}
	}
	cosines.Store(n, t)
	return t
}

// idct makes h x w samples of coefficients, of which at(ky, kx) is one.
func idct(h, w int, at func(ky, kx int) float64) []float64 {
	cw, ch := waves(w), waves(h)
	rows := make([]float64, h*w)
	for ky := 0; ky < h; ky++ {
		for kx := 0; kx < w; kx++ {
			if v := at(ky, kx); v != 0 {
				for x := 0; x < w; x++ {
					rows[ky*w+x] += v * cw[kx*w+x]
				}
			}
		}
	}
	out := make([]float64, h*w)
	for ky := 0; ky < h; ky++ {
		for y := 0; y < h; y++ {
			k := ch[ky*h+y]
			for x := 0; x < w; x++ {
				out[y*w+x] += k * rows[ky*w+x]
			}
		}
	}
	return out
}

// lowest are the coefficients that make up for the LF samples of a block.
func lowest(h, w int, lf []float64) []float64 {
	cw, ch := waves(w), waves(h)
	reach := func(k, n int) float64 {
		t := float64(k) * math.Pi / float64(16*n)
		return 1 / (math.Cos(t) * math.Cos(2*t) * math.Cos(4*t))
	}
	out := make([]float64, h*w)
	for ky := 0; ky < h; ky++ {
		for kx := 0; kx < w; kx++ {
			s := 0.0
			for y := 0; y < h; y++ {
				for x := 0; x < w; x++ {
					s += lf[y*w+x] * ch[ky*h+y] * cw[kx*w+x]
				}
			}
			out[ky*w+kx] = s / float64(h*w) * reach(ky, h) * reach(kx, w)
		}
	}
	return out
}

func halves2(q []float64, n int) []float64 {
	out := append([]float64{}, q...)
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			a, b, c, d := q[y*8+x], q[y*8+x+n], q[(y+n)*8+x], q[(y+n)*8+x+n]
			out[16*y+2*x], out[16*y+2*x+1] = a+b+c+d, a+b-c-d
			out[16*y+8+2*x], out[16*y+9+2*x] = a-b+c-d, a-b-c+d
		}
	}
	return out
}

// samplesOf undoes a transform. The coefficients are in the wide form.
func samplesOf(typ int, q []float64) []float64 {
	h, w := dcts[typ][0]*8, dcts[typ][1]*8
	out := make([]float64, 64)
	lay := func(y0, x0, w int, s []float64) {
		for i, v := range s {
			out[(y0+i/w)*8+x0+i%w] = v
		}
	}
	switch {
	case typ == 1:
		dc := halves2(q, 1)
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				sum := 0.0
				at := func(iy, ix int) float64 { return q[(y+iy*2)*8+x+ix*2] }
				for i := 1; i < 16; i++ {
					sum += at(i/4, i%4)
				}
				mid := dc[y*8+x] - sum/16
				for i := 0; i < 16; i++ {
					v := mid
					switch i {
					case 0:
						v += at(1, 1)
					case 5:
					default:
						v += at(i/4, i%4)
					}
					out[(4*y+i/4)*8+4*x+i%4] = v
				}
			}
		}
	case typ == 2:
		return halves2(halves2(halves2(q, 1), 2), 4)
	case typ == 3:
		dc := halves2(q, 1)
		for y := 0; y < 2; y++ {
			for x := 0; x < 2; x++ {
				lay(4*y, 4*x, 4, idct(4, 4, func(ky, kx int) float64 {
					if ky+kx == 0 {
						return dc[y*8+x]
					}
					return q[(y+kx*2)*8+x+ky*2]
				}))
			}
		}
	case typ == 12 || typ == 13:
		for i := 0; i < 2; i++ {
			dc := q[0] + q[8] - 2*float64(i)*q[8]
			at := func(a, b int) float64 {
				if a+b == 0 {
					return dc
				}
				return q[(i+2*a)*8+b]
			}
			if typ == 12 {
				lay(4*i, 0, 8, idct(4, 8, at))
			} else {
				lay(0, 4*i, 4, idct(8, 4, func(ky, kx int) float64 { return at(kx, ky) }))
			}
		}
	case typ >= 14 && typ <= 17:
		right, down := (typ-14)&1, (typ-14)>>1
		a, b, c := q[0], q[1], q[8]
		corner := make([]float64, 16)
		for i := range corner {
			for j := 0; j < 16; j++ {
				v := q[j/4*16+j%4*2]
				if j == 0 {
					v = (a + b + c) * 4
				}
				corner[i] += v * afvBasis[j][i]
			}
		}
		for i := range corner {
			y, x := i/4, i%4
			if down == 1 {
				y = 3 - y
			}
			if right == 1 {
				x = 3 - x
			}
			out[(down*4+i/4)*8+right*4+i%4] = corner[y*4+x]
		}
		lay(down*4, 4-right*4, 4, idct(4, 4, func(ky, kx int) float64 {
			if ky+kx == 0 {
				return a + c - b
			}
			return q[kx*16+ky*2+1]
		}))
		lay(4-down*4, 0, 8, idct(4, 8, func(ky, kx int) float64 {
			if ky+kx == 0 {
				return a - c
			}
			return q[ky*16+8+kx]
		}))
	case h >= w:
		return idct(h, w, func(ky, kx int) float64 { return q[kx*h+ky] })
	default:
		return idct(h, w, func(ky, kx int) float64 { return q[ky*w+kx] })
	}
	return out
}

// Plane has samples.
type Plane struct {
	W, H int
	D    []float64
}

func newPlane(w, h int) *Plane { return &Plane{w, h, make([]float64, w*h)} }

func reflect(i, n int) int {
	for i < 0 || i >= n {
		if i < 0 {
			i = -1 - i
		} else {
			i = 2*n - 1 - i
		}
	}
	return i
}

func (p *Plane) at(x, y int) float64 { return p.D[reflect(y, p.H)*p.W+reflect(x, p.W)] }

// wider doubles the size across, or down.
func (p *Plane) wider(down bool) *Plane {
	o := newPlane(p.W*2, p.H)
	if down {
		o = newPlane(p.W, p.H*2)
	}
	for y := 0; y < o.H; y++ {
		for x := 0; x < o.W; x++ {
			if down {
				o.D[y*o.W+x] = .75*p.at(x, y/2) + .25*p.at(x, y/2-1+y%2*2)
			} else {
				o.D[y*o.W+x] = .75*p.at(x/2, y) + .25*p.at(x/2-1+x%2*2, y)
			}
		}
	}
	return o
}

func (p *Plane) gaborish(w [2]float64) *Plane {
	w1, w2 := w[0], w[1]
	o := newPlane(p.W, p.H)
	for y := 0; y < p.H; y++ {
		for x := 0; x < p.W; x++ {
			s := p.at(x, y) + w1*(p.at(x-1, y)+p.at(x+1, y)+p.at(x, y-1)+p.at(x, y+1)) +
				w2*(p.at(x-1, y-1)+p.at(x+1, y-1)+p.at(x-1, y+1)+p.at(x+1, y+1))
			o.D[y*p.W+x] = s / (1 + 4*(w1+w2))
		}
	}
	return o
}

var plus = [][2]int{{0, 0}, {-1, 0}, {1, 0}, {0, -1}, {0, 1}}

// preserve is one step of the edge preserving filter. sigma: of each block.
func (f *filters) preserve(p []*Plane, step int, sigma []float64, stride int) []*Plane {
	area, factor := plus, 1.0
	switch step {
	case 0:
		area, factor = nil, f.pass0
		for y := -2; y <= 2; y++ {
			for x := -2; x <= 2; x++ {
				if max(x, -x)+max(y, -y) <= 2 {
					area = append(area, [2]int{x, y})
				}
			}
		}
	case 2:
		factor = f.pass2
	}
	near := plus
	if step == 2 {
		near = plus[:1]
	}
	scale := f.scale
	o := make([]*Plane, len(p))
	w, h := p[0].W, p[0].H
	for c := range o {
		o[c] = newPlane(w, h)
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			s := sigma[y/8*stride+x/8]
			if s < 0.3 {
				for c := range o {
					o[c].D[y*w+x] = p[c].D[y*w+x]
				}
				continue
			}
			all, sum := 0.0, make([]float64, len(p))
			for _, a := range area {
				d := 0.0
				for c := range p {
					for _, b := range near {
						d += scale[c] * math.Abs(p[c].at(x+b[0], y+b[1])-p[c].at(x+a[0]+b[0], y+a[1]+b[1]))
					}
				}
				if x%8 == 0 || x%8 == 7 || y%8 == 0 || y%8 == 7 {
					d *= f.border
				}
				k := max(0, 1-d*factor*1.65*4*(1-math.Sqrt(0.5))/s)
				all += k
				for c := range p {
					sum[c] += k * p[c].at(x+a[0], y+a[1])
				}
			}
			for c := range o {
				o[c].D[y*w+x] = sum[c] / all
			}
		}
	}
	return o
}

func (p *Plane) larger(log int, weights []float64) *Plane {
	if log == 0 {
		return p
	}
	k := 1 << uint(log)
	o := newPlane(p.W*k, p.H*k)
	n := 5 * k / 2
	var at [][]float64
	for i := 0; i < n; i++ {
		at = append(at, make([]float64, n))
	}
	next := 0
	for i := 0; i < n; i++ {
		for j := i; j < n; j++ {
			at[i][j], at[j][i] = weights[next], weights[next]
			next++
		}
	}
	place := func(k5, i int) int { // of the weight of the i-th of 5 samples
		if k5 < k/2 {
			return 5*k5 + i
		}
		return 5*(k-1-k5) + 4 - i
	}
	for y := 0; y < o.H; y++ {
		for x := 0; x < o.W; x++ {
			s, lo, hi := 0.0, math.Inf(1), math.Inf(-1)
			for iy := 0; iy < 5; iy++ {
				for ix := 0; ix < 5; ix++ {
					v := p.at(x/k+ix-2, y/k+iy-2)
					s += v * at[place(y%k, iy)][place(x%k, ix)]
					lo, hi = min(lo, v), max(hi, v)
				}
			}
			o.D[y*o.W+x] = min(hi, max(lo, s))
		}
	}
	return o
}

// show tells the image what it looks like, where that is known.
func (k *look) show(p *Params, f *frame, groups []*vgroup, im *Image) {
	v := p.VarDCT
	switch {
	case v.Part != nil, p.Gray:
		return
	case v.Smooth && (f.w > 2048 || f.h > 2048):
		// the decoder smooths the LF groups one by one
		return
	case v.CfL && (v.Large || v.Loose):
		// transforms that lie on several factors
		return
	}
	r := &render{look: k, p: p, f: f, groups: groups, smooth: v.Smooth}
	look, off := r.colours()
	if v.Smooth {
		r := &render{look: k, p: p, f: f, groups: groups}
		rough, _ := r.colours()
		for _, l := range rough {
			im.Rough = append(im.Rough, l.turn(im, p.Orientation))
		}
	}
	for i, c := range f.pix {
		l, o := newPlane(f.w, f.h), newPlane(p.W, p.H)
		for j, s := range c.d {
			l.D[j] = float64(s) / float64(int64(1)<<uint(im.Depths[3+i])-1)
		}
		look = append(look, l.larger(v.Ups, k.ups).crop(p.W, p.H))
		for j := range o.D {
			o.D[j] = 1e-6
			if v.Ups > 0 {
				o.D[j] = 1e-5
			}
		}
		off = append(off, o)
	}
	for i := range look {
		im.Look = append(im.Look, look[i].turn(im, p.Orientation))
		im.Off = append(im.Off, off[i].turn(im, p.Orientation))
	}
}

func (p *Plane) crop(w, h int) *Plane {
	o := newPlane(w, h)
	for y := 0; y < h; y++ {
		copy(o.D[y*w:y*w+w], p.D[y*p.W:])
	}
	return o
}

func (p *Plane) turn(im *Image, orientation int) *Plane {
	o := newPlane(im.W, im.H)
	for y := 0; y < o.H; y++ {
		for x := 0; x < o.W; x++ {
			o.D[y*o.W+x] = p.D[source(x, y, p.W, p.H, orientation)]
		}
	}
	return o
}

// render makes the samples of a frame from its groups.
type render struct {
	*look
	p      *Params
	f      *frame
	groups []*vgroup
	bw, bh int
	inv    float64
	mag    [3]*Plane // of each block: how large its coefficients are
	sharp  []float64
	unsure bool
	smooth bool
}

func (r *render) lfSamples() (lf [3]*Plane) {
	v := r.p.VarDCT
	sub := v.sub()
	gw := (r.f.w + 255) / 256
	for c := range lf {
		sx, sy := uint(sub[c][0]), uint(sub[c][1])
		lf[c] = newPlane(r.bw>>sx, r.bh>>sy)
		for y := 0; y < lf[c].H; y++ {
			for x := 0; x < lf[c].W; x++ {
				gx, gy := x<<sx/32, y<<sy/32
				g := r.groups[gy*gw+gx]
				q := g.lf[c][(y-gy*32>>sy)*g.bw+x-gx*32>>sx]
				lf[c].D[y*lf[c].W+x] = float64(q) * r.lf[c] * r.inv / float64(r.lq)
			}
		}
	}
	if !v.Subsampled() {
		for i, y := range lf[1].D {
			lf[0].D[i] += y * (r.baseX + float64(r.lfX-128)/float64(r.colour))
			lf[2].D[i] += y * (r.baseB + float64(r.lfB-128)/float64(r.colour))
		}
	}
	if !r.smooth {
		return
	}
	var o, soft [3]*Plane
	gap := newPlane(r.bw, r.bh)
	for c, l := range lf {
		o[c], soft[c] = l.crop(l.W, l.H), newPlane(r.bw, r.bh)
		for y := 0; y < r.bh; y++ {
			for x := 0; x < r.bw; x++ {
				s := 0.05226273532324128*l.at(x, y) +
					0.20345139757231578*(l.at(x-1, y)+l.at(x+1, y)+l.at(x, y-1)+l.at(x, y+1)) +
					0.0334829185968739*(l.at(x-1, y-1)+l.at(x+1, y-1)+l.at(x-1, y+1)+l.at(x+1, y+1))
				i := y*r.bw + x
				soft[c].D[i] = s
				gap.D[i] = max(gap.D[i], 0.5, math.Abs(l.D[i]-s)/(r.lf[c]*r.inv/float64(r.lq)))
			}
		}
	}
	for c, l := range lf {
		for y := 1; y < r.bh-1; y++ {
			for x := 1; x < r.bw-1; x++ {
				i := y*r.bw + x
				o[c].D[i] += (soft[c].D[i] - l.D[i]) * max(0, 3-4*gap.D[i])
			}
		}
	}
	return o
}

// blocks undoes the transforms.
func (r *render) blocks(lf [3]*Plane) (out [3]*Plane) {
	v := r.p.VarDCT
	sub := v.sub()
	gw := (r.f.w + 255) / 256
	for c := range out {
		out[c] = newPlane(lf[c].W*8, lf[c].H*8)
		r.mag[c] = newPlane(lf[c].W, lf[c].H)
	}
	r.sharp = make([]float64, r.bw*r.bh)
	factors := map[[2]int][]float64{}
	orders := map[int][]int{}
	for gi, g := range r.groups {
		x0, y0 := gi%gw*32, gi/gw*32
		for i := range g.blocks {
			b := &g.blocks[i]
			th, tw, ord := dcts[b.typ][0], dcts[b.typ][1], dcts[b.typ][2]
			for y := b.y; y < b.y+th; y++ {
				for x := b.x; x < b.x+tw; x++ {
					s := r.inv * r.filters.quant * r.filters.sharp[g.sharp[y*g.bw+x]] / float64(b.mult)
					r.sharp[(y0+y)*r.bw+x0+x] = s
					r.unsure = r.unsure || math.Abs(s-0.3) < 1e-3
				}
			}
			if orders[ord] == nil {
				orders[ord] = natural(min(th, tw), max(th, tw))
			}
			nat := orders[ord]
			var co [3][]float64
			var mag [3]float64
			for c := range co {
				key := [2]int{tableOf[b.typ], c}
				if factors[key] == nil {
					factors[key] = r.tables[key[0]].factors(key[0], c)
				}
				t := factors[key]
				m := r.inv / float64(b.mult)
				if v.YCC == 0 && c == 0 {
					m *= math.Pow(0.8, float64(r.qmX-2))
				}
				if v.YCC == 0 && c == 2 {
					m *= math.Pow(0.8, float64(r.qmB-2))
				}
				co[c] = make([]float64, len(nat))
				for j, q := range b.coef[c] {
					if q == 0 {
						continue
					}
					at := j + th*tw
					if ord == 0 && r.place[c] != nil {
						at = r.place[c][at]
					}
					d := float64(q) - r.xyb.numerator/float64(q)
					if q == 1 || q == -1 {
						d = float64(q) * r.xyb.quants[c]
					}
					co[c][nat[at]] = d * m * t[nat[at]]
					mag[c] += math.Abs(co[c][nat[at]])
				}
			}
			if !v.Subsampled() {
				tile := b.y/8*4 + b.x/8
				kx := r.baseX + float64(g.cfl[0][tile])/float64(r.colour)
				kb := r.baseB + float64(g.cfl[1][tile])/float64(r.colour)
				for j, y := range co[1] {
					co[0][j] += y * kx
					co[2][j] += y * kb
				}
				mag[0] += mag[1] * math.Abs(kx)
				mag[2] += mag[1] * math.Abs(kb)
			}
			for c := range co {
				sx, sy := uint(sub[c][0]), uint(sub[c][1])
				bx, by := (x0+b.x)>>sx, (y0+b.y)>>sy
				if bx<<sx != x0+b.x || by<<sy != y0+b.y {
					continue
				}
				l := make([]float64, th*tw)
				for j := range l {
					l[j] = lf[c].D[(by+j/tw)*lf[c].W+bx+j%tw]
					mag[c] += math.Abs(l[j])
				}
				for j := range l {
					r.mag[c].D[(by+j/tw)*lf[c].W+bx+j%tw] = mag[c]
				}
				for j, s := range lowest(th, tw, l) {
					if y, x := j/tw, j%tw; th >= tw {
						co[c][x*th*8+y] = s
					} else {
						co[c][y*tw*8+x] = s
					}
				}
				for j, s := range samplesOf(b.typ, co[c]) {
					out[c].D[(by*8+j/(tw*8))*out[c].W+bx*8+j%(tw*8)] = s
				}
			}
		}
	}
	return
}

// colours gives the colours and how far off they may be. Where the samples are
// not certain they are no numbers.
func (r *render) colours() (look, off []*Plane) {
	p, f := r.p, r.f
	v := p.VarDCT
	r.bw, r.bh = v.blocks(f.w, f.h)
	r.inv = 65536 / float64(r.scale)
	out := r.blocks(r.lfSamples())
	sub := v.sub()
	for c := range out {
		sx, sy := uint(sub[c][0]), uint(sub[c][1])
		out[c] = out[c].crop((f.w+(1<<sx)-1)>>sx, (f.h+(1<<sy)-1)>>sy)
		for i := 0; i < sub[c][0]; i++ {
			out[c] = out[c].wider(false)
		}
		for i := 0; i < sub[c][1]; i++ {
			out[c] = out[c].wider(true)
		}
	}
	for c := range out {
		out[c] = out[c].crop(f.w, f.h)
	}
	copy(out[:], r.filters.apply(out[:], r.sharp, r.bw))
	for c := range out {
		out[c] = out[c].larger(v.Ups, r.ups)
	}
	// how large the coefficients around a sample are
	around := func(c, x, y int) (m float64) {
		x, y = x>>uint(v.Ups)>>uint(sub[c][0])/8, y>>uint(v.Ups)>>uint(sub[c][1])/8
		for dy := -1; dy < 2; dy++ {
			for dx := -1; dx < 2; dx++ {
				m = max(m, r.mag[c].at(x+dx, y+dy))
			}
		}
		return
	}
	for c := 0; c < 3; c++ {
		look, off = append(look, newPlane(p.W, p.H)), append(off, newPlane(p.W, p.H))
	}
	for y := 0; y < p.H; y++ {
		for x := 0; x < p.W; x++ {
			var s, e, o, t [3]float64
			for c := range s {
				s[c] = out[c].D[y*out[c].W+x]
				e[c] = precision * (1 + around(c, x, y))
			}
			if r.filters.epf > 0 {
				m := e[0] + e[1] + e[2]
				e = [3]float64{m, m, m}
			}
			if v.YCC == 5 {
				o, t = s, e
			} else if v.YCC > 0 {
				l := s[1] + 128.0/255
				o = [3]float64{l + 1.402*s[2], l - 0.344136*s[0] - 0.714136*s[2], l + 1.772*s[0]}
				m := e[1] + 2*e[0] + 2*e[2]
				t = [3]float64{m, m, m}
			} else {
				ge := [3]float64{e[0] + e[1], e[0] + e[1], e[2]}
				for i, g := range [3]float64{s[1] + s[0], s[1] - s[0], s[2]} {
					b := r.xyb.bias[i]
					g -= math.Cbrt(b)
					for c := range o {
						o[c] += r.xyb.m[c][i] * (g*g*g + b)
						a := math.Abs(g) + ge[i]
						t[c] += math.Abs(r.xyb.m[c][i]) * (3*a*a*ge[i] + precision*(a*a*a-b))
					}
				}
			}
			uncertain := r.unsure && r.filters.epf > 0
			for c := range o {
				if uncertain {
					o[c] = math.NaN()
				}
				look[c].D[y*p.W+x], off[c].D[y*p.W+x] = o[c], t[c]
			}
		}
	}
	return
}

const precision = 5e-6

var opsin = mat{
	{11.031566901960783, -9.866943921568629, -0.16462299647058826},
	{-3.254147380392157, 4.418770392156863, -0.16462299647058826},
	{-3.6588512862745097, 2.7129230470588235, 1.9459282392156863},
}
