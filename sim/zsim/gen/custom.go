package gen

import "math"

// What the headers say about colours and samples instead of the usual.

// custom is what an image header may say with HeadCustom.
type custom struct {
	white, prim  int       // as stored
	xy           [4][2]int // white, red, green, blue, in millionths
	target       int       // intensity, a half
	opsin        bool      // the next ones are said
	matrix       [3][3]int // halves
	bias, quants [3]int    // halves
	numerator    int       // half
	ups          int       // which weights are said
	weights      [3][]int  // halves
	tf           int       // enum, or a gamma
	gamma        bool
}

// toHalf rounds to half precision.
func toHalf(v float64) int {
	sign := 0
	if v < 0 {
		sign, v = 0x8000, -v
	}
	f, e := math.Frexp(v)
	m := int(math.Round(f * 2048))
	if m == 2048 {
		m, e = 1024, e+1
	}
	if e < -13 {
		return sign | 0x400
	}
	return sign | (e+14)<<10 | m&0x3FF
}

func (p *Params) custom(xyb bool) *custom {
	r := p.headRng(6)
	around := func(v, by float64) int { return toHalf(v * (1 + by*(float64(r.N(2001))/1000-1))) }
	c := &custom{white: 1, prim: 1, target: 0x5BF8, tf: 13}
	if !p.Gray && r.P(1, 2) {
		c.prim = r.Pick(1, 2, 9, 11)
	}
	if r.P(1, 3) {
		c.white = r.Pick(1, 2, 10, 11)
	}
	for i, v := range [4][2]int{{312700, 329000}, {640000, 330000}, {300000, 600000}, {150000, 60000}} {
		c.xy[i] = [2]int{v[0] + r.Range(-30000, 30000), v[1] + r.Range(-30000, 30000)}
	}
	if r.P(1, 3) {
		c.target = r.Pick(0x5C00, 0x63D0, 0x5640, 0x7000)
	}
	c.tf = r.Pick(1, 8, 13, 16, 17, 18)
	if c.gamma = r.P(1, 6); c.gamma {
		c.tf = r.Pick(4545455, 10000000, 5000000)
	}
	if c.opsin = xyb && r.P(1, 2); c.opsin {
		for i := range c.matrix {
			for j := range c.matrix[i] {
				c.matrix[i][j] = around(opsin[i][j], 0.2)
			}
			c.bias[i] = around(-opsinBias, 0.5)
			c.quants[i] = around(1-[3]float64{0.05465007330715401, 0.07005449891748593, 0.049935103337343655}[i], 0.1)
		}
		c.numerator = around(0.145, 0.3)
	}
	if r.P(1, 2) {
		c.ups = r.Range(1, 7)
	}
	for i, l := range upWeights {
		for _, w := range l {
			c.weights[i] = append(c.weights[i], toHalf(w+0.02*(float64(r.N(2001))/1000-1)))
		}
	}
	return c
}

// writeColours writes the colour encoding.
func (c *custom) writeColours(w *BitWriter, space int, intent int) {
	xy := func(v [2]int) {
		for _, k := range v {
			w.U32(uint64(pack(int32(k))), [8]int{0, 19, 524288, 19, 1048576, 20, 2097152, 21})
		}
	}
	if space != 2 {
		w.Enum(c.white)
		if c.white == 2 {
			xy(c.xy[0])
		}
	}
	if space != 1 && space != 2 {
		w.Enum(c.prim)
		if c.prim == 2 {
			xy(c.xy[1])
			xy(c.xy[2])
			xy(c.xy[3])
		}
	}
	if space != 2 {
		w.Bool(c.gamma)
		if c.gamma {
			w.Bits(uint64(c.tf), 24)
		} else {
			w.Enum(c.tf)
		}
	}
	w.Enum(intent)
}

// writeTransforms writes what follows the extensions of the image.
func (c *custom) writeTransforms(w *BitWriter, xyb bool) {
	half := func(h int) { w.Bits(uint64(h), 16) }
	if xyb {
		w.Bool(!c.opsin)
		if c.opsin {
			for _, m := range c.matrix {
				for _, h := range m {
					half(h)
				}
			}
			for _, h := range c.bias {
				half(h)
			}
			for _, h := range c.quants {
				half(h)
			}
			half(c.numerator)
		}
	}
	w.Bits(uint64(c.ups), 3)
	for i, l := range c.weights {
		if c.ups>>uint(i)&1 != 0 {
			for _, h := range l {
				half(h)
			}
		}
	}
}

// upsampling gives the weights for a factor of 1 << log.
func (c *custom) upsampling(log int) []float64 {
	if log == 0 || c == nil || c.ups>>uint(log-1)&1 == 0 {
		return upWeights[max(0, log-1)]
	}
	var l []float64
	for _, h := range c.weights[log-1] {
		l = append(l, halfValue(h))
	}
	return l
}

type mat [3][3]float64

func (a mat) times(b mat) (o mat) {
	for i := range o {
		for j := range o {
			for k := range o {
				o[i][j] += a[i][k] * b[k][j]
			}
		}
	}
	return
}

func (a mat) inverse() (o mat) {
	m := func(i, j int) float64 {
		i, j = i%3, j%3
		return a[i][j]
	}
	det := 0.0
	for j := 0; j < 3; j++ {
		det += a[0][j] * (m(1, j+1)*m(2, j+2) - m(1, j+2)*m(2, j+1))
	}
	for i := range o {
		for j := range o {
			o[j][i] = (m(i+1, j+1)*m(i+2, j+2) - m(i+1, j+2)*m(i+2, j+1)) / det
		}
	}
	return
}

func xyz(v [2]float64) [3]float64 { return [3]float64{v[0] / v[1], 1, (1 - v[0] - v[1]) / v[1]} }

func (a mat) of(v [3]float64) (o [3]float64) {
	for i := range o {
		for j := range v {
			o[i] += a[i][j] * v[j]
		}
	}
	return
}

// toXYZ is the matrix of a colour space: white, red, green, blue.
func toXYZ(s [4][2]float64) mat {
	var m mat
	for c := 0; c < 3; c++ {
		v := xyz(s[c+1])
		for i := range v {
			m[i][c] = v[i]
		}
	}
	k := m.inverse().of(xyz(s[0]))
	for i := range m {
		for c := range k {
			m[i][c] *= k[c]
		}
	}
	return m
}

var srgb = [4][2]float64{{.3127, .3290}, {0.639998686, 0.330010138}, {0.300003784, 0.600003357}, {0.150002046, 0.059997204}}

// places are those of the white and the primary colours.
func (c *custom) places() [4][2]float64 {
	to := srgb
	for i := range c.xy {
		if i == 0 && c.white == 2 || i > 0 && c.prim == 2 {
			to[i] = [2]float64{float64(c.xy[i][0]) / 1e6, float64(c.xy[i][1]) / 1e6}
		}
	}
	switch c.white {
	case 10:
		to[0] = [2]float64{1. / 3, 1. / 3}
	case 11:
		to[0] = [2]float64{.314, .351}
	}
	switch c.prim {
	case 9:
		to[1], to[2], to[3] = [2]float64{.708, .292}, [2]float64{.170, .797}, [2]float64{.131, .046}
	case 11:
		to[1], to[2], to[3] = [2]float64{.680, .320}, [2]float64{.265, .690}, [2]float64{.150, .060}
	}
	return to
}

// fromSRGB is the matrix from linear sRGB to the colour space of the image.
func (c *custom) fromSRGB() mat {
	to := c.places()
	bradford := mat{{0.8951, 0.2664, -0.1614}, {-0.7502, 1.7135, 0.0367}, {0.0389, -0.0685, 1.0296}}
	a, b := bradford.of(xyz(srgb[0])), bradford.of(xyz(to[0]))
	var scale mat
	for i := range a {
		scale[i][i] = b[i] / a[i]
	}
	adapt := bradford.inverse().times(scale).times(bradford)
	return toXYZ(to).inverse().times(adapt).times(toXYZ(srgb))
}

const opsinBias = 0.0037930732552754493

// xybParams say how XYB samples become colours.
type xybParams struct {
	m         mat
	bias      [3]float64
	quants    [3]float64
	numerator float64
}

func usualXYB() *xybParams {
	x := &xybParams{m: opsin, numerator: 0.145}
	x.bias = [3]float64{-opsinBias, -opsinBias, -opsinBias}
	x.quants = [3]float64{1 - 0.05465007330715401, 1 - 0.07005449891748593, 1 - 0.049935103337343655}
	return x
}

// opsinParams are those before the colour space of the image comes in.
func (c *custom) opsinParams() *xybParams {
	x := usualXYB()
	if c.opsin {
		for i := range x.m {
			for j := range x.m[i] {
				x.m[i][j] = halfValue(c.matrix[i][j])
			}
			x.bias[i], x.quants[i] = halfValue(c.bias[i]), halfValue(c.quants[i])
		}
		x.numerator = halfValue(c.numerator)
	}
	return x
}

func (c *custom) xyb() *xybParams {
	x := c.opsinParams()
	x.m = c.fromSRGB().times(x.m)
	for i := range x.m {
		for j := range x.m[i] {
			x.m[i][j] *= 255 / halfValue(c.target)
		}
	}
	return x
}

// Filters other than the usual ones, Params.Filters
const (
	FilterGab = 8 << iota // weights of the first filter are said
	FilterSharp
	FilterSigma
)

// filters are the restoration filters of a frame.
type filters struct {
	gab           bool
	epf           int
	gabW          [3][2]float64
	sharp         [8]float64
	scale         [3]float64
	quant         float64
	pass0, pass2  float64
	border, sigma float64
	gabH          [3][2]int
	sharpH        [8]int
	sigmaH        [4]int
	modularH      int
}

func (p *Params) filters() *filters {
	f := &filters{gab: p.Filters&1 != 0, epf: p.Filters >> 1 & 3, scale: [3]float64{40, 5, 3.5}, quant: 0.46, pass0: 0.9, pass2: 6.5, border: 2. / 3, sigma: 1, modularH: 0x3C00}
	if p.VarDCT != nil && p.VarDCT.Default {
		f.gab, f.epf = true, 2
	}
	for c := range f.gabW {
		f.gabW[c] = [2]float64{0.115169525, 0.061248592}
	}
	for i := range f.sharp {
		f.sharp[i] = float64(i) / 7
	}
	if p.VarDCT != nil && p.VarDCT.Default {
		return f
	}
	r := p.headRng(7)
	draw := func(lo, hi float64) (int, float64) {
		h := toHalf(lo + (hi-lo)*float64(r.N(1001))/1000)
		return h, halfValue(h)
	}
	if p.Filters&FilterGab != 0 {
		for c := range f.gabW {
			f.gabH[c][0], f.gabW[c][0] = draw(0.01, 0.2)
			f.gabH[c][1], f.gabW[c][1] = draw(0.01, 0.1)
		}
	}
	if p.Filters&FilterSharp != 0 {
		for i := range f.sharp {
			f.sharpH[i], f.sharp[i] = draw(0.01, 1.5)
		}
	}
	if p.Filters&FilterSigma != 0 {
		if p.VarDCT != nil {
			f.sigmaH[0], f.quant = draw(0.2, 1.2)
		}
		f.sigmaH[1], f.pass0 = draw(0.3, 2)
		f.sigmaH[2], f.pass2 = draw(2, 9)
		f.sigmaH[3], f.border = draw(0.3, 1)
		f.modularH, f.sigma = draw(0.5, 20)
	}
	return f
}

func (f *filters) write(w *BitWriter, p *Params, modular bool) {
	half := func(h int) { w.Bits(uint64(h), 16) }
	w.Bool(f.gab)
	if f.gab {
		w.Bool(p.Filters&FilterGab != 0)
		if p.Filters&FilterGab != 0 {
			for _, g := range f.gabH {
				half(g[0])
				half(g[1])
			}
		}
	}
	w.Bits(uint64(f.epf), 2)
	if f.epf == 0 {
		return
	}
	if !modular {
		w.Bool(p.Filters&FilterSharp != 0)
		if p.Filters&FilterSharp != 0 {
			for _, h := range f.sharpH {
				half(h)
			}
		}
	}
	if p.WeightBit {
		w.Bool(false) // the usual weights of the channels
	}
	w.Bool(p.Filters&FilterSigma != 0)
	if p.Filters&FilterSigma != 0 {
		if !modular {
			half(f.sigmaH[0])
		}
		for _, h := range f.sigmaH[1:] {
			half(h)
		}
	}
	if modular {
		half(f.modularH)
	}
}

// apply runs them. sigma: of each block of 8x8.
func (f *filters) apply(p []*Plane, sigma []float64, stride int) []*Plane {
	if f.gab {
		q := make([]*Plane, len(p))
		for c := range p {
			q[c] = p[c].gaborish(f.gabW[c])
		}
		p = q
	}
	for step := 0; step < 3 && f.epf > 0; step++ {
		if step == 0 && f.epf < 3 || step == 2 && f.epf < 2 {
			continue
		}
		p = f.preserve(p, step, sigma, stride)
	}
	return p
}
