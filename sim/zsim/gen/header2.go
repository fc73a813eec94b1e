package gen

import (
	"fmt"
	"hash/fnv"
	"strings"
)

// details are those that have no influence on the samples.
func (e *extra) details(r *Rng) {
	switch e.typ {
	case 2:
		for i := range e.spot {
			e.spot[i] = r.Pick(0, 0x3800, 0x3C00, 0x2E66, r.N(0x7C00))
		}
	case 5:
		e.cfa = r.Pick(0, 1, 3, 4, 18, 19, 200)
	}
	if e.typ != 5 {
		e.cfa = 1
	}
}

// header is what an image header says.
type header struct {
	all         bool // everything as usual
	more        bool // the extra fields are there
	w, h        int
	orientation int
	intrinsic   [2]int
	preview     [2]int
	depth, exp  int
	narrow      bool
	extras      []extra
	xyb         bool
	usual       bool // colours
	icc         bool
	space       int
	colours     *custom
	intent      int
	tone        bool
	target      int // halves
	minNits     int
	below       int
	relative    bool
	ext         *Rng
	transforms  bool
	profile     []byte

	key      uint64
	payloads [64][]byte
}

func (p *Params) header(xyb bool) *header {
	h := &header{w: p.W, h: p.H, orientation: p.Orientation, depth: p.Bits, extras: p.extras(), xyb: xyb, usual: true, intent: 1}
	r := p.headRng(3)
	h.more = p.Orientation > 1 || p.Head&(HeadSize|HeadCustom) != 0
	if p.Head&HeadSize != 0 && r.P(1, 2) {
		h.intrinsic = [2]int{r.Range(1, 3000), r.Range(1, 3000)}
	}
	h.narrow = true // 16 bit buffers suffice
	for _, d := range p.depths() {
		h.narrow = h.narrow && d <= 12
	}
	full := p.Head&HeadColour != 0 && r.P(3, 4)
	if p.Head&HeadColour != 0 {
		h.intent = r.N(4)
	}
	h.colours = &custom{white: 1, prim: 1, target: 0x5BF8, tf: 13}
	if p.Gray {
		h.space = 1
	}
	h.tone = p.Head&HeadSize != 0 && !xyb && r.P(1, 2)
	h.target = r.Pick(0x5C00, 0x63D0, 0x5BF8)
	if p.Head&HeadCustom != 0 {
		h.colours = p.custom(xyb)
		h.usual = false
		h.target = h.colours.target
		h.tone = h.target != 0x5BF8
		h.transforms = true
	} else if p.Gray || full {
		h.usual = false
	}
	h.minNits = r.Pick(0, 0x2E66, 0x3C00)
	h.relative = r.P(1, 2)
	h.below = r.Pick(0, 0x3800)
	if p.Head&HeadExt != 0 {
		h.ext = p.headRng(4)
	}
	if p.Head&HeadICC != 0 {
		h.icc, h.usual = true, false
	}
	return h
}

// write writes it. The random numbers decide the form.
func (h *header) write(w *BitWriter, r *Rng, forms bool, kinds int) {
	w.Bits(0x0AFF, 16)
	size := func(width, height int) {
		if forms {
			writeSize(w, r, width, height)
			return
		}
		size := [8]int{1, 9, 1, 13, 1, 18, 1, 30}
		if width%8 == 0 && height%8 == 0 && width <= 256 && height <= 256 && r.P(1, 2) {
			w.Bool(true)
			w.Bits(uint64(height/8-1), 5)
			w.Bits(0, 3)
			w.Bits(uint64(width/8-1), 5)
		} else {
			w.Bool(false)
			w.U32(uint64(height), size)
			w.Bits(0, 3)
			w.U32(uint64(width), size)
		}
	}
	half := func(v int) { w.Bits(uint64(v), 16) }
	size(h.w, h.h)
	w.Bool(h.all)
	if !h.all {
		w.Bool(h.more)
		if h.more {
			w.Bits(uint64(h.orientation-1), 3)
			w.Bool(h.intrinsic[0] > 0)
			if h.intrinsic[0] > 0 {
				size(h.intrinsic[0], h.intrinsic[1])
			}
			w.Bool(h.preview[0] > 0)
			if h.preview[0] > 0 {
				writePreview(w, r, h.preview[0], h.preview[1])
			}
			w.Bool(false)
		}
		depth := func(bits, exp int) {
			w.Bool(exp > 0)
			if exp > 0 {
				w.U32(uint64(bits), [8]int{32, 0, 16, 0, 24, 0, 1, 6})
				w.Bits(uint64(exp-1), 4)
			} else {
				w.U32(uint64(bits), [8]int{8, 0, 10, 0, 12, 0, 1, 6})
			}
		}
		depth(h.depth, h.exp)
		w.Bool(h.narrow)
		w.U32(uint64(len(h.extras)), [8]int{0, 0, 1, 0, 2, 4, 1, 12})
		for _, e := range h.extras {
			if e.typ == 0 && e.depth == 8 && e.exp == 0 && e.name == "" && !e.premult && e.shift == 0 && (!forms || r.P(3, 4)) {
				w.Bool(true)
				continue
			}
			w.Bool(false)
			w.Enum(e.typ)
			depth(e.depth, e.exp)
			w.U32(uint64(e.shift), [8]int{0, 0, 3, 0, 4, 0, 1, 3})
			writeName(w, e.name)
			switch e.typ {
			case 0:
				w.Bool(e.premult)
			case 2:
				for _, s := range e.spot {
					half(s)
				}
			case 5:
				w.U32(uint64(e.cfa), [8]int{1, 0, 0, 2, 3, 4, 19, 8})
			}
		}
		w.Bool(h.xyb)
		w.Bool(h.usual)
		if !h.usual {
			w.Bool(h.icc)
			w.Enum(h.space)
			if !h.icc {
				h.colours.writeColours(w, h.space, h.intent)
			}
		}
		if h.more {
			w.Bool(!h.tone)
			if h.tone {
				half(h.target)
				half(h.minNits)
				w.Bool(h.relative)
				half(h.below)
			}
		}
		h.writeExtensions(w)
	}
	w.Bool(!h.transforms)
	if h.transforms {
		h.colours.writeTransforms(w, h.xyb || h.all)
	}
	if h.icc && !h.usual && !h.all {
		h.profile = writeProfile(w, r, kinds)
	}
	w.Later(func(w *BitWriter) { w.Pad() })
	w.Resolve()
}

// writeExtensions writes some that no decoder knows.
func (h *header) writeExtensions(w *BitWriter) {
	r := h.ext
	if r == nil || r.P(1, 3) {
		w.U64(0)
		return
	}
	for i := r.Range(1, 3); i > 0; i-- {
		h.key |= 1 << uint(r.N(64))
	}
	w.U64(h.key)
	var sizes [64]int
	for i := range sizes {
		if h.key>>uint(i)&1 != 0 {
			sizes[i] = r.Pick(0, 1, 7, 8, 13, 64, 300)
			w.U64(uint64(sizes[i]))
		}
	}
	for i, n := range sizes {
		for at := 0; at < n; at++ {
			b := r.Next() & 1
			if at%8 == 0 {
				h.payloads[i] = append(h.payloads[i], 0)
			}
			h.payloads[i][at/8] |= byte(b << uint(at%8))
			w.Bits(b, 1)
		}
	}
}

func writePreview(w *BitWriter, r *Rng, width, height int) {
	small := width%8 == 0 && height%8 == 0 && r.P(3, 4)
	ratio := 0
	for i := 1; i < 8 && r.P(3, 4); i++ {
		if height*ratios[i][0]/ratios[i][1] == width {
			ratio = i
		}
	}
	put := func(v int) {
		if small {
			w.U32(uint64(v/8), [8]int{16, 0, 32, 0, 1, 5, 33, 9})
		} else {
			w.U32(uint64(v), [8]int{1, 6, 65, 8, 321, 10, 1345, 12})
		}
	}
	w.Bool(small)
	put(height)
	w.Bits(uint64(ratio), 3)
	if ratio == 0 {
		put(width)
	}
}

// Field is something that an image header says.
type Field struct {
	Name string
	Text string
	Nums []float64
}

// Digest shortens bytes.
func Digest(b []byte) string {
	f := fnv.New64a()
	f.Write(b)
	return fmt.Sprintf("%d bytes %016x", len(b), f.Sum64())
}

// fields are what a decoder has to find.
func (h *header) fields() (out []Field) {
	text := func(name, format string, a ...any) {
		out = append(out, Field{Name: name, Text: fmt.Sprintf(format, a...)})
	}
	nums := func(name string, v ...float64) { out = append(out, Field{Name: name, Nums: v}) }
	d := *h
	c := h.colours
	if !d.more || d.all {
		d.orientation, d.preview, d.tone = 1, [2]int{}, false
	}
	if d.all {
		d.depth, d.exp, d.narrow, d.extras, d.xyb, d.usual = 8, 0, true, nil, true, true
	}
	ow, oh := d.w, d.h
	if d.orientation > 4 {
		ow, oh = oh, ow
	}
	text("size", "%dx%d", d.w, d.h)
	text("oriented size", "%dx%d", ow, oh)
	text("orientation", "%d", d.orientation)
	text("preview", "%dx%d", d.preview[0], d.preview[1])
	text("depth", "%d %d %v", d.depth, d.exp, d.exp > 0)
	text("narrow", "%v", d.narrow)
	text("xyb", "%v", d.xyb)
	text("extra channels", "%d", len(d.extras))
	var alphas []string
	for i, e := range d.extras {
		if e.typ == 0 {
			alphas = append(alphas, fmt.Sprint(i))
		}
		text(fmt.Sprintf("extra channel %d", i), "type %d depth %d %d %v shift %d name %q premultiplied %v cfa %d", e.typ, e.depth, e.exp, e.exp > 0, e.shift, e.name, e.premult, e.cfa)
		nums(fmt.Sprintf("spot colour %d", i), halfValue(e.spot[0]), halfValue(e.spot[1]), halfValue(e.spot[2]), halfValue(e.spot[3]))
	}
	text("alpha channels", "%s", strings.Join(alphas, " "))
	u := custom{white: 1, prim: 1, tf: 13}
	space, intent := 0, 1
	if !d.usual {
		space = d.space
		if !d.icc {
			u = *c
			intent = d.intent
			if space == 2 {
				u.white, u.prim = 1, 1
			}
			if space == 1 {
				u.prim = 1
			}
		}
	}
	text("colour space", "%d profile %v", space, !d.usual && d.icc)
	text("white point", "%d", u.white)
	text("primaries", "%d", u.prim)
	to := u.places()
	if space != 2 {
		nums("white", to[0][0], to[0][1])
		if space != 1 {
			nums("primary colours", to[1][0], to[1][1], to[2][0], to[2][1], to[3][0], to[3][1])
		}
		tf := u.tf
		if !u.gamma {
			tf += 1 << 24
		}
		text("transfer function", "%d", tf)
	}
	text("intent", "%d", intent)
	if d.tone {
		nums("tone mapping", halfValue(d.target), halfValue(d.minNits), halfValue(d.below))
		text("relative", "%v", d.relative)
	} else {
		nums("tone mapping", 255, 0, 0)
		text("relative", "false")
	}
	text("extensions", "%x", d.key)
	for i, p := range d.payloads {
		if len(p) > 0 {
			text(fmt.Sprintf("extension %d", i), "%x", p)
		}
	}
	x := usualXYB()
	if d.transforms && c.opsin && d.xyb {
		x = c.opsinParams()
	}
	nums("matrix", append(append(append([]float64{}, x.m[0][:]...), x.m[1][:]...), x.m[2][:]...)...)
	nums("bias", x.bias[:]...)
	nums("quantiser bias", append(append([]float64{}, x.quants[:]...), x.numerator)...)
	for i := 1; i <= 3; i++ {
		var k *custom
		if d.transforms {
			k = c
		}
		nums(fmt.Sprintf("weights %d", i), k.upsampling(i)...)
	}
	text("profile", "%s", Digest(d.profile))
	return
}

// HeadFile makes a file that has nothing but a header, which may say anything.
func headFile(p Params) *Image {
	r := NewRng(p.Seed)
	h := &header{all: r.P(1, 12), more: r.P(3, 4), w: p.W, h: p.H, orientation: r.Range(1, 8), usual: r.P(1, 3), xyb: r.P(1, 2)}
	side := func() int {
		return r.Pick(1, 8, 64, 248, 256, 264, 511, 512, 513, 4096, 8191, 8192, 8193, r.Range(1, 70000))
	}
	if r.P(1, 3) {
		h.w, h.h = side(), side()
	}
	if r.P(1, 3) {
		k := ratios[r.Range(1, 7)]
		h.w = max(1, h.h*k[0]/k[1])
	}
	if h.w*h.h > 1<<30 { // more than is allowed
		h.w = max(1, 1<<30/h.h)
	}
	if r.P(1, 3) {
		h.intrinsic = [2]int{side(), side()}
		h.intrinsic[1] = min(h.intrinsic[1], 1<<30/h.intrinsic[0])
	}
	if r.P(1, 4) {
		h.preview = [2]int{r.Pick(8, 128, 256, 264, 512, 1, 64, 65, 320, 321, 1344, 1345, 4096, r.Range(1, 4096)), r.Pick(8, 128, 256, 264, 512, 1, 64, 65, 320, 321, 1344, 1345, 4096, r.Range(1, 4096))}
		if r.P(1, 3) {
			k := ratios[r.Range(1, 7)]
			h.preview[0] = min(4096, max(1, h.preview[1]*k[0]/k[1]))
		}
	}
	depth := func() (int, int) {
		if r.P(1, 4) {
			e := r.Range(2, 8)
			return r.Pick(16, 24, 32, r.Range(e+3, min(32, e+24))), e
		}
		return r.Pick(8, 10, 12, 1, 16, r.Range(1, 31)), 0
	}
	h.depth, h.exp = depth()
	h.narrow = r.P(1, 2)
	for n := r.Pick(0, 0, 1, 1, 2, 3, 5, 17, 18, 40); n > 0; n-- {
		e := extra{typ: r.Pick(0, 0, 1, 2, 3, 4, 5, 6, 15, 16), shift: r.Pick(0, 0, 0, 1, 2, 3, 4, 7)}
		e.depth, e.exp = depth()
		if r.P(1, 4) {
			e.depth, e.exp, e.shift = 8, 0, 0
		}
		if r.P(1, 2) {
			e.name = text(r, r.Pick(1, 5, 15, 16, 47, 48, 100, 1071))
		}
		e.premult = e.typ == 0 && r.P(1, 3)
		e.details(r)
		h.extras = append(h.extras, e)
	}
	h.icc = r.P(1, 3)
	h.space = r.Pick(0, 0, 0, 1, 2, 3)
	h.intent = r.N(4)
	p.Gray = false
	h.colours = p.custom(true)
	h.tone, h.target, h.minNits, h.relative, h.below = r.P(1, 2), r.Pick(0x5C00, 0x63D0, 0x5BF8), r.Pick(0, 0x2E66, 0x3C00, r.N(0x5800)), r.P(1, 2), r.Pick(0, 0x3800, r.N(0x3C00))
	if r.P(1, 2) {
		h.ext = r.Split()
	}
	h.transforms = r.P(1, 2)
	w := &BitWriter{}
	h.write(w, r, true, p.Code)
	im := &Image{W: h.w, H: h.h, HeaderLen: len(w.B), Head: h.fields(), Profile: h.profile, Alpha: -1}
	if !h.all && h.more && h.orientation > 4 {
		im.W, im.H = h.h, h.w
	}
	for n := r.Range(0, 40); n > 0; n-- {
		w.Bits(r.Next()&255, 8)
	}
	im.Codestream = w.B
	return im
}

func (im *Image) writeHeader(w *BitWriter, p *Params, xyb bool) {
	h := p.header(xyb)
	h.write(w, p.headRng(2), p.Head&HeadSize != 0, p.Code)
	im.Head, im.Profile = h.fields(), h.profile
	if xyb {
		im.Profile = nil // exports are of the colours themselves
	}
	im.Shown = h.shown()
}

// Shown tells how the colours of an image become those of an export in sRGB.
type Shown struct {
	Linear bool          // samples are linear light, in the colour space of the image
	M      [3][3]float64 // to linear sRGB
	Same   bool          // which is that of the image
	HDR    bool          // not meant for sRGB
	Sure   bool          // every export is possible
}

func (h *header) shown() *Shown {
	c := &custom{white: 1, prim: 1, tf: 13}
	if !h.usual && !h.icc {
		c = h.colours
	}
	if h.space == 1 {
		d := *c
		d.prim = 1
		c = &d
	}
	s := &Shown{Linear: h.xyb, M: c.fromSRGB().inverse()}
	s.Same = c.white == 1 && c.prim == 1
	s.HDR = !c.gamma && (c.tf == 8 || c.tf == 16 || c.tf == 18) || c.prim == 2 || c.prim == 9
	s.Sure = h.icc || h.xyb || c.white == 1 && c.prim == 1 && c.tf == 13 && !c.gamma
	return s
}

// Showable tells whether every export of images like that is possible.
func (p *Params) Showable() bool {
	s := p.header(p.VarDCT != nil && p.VarDCT.YCC == 0).shown()
	return s.Sure && !s.HDR && !p.Premult
}

// SDR tells whether images like that are meant for sRGB.
func (p *Params) SDR() bool { return !p.header(p.VarDCT != nil && p.VarDCT.YCC == 0).shown().HDR }
