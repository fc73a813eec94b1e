package gen

// Params describes a generated image. Everything else follows from Seed.
type Params struct {
	Seed        uint64  `json:"seed"`
	W           int     `json:"w"`
	H           int     `json:"h"`
	Gray        bool    `json:"gray,omitempty"`
	Bits        int     `json:"bits,omitempty"`        // 8, 10, 12, 16
	Extra       int     `json:"extra,omitempty"`       // extra channels, the first one alpha
	Orientation int     `json:"orientation,omitempty"` // 1..8
	GroupShift  int     `json:"gshift,omitempty"`
	Passes      int     `json:"passes,omitempty"`
	RCT         int     `json:"rct,omitempty"` // rct type + 1
	Palette     bool    `json:"palette,omitempty"`
	Squeeze     bool    `json:"squeeze,omitempty"`
	Tree        int     `json:"tree,omitempty"` // depth
	LocalTree   bool    `json:"localtree,omitempty"`
	Permute     bool    `json:"permute,omitempty"`
	Pattern     int     `json:"pattern,omitempty"`
	Frames      int     `json:"frames,omitempty"` // additional frames over the first one
	Filters     int     `json:"filters,omitempty"`
	VarDCT      *VarDCT `json:"vardct,omitempty"`
	Code        int     `json:"code,omitempty"`     // kinds of entropy codes
	Pred        int     `json:"pred,omitempty"`     // kinds of prediction
	Xf          int     `json:"xf,omitempty"`       // kinds of transforms
	Comp        int     `json:"comp,omitempty"`     // kinds of composition of frames
	Head        int     `json:"head,omitempty"`     // what the headers may say
	HeadOnly    bool    `json:"headonly,omitempty"` // nothing but a header, which may say anything
	Premult     bool    `json:"premult,omitempty"`
	Ups         int     `json:"ups,omitempty"`       // upsampling by 1 << Ups
	WeightBit   bool    `json:"weightbit,omitempty"` // say that the weights of the channels are the usual ones
	Torn        []Torn  `json:"torn,omitempty"`
	Spoil       []Spoil `json:"spoil,omitempty"`
}

// Torn shortens the stored bytes of one section. Len is the number of bytes
// kept.
type Torn struct {
	Frame   int `json:"frame"`
	Section int `json:"section"`
	Len     int `json:"len"`
}

// Section is one independently stored part of a frame.
type Section struct {
	Frame, Index int
	Kind         string // all, lfglobal, lfgroup, hfglobal, pass
	Off, Len     int    // as stored
	Full         int    // length before tearing
}

// Image is a generated file.
type Image struct {
	Codestream []byte
	HeaderLen  int
	W, H       int // oriented
	// Pixels are the exact samples per channel, rows top-down, or nil when the
	// image is not lossless.
	Pixels [][]int32
	// Samples are the samples from 0 to 1, in the same order, where they are not
	// whole numbers. A decoder need not give them to the last bit.
	Samples [][]float32
	// Look are the samples of a lossy image and how far off they may be. Those
	// that are no numbers are not certain.
	Look, Off []*Plane
	// Rough are the colours without adaptive smoothing, if it is on.
	Rough    []*Plane
	Colours  int
	Bits     int
	Depths   []int   // bits of each channel
	Alpha    int     // number of the extra channel that is alpha, or -1
	Tol      float64 // how far off samples may be, if not usual
	Summed   bool    // samples may be sums of others
	Sections []Section
	MustFail bool // a section is torn so far that it cannot be decoded
	Lossy    bool
	Head     []Field // what the header says
	Profile  []byte  // the embedded colour profile
	Shown    *Shown
}

type frame struct {
	typ        int // 0 regular, 2 reference only
	crop       bool
	x, y, w, h int
	cw, ch     int     // size when it is upsampled
	blends     []blend // of the colours and the extra channels
	last       bool
	save       int
	ups        int
	pix        []*channel
}

func (p *Params) nchan() int {
	if p.Gray {
		return 1 + p.Extra
	}
	return 3 + p.Extra
}

// Channels is the number of channels of the image.
func (p *Params) Channels() int { return p.nchan() }

func fill(r *Rng, p *Params, w, h int) []*channel {
	cs := make([]*channel, p.nchan())
	depths := p.depths()
	// a small set of colours, for palettes
	var pal [][]int32
	for i := 0; i < 17; i++ {
		k := make([]int32, len(cs))
		for c := range k {
			k[c] = int32(r.N(1 << uint(depths[c])))
		}
		pal = append(pal, k)
	}
	for i := range cs {
		cs[i] = newChannel(w, h, 0, 0)
	}
	a, b, q := r.Range(1, 9), r.Range(1, 9), r.Range(1, 50)
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			k := r.N(17)
			for c := range cs {
				var v int32
				maxv := int32(1)<<uint(depths[c]) - 1
				switch p.Pattern {
				case 0: // noise
					v = int32(r.Next()) & maxv
				case 1: // gradient
					v = int32(a*x+b*y+q*c) % (maxv + 1)
				case 2: // few colours
					v = pal[k][c]
				case 3: // blocks that name their position
					v = int32((x/16)*31+(y/16)*57+c*11+x%16*y%7) & maxv
				default: // gradient with spikes
					v = int32(a*x/2+b*y/2+q*c) % (maxv + 1)
					if k == 0 {
						v = maxv - v
					}
				}
				cs[c].d[y*w+x] = v
			}
		}
	}
	return cs
}

// exceed raises bright samples over the largest value, of alpha more than of others.
func exceed(r *Rng, p *Params, f *frame) {
	for c, ch := range f.pix {
		e := c - (len(f.pix) - p.Extra)
		alpha := e >= 0 && p.isAlpha(e)
		// with several alphas one may grow without bounds, and what lies over it be divided by less than 0
		if p.depths()[c] > 16 || alpha && (len(p.alphas()) > 1 || r.P(1, 4)) || !alpha && r.P(3, 4) {
			continue
		}
		bright := int32(int64(3) << uint(p.depths()[c]) / 4)
		for i, v := range ch.d {
			if v >= bright {
				ch.d[i] += v / 4
			}
		}
	}
}

func build(p Params) *Image {
	if p.Bits == 0 {
		p.Bits = 8
	}
	if p.Orientation == 0 {
		p.Orientation = 1
	}
	if p.Passes == 0 {
		p.Passes = 1
	}
	if p.HeadOnly {
		return headFile(p)
	}
	if p.VarDCT != nil {
		return buildVarDCT(p)
	}
	r := NewRng(p.Seed)
	im := &Image{Bits: p.Bits, Depths: p.depths(), Colours: p.nchan() - p.Extra, Alpha: -1}
	if a := p.alphas(); len(a) > 0 {
		im.Alpha = a[0]
	}
	w := &BitWriter{}
	im.writeHeader(w, &p, false)
	im.HeaderLen = len(w.B)

	k := newComposer(&p)
	for i, f := range k.plan(r) {
		q := p
		if i > 0 {
			q.Pattern = r.N(5)
		}
		f.pix = fill(r, &q, f.w, f.h)
		if i > 0 && p.Comp&CompModes != 0 && r.P(1, 2) {
			exceed(r, &p, f)
		}
		encodeFrame(w, &p, r.Split(), f, i, im)
		k.add(f)
	}
	im.Codestream = w.B
	if p.Filters>>1&3 == 0 || !p.Gray {
		k.finish(im)
	} else {
		// the filters are not defined well for one colour
		im.W, im.H = p.W, p.H
		if p.Orientation > 4 {
			im.W, im.H = p.H, p.W
		}
	}
	return im
}

// source tells where a sample of the oriented image comes from.
func source(x, y, w, h, o int) int {
	sx, sy := x, y
	switch o {
	case 2:
		sx = w - 1 - x
	case 3:
		sx, sy = w-1-x, h-1-y
	case 4:
		sy = h - 1 - y
	case 5:
		sx, sy = y, x
	case 6:
		sx, sy = y, h-1-x
	case 7:
		sx, sy = w-1-y, h-1-x
	case 8:
		sx, sy = w-1-y, x
	}
	return sy*w + sx
}

func writeFrameHeader(w *BitWriter, p *Params, f *frame, fi int, modular bool, xyb bool) {
	w.Bool(false)
	w.Bits(uint64(f.typ), 2)
	if modular {
		w.Bits(1, 1)
	} else {
		w.Bits(0, 1)
	}
	flags := uint64(0)
	if !modular {
		flags = 128 // skip adaptive LF smoothing
		if p.VarDCT != nil && p.VarDCT.Smooth {
			flags = 0
		}
	}
	w.U64(flags)
	if !xyb {
		ycc := 0
		if !modular {
			ycc = p.VarDCT.YCC
		}
		w.Bool(ycc > 0 && ycc < 5)
		if ycc > 0 && ycc < 5 {
			// how much more there is than of the channel with the least
			for c := 0; c < 3; c++ {
				m := 0
				if c == 1 {
					m = [5]int{0, 0, 1, 2, 3}[ycc]
				}
				w.Bits(uint64(m), 2)
			}
		}
	}
	w.Bits(uint64(f.ups), 2)
	for i := 0; i < p.Extra; i++ {
		w.Bits(uint64(f.ups), 2)
	}
	if modular {
		w.Bits(uint64(p.GroupShift), 2)
	}
	if xyb && !modular {
		x, b := 3, 2
		if p.VarDCT.Quant&QuantQM != 0 {
			q := NewRng(p.Seed + 3)
			x, b = q.N(8), q.N(8)
		}
		w.Bits(uint64(x), 3)
		w.Bits(uint64(b), 3)
	}
	if f.typ != 2 {
		w.U32(uint64(p.Passes), [8]int{1, 0, 2, 0, 3, 0, 4, 3})
		if p.Passes > 1 {
			nds := 0
			if p.Passes == 3 {
				nds = 1
			}
			w.U32(uint64(nds), [8]int{0, 0, 1, 0, 2, 0, 3, 1})
			for i := 0; i < p.Passes-1; i++ {
				w.Bits(0, 2)
			}
			if nds == 1 {
				w.Bits(1, 2) // downsampled by 2
				w.U32(0, [8]int{0, 0, 1, 0, 2, 0, 0, 3})
			}
		}
	}
	w.Bool(f.crop)
	dim := [8]int{0, 8, 256, 11, 2304, 14, 18688, 30}
	if f.crop {
		if f.typ != 2 {
			w.U32(uint64(pack(int32(f.x))), dim)
			w.U32(uint64(pack(int32(f.y))), dim)
		}
		w.U32(uint64(f.cw), dim)
		w.U32(uint64(f.ch), dim)
	}
	full := f.x <= 0 && f.y <= 0 && f.x+f.cw >= p.W && f.y+f.ch >= p.H
	normal := f.typ == 0 || f.typ == 3
	if normal {
		for i := 0; i < 1+p.Extra; i++ {
			var b blend
			if i < len(f.blends) {
				b = f.blends[i]
			}
			b.write(w, p.Extra > 0, full)
		}
		w.Bool(f.last)
	}
	if !f.last {
		w.Bits(uint64(f.save), 2)
	}
	if f.typ == 2 || full && normal && !f.last && (len(f.blends) == 0 || f.blends[0].mode == 0) {
		w.Bool(false) // saved after the colour transform
	}
	var er *Rng
	if p.Head&HeadExt != 0 {
		er = p.headRng(uint64(5 + fi))
		writeName(w, text(er, er.Pick(0, 3, 15, 16, 47, 48, 60)))
	} else {
		writeName(w, "")
	}
	// restoration filters
	if p.VarDCT != nil && p.VarDCT.Default {
		w.Bool(true)
	} else {
		w.Bool(false)
		p.filters().write(w, p, modular)
		(&header{ext: er}).writeExtensions(w)
	}
	(&header{ext: er}).writeExtensions(w)
}

// writeTOC writes the section table and then the sections.
func writeTOC(w *BitWriter, p *Params, r *Rng, fi int, secs []*BitWriter, kinds []string, im *Image) {
	n := len(secs)
	bodies := make([][]byte, n)
	for i, s := range secs {
		s.Resolve()
		s.Pad()
		bodies[i] = s.B
		full := len(s.B)
		for _, t := range p.Torn {
			if t.Frame == fi && t.Section == i && t.Len < full {
				bodies[i] = s.B[:t.Len]
				if t.Len+16 <= full {
					im.MustFail = true
				}
			}
		}
		im.Sections = append(im.Sections, Section{Frame: fi, Index: i, Kind: kinds[i], Len: len(bodies[i]), Full: full})
	}
	order := make([]int, n) // order[k]: section stored at place k
	for i := range order {
		order[i] = i
	}
	if p.Permute && n > 1 {
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	w.Bool(p.Permute && n > 1)
	if p.Permute && n > 1 {
		// place[i]: where section i is stored
		place := make([]int, n)
		for k, i := range order {
			place[i] = k
		}
		o := &BitWriter{}
		c := newCoder(r, p.Code, 8, 8)
		c.header(o)
		writePermutation(c.open(o, 0), place, 0)
		o.Resolve()
		w.Append(o)
	}
	w.Pad()
	for _, i := range order {
		w.U32(uint64(len(bodies[i])), [8]int{0, 10, 1024, 14, 17408, 22, 4211712, 30})
	}
	w.Pad()
	first := len(im.Sections) - n
	for _, i := range order {
		im.Sections[first+i].Off = len(w.B)
		w.B = append(w.B, bodies[i]...)
		w.n = 8 * len(w.B)
	}
}

func encodeFrame(w *BitWriter, p *Params, r *Rng, f *frame, fi int, im *Image) {
	if f.typ == 2 {
		q := *p
		q.Passes = 1
		p = &q
	}
	writeFrameHeader(w, p, f, fi, true, false)
	gd := 128 << uint(p.GroupShift)
	gw, gh := (f.w+gd-1)/gd, (f.h+gd-1)/gd
	lgd := gd * 8
	lw, lh := (f.w+lgd-1)/lgd, (f.h+lgd-1)/lgd
	numG, numLF := gw*gh, lw*lh

	m := &image{p: p, r: r, wps: newWP(r, p), raw: true}
	for _, c := range f.pix {
		m.cs = append(m.cs, c.crop(0, 0, c.w, c.h))
	}
	colours := len(m.cs) - p.Extra
	local := false
	if p.Pred&PredMultiply == 0 {
		if p.Xf&XfPalette != 0 && r.P(2, 3) {
			b := r.N(min(2, len(m.cs)))
			m.palette(b, r.Range(1, len(m.cs)-b), r.Pick(4, 30, 300, 1000), r.P(2, 3), true)
		}
		if p.RCT > 0 && colours == 3 {
			m.rct(m.meta, p.RCT-1)
		}
		if p.Palette {
			m.palette(m.meta, min(colours, m.alike(m.meta)), 1000, false, false)
		}
		if p.Xf&XfStack != 0 {
			m.stack(r.Range(1, 4))
		}
		if p.Squeeze && (m.meta == 0 || p.Xf != 0) && m.whole() {
			m.squeeze(nil)
		}
		local = p.Xf&XfGroups != 0
	}
	cs, meta := m.cs, m.meta
	maxStream := 18 + 3*numLF + numG*p.Passes
	glob := newTree(r, p, maxStream)
	// stream writes channels as they are after the transforms
	stream := func(b *BitWriter, m *image, cs []*channel, k int) {
		t := glob
		b.Bool(!p.LocalTree)
		m.wps.write(b)
		b.U32(uint64(len(m.xs)), [8]int{0, 0, 1, 0, 2, 4, 18, 8})
		for _, x := range m.xs {
			x.write(b)
		}
		if p.LocalTree {
			t = newTree(r, p, maxStream)
			t.write(b)
		}
		t.encode(b, cs, k, m.wps)
	}
	var secs []*BitWriter
	var kinds []string
	lfg := &BitWriter{}
	lfg.Bool(true) // default dequantisation
	lfg.Bool(!p.LocalTree)
	if !p.LocalTree {
		glob.write(lfg)
	}
	done := 0
	for i, c := range cs {
		if i >= meta && (c.w > gd || c.h > gd) {
			break
		}
		done = i + 1
	}
	stream(lfg, m, cs[:done], 0)
	secs, kinds = append(secs, lfg), append(kinds, "lfglobal")
	// part writes the channels that pick selects, cropped to one group.
	part := func(k, gx, gy, dim int, pick func(c *channel) bool) *BitWriter {
		b := &BitWriter{}
		g := &image{p: p, r: r, wps: newWP(r, p), raw: m.raw}
		for _, c := range cs[done:] {
			if !pick(c) {
				continue
			}
			dw, dh := dim>>uint(c.hs), dim>>uint(c.vs)
			x0, y0 := gx*dw, gy*dh
			if dw == 0 || dh == 0 {
				panic("generator: a channel without parts")
			}
			if x0 >= c.w || y0 >= c.h {
				continue // nothing of it in this group
			}
			g.cs = append(g.cs, c.crop(x0, y0, min(dw, c.w-x0), min(dh, c.h-y0)))
		}
		if len(g.cs) == 0 {
			return b
		}
		if local {
			g.stack(r.N(3))
		}
		stream(b, g, g.cs, k)
		return b
	}
	isLF := func(c *channel) bool { return c.hs >= 3 && c.vs >= 3 }
	for g := 0; g < numLF; g++ {
		secs = append(secs, part(1+numLF+g, g%lw, g/lw, lgd, isLF))
		kinds = append(kinds, "lfgroup")
	}
	secs, kinds = append(secs, &BitWriter{}), append(kinds, "hfglobal")
	for ps := 0; ps < p.Passes; ps++ {
		// shifts of the channels that belong to this pass: [lo, hi)
		lo, hi := 0, 3
		switch {
		case p.Passes == 2 && ps == 0:
			lo = 3
		case p.Passes == 3 && ps == 0:
			lo = 1
		case p.Passes == 3 && ps == 1:
			lo, hi = 1, 1
		case p.Passes == 3 && ps == 2:
			hi = 1
		case p.Passes > 3 && ps < p.Passes-1:
			lo = 3
		}
		for g := 0; g < numG; g++ {
			secs = append(secs, part(18+3*numLF+numG*ps+g, g%gw, g/gw, gd, func(c *channel) bool {
				m := min(c.hs, c.vs)
				return !isLF(c) && m >= lo && m < hi
			}))
			kinds = append(kinds, "pass")
		}
	}
	if numG == 1 && p.Passes == 1 {
		all := &BitWriter{}
		for _, s := range secs {
			all.Append(s)
		}
		secs, kinds = []*BitWriter{all}, []string{"all"}
	}
	writeTOC(w, p, r, fi, secs, kinds, im)
}
