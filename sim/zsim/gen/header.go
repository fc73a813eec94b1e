package gen

// Headers.

// What the headers may say, Params.Head
const (
	HeadSize   = 1 << iota // sizes in all forms, tone mapping
	HeadExtra              // kinds, names and depths of the extra channels
	HeadExt                // extensions, names of frames
	HeadColour             // colour encodings said in full
	HeadCustom             // colours, matrices and weights other than the usual ones
	HeadICC                // an embedded colour profile
)

// extra describes an extra channel.
type extra struct {
	typ, depth int
	name       string
	exp        int // bits of the exponent, if it is not of whole numbers
	shift      int
	premult    bool
	spot       [4]int // halves
	cfa        int
}

func (p *Params) headRng(salt uint64) *Rng { return NewRng(p.Seed ^ salt<<40) }

func text(r *Rng, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + r.N(26))
	}
	return string(b)
}

func (p *Params) extras() []extra {
	es := make([]extra, p.Extra)
	r := p.headRng(1)
	for i := range es {
		e := &es[i]
		e.depth = p.Bits
		if i > 0 {
			e.typ = 1
		}
		if p.Head&HeadExtra != 0 {
			if i > 0 || r.P(1, 2) {
				e.typ = r.Pick(0, 0, 0, 1, 2, 3, 5, 6, 15, 16)
			}
			if r.P(1, 2) {
				e.depth = r.Pick(1, 4, 8, 8, 10, 12, 16)
			}
			if r.P(1, 2) {
				e.name = text(r, r.Pick(1, 5, 15, 16, 47, 48, 100))
			}
		}
		e.details(p.headRng(uint64(20 + i)))
		e.premult = e.typ == 0 && p.Premult
	}
	return es
}

func (p *Params) isAlpha(i int) bool { return p.extras()[i].typ == 0 }

// depths are the bits per sample of all channels.
func (p *Params) depths() []int {
	d := make([]int, p.nchan())
	for c := range d {
		d[c] = p.Bits
	}
	for i, e := range p.extras() {
		d[len(d)-p.Extra+i] = e.depth
	}
	return d
}

func writeName(w *BitWriter, s string) {
	w.U32(uint64(len(s)), [8]int{0, 0, 0, 4, 16, 5, 48, 10})
	for i := range s {
		w.Bits(uint64(s[i]), 8)
	}
}

var ratios = [8][2]int{{}, {1, 1}, {6, 5}, {4, 3}, {3, 2}, {16, 9}, {5, 4}, {2, 1}}

func writeSize(w *BitWriter, r *Rng, width, height int) {
	size := [8]int{1, 9, 1, 13, 1, 18, 1, 30}
	small := width%8 == 0 && height%8 == 0 && width <= 256 && height <= 256 && r.P(1, 2)
	ratio := 0
	for i := 1; i < 8 && r.P(3, 4); i++ {
		if height*ratios[i][0]/ratios[i][1] == width {
			ratio = i
		}
	}
	small = small || ratio != 0 && height%8 == 0 && height <= 256 && r.P(1, 2)
	put := func(v int) {
		if small {
			w.Bits(uint64(v/8-1), 5)
			return
		}
		// not always the shortest form
		for i := r.Pick(0, 0, 1, 2, 3); i < 4; i++ {
			if v <= 1<<uint(size[2*i+1]) {
				w.Bits(uint64(i), 2)
				w.Bits(uint64(v-1), size[2*i+1])
				return
			}
		}
	}
	w.Bool(small)
	put(height)
	w.Bits(uint64(ratio), 3)
	if ratio == 0 {
		put(width)
	}
}
