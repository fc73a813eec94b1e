package gen

// Embedded colour profiles. They are made as the commands that describe them,
// together with the bytes that those stand for.

var profileTags = []string{
	"cprt", "wtpt", "bkpt", "rXYZ", "gXYZ", "bXYZ", "kXYZ", "rTRC", "gTRC", "bTRC",
	"kTRC", "chad", "desc", "chrm", "dmnd", "dmdd", "lumi",
}

var profileTypes = []string{"XYZ ", "desc", "text", "mluc", "para", "curv", "sf32", "gbd "}

func varint(b []byte, v int) []byte {
	for v > 127 {
		b = append(b, byte(v)|128)
		v >>= 7
	}
	return append(b, byte(v))
}

func be32(b []byte, v int) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

// profile is one in the making.
type profile struct {
	r    *Rng
	out  []byte // what it is
	cmds []byte
	data []byte
}

// shuffled puts bytes in the order in which they are stored: that of a matrix
// of so many rows. What is missing at its end is left out when it is turned.
func shuffled(b []byte, rows int) []byte {
	o := make([]byte, len(b))
	step := (len(b) + rows - 1) / rows
	at, first := 0, 0
	for _, v := range b {
		o[at] = v
		if at += step; at >= len(b) {
			first++
			at = first
		}
	}
	return o
}

func (p *profile) some(n int) []byte {
	b := make([]byte, n)
	kind := p.r.N(4)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(p.r.Next())
		case 1:
			b[i] = byte(p.r.Pick(0, 1, 2, 15, 16, 200, 240, 241, 254, 255))
		case 2:
			b[i] = "abzAZ09., -"[p.r.N(11)]
		default:
			b[i] = byte(i * 3)
		}
	}
	return b
}

func (p *profile) tags() {
	r := p.r
	if r.P(1, 8) {
		p.cmds = varint(p.cmds, 0)
		return
	}
	n := r.Pick(0, 1, 3, 9, r.N(20))
	p.cmds = varint(p.cmds, n+1)
	p.out = be32(p.out, n)
	start, size := 128+12*n, 0
	for i := r.N(n + 1); i > 0; i-- {
		code := r.Pick(1, 2, 3, r.Range(4, 20), r.Range(4, 20))
		var names []string
		switch code {
		case 1:
			b := p.some(4)
			p.data = append(p.data, b...)
			names = []string{string(b)}
		case 2:
			names = []string{"rTRC", "gTRC", "bTRC"}
		case 3:
			names = []string{"rXYZ", "gXYZ", "bXYZ"}
		default:
			names = []string{profileTags[code-4]}
		}
		cmd := code
		var tail []byte
		s := start + size
		if r.P(1, 3) {
			cmd |= 64
			s = r.Pick(r.N(200), r.N(1<<20), r.N(1<<28))
			tail = varint(tail, s)
		}
		switch names[0] {
		case "rXYZ", "gXYZ", "bXYZ", "kXYZ", "wtpt", "bkpt", "lumi":
			size = 20
		}
		if r.P(1, 3) {
			cmd |= 128
			size = r.Pick(r.N(200), r.N(1<<20))
			tail = varint(tail, size)
		}
		p.cmds = append(append(p.cmds, byte(cmd)), tail...)
		start = s
		for k, name := range names {
			at := s
			if code == 3 {
				at += k * size
			}
			p.out = be32(be32(append(p.out, name...), at), size)
		}
	}
}

func (p *profile) content() {
	r := p.r
	n := r.Pick(0, 1, 16, 33, r.N(200))
	switch k := r.Pick(1, 2, 3, 4, 4, 4, 10, 16); k {
	case 1:
		b := p.some(n)
		p.cmds = varint(append(p.cmds, 1), n)
		p.data = append(p.data, b...)
		p.out = append(p.out, b...)
	case 2, 3:
		b := p.some(n)
		p.cmds = varint(append(p.cmds, byte(k)), n)
		p.data = append(p.data, shuffled(b, 2*k-2)...)
		p.out = append(p.out, b...)
	case 4:
		width, order := r.Pick(1, 2, 4), r.N(3)
		stride := width
		flags := width - 1 | order<<2
		if r.P(1, 2) && 4*(width+12) < len(p.out) {
			stride = width + r.N(13)
			flags |= 16
		}
		p.cmds = append(p.cmds, 4, byte(flags))
		if flags&16 != 0 {
			p.cmds = varint(p.cmds, stride)
		}
		p.cmds = varint(p.cmds, n)
		b := p.some(n)
		p.data = append(p.data, shuffled(b, width)...)
		from := len(p.out)
		for i := range b {
			at := from + i - i%width // of the number
			num := func(back int) (v uint32) {
				for k := 0; k < width; k++ {
					v = v<<8 | uint32(p.out[at-back*stride+k])
				}
				return
			}
			var v uint32
			switch order {
			case 0:
				v = num(1)
			case 1:
				v = 2*num(1) - num(2)
			default:
				v = 3*num(1) - 3*num(2) + num(3)
			}
			p.out = append(p.out, b[i]+byte(v>>uint(8*(width-1-i%width))))
		}
	case 10:
		b := p.some(12)
		p.cmds = append(p.cmds, 10)
		p.data = append(p.data, b...)
		p.out = append(append(p.out, "XYZ \x00\x00\x00\x00"...), b...)
	default:
		t := r.N(8)
		p.cmds = append(p.cmds, byte(16+t))
		p.out = append(append(p.out, profileTypes[t]...), 0, 0, 0, 0)
	}
}

// newProfile makes one, and what is stored of it.
func newProfile(r *Rng) (plain, stored []byte) {
	p := &profile{r: r}
	p.out = make([]byte, 128)
	for i := range p.out {
		if r.P(1, 4) {
			p.out[i] = byte(r.Next())
		}
	}
	if r.P(3, 4) {
		copy(p.out[12:], "mntrRGB XYZ ")
		copy(p.out[36:], "acsp")
		p.out[8], p.out[70], p.out[71], p.out[73], p.out[78], p.out[79] = 4, 246, 214, 1, 211, 45
	}
	copy(p.out[40:], r.PickS("APPL", "MSFT", "SGI ", "SUNW", "ABCD", "SXYZ", "\x00\x00\x00\x00"))
	if r.P(1, 2) {
		copy(p.out[80:84], p.out[4:8])
	}
	if !r.P(1, 10) {
		p.tags()
		n := r.Pick(0, 1, 3, 10)
		if n > 0 && p.cmds[0] != 0 {
			p.cmds = append(p.cmds, 0) // the end of the tags
		}
		for ; n > 0; n-- {
			p.content()
		}
	}
	if r.P(3, 4) {
		copy(p.out, be32(nil, len(p.out)))
	}
	var guess [128]byte
	copy(guess[:], be32(nil, len(p.out)))
	copy(guess[12:], "mntrRGB XYZ ")
	copy(guess[36:], "acsp")
	guess[8], guess[70], guess[71], guess[73], guess[78], guess[79] = 4, 246, 214, 1, 211, 45
	copy(guess[80:84], p.out[4:8])
	switch {
	case p.out[40] == 'A':
		copy(guess[41:], "PPL")
	case p.out[40] == 'M':
		copy(guess[41:], "SFT")
	case p.out[40] == 'S' && p.out[41] == 'G':
		copy(guess[42:], "I ")
	case p.out[40] == 'S' && p.out[41] == 'U':
		copy(guess[42:], "NW")
	}
	stored = varint(varint(nil, len(p.out)), len(p.cmds))
	stored = append(stored, p.cmds...)
	for i, g := range guess {
		stored = append(stored, p.out[i]-g)
	}
	return p.out, append(stored, p.data...)
}

func profileContext(b []byte, i int) int {
	if i <= 128 {
		return 0
	}
	class := func(v byte) int {
		switch {
		case v >= 'a' && v <= 'z' || v >= 'A' && v <= 'Z':
			return 0
		case v >= '0' && v <= '9' || v == '.' || v == ',':
			return 1
		}
		return 2
	}
	x, y := b[i-1], b[i-2]
	k, l := class(x), class(y)
	if k == 2 {
		switch {
		case x <= 1:
			k = 2 + int(x)
		case x < 16:
			k = 4
		case x == 255:
			k = 6
		case x > 240:
			k = 5
		default:
			k = 7
		}
	}
	if l == 2 {
		switch {
		case y < 16:
		case y > 240:
			l = 3
		default:
			l = 4
		}
	}
	return 1 + k + 8*l
}

func writeProfile(w *BitWriter, r *Rng, kinds int) []byte {
	plain, stored := newProfile(r)
	w.U64(uint64(len(stored)))
	code := newCoder(r, kinds, 41, r.Pick(1, 2, 5, 10))
	code.header(w)
	s := code.open(w, 0)
	for i, b := range stored {
		s.sym(profileContext(stored, i), uint32(b))
	}
	return plain
}
