package gen

import "encoding/binary"

// Box is one box of a container file.
type Box struct {
	Type string `json:"type"`
	// jxlc and jxlp boxes hold bytes From up to To of the codestream.
	From int `json:"from,omitempty"`
	To   int `json:"to,omitempty"`
	// other boxes hold Fill bytes of filler.
	Fill int `json:"fill,omitempty"`
	// Form of the length: 0 normal, 1 extended, 2 to the end of the file.
	Form int `json:"form,omitempty"`
	// Lie, when not nil, is stored instead of the true length.
	Lie *uint64 `json:"lie,omitempty"`
}

// Layout is a container around a codestream.
type Layout struct {
	Boxes []Box `json:"boxes"`
}

var signature = []byte{0, 0, 0, 12, 'J', 'X', 'L', ' ', 13, 10, 0x87, 10}
var filetype = []byte{0, 0, 0, 20, 'f', 't', 'y', 'p', 'j', 'x', 'l', ' ', 0, 0, 0, 0, 'j', 'x', 'l', ' '}

// Wrap puts the codestream into the container.
func (l *Layout) Wrap(cs []byte) []byte {
	out := append([]byte{}, signature...)
	out = append(out, filetype...)
	part := uint32(0)
	lastPart := -1
	for i, b := range l.Boxes {
		if b.Type == "jxlp" {
			lastPart = i
		}
	}
	for i, b := range l.Boxes {
		var body []byte
		switch b.Type {
		case "jxlc":
			body = cs[clampi(b.From, len(cs)):clampi(b.To, len(cs))]
		case "jxlp":
			n := part
			if i == lastPart {
				n |= 1 << 31
			}
			part++
			body = binary.BigEndian.AppendUint32(nil, n)
			body = append(body, cs[clampi(b.From, len(cs)):clampi(b.To, len(cs))]...)
		case "jxll":
			body = []byte{5}
			if b.Fill == 10 {
				body[0] = 10
			}
		default:
			r := NewRng(uint64(b.Fill) + 77)
			body = make([]byte, b.Fill)
			for k := range body {
				body[k] = byte(r.Next())
			}
			// bait: something that looks like boxes
			if b.Fill >= 24 {
				copy(body[4:], "jxlc")
				copy(body[16:], []byte{0, 0, 0, 8, 'j', 'x', 'l', 'p'})
			}
		}
		size := uint64(len(body) + 8)
		if b.Form == 1 {
			size += 8
		}
		if b.Form == 2 {
			size = 0
		}
		if b.Lie != nil {
			size = *b.Lie
		}
		if b.Form == 1 {
			out = binary.BigEndian.AppendUint32(out, 1)
		} else {
			out = binary.BigEndian.AppendUint32(out, uint32(size))
		}
		out = append(out, b.Type...)
		if b.Form == 1 {
			out = binary.BigEndian.AppendUint64(out, size)
		}
		out = append(out, body...)
	}
	return out
}

func clampi(v, n int) int { return max(0, min(v, n)) }

// RandomLayout makes a valid container for a codestream of n bytes.
func RandomLayout(r *Rng, n int) *Layout {
	l := &Layout{}
	other := func(where int) {
		k := r.Pick(0, 0, 0, 1, 1, 2, 3)
		for i := 0; i < k; i++ {
			b := Box{Type: r.PickS("Exif", "xml ", "jumb", "brob", "uuid", "free", "jxli"), Fill: r.Pick(0, 0, 1, 7, 8, 24, 100, 255, 256, 1000, 4096, 70000)}
			if r.P(1, 4) {
				b.Form = 1
			}
			l.Boxes = append(l.Boxes, b)
		}
	}
	if r.P(1, 4) {
		l.Boxes = append(l.Boxes, Box{Type: "jxll", Fill: r.Pick(5, 10)})
	}
	other(0)
	parts := 1
	typ := "jxlc"
	if r.P(2, 3) {
		typ = "jxlp"
		parts = r.Pick(1, 2, 2, 3, 5, 9)
	}
	cuts := []int{0}
	for i := 1; i < parts; i++ {
		var c int
		switch r.N(4) {
		case 0:
			c = r.N(min(n, 24) + 1) // inside the header
		case 1:
			c = n - r.N(min(n, 16)+1)
		default:
			c = r.N(n + 1)
		}
		cuts = append(cuts, c)
	}
	cuts = append(cuts, n)
	for i := range cuts { // sort
		for j := i; j > 0 && cuts[j] < cuts[j-1]; j-- {
			cuts[j], cuts[j-1] = cuts[j-1], cuts[j]
		}
	}
	for i := 0; i < parts; i++ {
		b := Box{Type: typ, From: cuts[i], To: cuts[i+1]}
		b.Form = r.Pick(0, 0, 0, 1)
		l.Boxes = append(l.Boxes, b)
		if i+1 < parts && r.P(1, 3) {
			other(1)
		}
	}
	if r.P(1, 3) {
		l.Boxes[len(l.Boxes)-1].Form = 2
	} else {
		other(2)
		if len(l.Boxes) > 0 && r.P(1, 4) {
			l.Boxes[len(l.Boxes)-1].Form = 2
		}
	}
	return l
}

// Mut is one damage to stored bytes.
type Mut struct {
	K   string `json:"k"` // trunc, flip, set, zero, ones, dup, del, ins, rand
	At  int    `json:"at"`
	N   int    `json:"n,omitempty"`
	Val uint64 `json:"val,omitempty"`
}

// Apply damages a copy of the data.
func Apply(data []byte, ms []Mut) []byte {
	d := append([]byte{}, data...)
	for _, m := range ms {
		at := clampi(m.At, len(d))
		end := clampi(m.At+m.N, len(d))
		switch m.K {
		case "trunc":
			d = d[:at]
		case "flip":
			if at < len(d) {
				d[at] ^= byte(m.Val)
			}
		case "set":
			if at < len(d) {
				d[at] = byte(m.Val)
			}
		case "zero":
			for i := at; i < end; i++ {
				d[i] = 0
			}
		case "ones":
			for i := at; i < end; i++ {
				d[i] = 255
			}
		case "rand":
			r := NewRng(m.Val)
			for i := at; i < end; i++ {
				d[i] = byte(r.Next())
			}
		case "dup":
			x := append([]byte{}, d[at:end]...)
			d = append(d[:end:end], append(x, d[end:]...)...)
		case "del":
			d = append(d[:at:at], d[end:]...)
		case "ins":
			r := NewRng(m.Val)
			x := make([]byte, m.N)
			for i := range x {
				x[i] = byte(r.Next())
			}
			d = append(d[:at:at], append(x, d[at:]...)...)
		}
	}
	return d
}

// RandomMuts damages a file of n bytes, starting at byte from.
func RandomMuts(r *Rng, n, from int) []Mut {
	var ms []Mut
	k := r.Pick(1, 1, 1, 2, 3, 8)
	for i := 0; i < k; i++ {
		at := from
		if n > from {
			switch r.N(3) {
			case 0:
				at = from + r.N(min(n-from, 64))
			default:
				at = from + r.N(n-from)
			}
		}
		m := Mut{K: r.PickS("flip", "flip", "flip", "set", "zero", "ones", "rand", "dup", "del", "ins", "trunc"), At: at}
		switch m.K {
		case "flip":
			m.Val = 1 << uint(r.N(8))
		case "set":
			m.Val = uint64(r.Pick(0, 255, 127, 128, 1, r.N(256)))
		case "trunc":
			if i > 0 {
				continue
			}
		default:
			m.N = r.Pick(1, 1, 2, 4, 16, 64, 300)
			m.Val = r.Next() & 0xffffff
		}
		ms = append(ms, m)
	}
	return ms
}
