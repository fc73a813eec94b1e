package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"JXLMOD/zsim/gen"
	"JXLMOD/zsim/spec"
)

// ---- knowledge of the inputs ----

var (
	memoMu sync.Mutex
	memoG  = map[string]*gen.Image{}
	memoF  = map[string][]byte{}
)

func built(p *gen.Params) *gen.Image {
	b, _ := json.Marshal(p)
	memoMu.Lock()
	im := memoG[string(b)]
	memoMu.Unlock()
	if im != nil {
		return im
	}
	q := *p
	if q.VarDCT != nil {
		q.VarDCT = cp(q.VarDCT)
		q.VarDCT.Known = false // not needed here
	}
	im = gen.Build(q)
	// the samples are not needed here
	im.Pixels = nil
	memoMu.Lock()
	if len(memoG) > 2000 {
		memoG = map[string]*gen.Image{}
	}
	memoG[string(b)] = im
	memoMu.Unlock()
	return im
}

// codestreamOf gives the bytes of an input before layout and damage.
func codestreamOf(in spec.Input) []byte {
	switch {
	case in.Gen != nil:
		return built(in.Gen).Codestream
	case in.File != "":
		memoMu.Lock()
		defer memoMu.Unlock()
		if b := memoF[in.File]; b != nil {
			return b
		}
		p := in.File
		if !filepath.IsAbs(p) {
			p = filepath.Join(verifDir, p)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			broken("%v", err)
		}
		memoF[in.File] = b
		return b
	}
	return in.B64
}

// dataOf gives the bytes of an input before damage.
func dataOf(in spec.Input) []byte {
	d := codestreamOf(in)
	if in.Layout != nil {
		d = in.Layout.Wrap(d)
	}
	if in.Pad > 0 {
		d = append(append([]byte{}, d...), make([]byte, in.Pad)...)
	}
	return d
}

func mustFail(in spec.Input) bool { return in.Gen != nil && built(in.Gen).MustFail }

func tornText(in spec.Input) string {
	var s []string
	for _, t := range in.Gen.Torn {
		kind, full := "?", 0
		for _, x := range built(in.Gen).Sections {
			if x.Frame == t.Frame && x.Index == t.Section {
				kind, full = x.Kind, x.Full
			}
		}
		s = append(s, fmt.Sprintf("frame %d section %d (%s) has %d of %d bytes", t.Frame, t.Section, kind, t.Len, full))
	}
	return strings.Join(s, ", ")
}

func lies(in spec.Input) bool {
	if in.Layout != nil {
		for _, b := range in.Layout.Boxes {
			if b.Lie != nil {
				return true
			}
		}
	}
	return false
}

// impossible tells whether a box before the end of the codestream has a length
// that no box can have.
func impossible(in spec.Input) bool {
	if in.Layout == nil {
		return false
	}
	last := 0
	for i, b := range in.Layout.Boxes {
		if b.Type == "jxlc" || b.Type == "jxlp" {
			last = i
		}
	}
	for i, b := range in.Layout.Boxes {
		if b.Lie == nil || i > last {
			continue
		}
		v := *b.Lie
		if b.Form == 1 && v < 16 || b.Form != 1 && uint32(v) > 1 && uint32(v) < 8 {
			return true
		}
	}
	return false
}

func layoutText(in spec.Input) string {
	if in.Layout == nil {
		return "bare"
	}
	var s []string
	for _, b := range in.Layout.Boxes {
		t := strings.TrimSpace(b.Type)
		if b.Type == "jxlc" || b.Type == "jxlp" {
			t += fmt.Sprintf("[%d:%d]", b.From, b.To)
		} else if b.Fill > 0 {
			t += fmt.Sprintf("(%d)", b.Fill)
		}
		if b.Form > 0 {
			t += []string{"", "+ext", "+eof"}[b.Form]
		}
		if b.Lie != nil {
			t += fmt.Sprintf("{length %d}", *b.Lie)
		}
		s = append(s, t)
	}
	return strings.Join(s, " ")
}

func ioName(p *spec.IO) string {
	if p == nil {
		return "full"
	}
	s := p.Mode
	if s == "" {
		s = "full"
	}
	if p.Zero > 0 {
		s += ", empty reads"
	}
	if p.EOFData {
		s += ", end of file with the last data"
	}
	if p.Lat > 0 {
		s += ", slow"
	}
	if p.NoSeek {
		s += ", no seeking"
	}
	for _, f := range p.Faults {
		s += fmt.Sprintf(", %s@%d", f.Kind, f.At)
		if f.Sticky {
			s += "+"
		}
	}
	return s
}

func inputName(in spec.Input) string {
	s := in.File
	if in.Gen != nil {
		b, _ := json.Marshal(in.Gen)
		s = "gen" + string(b)
	} else if s == "" {
		s = fmt.Sprintf("%d bytes", len(in.B64))
	}
	if in.Layout != nil {
		s += " in " + layoutText(in)
	}
	for _, m := range in.Muts {
		s += fmt.Sprintf(" %s@%d", m.K, m.At)
		if m.N > 0 {
			s += fmt.Sprintf("+%d", m.N)
		}
	}
	return s
}

// ---- making inputs ----

var fastFiles = []string{"art", "bbb-small", "tiny2", "grayscale", "lenna", "unittest-with-icc", "bbb-small", "tiny2", "lenna"}
var midFiles = []string{"delta_palette", "quilt", "alpha-triangles"}
var slowFiles = []string{"upsampling", "spot", "blendmodes_5", "bbb", "sunset_logo"}

func file(n string) spec.Input { return spec.Input{File: "corpus/" + n + ".jxl"} }

// corpus picks a file; cost is 0 fast, 1 medium, 2 any.
func corpus(r *gen.Rng, cost int) spec.Input {
	if cost >= 2 && r.P(1, 4) {
		return file(r.PickS(slowFiles...))
	}
	if cost >= 1 && r.P(1, 4) {
		return file(r.PickS(midFiles...))
	}
	return file(r.PickS(fastFiles...))
}

var edges = []int{1, 2, 7, 8, 9, 16, 63, 64, 65, 127, 128, 129, 130, 255, 256, 257, 258}

// params makes a generated image. size: tiny, small, edge, multi, lf, any.
func params(r *gen.Rng, size string) *gen.Params {
	p := &gen.Params{Seed: r.Next() & 0xffffffff, Pattern: r.N(5)}
	if size == "any" {
		size = r.PickS("tiny", "small", "small", "edge", "edge", "multi", "multi", "lf")
	}
	switch size {
	case "tiny":
		p.W, p.H = r.Range(1, 24), r.Range(1, 24)
	case "small":
		p.W, p.H = r.Range(1, 140), r.Range(1, 140)
	case "edge":
		p.W, p.H = r.Pick(edges...), r.Pick(edges...)
	case "multi":
		p.W, p.H = r.Range(129, 420), r.Range(100, 300)
		if r.P(1, 2) {
			p.W, p.H = p.H, p.W
		}
	case "lf":
		p.W, p.H = r.Pick(1023, 1024, 1025, 1030, 1100, 1290, 2049, 2060), r.Range(1, 30)
		if r.P(1, 2) {
			// high enough for squeezed channels that are stored in LF groups
			p.W, p.H = r.Pick(1025, 1030, 1100, 1290), r.Range(65, 150)
		}
		if r.P(1, 2) {
			p.W, p.H = p.H, p.W
		}
	}
	// swarm: every feature is off in most images
	on := func(n int) bool { return r.P(1, n) }
	p.Bits = 8
	if on(3) {
		p.Bits = r.Pick(10, 12, 16, 16, r.Range(1, 15), r.Range(17, 24))
	}
	p.Gray = on(6)
	if on(3) {
		p.Extra = r.Pick(1, 1, 2)
	}
	if on(3) {
		p.Orientation = r.Range(2, 8)
	}
	if on(3) {
		p.Passes = r.Pick(2, 2, 3, 3, 4, 5)
	}
	if on(2) {
		p.RCT = r.N(43)
	}
	p.Palette = on(4)
	p.Squeeze = on(3)
	p.Tree = r.Pick(0, 0, 1, 2, 3, 4)
	p.LocalTree = on(4)
	p.Permute = on(4)
	if on(4) {
		p.Frames = r.Pick(1, 1, 2, 3)
	}
	if on(6) {
		p.GroupShift = r.Pick(1, 1, 2)
	}
	if size == "lf" && min(p.W, p.H) > 64 {
		p.GroupShift = 0
		p.Squeeze = !on(4)
	}
	coded(r, p)
	if p.Bits > 18 {
		p.Pred &^= gen.PredWeighted // its state has 32 bits
	}
	headed(r, p)
	if p.Frames > 0 && on(2) || on(8) {
		composed(r, p, size)
	}
	return p
}

// headed picks what the headers say.
func headed(r *gen.Rng, p *gen.Params) {
	if r.P(1, 3) {
		p.Head = r.Range(1, 15)
		if p.Head&gen.HeadExtra != 0 && r.P(1, 2) {
			p.Extra = r.Range(1, 4)
		}
	}
	if r.P(1, 12) {
		p.Head |= gen.HeadICC
	}
}

// header makes a file of which only the header can be read.
func headerOnly(r *gen.Rng) spec.Input {
	p := &gen.Params{Seed: r.Next() & 0xffffffff, W: r.Range(1, 300), H: r.Range(1, 300), HeadOnly: true}
	p.Code = r.Pick(0, 15, r.N(16))
	return spec.Input{Gen: p}
}

// composed makes an image of frames that are laid over each other.
func composed(r *gen.Rng, p *gen.Params, size string) {
	p.Comp = r.Range(1, 31)
	p.Frames = r.Range(1, 4)
	if size == "multi" || size == "lf" {
		p.Frames = r.Range(1, 2)
	}
	if p.Extra == 0 && r.P(1, 2) {
		p.Extra = r.Range(1, 3)
	}
	p.Premult = p.Extra > 0 && r.P(1, 6)
}

// coded picks the ways in which the samples are coded.
func coded(r *gen.Rng, p *gen.Params) {
	mask := func(n, among int) int {
		if !r.P(1, n) {
			return 0
		}
		return r.Range(1, 1<<16) & among
	}
	p.Code = mask(2, 15)
	p.Pred = mask(2, 7)
	if p.VarDCT == nil {
		p.Xf = mask(3, 15)
		if r.P(1, 8) {
			p.Pred |= 8
		}
	}
}

func generated(r *gen.Rng, size string) spec.Input { return spec.Input{Gen: params(r, size)} }

// filtered adds the restoration filters, which run in row ranges.
func filtered(r *gen.Rng, size string) spec.Input {
	p := params(r, size)
	p.Filters = r.Range(1, 7)
	if p.Gray {
		p.Gray = false
	}
	return spec.Input{Gen: p}
}

// lossy makes a generated VarDCT image. size: small, multi, lf.
func lossy(r *gen.Rng, size string) spec.Input {
	p := &gen.Params{Seed: r.Next() & 0xffffffff, Pattern: r.N(5), VarDCT: &gen.VarDCT{}}
	switch size {
	case "small":
		p.W, p.H = r.Range(1, 120), r.Range(1, 120)
	case "multi":
		p.W, p.H = r.Pick(257, 264, 300, 340, 511, 520), r.Pick(8, 60, 130, 256, 257, 290)
		if r.P(1, 2) {
			p.W, p.H = p.H, p.W
		}
	case "lf":
		p.W, p.H = r.Pick(2049, 2056, 2080, 2310), r.Range(1, 24)
		if r.P(1, 2) {
			p.W, p.H = p.H, p.W
		}
	}
	v := p.VarDCT
	on := func(n int) bool { return r.P(1, n) }
	v.Smooth = on(4)
	v.Default = on(4)
	if !v.Default && on(3) {
		p.Filters = r.Range(1, 7)
	}
	v.Large = on(4)
	v.Orders = on(4)
	v.Presets = r.Pick(1, 1, 2, 3)
	v.Loose = on(6)
	v.Sparse = on(3)
	v.CfL = on(2)
	v.Clusters = r.Pick(1, 2, 3, 5, 8)
	p.Tree = r.Pick(0, 0, 1, 2, 3)
	p.LocalTree = on(4)
	p.Permute = on(4)
	if on(4) {
		p.Extra = r.Pick(1, 1, 2)
	}
	if on(8) {
		p.Frames = 1
	}
	v.Contexts = on(3)
	if on(3) {
		v.Quant = r.Range(1, 63)
	}
	if on(5) {
		v.YCC = r.Range(1, 5)
		if v.Subsampled() {
			v.Smooth = false // goes with samples of one size only
		}
	}
	p.Gray = v.YCC == 0 && on(8)
	if size != "lf" && on(6) {
		v.Ups = r.Range(1, 3)
		if size == "multi" {
			// as many groups of as few samples as possible
			w, h := r.Range(257, 290), max(1, r.Range(1, 64)>>uint(v.Ups-1))
			if r.P(1, 2) {
				w, h = h, w
			}
			p.W, p.H = w<<uint(v.Ups)-r.N(2), h<<uint(v.Ups)-r.N(2)
		}
	}
	coded(r, p)
	headed(r, p)
	return spec.Input{Gen: p}
}

// pictured makes a lossy image of which it is known what it looks like.
func pictured(r *gen.Rng, size string) spec.Input {
	in := lossy(r, size)
	p, v := in.Gen, in.Gen.VarDCT
	v.Known = true
	if r.P(3, 4) {
		p.Gray = false
		if p.W > 2048 || p.H > 2048 {
			v.Smooth = false
		}
		v.CfL = v.CfL && !v.Large && !v.Loose
	}
	if p.Filters != 0 && r.P(1, 2) {
		p.Filters |= 8 * r.N(8)
	}
	if r.P(1, 3) {
		p.Head |= gen.HeadCustom
	}
	if r.P(1, 4) {
		p.Orientation = r.Range(2, 8)
	}
	return in
}

// refined makes an image whose samples are filtered or upsampled.
func refined(r *gen.Rng, size string) spec.Input {
	p := params(r, size)
	if r.P(3, 4) {
		p.Filters = r.Range(1, 7) | r.Pick(0, 8, 32, 40)
		p.Gray = p.Gray && p.Filters>>1&3 == 0
	}
	if p.Filters == 0 || r.P(1, 3) {
		p.Ups = r.Range(1, 3)
	}
	if r.P(1, 3) {
		p.Head |= gen.HeadCustom
	}
	if r.P(1, 4) {
		p.Orientation = r.Range(2, 8)
	}
	return spec.Input{Gen: p}
}

// varied makes an image with settings of its own and some that rely on the usual ones.
func varied(r *gen.Rng) (l []spec.Input) {
	vardct := r.P(2, 3)
	for j := 0; j < r.Range(2, 3); j++ {
		in := refined(r, r.PickS("tiny", "small"))
		if vardct {
			in = pictured(r, "small")
		}
		p := in.Gen
		if v := p.VarDCT; j == 0 {
			p.Head |= r.Pick(gen.HeadCustom, gen.HeadCustom|gen.HeadColour, 63)
			if p.Filters != 0 {
				p.Filters |= 8 * r.Range(1, 7)
			}
			if v != nil {
				v.Quant |= r.Pick(16, 16, 24, 63)
				v.Contexts, v.Orders = true, true
			}
		} else {
			p.Head = 0
			p.Filters &= 7
			if v != nil {
				v.Quant &= r.Pick(0, 0, 7)
				v.Contexts = false
			}
		}
		l = append(l, in)
	}
	return l
}

// valid makes any undamaged input.
func valid(r *gen.Rng, cost int) spec.Input {
	var in spec.Input
	switch {
	case r.P(1, 7):
		in = lossy(r, r.PickS("small", "small", "multi"))
		if r.P(1, 4) {
			in.Gen.Orientation = r.Range(2, 8)
		}
	case r.P(2, 5):
		in = corpus(r, cost)
	case r.P(1, 4):
		in = filtered(r, r.PickS("small", "edge", "multi"))
	default:
		in = generated(r, "any")
	}
	return in
}

// long makes an image with a side that only level 10 allows, in a container
// that says so.
func lengthy(r *gen.Rng) spec.Input {
	p := &gen.Params{Seed: r.Next() & 0xffffffff, Pattern: r.N(5), Bits: 8, Gray: true, Tree: r.Pick(0, 1), GroupShift: r.Pick(2, 3, 3)}
	p.W, p.H = 1<<18+r.Pick(1, 2, 257, 5000, 40000), r.Range(1, 2)
	if r.P(1, 2) {
		p.W, p.H = p.H, p.W
	}
	if r.P(1, 3) {
		p.Orientation = r.Range(2, 8)
	}
	in := laidOut(r, spec.Input{Gen: p})
	var l []gen.Box
	for _, b := range in.Layout.Boxes {
		if b.Type != "jxll" {
			l = append(l, b)
		}
	}
	in.Layout.Boxes = append([]gen.Box{{Type: "jxll", Fill: 10}}, l...)
	return in
}

func isContainer(d []byte) bool { return len(d) > 12 && string(d[4:8]) == "JXL " }

// laidOut puts an input into a random container, unless it is in one.
func laidOut(r *gen.Rng, in spec.Input) spec.Input {
	d := codestreamOf(in)
	if isContainer(d) {
		return in
	}
	in.Layout = gen.RandomLayout(r, len(d))
	return in
}

func headerLen(in spec.Input) int {
	if in.Layout != nil {
		return 32
	}
	if in.Gen != nil {
		return built(in.Gen).HeaderLen
	}
	if d := codestreamOf(in); isContainer(d) {
		return 32
	}
	return 8
}

func damaged(r *gen.Rng, in spec.Input) spec.Input {
	d := dataOf(in)
	from := headerLen(in)
	if r.P(1, 6) {
		from = 0
	}
	if from > len(d) {
		from = 0
	}
	in.Muts = gen.RandomMuts(r, len(d), from)
	if in.Gen != nil && in.Layout == nil && r.P(1, 4) {
		// all sections of a kind at once
		s := built(in.Gen).Sections
		kind := s[r.N(len(s))].Kind
		if r.P(1, 3) {
			kind = "lfgroup"
		}
		var ms []gen.Mut
		for _, x := range s {
			if x.Kind == kind && x.Len > 0 && len(ms) < 40 {
				m := gen.Mut{K: r.PickS("flip", "set", "ones", "zero", "rand"), At: x.Off + r.N(min(x.Len, 24)), N: min(x.Len, 24), Val: r.Next() & 0xffffff}
				switch m.K {
				case "flip":
					m.Val = 1 << uint(r.N(8))
				case "set":
					m.Val &= 255
				}
				ms = append(ms, m)
			}
		}
		if len(ms) > 0 {
			in.Muts = ms
		}
	}
	return in
}

// cutAt gives interesting truncation points.
func cutAt(r *gen.Rng, in spec.Input) int {
	n := len(dataOf(in))
	if in.Gen != nil && in.Layout == nil && r.P(1, 3) {
		// at or near the border of a section
		s := built(in.Gen).Sections
		x := s[r.N(len(s))]
		return max(0, min(n, x.Off+r.Pick(0, 0, 1, -1, x.Len, x.Len-1, x.Len/2)))
	}
	switch r.N(6) {
	case 0:
		return r.N(min(n, 80) + 1)
	case 1:
		return n - r.N(min(n, 40)+1)
	}
	return r.N(n + 1)
}

// sweep disturbs operations on one file at one byte after the other, most
// often in its headers. cut: the file ends there, else the source fails there.
func sweep(r *gen.Rng, cut bool) *spec.World {
	var in spec.Input
	switch r.N(4) {
	case 0:
		in = headerOnly(r)
	case 1:
		in = generated(r, "tiny")
		in.Gen.Head |= r.Pick(0, 31, 63, gen.HeadICC)
	case 2:
		in = lossy(r, "small")
	default:
		in = generated(r, r.PickS("tiny", "small"))
		in.Gen.Permute = r.P(1, 2)
		in.Gen.Squeeze = in.Gen.Squeeze || r.P(1, 2)
	}
	if r.P(1, 5) {
		in = laidOut(r, in)
	}
	w := &spec.World{}
	if !cut {
		w.Inputs = []spec.Input{in}
	}
	size := len(dataOf(in))
	n := 50
	if in.Gen == nil || in.Gen.HeadOnly {
		n = 120
	} else if quickPoints(in) > 3e5 {
		n = 16
	}
	// where the sections begin
	body := size
	if in.Gen != nil && !in.Gen.HeadOnly && in.Layout == nil {
		if s := built(in.Gen).Sections; len(s) > 0 {
			for _, x := range s {
				body = min(body, x.Off)
			}
			if r.P(1, 2) {
				body = s[r.N(len(s))].Off
			}
		}
	}
	from := r.N(max(1, body))
	if r.P(1, 4) {
		from = r.N(max(1, size))
	}
	if r.P(1, 3) {
		from = max(0, body-n+r.N(n))
	} else if r.P(1, 2) {
		from = 0
	}
	o := spec.Op{Kind: r.PickS("decode", "decode", "hdrdec", "std"), Max: limit(r)}
	if in.Gen != nil && in.Gen.HeadOnly || r.P(1, 5) {
		o.Kind = r.PickS("header", "header", "config")
	}
	if in.Gen != nil && in.Gen.Premult && o.Kind == "std" {
		o.Kind = "decode"
	}
	if r.P(1, 3) {
		deliver(r, &o)
		o.IO.Faults = nil
	}
	kind := r.PickS("err", "err", "part")
	sticky := r.P(1, 2)
	for at := from; at < from+n && at < size; at++ {
		x := o
		if cut {
			y := in
			y.Muts = []gen.Mut{{K: "trunc", At: at}}
			w.Inputs = append(w.Inputs, y)
			x.In = len(w.Inputs) - 1
		} else {
			io := spec.IO{}
			if o.IO != nil {
				io = *o.IO
			}
			io.Faults = []spec.Fault{{Kind: kind, At: int64(at), Sticky: sticky}}
			x.IO = &io
		}
		w.Setup = append(w.Setup, x)
	}
	if !cut {
		w.Setup = append(w.Setup, o)
	}
	w.Sched = schedule(r, 2e6)
	return w
}

// torn tears sections of a generated image.
// spoilt changes values that the encoder of an input writes, or returns nil.
func spoilt(r *gen.Rng, in spec.Input) (o *spec.Input) {
	defer func() {
		if recover() != nil {
			o = nil // there is no such file
		}
	}()
	x := cp(in)
	x.Gen.Spoil = nil
	n := gen.Count(*x.Gen)
	for k := r.Pick(1, 1, 1, 2, 4); k > 0; k-- {
		s := gen.Spoil{In: -1}
		if r.P(3, 5) {
			s.In = r.N(len(n)) - 1
		}
		if n[s.In+1] == 0 {
			continue
		}
		s.At = r.N(n[s.In+1])
		if r.P(1, 3) {
			s.At = r.N(min(n[s.In+1], 40))
		}
		switch v := uint(r.N(32)); {
		case s.In < 0 && r.P(1, 2):
			s.Val = r.Next() | 1
		case s.In < 0:
			s.Val = 1 << (v % 8)
		default:
			s.Val = uint64(r.Pick(0, 1, 2, 3, 5, r.N(20), r.N(300), 1<<v, 1<<v-1, 1<<31-1, 1<<32-1))
		}
		x.Gen.Spoil = append(x.Gen.Spoil, s)
	}
	if len(x.Gen.Spoil) == 0 {
		return nil
	}
	gen.Build(*x.Gen)
	return &x
}

func torn(r *gen.Rng, in spec.Input, sure bool) spec.Input {
	g := cp(*in.Gen)
	g.Torn = nil
	s := built(&g).Sections
	var c []gen.Section
	for _, x := range s {
		if x.Full >= 17 || !sure && x.Full > 0 {
			c = append(c, x)
		}
	}
	k := r.Pick(1, 1, 1, 2, 3, 6, 40)
	if r.P(1, 4) && len(c) > 0 {
		// everything of a kind
		kind := c[r.N(len(c))].Kind
		if kind == "lfglobal" || r.P(1, 3) {
			kind = "lfgroup"
		}
		var same []gen.Section
		for _, x := range c {
			if x.Kind == kind {
				same = append(same, x)
			}
		}
		if len(same) > 1 {
			c, k = same, 40
		}
	}
	// mostly the parts that the workers decode
	for tries := 0; len(g.Torn) < k && tries < 4*k && len(c) > 0; tries++ {
		x := c[r.N(len(c))]
		if x.Kind == "lfglobal" && r.P(3, 4) {
			continue
		}
		dup := false
		for _, t := range g.Torn {
			dup = dup || t.Frame == x.Frame && t.Section == x.Index
		}
		if dup {
			continue
		}
		top := x.Full - 1
		if sure {
			top = x.Full - 16
		}
		n := r.N(top + 1)
		switch r.N(4) {
		case 0:
			n = 0
		case 1:
			n = top
		}
		g.Torn = append(g.Torn, gen.Torn{Frame: x.Frame, Section: x.Index, Len: n})
	}
	in.Gen = &g
	return in
}

// ---- schedules ----

func schedule(r *gen.Rng, points uint64) spec.Sched {
	s := seqSched()
	s.Seed = r.Next() & 0xffffffff
	s.PoolSeed = r.Next() & 0xffff
	s.MapSeed = r.Next() & 0xffff
	s.CPUs = r.Pick(1, 2, 3, 4, 4, 8, 8, 16, 32, 64, 128)
	s.Pool = r.PickS("lifo", "lifo", "fifo", "random", "random", "miss", "drop")
	s.Policy = r.PickS("random", "random", "random", "pct", "pct", "rr", "rev", "stall", "stall", "seq")
	points = max(points, 1000)
	s.Mean = int64(r.Pick(10, 30, 100, 500, 2000, 10000, 50000))
	if least := int64(points / 200000); s.Mean < least {
		s.Mean = least
	}
	s.SyncP = r.Pick(0, 16, 64, 128, 200, 256)
	if s.Policy == "pct" {
		s.Depth = r.Range(1, 8)
		s.Span = points
	}
	return s
}

// quickPoints estimates how long decoding an input takes.
func quickPoints(in spec.Input) uint64 {
	o := refOp(in, spec.Op{Kind: "decode"}, false)
	if o == nil {
		return 1e6
	}
	return o.Points
}

func limit(r *gen.Rng) int { return r.Pick(0, 0, 1, 1, 2, 2, 3, 4, 5, 8, 16, 32, 64) }

// ---- delivery ----

func delivery(r *gen.Rng) *spec.IO {
	io := &spec.IO{Seed: r.Next() & 0xffff}
	io.Mode = r.PickS("full", "one", "small", "rand", "rand")
	if r.P(1, 3) {
		io.Zero = r.Pick(10, 60, 128)
	}
	io.EOFData = r.P(1, 2)
	if r.P(1, 4) {
		io.Lat = int64(r.Pick(100, 10000, 5000000))
	}
	if r.P(1, 12) {
		io.Faults = append(io.Faults, spec.Fault{Kind: "stall", At: int64(r.Range(1, 40))})
	}
	return io
}

// readFault places one error of the source. n: bytes, c: reads, s: seeks.
func readFault(r *gen.Rng, n, c, s int64) spec.Fault {
	f := spec.Fault{Sticky: r.P(1, 2)}
	switch r.N(8) {
	case 0, 1, 2:
		f.Kind = "err"
		f.At = int64(r.N(int(n) + 1))
	case 3, 4:
		f.Kind = "part"
		f.At = int64(r.N(int(n) + 1))
	case 5, 6:
		f.Kind = "call"
		f.At = int64(1 + r.N(int(max(1, c))))
	default:
		f.Kind = "seek"
		f.At = int64(1 + r.N(int(max(1, s))))
	}
	if (f.Kind == "err" || f.Kind == "part") && r.P(1, 3) {
		f.At = int64(r.N(int(min(n, 64)) + 1))
	}
	return f
}

var queries = []string{"header", "config", "stdconfig"}

// op makes a reading operation. full: a decode.
func readOp(r *gen.Rng, in int, full bool) spec.Op {
	o := spec.Op{In: in, Max: limit(r)}
	if full {
		o.Kind = r.PickS("decode", "decode", "decode", "std", "stdimage", "hdrdec")
	} else {
		o.Kind = r.PickS(queries...)
	}
	if (o.Kind == "stdimage" || o.Kind == "stdconfig" || o.Kind == "std" || o.Kind == "config") && r.P(1, 2) {
		o.IO = &spec.IO{NoSeek: true}
	}
	return o
}

func deliver(r *gen.Rng, o *spec.Op) {
	ns := o.IO != nil && o.IO.NoSeek
	o.IO = delivery(r)
	o.IO.NoSeek = ns
}

func exportOp(r *gen.Rng, slot int) spec.Op {
	return spec.Op{Kind: r.PickS("png", "png", "pfm", "toimage", "chan", "getters"), Slot: slot, Chan: r.N(3)}
}

// ---- worlds ----

var gens = map[string]func(r *gen.Rng, i int) *spec.World{}

func pointsOf(w *spec.World) uint64 {
	var n uint64
	for _, c := range w.Clients {
		for _, o := range c {
			if isSource(o.Kind) {
				n += quickPoints(w.Inputs[o.In])
			}
		}
	}
	return n
}

func init() {
	// heavy makes the work for many workers
	parallel := func(r *gen.Rng, i int) spec.Input {
		switch {
		case i%3 == 0:
			return corpus(r, 2)
		case r.P(1, 4):
			return lossy(r, r.PickS("small", "multi", "multi", "lf"))
		case r.P(1, 3):
			return filtered(r, r.PickS("small", "edge", "multi", "multi"))
		default:
			return generated(r, r.PickS("edge", "multi", "multi", "lf", "small"))
		}
	}
	gens["C01"] = func(r *gen.Rng, i int) *spec.World {
		in := parallel(r, i)
		switch r.N(8) {
		case 0:
			in = damaged(r, in)
		case 1:
			if in.Gen != nil {
				in = torn(r, in, false)
			}
		}
		w := &spec.World{Inputs: []spec.Input{in}, Setup: []spec.Op{{Kind: "decode", Max: limit(r)}}}
		if r.P(1, 8) {
			w.Setup[0].Kind = r.PickS("std", "header")
		}
		w.Sched = schedule(r, quickPoints(in))
		return w
	}
	clients := func(r *gen.Rng, i int, n, per int, cost int, bad bool) *spec.World {
		w := &spec.World{Slots: 1}
		k := r.Range(1, 3)
		for j := 0; j < k; j++ {
			in := valid(r, cost)
			if r.P(1, 5) {
				in = laidOut(r, in)
			}
			w.Inputs = append(w.Inputs, in)
		}
		good := k
		if bad {
			for j := 0; j < r.N(3); j++ {
				in := w.Inputs[r.N(good)]
				switch {
				case r.P(1, 3) && in.Gen != nil:
					in = torn(r, in, false)
				case r.P(1, 2):
					in.Muts = []gen.Mut{{K: "trunc", At: cutAt(r, in)}}
				default:
					in = damaged(r, in)
				}
				w.Inputs = append(w.Inputs, in)
			}
		}
		share := r.P(1, 3)
		if share {
			w.Setup = append(w.Setup, spec.Op{Kind: "decode", Slot: 1, Max: limit(r)})
		}
		for c := 0; c < n; c++ {
			var l []spec.Op
			for j := 0; j < r.Range(1, per); j++ {
				if share && r.P(1, 3) {
					l = append(l, exportOp(r, 1))
					continue
				}
				o := readOp(r, r.N(len(w.Inputs)), r.P(4, 5))
				if r.P(1, 4) {
					deliver(r, &o)
				}
				if bad && r.P(1, 6) {
					ns := o.IO != nil && o.IO.NoSeek
					if o.IO == nil {
						o.IO = &spec.IO{NoSeek: ns}
					}
					n := int64(len(dataOf(w.Inputs[o.In])))
					o.IO.Faults = append(o.IO.Faults, readFault(r, n, n/4+8, 4))
				}
				l = append(l, o)
			}
			w.Clients = append(w.Clients, l)
		}
		w.Sched = schedule(r, pointsOf(w))
		return w
	}
	gens["C02"] = func(r *gen.Rng, i int) *spec.World {
		var w *spec.World
		switch i % 6 {
		case 0, 1, 2:
			in := parallel(r, 1+i%2)
			if i%6 == 2 {
				in = corpus(r, 1)
			}
			w = &spec.World{Inputs: []spec.Input{in}, Setup: []spec.Op{{Kind: "decode", Max: limit(r), Slot: 1}}, Slots: 1}
			w.Sched = schedule(r, quickPoints(in))
		case 3, 4:
			w = clients(r, i, r.Range(2, 4), 2, 0, r.P(1, 3))
		default:
			w = poolWorld(r)
		}
		w.Race = true
		return w
	}
	gens["C03"] = func(r *gen.Rng, i int) *spec.World {
		if i%8 == 1 {
			w := &spec.World{Inputs: varied(r)}
			for c := 0; c < len(w.Inputs)+r.N(2); c++ {
				l := []spec.Op{{Kind: "decode", In: c % len(w.Inputs), Max: limit(r)}}
				if r.P(1, 2) {
					l = append(l, spec.Op{Kind: r.PickS("decode", "std"), In: r.N(len(w.Inputs)), Max: limit(r)})
				}
				w.Clients = append(w.Clients, l)
			}
			w.Sched = schedule(r, 3e6)
			return w
		}
		return clients(r, i, r.Range(2, 4), 3, 1, r.P(2, 3))
	}
	history := func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{Slots: 2}
		k := r.Range(1, 3)
		for j := 0; j < k; j++ {
			in := valid(r, 1)
			if r.P(1, 5) {
				in = laidOut(r, in)
			}
			w.Inputs = append(w.Inputs, in)
		}
		for j := 0; j < r.Range(0, 3); j++ {
			in := w.Inputs[r.N(k)]
			switch {
			case r.P(1, 3) && in.Gen != nil:
				in = torn(r, in, false)
			case r.P(1, 2):
				in.Muts = []gen.Mut{{K: "trunc", At: cutAt(r, in)}}
			default:
				in = damaged(r, in)
			}
			w.Inputs = append(w.Inputs, in)
		}
		n := r.Range(2, 6)
		slot := 0
		for j := 0; j < n; j++ {
			if slot > 0 && r.P(1, 5) {
				w.Setup = append(w.Setup, exportOp(r, 1))
				continue
			}
			o := readOp(r, r.N(len(w.Inputs)), r.P(5, 6))
			if r.P(1, 8) {
				o.Kind, o.IO = "decdec", nil
			}
			if r.P(1, 5) {
				ns := o.IO != nil && o.IO.NoSeek
				o.IO = &spec.IO{NoSeek: ns}
				n := int64(len(dataOf(w.Inputs[o.In])))
				o.IO.Faults = append(o.IO.Faults, readFault(r, n, n/4+8, 4))
			}
			if slot == 0 && o.Kind == "decode" && o.In < k && o.IO == nil && r.P(1, 2) {
				slot, o.Slot = 1, 1
			}
			w.Setup = append(w.Setup, o)
		}
		// the last one is a plain decode
		w.Setup = append(w.Setup, spec.Op{Kind: "decode", In: r.N(k), Max: limit(r)})
		w.Sched = schedule(r, 3e6)
		w.Sched.Pool = r.PickS("lifo", "lifo", "fifo", "random", "random", "miss")
		return w
	}
	// worn makes a long history of failing operations, which must not use up anything.
	worn := func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{Slots: 1}
		var in spec.Input
		switch r.N(4) {
		case 0:
			in = corpus(r, 0)
		case 1:
			in = generated(r, r.PickS("small", "edge", "multi", "lf"))
		default:
			in = lossy(r, r.PickS("small", "multi"))
		}
		if r.P(1, 6) {
			in = laidOut(r, in)
		}
		w.Inputs = append(w.Inputs, in)
		whole := quickPoints(in)
		// of several kinds of damage those that are noticed late
		type bad struct {
			op spec.Op
			n  uint64
		}
		var l []bad
		for j := 0; j < 8; j++ {
			x := in
			o := spec.Op{Kind: "decode", Max: limit(r)}
			switch r.N(6) {
			case 0:
				if in.Gen == nil {
					continue
				}
				x = torn(r, in, false)
			case 1:
				x.Muts = []gen.Mut{{K: "trunc", At: cutAt(r, in)}}
			case 2:
				n := int64(len(dataOf(in)))
				f := readFault(r, n, n/4+8, 4)
				f.Sticky = true
				o.IO = &spec.IO{Faults: []spec.Fault{f}}
			default:
				x = damaged(r, in)
			}
			if d := refOp(x, o, true); d != nil && d.Status == "err" {
				o.In = len(w.Inputs)
				w.Inputs = append(w.Inputs, x)
				l = append(l, bad{o, d.Points})
			}
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].n > l[j].n })
		if len(l) == 0 {
			return nil
		}
		l = l[:min(len(l), r.Range(1, 3))]
		n := r.Pick(20, 40, 70)
		for cost := uint64(0); n > 0 && cost < 4e7; n-- {
			b := l[r.N(len(l))]
			w.Setup = append(w.Setup, b.op)
			cost += b.n
			if r.P(1, 20) {
				w.Setup = append(w.Setup, spec.Op{Kind: "decode", Max: limit(r)})
				cost += whole
			}
		}
		if r.P(1, 4) {
			// writing the image fails, too
			w.Setup = append(w.Setup, spec.Op{Kind: "decode", Slot: 1, Max: limit(r)})
			for k := r.Range(5, 20); k > 0; k-- {
				w.Setup = append(w.Setup, spec.Op{Kind: r.PickS("png", "pfm"), Slot: 1, IO: &spec.IO{Faults: []spec.Fault{{Kind: r.PickS("call", "err", "part", "full"), At: int64(r.Range(1, 60)), Sticky: r.P(1, 2)}}}})
			}
			w.Final = append(w.Final, spec.Op{Kind: "png", Slot: 1})
		}
		w.Final = append(w.Final, spec.Op{Kind: "decode", Max: limit(r)})
		w.Sched = schedule(r, 2e6)
		w.Sched.CPUs = r.Pick(1, 1, 2, 2, 3, 4, 8)
		w.Sched.MaxElems = 1 << 25
		return w
	}
	// settings decodes images with settings of their own before and after those that rely on the usual ones.
	settings := func(r *gen.Rng) *spec.World {
		w := &spec.World{Slots: 2, Inputs: varied(r)}
		k := len(w.Inputs)
		for j := 0; j < k; j++ {
			w.Setup = append(w.Setup, spec.Op{Kind: r.PickS("decode", "decode", "decdec", "std"), In: j, Max: limit(r)})
		}
		if r.P(1, 3) {
			n := int64(len(dataOf(w.Inputs[0])))
			w.Setup[0].IO = &spec.IO{Faults: []spec.Fault{readFault(r, n, n/4+8, 4)}}
		}
		if r.P(1, 2) {
			w.Setup[0], w.Setup[1] = w.Setup[1], w.Setup[0]
		}
		w.Setup = append(w.Setup, spec.Op{Kind: "decode", In: r.N(k), Max: limit(r)})
		w.Sched = schedule(r, 3e6)
		w.Sched.Pool = r.PickS("lifo", "fifo", "random", "miss")
		return w
	}
	gens["C04"] = func(r *gen.Rng, i int) *spec.World {
		if i%8 == 1 {
			return settings(r)
		}
		if i%8 == 5 {
			return worn(r, i)
		}
		return history(r, i)
	}
	gens["C05"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{Slots: 3}
		for j := 0; j < r.Range(1, 3); j++ {
			w.Inputs = append(w.Inputs, valid(r, 1))
		}
		w.Inputs = append(w.Inputs, damaged(r, w.Inputs[r.N(len(w.Inputs))]))
		k := len(w.Inputs) - 1
		w.Setup = append(w.Setup, spec.Op{Kind: "decode", Slot: 1, In: r.N(k), Max: limit(r)})
		if r.P(1, 2) {
			w.Setup = append(w.Setup, spec.Op{Kind: "decode", Slot: 2, In: r.N(k), Max: limit(r)})
		}
		if r.P(1, 3) {
			w.Setup = append(w.Setup, spec.Op{Kind: "std", Slot: 3, In: r.N(k)})
		}
		any := func(conc bool) spec.Op {
			switch r.N(6) {
			case 0, 1, 2:
				return exportOp(r, r.Range(1, 2))
			case 3:
				o := exportOp(r, 1)
				if o.Kind == "png" || o.Kind == "pfm" {
					o.IO = &spec.IO{Faults: []spec.Fault{{Kind: r.PickS("call", "err", "part", "full"), At: int64(r.Range(1, 60)), Sticky: r.P(1, 2)}}}
				}
				return o
			}
			return readOp(r, r.N(k+1), r.P(3, 4))
		}
		for j := 0; j < r.N(5); j++ {
			w.Setup = append(w.Setup, any(false))
		}
		if r.P(1, 2) {
			for c := 0; c < r.Range(2, 4); c++ {
				var l []spec.Op
				for j := 0; j < r.Range(1, 2); j++ {
					l = append(l, any(true))
				}
				w.Clients = append(w.Clients, l)
			}
		}
		w.Final = []spec.Op{{Kind: "rehash", Slot: 1}, {Kind: "rehash", Slot: 2}, {Kind: "restd", Slot: 3}, exportOp(r, 1)}
		w.Sched = schedule(r, 3e6)
		return w
	}
	// batch puts several small operations into one process
	gens["C06"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{}
		n := r.Range(2, 5)
		for j := 0; j < n; j++ {
			in := valid(r, 0)
			if r.P(1, 2) {
				in = laidOut(r, in)
			}
			if r.P(1, 12) {
				in.Muts = []gen.Mut{{K: "trunc", At: cutAt(r, in)}}
			}
			w.Inputs = append(w.Inputs, in)
			o := readOp(r, j, r.P(2, 3))
			deliver(r, &o)
			w.Setup = append(w.Setup, o)
			if r.P(1, 2) {
				o := readOp(r, j, r.P(1, 2))
				deliver(r, &o)
				w.Setup = append(w.Setup, o)
			}
		}
		w.Sched = schedule(r, 2e6)
		return w
	}
	gens["C07"] = func(r *gen.Rng, i int) *spec.World {
		if i%4 == 1 {
			return sweep(r, false)
		}
		w := &spec.World{}
		in := corpus(r, 0)
		if r.P(2, 3) {
			in = generated(r, r.PickS("tiny", "tiny", "small", "edge", "multi"))
			if r.P(1, 6) {
				in = lossy(r, r.PickS("small", "small", "multi"))
			}
		}
		if r.P(1, 3) {
			in = laidOut(r, in)
		}
		w.Inputs = append(w.Inputs, in)
		n := r.Range(6, 14)
		if in.File != "" || quickPoints(in) > 2e6 {
			n = r.Range(2, 5)
		}
		for j := 0; j < n; j++ {
			o := readOp(r, 0, r.P(3, 4))
			o.Max = limit(r)
			if r.P(1, 2) {
				deliver(r, &o)
			} else if o.IO == nil {
				o.IO = &spec.IO{}
			}
			o.IO.Faults = nil
			base := refOp(in, o, true)
			if base == nil {
				continue
			}
			for k := 0; k < r.Pick(1, 1, 1, 2); k++ {
				o.IO.Faults = append(o.IO.Faults, readFault(r, max(base.N, 1), base.Calls, base.Seeks))
			}
			w.Setup = append(w.Setup, o)
			if r.P(1, 4) {
				w.Setup = append(w.Setup, spec.Op{Kind: "decode", Max: limit(r)})
			}
		}
		w.Setup = append(w.Setup, spec.Op{Kind: "decode", Max: limit(r)})
		w.Sched = schedule(r, 2e6)
		return w
	}
	gens["C08"] = func(r *gen.Rng, i int) *spec.World {
		if i%4 == 1 {
			return sweep(r, true)
		}
		w := &spec.World{}
		in := corpus(r, 0)
		if r.P(2, 3) {
			in = generated(r, r.PickS("tiny", "tiny", "small", "edge", "multi", "lf"))
			if r.P(1, 6) {
				in = lossy(r, r.PickS("small", "small", "multi", "lf"))
			}
		}
		if r.P(1, 3) {
			in = laidOut(r, in)
		}
		n := r.Range(6, 14)
		if in.File != "" || quickPoints(in) > 2e6 {
			n = r.Range(3, 6)
		}
		for j := 0; j < n; j++ {
			x := in
			x.Muts = []gen.Mut{{K: "trunc", At: cutAt(r, in)}}
			w.Inputs = append(w.Inputs, x)
			o := readOp(r, j, r.P(4, 5))
			if r.P(1, 2) {
				deliver(r, &o)
			}
			w.Setup = append(w.Setup, o)
		}
		w.Sched = schedule(r, 2e6)
		return w
	}
	gens["C09"] = func(r *gen.Rng, i int) *spec.World {
		if i%6 == 5 {
			return worn(r, i)
		}
		w := &spec.World{}
		in := corpus(r, 1)
		if r.P(1, 2) {
			in = generated(r, r.PickS("tiny", "small", "small", "edge", "multi", "lf"))
			if r.P(1, 4) {
				in.Gen.Filters = r.N(8)
			}
			if r.P(1, 4) {
				in = lossy(r, r.PickS("small", "small", "multi", "lf"))
			}
			if r.P(1, 4) {
				in.Gen.Head |= gen.HeadICC
			}
		}
		if r.P(1, 4) {
			in = laidOut(r, in)
		}
		w.Inputs = append(w.Inputs, in)
		n := r.Range(5, 10)
		if quickPoints(in) > 4e6 {
			n = r.Range(2, 4)
		}
		var l []spec.Op
		for j := 0; j < n; j++ {
			x := damaged(r, in)
			if in.Gen != nil && r.P(1, 8) {
				x = torn(r, in, false)
			}
			if in.Gen != nil && r.P(2, 5) {
				if s := spoilt(r, in); s != nil {
					x = *s
				}
			}
			w.Inputs = append(w.Inputs, x)
			o := readOp(r, len(w.Inputs)-1, r.P(9, 10))
			if r.P(1, 8) {
				deliver(r, &o)
			}
			l = append(l, o)
		}
		if r.P(1, 4) {
			half := len(l) / 2
			w.Clients = [][]spec.Op{l[:half], l[half:], {{Kind: "decode", Max: limit(r)}}}
		} else {
			w.Setup = l
		}
		w.Final = []spec.Op{{Kind: "decode", Max: limit(r)}}
		w.Sched = schedule(r, 2e6)
		w.Sched.Budget = 150e6
		w.Sched.MaxElems = 1 << 25
		return w
	}
	gens["C10"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{}
		n := r.Range(2, 4)
		for j := 0; j < n; j++ {
			in := generated(r, r.PickS("multi", "multi", "lf", "lf", "edge", "small"))
			if r.P(1, 4) {
				in = lossy(r, r.PickS("small", "multi", "multi", "lf"))
			} else {
				if r.P(1, 3) {
					in.Gen.Squeeze = true
				}
				if r.P(1, 4) {
					in.Gen.Passes = r.Pick(2, 3)
				}
			}
			in = torn(r, in, true)
			if len(in.Gen.Torn) == 0 {
				continue
			}
			w.Inputs = append(w.Inputs, in)
			o := spec.Op{Kind: r.PickS("decode", "decode", "std"), In: len(w.Inputs) - 1, Max: limit(r)}
			w.Setup = append(w.Setup, o)
		}
		if len(w.Setup) == 0 {
			return nil
		}
		w.Sched = schedule(r, 3e6)
		return w
	}
	gens["C11"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{}
		n := r.Range(3, 7)
		for j := 0; j < n; j++ {
			var in spec.Input
			if r.P(1, 4) {
				in = file(r.PickS("art", "bbb-small", "tiny2", "grayscale", "bbb-small", "lenna"))
			} else {
				in = generated(r, r.PickS("tiny", "small", "edge", "multi", "lf"))
				if r.P(1, 6) {
					in = lossy(r, r.PickS("small", "multi", "lf"))
				}
				in.Gen.Permute = r.P(1, 2)
			}
			if r.P(4, 5) {
				in = laidOut(r, in)
				if in.Layout != nil && r.P(1, 5) {
					b := &in.Layout.Boxes[r.N(len(in.Layout.Boxes))]
					v := uint64(r.Pick(2, 7, 8, 9, 12, 15, 16, 17, 1000, 1<<20, 1<<31-1, 1<<31, 1<<32-1))
					if b.Form == 1 && r.P(1, 2) {
						v = []uint64{0, 1, 8, 15, 16, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}[r.N(10)]
					}
					b.Lie = &v
					if b.Form == 2 {
						b.Form = 0
					}
				}
			}
			w.Inputs = append(w.Inputs, in)
			o := readOp(r, j, r.P(5, 6))
			if r.P(1, 2) {
				deliver(r, &o)
			}
			w.Setup = append(w.Setup, o)
		}
		w.Sched = schedule(r, 2e6)
		return w
	}
	gens["C12"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{}
		for j := 0; j < r.Range(1, 4); j++ {
			in := valid(r, 0)
			if i%16 == 3 && j == 0 {
				in = lengthy(r)
			} else if r.P(1, 2) {
				in = laidOut(r, in)
			}
			w.Inputs = append(w.Inputs, in)
		}
		ops := func(n int) (l []spec.Op) {
			for j := 0; j < n; j++ {
				o := readOp(r, r.N(len(w.Inputs)), false)
				switch r.N(8) {
				case 0:
					o.Kind, o.IO = "hdrdec", nil
				case 1:
					o.Kind, o.IO = "decode", nil
				}
				if r.P(1, 2) {
					deliver(r, &o)
				}
				l = append(l, o)
			}
			return
		}
		w.Setup = ops(r.Range(2, 10))
		if r.P(1, 3) {
			for c := 0; c < r.Range(2, 4); c++ {
				w.Clients = append(w.Clients, ops(r.Range(1, 3)))
			}
		}
		w.Sched = schedule(r, 1e6)
		return w
	}
	gens["C13"] = func(r *gen.Rng, i int) *spec.World { return poolWorld(r) }
	gens["C14"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{Slots: 1}
		in := corpus(r, 0)
		if r.P(4, 5) {
			in = generated(r, r.PickS("tiny", "tiny", "small", "edge"))
			in.Gen.Frames, in.Gen.Comp, in.Gen.Premult = 0, 0, false
			if r.P(1, 5) {
				composed(r, in.Gen, "small")
				in.Gen.Premult = false
			}
			if r.P(1, 4) {
				in.Gen.Gray = true
			}
			if r.P(1, 4) {
				in.Gen.Bits = r.Pick(8, 10, 12, 16)
			}
		}
		w.Inputs = []spec.Input{in}
		w.Setup = []spec.Op{{Kind: "decode", Slot: 1, Max: limit(r)}}
		write := func() spec.Op {
			o := spec.Op{Kind: r.PickS("png", "pfm"), Slot: 1}
			if r.P(3, 4) {
				o.IO = &spec.IO{Seed: r.Next() & 0xffff}
				if r.P(1, 5) {
					o.IO.Lat = 10000
				}
				base := refExport(in, o)
				if base != nil && base.Status == "ok" {
					f := spec.Fault{Kind: r.PickS("err", "part", "part", "full", "call"), Sticky: r.P(1, 2)}
					switch {
					case f.Kind == "call":
						f.At = int64(1 + r.N(int(base.Calls)))
					case r.P(1, 3):
						f.At = int64(r.N(min(int(base.N), 64)))
					case r.P(1, 3):
						f.At = base.N - 1 - int64(r.N(min(int(base.N), 40)))
					default:
						f.At = int64(r.N(int(base.N)))
					}
					o.IO.Faults = append(o.IO.Faults, f)
				}
			}
			return o
		}
		for j := 0; j < r.Range(3, 12); j++ {
			w.Setup = append(w.Setup, write())
		}
		if r.P(1, 4) {
			for c := 0; c < r.Range(2, 3); c++ {
				w.Clients = append(w.Clients, []spec.Op{write(), write()})
			}
		}
		w.Final = []spec.Op{{Kind: "png", Slot: 1}, {Kind: "pfm", Slot: 1}}
		w.Sched = schedule(r, 1e6)
		return w
	}
	gens["C15"] = func(r *gen.Rng, i int) *spec.World {
		from := []string{"C09", "C10", "C07", "C09", "C10", "C08", "C01", "C03", "C14", "C11"}[i%10]
		w := gens[from](r, i)
		if w == nil {
			return nil
		}
		if r.P(1, 2) {
			w.Sched.Policy = r.PickS("stall", "pct", "rev", "rr")
			w.Sched.Depth, w.Sched.Span = 4, 2e6
		}
		w.Sched.Budget = 400e6
		return w
	}
	gens["C16"] = func(r *gen.Rng, i int) *spec.World { return bitsWorld(r) }
	gens["C17"] = func(r *gen.Rng, i int) *spec.World {
		in := parallel(r, i)
		w := &spec.World{Inputs: []spec.Input{in}}
		for j := 0; j < r.Pick(1, 1, 2); j++ {
			w.Setup = append(w.Setup, spec.Op{Kind: r.PickS("decode", "decode", "decode", "decdec"), Max: r.Pick(0, 1, 1, 2, 2, 3, 4, 5, 6, 8, 12, 64)})
		}
		w.Sched = schedule(r, quickPoints(in))
		if r.P(1, 2) {
			w.Sched.CPUs = r.Pick(1, 2, 3, 4)
		}
		if w.Sched.Policy == "seq" || w.Sched.Policy == "rev" {
			w.Sched.Policy = "random"
		}
		return w
	}
	gens["C18"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{}
		for j := 0; j < r.Range(2, 5); j++ {
			in := generated(r, "any")
			w.Inputs = append(w.Inputs, in)
			o := spec.Op{Kind: r.PickS("decode", "decode", "decode", "std"), In: j, Max: limit(r)}
			if in.Gen.Premult {
				o.Kind = "decode" // converting is not implemented
			}
			w.Setup = append(w.Setup, o)
		}
		w.Sched = schedule(r, 4e6)
		return w
	}
	gens["C20"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{}
		if i == 0 {
			// one input in which the header of the filters is complete
			p := &gen.Params{Seed: 1, W: 300, H: 60, Filters: 2, Permute: true, WeightBit: true, VarDCT: &gen.VarDCT{Presets: 1, Clusters: 1, Known: true}}
			w.Inputs = append(w.Inputs, spec.Input{Gen: p})
			w.Setup = append(w.Setup, spec.Op{Kind: "decode", Max: limit(r)})
			w.Sched = schedule(r, 4e6)
			return w
		}
		for j := 0; j < r.Range(1, 3); j++ {
			var in spec.Input
			if r.P(1, 4) {
				in = refined(r, r.PickS("tiny", "small", "small", "edge"))
			} else {
				in = pictured(r, r.PickS("small", "small", "small", "multi", "lf"))
			}
			w.Inputs = append(w.Inputs, in)
			w.Setup = append(w.Setup, spec.Op{Kind: "decode", In: j, Max: limit(r)})
		}
		w.Sched = schedule(r, 4e6)
		return w
	}
	gens["C21"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{Slots: r.Range(1, 2)}
		for j := 0; j < w.Slots; j++ {
			var in spec.Input
			for n := 0; n < 4; n++ {
				switch r.N(8) {
				case 0:
					in = generated(r, r.PickS("tiny", "small", "small", "edge"))
					in.Gen.Premult = false
					in.Gen.Head |= r.Pick(0, 31, gen.HeadICC, gen.HeadExtra)
				case 1:
					in = refined(r, r.PickS("tiny", "small"))
				default:
					in = pictured(r, r.PickS("tiny", "small", "small", "multi"))
					in.Gen.Head |= r.Pick(0, gen.HeadCustom, gen.HeadCustom, gen.HeadICC, 63)
					if r.P(2, 3) {
						in.Gen.VarDCT.YCC = 0
					}
					in.Gen.VarDCT.Depth = r.Pick(0, 0, 9, 10, 12, 16)
				}
				in.Gen.Premult = false
				if in.Gen.SDR() {
					break
				}
			}
			w.Inputs = append(w.Inputs, in)
			w.Setup = append(w.Setup, spec.Op{Kind: "decode", In: j, Slot: j + 1, Max: limit(r)})
			if r.P(1, 4) {
				if r.P(1, 2) {
					w.Setup = append(w.Setup, spec.Op{Kind: r.PickS("png", "toimage"), Slot: j + 1})
				}
				w.Setup = append(w.Setup, spec.Op{Kind: "edit", Slot: j + 1, Chan: r.N(5)})
			}
		}
		var all []spec.Op
		for n := r.Range(2, 6); n > 0; n-- {
			o := spec.Op{Kind: r.PickS("png", "png", "toimage", "toimage", "pfm", "getters"), Slot: r.Range(1, w.Slots)}
			if r.P(1, 5) {
				o.Kind = "chan"
				o.Chan = r.N(w.Inputs[o.Slot-1].Gen.Channels() + r.Pick(0, 0, 0, 1))
			}
			all = append(all, o)
		}
		if r.P(1, 2) {
			w.Clients = make([][]spec.Op, r.Range(2, 4))
			for _, o := range all {
				k := r.N(len(w.Clients))
				w.Clients[k] = append(w.Clients[k], o)
			}
		} else {
			w.Setup = append(w.Setup, all...)
		}
		w.Sched = schedule(r, 4e6)
		return w
	}
	gens["C22"] = func(r *gen.Rng, i int) *spec.World {
		w := &spec.World{Slots: 1}
		for j := r.Range(1, 4); j > 0; j-- {
			var in spec.Input
			switch r.N(4) {
			case 0:
				in = generated(r, r.PickS("tiny", "small"))
				in.Gen.Head |= r.Pick(0, gen.HeadICC, gen.HeadICC|gen.HeadExtra, 31)
			case 1:
				in = pictured(r, "small")
				in.Gen.Head |= r.Range(0, 31)
			default:
				in = headerOnly(r)
			}
			if r.P(1, 5) {
				in = laidOut(r, in)
			}
			w.Inputs = append(w.Inputs, in)
		}
		var all []spec.Op
		for j, in := range w.Inputs {
			for n := r.Pick(1, 1, 2); n > 0; n-- {
				o := spec.Op{Kind: "header", In: j, Max: limit(r)}
				if r.P(1, 8) {
					o.Kind = "config"
				}
				if !in.Gen.HeadOnly && r.P(1, 2) {
					o.Kind = "hdrdec"
				}
				if r.P(1, 3) {
					deliver(r, &o)
				}
				all = append(all, o)
			}
			if !in.Gen.HeadOnly && in.Gen.VarDCT == nil && in.Gen.Head&gen.HeadICC != 0 && !in.Gen.Premult && r.P(1, 2) {
				w.Final = append(w.Final, spec.Op{Kind: "decode", In: j, Slot: 1, Max: limit(r)}, spec.Op{Kind: "png", Slot: 1})
			}
		}
		if r.P(1, 3) {
			w.Clients = make([][]spec.Op, r.Range(2, 4))
			for _, o := range all {
				k := r.N(len(w.Clients))
				w.Clients[k] = append(w.Clients[k], o)
			}
		} else {
			w.Setup = all
		}
		w.Sched = schedule(r, 1e6)
		return w
	}
	gens["C19"] = func(r *gen.Rng, i int) *spec.World {
		in := lossy(r, r.PickS("multi", "multi", "lf"))
		p := in.Gen
		margin := 0
		if p.Filters != 0 || p.VarDCT.Default {
			margin = 16
		}
		if p.VarDCT.Smooth {
			p.VarDCT.Large, p.VarDCT.Loose = false, false
			margin = 88
		}
		if p.VarDCT.Subsampled() {
			margin += 4
		}
		if k := p.VarDCT.Ups; k > 0 {
			margin = (margin + 2) << uint(k)
		}
		groups := gen.Groups(*p)
		w := &spec.World{Inputs: []spec.Input{in}}
		whole := spec.Op{Kind: "decode", Slot: 1, Max: limit(r)}
		var parts []spec.Op
		n := min(len(groups), r.Range(1, 4))
		for j := 0; j < n; j++ {
			k := j + r.N(len(groups)-j)
			groups[j], groups[k] = groups[k], groups[j]
			g := groups[j]
			q := cp(*p)
			q.VarDCT.Part = &gen.Part{GX: g.GX, GY: g.GY}
			w.Inputs = append(w.Inputs, spec.Input{Gen: &q})
			parts = append(parts, spec.Op{Kind: "decode", In: j + 1, Slot: j + 2, Max: limit(r)})
			w.Final = append(w.Final, spec.Op{Kind: "region", Slot: 1, Chan: j + 2, Acts: []spec.Act{{N: int64(g.X), M: int64(g.Y), S: margin}}})
		}
		w.Slots = n + 1
		switch r.N(4) {
		case 0:
			w.Clients = [][]spec.Op{{whole}, parts}
		case 1:
			w.Setup = append(parts, whole)
		default:
			w.Setup = append([]spec.Op{whole}, parts...)
		}
		w.Sched = schedule(r, quickPoints(in))
		return w
	}
}

func poolWorld(r *gen.Rng) *spec.World {
	w := &spec.World{Setup: []spec.Op{{Kind: "poolmetrics"}}}
	// few shapes, so that recycling happens
	var shapes []int64
	for j := 0; j < r.Range(1, 4); j++ {
		d, h, c := r.Pick(1, 2, 3, 3), r.Pick(1, 2, 4, 5, 8), r.Pick(1, 2, 4, 7, 8, 16)
		if r.P(1, 12) {
			h = 0
		}
		if r.P(1, 12) {
			c = 0
		}
		if r.P(1, 16) {
			d = 0
		}
		shapes = append(shapes, int64(d)<<16|int64(h)<<8|int64(c))
		if r.P(1, 3) { // same number of elements
			shapes = append(shapes, int64(d)<<16|int64(c)<<8|int64(h))
		}
	}
	kinds := []string{"f2", "i2", "f3", "i3"}
	if r.P(1, 2) {
		kinds = kinds[r.N(4):]
	}
	for c := 0; c < r.Range(1, 6); c++ {
		o := spec.Op{Kind: "pool"}
		for j := 0; j < r.Range(3, 30); j++ {
			a := spec.Act{S: r.N(4)}
			switch r.N(8) {
			case 0, 1, 2, 3:
				a.K = r.PickS(kinds...)
				a.N = shapes[r.N(len(shapes))]
			case 4, 5:
				a.K = "put"
			case 6:
				a.K = "check"
			default:
				a.K = "yield"
			}
			o.Acts = append(o.Acts, a)
		}
		w.Clients = append(w.Clients, []spec.Op{o})
	}
	w.Final = []spec.Op{{Kind: "poolmetrics"}}
	w.Sched = schedule(r, 3000)
	w.Sched.Mean = int64(r.Pick(3, 10, 30, 100))
	w.Sched.SyncP = r.Pick(64, 128, 200, 256)
	w.Sched.Pool = r.PickS("lifo", "lifo", "fifo", "random", "random", "drop", "miss")
	return w
}

func bitsWorld(r *gen.Rng) *spec.World {
	w := &spec.World{}
	for k := 0; k < 12; k++ {
		n := r.Pick(0, 1, 2, 3, 7, 8, 9, 16, 40, 40, 200, 1000)
		d := make([]byte, n)
		style := r.N(4)
		for i := range d {
			d[i] = byte(r.Next())
			switch style {
			case 1:
				d[i] |= byte(r.Next()) | byte(r.Next()) // long variable-length numbers
			case 2:
				d[i] &= byte(r.Next()) & byte(r.Next())
			}
		}
		o := spec.Op{Kind: "bits", Bits: d}
		if r.P(2, 3) {
			o.IO = delivery(r)
			o.IO.Lat = 0
			if r.P(1, 3) {
				o.IO.Faults = append(o.IO.Faults, readFault(r, int64(n), 20, 4))
			}
		}
		for j := 0; j < r.Range(2, 40); j++ {
			a := spec.Act{K: r.PickS("bits", "bits", "bits", "bool", "byte", "enum", "u32", "f16", "icc", "u64", "u8", "show", "show", "atend", "skipbits", "skip", "bytes64", "buf", "at", "pad", "seek", "seekcur", "reset", "bits", "pad")}
			switch a.K {
			case "bits":
				a.N = int64(r.Pick(0, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 40, 56, 57, 63, 64))
			case "u32":
				a.N = int64(r.N(5))
			case "show":
				a.N = int64(r.Pick(1, 2, 7, 8, 9, 15, 16, 24, 32, 33, 40, 63, 64))
			case "skipbits":
				a.N = int64(r.Pick(0, 1, 3, 7, 8, 9, 16, 17, 64, 100, 8*n, r.N(8*n+9)))
			case "skip":
				a.N = int64(r.Pick(0, 1, 2, 3, 9, n, r.N(n+2)))
			case "bytes64":
				a.N = int64(r.N(9))
			case "buf":
				a.N = int64(r.Pick(0, 1, 2, 5, r.N(n+3)))
			case "at":
				a.N = int64(r.Pick(1, 2, 5, r.N(n+3)))
				a.M = int64(r.N(n + 3))
			case "seek":
				a.N = int64(r.N(n + 2))
			case "seekcur":
				a.N = int64(r.N(5))
			}
			o.Acts = append(o.Acts, a)
		}
		w.Setup = append(w.Setup, o)
	}
	w.Sched = seqSched()
	return w
}
