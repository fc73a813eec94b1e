package gen

import "math"

// Frames that are composed to one image.

// What composition there may be, Params.Comp
const (
	CompModes  = 1 << iota // blend modes other than replacing
	CompSlots              // reference slots other than the first
	CompTypes              // invisible and skippable frames
	CompBounds             // frames that reach over the borders of the image
	CompMixed              // extra channels with modes of their own
)

const (
	modeReplace = iota
	modeAdd
	modeBlend
	modeMulAdd
	modeMul
)

// blend says how a frame is laid over another one.
type blend struct {
	mode, alpha int
	clamp       bool
	source      int
}

// write writes the blending of the colours (ec < 0) or of an extra channel.
func (b blend) write(w *BitWriter, extra bool, full bool) {
	w.U32(uint64(b.mode), [8]int{0, 0, 1, 0, 2, 0, 3, 2})
	weighted := extra && (b.mode == modeBlend || b.mode == modeMulAdd)
	if weighted {
		w.U32(uint64(b.alpha), [8]int{0, 0, 1, 0, 2, 0, 3, 3})
	}
	if weighted || b.mode == modeMul {
		w.Bool(b.clamp)
	}
	if b.mode != modeReplace || !full {
		w.Bits(uint64(b.source), 2)
	}
}

// planes are the samples of an image, from 0 to 1.
type planes [][]float64

// composer keeps what the frames add up to.
type composer struct {
	p     *Params
	now   planes
	refs  [4]planes
	exact bool // all samples so far are sums of integers
}

func newComposer(p *Params) *composer { return &composer{p: p, exact: true} }

// plan lays out the frames.
func (k *composer) plan(r *Rng) []*frame {
	p := k.p
	var fs []*frame
	alphas := p.alphas()
	used := []int{0}
	up := 1 << uint(p.Ups)
	modes := 5
	if r.P(1, 3) {
		modes = 2 // nothing but sums: the samples stay integers
	}
	for i := 0; i <= p.Frames; i++ {
		f := &frame{w: p.W, h: p.H, last: i == p.Frames, ups: p.Ups}
		f.blends = make([]blend, 1+p.Extra)
		if i > 0 {
			f.crop = true
			f.w, f.h = r.Range(1, p.W), r.Range(1, p.H)
			f.x, f.y = r.N(p.W-f.w+1), r.N(p.H-f.h+1)
			if p.Comp == 0 && i > 1 && r.P(1, 5) && !f.last {
				// a full frame that replaces everything
				f.crop, f.x, f.y, f.w, f.h = false, 0, 0, p.W, p.H
			}
		}
		if p.Comp != 0 && i > 0 {
			switch {
			case r.P(1, 4):
				f.crop, f.x, f.y, f.w, f.h = false, 0, 0, p.W, p.H
			case p.Comp&CompBounds != 0 && r.P(2, 3):
				f.x, f.y = r.Range(-f.w+1, p.W-1), r.Range(-f.h+1, p.H-1)
			case p.Comp&CompBounds != 0 && r.P(1, 3):
				f.x, f.y = -r.N(20), -r.N(20)
				f.w, f.h = p.W-f.x+r.N(20), p.H-f.y+r.N(20)
			}
		} else if p.Comp&CompBounds != 0 && r.P(1, 3) {
			// the first frame need not cover the image
			f.crop = true
			f.w, f.h = r.Range(1, p.W+5), r.Range(1, p.H+5)
			f.x, f.y = r.Range(max(-3, 1-f.w), p.W-1), r.Range(max(-3, 1-f.h), p.H-1)
		}
		if p.Comp&CompTypes != 0 && !f.last && r.P(1, 3) {
			f.typ = r.Pick(2, 3)
			if f.typ == 2 {
				f.crop, f.x, f.y, f.w, f.h = false, 0, 0, p.W, p.H
			}
		}
		src := 0
		if p.Comp&CompSlots != 0 {
			f.save = r.N(4)
			src = used[r.N(len(used))]
			if r.P(1, 6) {
				src = r.N(4)
			}
			used = append(used, f.save)
		}
		for c := range f.blends {
			b := &f.blends[c]
			b.source = src
			if c > 0 && p.Comp&CompMixed == 0 {
				b.mode, b.clamp = f.blends[0].mode, f.blends[0].clamp
				b.alpha = f.blends[0].alpha
			} else if p.Comp&CompModes != 0 && r.P(3, 4) {
				b.mode = r.N(modes)
				if modes == 2 {
					b.mode = r.Pick(modeReplace, modeAdd, modeAdd)
				}
				b.clamp = r.P(1, 2)
				if len(alphas) > 0 {
					b.alpha = alphas[r.N(len(alphas))]
				}
			}
			if b.mode == modeBlend || b.mode == modeMulAdd {
				if len(alphas) == 0 {
					b.alpha = 0
					if p.Extra > 0 {
						b.mode = modeAdd
					}
				}
			}
			if c > 0 && b.mode == modeAdd && p.isAlpha(c-1) {
				b.mode = modeReplace // alpha stays within 0 and 1
			}
		}
		if f.typ == 2 {
			f.blends = make([]blend, 1+p.Extra)
		}
		f.cw, f.ch = f.w, f.h
		f.w, f.h = (f.w+up-1)/up, (f.h+up-1)/up
		fs = append(fs, f)
	}
	return fs
}

// alphas are the numbers of the extra channels that are alpha.
func (p *Params) alphas() []int {
	var a []int
	for i := 0; i < p.Extra; i++ {
		if p.isAlpha(i) {
			a = append(a, i)
		}
	}
	return a
}

// add lays a frame over what there is.
func (k *composer) add(f *frame) {
	p := k.p
	n := len(f.pix)
	colours := n - p.Extra
	depths := p.depths()
	out := make(planes, n)
	fg := make(planes, n)
	for c := range fg {
		fg[c] = make([]float64, f.w*f.h)
		top := float64(int64(1)<<uint(depths[c]) - 1)
		for i, v := range f.pix[c].d {
			fg[c][i] = float64(v) / top
		}
	}
	if p.Filters != 0 || p.Ups > 0 {
		k.exact = false
		k.refine(f, fg)
	}
	if f.typ == 2 {
		k.refs[f.save] = fg
		return
	}
	clamp := func(b blend, v float64) float64 {
		if b.clamp {
			return max(0, min(1, v))
		}
		return v
	}
	fw, fh := f.cw, f.ch
	for c := range out {
		b := f.blends[max(0, c-colours+1)]
		if b.mode > modeAdd {
			k.exact = false
		}
		bg := func(c, at int) float64 {
			if ref := k.refs[b.source]; ref != nil {
				return ref[c][at]
			}
			return 0
		}
		out[c] = make([]float64, p.W*p.H)
		for y := 0; y < p.H; y++ {
			for x := 0; x < p.W; x++ {
				at := y*p.W + x
				fx, fy := x-f.x, y-f.y
				if fx < 0 || fy < 0 || fx >= fw || fy >= fh {
					out[c][at] = bg(c, at)
					continue
				}
				from := fy*fw + fx
				v := fg[c][from]
				old, newA := 1.0, 1.0
				ac := colours + b.alpha
				if p.Extra > 0 && (b.mode == modeBlend || b.mode == modeMulAdd) {
					old, newA = bg(ac, at), clamp(b, fg[ac][from])
				}
				switch b.mode {
				case modeAdd:
					v += bg(c, at)
				case modeBlend:
					a := old + newA*(1-old)
					switch {
					case p.Extra == 0:
					case c == ac:
						v = a
					case p.Premult:
						v += bg(c, at) * (1 - newA)
					case a > 0:
						v = (v*newA + bg(c, at)*old*(1-newA)) / a
					default:
						v = 0
					}
				case modeMulAdd:
					if p.Extra > 0 && c == ac {
						v = old
					} else {
						v = bg(c, at) + v*newA
					}
				case modeMul:
					v = clamp(b, v) * bg(c, at)
				}
				out[c][at] = v
			}
		}
	}
	k.now = out
	if !f.last {
		k.refs[f.save] = out
	}
}

// refine filters and upsamples the samples of a frame.
func (k *composer) refine(f *frame, fg planes) {
	p := k.p
	var l []*Plane
	for _, s := range fg {
		l = append(l, &Plane{f.w, f.h, s})
	}
	fl := p.filters()
	if p.Filters != 0 {
		stride := (f.w + 7) / 8
		sigma := make([]float64, stride*((f.h+7)/8))
		for i := range sigma {
			sigma[i] = fl.sigma
		}
		n := len(l) - p.Extra
		copy(l, fl.apply(l[:n], sigma, stride))
	}
	if p.Ups > 0 {
		var c *custom
		if p.Head&HeadCustom != 0 {
			c = p.custom(false)
		}
		for i := range l {
			l[i] = l[i].larger(p.Ups, c.upsampling(p.Ups)).crop(f.cw, f.ch)
		}
	}
	for i := range l {
		fg[i] = l[i].D
	}
}

// finish turns the image the right way round.
func (k *composer) finish(im *Image) {
	p := k.p
	im.W, im.H = p.W, p.H
	if p.Orientation > 4 {
		im.W, im.H = p.H, p.W
	}
	im.Summed = p.Comp&CompModes != 0
	im.Tol = 1e-5
	if p.Filters>>1&3 != 0 {
		im.Tol = 3e-4
	}
	for c, s := range k.now {
		top := float64(int64(1)<<uint(p.depths()[c]) - 1)
		ints, floats := make([]int32, len(s)), make([]float32, len(s))
		for y := 0; y < im.H; y++ {
			for x := 0; x < im.W; x++ {
				v := s[source(x, y, p.W, p.H, p.Orientation)]
				ints[y*im.W+x], floats[y*im.W+x] = int32(math.Round(v*top)), float32(v)
			}
		}
		if k.exact {
			im.Pixels = append(im.Pixels, ints)
		} else {
			im.Samples = append(im.Samples, floats)
		}
	}
}
