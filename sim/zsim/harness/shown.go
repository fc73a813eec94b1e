package main

import (
	"bytes"
	"crypto/sha256"
	"fmt"
	"image"
	"image/png"
	"math"

	"JXLMOD/core"
	"JXLMOD/zsim/gen"
)

// What an export shows, against the samples of the decoded image.

// judgeable tells whether the colours of exports are known.
func judgeable(t *gen.Image) bool {
	return t != nil && t.Shown != nil && !t.Shown.HDR && !t.MustFail
}

func oetf(v float64) float64 {
	if v <= 0.0031308 {
		return 12.92 * v
	}
	return 1.055*math.Pow(v, 1/2.4) - 0.055
}

// shown is the range of values that a component of an export may have.
func shown(im *core.JXLImage, t *gen.Image, k, x, y, bits int) (lo, hi float64) {
	mt := float64(int64(1)<<uint(bits) - 1)
	get := func(c int) (float64, bool) {
		b := &im.Buffer[c]
		if b.IsInt() {
			return float64(b.IntBuffer[y][x]) / float64(int64(1)<<uint(t.Depths[c])-1), true
		}
		return float64(b.FloatBuffer[y][x]), false
	}
	c := k
	if k >= t.Colours {
		c = t.Colours + t.Alpha
	}
	v, whole := get(c)
	off := 1e-6 * math.Abs(v)
	lo, hi = v-off, v+off
	if whole && bits == t.Depths[c] {
		lo, hi = v, v
	}
	if t.Shown.Linear && k < t.Colours {
		if t.Colours == 3 && !t.Shown.Same {
			v, off = 0, 1e-9
			for i := 0; i < 3; i++ {
				s, _ := get(i)
				v += t.Shown.M[k][i] * s
				off += 2e-6 * (1 + math.Abs(t.Shown.M[k][i])) * math.Abs(s)
			}
		}
		lo, hi = oetf(v-off), oetf(v+off)
	}
	e := 0.02
	if whole && bits == t.Depths[c] {
		e = 0
	}
	if math.IsNaN(lo) || math.IsInf(lo, 0) || math.IsInf(hi, 0) {
		return 0, mt
	}
	to := func(v float64) float64 { return max(0, min(mt, math.Floor(v+0.5))) }
	return to(lo*mt - e), to(hi*mt + e)
}

// shownPNG holds a PNG file against the decoded samples.
func shownPNG(d []byte, im *core.JXLImage, t *gen.Image) string {
	if !judgeable(t) {
		return ""
	}
	if len(t.Profile) == 0 && !bytes.Contains(d[:min(len(d), 200)], []byte("sRGB")) {
		return "PNG: nothing says that the colours are sRGB"
	}
	m, err := png.Decode(bytes.NewReader(d))
	if err != nil {
		return "PNG: " + err.Error()
	}
	bits := 8
	if t.Bits > 8 {
		bits = 16
	}
	return shownAs("PNG", m, bits, im, t)
}

func shownStd(m image.Image, im *core.JXLImage, t *gen.Image) string {
	if !judgeable(t) {
		return ""
	}
	return shownAs("image", m, 8, im, t)
}

func shownAs(what string, m image.Image, bits int, im *core.JXLImage, t *gen.Image) string {
	b := m.Bounds()
	if b.Dx() != t.W || b.Dy() != t.H {
		return fmt.Sprintf("%s: %dx%d instead of %dx%d", what, b.Dx(), b.Dy(), t.W, t.H)
	}
	for y := 0; y < t.H; y++ {
		for x := 0; x < t.W; x++ {
			var got []int
			deep := false
			switch v := m.(type) {
			case *image.RGBA:
				c := v.RGBAAt(x, y)
				got = []int{int(c.R), int(c.G), int(c.B)}
			case *image.NRGBA:
				c := v.NRGBAAt(x, y)
				got = []int{int(c.R), int(c.G), int(c.B), int(c.A)}
			case *image.RGBA64:
				c := v.RGBA64At(x, y)
				got, deep = []int{int(c.R), int(c.G), int(c.B)}, true
			case *image.NRGBA64:
				c := v.NRGBA64At(x, y)
				got, deep = []int{int(c.R), int(c.G), int(c.B), int(c.A)}, true
			case *image.Gray:
				got = []int{int(v.GrayAt(x, y).Y)}
			case *image.Gray16:
				got, deep = []int{int(v.Gray16At(x, y).Y)}, true
			}
			if deep != (bits == 16) {
				return fmt.Sprintf("%s: %T for %d bits", what, m, t.Bits)
			}
			if t.Colours == 1 && len(got) >= 3 { // grey with alpha
				if got[0] != got[1] || got[0] != got[2] {
					return what + ": colours in a grey image"
				}
				got = append(got[:1], got[3:]...)
			}
			for k := range got {
				if k >= t.Colours && t.Alpha < 0 {
					if got[k] != 1<<uint(bits)-1 {
						return fmt.Sprintf("%s: pixel %d,%d of an image without alpha has alpha %d", what, x, y, got[k])
					}
					continue
				}
				lo, hi := shown(im, t, k, x, y, bits)
				if g := float64(got[k]); g < lo || g > hi {
					c := k
					if k >= t.Colours {
						c = t.Colours + t.Alpha
					}
					return fmt.Sprintf("%s: component %d of pixel %d,%d is %d instead of %g to %g; the sample is %s of %s", what, k, x, y, got[k], lo, hi, sampleText(im, c, x, y), sampleTexts(im, t, x, y))
				}
			}
		}
	}
	return "same"
}

func sampleText(im *core.JXLImage, c, x, y int) string {
	b := &im.Buffer[c]
	if b.IsInt() {
		return fmt.Sprint(b.IntBuffer[y][x])
	}
	return fmt.Sprint(b.FloatBuffer[y][x])
}

func sampleTexts(im *core.JXLImage, t *gen.Image, x, y int) (s string) {
	for c := range im.Buffer {
		s += sampleText(im, c, x, y) + " "
	}
	return s + fmt.Sprint(t.Shown.M)
}

// shownChannel holds the image of a single channel against its samples.
func shownChannel(m image.Image, im *core.JXLImage, t *gen.Image, c int) string {
	if t == nil || t.MustFail || c >= len(t.Depths) {
		return ""
	}
	g, ok := m.(*image.Gray)
	if !ok {
		return fmt.Sprintf("channel: %T", m)
	}
	b := &im.Buffer[c]
	for y := 0; y < int(im.Height); y++ {
		for x := 0; x < int(im.Width); x++ {
			var lo, hi float64
			switch {
			case b.IsInt() && t.Depths[c] == 8:
				lo = float64(b.IntBuffer[y][x])
				hi = lo
			case b.IsInt():
				v := 255 * float64(b.IntBuffer[y][x]) / float64(int64(1)<<uint(t.Depths[c])-1)
				off := 0.02 + 1e-6*math.Abs(v)
				lo, hi = math.Floor(v+0.5-off), math.Floor(v+0.5+off)
			default:
				v := 255 * float64(b.FloatBuffer[y][x])
				off := 0.02 + 1e-6*math.Abs(v)
				lo, hi = math.Floor(v+0.5-off), math.Floor(v+0.5+off)
			}
			if math.IsNaN(lo) || math.IsInf(lo, 0) || math.IsInf(hi, 0) {
				continue
			}
			lo, hi = max(0, min(255, lo)), max(0, min(255, hi))
			if v := float64(g.GrayAt(x, y).Y); v < lo || v > hi {
				return fmt.Sprintf("channel %d: pixel %d,%d is %v instead of %v to %v, decoded %s", c, x, y, v, lo, hi, sampleText(im, c, x, y))
			}
		}
	}
	return "same"
}

// edit replaces the samples of a channel by others of the same range, through
// the image's own methods.
func edit(im *core.JXLImage, c int) string {
	if c >= len(im.Buffer) {
		c = 0
	}
	before := make([]string, len(im.Buffer))
	for i := range im.Buffer {
		h := sha256.New()
		hashBuffer(h, &im.Buffer[i])
		before[i] = sum(h)
	}
	h, w := int(im.Height), int(im.Width)
	if im.Buffer[c].IsInt() {
		old, err := im.GetIntChannelData(c)
		if err != nil {
			return "reading a channel: " + err.Error()
		}
		d := make([][]int32, h)
		for y := range d {
			d[y] = make([]int32, w)
			for x := range d[y] {
				d[y][x] = old[h-1-y][w-1-x]
			}
		}
		if err := im.SetIntChannelData(c, d); err != nil {
			return "replacing a channel: " + err.Error()
		}
		for y := range d {
			for x := range d[y] {
				if im.Buffer[c].IntBuffer[y][x] != old[h-1-y][w-1-x] {
					return fmt.Sprintf("channel %d was not replaced", c)
				}
			}
		}
		if im.SetIntChannelData(-1, d) == nil || im.SetIntChannelData(len(im.Buffer), d) == nil {
			return "a channel was replaced that is not there"
		}
	} else {
		old, err := im.GetFloatChannelData(c)
		if err != nil {
			return "reading a channel: " + err.Error()
		}
		d := make([][]float32, h)
		for y := range d {
			d[y] = make([]float32, w)
			for x := range d[y] {
				d[y][x] = old[h-1-y][w-1-x]
			}
		}
		if err := im.SetFloatChannelData(c, d); err != nil {
			return "replacing a channel: " + err.Error()
		}
		for y := range d {
			for x := range d[y] {
				if math.Float32bits(im.Buffer[c].FloatBuffer[y][x]) != math.Float32bits(old[h-1-y][w-1-x]) {
					return fmt.Sprintf("channel %d was not replaced", c)
				}
			}
		}
		if im.SetFloatChannelData(-1, d) == nil || im.SetFloatChannelData(len(im.Buffer), d) == nil {
			return "a channel was replaced that is not there"
		}
	}
	for i := range im.Buffer {
		h := sha256.New()
		hashBuffer(h, &im.Buffer[i])
		if i != c && sum(h) != before[i] {
			return fmt.Sprintf("replacing channel %d changed channel %d", c, i)
		}
	}
	return ""
}
