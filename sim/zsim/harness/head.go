package main

import (
	"crypto/sha256"
	"fmt"
	"math"
	"sort"
	"strings"

	"JXLMOD/bundle"
	"JXLMOD/core"
	"JXLMOD/zsim/gen"
)

// headFields are what a header says, as the decoder tells it, with the names
// of gen.Field.
func headFields(h *bundle.ImageHeader) map[string]gen.Field {
	out := map[string]gen.Field{}
	text := func(name, format string, a ...any) {
		out[name] = gen.Field{Name: name, Text: fmt.Sprintf(format, a...)}
	}
	nums := func(name string, v ...float32) {
		f := gen.Field{Name: name}
		for _, x := range v {
			f.Nums = append(f.Nums, float64(x))
		}
		out[name] = f
	}
	text("size", "%dx%d", h.Size.Width, h.Size.Height)
	text("oriented size", "%dx%d", h.OrientedWidth, h.OrientedHeight)
	text("orientation", "%d", h.Orientation)
	text("preview", "0x0")
	if h.PreviewSize != nil {
		text("preview", "%dx%d", h.PreviewSize.Width, h.PreviewSize.Height)
	}
	text("depth", "%d %d %v", h.BitDepth.BitsPerSample, h.BitDepth.ExpBits, h.BitDepth.UsesFloatSamples)
	text("narrow", "%v", h.Modular16BitBuffers)
	text("xyb", "%v", h.XybEncoded)
	text("extra channels", "%d", len(h.ExtraChannelInfo))
	for i, e := range h.ExtraChannelInfo {
		text(fmt.Sprintf("extra channel %d", i), "type %d depth %d %d %v shift %d name %q premultiplied %v cfa %d", e.EcType, e.BitDepth.BitsPerSample, e.BitDepth.ExpBits, e.BitDepth.UsesFloatSamples, e.DimShift, e.Name, e.AlphaAssociated, e.CfaIndex)
		nums(fmt.Sprintf("spot colour %d", i), e.Red, e.Green, e.Blue, e.Solidity)
	}
	text("alpha channels", "%s", strings.Trim(fmt.Sprint(h.AlphaIndices), "[]"))
	if c := h.ColourEncoding; c != nil {
		text("colour space", "%d profile %v", c.ColourEncoding, c.UseIccProfile)
		text("white point", "%d", c.WhitePoint)
		text("primaries", "%d", c.Primaries)
		if c.White != nil {
			nums("white", c.White.X, c.White.Y)
		}
		if p := c.Prim; p != nil {
			nums("primary colours", p.Red.X, p.Red.Y, p.Green.X, p.Green.Y, p.Blue.X, p.Blue.Y)
		}
		text("transfer function", "%d", c.Tf)
		text("intent", "%d", c.RenderingIntent)
	}
	if t := h.ToneMapping; t != nil {
		nums("tone mapping", t.IntensityTarget, t.MinNits, t.LinearBelow)
		text("relative", "%v", t.RelativeToMaxDisplay)
	}
	if e := h.Extensions; e != nil {
		text("extensions", "%x", e.ExtensionsKey)
		for i, p := range e.Payloads {
			if len(p) > 0 {
				text(fmt.Sprintf("extension %d", i), "%x", p)
			}
		}
	}
	if o := h.OpsinInverseMatrix; o != nil {
		var m []float32
		for _, r := range o.Matrix {
			m = append(m, r...)
		}
		nums("matrix", m...)
		nums("bias", o.OpsinBias...)
		nums("quantiser bias", append(append([]float32{}, o.QuantBias...), o.QuantBiasNumerator)...)
	}
	nums("weights 1", h.Up2Weights...)
	nums("weights 2", h.Up4Weights...)
	nums("weights 3", h.Up8Weights...)
	p, err := h.GetDecodedICC()
	text("profile", "%s", gen.Digest(p))
	if err != nil {
		text("profile", "error %s", clip(err.Error()))
	}
	return out
}

// headDigest is a digest of all that a header says.
func headDigest(h *bundle.ImageHeader) string {
	f := headFields(h)
	var names []string
	for n := range f {
		names = append(names, n)
	}
	sort.Strings(names)
	d := sha256.New()
	for _, n := range names {
		fmt.Fprintf(d, "%s: %q %v\n", n, f[n].Text, f[n].Nums)
	}
	return sum(d)
}

// headTruth holds a header against what was written.
func headTruth(h *bundle.ImageHeader, t *gen.Image) string {
	if t == nil || t.Head == nil {
		return ""
	}
	got := headFields(h)
	for _, w := range t.Head {
		g := got[w.Name]
		ok := g.Text == w.Text && len(g.Nums) == len(w.Nums)
		for i := 0; ok && i < len(w.Nums); i++ {
			ok = math.Abs(g.Nums[i]-w.Nums[i]) <= 3e-6*max(0.01, math.Abs(w.Nums[i]))
		}
		if !ok {
			if w.Nums != nil {
				return fmt.Sprintf("%s: %.7v instead of %.7v", w.Name, g.Nums, w.Nums)
			}
			return fmt.Sprintf("%s: %q instead of %q", w.Name, g.Text, w.Text)
		}
	}
	return "same"
}

// imageTruth holds what a decoded image tells about itself against what the
// header said.
func imageTruth(im *core.JXLImage, t *gen.Image) string {
	if t == nil || t.MustFail || len(im.Buffer) == 0 {
		return ""
	}
	extra := len(t.Depths) - t.Colours
	if n := im.NumExtraChannels(); n != extra {
		return fmt.Sprintf("the image tells of %d extra channels instead of %d", n, extra)
	}
	if im.HasAlpha() != (t.Alpha >= 0) {
		return fmt.Sprintf("the image tells of an alpha channel: %v", im.HasAlpha())
	}
	if im.IsIntBased() == im.IsFloatBased() || im.IsIntBased() != im.Buffer[0].IsInt() {
		return fmt.Sprintf("the image says that its samples are integers: %v, and floating point: %v", im.IsIntBased(), im.IsFloatBased())
	}
	for _, f := range t.Head {
		var n int
		var k int32
		if _, err := fmt.Sscanf(f.Name, "extra channel %d", &n); err != nil {
			continue
		}
		if _, err := fmt.Sscanf(f.Text, "type %d ", &k); err != nil {
			continue
		}
		got, err := im.GetExtraChannelType(n)
		if err != nil {
			return fmt.Sprintf("the type of extra channel %d: %v", n, err)
		}
		if got != k {
			return fmt.Sprintf("the image says that extra channel %d is of type %d instead of %d", n, got, k)
		}
	}
	for _, c := range []int{-1, extra} {
		if _, err := im.GetExtraChannelType(c); err == nil {
			return fmt.Sprintf("the image tells the type of extra channel %d of %d", c, extra)
		}
	}
	for _, c := range []int{-1, len(im.Buffer)} {
		if _, err := im.GetIntChannelData(c); err == nil {
			return fmt.Sprintf("the image has a channel %d", c)
		}
		if _, err := im.GetFloatChannelData(c); err == nil {
			return fmt.Sprintf("the image has a channel %d", c)
		}
	}
	for c := range im.Buffer {
		b := &im.Buffer[c]
		d, err := im.GetIntChannelData(c)
		f, err2 := im.GetFloatChannelData(c)
		if err != nil || err2 != nil {
			return fmt.Sprintf("channel %d: %v %v", c, err, err2)
		}
		if b.IsInt() && (len(d) != len(b.IntBuffer) || len(d) > 0 && &d[0] != &b.IntBuffer[0]) ||
			b.IsFloat() && (len(f) != len(b.FloatBuffer) || len(f) > 0 && &f[0] != &b.FloatBuffer[0]) {
			return fmt.Sprintf("the samples of channel %d are not those of the image", c)
		}
	}
	return ""
}
