// Command harness runs one World inside the simulator and reports what
// happened. One process is one world: every package variable is fresh.
package main

import (
	"bytes"
	"compress/zlib"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"image"
	"image/color"
	"image/png"
	"io"
	"math"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"

	jxl "JXLMOD"
	"JXLMOD/core"
	img2 "JXLMOD/image"
	"JXLMOD/options"
	"JXLMOD/zsim/gen"
	"JXLMOD/zsim/rt"
	"JXLMOD/zsim/spec"
	zsync "JXLMOD/zsim/zsync"

	"github.com/sirupsen/logrus"
)

type input struct {
	data  []byte
	truth *gen.Image
}

type slot struct {
	img  *core.JXLImage
	pix  string
	in   int
	std  image.Image
	stdh string
	// a client replaced samples
	edited bool
}

var (
	world  spec.World
	result spec.Result
	inputs []*input
	slots  []slot
	out    string
)

func fail(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 3 {
		fail("usage: harness SPEC RESULT")
	}
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(200)
	logrus.SetOutput(io.Discard)
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fail("%v", err)
	}
	out = os.Args[2]
	if err := json.Unmarshal(b, &world); err != nil {
		fail("%v", err)
	}
	for i := range world.Inputs {
		in, err := load(&world.Inputs[i])
		if err != nil {
			fail("input %d: %v", i, err)
		}
		inputs = append(inputs, in)
	}
	slots = make([]slot, max(1, world.Slots))
	result.Setup = make([]spec.OpRes, len(world.Setup))
	result.Final = make([]spec.OpRes, len(world.Final))
	for _, c := range world.Clients {
		result.Clients = append(result.Clients, make([]spec.OpRes, len(c)))
	}
	s := world.Sched
	cfg := rt.Config{Policy: s.Policy, Seed: s.Seed, Mean: s.Mean, SyncP: s.SyncP, Depth: s.Depth, Span: s.Span,
		CPUs: s.CPUs, PoolMode: s.Pool, PoolSeed: s.PoolSeed, MapSeed: s.MapSeed, Budget: s.Budget,
		PerElem: s.PerElem, MaxElems: s.MaxElems, MaxHeap: s.MaxHeap}
	for _, t := range s.Trace {
		cfg.Trace = append(cfg.Trace, rt.Switch{Pt: t.P, To: t.T, Kind: t.K})
	}
	rt.OnFatal = func(kind, msg, stack string) {
		result.Fatal = &spec.Fatal{Kind: kind, Msg: msg, Stack: short(stack), Op: rt.CurOp() - 1}
		finish()
		os.Exit(0)
	}
	if len(world.Setup)+len(world.Final) == 0 && len(world.Clients) == 0 {
		fail("empty world")
	}
	rt.Start(cfg)
	base := 0
	for i := range world.Setup {
		runOp(base+i, -1, &world.Setup[i], &result.Setup[i])
	}
	base += len(world.Setup)
	if len(world.Clients) > 0 {
		var wg zsync.WaitGroup
		for c := range world.Clients {
			c, first := c, base
			base += len(world.Clients[c])
			wg.Add(1)
			rt.GoClient(func() {
				defer wg.Done()
				for i := range world.Clients[c] {
					runOp(first+i, c, &world.Clients[c][i], &result.Clients[c][i])
				}
			})
		}
		wg.Wait()
	}
	for i := range world.Final {
		runOp(base+i, -1, &world.Final[i], &result.Final[i])
	}
	rt.Stop()
	result.Done = true
	finish()
}

func finish() {
	st := rt.Snapshot()
	result.Stats = spec.Stats{Points: st.Points, SimNanos: st.SimNanos, Switches: st.Switches, Preempt: st.Preempt,
		SyncOps: st.SyncOps, Spawned: st.Spawned, MaxLive: st.MaxLive, MaxWork: st.MaxWork,
		Hash: fmt.Sprintf("%016x", st.Hash), PoolHit: st.PoolHit, PoolMiss: st.PoolMiss, PoolDrop: st.PoolDrop,
		Elems: st.Elems, MapRanges: st.MapRanges, LogFull: st.LogFull}
	result.Races = rt.RaceErrors()
	if world.KeepLog {
		for _, s := range rt.Log() {
			result.Log = append(result.Log, spec.Switch{P: s.Pt, T: s.To, K: s.Kind})
		}
	}
	b, err := json.Marshal(&result)
	if err != nil {
		fail("%v", err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fail("%v", err)
	}
}

func load(in *spec.Input) (*input, error) {
	r := &input{}
	switch {
	case in.Gen != nil:
		r.truth = gen.Build(*in.Gen)
		r.data = r.truth.Codestream
	case in.File != "":
		b, err := os.ReadFile(in.File)
		if err != nil {
			return nil, err
		}
		r.data = b
	default:
		r.data = in.B64
	}
	if in.Layout != nil {
		r.data = in.Layout.Wrap(r.data)
	}
	if in.Pad > 0 {
		r.data = append(append([]byte{}, r.data...), make([]byte, in.Pad)...)
	}
	if len(in.Muts) > 0 {
		r.data = gen.Apply(r.data, in.Muts)
	}
	return r, nil
}

func short(s string) string {
	lines := strings.Split(s, "\n")
	var o []string
	for _, l := range lines {
		if strings.Contains(l, "/zsim/") || strings.HasPrefix(l, "panic(") || strings.Contains(l, "runtime/") {
			continue
		}
		o = append(o, l)
		if len(o) > 24 {
			break
		}
	}
	return strings.Join(o, "\n")
}

func runOp(id, client int, op *spec.Op, r *spec.OpRes) {
	rt.SetOp(int32(id + 1))
	p0 := rt.Points()
	func() {
		defer func() {
			if e := recover(); e != nil {
				r.Status = "panic"
				r.Err = fmt.Sprint(e)
				r.Stack = short(string(debug.Stack()))
			}
		}()
		do(client, op, r)
	}()
	r.Points = rt.Points() - p0
	r.Work = rt.OpWork(int32(id + 1))
	r.Leak = rt.Quiesce(int32(id + 1))
	rt.SetOp(0)
}

func opts(op *spec.Op) *options.JXLOptions {
	if op.Max == 0 {
		return nil
	}
	o := options.NewJXLOptions(nil)
	o.MaxGoroutines = op.Max
	return o
}

func setErr(r *spec.OpRes, err error) {
	r.Status = "err"
	r.Err = clip(err.Error())
	r.Sim = errors.Is(err, errSim)
}

func clip(s string) string {
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func isNil(v any) bool {
	if v == nil {
		return true
	}
	x := reflect.ValueOf(v)
	switch x.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Interface:
		return x.IsNil()
	}
	return false
}

// verdict sorts out the combinations of result and error.
func verdict(r *spec.OpRes, v any, err error) bool {
	n := isNil(v)
	switch {
	case err != nil && n:
		setErr(r, err)
	case err != nil:
		setErr(r, err)
		r.Status = "both"
	case n:
		r.Status = "neither"
	default:
		r.Status = "ok"
		return true
	}
	return false
}

func do(client int, op *spec.Op, r *spec.OpRes) {
	switch op.Kind {
	case "pool":
		runPool(client, op, r)
		return
	case "poolmetrics":
		poolMetrics(r)
		return
	case "bits":
		runBits(op, r)
		return
	case "region":
		region(op, r)
		return
	case "rehash", "png", "pfm", "toimage", "chan", "drop", "restd", "getters", "edit":
		export(op, r)
		return
	}
	in := inputs[op.In]
	src := newSource(in.data, op.IO)
	defer func() {
		r.Fired = src.fired
		r.N, r.Calls, r.Seeks = src.n, src.calls, src.seeks
	}()
	switch op.Kind {
	case "decode", "hdrdec", "decdec":
		dec := core.NewJXLDecoder(src, opts(op))
		hw, hh := -1, -1
		if op.Kind == "hdrdec" {
			h, err := dec.GetImageHeader()
			if !verdict(r, h, err) {
				return
			}
			hw, hh = int(h.OrientedWidth), int(h.OrientedHeight)
			r.Head = headTruth(h, in.truth)
			r.Bytes = headDigest(h)
		}
		first := ""
		if op.Kind == "decdec" {
			im, err := dec.Decode()
			if !verdict(r, im, err) {
				return
			}
			first = hashImage(im)
		}
		im, err := dec.Decode()
		if !verdict(r, im, err) {
			if op.Kind == "decdec" && !src.errFired() {
				r.Viol = "decoding again with the same decoder failed: " + r.Err
			}
			return
		}
		r.W, r.H = int(im.Width), int(im.Height)
		r.Pix = hashImage(im)
		r.Truth = compare(im, in.truth)
		if r.Head == "" || r.Head == "same" {
			if v := imageTruth(im, in.truth); v != "" {
				r.Head = v
			}
		}
		if hw >= 0 && (hw != r.W || hh != r.H) {
			r.Viol = fmt.Sprintf("the header said %dx%d, the decode gave %dx%d", hw, hh, r.W, r.H)
		}
		if first != "" && first != r.Pix {
			r.Viol = "decoding again with the same decoder gave another image"
		}
		if op.Slot > 0 {
			slots[op.Slot-1] = slot{img: im, pix: r.Pix, in: op.In}
		}
	case "header":
		dec := core.NewJXLDecoder(src, opts(op))
		h, err := dec.GetImageHeader()
		if !verdict(r, h, err) {
			return
		}
		r.W, r.H = int(h.OrientedWidth), int(h.OrientedHeight)
		r.Truth = sizeTruth(r, in.truth)
		r.Head = headTruth(h, in.truth)
		r.Bytes = headDigest(h)
	case "config", "stdconfig":
		var rd io.Reader = src
		if op.IO != nil && op.IO.NoSeek {
			rd = justReader{src}
		}
		var c image.Config
		var err error
		if op.Kind == "config" {
			c, err = jxl.DecodeConfig(rd)
		} else {
			c, _, err = image.DecodeConfig(rd)
		}
		if err != nil {
			setErr(r, err)
			return
		}
		r.Status = "ok"
		r.W, r.H = c.Width, c.Height
		r.Model = modelName(c.ColorModel)
		if c.Width == 0 && c.Height == 0 {
			r.Status = "neither"
		}
		r.Truth = sizeTruth(r, in.truth)
	case "std", "stdimage":
		var rd io.Reader = src
		if op.IO != nil && op.IO.NoSeek {
			rd = justReader{src}
		}
		var im image.Image
		var err error
		if op.Kind == "std" {
			im, err = jxl.Decode(rd)
		} else {
			im, _, err = image.Decode(rd)
		}
		if !verdict(r, im, err) {
			return
		}
		r.W, r.H = im.Bounds().Dx(), im.Bounds().Dy()
		r.Pix = hashStd(im)
		r.Model = modelName(im.ColorModel())
		r.Truth = compareStd(im, in.truth)
		if op.Slot > 0 {
			slots[op.Slot-1].std = im
			slots[op.Slot-1].stdh = r.Pix
		}
	default:
		fail("unknown operation %q", op.Kind)
	}
}

func modelName(m color.Model) string {
	switch m {
	case color.NRGBAModel:
		return "NRGBA"
	case color.RGBAModel:
		return "RGBA"
	case color.NRGBA64Model:
		return "NRGBA64"
	case color.RGBA64Model:
		return "RGBA64"
	case color.GrayModel:
		return "Gray"
	case color.Gray16Model:
		return "Gray16"
	}
	return fmt.Sprintf("%T", m)
}

func sizeTruth(r *spec.OpRes, t *gen.Image) string {
	if t == nil {
		return ""
	}
	if r.W != t.W || r.H != t.H {
		return fmt.Sprintf("size %dx%d instead of %dx%d", r.W, r.H, t.W, t.H)
	}
	return "same"
}

func export(op *spec.Op, r *spec.OpRes) {
	s := &slots[op.Slot-1]
	if op.Kind == "restd" {
		if s.std == nil {
			r.Status = "skip"
			return
		}
		r.Status = "ok"
		if r.Pix = hashStd(s.std); r.Pix != s.stdh {
			r.Viol = "a converted image changed after it was returned"
		}
		return
	}
	if op.Kind == "drop" {
		*s = slot{}
		r.Status = "ok"
		return
	}
	if s.img == nil {
		r.Status = "skip"
		return
	}
	truth := inputs[s.in].truth
	known := truth // what was decoded, unless a client changed it
	if s.edited && truth != nil {
		k := *truth
		k.Pixels, k.Samples = nil, nil
		known = &k
	}
	switch op.Kind {
	case "edit":
		r.Status = "ok"
		r.Viol = edit(s.img, op.Chan)
		s.edited = true
	case "rehash":
		r.Status = "ok"
		if r.Pix = hashImage(s.img); r.Pix != s.pix {
			r.Viol = "the pixels of an image changed after it was returned"
		}
	case "getters":
		h := sha256.New()
		for c := range s.img.Buffer {
			if s.img.Buffer[c].IsFloat() {
				d, err := s.img.GetFloatChannelData(c)
				if err != nil {
					setErr(r, err)
					return
				}
				for _, row := range d {
					hashFloats(h, row)
				}
			} else {
				d, err := s.img.GetIntChannelData(c)
				if err != nil {
					setErr(r, err)
					return
				}
				for _, row := range d {
					hashInts(h, row)
				}
			}
		}
		r.Status = "ok"
		r.Bytes = sum(h)
	case "toimage":
		im, err := s.img.ToImage()
		if !verdict(r, im, err) {
			return
		}
		r.W, r.H = im.Bounds().Dx(), im.Bounds().Dy()
		r.Bytes = hashStd(im)
		r.Truth = compareStd(im, known)
		r.Shown = shownStd(im, s.img, truth)
	case "chan":
		im, err := s.img.ChannelToImage(op.Chan)
		if !verdict(r, im, err) {
			return
		}
		r.W, r.H = im.Bounds().Dx(), im.Bounds().Dy()
		r.Bytes = hashStd(im)
		if r.W != int(s.img.Width) || r.H != int(s.img.Height) {
			r.Viol = fmt.Sprintf("channel image is %dx%d", r.W, r.H)
			return
		}
		r.Shown = shownChannel(im, s.img, truth, op.Chan)
	case "png", "pfm":
		k := newSink(op.IO)
		var err error
		if op.Kind == "png" {
			err = (&core.PNGWriter{}).WritePNG(s.img, k)
		} else {
			err = core.WritePFM(s.img, k)
		}
		r.Fired = k.fired
		r.N, r.Calls = int64(len(k.data)), k.calls
		if err != nil {
			setErr(r, err)
			return
		}
		r.Status = "ok"
		h := sha256.New()
		h.Write(k.data)
		r.Bytes = sum(h)
		if k.errFired() {
			r.Viol = fmt.Sprintf("writing returned success although the destination failed (%d bytes accepted)", len(k.data))
			return
		}
		if op.Kind == "png" {
			r.Viol = checkPNG(k.data, s.img, known)
			r.Shown = shownPNG(k.data, s.img, truth)
		} else {
			r.Viol = checkPFM(k.data, s.img, known)
		}
	}
}

type hasher interface {
	io.Writer
	Sum([]byte) []byte
}

func sum(h hasher) string { return hex.EncodeToString(h.Sum(nil)[:8]) }

func hashFloats(h hasher, row []float32) {
	b := make([]byte, 0, 4*len(row))
	for _, v := range row {
		b = binary.LittleEndian.AppendUint32(b, math.Float32bits(v))
	}
	h.Write(b)
}

func hashInts(h hasher, row []int32) {
	b := make([]byte, 0, 4*len(row))
	for _, v := range row {
		b = binary.LittleEndian.AppendUint32(b, uint32(v))
	}
	h.Write(b)
}

func hashBuffer(h hasher, b *img2.ImageBuffer) {
	fmt.Fprintf(h, "%dx%d %d %d %d\n", b.Width, b.Height, b.BufferType, len(b.FloatBuffer), len(b.IntBuffer))
	for _, r := range b.FloatBuffer {
		fmt.Fprintf(h, "%d", len(r))
		hashFloats(h, r)
	}
	for _, r := range b.IntBuffer {
		fmt.Fprintf(h, "%d", len(r))
		hashInts(h, r)
	}
}

func hashImage(im *core.JXLImage) string {
	h := sha256.New()
	fmt.Fprintf(h, "%dx%d %d\n", im.Width, im.Height, len(im.Buffer))
	for i := range im.Buffer {
		hashBuffer(h, &im.Buffer[i])
	}
	return sum(h)
}

func hashStd(im image.Image) string {
	h := sha256.New()
	fmt.Fprintf(h, "%T %v\n", im, im.Bounds())
	switch v := im.(type) {
	case *image.NRGBA:
		h.Write(v.Pix)
	case *image.RGBA:
		h.Write(v.Pix)
	case *image.Gray:
		h.Write(v.Pix)
	case *image.NRGBA64:
		h.Write(v.Pix)
	case *image.Gray16:
		h.Write(v.Pix)
	default:
		b := im.Bounds()
		for y := b.Min.Y; y < b.Max.Y; y++ {
			for x := b.Min.X; x < b.Max.X; x++ {
				r, g, bl, a := im.At(x, y).RGBA()
				fmt.Fprint(h, r, g, bl, a)
			}
		}
	}
	return sum(h)
}

// sampleOf tells what a sample must be, as stored and from 0 to 1.
func sampleOf(t *gen.Image, c, at int) (stored int32, v float64) {
	if t.Pixels == nil {
		return 0, float64(t.Samples[c][at])
	}
	stored = t.Pixels[c][at]
	return stored, float64(stored) / float64(int64(1)<<uint(t.Depths[c])-1)
}

// channels is the number of channels whose samples are known.
func channels(t *gen.Image) int {
	if t == nil {
		return 0
	}
	return max(len(t.Pixels), len(t.Samples))
}

// compare holds a decoded image against the samples that were encoded.
func compare(im *core.JXLImage, t *gen.Image) string {
	if t == nil {
		return ""
	}
	if int(im.Width) != t.W || int(im.Height) != t.H {
		return fmt.Sprintf("size %dx%d instead of %dx%d", im.Width, im.Height, t.W, t.H)
	}
	if t.Look != nil {
		return compareLook(im, t)
	}
	if channels(t) == 0 {
		return ""
	}
	if len(im.Buffer) != channels(t) {
		return fmt.Sprintf("%d channels instead of %d", len(im.Buffer), channels(t))
	}
	bad, first := 0, ""
	for c := range im.Buffer {
		b := &im.Buffer[c]
		if b.IsInt() && len(b.IntBuffer) != t.H || b.IsFloat() && len(b.FloatBuffer) != t.H {
			return fmt.Sprintf("channel %d has the wrong number of rows", c)
		}
		maxv := float64(int64(1)<<uint(t.Depths[c]) - 1)
		for y := 0; y < t.H; y++ {
			if b.IsInt() && len(b.IntBuffer[y]) != t.W || b.IsFloat() && len(b.FloatBuffer[y]) != t.W {
				return fmt.Sprintf("channel %d row %d has the wrong length", c, y)
			}
			for x := 0; x < t.W; x++ {
				stored, v := sampleOf(t, c, y*t.W+x)
				var got, want any
				ok := false
				switch {
				case t.Pixels == nil:
					g := 0.0
					if b.IsInt() {
						g = float64(b.IntBuffer[y][x]) / maxv
					} else {
						g = float64(b.FloatBuffer[y][x])
					}
					got, want = g, v
					ok = math.Abs(g-v) <= t.Tol*max(1, math.Abs(v))
				case b.IsInt():
					g := b.IntBuffer[y][x]
					got, want, ok = g, stored, g == stored
				default:
					g := b.FloatBuffer[y][x]
					want = float32(stored) / float32(maxv)
					got, ok = g, g == want || t.Summed && math.Abs(float64(g)-v) <= t.Tol*max(1, math.Abs(v))
				}
				if !ok {
					if bad == 0 {
						first = fmt.Sprintf("channel %d x %d y %d is %v instead of %v", c, x, y, got, want)
					}
					bad++
				}
			}
		}
	}
	if bad > 0 {
		return fmt.Sprintf("%d samples differ, first: %s", bad, first)
	}
	return "same"
}

// compareLook holds a decoded image against what a lossy one looks like.
func compareLook(im *core.JXLImage, t *gen.Image) string {
	d := differ(im, t, t.Look)
	if d != "same" && t.Rough != nil {
		rough := append(append([]*gen.Plane{}, t.Rough...), t.Look[len(t.Rough):]...)
		if differ(im, t, rough) == "same" {
			return "not smoothed: " + d
		}
	}
	return d
}

func differ(im *core.JXLImage, t *gen.Image, look []*gen.Plane) string {
	if len(im.Buffer) != len(look) {
		return fmt.Sprintf("%d channels instead of %d", len(im.Buffer), len(look))
	}
	bad, first := 0, ""
	worst := 0.0
	for c, l := range look {
		b := &im.Buffer[c]
		if b.IsInt() && len(b.IntBuffer) != t.H || b.IsFloat() && len(b.FloatBuffer) != t.H {
			return fmt.Sprintf("channel %d has the wrong number of rows", c)
		}
		maxv := float64(int64(1)<<uint(t.Depths[c]) - 1)
		for y := 0; y < t.H; y++ {
			if b.IsInt() && len(b.IntBuffer[y]) != t.W || b.IsFloat() && len(b.FloatBuffer[y]) != t.W {
				return fmt.Sprintf("channel %d row %d has the wrong length", c, y)
			}
			for x := 0; x < t.W; x++ {
				g := 0.0
				if b.IsInt() {
					g = float64(b.IntBuffer[y][x]) / maxv
				} else {
					g = float64(b.FloatBuffer[y][x])
				}
				want, off := l.D[y*t.W+x], t.Off[c].D[y*t.W+x]
				if math.IsNaN(want) {
					continue
				}
				d := math.Abs(g-want) / off
				worst = max(worst, d)
				if !(d <= 1) {
					if bad == 0 {
						first = fmt.Sprintf("channel %d x %d y %d is %v instead of %v, which is %.3g times as far off as it may be", c, x, y, g, want, d)
					}
					bad++
				}
			}
		}
	}
	if os.Getenv("ZSIM_WORST") != "" {
		fmt.Fprintf(os.Stderr, "worst %.4g\n", worst)
	}
	if bad > 0 {
		return fmt.Sprintf("%d samples differ, first: %s", bad, first)
	}
	return "same"
}

// region compares an area of one image with another image, bit by bit. The
// act says where the other image lies (N, M) and how many samples next to a
// border inside the large image do not count (S).
func region(op *spec.Op, r *spec.OpRes) {
	whole, part := slots[op.Slot-1].img, slots[op.Chan-1].img
	if whole == nil || part == nil {
		r.Status = "skip"
		return
	}
	r.Status = "ok"
	x0, y0, margin := int(op.Acts[0].N), int(op.Acts[0].M), op.Acts[0].S
	w, h := int(part.Width), int(part.Height)
	r.W, r.H = w, h
	if len(whole.Buffer) != len(part.Buffer) {
		r.Viol = fmt.Sprintf("%d channels, the part has %d", len(whole.Buffer), len(part.Buffer))
		return
	}
	lx, ly, hx, hy := 0, 0, w, h
	if x0 > 0 {
		lx = margin
	}
	if y0 > 0 {
		ly = margin
	}
	if x0+w < int(whole.Width) {
		hx -= margin
	}
	if y0+h < int(whole.Height) {
		hy -= margin
	}
	bits := func(b *img2.ImageBuffer, x, y int) (uint32, any) {
		if b.IsInt() {
			return uint32(b.IntBuffer[y][x]), b.IntBuffer[y][x]
		}
		return math.Float32bits(b.FloatBuffer[y][x]), b.FloatBuffer[y][x]
	}
	bad, first := 0, ""
	for c := range part.Buffer {
		a, b := &whole.Buffer[c], &part.Buffer[c]
		if a.IsInt() != b.IsInt() {
			r.Viol = fmt.Sprintf("channel %d has samples of another kind", c)
			return
		}
		for y := ly; y < hy; y++ {
			for x := lx; x < hx; x++ {
				p, pv := bits(a, x0+x, y0+y)
				q, qv := bits(b, x, y)
				if p != q {
					if bad == 0 {
						first = fmt.Sprintf("channel %d x %d y %d is %v instead of %v", c, x0+x, y0+y, pv, qv)
					}
					bad++
				}
			}
		}
	}
	r.N = int64(max(0, hx-lx) * max(0, hy-ly))
	if bad > 0 {
		r.Viol = fmt.Sprintf("%d samples of the group at %d,%d (%dx%d) differ from those of the group by itself, first: %s", bad, x0, y0, w, h, first)
	}
}

// scaled is the range of acceptable values of a sample in a file of so many
// bits.
func scaled(t *gen.Image, c, at int, to int) (lo, hi int32) {
	mt := int32(1)<<uint(to) - 1
	stored, v := sampleOf(t, c, at)
	if t.Pixels != nil && t.Depths[c] == to {
		v := max(0, min(stored, mt))
		return v, v
	}
	x := max(0, min(1, v)) * float64(mt)
	return int32(math.Floor(x - 0.01)), int32(math.Ceil(x + 0.01))
}

func compareStd(im image.Image, t *gen.Image) string {
	if channels(t) == 0 || t.Shown != nil && t.Shown.HDR {
		return ""
	}
	b := im.Bounds()
	if b.Dx() != t.W || b.Dy() != t.H {
		return fmt.Sprintf("size %dx%d instead of %dx%d", b.Dx(), b.Dy(), t.W, t.H)
	}
	for y := 0; y < t.H; y++ {
		for x := 0; x < t.W; x++ {
			var got []uint8
			switch v := im.(type) {
			case *image.NRGBA:
				c := v.NRGBAAt(x, y)
				got = []uint8{c.R, c.G, c.B, c.A}
			case *image.Gray:
				got = []uint8{v.GrayAt(x, y).Y}
			default:
				return ""
			}
			for k := range got {
				c := k
				if k >= t.Colours {
					c = t.Colours + t.Alpha
				}
				if k >= t.Colours && t.Alpha < 0 {
					if got[k] != 255 {
						return fmt.Sprintf("pixel %d,%d of an image without alpha has alpha %d", x, y, got[k])
					}
					continue
				}
				lo, hi := scaled(t, c, y*t.W+x, 8)
				if lo != hi || t.Depths[c] != 8 {
					lo, hi = lo-1, hi+1
				}
				if g := int32(got[k]); g < lo || g > hi {
					return fmt.Sprintf("component %d of pixel %d,%d is %d instead of %d", k, x, y, g, lo)
				}
			}
		}
	}
	return "same"
}

// checkPNG reports what is wrong with a PNG file.
func checkPNG(d []byte, im *core.JXLImage, t *gen.Image) string {
	if !bytes.HasPrefix(d, []byte("\x89PNG\r\n\x1a\n")) {
		return "PNG: no signature"
	}
	p := 8
	kinds := ""
	body := map[string][]byte{}
	for p < len(d) {
		if p+12 > len(d) {
			return "PNG: incomplete chunk"
		}
		n := int(binary.BigEndian.Uint32(d[p:]))
		if n < 0 || p+12+n > len(d) {
			return "PNG: chunk is longer than the file"
		}
		k := string(d[p+4 : p+8])
		kinds += k + " "
		body[k] = d[p+8 : p+8+n]
		p += 12 + n
		if k == "IEND" && p != len(d) {
			return "PNG: data after the end"
		}
	}
	if !strings.HasPrefix(kinds, "IHDR ") || !strings.HasSuffix(kinds, "IDAT IEND ") {
		return "PNG: chunks " + kinds
	}
	if t != nil && len(t.Profile) > 0 {
		if s := checkProfile(body["iCCP"], t.Profile); s != "" {
			return "PNG: " + s
		}
		if body["sRGB"] != nil {
			return "PNG: the colours are said to be sRGB although there is a profile"
		}
	} else if b := body["sRGB"]; b != nil && t != nil && t.Head != nil {
		for _, f := range t.Head {
			if f.Name == "intent" && (len(b) != 1 || f.Text != fmt.Sprint(b[0])) {
				return fmt.Sprintf("PNG: rendering intent %v instead of %s", b, f.Text)
			}
		}
	}
	m, err := png.Decode(bytes.NewReader(d))
	if err != nil {
		return "PNG: " + err.Error()
	}
	b := m.Bounds()
	if b.Dx() != int(im.Width) || b.Dy() != int(im.Height) {
		return fmt.Sprintf("PNG: %dx%d instead of %dx%d", b.Dx(), b.Dy(), im.Width, im.Height)
	}
	if channels(t) == 0 || t.Shown != nil && t.Shown.HDR {
		// against the other export of the same image
		o, err := im.ToImage()
		if err != nil {
			return ""
		}
		if x, ok := m.(*image.RGBA); ok {
			if y, ok := o.(*image.NRGBA); ok && len(x.Pix) == len(y.Pix) {
				for i := range x.Pix {
					if x.Pix[i] != y.Pix[i] && i%4 < 3 {
						return fmt.Sprintf("PNG: component %d of pixel %d is %d, converting gives %d", i%4, i/4, x.Pix[i], y.Pix[i])
					}
				}
			}
		}
		if x, ok := m.(*image.NRGBA); ok {
			if y, ok := o.(*image.NRGBA); ok && len(x.Pix) == len(y.Pix) {
				for i := range x.Pix {
					if x.Pix[i] != y.Pix[i] {
						return fmt.Sprintf("PNG: component %d of pixel %d is %d, converting gives %d", i%4, i/4, x.Pix[i], y.Pix[i])
					}
				}
			}
		}
		return ""
	}
	depth := 8
	if t.Bits > 8 {
		depth = 16
	}
	alpha := t.Alpha >= 0
	for y := 0; y < t.H; y++ {
		for x := 0; x < t.W; x++ {
			var got []int32
			switch v := m.(type) {
			case *image.RGBA:
				c := v.RGBAAt(x, y)
				got = []int32{int32(c.R), int32(c.G), int32(c.B)}
			case *image.NRGBA:
				c := v.NRGBAAt(x, y)
				got = []int32{int32(c.R), int32(c.G), int32(c.B), int32(c.A)}
			case *image.RGBA64:
				c := v.RGBA64At(x, y)
				got = []int32{int32(c.R), int32(c.G), int32(c.B)}
			case *image.NRGBA64:
				c := v.NRGBA64At(x, y)
				got = []int32{int32(c.R), int32(c.G), int32(c.B), int32(c.A)}
			case *image.Gray:
				got = []int32{int32(v.GrayAt(x, y).Y)}
			case *image.Gray16:
				got = []int32{int32(v.Gray16At(x, y).Y)}
			}
			n := t.Colours
			if alpha {
				n++
			}
			if t.Colours == 1 && alpha && len(got) == 4 { // grey with alpha
				if got[0] != got[1] || got[0] != got[2] {
					return "PNG: colours in a grey image"
				}
				got = []int32{got[0], got[3]}
			}
			if len(got) != n {
				return fmt.Sprintf("PNG: %d components instead of %d (%T)", len(got), n, m)
			}
			for k := range got {
				c := k
				if k >= t.Colours {
					c = t.Colours + t.Alpha
				}
				lo, hi := scaled(t, c, y*t.W+x, depth)
				if got[k] < lo || got[k] > hi {
					return fmt.Sprintf("PNG: component %d of pixel %d,%d is %d instead of %d to %d (%d bit, written as %d bit)", k, x, y, got[k], lo, hi, t.Depths[c], depth)
				}
			}
		}
	}
	return ""
}

// checkProfile looks at the body of an iCCP chunk.
func checkProfile(b, want []byte) string {
	if b == nil {
		return "the colour profile is missing"
	}
	i := bytes.IndexByte(b, 0)
	if i < 1 || i > 79 || i+2 > len(b) || b[i+1] != 0 {
		return "the chunk of the colour profile is malformed"
	}
	z, err := zlib.NewReader(bytes.NewReader(b[i+2:]))
	if err != nil {
		return "the colour profile: " + err.Error()
	}
	got, err := io.ReadAll(z)
	if err != nil {
		return "the colour profile: " + err.Error()
	}
	if !bytes.Equal(got, want) {
		return fmt.Sprintf("the colour profile is of %s instead of %s", gen.Digest(got), gen.Digest(want))
	}
	return ""
}

func checkPFM(d []byte, im *core.JXLImage, t *gen.Image) string {
	var kind string
	var w, h int
	var scale float64
	n, err := fmt.Sscanf(string(d[:min(len(d), 64)]), "%2s\n%d %d\n%g\n", &kind, &w, &h, &scale)
	if err != nil || n != 4 {
		return fmt.Sprintf("PFM: bad header (%v)", err)
	}
	head := 0
	for nl := 0; nl < 3; head++ {
		if d[head] == '\n' {
			nl++
		}
	}
	ch := 3
	if kind == "Pf" {
		ch = 1
	} else if kind != "PF" {
		return "PFM: kind " + kind
	}
	if w != int(im.Width) || h != int(im.Height) {
		return fmt.Sprintf("PFM: %dx%d instead of %dx%d", w, h, im.Width, im.Height)
	}
	body := d[head:]
	if len(body) != 4*w*h*ch {
		return fmt.Sprintf("PFM: %d bytes of samples instead of %d", len(body), 4*w*h*ch)
	}
	var ord binary.ByteOrder = binary.BigEndian
	if scale < 0 {
		ord = binary.LittleEndian
	}
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			for c := 0; c < ch; c++ {
				got := math.Float32frombits(ord.Uint32(body[4*(((h-1-y)*w+x)*ch+c):]))
				b := &im.Buffer[c]
				var want float32
				switch {
				case channels(t) > 0:
					_, v := sampleOf(t, c, y*w+x)
					want = float32(v)
				case b.IsFloat():
					want = b.FloatBuffer[y][x]
				default:
					continue
				}
				if got != want && !(math.Abs(float64(got-want)) <= 1e-5*max(1, math.Abs(float64(want)))) {
					return fmt.Sprintf("PFM: component %d of pixel %d,%d is %v instead of %v", c, x, y, got, want)
				}
			}
		}
	}
	return ""
}
