package main

import (
	"encoding/json"
	"time"

	"JXLMOD/zsim/gen"
	"JXLMOD/zsim/spec"
)

// minimise makes a violating world smaller as long as it keeps violating the
// property in the same way.
type minimiser struct {
	judge func(w *spec.World, r *Run) *Violation
	class string
	end   time.Time
	tries int
	w     *spec.World
	v     *Violation
}

func (m *minimiser) over() bool { return time.Now().After(m.end) }

// try accepts a candidate when it still violates.
func (m *minimiser) try(c *spec.World) bool {
	if m.over() || len(c.Setup)+len(c.Final)+len(c.Clients) == 0 {
		return false
	}
	m.tries++
	r := execWorld(c)
	if r.Lost != "" {
		return false
	}
	v := m.judge(c, r)
	if v == nil || v.Class != m.class {
		return false
	}
	m.w, m.v = c, v
	return true
}

func (m *minimiser) edit(f func(w *spec.World) bool) bool {
	c := cp(*m.w)
	if !f(&c) || !alike(m.w, &c) {
		return false
	}
	return m.try(&c)
}

// alike keeps an image and the parts of it the same: what was done to one of
// them is done to all. It fails when that cannot be.
func alike(was, w *spec.World) bool {
	parts := false
	for _, in := range w.Inputs {
		parts = parts || in.Gen != nil && in.Gen.VarDCT != nil && in.Gen.VarDCT.Part != nil
	}
	if !parts || len(was.Inputs) != len(w.Inputs) {
		return true
	}
	for i := range w.Inputs {
		a, b := was.Inputs[i].Gen, w.Inputs[i].Gen
		if a == nil || b == nil || toJSON(a) == toJSON(b) {
			continue
		}
		if a.W != b.W || a.H != b.H {
			return false
		}
		for j := range w.Inputs {
			o := w.Inputs[j].Gen
			if j == i || o == nil || o.VarDCT == nil {
				continue
			}
			n := cp(*b)
			n.VarDCT.Part = o.VarDCT.Part
			w.Inputs[j].Gen = &n
		}
		return true
	}
	return true
}

func toJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// chop tries to take pieces away from a list of n, largest first.
func (m *minimiser) chop(n func() int, cut func(w *spec.World, at, k int)) {
	for k := n(); k >= 1; k /= 2 {
		for at := 0; at < n() && !m.over(); {
			kk := min(k, n()-at)
			if kk < 1 || !m.edit(func(w *spec.World) bool { cut(w, at, kk); return true }) {
				at += k
			}
		}
	}
}

func cutList[T any](l []T, at, k int) []T {
	return append(append([]T{}, l[:at]...), l[at+k:]...)
}

func (m *minimiser) structure() {
	// the plainest schedule first
	if m.w.Sched.Policy != "trace" {
		m.edit(func(w *spec.World) bool { w.Sched.Policy = "seq"; return true })
		m.edit(func(w *spec.World) bool { w.Sched.CPUs = 2; return true })
		m.edit(func(w *spec.World) bool { w.Sched.Pool = "lifo"; return true })
		m.edit(func(w *spec.World) bool { w.Sched.Pool = "miss"; return true })
		m.edit(func(w *spec.World) bool { w.Sched.MapSeed = 0; return true })
	}
	m.chop(func() int { return len(m.w.Clients) }, func(w *spec.World, at, k int) { w.Clients = cutList(w.Clients, at, k) })
	m.chop(func() int { return len(m.w.Final) }, func(w *spec.World, at, k int) { w.Final = cutList(w.Final, at, k) })
	m.chop(func() int { return len(m.w.Setup) }, func(w *spec.World, at, k int) { w.Setup = cutList(w.Setup, at, k) })
	for c := range m.w.Clients {
		m.chop(func() int { return len(m.w.Clients[c]) }, func(w *spec.World, at, k int) { w.Clients[c] = cutList(w.Clients[c], at, k) })
	}
	// a lone client may as well be the main one
	m.edit(func(w *spec.World) bool {
		if len(w.Clients) != 1 || len(w.Final) > 0 {
			return false
		}
		w.Setup = append(w.Setup, w.Clients[0]...)
		w.Clients = nil
		return true
	})
	// operations
	each := func(f func(w *spec.World, o *spec.Op) bool) {
		all := func(w *spec.World) (l []*spec.Op) {
			for i := range w.Setup {
				l = append(l, &w.Setup[i])
			}
			for c := range w.Clients {
				for i := range w.Clients[c] {
					l = append(l, &w.Clients[c][i])
				}
			}
			for i := range w.Final {
				l = append(l, &w.Final[i])
			}
			return
		}
		for i := 0; i < len(all(m.w)) && !m.over(); i++ {
			for m.edit(func(w *spec.World) bool { return f(w, all(w)[i]) }) {
			}
		}
	}
	each(func(w *spec.World, o *spec.Op) bool {
		if o.IO == nil || o.IO.NoSeek {
			return false
		}
		o.IO = nil
		return true
	})
	each(func(w *spec.World, o *spec.Op) bool {
		if o.IO == nil || len(o.IO.Faults) < 2 {
			return false
		}
		o.IO.Faults = o.IO.Faults[1:]
		return true
	})
	each(func(w *spec.World, o *spec.Op) bool {
		if o.IO == nil || len(o.IO.Faults) < 2 {
			return false
		}
		o.IO.Faults = o.IO.Faults[:len(o.IO.Faults)-1]
		return true
	})
	each(func(w *spec.World, o *spec.Op) bool {
		if o.IO == nil || o.IO.Lat == 0 && o.IO.Zero == 0 && !o.IO.EOFData && (o.IO.Mode == "" || o.IO.Mode == "full") {
			return false
		}
		o.IO = &spec.IO{NoSeek: o.IO.NoSeek, Faults: o.IO.Faults}
		return true
	})
	each(func(w *spec.World, o *spec.Op) bool {
		if o.IO == nil || o.IO.Lat == 0 {
			return false
		}
		o.IO.Lat = 0
		return true
	})
	each(func(w *spec.World, o *spec.Op) bool {
		if o.IO == nil || o.IO.Zero == 0 {
			return false
		}
		o.IO.Zero = 0
		return true
	})
	each(func(w *spec.World, o *spec.Op) bool {
		if o.IO == nil || !o.IO.EOFData {
			return false
		}
		o.IO.EOFData = false
		return true
	})
	each(func(w *spec.World, o *spec.Op) bool {
		if o.IO == nil || o.IO.Mode == "" || o.IO.Mode == "full" || o.IO.Mode == "one" {
			return false
		}
		o.IO.Mode = "one"
		return true
	})
	each(func(w *spec.World, o *spec.Op) bool {
		if o.Max <= 2 {
			return false
		}
		o.Max = 2
		return true
	})
	// programs of the bit reader and of the pools
	nops := len(m.w.Setup)
	for i := 0; i < nops; i++ {
		if len(m.w.Setup[i].Acts) > 1 {
			m.chop(func() int { return len(m.w.Setup[i].Acts) }, func(w *spec.World, at, k int) { w.Setup[i].Acts = cutList(w.Setup[i].Acts, at, k) })
		}
	}
	for c := range m.w.Clients {
		for i := range m.w.Clients[c] {
			if len(m.w.Clients[c][i].Acts) > 1 {
				m.chop(func() int { return len(m.w.Clients[c][i].Acts) }, func(w *spec.World, at, k int) {
					w.Clients[c][i].Acts = cutList(w.Clients[c][i].Acts, at, k)
				})
			}
		}
	}
	m.inputs()
}

func (m *minimiser) inputs() {
	// inputs that nothing uses
	m.edit(func(w *spec.World) bool {
		used := map[int]bool{}
		all := [][]spec.Op{w.Setup, w.Final}
		all = append(all, w.Clients...)
		for _, l := range all {
			for _, o := range l {
				used[o.In] = true
			}
		}
		idx := map[int]int{}
		var keep []spec.Input
		for i := range w.Inputs {
			if used[i] {
				idx[i] = len(keep)
				keep = append(keep, w.Inputs[i])
			}
		}
		if len(keep) == len(w.Inputs) {
			return false
		}
		w.Inputs = keep
		for _, l := range all {
			for j := range l {
				l[j].In = idx[l[j].In]
			}
		}
		return true
	})
	for i := range m.w.Inputs {
		in := func() *spec.Input { return &m.w.Inputs[i] }
		m.chop(func() int { return len(in().Muts) }, func(w *spec.World, at, k int) { w.Inputs[i].Muts = cutList(w.Inputs[i].Muts, at, k) })
		if in().Layout != nil {
			m.edit(func(w *spec.World) bool { w.Inputs[i].Layout = nil; return true })
		}
		if in().Layout != nil {
			m.chop(func() int { return len(in().Layout.Boxes) }, func(w *spec.World, at, k int) {
				// only boxes that carry nothing of the codestream go
				var l []int
				for j, b := range w.Inputs[i].Layout.Boxes {
					if !(j >= at && j < at+k && b.Type != "jxlc" && b.Type != "jxlp") {
						l = append(l, j)
					}
				}
				o := cp(w.Inputs[i].Layout.Boxes)
				w.Inputs[i].Layout.Boxes = nil
				for _, j := range l {
					w.Inputs[i].Layout.Boxes = append(w.Inputs[i].Layout.Boxes, o[j])
				}
			})
			for j := range in().Layout.Boxes {
				m.edit(func(w *spec.World) bool {
					b := &w.Inputs[i].Layout.Boxes[j]
					if b.Fill == 0 && b.Form == 0 {
						return false
					}
					b.Fill = 0
					return true
				})
			}
		}
		if g := in().Gen; g != nil {
			if len(g.Torn) > 1 {
				m.chop(func() int { return len(in().Gen.Torn) }, func(w *spec.World, at, k int) { w.Inputs[i].Gen.Torn = cutList(w.Inputs[i].Gen.Torn, at, k) })
			}
			if len(g.Spoil) > 0 {
				m.chop(func() int { return len(in().Gen.Spoil) }, func(w *spec.World, at, k int) { w.Inputs[i].Gen.Spoil = cutList(w.Inputs[i].Gen.Spoil, at, k) })
				continue // places would shift
			}
			if len(in().Muts) > 0 && in().Muts[0].K != "trunc" {
				continue // positions would shift
			}
			bits := func(of func(p *gen.Params) *int) {
				for b := 1; b <= 32; b <<= 1 {
					m.edit(func(w *spec.World) bool {
						v := of(w.Inputs[i].Gen)
						d := *v&b != 0
						*v &^= b
						return d
					})
				}
			}
			bits(func(p *gen.Params) *int { return &p.Comp })
			bits(func(p *gen.Params) *int { return &p.Head })
			bits(func(p *gen.Params) *int { return &p.Code })
			bits(func(p *gen.Params) *int { return &p.Pred })
			bits(func(p *gen.Params) *int { return &p.Xf })
			m.edit(func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Frames > 1; p.Frames = 1; return d })
			m.edit(func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Extra > 1; p.Extra = 1; return d })
			off := []func(w *spec.World) bool{
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Premult; p.Premult = false; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Frames > 0; p.Frames = 0; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Extra > 0; p.Extra = 0; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Orientation > 1; p.Orientation = 0; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Passes > 1; p.Passes = 0; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.RCT > 0; p.RCT = 0; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Palette; p.Palette = false; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Squeeze; p.Squeeze = false; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Tree > 0; p.Tree = 0; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.LocalTree; p.LocalTree = false; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Permute; p.Permute = false; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.GroupShift > 0; p.GroupShift = 0; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Bits > 8; p.Bits = 8; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Filters > 0; p.Filters = 0; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Gray; p.Gray = false; return d },
				func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.Ups > 0; p.Ups = 0; return d },
			}
			if g.VarDCT != nil {
				bits(func(p *gen.Params) *int { return &p.VarDCT.Quant })
				vd := func(f func(p *gen.VarDCT) bool) {
					off = append(off, func(w *spec.World) bool { return f(w.Inputs[i].Gen.VarDCT) })
				}
				vd(func(v *gen.VarDCT) bool { d := v.Ups > 0; v.Ups = 0; return d })
				vd(func(v *gen.VarDCT) bool { d := v.Smooth; v.Smooth = false; return d })
				vd(func(v *gen.VarDCT) bool { d := v.Default; v.Default = false; return d })
				vd(func(v *gen.VarDCT) bool { d := v.Large; v.Large = false; return d })
				vd(func(v *gen.VarDCT) bool { d := v.Orders; v.Orders = false; return d })
				vd(func(v *gen.VarDCT) bool { d := v.Loose; v.Loose = false; return d })
				vd(func(v *gen.VarDCT) bool { d := !v.Sparse; v.Sparse = true; return d })
				vd(func(v *gen.VarDCT) bool { d := v.CfL; v.CfL = false; return d })
				vd(func(v *gen.VarDCT) bool { d := v.Contexts; v.Contexts = false; return d })
				vd(func(v *gen.VarDCT) bool { d := v.YCC > 0; v.YCC = 0; return d })
				vd(func(v *gen.VarDCT) bool { d := v.YCC > 1; v.YCC = 1; return d })
				vd(func(v *gen.VarDCT) bool { d := v.Presets > 1; v.Presets = 1; return d })
				vd(func(v *gen.VarDCT) bool { d := v.Clusters > 1; v.Clusters = 1; return d })
			}
			for _, f := range off {
				m.edit(f)
			}
			for _, n := range []int{8, 64, 129, 257} {
				m.edit(func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.W > n; p.W = n; return d })
				m.edit(func(w *spec.World) bool { p := w.Inputs[i].Gen; d := p.H > n; p.H = n; return d })
			}
		}
	}
}

// switches replaces the seeded schedule by its decisions and drops those that
// do not matter.
func (m *minimiser) switches() {
	if m.w.Sched.Policy == "seq" || m.over() {
		return
	}
	c := cp(*m.w)
	c.KeepLog = true
	r := execWorld(&c)
	if r.Lost != "" || r.Stats.LogFull || r.Crash != "" {
		return
	}
	t := cp(*m.w)
	t.Sched.Policy = "trace"
	t.Sched.Seed, t.Sched.Mean, t.Sched.SyncP, t.Sched.Depth, t.Sched.Span = 0, 0, 0, 0, 0
	t.Sched.Trace = r.Log
	if !m.try(&t) {
		return
	}
	m.chop(func() int { return len(m.w.Sched.Trace) }, func(w *spec.World, at, k int) { w.Sched.Trace = cutList(w.Sched.Trace, at, k) })
}

func minimise(w *spec.World, v *Violation, judge func(w *spec.World, r *Run) *Violation, d time.Duration) *minimiser {
	m := &minimiser{judge: judge, class: v.Class, end: time.Now().Add(d), w: w, v: v}
	m.structure()
	m.structure()
	m.switches()
	return m
}
