package main

import (
	"encoding/json"
	"fmt"
	"strings"

	"JXLMOD/zsim/spec"
)

// Violation of a property by one run.
type Violation struct {
	Class string // stays the same while the run is minimised
	Msg   string
}

func vio(class, format string, a ...any) *Violation {
	return &Violation{class, fmt.Sprintf(format, a...)}
}

type opRef struct {
	op    *spec.Op
	res   *spec.OpRes
	where string
	idx   int
	final bool
	conc  bool
}

// ops lists the operations with their results.
func ops(w *spec.World, r *Run) []opRef {
	var o []opRef
	n := 0
	get := func(l []spec.OpRes, i int) *spec.OpRes {
		if i < len(l) {
			return &l[i]
		}
		return &spec.OpRes{}
	}
	for i := range w.Setup {
		o = append(o, opRef{&w.Setup[i], get(r.Setup, i), fmt.Sprintf("setup operation %d", i), n, false, false})
		n++
	}
	for c := range w.Clients {
		for i := range w.Clients[c] {
			var l []spec.OpRes
			if c < len(r.Clients) {
				l = r.Clients[c]
			}
			o = append(o, opRef{&w.Clients[c][i], get(l, i), fmt.Sprintf("client %d operation %d", c, i), n, false, true})
			n++
		}
	}
	for i := range w.Final {
		o = append(o, opRef{&w.Final[i], get(r.Final, i), fmt.Sprintf("final operation %d", i), n, true, false})
		n++
	}
	return o
}

func seqSched() spec.Sched {
	return spec.Sched{Policy: "seq", CPUs: 4, Pool: "miss", Budget: baseBudget, PerElem: perElem, MaxElems: maxElems, MaxHeap: maxHeap}
}

const (
	baseBudget = 600e6
	perElem    = 250
	maxElems   = 1 << 27
	maxHeap    = 2 << 30
)

func cp[T any](v T) T {
	b, err := json.Marshal(v)
	if err != nil {
		broken("%v", err)
	}
	var o T
	if err := json.Unmarshal(b, &o); err != nil {
		broken("%v", err)
	}
	return o
}

// pristine takes damage, layout and tears away from an input.
func pristine(in spec.Input, layout bool) spec.Input {
	in = cp(in)
	in.Muts = nil
	in.Pad = 0
	if layout {
		in.Layout = nil
	}
	if in.Gen != nil {
		in.Gen.Torn = nil
		in.Gen.Spoil = nil
	}
	return in
}

// alone is the world that holds nothing but one operation.
func alone(in spec.Input, op spec.Op) *spec.World {
	op = cp(op)
	op.In, op.Slot = 0, 0
	return &spec.World{Prop: "ref", Sched: seqSched(), Inputs: []spec.Input{in}, Setup: []spec.Op{op}, Slots: 1}
}

// refOp is what the operation does when it runs by itself, on that input.
func refOp(in spec.Input, op spec.Op, keepIO bool) *spec.OpRes {
	op = cp(op)
	if !keepIO {
		ns := op.IO != nil && op.IO.NoSeek
		op.IO = nil
		if ns {
			op.IO = &spec.IO{NoSeek: true}
		}
		op.Max = 4
	}
	r := ref(alone(in, op))
	if r.Lost != "" || r.Crash != "" || r.Fatal != nil || len(r.Setup) == 0 {
		return nil
	}
	return &r.Setup[0]
}

// refExport is what exporting that input's image gives in a fresh process.
func refExport(in spec.Input, op spec.Op) *spec.OpRes {
	op = cp(op)
	op.Slot = 1
	op.IO = nil
	w := &spec.World{Prop: "ref", Sched: seqSched(), Inputs: []spec.Input{in}, Slots: 1,
		Setup: []spec.Op{{Kind: "decode", Slot: 1, Max: 4}, op}}
	r := ref(w)
	if r.Lost != "" || r.Crash != "" || r.Fatal != nil || len(r.Setup) < 2 {
		return nil
	}
	return &r.Setup[1]
}

func isSource(k string) bool {
	switch k {
	case "decode", "hdrdec", "decdec", "header", "config", "stdconfig", "std", "stdimage":
		return true
	}
	return false
}

func isExport(k string) bool {
	switch k {
	case "png", "pfm", "toimage", "chan", "getters":
		return true
	}
	return false
}

func errFired(r *spec.OpRes) bool {
	return r.Fired["err"]+r.Fired["part"]+r.Fired["call"]+r.Fired["seek"]+r.Fired["full"]+r.Fired["down"] > 0
}

// outcome puts what an operation delivered into a line.
func outcome(r *spec.OpRes) string {
	if r == nil {
		return "no outcome"
	}
	s := r.Status
	if r.Status == "ok" {
		s += fmt.Sprintf(" %dx%d", r.W, r.H)
		if r.Pix != "" {
			s += " pixels " + r.Pix
		}
		if r.Bytes != "" {
			s += " bytes " + r.Bytes
		}
	}
	return s
}

func sameOutcome(a, b *spec.OpRes) bool { return outcome(a) == outcome(b) }

func long(r *spec.OpRes) string {
	s := outcome(r)
	if r != nil && r.Err != "" {
		s += " (" + r.Err + ")"
	}
	return s
}

// ended reports how a run stopped before its end.
func ended(w *spec.World, r *Run) *Violation {
	if r.Crash != "" {
		return vio("crash", "the process died: %s", r.Crash)
	}
	if r.Fatal != nil {
		switch r.Fatal.Kind {
		case "panic":
			return vio("crash", "a goroutine panicked and brought the process down: %s %s", r.Fatal.Msg, libFrame(r.Fatal.Stack))
		case "deadlock":
			return vio("deadlock", "%s", r.Fatal.Msg)
		case "budget":
			return vio("endless", "%s %s", r.Fatal.Msg, libFrame(r.Fatal.Stack))
		case "tasks":
			return vio("goroutines", "%s", r.Fatal.Msg)
		}
	}
	return nil
}

// improper reports outcomes that no operation may have.
func improper(o opRef) *Violation {
	switch o.res.Status {
	case "panic":
		return vio("panic", "%s (%s) panicked: %s %s", o.where, o.op.Kind, o.res.Err, libFrame(o.res.Stack))
	case "neither":
		return vio("neither", "%s (%s) returned neither a result nor an error", o.where, o.op.Kind)
	case "both":
		return vio("both", "%s (%s) returned a result together with the error %q", o.where, o.op.Kind, o.res.Err)
	}
	return nil
}

func inputOf(w *spec.World, o opRef) spec.Input { return w.Inputs[o.op.In] }

// slotInput finds what the slot of an export holds.
func slotInput(w *spec.World, slot int) (spec.Input, bool) {
	find := func(l []spec.Op) (spec.Input, bool) {
		for _, o := range l {
			if (o.Kind == "decode" || o.Kind == "hdrdec") && o.Slot == slot {
				return w.Inputs[o.In], true
			}
		}
		return spec.Input{}, false
	}
	if in, ok := find(w.Setup); ok {
		return in, true
	}
	for _, c := range w.Clients {
		if in, ok := find(c); ok {
			return in, true
		}
	}
	return find(w.Final)
}

var judges = map[string]func(w *spec.World, r *Run) *Violation{}

func init() {
	// schedule independence: against the same input decoded sequentially
	judges["C01"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) {
				continue
			}
			want := refOp(inputOf(w, o), *o.op, false)
			if want == nil || want.Status == "panic" {
				continue
			}
			if v := ended(w, r); v != nil {
				if r.Fatal != nil && r.Fatal.Op != o.idx {
					continue
				}
				v.Msg = fmt.Sprintf("%s (%s): %s; a sequential run ends with %s", o.where, o.op.Kind, v.Msg, long(want))
				return v
			}
			if o.res.Status == "" {
				continue
			}
			if !sameOutcome(o.res, want) {
				return vio("differs", "%s (%s, limit %d, %d CPUs, schedule %s): %s; a sequential run gives %s", o.where, o.op.Kind, o.op.Max, w.Sched.CPUs, w.Sched.Policy, long(o.res), long(want))
			}
		}
		return nil
	}
	judges["C02"] = func(w *spec.World, r *Run) *Violation {
		if len(r.Race) > 0 {
			return vio("race", "data race: %s", r.Race[0])
		}
		return nil
	}
	// against the same operation by itself in a fresh process
	aloneJudge := func(only func(o opRef) bool, what string) func(w *spec.World, r *Run) *Violation {
		return func(w *spec.World, r *Run) *Violation {
			for _, o := range ops(w, r) {
				if !only(o) {
					continue
				}
				var want *spec.OpRes
				switch {
				case isSource(o.op.Kind):
					want = refOp(inputOf(w, o), *o.op, true)
				case isExport(o.op.Kind) && (o.op.IO == nil || len(o.op.IO.Faults) == 0):
					if in, ok := slotInput(w, o.op.Slot); ok {
						want = refExport(in, *o.op)
					}
				}
				if want == nil {
					continue
				}
				if v := ended(w, r); v != nil {
					if r.Fatal != nil && r.Fatal.Op != o.idx {
						continue
					}
					v.Msg = fmt.Sprintf("%s (%s): %s; by itself it ends with %s", o.where, o.op.Kind, v.Msg, long(want))
					return v
				}
				if o.res.Status == "" || o.res.Status == "skip" {
					continue
				}
				if !sameOutcome(o.res, want) {
					return vio("differs", "%s (%s) %s: %s; by itself it gives %s", o.where, o.op.Kind, what, long(o.res), long(want))
				}
			}
			return nil
		}
	}
	judges["C03"] = aloneJudge(func(o opRef) bool { return true }, "next to others")
	c04 := aloneJudge(func(o opRef) bool { return o.idx > 0 }, "after the operations before it")
	judges["C04"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if o.op.Kind == "decdec" && o.res.Viol != "" {
				return vio("again", "%s: %s", o.where, o.res.Viol)
			}
		}
		return c04(w, r)
	}
	judges["C05"] = func(w *spec.World, r *Run) *Violation {
		all := ops(w, r)
		for _, o := range all {
			if (o.op.Kind == "rehash" || o.op.Kind == "restd") && o.res.Viol != "" {
				return vio("changed", "%s: %s", o.where, o.res.Viol)
			}
		}
		for _, o := range all {
			if !isExport(o.op.Kind) || o.op.IO != nil && len(o.op.IO.Faults) > 0 || o.res.Status == "" || o.res.Status == "skip" {
				continue
			}
			in, ok := slotInput(w, o.op.Slot)
			if !ok {
				continue
			}
			want := refExport(in, *o.op)
			if want == nil || want.Status == "skip" {
				continue
			}
			if !sameOutcome(o.res, want) {
				return vio("differs", "%s (%s): %s; the first export of a fresh image gives %s", o.where, o.op.Kind, long(o.res), long(want))
			}
		}
		return nil
	}
	judges["C06"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) {
				continue
			}
			want := refOp(inputOf(w, o), *o.op, false)
			if want == nil || want.Status == "panic" {
				continue
			}
			if v := ended(w, r); v != nil {
				if r.Fatal != nil && r.Fatal.Op != o.idx {
					continue
				}
				v.Msg = fmt.Sprintf("%s (%s): %s; with full reads it ends with %s", o.where, o.op.Kind, v.Msg, long(want))
				return v
			}
			if o.res.Status != "" && !sameOutcome(o.res, want) {
				return vio("differs", "%s (%s, reads: %s): %s; with full reads %s", o.where, o.op.Kind, ioName(o.op.IO), long(o.res), long(want))
			}
		}
		return nil
	}
	// an error, or the result of the undisturbed operation on the whole file
	errorOrExact := func(w *spec.World, r *Run, whole func(spec.Input) spec.Input, what string) *Violation {
		if v := ended(w, r); v != nil {
			return v
		}
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) || o.res.Status == "" {
				continue
			}
			if v := improper(o); v != nil {
				return v
			}
			in := inputOf(w, o)
			want := refOp(whole(in), *o.op, false)
			if want == nil || want.Status != "ok" {
				continue
			}
			disturbed := errFired(o.res) || len(in.Muts) > 0
			if o.res.Status == "err" && disturbed {
				continue
			}
			if !sameOutcome(o.res, want) {
				if disturbed {
					return vio("wrong", "%s (%s) %s: %s; undisturbed it gives %s", o.where, o.op.Kind, what, long(o.res), long(want))
				}
				return vio("after", "%s (%s), not disturbed itself: %s instead of %s", o.where, o.op.Kind, long(o.res), long(want))
			}
		}
		return nil
	}
	judges["C07"] = func(w *spec.World, r *Run) *Violation {
		return errorOrExact(w, r, func(in spec.Input) spec.Input { return in }, "met an error of the source")
	}
	judges["C08"] = func(w *spec.World, r *Run) *Violation {
		return errorOrExact(w, r, func(in spec.Input) spec.Input { return pristine(in, false) }, "read a truncated file")
	}
	judges["C09"] = func(w *spec.World, r *Run) *Violation {
		if v := ended(w, r); v != nil && v.Class != "endless" {
			return v
		}
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) || o.res.Status == "" {
				continue
			}
			if v := improper(o); v != nil {
				return v
			}
			in := inputOf(w, o)
			if len(in.Muts) > 0 || errFired(o.res) || in.Gen != nil && (len(in.Gen.Torn) > 0 || len(in.Gen.Spoil) > 0) {
				continue
			}
			want := refOp(in, *o.op, false)
			if want == nil || want.Status != "ok" {
				continue
			}
			if !sameOutcome(o.res, want) {
				return vio("after", "%s (%s) of a valid file: %s instead of %s", o.where, o.op.Kind, long(o.res), long(want))
			}
		}
		return nil
	}
	judges["C10"] = func(w *spec.World, r *Run) *Violation {
		if v := ended(w, r); v != nil {
			return v
		}
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) || o.res.Status == "" {
				continue
			}
			if v := improper(o); v != nil {
				return v
			}
			in := inputOf(w, o)
			if in.Gen == nil || len(in.Gen.Torn) == 0 {
				continue
			}
			if o.op.Kind == "header" || o.op.Kind == "config" || o.op.Kind == "stdconfig" {
				continue
			}
			if o.res.Status == "ok" && mustFail(in) {
				return vio("accepted", "%s (%s, limit %d): an image came out although part of the frame is torn: %s", o.where, o.op.Kind, o.op.Max, tornText(in))
			}
		}
		return nil
	}
	judges["C11"] = func(w *spec.World, r *Run) *Violation {
		if v := ended(w, r); v != nil {
			return v
		}
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) || o.res.Status == "" {
				continue
			}
			if v := improper(o); v != nil {
				return v
			}
			in := inputOf(w, o)
			base := pristine(in, true)
			if base.Gen != nil {
				base.Gen.Permute = false
			}
			want := refOp(base, *o.op, false)
			if want == nil || want.Status != "ok" {
				continue
			}
			if lies(in) {
				if o.res.Status == "ok" && !sameOutcome(o.res, want) {
					return vio("wrong", "%s (%s) of a file with an inconsistent box length: %s; the codestream gives %s", o.where, o.op.Kind, long(o.res), long(want))
				}
				if o.res.Status == "ok" && impossible(in) {
					return vio("accepted", "%s (%s): a box with an impossible length was accepted", o.where, o.op.Kind)
				}
				continue
			}
			if !sameOutcome(o.res, want) {
				return vio("differs", "%s (%s) of a file with the layout %s: %s; the bare codestream gives %s", o.where, o.op.Kind, layoutText(in), long(o.res), long(want))
			}
		}
		return nil
	}
	judges["C12"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) || o.res.Status == "" {
				continue
			}
			if errFired(o.res) {
				continue
			}
			in := inputOf(w, o)
			dec := refOp(in, spec.Op{Kind: "decode"}, false)
			if dec == nil || dec.Status != "ok" {
				continue
			}
			switch o.op.Kind {
			case "header", "config", "stdconfig":
				if o.op.Kind == "stdconfig" && !isContainer(dataOf(in)) {
					// the image package is told of container files only
					continue
				}
				if o.res.Status != "ok" {
					return vio("fails", "%s (%s): %s; the file decodes to %dx%d", o.where, o.op.Kind, long(o.res), dec.W, dec.H)
				}
				if o.res.W != dec.W || o.res.H != dec.H {
					return vio("size", "%s (%s) says %dx%d, the file decodes to %dx%d", o.where, o.op.Kind, o.res.W, o.res.H, dec.W, dec.H)
				}
				if o.op.Kind != "header" {
					std := refOp(in, spec.Op{Kind: "std"}, false)
					if std != nil && std.Status == "ok" && std.Model != o.res.Model {
						return vio("model", "%s (%s) says that the colours are of %s, the file decodes to %s", o.where, o.op.Kind, o.res.Model, std.Model)
					}
				}
			case "hdrdec":
				if o.res.Viol != "" {
					return vio("size", "%s: %s", o.where, o.res.Viol)
				}
				fallthrough
			case "decode":
				got := cp(*o.res)
				got.Bytes = "" // the digest of the header
				if !sameOutcome(&got, dec) {
					return vio("altered", "%s (%s) next to or after header queries: %s instead of %s", o.where, o.op.Kind, long(o.res), long(dec))
				}
			}
		}
		return nil
	}
	judges["C13"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if o.op.Kind != "pool" && o.op.Kind != "poolmetrics" {
				continue
			}
			if o.res.Viol != "" {
				c := "pool"
				if o.op.Kind == "poolmetrics" {
					c = "metrics"
				}
				return vio(c, "%s", o.res.Viol)
			}
			if o.res.Status == "panic" {
				return vio("panic", "%s: %s %s", o.where, o.res.Err, libFrame(o.res.Stack))
			}
		}
		if r.Fatal != nil || r.Crash != "" {
			only := true
			for _, o := range ops(w, r) {
				only = only && (o.op.Kind == "pool" || o.op.Kind == "poolmetrics")
			}
			if only {
				return ended(w, r)
			}
		}
		return nil
	}
	judges["C14"] = func(w *spec.World, r *Run) *Violation {
		if v := ended(w, r); v != nil {
			return v
		}
		for _, o := range ops(w, r) {
			if o.op.Kind != "png" && o.op.Kind != "pfm" || o.res.Status == "" || o.res.Status == "skip" {
				continue
			}
			if v := improper(o); v != nil {
				return v
			}
			if o.res.Viol != "" {
				c := "file"
				if strings.Contains(o.res.Viol, "although") {
					c = "dropped"
				}
				return vio(c, "%s (%s): %s", o.where, o.op.Kind, o.res.Viol)
			}
			in, ok := slotInput(w, o.op.Slot)
			if !ok || errFired(o.res) {
				continue
			}
			want := refExport(in, *o.op)
			if want == nil || want.Status != "ok" {
				continue
			}
			if !sameOutcome(o.res, want) {
				return vio("differs", "%s (%s) on a healthy destination: %s; a first write gives %s", o.where, o.op.Kind, long(o.res), long(want))
			}
		}
		return nil
	}
	judges["C15"] = func(w *spec.World, r *Run) *Violation {
		if v := ended(w, r); v != nil && v.Class != "crash" {
			return v
		}
		for _, o := range ops(w, r) {
			if o.res.Leak != "" {
				return vio("left", "%s (%s) returned (%s) with goroutines left: %s", o.where, o.op.Kind, long(o.res), o.res.Leak)
			}
		}
		return nil
	}
	judges["C16"] = func(w *spec.World, r *Run) *Violation {
		if v := ended(w, r); v != nil {
			return v
		}
		for _, o := range ops(w, r) {
			if o.op.Kind != "bits" {
				continue
			}
			if o.res.Viol != "" {
				return vio("model", "%s: %s", o.where, o.res.Viol)
			}
			if o.res.Status == "panic" {
				return vio("panic", "%s: %s %s", o.where, o.res.Err, libFrame(o.res.Stack))
			}
		}
		return nil
	}
	judges["C17"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) {
				continue
			}
			lim := o.op.Max
			if lim == 0 {
				lim = w.Sched.CPUs
			}
			if o.res.Work > lim {
				return vio("limit", "%s (%s): %d goroutines were decoding at the same time, the limit is %d", o.where, o.op.Kind, o.res.Work, lim)
			}
		}
		return nil
	}
	judges["C18"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) {
				continue
			}
			in := inputOf(w, o)
			if in.Gen == nil || len(in.Muts) > 0 || len(in.Gen.Torn) > 0 || len(in.Gen.Spoil) > 0 {
				continue
			}
			if v := ended(w, r); v != nil {
				if r.Fatal != nil && r.Fatal.Op != o.idx {
					continue
				}
				return v
			}
			if o.res.Status == "" {
				continue
			}
			if o.res.Status != "ok" {
				return vio("fails", "%s (%s) of a losslessly coded image: %s", o.where, o.op.Kind, long(o.res))
			}
			if o.res.Truth != "same" && o.res.Truth != "" {
				return vio("samples", "%s (%s) of a losslessly coded image: %s", o.where, o.op.Kind, o.res.Truth)
			}
		}
		return nil
	}
	judges["C20"] = func(w *spec.World, r *Run) *Violation {
		var rough *Violation
		for _, o := range ops(w, r) {
			if !isSource(o.op.Kind) {
				continue
			}
			in := inputOf(w, o)
			if in.Gen == nil || len(in.Muts) > 0 || len(in.Gen.Torn) > 0 || len(in.Gen.Spoil) > 0 {
				continue
			}
			if v := ended(w, r); v != nil {
				if r.Fatal != nil && r.Fatal.Op != o.idx {
					continue
				}
				return v
			}
			if o.res.Status == "" {
				continue
			}
			if in.Gen.WeightBit && (o.res.Status != "ok" || o.res.Truth != "same") {
				return vio("filter-header", "%s (%s) of an image that says that the weights of the edge preserving filter are the usual ones: %s %s", o.where, o.op.Kind, long(o.res), o.res.Truth)
			}
			if o.res.Status != "ok" {
				return vio("fails", "%s (%s) of a lossy image: %s", o.where, o.op.Kind, long(o.res))
			}
			if strings.HasPrefix(o.res.Truth, "not smoothed: ") {
				rough = vio("smoothing", "%s (%s) of a lossy image: %s", o.where, o.op.Kind, o.res.Truth)
				continue
			}
			if o.res.Truth != "same" && o.res.Truth != "" {
				return vio("samples", "%s (%s) of a lossy image: %s", o.where, o.op.Kind, o.res.Truth)
			}
		}
		return rough
	}
	judges["C21"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if o.op.Slot == 0 || isSource(o.op.Kind) || o.res.Status == "" || o.res.Status == "skip" {
				continue
			}
			in, ok := slotInput(w, o.op.Slot)
			if !ok || in.Gen == nil {
				continue
			}
			if o.res.Viol != "" {
				return vio("file", "%s (%s): %s", o.where, o.op.Kind, o.res.Viol)
			}
			if o.res.Shown != "" && o.res.Shown != "same" {
				return vio("shown", "%s: %s", o.where, o.res.Shown)
			}
			if o.op.Kind == "chan" && (o.res.Status == "ok") != (o.op.Chan < in.Gen.Channels()) {
				return vio("fails", "%s: channel %d of %d: %s", o.where, o.op.Chan, in.Gen.Channels(), long(o.res))
			}
			if o.res.Status != "ok" && o.op.Kind != "chan" && in.Gen.Showable() {
				return vio("fails", "%s (%s): %s", o.where, o.op.Kind, long(o.res))
			}
		}
		return nil
	}
	judges["C22"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			if o.res.Status == "" {
				continue
			}
			if o.op.Kind == "png" {
				if o.res.Viol != "" {
					return vio("profile", "%s: an image with a colour profile was written wrongly: %s", o.where, o.res.Viol)
				}
				continue
			}
			if !isSource(o.op.Kind) {
				continue
			}
			in := inputOf(w, o)
			if in.Gen == nil || len(in.Muts) > 0 || len(in.Gen.Torn) > 0 || len(in.Gen.Spoil) > 0 {
				continue
			}
			if o.res.Head != "" && o.res.Head != "same" {
				return vio("field", "%s (%s): %s", o.where, o.op.Kind, o.res.Head)
			}
			if o.op.Kind == "hdrdec" || o.op.Kind == "decode" {
				continue
			}
			if v := ended(w, r); v != nil {
				if r.Fatal != nil && r.Fatal.Op != o.idx {
					continue
				}
				return v
			}
			if o.res.Status != "ok" {
				return vio("fails", "%s (%s) of a correct header: %s", o.where, o.op.Kind, long(o.res))
			}
			if o.res.Truth != "same" && o.res.Truth != "" {
				return vio("size", "%s (%s): %s", o.where, o.op.Kind, o.res.Truth)
			}
		}
		return nil
	}
	judges["C19"] = func(w *spec.World, r *Run) *Violation {
		for _, o := range ops(w, r) {
			switch {
			case o.op.Kind == "region":
				if o.res.Viol != "" {
					return vio("place", "%s", o.res.Viol)
				}
			case isSource(o.op.Kind):
				if v := ended(w, r); v != nil {
					if r.Fatal != nil && r.Fatal.Op != o.idx {
						continue
					}
					return v
				}
				if o.res.Status != "" && o.res.Status != "ok" {
					return vio("fails", "%s (%s) of a lossy image: %s", o.where, o.op.Kind, long(o.res))
				}
				if o.res.Truth != "" && o.res.Truth != "same" {
					return vio("size", "%s (%s) of a lossy image: %s", o.where, o.op.Kind, o.res.Truth)
				}
			}
		}
		return nil
	}
}
