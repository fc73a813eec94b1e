package main

import (
	"fmt"
	"unsafe"

	"JXLMOD/util"
	"JXLMOD/zsim/rt"
	"JXLMOD/zsim/spec"
)

// The registry of matrices obtained from the pools. It is written by all
// clients, one at a time; in race builds it is not used.
type span struct {
	lo, hi uintptr
	owner  int
}

type held struct {
	kind    string
	rows    [][]float32
	irows   [][]int32
	m2f     [][]float32
	m2i     [][]int32
	m3f     [][][]float32
	m3i     [][][]int32
	tag     int32
	shapeOK bool
}

type registry struct {
	spans    []span
	seen     map[uintptr]bool // first element of every matrix ever returned
	keep     []*held
	requests map[string]int64
	reused   map[string]int64
	next     int32
	base     map[string]map[string]int64
	viol     string
}

var reg = registry{seen: map[uintptr]bool{}, requests: map[string]int64{}, reused: map[string]int64{}}

func rowSpan[T any](r []T) (uintptr, uintptr) {
	if len(r) == 0 {
		return 0, 0
	}
	a := uintptr(unsafe.Pointer(&r[0]))
	return a, a + uintptr(len(r))*unsafe.Sizeof(r[0])
}

func claim[T comparable](rows [][]T, owner int) (string, uintptr) {
	var zero T
	first := uintptr(0)
	for i, r := range rows {
		for j, v := range r {
			if v != zero {
				return fmt.Sprintf("row %d column %d holds %v", i, j, v), 0
			}
		}
		lo, hi := rowSpan(r)
		if lo == 0 {
			continue
		}
		if first == 0 {
			first = lo
		}
		for _, s := range reg.spans {
			if lo < s.hi && s.lo < hi {
				return fmt.Sprintf("row %d is also part of a matrix that is in use (client %d has it, client %d got it)", i, s.owner, owner), 0
			}
		}
		reg.spans = append(reg.spans, span{lo, hi, owner})
	}
	return "", first
}

func unclaim[T any](rows [][]T) {
	for _, r := range rows {
		lo, _ := rowSpan(r)
		for i, s := range reg.spans {
			if s.lo == lo {
				reg.spans = append(reg.spans[:i], reg.spans[i+1:]...)
				break
			}
		}
	}
}

func fillRows[T any](rows [][]T, v T) {
	for _, r := range rows {
		for j := range r {
			r[j] = v
		}
	}
}

func checkRows[T comparable](rows [][]T, v T) string {
	for i, r := range rows {
		for j := range r {
			if r[j] != v {
				return fmt.Sprintf("row %d column %d was changed by someone else", i, j)
			}
		}
	}
	return ""
}

func shape2[T any](m [][]T, h, w int) string {
	if len(m) != h {
		return fmt.Sprintf("%d rows instead of %d", len(m), h)
	}
	for i := range m {
		if len(m[i]) != w {
			return fmt.Sprintf("row %d has %d columns instead of %d", i, len(m[i]), w)
		}
	}
	return ""
}

func flat[T any](m [][][]T) (r [][]T) {
	for _, x := range m {
		r = append(r, x...)
	}
	return
}

func (h *held) all() ([][]float32, [][]int32) {
	switch h.kind {
	case "f2":
		return h.m2f, nil
	case "i2":
		return nil, h.m2i
	case "f3":
		return flat(h.m3f), nil
	}
	return nil, flat(h.m3i)
}

var metricName = map[string]string{"f2": "float32_2d", "i2": "int32_2d", "f3": "float32_3d", "i3": "int32_3d"}

// runPool carries out a program of pool operations. Acts: "f2", "i2", "f3",
// "i3" get a matrix into place S (N: shape), "put" returns place S, "check"
// looks at place S, "yield" lets others run.
func runPool(client int, op *spec.Op, r *spec.OpRes) {
	r.Status = "ok"
	places := map[int]*held{}
	fail := func(i int, a spec.Act, s string) {
		if s != "" && r.Viol == "" {
			r.Viol = fmt.Sprintf("client %d step %d %s: %s", client, i, a.K, s)
		}
	}
	put := func(i int, a spec.Act, h *held) {
		f, n := h.all()
		if !rt.Race {
			fail(i, a, checkRows(f, float32(h.tag)))
			fail(i, a, checkRows(n, h.tag))
			unclaim(f)
			unclaim(n)
			reg.keep = append(reg.keep, h)
			for _, x := range f {
				if lo, _ := rowSpan(x); lo != 0 {
					reg.seen[lo] = true
					break
				}
			}
			for _, x := range n {
				if lo, _ := rowSpan(x); lo != 0 {
					reg.seen[lo] = true
					break
				}
			}
		}
		switch h.kind {
		case "f2":
			util.ReturnMatrix2DToPool(h.m2f)
		case "i2":
			util.ReturnMatrix2DToPool(h.m2i)
		case "f3":
			util.ReturnMatrix3DToPool(h.m3f)
		case "i3":
			util.ReturnMatrix3DToPool(h.m3i)
		}
	}
	for i, a := range op.Acts {
		switch a.K {
		case "f2", "i2", "f3", "i3":
			if places[a.S] != nil {
				continue
			}
			d, hh, w := int(a.N>>16&255), int(a.N>>8&255), int(a.N&255)
			h := &held{kind: a.K}
			s := ""
			switch a.K {
			case "f2":
				h.m2f = util.MakeMatrix2DPooled[float32](hh, w)
				s = shape2(h.m2f, hh, w)
			case "i2":
				h.m2i = util.MakeMatrix2DPooled[int32](hh, w)
				s = shape2(h.m2i, hh, w)
			case "f3":
				h.m3f = util.MakeMatrix3DPooled[float32](d, hh, w)
				if len(h.m3f) != d {
					s = fmt.Sprintf("%d planes instead of %d", len(h.m3f), d)
				}
				for _, m := range h.m3f {
					if s == "" {
						s = shape2(m, hh, w)
					}
				}
			case "i3":
				h.m3i = util.MakeMatrix3DPooled[int32](d, hh, w)
				if len(h.m3i) != d {
					s = fmt.Sprintf("%d planes instead of %d", len(h.m3i), d)
				}
				for _, m := range h.m3i {
					if s == "" {
						s = shape2(m, hh, w)
					}
				}
			}
			fail(i, a, s)
			f, n := h.all()
			if !rt.Race {
				s, p := claim(f, client)
				fail(i, a, s)
				s, q := claim(n, client)
				fail(i, a, s)
				p |= q
				empty := hh == 0 || w == 0 || len(a.K) == 2 && a.K[1] == '3' && d == 0
				if !empty {
					reg.requests[metricName[a.K]]++
					if reg.seen[p] {
						reg.reused[metricName[a.K]]++
					}
				}
				reg.next++
				h.tag = reg.next
			} else {
				h.tag = int32(i + 1)
			}
			fillRows(f, float32(h.tag))
			fillRows(n, h.tag)
			places[a.S] = h
		case "put":
			if h := places[a.S]; h != nil {
				places[a.S] = nil
				put(i, a, h)
			}
		case "check":
			if h := places[a.S]; h != nil {
				f, n := h.all()
				fail(i, a, checkRows(f, float32(h.tag)))
				fail(i, a, checkRows(n, h.tag))
			}
		case "yield":
			rt.SyncPoint()
		}
		r.N++
		if r.Viol != "" {
			return
		}
	}
	for s := 0; s < 64; s++ {
		if h := places[s]; h != nil {
			put(len(op.Acts), spec.Act{K: "put"}, h)
		}
	}
}

// poolMetrics compares the counters with the requests made since the start.
func poolMetrics(r *spec.OpRes) {
	r.Status = "ok"
	if rt.Race {
		return
	}
	m := util.GetPoolMetrics()
	if reg.base == nil { // first call: nothing was requested yet
		reg.base = m
		return
	}
	for _, k := range []string{"f2", "i2", "f3", "i3"} {
		n := metricName[k]
		h, ms := m[n]["hits"]-reg.base[n]["hits"], m[n]["misses"]-reg.base[n]["misses"]
		if h+ms != reg.requests[n] {
			r.Viol = fmt.Sprintf("%s: %d requests, but %d hits and %d misses counted", n, reg.requests[n], h, ms)
		} else if h != reg.reused[n] {
			r.Viol = fmt.Sprintf("%s: %d of %d matrices were recycled, but %d hits counted", n, reg.reused[n], reg.requests[n], h)
		}
	}
}
