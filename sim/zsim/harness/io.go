package main

import (
	"errors"
	"fmt"
	"io"

	"JXLMOD/zsim/gen"
	"JXLMOD/zsim/rt"
	"JXLMOD/zsim/spec"
)

// errSim is what a misbehaving source or destination returns.
var errSim = errors.New("simulated I/O error")

// source is a seekable byte source that behaves as its plan says. It belongs
// to one operation.
type source struct {
	data  []byte
	pos   int64
	plan  spec.IO
	rng   *gen.Rng
	calls int64
	seeks int64
	zeros int
	n     int64
	spent []bool
	fired map[string]int
}

func newSource(data []byte, plan *spec.IO) *source {
	s := &source{data: data, fired: map[string]int{}}
	if plan != nil {
		s.plan = *plan
	}
	s.rng = gen.NewRng(s.plan.Seed + 99)
	s.spent = make([]bool, len(s.plan.Faults))
	return s
}

func (s *source) lat() {
	if s.plan.Lat > 0 {
		rt.Sleep(1 + int64(s.rng.N(int(s.plan.Lat))))
	} else {
		rt.SyncPoint()
	}
}

func (s *source) Read(p []byte) (int, error) {
	s.lat()
	s.calls++
	for i, f := range s.plan.Faults {
		if f.Kind == "stall" && f.At == s.calls && !s.spent[i] {
			s.spent[i] = true
			s.fired["stall"]++
			rt.Sleep(60e9)
		}
		if f.Kind == "call" && (f.At == s.calls || f.Sticky && s.calls > f.At) && (f.Sticky || !s.spent[i]) {
			s.spent[i] = true
			s.fired["call"]++
			return 0, errSim
		}
	}
	if len(p) == 0 {
		return 0, nil
	}
	if s.plan.Zero > 0 && s.zeros < 3 && s.rng.N(256) < s.plan.Zero {
		s.zeros++
		s.fired["emptyread"]++
		return 0, nil
	}
	s.zeros = 0
	n := len(p)
	switch s.plan.Mode {
	case "one":
		n = 1
	case "small":
		n = min(n, 1+s.rng.N(7))
	case "rand":
		n = 1 + s.rng.N(n)
	}
	left := int64(len(s.data)) - s.pos
	if left < 0 {
		left = 0
	}
	var ferr error
	for i, f := range s.plan.Faults {
		if f.Kind != "err" && f.Kind != "part" || s.spent[i] && !f.Sticky {
			continue
		}
		if s.spent[i] { // sticky: nothing more, wherever
			s.fired[f.Kind]++
			return 0, errSim
		}
		if f.At >= s.pos+int64(n) || f.At < s.pos || f.At > int64(len(s.data)) {
			continue
		}
		if f.Kind == "err" {
			if f.At == s.pos {
				s.spent[i] = true
				s.fired["err"]++
				return 0, errSim
			}
			n = int(f.At - s.pos) // the error comes with the next read
		} else {
			n = int(f.At - s.pos)
			s.spent[i] = true
			s.fired["part"]++
			ferr = errSim
		}
	}
	if ferr == nil && left == 0 {
		return 0, io.EOF
	}
	if n < len(p) {
		s.fired["short"]++
	}
	n = int(min(int64(n), left))
	copy(p, s.data[s.pos:s.pos+int64(n)])
	s.pos += int64(n)
	s.n += int64(n)
	if ferr == nil && s.plan.EOFData && s.pos == int64(len(s.data)) {
		s.fired["eofdata"]++
		ferr = io.EOF
	}
	return n, ferr
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	s.lat()
	s.seeks++
	for i, f := range s.plan.Faults {
		if f.Kind == "seek" && (f.At == s.seeks || f.Sticky && s.seeks > f.At) {
			s.spent[i] = true
			s.fired["seek"]++
			return 0, errSim
		}
	}
	p := off
	switch whence {
	case io.SeekStart:
	case io.SeekCurrent:
		p += s.pos
	case io.SeekEnd:
		p += int64(len(s.data))
	default:
		return 0, fmt.Errorf("bad whence %d", whence)
	}
	if p < 0 {
		return 0, errors.New("negative position")
	}
	s.pos = p
	return p, nil
}

// errFired reports whether the operation was handed an error.
func (s *source) errFired() bool {
	return s.fired["err"]+s.fired["part"]+s.fired["call"]+s.fired["seek"] > 0
}

// justReader hides everything but Read.
type justReader struct{ s *source }

func (r justReader) Read(p []byte) (int, error) { return r.s.Read(p) }

// sink is a destination that behaves as its plan says.
type sink struct {
	data  []byte
	plan  spec.IO
	rng   *gen.Rng
	calls int64
	spent []bool
	fired map[string]int
	down  bool
}

func newSink(plan *spec.IO) *sink {
	s := &sink{fired: map[string]int{}}
	if plan != nil {
		s.plan = *plan
	}
	s.rng = gen.NewRng(s.plan.Seed + 98)
	s.spent = make([]bool, len(s.plan.Faults))
	return s
}

func (s *sink) Write(p []byte) (int, error) {
	if s.plan.Lat > 0 {
		rt.Sleep(1 + int64(s.rng.N(int(s.plan.Lat))))
	} else {
		rt.SyncPoint()
	}
	s.calls++
	if s.down {
		s.fired["down"]++
		return 0, errSim
	}
	pos := int64(len(s.data))
	for i, f := range s.plan.Faults {
		if s.spent[i] {
			continue
		}
		switch f.Kind {
		case "stall":
			if f.At == s.calls {
				s.spent[i] = true
				s.fired["stall"]++
				rt.Sleep(60e9)
			}
		case "call":
			if f.At == s.calls {
				s.spent[i] = true
				s.down = f.Sticky
				s.fired["call"]++
				return 0, errSim
			}
		case "err", "part", "full":
			if f.At < pos || f.At >= pos+int64(len(p)) {
				continue
			}
			s.spent[i] = true
			s.down = f.Sticky || f.Kind == "full"
			s.fired[f.Kind]++
			n := int64(0)
			if f.Kind != "err" {
				n = f.At - pos
			}
			s.data = append(s.data, p[:n]...)
			return int(n), errSim
		}
	}
	s.data = append(s.data, p...)
	return len(p), nil
}

func (s *sink) errFired() bool {
	return s.fired["err"]+s.fired["part"]+s.fired["call"]+s.fired["full"]+s.fired["down"] > 0
}
