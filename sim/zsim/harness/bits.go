package main

import (
	"bytes"
	"fmt"
	"io"
	"math"

	"JXLMOD/jxlio"
	"JXLMOD/zsim/spec"
)

// bitModel is an ideal bit string with a position.
type bitModel struct {
	d   []byte
	pos uint64
}

func (m *bitModel) get(n uint32) (v uint64, ok bool) {
	if n > 0 && m.pos+uint64(n) > uint64(len(m.d))*8 {
		return 0, false
	}
	for i := uint32(0); i < n; i++ {
		p := m.pos + uint64(i)
		v |= uint64(m.d[p/8]>>(p%8)&1) << i
	}
	m.pos += uint64(n)
	return v, true
}

type bitAns struct {
	v    string
	err  bool
	peek bool // the position is certain even after an error
	any  bool // outcome not specified
}

var u32Forms = [][8]int{
	{0, 0, 1, 0, 2, 4, 18, 6}, {1, 9, 1, 13, 1, 18, 1, 30}, {0, 8, 256, 11, 2304, 14, 18688, 30}, {0, 0, 0, 4, 16, 5, 48, 10}, {1, 0, 2, 1, 4, 2, 8, 3},
}

// model carries out one step on the model.
func (m *bitModel) model(a spec.Act) bitAns {
	num := func(n uint32) bitAns {
		v, ok := m.get(n)
		if !ok {
			return bitAns{err: true}
		}
		return bitAns{v: fmt.Sprint(v)}
	}
	switch a.K {
	case "bits":
		if a.N > 64 {
			return bitAns{err: true}
		}
		return num(uint32(a.N))
	case "bool":
		v, ok := m.get(1)
		return bitAns{v: fmt.Sprint(v == 1), err: !ok}
	case "byte":
		return num(8)
	case "enum":
		return m.u32(u32Forms[0], 63)
	case "u32":
		return m.u32(u32Forms[a.N%int64(len(u32Forms))], 1<<40)
	case "f16":
		b, ok := m.get(16)
		if !ok {
			return bitAns{err: true}
		}
		e, f := b>>10&31, b&1023
		if e == 31 {
			return bitAns{err: true}
		}
		var x float64
		if e == 0 {
			x = float64(f) / (1 << 24)
		} else {
			x = math.Ldexp(1+float64(f)/1024, int(e)-15)
		}
		if b>>15 != 0 {
			x = -x
		}
		return bitAns{v: fmt.Sprint(float32(x) + 0)}
	case "icc":
		var v int64
		for s := uint(0); s < 63; s += 7 {
			b, ok := m.get(8)
			if !ok {
				return bitAns{err: true}
			}
			v |= int64(b&127) << s
			if b < 128 {
				if v > 1<<30 {
					return bitAns{any: true}
				}
				return bitAns{v: fmt.Sprint(v)}
			}
		}
		return bitAns{any: true}
	case "u64":
		k, ok := m.get(2)
		if !ok {
			return bitAns{err: true}
		}
		n := []uint32{0, 4, 8, 12}[k]
		v, ok := m.get(n)
		if !ok {
			return bitAns{err: true}
		}
		switch k {
		case 1:
			v++
		case 2:
			v += 17
		case 3:
			for s := 12; ; s += 8 {
				b, ok := m.get(1)
				if !ok {
					return bitAns{err: true}
				}
				if b == 0 {
					break
				}
				w := uint32(8)
				if s == 60 {
					w = 4
				}
				x, ok := m.get(w)
				if !ok {
					return bitAns{err: true}
				}
				v |= x << s
				if s == 60 {
					break
				}
			}
		}
		return bitAns{v: fmt.Sprint(v)}
	case "u8":
		b, ok := m.get(1)
		if !ok {
			return bitAns{err: true}
		}
		if b == 0 {
			return bitAns{v: "0"}
		}
		n, ok := m.get(3)
		if !ok {
			return bitAns{err: true}
		}
		x, ok := m.get(uint32(n))
		if !ok {
			return bitAns{err: true}
		}
		return bitAns{v: fmt.Sprint(x + 1<<n)}
	case "show":
		if a.N > 64 {
			return bitAns{err: true, peek: true}
		}
		p := m.pos
		r := num(uint32(a.N))
		m.pos = p
		r.peek = true
		return r
	case "atend":
		return bitAns{v: fmt.Sprint(m.pos >= uint64(len(m.d))*8), peek: true}
	case "skipbits":
		if a.N > 0 && m.pos+uint64(a.N) > uint64(len(m.d))*8 {
			return bitAns{err: true}
		}
		m.pos += uint64(a.N)
		return bitAns{}
	case "skip":
		if a.N > 0 && m.pos+uint64(a.N)*8 > uint64(len(m.d))*8 {
			return bitAns{err: true}
		}
		m.pos += uint64(a.N) * 8
		return bitAns{v: fmt.Sprint(a.N)}
	case "bytes64":
		if a.N < 1 || a.N > 8 || m.pos%8 != 0 {
			return bitAns{err: true}
		}
		return num(uint32(a.N) * 8)
	case "buf":
		if m.pos%8 != 0 {
			return bitAns{err: true}
		}
		if a.N > 0 && m.pos+uint64(a.N)*8 > uint64(len(m.d))*8 {
			return bitAns{err: true}
		}
		if a.N == 0 {
			return bitAns{}
		}
		r := bitAns{v: fmt.Sprintf("%x", m.d[m.pos/8:m.pos/8+uint64(a.N)])}
		m.pos += uint64(a.N) * 8
		return r
	case "at":
		if a.N == 0 {
			return bitAns{v: ""}
		}
		if a.M+a.N > int64(len(m.d)) {
			return bitAns{err: true}
		}
		m.pos = uint64(a.M+a.N) * 8
		return bitAns{v: fmt.Sprintf("%x", m.d[a.M:a.M+a.N])}
	case "pad":
		m.pos = (m.pos + 7) / 8 * 8
		return bitAns{}
	case "seek": // to byte N from the start
		m.pos = uint64(a.N) * 8
		return bitAns{v: fmt.Sprint(a.N)}
	case "seekcur": // relative to the next whole byte
		m.pos = (m.pos+7)/8*8 + uint64(a.N)*8
		return bitAns{v: fmt.Sprint(m.pos / 8)}
	case "reset":
		m.pos = 0
		return bitAns{}
	}
	return bitAns{any: true}
}

func (m *bitModel) u32(f [8]int, lim uint64) bitAns {
	k, ok := m.get(2)
	if !ok {
		return bitAns{err: true}
	}
	v, ok := m.get(uint32(f[2*k+1]))
	if !ok {
		return bitAns{err: true}
	}
	v += uint64(f[2*k])
	if v > lim {
		return bitAns{err: true}
	}
	return bitAns{v: fmt.Sprint(v)}
}

// real carries out one step on the code under test.
func realBits(br *jxlio.BitStreamReader, a spec.Act) (string, error) {
	s := func(v any, err error) (string, error) { return fmt.Sprint(v), err }
	switch a.K {
	case "bits":
		return s(br.ReadBits(uint32(a.N)))
	case "bool":
		return s(br.ReadBool())
	case "byte":
		return s(br.ReadByte())
	case "enum":
		return s(br.ReadEnum())
	case "u32":
		f := u32Forms[a.N%int64(len(u32Forms))]
		return s(br.ReadU32(f[0], f[1], f[2], f[3], f[4], f[5], f[6], f[7]))
	case "f16":
		v, err := br.ReadF16()
		return fmt.Sprint(v + 0), err
	case "icc":
		return s(br.ReadICCVarint())
	case "u64":
		return s(br.ReadU64())
	case "u8":
		return s(br.ReadU8())
	case "show":
		return s(br.ShowBits(int(a.N)))
	case "atend":
		return fmt.Sprint(br.AtEnd()), nil
	case "skipbits":
		return "", br.SkipBits(uint32(a.N))
	case "skip":
		return s(br.Skip(uint32(a.N)))
	case "bytes64":
		return s(br.ReadBytesUint64(int(a.N)))
	case "buf":
		b := bytes.Repeat([]byte{0xA5}, int(a.N))
		err := br.ReadBytesToBuffer(b, uint32(a.N))
		return fmt.Sprintf("%x", b), err
	case "at":
		b := bytes.Repeat([]byte{0xA5}, int(a.N))
		err := br.ReadByteArrayWithOffsetAndLength(b, a.M, uint32(a.N))
		return fmt.Sprintf("%x", b), err
	case "pad":
		return "", br.ZeroPadToByte()
	case "seek":
		return s(br.Seek(a.N, io.SeekStart))
	case "seekcur":
		return s(br.Seek(a.N, io.SeekCurrent))
	case "reset":
		return "", br.Reset()
	}
	return "", fmt.Errorf("unknown step %q", a.K)
}

func runBits(op *spec.Op, r *spec.OpRes) {
	src := newSource(op.Bits, op.IO)
	br := jxlio.NewBitStreamReader(src)
	m := &bitModel{d: op.Bits}
	r.Status = "ok"
	unsure := false // the position is not specified until the next seek
	trail := 0
	for i, a := range op.Acts {
		if unsure {
			if a.K != "seek" && a.K != "reset" && a.K != "at" {
				continue
			}
			if a.K == "at" && a.N == 0 {
				continue
			}
		}
		if a.K == "seekcur" && m.pos/8+uint64(a.N)+1 > 1<<40 {
			continue
		}
		before := m.pos
		c0 := br.BitsRead()
		f0 := src.errCount()
		want := m.model(a)
		got, err := realBits(br, a)
		faulted := src.errCount() > f0
		trail++
		desc := fmt.Sprintf("step %d %s(%d,%d) at bit %d of %d", i, a.K, a.N, a.M, before, len(op.Bits)*8)
		switch {
		case faulted:
			// the source failed during the step: an answer has to be right
			// all the same
			if err == nil && a.K != "atend" {
				if want.err {
					r.Viol = desc + ": succeeded although the source failed and there is no data"
				} else if got != want.v && !want.any {
					r.Viol = fmt.Sprintf("%s: the source failed, and the step returned %s instead of an error or %s", desc, got, want.v)
				}
				break
			}
			if a.K == "atend" && got != "true" && want.v == "true" {
				r.Viol = desc + ": data announced although the source failed"
			}
			unsure = true
			if want.peek {
				// a peek must not move, as long as seeking works
				m.pos = before
				unsure = src.fired["seek"] > 0
			}
		case want.any:
			unsure = true
		case want.err != (err != nil):
			if want.err {
				r.Viol = fmt.Sprintf("%s: returned %s instead of an error", desc, got)
			} else {
				r.Viol = fmt.Sprintf("%s: error %v instead of %s", desc, err, want.v)
			}
		case err == nil && got != want.v:
			r.Viol = fmt.Sprintf("%s: returned %s instead of %s", desc, got, want.v)
		case err != nil && !want.peek:
			unsure = true
		}
		if r.Viol == "" && !unsure && err == nil && a.K != "seek" && a.K != "seekcur" && a.K != "reset" && a.K != "at" {
			if d := br.BitsRead() - c0; d != m.pos-before {
				r.Viol = fmt.Sprintf("%s: counted %d bits instead of %d", desc, d, m.pos-before)
			} else if br.GetBitsCount() != br.BitsRead() {
				r.Viol = desc + ": the two bit counts differ"
			}
		}
		if r.Viol == "" && want.peek && br.BitsRead() != c0 {
			r.Viol = fmt.Sprintf("%s: a peek changed the bit count by %d", desc, int64(br.BitsRead()-c0))
		}
		if r.Viol != "" {
			break
		}
		if err == nil && !want.err && (a.K == "seek" || a.K == "reset" || a.K == "at" && a.N > 0) {
			unsure = false
		}
	}
	r.N = int64(trail)
	r.Fired = src.fired
}

func (s *source) errCount() int {
	return s.fired["err"] + s.fired["part"] + s.fired["call"] + s.fired["seek"]
}
