package gen

import "sync"

// Spoil changes one value that the encoder writes, and leaves everything
// around it as well formed as it was: a number that a header or the
// description of a code holds (In is -1, Val is combined with it), or a symbol
// of the coder In (Val replaces it).
type Spoil struct {
	In  int    `json:"in"`
	At  int    `json:"at"`
	Val uint64 `json:"val"`
}

type spoiler struct {
	l      []Spoil
	counts []int // numbers, then the symbols of each coder
}

var (
	spoilMu sync.RWMutex // held for writing while something is spoilt
	spoil   *spoiler
)

func (s *spoiler) pass(in int, v, mask uint64) uint64 {
	at := s.counts[in+1]
	s.counts[in+1]++
	for _, x := range s.l {
		if x.In == in && x.At == at {
			if in < 0 {
				return v ^ x.Val&mask
			}
			return x.Val & mask
		}
	}
	return v
}

// Count tells how many numbers there are to spoil, and then how many symbols
// of each coder.
func Count(p Params) []int {
	p.Spoil = nil
	s := &spoiler{counts: []int{0}}
	spoilt(s, p)
	return s.counts
}

func spoilt(s *spoiler, p Params) *Image {
	spoilMu.Lock()
	defer spoilMu.Unlock()
	spoil = s
	defer func() { spoil = nil }()
	return build(p)
}

// Build makes the file.
func Build(p Params) *Image {
	if len(p.Spoil) > 0 {
		return spoilt(&spoiler{l: p.Spoil, counts: []int{0}}, p)
	}
	spoilMu.RLock()
	defer spoilMu.RUnlock()
	return build(p)
}
