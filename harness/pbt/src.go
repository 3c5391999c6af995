// Package pbt is a small property-based testing engine: random choices are
// drawn through a Src that records them, so that any case can be replayed from
// its choice sequence and shrunk by editing that sequence.
package pbt

import "hash/fnv"

// Src is a source of bounded choices. In generation mode choices come from a
// PRNG; in replay mode from a recorded sequence (zeros once it is exhausted).
// Generators are written so that smaller choices mean simpler values.
type Src struct {
	state  uint64
	replay []uint64
	isRep  bool
	pos    int
	rec    []uint64
	tail   bool     // in replay mode, go on with the PRNG once the sequence is exhausted
	keep   bool     // record the bounds of the choices as well
	bounds []uint64 // bounds of the choices drawn
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Hash64 hashes a string.
func Hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// NewSrc returns a generating source determined by its arguments.
func NewSrc(seed uint64, stream string, index uint64) *Src {
	return &Src{state: mix(mix(seed) ^ mix(Hash64(stream)) ^ mix(index*0x2545F4914F6CDD1D+1))}
}

// NewReplay returns a source replaying choices.
func NewReplay(ch []uint64) *Src { return &Src{replay: ch, isRep: true} }

// NewGuided returns a source that replays choices and goes on at random, as
// determined by tail, when they are exhausted.
func NewGuided(ch []uint64, tail uint64) *Src {
	return &Src{replay: ch, isRep: true, tail: true, keep: true, state: mix(tail)}
}

// Choices returns the choices drawn so far.
func (s *Src) Choices() []uint64 { return append([]uint64(nil), s.rec...) }

const maxChoices = 1 << 20

// U draws a value in [0,n).
func (s *Src) U(n uint64) uint64 {
	if n <= 1 {
		return 0
	}
	var v uint64
	if s.isRep && !(s.tail && s.pos >= len(s.replay)) {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
			s.pos++
			if v >= n {
				v = v % n
			}
		}
	} else {
		s.state += 0x9e3779b97f4a7c15
		z := s.state
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		v = (z ^ (z >> 31)) % n
	}
	if len(s.rec) > maxChoices {
		panic("pbt: generator draws too many choices")
	}
	s.rec = append(s.rec, v)
	if s.keep {
		s.bounds = append(s.bounds, n)
	}
	return v
}

// N draws an int in [0,n).
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(s.U(uint64(n)))
}

// Range draws an int in [lo,hi].
func (s *Src) Range(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + s.N(hi-lo+1)
}

// Chance is true with probability num/den; false is the simpler outcome.
func (s *Src) Chance(num, den int) bool { return s.N(den) >= den-num }

// Bool draws a fair boolean.
func (s *Src) Bool() bool { return s.N(2) == 1 }

// U64 draws a full-range 64-bit value.
func (s *Src) U64() uint64 { return s.U(1<<32)<<32 | s.U(1<<32) }

// Pick draws an element of xs.
func Pick[T any](s *Src, xs []T) T { return xs[s.N(len(xs))] }

// Weighted draws an index with the given weights (first = simplest).
func (s *Src) Weighted(w ...int) int {
	tot := 0
	for _, x := range w {
		tot += x
	}
	v := s.N(tot)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}
