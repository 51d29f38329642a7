// Package core is the simulation kernel: one seeded choice source per run, the
// run environment, the batch runner (parallel worker processes), the shrinker
// and the replay file.
package core

import (
	"encoding/binary"
	"fmt"
	"io"
)

// Src is the only source of randomness in a run. Every decision is one call;
// the sequence of decisions is the run. In replay mode the decisions come from
// a list (missing ones are 0, the simplest choice by convention).
type Src struct {
	state  uint64
	replay []uint64
	fixed  bool
	pos    int
	Rec    []uint64
	tee    io.Writer // persists each choice as it is made (fatal runs)
}

func (s *Src) rec(v uint64) {
	if len(s.Rec) >= 1<<22 {
		Bug("more than %d choices in one run", 1<<22)
	}
	s.Rec = append(s.Rec, v)
	if s.tee != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		s.tee.Write(b[:])
	}
}

func mix(z uint64) uint64 {
	z += 0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SeedFor derives the run seed from the batch seed, the property and the run index.
func SeedFor(seed uint64, property string, run uint64) uint64 {
	h := mix(seed)
	for i := 0; i < len(property); i++ {
		h = mix(h ^ uint64(property[i]))
	}
	return mix(h ^ run)
}

func NewSrc(seed uint64) *Src       { return &Src{state: seed} }
func NewReplaySrc(ch []uint64) *Src { return &Src{replay: ch, fixed: true} }
func (s *Src) next() uint64         { s.state += 0x9e3779b97f4a7c15; return mix(s.state) }

// N returns a choice in [0,n).
func (s *Src) N(n int) int {
	if n <= 0 {
		panic(fmt.Sprintf("harness: N(%d)", n))
	}
	if n == 1 {
		return 0
	}
	return int(s.U64n(uint64(n)))
}

// U64n returns a choice in [0,n).
func (s *Src) U64n(n uint64) uint64 {
	var v uint64
	if s.fixed {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos] % n
		}
		s.pos++
	} else {
		v = s.next() % n
	}
	s.rec(v)
	return v
}

// U64 returns any 64-bit value.
func (s *Src) U64() uint64 {
	var v uint64
	if s.fixed {
		if s.pos < len(s.replay) {
			v = s.replay[s.pos]
		}
		s.pos++
	} else {
		v = s.next()
	}
	s.rec(v)
	return v
}

// P is true with probability num/den; false is the simple choice.
func (s *Src) P(num, den int) bool { return s.N(den) >= den-num }

// Range returns a choice in [lo,hi].
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Pick chooses an index by weight; index 0 is the simple choice.
func (s *Src) Pick(w ...int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	v := s.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}

// Sub returns an unrecorded stream seeded by one recorded choice, for bulk data.
func (s *Src) Sub() *Sub { return &Sub{state: s.U64()} }

// Sub is a cheap deterministic stream (payload bytes, read segmentation).
type Sub struct{ state uint64 }

func NewSub(seed uint64) *Sub { return &Sub{seed} }
func (s *Sub) U64() uint64    { s.state += 0x9e3779b97f4a7c15; return mix(s.state) }
func (s *Sub) N(n int) int    { return int(s.U64() % uint64(n)) }
func (s *Sub) Fill(p []byte) {
	for i := 0; i < len(p); i += 8 {
		v := s.U64()
		for j := i; j < i+8 && j < len(p); j++ {
			p[j] = byte(v)
			v >>= 8
		}
	}
}
