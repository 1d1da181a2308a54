package main

import (
	"math/bits"
)

// Src is the source of all random choices of a case: a recorded sequence of bounded choices.
// Generating from a fresh Src draws pseudo-random choices; replaying a (shortened, lowered) sequence
// gives a smaller case, which is how failures are shrunk. Choice 0 is always the simplest one.
type Src struct {
	choices  []uint32 // choices made so far
	script   []uint32 // if not nil, choices are taken from here (0 beyond its end)
	scripted bool
	state    uint64
}

func newSrc(seed uint64) *Src { return &Src{state: seed} }

func scriptSrc(script []uint32) *Src { return &Src{script: script, scripted: true} }

func (s *Src) next() uint64 { // splitmix64
	s.state += 0x9e3779b97f4a7c15
	z := s.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a uniform choice in [0,n)
func (s *Src) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.scripted {
		if len(s.choices) < len(s.script) {
			v = s.script[len(s.choices)]
			if v >= uint32(n) {
				v = uint32(n) - 1
			}
		}
	} else {
		hi, _ := bits.Mul64(s.next(), uint64(n))
		v = uint32(hi)
	}
	s.choices = append(s.choices, v)
	return int(v)
}

// Range returns a uniform choice in [lo,hi]
func (s *Src) Range(lo, hi int) int { return lo + s.N(hi-lo+1) }

// Pct is true with the given probability in percent
func (s *Src) Pct(p int) bool { return s.N(100) >= 100-p }

func (s *Src) Byte() byte { return byte(s.N(256)) }

// W picks an index with the given weights
func (s *Src) W(weights ...int) int {
	t := 0
	for _, w := range weights {
		t += w
	}
	v := s.N(t)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	panic("unreachable")
}

func pick[T any](s *Src, xs []T) T { return xs[s.N(len(xs))] }

func (s *Src) U64() uint64 {
	return uint64(s.N(1<<16))<<48 | uint64(s.N(1<<16))<<32 | uint64(s.N(1<<16))<<16 | uint64(s.N(1<<16))
}

func (s *Src) Bytes(n int) []byte {
	ret := make([]byte, n)
	for i := range ret {
		ret[i] = s.Byte()
	}
	return ret
}

// Seeded returns n pseudo-random bytes from two choices (shrinks to nothing interesting, but is cheap)
func (s *Src) Seeded(n int) []byte {
	r := newSrc(uint64(s.N(1<<16)) + 1)
	ret := make([]byte, n)
	for i := range ret {
		ret[i] = byte(r.next())
	}
	return ret
}

// shrink minimises a failing choice sequence. fails runs the case generated from a script
// and returns the normalised choices and whether it still fails.
func shrink(choices []uint32, budget func() bool, fails func([]uint32) ([]uint32, bool)) []uint32 {
	best := choices
	try := func(c []uint32) bool {
		if !budget() {
			return false
		}
		norm, bad := fails(c)
		if !bad {
			return false
		}
		if less(norm, best) {
			best = append([]uint32{}, norm...)
			return true
		}
		return false
	}
	for improved := true; improved && budget(); {
		improved = false
		// delete chunks
		for size := len(best) / 2; size >= 1 && budget(); size /= 2 {
			for i := len(best) - size; i >= 0 && budget(); {
				if i+size > len(best) {
					i = len(best) - size
					if i < 0 {
						break
					}
				}
				c := append(append([]uint32{}, best[:i]...), best[i+size:]...)
				if try(c) {
					improved = true
				}
				i -= size
			}
		}
		// zero chunks
		for size := 8; size >= 1 && budget(); size /= 2 {
			for i := 0; i+size <= len(best) && budget(); i += size {
				c := append([]uint32{}, best...)
				changed := false
				for j := i; j < i+size; j++ {
					if c[j] != 0 {
						c[j] = 0
						changed = true
					}
				}
				if changed && try(c) {
					improved = true
				}
			}
		}
		// lower single values; also lower one and delete the next ones (length fields)
		for i := 0; i < len(best) && budget(); i++ {
			for lo, hi := uint32(0), best[i]; i < len(best) && lo < hi && budget(); {
				mid := lo + (hi-lo)/2
				c := append([]uint32{}, best...)
				c[i] = mid
				if try(c) {
					improved = true
					if i >= len(best) {
						break
					}
					hi = best[i]
					if hi > mid {
						hi = mid
					}
				} else {
					lo = mid + 1
				}
			}
			for d := 1; d <= 4 && i < len(best) && best[i] > 0 && i+1+d <= len(best) && budget(); d++ {
				c := append([]uint32{}, best[:i+1]...)
				c[i]--
				c = append(c, best[i+1+d:]...)
				if try(c) {
					improved = true
				}
			}
		}
	}
	return best
}

func less(a, b []uint32) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}
