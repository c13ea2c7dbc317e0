package zzsim

import "math/rand"

// RNG is splitmix64.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{seed} }

//go:norace
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

//go:norace
func (r *RNG) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

//go:norace
func (r *RNG) P(p float64) bool { return r.F() < p }

// LogN draws from 1..2^max, log-uniformly.
//
//go:norace
func (r *RNG) LogN(max int) int {
	k := r.N(max + 1)
	return 1 + r.N(1<<uint(k))
}

// Mix hashes values into one seed.
//
//go:norace
func Mix(vs ...uint64) uint64 {
	h := uint64(0x243f6a8885a308d3)
	for _, v := range vs {
		r := RNG{h ^ v}
		h = r.U64()
	}
	return h
}

//go:norace
func HashString(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

var simRand = rand.New(rand.NewSource(1))

// Rnd replaces the global math/rand source in instrumented code.
func Rnd() *rand.Rand { return simRand }
