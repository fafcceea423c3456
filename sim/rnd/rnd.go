// Package rnd is the one generator every choice of the simulators comes from.
package rnd

type R struct{ s uint64 }

func New(parts ...uint64) *R {
	s := uint64(0x1234567)
	for _, p := range parts {
		s = mix(s ^ mix(p+0x9e3779b97f4a7c15))
	}
	return &R{s}
}

func mix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Str hashes a string, to derive generators by name.
func Str(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func (r *R) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	return mix(r.s)
}

func (r *R) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a number in [a, b].
func (r *R) In(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability 1/n.
func (r *R) P(n int) bool { return r.N(n) == 0 }

func Pick[T any](r *R, l ...T) T { return l[r.N(len(l))] }
