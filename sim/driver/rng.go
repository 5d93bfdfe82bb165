package main

import "math"

// rng is the seeded generator every choice of the driver comes from.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= p
		r.u64()
		r.s ^= r.u64()
	}
	return r
}

func (r *rng) u64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *rng) n(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.u64() % uint64(n))
}

// in [a,b]
func (r *rng) rg(a, b int) int { return a + r.n(b-a+1) }

func (r *rng) p(num, den int) bool { return r.n(den) < num }

func (r *rng) f() float64 { return float64(r.u64()>>11) / (1 << 53) }

func (r *rng) fr(a, b float64) float64 { return a + (b-a)*r.f() }

func (r *rng) pick(s ...string) string { return s[r.n(len(s))] }

func (r *rng) pickInt(s ...int) int { return s[r.n(len(s))] }

// coord is a coordinate finite in single precision.
func (r *rng) coord() float64 {
	switch r.n(12) {
	case 0:
		return 0
	case 1:
		return float64(r.rg(-9, 9))
	case 2:
		return r.fr(-1e-3, 1e-3)
	case 3:
		return r.fr(-1e6, 1e6)
	case 4:
		return math.Copysign(0, -1)
	case 5:
		return math.Ldexp(r.fr(-1, 1), r.rg(-150, 127))
	case 6:
		return r.fr(-3.4e38, 3.4e38)
	}
	return r.fr(-100, 100)
}

func (r *rng) pickF(x ...float64) float64 { return x[r.n(len(x))] }
