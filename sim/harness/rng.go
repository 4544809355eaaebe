package main

// Rng is splitmix64; every random choice of a plan comes from one.
type Rng struct{ s uint64 }

func newRng(s uint64) *Rng { return &Rng{s} }

func mix(vs ...uint64) uint64 {
	r := Rng{0x1234567}
	for _, v := range vs {
		r.s ^= v * 0xff51afd7ed558ccd
		r.U64()
		r.s = r.U64()
	}

	return r.U64()
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb

	return z ^ (z >> 31)
}

// N is uniform in [0,n).
func (r *Rng) N(n int) int {
	if n <= 1 {
		return 0
	}

	return int(r.U64() % uint64(n))
}

// R is uniform in [a,b].
func (r *Rng) R(a, b int) int { return a + r.N(b-a+1) }

// P is true with probability pct/100.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

// Small is a size biased towards small values, in [1,max].
func (r *Rng) Small(max int) int {
	b := 1
	for b < max && r.P(60) {
		b *= 2 + r.N(3)
	}
	if b > max {
		b = max
	}

	return 1 + r.N(b)
}

func pickOf[T any](r *Rng, xs ...T) T { return xs[r.N(len(xs))] }

func shuffle[T any](r *Rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
