package main

// Rng is a splitmix64 generator. It is the only source of choices.
type Rng struct{ s uint64 }

func mix(a, b uint64) uint64 {
	r := Rng{a ^ (b+0x632be59bd9b4e019)*0x9e3779b97f4a7c15}
	r.U64()
	return r.U64()
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// In returns a value in [a,b].
func (r *Rng) In(a, b int) int { return a + r.N(b-a+1) }

// P is true in pct percent of the calls.
func (r *Rng) P(pct int) bool { return r.N(100) < pct }

func (r *Rng) Pick(l ...string) string { return l[r.N(len(l))] }

func (r *Rng) PickInt(l ...int) int { return l[r.N(len(l))] }

// Hash is an FNV-1a accumulator for event logs.
type Hash uint64

func newHash() Hash { return 14695981039346656037 }

func (h *Hash) Int(v int) {
	x := uint64(v)
	for i := 0; i < 8; i++ {
		*h = (*h ^ Hash(x&0xff)) * 1099511628211
		x >>= 8
	}
}

func (h *Hash) Str(s string) {
	for i := 0; i < len(s); i++ {
		*h = (*h ^ Hash(s[i])) * 1099511628211
	}
	h.Int(len(s))
}
