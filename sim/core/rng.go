package core

// Rng is a splitmix64 generator; every random choice derives from one seed.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func mix(a, b uint64) uint64 {
	x := a ^ (b * 0x9e3779b97f4a7c15)
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	x := r.s
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}
func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [lo, hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *Rng) F() float64           { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rng) P(p float64) bool     { return r.F() < p }
func (r *Rng) Fork() *Rng           { return NewRng(r.U64()) }
func (r *Rng) FRange(lo, hi float64) float64 {
	// two decimals, so that documents stay readable
	v := lo + r.F()*(hi-lo)
	return float64(int64(v*100)) / 100
}
func pick[T any](r *Rng, xs []T) T { return xs[r.Intn(len(xs))] }

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

// Shuffle permutes n items.
func (r *Rng) Shuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, r.Intn(i+1))
	}
}
