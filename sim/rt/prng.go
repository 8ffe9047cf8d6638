package rt

// Rng is splitmix64: every choice of a run comes from generators of this kind,
// all derived from one seed.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

//go:norace
func (r *Rng) Next() uint64 {
	r.s += 0x9E3779B97F4A7C15
	z := r.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Next() % uint64(n))
}

// Chance is true with probability p percent.
//
//go:norace
func (r *Rng) Chance(p int) bool { return r.Intn(100) < p }

//go:norace
func (r *Rng) Float() float64 { return float64(r.Next()>>11) / (1 << 53) }

// Derive gives an independent generator for a named stream.
func Derive(seed uint64, stream string) *Rng {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h = (h ^ uint64(stream[i])) * 1099511628211
	}
	r := &Rng{seed*0x9E3779B97F4A7C15 ^ h}
	r.Next()
	return r
}
