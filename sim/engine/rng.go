package engine

// Rng is a splitmix64 generator; the only source of choice in the simulator.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

//go:norace
func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0,n); 0 for n <= 1.
//
//go:norace
func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
//
//go:norace
func (r *Rng) P(num, den int) bool { return r.Intn(den) < num }

// Geo draws a number >= 1 with the given mean, geometrically distributed (roughly).
//
//go:norace
func (r *Rng) Geo(mean int) int {
	n := 1
	for n < 64*mean && r.Intn(mean) != 0 {
		n++
	}
	return n
}

// Log draws from [1,max] with a roughly log-uniform distribution.
func (r *Rng) Log(max int) int {
	if max <= 1 {
		return 1
	}
	bits := 0
	for 1<<bits < max {
		bits++
	}
	b := r.Intn(bits + 1)
	n := 1<<b + r.Intn(1<<b)
	if n > max {
		n = 1 + r.Intn(max)
	}
	return n
}

// Pick returns one of the arguments.
func (r *Rng) Pick(xs ...int) int { return xs[r.Intn(len(xs))] }

// Mix derives a seed.
func Mix(a, b uint64) uint64 {
	r := Rng{a ^ (b * 0xd6e8feb86659fd93)}
	r.U64()
	return r.U64() ^ b
}

// HashStr is FNV-1a.
//
//go:norace
func HashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}
