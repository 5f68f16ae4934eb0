// Package rt is the deterministic simulation runtime: a cooperative
// scheduler, simulated channels and synchronisation, a simulated file system
// with fault injection, and simulated processes.
package rt

// RNG is a splitmix64 generator; every random choice of a run comes from one.
type RNG struct{ s uint64 }

func NewRNG(seed uint64) *RNG { return &RNG{s: seed} }

// Derive makes an independent stream from a seed and a label.
func Derive(seed uint64, label string) *RNG {
	h := seed ^ 0x9e3779b97f4a7c15
	for i := 0; i < len(label); i++ {
		h ^= uint64(label[i])
		h *= 0x100000001b3
		h ^= h >> 29
	}
	r := &RNG{s: h}
	r.U64()
	return r
}

func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// N returns a value in [0, n); 0 when n <= 1.
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// Range returns a value in [a, b].
func (r *RNG) Range(a, b int) int {
	if b <= a {
		return a
	}
	return a + r.N(b-a+1)
}

// P returns true with probability num/den.
func (r *RNG) P(num, den int) bool { return r.N(den) < num }

func (r *RNG) F() float64 { return float64(r.U64()>>11) / (1 << 53) }

// Geo draws a positive distance with the given mean.
func (r *RNG) Geo(mean int64) int64 {
	if mean <= 1 {
		return 1
	}
	// uniform in [1, 2*mean-1]: same mean, bounded, cheap
	return 1 + int64(r.U64()%uint64(2*mean-1))
}

func (r *RNG) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}
