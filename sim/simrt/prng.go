package simrt

// PRNG is a splitmix64 stream: small, fast, and a pure function of its seed.
type PRNG struct{ s uint64 }

func NewPRNG(seed uint64) *PRNG { return &PRNG{s: seed*0x9E3779B97F4A7C15 + 0x1234567} }

func (p *PRNG) U64() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// N returns a value in [0,n).
func (p *PRNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.U64() % uint64(n))
}

func (p *PRNG) I64(n int64) int64 {
	if n <= 1 {
		return 0
	}
	return int64(p.U64() % uint64(n))
}

// F returns a value in [0,1).
func (p *PRNG) F() float64 { return float64(p.U64()>>11) / float64(1<<53) }

// P is true with probability x.
func (p *PRNG) P(x float64) bool { return x > 0 && p.F() < x }

func (p *PRNG) Fork(tag uint64) *PRNG { return NewPRNG(p.U64() ^ (tag * 0xD6E8FEB86659FD93)) }

func (p *PRNG) Read(b []byte) (int, error) {
	for i := 0; i < len(b); {
		v := p.U64()
		for j := 0; j < 8 && i < len(b); j++ {
			b[i] = byte(v)
			v >>= 8
			i++
		}
	}
	return len(b), nil
}

func (p *PRNG) Perm(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := p.N(i + 1)
		r[i], r[j] = r[j], r[i]
	}
	return r
}

// Pick an index by weight.
func (p *PRNG) Weighted(w []int) int {
	t := 0
	for _, x := range w {
		t += x
	}
	if t <= 0 {
		return 0
	}
	v := p.N(t)
	for i, x := range w {
		if v < x {
			return i
		}
		v -= x
	}
	return len(w) - 1
}
