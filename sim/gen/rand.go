// Package gen makes the workloads: sources, damage done to sources, and histories of operations.
package gen

import "hash/fnv"

// Rand is the only source of random choices
type Rand struct{ s uint64 }

func New(seed uint64) *Rand { return &Rand{seed*0x9e3779b97f4a7c15 + 0x1234567} }

// Derive makes an independent generator for a named purpose
func Derive(seed uint64, name string, n uint64) *Rand {
	h := fnv.New64a()
	h.Write([]byte(name))
	r := New(seed ^ h.Sum64())
	a := r.Uint64()
	return New(a + n*0xd1342543de82ef95)
}

func (r *Rand) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// P is true with a probability of one in n
func (r *Rand) P(n int) bool { return r.Intn(n) == 0 }

func (r *Rand) Pick(s ...string) string { return s[r.Intn(len(s))] }
