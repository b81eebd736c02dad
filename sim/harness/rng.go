//go:build go1.21

package main

// R is the harness's only source of choices.
type R struct{ s uint64 }

func NewR(seed uint64) *R { return &R{seed*0x9e3779b97f4a7c15 + 0x1234567} }

func (r *R) U() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *R) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U() % uint64(n))
}
func (r *R) Range(a, b int) int   { return a + r.N(b-a+1) }
func (r *R) F() float64           { return float64(r.U()>>11) / (1 << 53) }
func (r *R) P(p float64) bool     { return r.F() < p }
func (r *R) Fork() *R             { return NewR(r.U()) }
func pick[T any](r *R, xs ...T) T { return xs[r.N(len(xs))] }
func pickS[T any](r *R, xs []T) T { return xs[r.N(len(xs))] }
func shuffle[T any](r *R, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.N(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
