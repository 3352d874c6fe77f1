package main

// rng is the only source of choices of the driver (splitmix64).
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{0x1234567}
	for _, p := range parts {
		r.s ^= p
		r.s = r.next()
	}
	return r
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}
func (r *rng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.next() % uint64(n))
}
func (r *rng) rangeN(a, b int) int  { return a + r.n(b-a+1) }
func (r *rng) p(percent int) bool   { return r.n(100) < percent }
func pick[T any](r *rng, xs ...T) T { return xs[r.n(len(xs))] }
func pickS[T any](r *rng, xs []T) T { return xs[r.n(len(xs))] }
func shuffle[T any](r *rng, xs []T) {
	for i := len(xs) - 1; i > 0; i-- {
		j := r.n(i + 1)
		xs[i], xs[j] = xs[j], xs[i]
	}
}
func hashStr(s string) (h uint64) {
	h = 14695981039346656037
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return
}
