package main

import "pgregory.net/rapid"

// G draws values from rapid. All random choices go through it, options are ordered from simple to complex.
type G struct{ t *rapid.T }

var boolGen = rapid.Bool()

func (g G) Bool() bool { return boolGen.Draw(g.t, "b") }

// Int draws from [lo, hi], nearly uniformly for small ranges.
func (g G) Int(lo, hi int) int {
	if lo >= hi {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(g.t, "i")
}

// P is true with probability num/16.
func (g G) P(num int) bool { return 15-g.Nibble() < num }

var nibbles = rapid.SampledFrom([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15})

// Nibble draws from [0, 15] uniformly.
func (g G) Nibble() int {
	n := 0
	for i := 0; i < 4; i++ {
		n <<= 1
		if boolGen.Draw(g.t, "n") {
			n |= 1
		}
	}
	return n
}

// Idx draws an index below n uniformly enough.
func (g G) Idx(n int) int {
	if n <= 1 {
		return 0
	}
	bits := 0
	for 1<<bits < n {
		bits++
	}
	bits += 2
	v := 0
	for i := 0; i < bits; i++ {
		v <<= 1
		if boolGen.Draw(g.t, "x") {
			v |= 1
		}
	}
	return v * n >> bits
}

// W draws an index with the given weights.
func (g G) W(weights ...int) int {
	sum := 0
	for _, w := range weights {
		sum += w
	}
	v := g.Idx(sum)
	for i, w := range weights {
		if v < w {
			return i
		}
		v -= w
	}
	return 0
}

func pick[T any](g G, vs []T) T { return vs[g.Idx(len(vs))] }

// perm draws a permutation of 0..n-1, the identity being the simplest.
func (g G) perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i < n-1; i++ {
		j := i + g.Idx(n-i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

func ptr[T any](v T) *T { return &v }

// pickSome picks lo to hi different elements in their order.
func pickSome[T any](g G, vs []T, lo, hi int) []T {
	n := g.Int(lo, min(hi, len(vs)))
	p := g.perm(len(vs))[:n]
	in := map[int]bool{}
	for _, i := range p {
		in[i] = true
	}
	var out []T
	for i, v := range vs {
		if in[i] {
			out = append(out, v)
		}
	}
	return out
}
