package kit

import (
	"math/bits"

	"pgregory.net/rapid"
)

var bit = rapid.Bool()

// N draws uniformly (up to a negligible error) from 0..n-1, shrinking to 0.
// rapid's own integer generators favour small values strongly.
func N(t *rapid.T, n int, name string) int {
	if n <= 1 {
		return 0
	}
	k := bits.Len(uint(n-1)) + 3
	if n&(n-1) == 0 {
		k -= 3
	}
	v := 0
	for i := 0; i < k; i++ {
		v <<= 1
		if bit.Draw(t, name) {
			v |= 1
		}
	}
	return v % n
}

// Pct is true in pct of 100 cases and shrinks to false.
func Pct(t *rapid.T, pct int, name string) bool { return N(t, 100, name) >= 100-pct }

// Range draws uniformly from lo..hi.
func Range(t *rapid.T, lo, hi int, name string) int { return lo + N(t, hi-lo+1, name) }

// Pick draws one of the values, shrinking to the first.
func Pick[T any](t *rapid.T, l []T, name string) T { return l[N(t, len(l), name)] }

// List draws lo..hi elements; dropping elements shrinks it.
func List[T any](t *rapid.T, lo, hi int, name string, f func(t *rapid.T) T) []T {
	g := rapid.Custom(f)
	return rapid.SliceOfN(g, lo, hi).Draw(t, name)
}
