package seq

import (
	"math"
	"math/rand/v2"
	"slices"
	"strings"
)

// Words returns n different strings with much in common: long common
// beginnings, beginnings of each other, and bytes from both halves of the
// range, valid UTF-8 or not.
func Words(r *rand.Rand, n int) []string {
	seen := map[string]bool{}
	var out []string
	mk := Speller(r)
	for tries := 0; len(out) < n; tries++ {
		if tries%50 == 49 {
			mk = Speller(r)
		}
		if s := mk(); !seen[s] {
			seen[s] = true
			out = append(out, s)
		}
	}
	return out
}

// Speller returns a maker of strings made of a few of these parts, so that
// they are near each other.
func Speller(r *rand.Rand) func() string {
	letters := []string{"\x00", "\x01", "a", "b", "A", "B", "0", "~", "\x7f", "\x80", "\xff", "é", "É", "本", "\U0001f600", " ", "-", "_"}
	heads := []string{"", "", "aaaaaaa", "aaaaaaaa", "aaaaaaaaa", "\xff\xff\xff\xff\xff\xff\xff\xff", "\x00\x00\x00\x00\x00\x00\x00\x00", "日本語日本語", "123456789012345", strings.Repeat("key/", 8), strings.Repeat("b", 64), strings.Repeat("b", 255), strings.Repeat("b", 256)}
	few := func(s []string, n int) []string {
		r.Shuffle(len(s), func(i, j int) { s[i], s[j] = s[j], s[i] })
		return s[:n]
	}
	l, h := few(letters, 2+r.IntN(4)), few(heads, 1+r.IntN(2))
	if r.IntN(3) == 0 { // the same letters, large and small
		l = append(l, "a", "A", "é", "É")
	}
	at, front := r.IntN(3), 1+r.IntN(3)
	return func() string {
		s := ""
		if at > 0 {
			for k := r.IntN(front + 1); k > 0; k-- {
				s += l[r.IntN(len(l))]
			}
		}
		s += h[r.IntN(len(h))]
		if at < 2 {
			for k := r.IntN(10); k > 0; k-- {
				s += l[r.IntN(len(l))]
			}
		}
		return s
	}
}

// Floats returns n different numbers of all magnitudes, without NaN.
func Floats(r *rand.Rand, n int) []float64 {
	seen := map[float64]bool{}
	var out []float64
	for len(out) < n {
		f := math.Float64frombits(r.Uint64())
		switch r.IntN(4) {
		case 0:
			f = float64(r.IntN(40)-20) / 4
		case 1:
			f = []float64{math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 1 << 53, 1<<53 + 2, -1 << 63, 1 << 63}[r.IntN(10)]
		}
		if f == f && !seen[f] {
			seen[f] = true
			out = append(out, f)
		}
	}
	return out
}

// Ints returns n different integers of all magnitudes.
func Ints(r *rand.Rand, n int) []int64 {
	seen := map[int64]bool{}
	var out []int64
	for len(out) < n {
		i := int64(r.Uint64()) >> r.IntN(64)
		switch r.IntN(8) {
		case 0:
			i = math.MaxInt64 - int64(r.IntN(3))
		case 1:
			i = math.MinInt64 + int64(r.IntN(3))
		}
		if !seen[i] {
			seen[i] = true
			out = append(out, i)
		}
	}
	return out
}

// Sorted is s in ascending order.
func Sorted[K string | float64 | int64 | uint64](s []K) []K {
	slices.Sort(s)
	return s
}
