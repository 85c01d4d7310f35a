// C41: binary search.
package c41

import (
	"cmp"
	"fmt"
	"math"
	"math/bits"
	"math/rand/v2"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/algox/searchx"

	"verifharness/seq"
	"verifharness/vk"
)

// one checks Search on a sorted slice.
func one[T cmp.Ordered](c *vk.C, s []T, x T) {
	keep := append([]T{}, s...)
	want := 0
	for want < len(s) && s[want] < x {
		want++
	}
	found := want < len(s) && s[want] == x
	i, ok := searchx.Search(s, x)
	if i != want || ok != found {
		c.Violate("Search", map[string]any{"slice": clip(s), "target": fmt.Sprint(x), "got": fmt.Sprint(i, ok), "want": fmt.Sprint(want, found)})
	}
	for j := range s {
		if s[j] != keep[j] {
			c.Violate("Search changed the slice", map[string]any{"slice": clip(keep)})
		}
	}
	c.Eval(1)
}

type item struct{ key, pos int }

// custom checks SearchCustom with a comparison by key (of any magnitude).
func custom(c *vk.C, keys []int, x, mag int, desc bool) {
	s := make([]item, len(keys))
	for i, k := range keys {
		s[i] = item{k, i}
	}
	calls := 0
	bad := ""
	f := func(a, b item) int {
		calls++
		for _, v := range []item{a, b} {
			if v != (item{x, -1}) && (v.pos < 0 || v.pos >= len(keys) || keys[v.pos] != v.key) {
				bad = fmt.Sprintf("the comparison was called with %v and %v", a, b)
			}
		}
		d := 0
		if a.key < b.key {
			d = -mag
		} else if a.key > b.key {
			d = mag
		}
		if desc {
			d = -d
		}
		return d
	}
	want := 0
	for want < len(keys) && (!desc && keys[want] < x || desc && keys[want] > x) {
		want++
	}
	found := want < len(keys) && keys[want] == x
	i, ok := searchx.SearchCustom(s, item{x, -1}, f)
	d := map[string]any{"keys": clip(keys), "target": x, "got": fmt.Sprint(i, ok), "want": fmt.Sprint(want, found), "comparisons": calls, "descending": desc}
	if i != want || ok != found {
		c.Violate("SearchCustom", d)
	}
	if bad != "" {
		c.Violate(bad, d)
	}
	if calls > 2*bits.Len(uint(len(keys)))+4 {
		c.Violate(fmt.Sprintf("SearchCustom used %d comparisons on %d elements", calls, len(keys)), d)
	}
	for j := range s {
		if s[j] != (item{keys[j], j}) {
			c.Violate("SearchCustom changed the slice", d)
		}
	}
	c.Max("max_comparisons", calls)
	c.Eval(1)
}

// kind searches elements of another type, by their keys.
func kind[T any](c *vk.C, name string, keys []int, mk func(key, pos int) T, get func(T) (int, int)) {
	n := len(keys)
	s := make([]T, n)
	for i, k := range keys {
		s[i] = mk(k, i)
	}
	targets := []int{-1, 1 << 30}
	for _, i := range []int{0, 1, n / 3, n / 2, n - 2, n - 1} {
		if i >= 0 && i < n {
			targets = append(targets, keys[i], keys[i]+1, keys[i]-1)
		}
	}
	for _, x := range targets {
		bad, calls := "", 0
		i, ok := searchx.SearchCustom(s, mk(x, -1), func(a, b T) int {
			calls++
			k, p := get(a)
			y, q := get(b)
			if p < 0 || p >= n || keys[p] != k || y != x || q != -1 {
				bad = "the comparison was given something other than an element and the target"
			}
			return cmp.Compare(k, y)
		})
		want, found := slices.BinarySearch(keys, x)
		d := map[string]any{"keys": clip(keys), "elements": n, "type": name, "target": x, "got": fmt.Sprint(i, ok), "want": fmt.Sprint(want, found), "comparisons": calls}
		if i != want || ok != found {
			c.Violate("SearchCustom among elements of type "+name, d)
		}
		if bad != "" {
			c.Violate(bad, d)
		}
		if calls > 2*bits.Len(uint(n))+4 {
			c.Violate(fmt.Sprintf("SearchCustom used %d comparisons on %d elements of type %s", calls, n, name), d)
		}
		c.Eval(1)
		c.Count("searches_among_other_types", 1)
	}
}

type wide100 struct {
	k   int
	pad [100]byte
	p   int
}

func kinds(c *vk.C, r *rand.Rand) {
	for _, n := range []int{0, 1, 2, 3, 5, 8, 13, 64, 100, 257, 1000, 4096, 65535, 65536, 65537, c.N(70001, 300000)} {
		for rep := 0; rep < 2; rep++ {
			keys := make([]int, n)
			for i := range keys {
				keys[i] = r.IntN(2*n + 1)
				if rep == 1 {
					keys[i] = 3 * r.IntN(n/10+1)
				}
			}
			slices.Sort(keys)
			kind(c, "pointer", keys, func(k, p int) *item { return &item{k, p} }, func(x *item) (int, int) {
				if x == nil {
					return -9, -9
				}
				return x.key, x.pos
			})
			kind(c, "any", keys, func(k, p int) any { return item{k, p} }, func(x any) (int, int) { i, _ := x.(item); return i.key, i.pos })
			kind(c, "struct of 116 bytes", keys, func(k, p int) wide100 { return wide100{k: k, p: p} }, func(x wide100) (int, int) { return x.k, x.p })
			kind(c, "array", keys, func(k, p int) [2]int { return [2]int{k, p} }, func(x [2]int) (int, int) { return x[0], x[1] })
			if n > 10000 {
				continue
			}
			kind(c, "slice", keys, func(k, p int) []int { return []int{k, p} }, func(x []int) (int, int) {
				if len(x) != 2 {
					return -9, -9
				}
				return x[0], x[1]
			})
			kind(c, "function", keys, func(k, p int) func() (int, int) { return func() (int, int) { return k, p } }, func(x func() (int, int)) (int, int) {
				if x == nil {
					return -9, -9
				}
				return x()
			})
			kind(c, "map", keys, func(k, p int) map[string]int { return map[string]int{"k": k, "p": p} }, func(x map[string]int) (int, int) { return x["k"], x["p"] })
			kind(c, "array of 2 KB", keys, func(k, p int) [256]int { return [256]int{0: k, 255: p} }, func(x [256]int) (int, int) { return x[0], x[255] })
		}
	}
}

func clip[T any](s []T) string {
	if len(s) > 200 {
		return fmt.Sprintf("%v... (%d)", s[:200], len(s))
	}
	return fmt.Sprintf("%v", s)
}

type namedText string

var odd = []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 1, math.Nextafter(1, 2), -1, 1 << 53, 1<<53 + 2, 1e-40, -1e-40}

// typed searches n sorted elements for some of them and for others.
func typed[T cmp.Ordered](c *vk.C, r *rand.Rand, n int, f func() T) {
	s := make([]T, n)
	for i := range s {
		s[i] = f()
	}
	slices.Sort(s)
	for k := 0; k < 12+min(n, 60); k++ {
		x := f()
		if n > 0 && k%2 == 0 {
			x = s[[]int{0, n - 1, r.IntN(n)}[k/2%3]]
		}
		if k >= 12 {
			x = s[(k-12)*n/min(n, 60)]
		}
		one(c, s, x)
	}
	if n > 0 {
		c.Distinct(vk.HashS(clip(s)))
	}
	c.Count("searches_over_wild_values", 12)
}

// text makes strings that a comparison of prefixes, of lengths, of signed
// bytes or of runes puts in another order.
func text(r *rand.Rand) string {
	s := []string{"", "", "12345678", "1234567", "äöü", "common prefix "}[r.IntN(6)]
	for k := r.IntN(5); k > 0; k-- {
		s += []string{"\x00", "a", "\xff", "A", "é", "\x80", "~"}[r.IntN(7)]
	}
	return s
}

func wide(r *rand.Rand) uint64 {
	switch r.IntN(4) {
	case 0:
		return 1<<63 - 2 + uint64(r.IntN(4))
	case 1:
		return ^uint64(0) - uint64(r.IntN(4))
	case 2:
		return uint64(r.IntN(4))
	}
	return r.Uint64()
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one sorted slice and target; non-trivial when the slice is not empty; distinct by slice and target.", func(c *vk.C) {
		kinds(c, c.Rand("kinds"))
		// All sorted slices over a few values, all targets at and between them.
		var gen func(s []int, k, n int)
		gen = func(s []int, k, n int) {
			for x := -1; x <= 2*5+1; x++ {
				one(c, s, x)
				custom(c, s, x, 1+x&3, false)
				fl, st := make([]float64, len(s)), make([]string, len(s))
				for i, v := range s {
					fl[i], st[i] = float64(v), string(rune('a'+v))
				}
				one(c, fl, float64(x))
				if x >= 0 {
					one(c, st, string(rune('a'+x)))
					one(c, st, string(rune('a'+x))+"0")
				}
				d := make([]int, len(s))
				for i, v := range s {
					d[len(s)-1-i] = v
				}
				custom(c, d, x, math.MaxInt, true)
				if len(s) > 0 {
					c.Distinct(vk.HashS(fmt.Sprint(s, x)))
				}
			}
			if len(s) == n {
				return
			}
			for v := k; v <= 2*5; v += 2 {
				gen(append(s[:len(s):len(s)], v), v, n)
			}
		}
		gen(nil, 0, c.N(6, 9))
		one(c, []int{}, 1)
		one(c, []string{"", "", "a"}, "")
		one(c, []int{math.MinInt, math.MinInt, 0, math.MaxInt}, math.MinInt)
		one(c, []int{math.MinInt, -1, 0, math.MaxInt, math.MaxInt}, math.MaxInt)
		one(c, []uint64{0, 1, math.MaxUint64 - 1, math.MaxUint64}, math.MaxUint64)
		one(c, []int8{-128, -128, 127}, 127)
		one(c, []uint8{0, 127, 128, 255}, 128)
		one(c, []float64{math.Inf(-1), -1, math.Copysign(0, -1), 0, 1, math.Inf(1)}, 0)
		one(c, []float64{math.Inf(-1), -1, 0, 1, math.Inf(1), math.Inf(1)}, math.Inf(1))
		// Every kind of element over its whole range, texts that differ late.
		w := c.Rand("types")
		for i := 0; i < c.N(600, 20000); i++ {
			n := []int{w.IntN(12), w.IntN(100), 1000 + w.IntN(1000)}[i%3]
			switch i / 3 % 10 {
			case 0:
				typed(c, w, n, func() string { return text(w) })
				for k := 0; k < 4; k++ {
					typed(c, w, min(n, 5+w.IntN(60)), seq.Speller(w))
				}
			case 1:
				typed(c, w, n, func() int64 { return int64(wide(w)) })
			case 2:
				typed(c, w, n, func() uint64 { return wide(w) })
			case 3:
				typed(c, w, n, func() int32 { return int32(wide(w)) })
			case 4:
				typed(c, w, n, func() uint32 { return uint32(wide(w)) })
			case 5:
				typed(c, w, n, func() int16 { return int16(wide(w)) })
			case 6:
				typed(c, w, n, func() uint8 { return uint8(wide(w)) })
			case 7:
				typed(c, w, n, func() namedText { return namedText(text(w)) })
			case 8:
				typed(c, w, n, func() float64 { return odd[w.IntN(len(odd))] * float64(1+w.IntN(2)) })
			case 9:
				typed(c, w, n, func() float32 { return float32(odd[w.IntN(len(odd))]) })
			}
		}
		r := c.Rand("large")
		for i := 0; i < c.N(3000, 100000); i++ {
			n := []int{r.IntN(40), r.IntN(1000), 5000 + r.IntN(5000)}[r.IntN(3)]
			s := make([]int, n)
			v := -r.IntN(1000)
			for j := range s {
				if r.IntN(3) == 0 {
					v += r.IntN(4)
				}
				s[j] = v
			}
			if i%5 == 0 && n > 2 { // one long run of equal elements
				a, b := r.IntN(n), r.IntN(n)
				for j := min(a, b); j < max(a, b); j++ {
					s[j] = s[min(a, b)]
				}
			}
			for k := 0; k < 6; k++ {
				x := r.IntN(3000) - 1500
				if n > 0 && k < 4 {
					x = s[r.IntN(n)] + r.IntN(3) - 1
				}
				one(c, s, x)
				custom(c, s, x, 1<<r.IntN(bits.UintSize-2), false)
				c.Distinct(vk.HashS(fmt.Sprint(n, x, i)))
			}
			if i < 10 && n < 50 {
				c.Sample(clip(s))
			}
		}
		big := make([]int, c.N(1<<20, 1<<24))
		for i := range big {
			big[i] = i / 3 * 2
		}
		for i := 0; i < 60; i++ {
			x := r.IntN(len(big))
			calls := 0
			j, ok := searchx.SearchCustom(big, x, func(a, b int) int { calls++; return cmp.Compare(a, b) })
			want := min(len(big), (x+1)/2*3)
			if j != want || ok != (x%2 == 0 && want < len(big)) || calls > 2*bits.Len(uint(len(big)))+4 {
				c.Violate("SearchCustom on a large slice", map[string]any{"elements": len(big), "target": x, "got": fmt.Sprint(j, ok), "want": want, "comparisons": calls})
			}
			c.Eval(1)
		}
	})
}
