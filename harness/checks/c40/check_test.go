// C40: sorting.
package c40

import (
	"fmt"
	"math"
	"math/rand/v2"
	"sort"
	"strconv"
	"strings"
	"testing"
	"unsafe"

	"github.com/unsafe-risk/utilx/algox/sortx"

	"verifharness/vk"
)

type ordered interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr | ~float32 | ~float64 | ~string
}

type named int
type namedS string

// ident distinguishes equal elements where the type allows it: the two zeros
// of floats, and strings by where they are stored.
func ident[T ordered](v T) uint64 {
	switch x := any(v).(type) {
	case float32:
		return uint64(math.Float32bits(x))
	case float64:
		return math.Float64bits(x)
	case string:
		if len(x) == 0 {
			return 0
		}
		return uint64(uintptr(unsafe.Pointer(unsafe.StringData(x))))
	}
	return 0
}

type key[T ordered] struct {
	v  T
	id uint64
}

func count[T ordered](s []T) map[key[T]]int {
	m := map[key[T]]int{}
	for _, v := range s {
		k := key[T]{v, ident(v)}
		m[k]++
	}
	return m
}

func sameElems[T ordered](a, b []T) bool {
	x, y := count(a), count(b)
	if len(x) != len(y) || len(a) != len(b) {
		return false
	}
	for k, n := range x {
		if y[k] != n {
			return false
		}
	}
	return true
}

// stable is the ideal result: insertion order among equals.
func stable[T ordered](s []T, desc bool) []T {
	out := append([]T{}, s...)
	for i := 1; i < len(out); i++ { // insertion sort, for short slices
		for j := i; j > 0 && (!desc && out[j] < out[j-1] || desc && out[j] > out[j-1]); j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func isOrdered[T ordered](s []T, desc bool) bool {
	for i := 1; i < len(s); i++ {
		if !desc && s[i] < s[i-1] || desc && s[i] > s[i-1] {
			return false
		}
	}
	return true
}

func orderedCase[T ordered](c *vk.C, in []T, label string) {
	type f struct {
		name         string
		run          func([]T)
		desc, stable bool
	}
	for _, x := range []f{
		{"Sort", func(s []T) { sortx.Sort(s, false) }, false, false},
		{"Sort reverse", func(s []T) { sortx.Sort(s, true) }, true, false},
		{"SortReverse", func(s []T) { sortx.SortReverse(s) }, true, false},
		{"SortStable", func(s []T) { sortx.SortStable(s) }, false, true},
		{"SortStableReverse", func(s []T) { sortx.SortStableReverse(s) }, true, true},
	} {
		// The slice is a window of a larger array.
		buf := make([]T, len(in)+4)
		for i := range buf {
			if len(in) > 0 {
				buf[i] = in[i%len(in)]
			}
		}
		w := buf[2 : 2+len(in)]
		copy(w, in)
		before := append([]T{}, buf...)
		fail := func(what string) {
			c.Violate(x.name+": "+what, map[string]any{"type": fmt.Sprintf("%T", in), "input": clip(in), "output": clip(w), "workload": label})
		}
		x.run(w)
		if !isOrdered(w, x.desc) {
			fail("the result is not in order")
		}
		if !sameElems(in, w) {
			fail("the result is not a permutation of the input")
		}
		if x.stable && len(in) <= 100 {
			want := stable(in, x.desc)
			for i := range want {
				if ident(want[i]) != ident(w[i]) {
					fail("equal elements changed their order")
				}
			}
		}
		for i := range buf {
			if (i < 2 || i >= 2+len(in)) && (buf[i] != before[i]) {
				fail("elements outside the slice changed")
			}
		}
		c.Eval(1)
	}
	for _, s := range [][]T{in, stableIf(in, false), stableIf(in, true)} {
		keep := append([]T{}, s...)
		if got, want := sortx.IsSorted(s), isOrdered(s, false); got != want {
			c.Violate("IsSorted", map[string]any{"input": clip(s), "got": got})
		}
		if got, want := sortx.IsSortedReverse(s), isOrdered(s, true); got != want {
			c.Violate("IsSortedReverse", map[string]any{"input": clip(s), "got": got})
		}
		for i := range s {
			if s[i] != keep[i] {
				c.Violate("IsSorted changed the slice", map[string]any{"input": clip(keep)})
			}
		}
	}
}

func stableIf[T ordered](in []T, desc bool) []T {
	s := append([]T{}, in...)
	sort.SliceStable(s, func(i, j int) bool { return !desc && s[i] < s[j] || desc && s[i] > s[j] })
	return s
}

func clip[T any](s []T) string {
	if len(s) > 200 {
		return fmt.Sprintf("%v... (%d)", s[:200], len(s))
	}
	return fmt.Sprintf("%v", s)
}

type item struct{ key, pos int }

// customCase checks the functions with a comparison, including the number of
// comparisons and the arguments given to it.
func customCase(c *vk.C, keys []int, label string, lessKey func(a, b int) bool) {
	n := len(keys)
	for _, st := range []bool{false, true} {
		s := make([]item, n)
		for i, k := range keys {
			s[i] = item{k, i}
		}
		calls := 0
		foreign := false
		less := func(a, b item) bool {
			calls++
			if a.pos < 0 || a.pos >= n || b.pos < 0 || b.pos >= n || keys[a.pos] != a.key || keys[b.pos] != b.key {
				foreign = true
			}
			return lessKey(a.key, b.key)
		}
		name := "SortCustom"
		if st {
			name = "SortStableCustom"
			sortx.SortStableCustom(s, less)
		} else {
			sortx.SortCustom(s, less)
		}
		fail := func(what string) {
			c.Violate(name+": "+what, map[string]any{"keys": clip(keys), "output": clip(s), "workload": label, "comparisons": calls})
		}
		if foreign {
			fail("the comparison was given something that is not in the slice")
		}
		seen := make([]bool, n)
		for i, x := range s {
			if x.pos < 0 || x.pos >= n || seen[x.pos] || keys[x.pos] != x.key {
				fail("the result is not a permutation of the input")
			}
			seen[x.pos] = true
			if i > 0 {
				if lessKey(x.key, s[i-1].key) {
					fail("the result is not in order")
				}
				if st && !lessKey(s[i-1].key, x.key) && x.pos < s[i-1].pos {
					fail("equal elements changed their order")
				}
			}
		}
		lg := math.Log2(float64(n + 2))
		if limit := 6*float64(n)*lg + 60; float64(calls) > limit {
			fail(fmt.Sprintf("%d comparisons for %d elements", calls, n))
		}
		if n > 50 {
			c.Max("max_comparisons_per_n_log_n_x100", int(100*float64(calls)/(float64(n)*lg)))
		}
		c.Eval(1)
		if !sortx.IsSortedCustom(s, less) {
			fail("IsSortedCustom denies that the result is sorted")
		}
	}
	s := append([]int{}, keys...)
	want := true
	for i := 1; i < n; i++ {
		want = want && !lessKey(keys[i], keys[i-1])
	}
	if got := sortx.IsSortedCustom(s, lessKey); got != want {
		c.Violate("IsSortedCustom", map[string]any{"keys": clip(keys), "got": got})
	}
}

// customKind sorts elements of another type, by their keys, and looks at
// what became of each.
func customKind[T any](c *vk.C, name string, keys []int, mk func(key, pos int) T, get func(T) (int, int)) {
	n := len(keys)
	for _, st := range []bool{false, true} {
		for _, desc := range []bool{false, true} {
			s := make([]T, n, n+3)
			for i, k := range keys {
				s[i] = mk(k, i)
			}
			behind := s[n : n+3]
			for i := range behind {
				behind[i] = mk(-1, n+i)
			}
			fname := "SortCustom"
			foreign := false
			less := func(a, b T) bool {
				x, i := get(a)
				y, j := get(b)
				if i < 0 || i >= n || j < 0 || j >= n || keys[i] != x || keys[j] != y {
					foreign = true
				}
				return !desc && x < y || desc && y < x
			}
			if st {
				fname = "SortStableCustom"
				sortx.SortStableCustom(s, less)
			} else {
				sortx.SortCustom(s, less)
			}
			fail := func(what string) {
				c.Violate(fname+" of elements of type "+name+": "+what, map[string]any{"keys": clip(keys), "elements": n, "descending": desc})
			}
			if foreign {
				fail("the comparison was given something that is not in the slice")
			}
			seen := make([]bool, n)
			pk, pp := 0, 0
			for i, x := range s {
				k, p := get(x)
				if p < 0 || p >= n || seen[p] || keys[p] != k {
					fail("the result is not a permutation of the input")
				}
				seen[p] = true
				if i > 0 && (!desc && k < pk || desc && pk < k) {
					fail("the result is not in order")
				}
				if i > 0 && st && k == pk && p < pp {
					fail("equal elements changed their order")
				}
				pk, pp = k, p
			}
			for i := range behind {
				if k, p := get(behind[i]); k != -1 || p != n+i {
					fail("what lies behind the slice was changed")
				}
			}
			if !sortx.IsSortedCustom(s, less) {
				fail("IsSortedCustom denies that the result is sorted")
			}
			c.Eval(1)
		}
	}
	c.Count("sorts_of_other_types", 4)
	c.Max("largest_sort_of_another_type", n)
}

type wide100 struct {
	k   int
	pad [100]byte
	p   int
	s   string
}

func customKinds(c *vk.C, r *rand.Rand) {
	lens := []int{0, 1, 2, 3, 5, 11, 12, 13, 20, 21, 50, 100, 255, 256, 257, 1000, 5000, 65535, 65536, 65537}
	if c.Thorough() {
		lens = append(lens, 30, 64, 128, 512, 4096, 20000, 131073, 300000)
	}
	for _, n := range lens {
		reps := 6
		if n > 2000 {
			reps = 1
		}
		for rep := 0; rep < reps; rep++ {
			keys, _ := pattern(r, n)
			n := len(keys)
			customKind(c, "pointer", keys, func(k, p int) *item { return &item{k, p} }, func(x *item) (int, int) { return x.key, x.pos })
			customKind(c, "any", keys, func(k, p int) any { return item{k, p} }, func(x any) (int, int) { i, _ := x.(item); return i.key, i.pos })
			customKind(c, "struct of 150 bytes", keys, func(k, p int) wide100 {
				return wide100{k: k, p: p, pad: [100]byte{99: byte(p)}, s: "x"}
			}, func(x wide100) (int, int) {
				if x.s != "x" || x.pad[99] != byte(x.p) {
					return -1, -1
				}
				return x.k, x.p
			})
			customKind(c, "slice", keys, func(k, p int) []int { return []int{k, p} }, func(x []int) (int, int) {
				if len(x) != 2 {
					return -1, -1
				}
				return x[0], x[1]
			})
			customKind(c, "array", keys, func(k, p int) [2]int { return [2]int{k, p} }, func(x [2]int) (int, int) { return x[0], x[1] })
			customKind(c, "struct of a string and an interface", keys, func(k, p int) struct {
				s string
				a any
			} {
				return struct {
					s string
					a any
				}{strconv.Itoa(k), p}
			}, func(x struct {
				s string
				a any
			}) (int, int) {
				k, _ := strconv.Atoi(x.s)
				p, ok := x.a.(int)
				if !ok {
					p = -1
				}
				return k, p
			})
			if n > 6000 {
				continue
			}
			customKind(c, "struct of 2 KB", keys, func(k, p int) [256]int { return [256]int{0: k, 255: p} }, func(x [256]int) (int, int) { return x[0], x[255] })
			customKind(c, "function", keys, func(k, p int) func() (int, int) { return func() (int, int) { return k, p } }, func(x func() (int, int)) (int, int) {
				if x == nil {
					return -1, -1
				}
				return x()
			})
			customKind(c, "map", keys, func(k, p int) map[string]int { return map[string]int{"k": k, "p": p} }, func(x map[string]int) (int, int) { return x["k"], x["p"] })
			customKind(c, "string", keys, func(k, p int) string { return fmt.Sprint(k, " ", p) }, func(x string) (k int, p int) {
				fmt.Sscan(x, &k, &p)
				return
			})
		}
		sortx.SortCustom(make([]struct{}, n), func(a, b struct{}) bool { return false })
		sortx.SortStableCustom(make([]struct{}, n), func(a, b struct{}) bool { return false })
	}
	// Large elements, more than 16 bits count, almost in order.
	keys := make([]int, 66000+r.IntN(2000))
	for i := range keys {
		keys[i] = i / 3
	}
	for i := 0; i < 200; i++ {
		a, b := r.IntN(len(keys)), r.IntN(len(keys))
		keys[a], keys[b] = keys[b], keys[a]
	}
	customKind(c, "struct of 1 KB", keys, func(k, p int) [130]int { return [130]int{0: k, 129: p} }, func(x [130]int) (int, int) { return x[0], x[129] })
}

// adversary makes a quicksort as slow as it can be (McIlroy 1999).
func adversary(c *vk.C, n int, st bool) []int {
	val := make([]int, n)
	gas := n + 1
	for i := range val {
		val[i] = gas
	}
	solid, candidate := 0, 0
	calls := 0
	less := func(a, b item) bool {
		calls++
		x, y := a.pos, b.pos
		if val[x] == gas && val[y] == gas {
			if x == candidate {
				val[x] = solid
			} else {
				val[y] = solid
			}
			solid++
		}
		if val[x] == gas {
			candidate = x
		} else if val[y] == gas {
			candidate = y
		}
		return val[x] < val[y]
	}
	s := make([]item, n)
	for i := range s {
		s[i].pos = i
	}
	if st {
		sortx.SortStableCustom(s, less)
	} else {
		sortx.SortCustom(s, less)
	}
	lg := math.Log2(float64(n + 2))
	c.Max("max_comparisons_adversary_per_n_log_n_x100", int(100*float64(calls)/(float64(n)*lg)))
	if float64(calls) > 6*float64(n)*lg+60 {
		c.Violate(fmt.Sprintf("%d comparisons for %d elements chosen by an adversary", calls, n), map[string]any{"stable": st})
	}
	for i := 1; i < n; i++ {
		if val[s[i].pos] < val[s[i-1].pos] {
			c.Violate("the result is not in order", map[string]any{"workload": "adversary", "n": n})
		}
	}
	return val
}

func pattern(r *rand.Rand, n int) ([]int, string) {
	s := make([]int, n)
	name := ""
	switch k := r.IntN(9); k {
	case 0:
		name = "random"
		for i := range s {
			s[i] = r.IntN(4*n + 1)
		}
	case 1:
		name = "few values"
		m := 1 + r.IntN(4)
		for i := range s {
			s[i] = r.IntN(m)
		}
	case 2, 3:
		name = "sorted with swaps"
		for i := range s {
			s[i] = i / (1 + k%3)
		}
		for j := r.IntN(5); j > 0 && n > 0; j-- {
			a, b := r.IntN(n), r.IntN(n)
			s[a], s[b] = s[b], s[a]
		}
	case 4:
		name = "reversed"
		for i := range s {
			s[i] = -i / (1 + r.IntN(2))
		}
	case 5:
		name = "organ pipe"
		for i := range s {
			s[i] = min(i, n-i)
		}
	case 6:
		name = "saw tooth"
		m := 1 + r.IntN(n+1)
		for i := range s {
			s[i] = i % m
		}
	case 7:
		name = "sorted runs"
		for i := range s {
			s[i] = i*7%(n+1) + i/3
		}
	case 8:
		name = "extreme values"
		for i := range s {
			s[i] = []int{math.MinInt, math.MaxInt, 0, -1, 1}[r.IntN(5)]
		}
	}
	return s, name
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one slice sorted by all functions; non-trivial when it has two elements or more; distinct by content and element type.", func(c *vk.C) {
		asc := func(a, b int) bool { return a < b }
		desc := func(a, b int) bool { return a > b }
		coarse := func(a, b int) bool { return a>>1 < b>>1 }
		// all short slices over four values
		for n := 0; n <= c.N(7, 9); n++ {
			vk.Words(4, n, func(w []int) {
				s := append([]int{}, w...)
				orderedCase(c, s, "all words")
				customCase(c, s, "all words", asc)
				if n <= 6 {
					customCase(c, s, "all words", desc)
					customCase(c, s, "all words", coarse)
					fl := make([]float64, n)
					st := make([]string, n)
					for i, k := range s {
						fl[i] = []float64{0, math.Copysign(0, -1), 1.5, math.Inf(-1)}[k]
						st[i] = string([]byte{"aab"[k%3]}) // equal strings stored apart
					}
					orderedCase(c, fl, "all words")
					orderedCase(c, st, "all words")
				}
				if n >= 2 {
					c.Distinct(vk.HashS(fmt.Sprint(w)))
				}
			})
		}
		r := c.Rand("patterns")
		for i := 0; i < c.N(1500, 40000); i++ {
			n := []int{r.IntN(20), 10 + r.IntN(10), 40 + r.IntN(30), r.IntN(300), 1000 + r.IntN(1000)}[r.IntN(5)]
			s, name := pattern(r, n)
			c.Distinct(vk.HashS(fmt.Sprint(s)))
			if i < 20 && n < 40 {
				c.Sample(map[string]any{"pattern": name, "keys": clip(s)})
			}
			customCase(c, s, name, []func(a, b int) bool{asc, desc, coarse}[r.IntN(3)])
			orderedCase(c, s, name)
			switch r.IntN(11) {
			case 0:
				conv(c, s, name, func(k int) int8 { return int8(k) })
			case 1:
				conv(c, s, name, func(k int) uint64 { return uint64(k) })
			case 2:
				conv(c, s, name, func(k int) float64 {
					if k%5 == 0 {
						return math.Copysign(0, float64(k%2)-0.5)
					}
					return float64(k) / 3
				})
			case 3:
				conv(c, s, name, func(k int) string { return string([]byte(fmt.Sprint(k % 20))) })
			case 4:
				conv(c, s, name, func(k int) named { return named(k) })
			case 5:
				conv(c, s, name, func(k int) namedS { return namedS(strings.Repeat("a", k&7)) })
			case 6:
				conv(c, s, name, func(k int) float32 { return float32(k) })
			case 7:
				conv(c, s, name, func(k int) uint8 { return uint8(k) })
			case 8: // texts that differ late, in NUL and 0xff bytes, in length only
				conv(c, s, name, func(k int) string { return text(uint(k)) })
			case 9: // the whole range of a type: differences overflow
				switch i % 6 {
				case 0:
					conv(c, s, name, func(k int) int64 { return int64(wide(uint(k))) })
				case 1:
					conv(c, s, name, func(k int) uint64 { return wide(uint(k)) })
				case 2:
					conv(c, s, name, func(k int) int32 { return int32(wide(uint(k))) })
				case 3:
					conv(c, s, name, func(k int) uint16 { return uint16(wide(uint(k))) })
				case 4:
					conv(c, s, name, func(k int) int16 { return int16(wide(uint(k))) })
				case 5:
					conv(c, s, name, func(k int) uintptr { return uintptr(wide(uint(k))) })
				}
			case 10:
				odd := []float64{0, math.Copysign(0, -1), math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 1, math.Nextafter(1, 2), -1, 1 << 53, 1<<53 + 2, 1e-40, -1e-40}
				if i%2 == 0 {
					conv(c, s, name, func(k int) float64 { return odd[uint(k)%uint(len(odd))] })
				} else {
					conv(c, s, name, func(k int) float32 { return float32(odd[uint(k)%uint(len(odd))]) })
				}
			}
		}
		for _, n := range []int{10, 50, 100, 500, 2000, 10000, c.N(30000, 200000)} {
			for _, st := range []bool{false, true} {
				s := adversary(c, n, st)
				customCase(c, s, "adversary's result", asc)
			}
			// and large regular inputs
			for k := 0; k < 12; k++ {
				s, name := pattern(r, n)
				customCase(c, s, name, asc)
			}
		}
		for _, n := range []int{65537, 131073, c.N(200000, 3000000)} { // counts beyond 16 and 17 bits
			for k := 0; k < 4; k++ {
				s := make([]int, n)
				vals := []int{2, 300, n / 2, 10 * n}[k]
				for i := range s {
					s[i] = r.IntN(vals)
				}
				customCase(c, s, "very large", coarse)
				if k%2 == 0 {
					orderedCase(c, s, "very large")
				}
				c.Max("largest_slice", n)
			}
		}
		for n := 2; n <= 70; n++ {
			oneStep(c, n, seq(1, n))
		}
		for _, n := range []int{100, 128, 129, 256, 257, 500, 1000, 1024, 1025, 4096, 4097, 10000, 16385, 65536, 65537, 70001, 131073, c.N(300000, 3000000)} {
			at := []int{1, n / 2, n/2 + 1, n / 3, n - 1, n - 2}
			for b := 2; b < n; b *= 2 {
				at = append(at, b-1, b, b+1, n-b, n-b+1)
			}
			for d := 3; d <= 9; d++ {
				at = append(at, n/d, (n+d-1)/d, n/d*(d-1))
			}
			for d := 10; d < n; d *= 10 {
				at = append(at, d, d*5)
			}
			for k := c.N(20, 200); k > 0; k-- {
				at = append(at, 1+r.IntN(n-1))
			}
			oneStep(c, n, at)
		}
		sortx.Sort[int](nil, false)
		customKinds(c, c.Rand("kinds"))
		sortx.SortStable[string](nil)
		if !sortx.IsSorted[int](nil) || !sortx.IsSortedReverse[int](nil) || !sortx.IsSortedCustom[int](nil, asc) {
			c.Violate("a nil slice is not sorted", nil)
		}
	})
}

func seq(a, b int) (out []int) {
	for ; a < b; a++ {
		out = append(out, a)
	}
	return
}

// oneStep judges slices of n elements that are in order but for one step.
func oneStep(c *vk.C, n int, at []int) {
	up, down := make([]int, n), make([]int, n)
	fl, st := make([]float64, n), make([]string, n)
	for i := range up {
		up[i], down[i], fl[i], st[i] = i/3, -i/3, float64(i/3)/7, fmt.Sprintf("%08d", i/3)
	}
	asc, more := func(i, j int) bool { return i < j }, func(i, j int) bool { return i > j }
	check := func(p int, ordered bool) {
		vk.Op()
		got := []bool{
			sortx.IsSorted(up), sortx.IsSortedReverse(down), sortx.IsSortedCustom(up, asc), sortx.IsSortedCustom(down, more),
			sortx.IsSorted(fl), sortx.IsSorted(st),
		}
		for k, g := range got {
			if g != ordered {
				c.Violate("a slice with one element out of order", map[string]any{"elements": n, "out_of_order_at": p, "function": []string{"IsSorted int", "IsSortedReverse int", "IsSortedCustom ascending", "IsSortedCustom descending", "IsSorted float64", "IsSorted string"}[k], "got": g})
			}
		}
		c.Eval(len(got))
		c.Count("slices_with_one_step_out_of_order", 1)
		c.Distinct(uint64(n)<<32 + uint64(p))
	}
	check(-1, true)
	for _, p := range at {
		if p < 1 || p >= n {
			continue
		}
		// All from p on are moved, so that only the step from p-1 to p is wrong.
		for i := p; i < n; i++ {
			up[i], down[i], fl[i] = up[i]-n, down[i]+n, fl[i]-float64(n)
		}
		keep := st[p-1]
		st[p-1] = "~"
		check(p, false)
		st[p-1] = keep
		for i := p; i < n; i++ {
			up[i], down[i], fl[i] = up[i]+n, down[i]-n, float64(i/3)/7
		}
	}
}

// text makes strings that a comparison of prefixes, of lengths, of signed
// bytes or of runes puts in another order.
func text(k uint) string {
	head := []string{"", "", "12345678", "1234567", "äöü", "common prefix "}[k%6]
	part := []string{"\x00", "a", "\xff", "A", "é", "\x80", "~"}
	s := head
	for k /= 6; k > 0 && len(s) < 40; k = (k - 1) / 7 {
		s += part[(k-1)%7]
	}
	return string([]byte(s))
}

// wide spreads small numbers over the whole range and keeps some close
// together at its ends.
func wide(k uint) uint64 {
	switch k % 4 {
	case 0:
		return uint64(k) * 0x9e3779b97f4a7c15
	case 1:
		return 1<<63 - 2 + uint64(k/4%4)
	case 2:
		return ^uint64(0) - uint64(k/4%4)
	}
	x := uint64(k) * 0x9e3779b97f4a7c15
	return x ^ x>>29
}

func conv[T ordered](c *vk.C, s []int, name string, f func(int) T) {
	out := make([]T, len(s))
	for i, k := range s {
		out[i] = f(k)
	}
	orderedCase(c, out, name)
}
