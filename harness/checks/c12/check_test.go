// C12: extended-slice operations against the ideal sequence.
package c12

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"

	"verifharness/seq"
	"verifharness/vk"
)

func clamp(i, n int) int { return max(0, min(i, n)) }

func span(i, j, n int) (int, int) {
	i, j = clamp(i, n), clamp(j, n)
	if i > j {
		i, j = j, i
	}
	return i, j
}

// apply runs one step on the ideal sequence; vals are the inserted values.
func apply[T any](m []T, s vk.Step, vals []T, pred func(T) bool) []T {
	n := len(m)
	a := func(i int) int {
		if i < len(s.A) {
			return s.A[i]
		}
		return 0
	}
	splice := func(i, j int, v []T) []T {
		out := append([]T{}, m[:i]...)
		out = append(out, v...)
		return append(out, m[j:]...)
	}
	switch s.Op {
	case "Set":
		if n > 0 {
			m = append([]T{}, m...)
			m[clamp(a(0), n-1)] = vals[0]
		}
	case "Slice":
		j := a(1)
		if j < 0 {
			j += n // never overflows: n >= 0
		}
		i, j := span(a(0), j, n)
		return append([]T{}, m[i:j]...)
	case "Splice":
		i, j := span(a(0), a(1), n)
		return splice(i, j, vals)
	case "Expand", "Insert":
		i := clamp(a(0), n)
		return splice(i, i, vals)
	case "Cut":
		i, j := span(a(0), a(1), n)
		return splice(i, j, nil)
	case "Delete":
		if i := a(0); i >= 0 && i < n {
			return splice(i, i+1, nil)
		}
	case "DeleteReplace":
		if n > 0 {
			m = append([]T{}, m...)
			m[clamp(a(0), n-1)] = m[n-1]
			return m[:n-1]
		}
	case "Push":
		return splice(n, n, vals)
	case "UnShift":
		return splice(0, 0, vals)
	case "Pop":
		if n > 0 {
			return splice(n-1, n, nil)
		}
	case "Shift":
		if n > 0 {
			return splice(0, 1, nil)
		}
	case "Reverse":
		out := make([]T, n)
		for i, v := range m {
			out[n-1-i] = v
		}
		return out
	case "Rotate":
		if n > 0 {
			k := a(0) % n
			if k < 0 {
				k += n
			}
			return append(append([]T{}, m[k:]...), m[:k]...)
		}
	case "Filter":
		out := []T{}
		for _, v := range m {
			if pred(v) {
				out = append(out, v)
			}
		}
		return out
	case "Repeat":
		out := []T{}
		for k := a(0); k > 0; k-- {
			out = append(out, m...)
		}
		return out
	case "Extend":
		return append(append([]T{}, m...), make([]T, max(0, a(0)))...)
	case "Clear":
		return nil
	}
	return m
}

func perm[T any](a, b []T) bool {
	if x, ok := any(a).([]int); ok {
		x, y := slices.Clone(x), slices.Clone(any(b).([]int))
		slices.Sort(x)
		slices.Sort(y)
		return slices.Equal(x, y)
	}
	same := seq.Same[T]()
	rest := append([]T{}, b...)
	for _, v := range a {
		j := slices.IndexFunc(rest, func(w T) bool { return same(v, w) })
		if j < 0 {
			return false
		}
		rest = append(rest[:j], rest[j+1:]...)
	}
	return len(rest) == 0
}

func exec[T any](mk func(int) T, spare int) func(h []vk.Step) error {
	eq := seq.Same[T]()
	return func(h []vk.Step) error {
		buf := make([]T, spare)
		for i := range buf {
			buf[i] = mk(1000 + i)
		}
		s := slicex.New(buf[:0:spare]...)
		var m []T
		id := 0
		var zero T
		for _, st := range h {
			vk.Op()
			a := func(i int) int {
				if i < len(st.A) {
					return st.A[i]
				}
				return 0
			}
			k := 1
			switch st.Op {
			case "Splice":
				k = max(0, a(2))
			case "Expand":
				k = max(0, a(1))
			}
			vals := make([]T, k)
			for i := range vals {
				id++
				vals[i] = mk(id)
			}
			var seen []T
			pred := func(v T) bool { seen = append(seen, v); return vk.Hash(v)>>3&1 == uint64(a(0)&1) }
			ret := s
			var err error
			pure := func(v T) bool { return vk.Hash(v)>>3&1 == uint64(a(0)&1) }
			want := apply(m, st, vals, pure)
			switch st.Op {
			case "Set":
				s.Set(a(0), vals[0])
			case "Get":
				v, w := s.Get(a(0)), zero
				if len(m) > 0 {
					w = m[clamp(a(0), len(m)-1)]
				}
				if !eq(v, w) {
					err = fmt.Errorf("Get(%d) is %v, ideal %v", a(0), v, w)
				}
			case "Slice":
				ret = s.Slice(a(0), a(1))
			case "Splice":
				ret = s.Splice(a(0), a(1), vals...)
			case "Expand":
				ret = s.Expand(a(0), vals...)
			case "Insert":
				ret = s.Insert(a(0), vals[0])
			case "Cut":
				ret = s.Cut(a(0), a(1))
			case "Delete":
				ret = s.Delete(a(0))
			case "DeleteReplace":
				ret = s.DeleteReplace(a(0))
			case "Push":
				ret = s.Push(vals[0])
			case "UnShift":
				ret = s.UnShift(vals[0])
			case "Pop", "Shift":
				w := zero
				if len(m) > 0 {
					w = m[0]
					if st.Op == "Pop" {
						w = m[len(m)-1]
					}
				}
				var v T
				if st.Op == "Pop" {
					v = s.Pop()
				} else {
					v = s.Shift()
				}
				if !eq(v, w) {
					err = fmt.Errorf("%s is %v, ideal %v", st.Op, v, w)
				}
			case "Reverse":
				ret = s.Reverse()
			case "Rotate":
				ret = s.Rotate(a(0))
			case "Filter":
				ret = s.Filter(pred)
				if fmt.Sprint(seen) != fmt.Sprint(m) {
					err = fmt.Errorf("Filter consulted %v, elements are %v", seen, m)
				}
			case "Repeat":
				ret = s.Repeat(a(0))
			case "Extend":
				ret = s.Extend(a(0))
			case "Clear":
				ret = s.Clear()
			case "Shuffle":
				ret = s.Shuffle()
				got := append([]T{}, s.Finalize()...)
				if !perm(got, m) {
					err = fmt.Errorf("Shuffle turned %v into %v", m, got)
				}
				want = got
			case "Copy":
				cp := s.Copy()
				if cp == s || fmt.Sprint(*cp) != fmt.Sprint(*s) {
					err = fmt.Errorf("Copy is %v of %v", *cp, *s)
				}
				s, ret = cp, cp
			}
			if err != nil {
				return fmt.Errorf("on %v: %w", m, err)
			}
			if ret != s {
				return fmt.Errorf("%s does not return its receiver", st.Op)
			}
			got := s.Finalize()
			same := len(got) == len(want) && s.Len() == len(want)
			for i := 0; same && i < len(want); i++ {
				same = eq(got[i], want[i])
			}
			if !same {
				return fmt.Errorf("%s%v on %v gives %v, ideal %v", st.Op, st.A, m, got, want)
			}
			m = append([]T{}, want...)
			if err := reads(s, m); err != nil {
				return err
			}
		}
		return nil
	}
}

// reads checks the operations that only look at the slice.
func reads[T any](s *slicex.Slice[T], m []T) error {
	same := seq.Same[T]()
	n := len(m)
	probe := []int{-1, 0, n / 2, n - 1, n, n + 1}
	for _, i := range probe {
		var target T
		has := i >= 0 && i < n
		first := -1
		if has {
			target = m[i]
			for k, v := range m {
				if same(v, target) {
					first = k
					break
				}
			}
		}
		calls := 0
		f := func(v T) bool { calls++; return has && same(v, target) }
		if got := s.IndexOf(f); got != first {
			return fmt.Errorf("IndexOf is %d, ideal %d in %v", got, first, m)
		}
		if got := s.Contains(f); got != has {
			return fmt.Errorf("Contains is %v, ideal %v in %v", got, has, m)
		}
	}
	k := 0
	var bad error
	s.Each(func(v T) {
		if k >= n || !same(m[k], v) {
			bad = fmt.Errorf("Each visits %v as element %d of %v", v, k, m)
		}
		k++
	})
	if bad == nil && k != n {
		bad = fmt.Errorf("Each visits %d of %d elements", k, n)
	}
	k = 0
	s.ForEach(func(i int, v T) {
		if bad == nil && (i != k || k >= n || !same(m[k], v)) {
			bad = fmt.Errorf("ForEach visits (%d,%v) as element %d of %v", i, v, k, m)
		}
		k++
	})
	if bad == nil && k != n {
		bad = fmt.Errorf("ForEach visits %d of %d elements", k, n)
	}
	return bad
}

var binary = []string{"Slice", "Splice", "Cut"}
var unary = []string{"Set", "Get", "Insert", "Delete", "DeleteReplace", "Rotate", "Expand", "Filter"}
var nullary = []string{"Push", "UnShift", "Pop", "Shift", "Reverse", "Clear", "Copy", "Shuffle"}

func random(r *rand.Rand, n int) []vk.Step {
	var h []vk.Step
	ix := func() int {
		switch r.IntN(12) {
		case 0:
			return math.MinInt + r.IntN(3)
		case 1:
			return math.MaxInt - r.IntN(3)
		case 2:
			return -1 - r.IntN(12)
		}
		return r.IntN(14)
	}
	small := func() int { return r.IntN(4) }
	for len(h) < n {
		switch r.IntN(5) {
		case 0:
			h = append(h, vk.S(nullary[r.IntN(len(nullary))]))
		case 1, 2:
			switch op := unary[r.IntN(len(unary))]; op {
			case "Expand":
				h = append(h, vk.S(op, ix(), small()))
			default:
				h = append(h, vk.S(op, ix()))
			}
		case 3:
			op := binary[r.IntN(len(binary))]
			if op == "Splice" {
				h = append(h, vk.S(op, ix(), ix(), small()))
			} else if r.IntN(3) == 0 {
				h = append(h, vk.S(op, ix(), ix()))
			}
		case 4:
			switch r.IntN(6) {
			case 0:
				h = append(h, vk.S("Repeat", r.IntN(3)))
			case 1:
				h = append(h, vk.S("Extend", r.IntN(5)))
			case 2:
				h = append(h, vk.S("Extend", -1-r.IntN(3)))
			case 3:
				h = append(h, vk.S("Slice", 0, 20))
			default:
				h = append(h, vk.S("Expand", ix(), 1+small()))
			}
		}
	}
	return h
}

// longer is a history of k calls on a slice of about n elements.
func longer(r *rand.Rand, n, k int) []vk.Step {
	h := []vk.Step{vk.S("Expand", 0, n)}
	ix := func() int {
		switch r.IntN(8) {
		case 0:
			return n - 2 + r.IntN(5)
		case 1:
			return r.IntN(4)
		case 2:
			return r.IntN(3*n) - n
		}
		return r.IntN(n)
	}
	cnt := func() int { return []int{0, 1, 3, r.IntN(n/2 + 1), n}[r.IntN(5)] }
	for len(h) < k {
		switch x := r.IntN(20); {
		case x < 5:
			h = append(h, vk.S("Splice", ix(), ix(), cnt()))
		case x < 7:
			h = append(h, vk.S("Expand", ix(), cnt()))
		case x < 10:
			h = append(h, vk.S("Cut", ix(), ix()))
		case x < 16:
			h = append(h, vk.S([]string{"Set", "Get", "Insert", "Delete", "DeleteReplace", "Rotate"}[r.IntN(6)], ix()))
		case x < 18:
			h = append(h, vk.S([]string{"Push", "UnShift", "Pop", "Shift", "Reverse", "Copy", "Shuffle"}[r.IntN(7)]))
		case x == 18:
			h = append(h, vk.S("Filter", r.IntN(2)))
		default:
			h = append(h, vk.S("Slice", r.IntN(n/3), -1-r.IntN(n/3)))
		}
		if r.IntN(4) == 0 { // never run dry
			h = append(h, vk.S("Expand", ix(), n/2))
		}
	}
	return h
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one sequence of slice operations with in-range, out-of-range and extreme integer arguments, compared with the ideal sequence after every call.", func(c *vk.C) {
		vk.SetBound(20000000)
		id := func(i int) int { return i }
		ext := []int{math.MinInt, math.MinInt + 1, -int(int64(1) << 32 & math.MaxInt), -7, -6, -5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, int(int64(1) << 32 & math.MaxInt), math.MaxInt - 1, math.MaxInt}
		// every single operation on every length 0..6, all arguments, several spare capacities
		for _, spare := range []int{0, 3, 8, 40} {
			run := exec(id, spare)
			for n := 0; n <= 6; n++ {
				pre := make([]vk.Step, 0, 8)
				if n > 0 {
					pre = append(pre, vk.S("Expand", 0, n))
				}
				do := func(st ...vk.Step) {
					h := append(append([]vk.Step{}, pre...), st...)
					c.Distinct(vk.HashS(fmt.Sprint(spare) + vk.HistString(h)))
					c.History(fmt.Sprintf("single operations, %d elements, spare capacity %d", n, spare), h, run)
				}
				tail := []vk.Step{vk.S("Push"), vk.S("Shift")}
				with := func(s vk.Step) { do(append([]vk.Step{s}, tail...)...) }
				for _, op := range nullary {
					with(vk.S(op))
				}
				for _, i := range ext {
					for _, op := range unary {
						if op == "Expand" {
							for k := 0; k < 4; k++ {
								with(vk.S(op, i, k))
							}
							continue
						}
						with(vk.S(op, i))
					}
					for _, j := range ext {
						with(vk.S("Slice", i, j))
						with(vk.S("Cut", i, j))
						for k := 0; k < 4; k++ {
							with(vk.S("Splice", i, j, k))
						}
					}
				}
				for _, k := range []int{0, 1, 2, 3, 7} {
					with(vk.S("Repeat", k))
					with(vk.S("Extend", k))
				}
				for _, k := range []int{-1, -5, math.MinInt} {
					with(vk.S("Extend", k))
				}
			}
		}
		r := c.Rand("random")
		for i := 0; i < c.N(8000, 300000); i++ {
			h := random(r, 8+r.IntN(30))
			spare := []int{0, 1, 5, 64}[i%4]
			c.Distinct(vk.HashS(vk.HistString(h)))
			if i < 2 {
				c.Sample(map[string]any{"workload": "random", "history": vk.HistString(h)})
			}
			if i%3 == 0 {
				c.History("random, strings", h, exec(func(i int) string { return fmt.Sprint("v", i) }, spare))
			} else {
				c.History("random", h, exec(id, spare))
			}
		}
		kind := func(name string, run func([]vk.Step) error) {
			for i := 0; i < c.N(200, 5000); i++ {
				h := random(r, 8+r.IntN(30))
				c.Distinct(vk.HashS(name + vk.HistString(h)))
				c.Count("histories_of_other_kinds_of_element", 1)
				c.History("elements of kind "+name, h, run)
			}
		}
		kind("any", exec(seq.MkAny, 3))
		kind("big array", exec(seq.MkBig, 3))
		kind("huge array", exec(seq.MkHuge, 3))
		kind("odd array", exec(seq.MkOdd, 3))
		kind("mixed struct", exec(seq.MkMixed, 3))
		kind("pointers and nils", exec(seq.MkPtr, 3))
		kind("errors and nils", exec(seq.MkErr, 3))
		kind("empty struct", exec(seq.MkUnit, 3))
		kind("bytes", exec(seq.MkSmall, 3))
		kind("equal strings", exec(seq.MkString, 3))
		kind("slices", exec(seq.MkSlice, 3))
		kind("maps", exec(seq.MkMap, 3))
		kind("functions", exec(seq.MkFunc, 3))
		kind("channels", exec(seq.MkChan, 3))
		kind("floats", exec(seq.MkFloat, 3))
		kind("complex numbers", exec(seq.MkComplex, 3))
		kind("uncomparable struct", exec(seq.MkLoose, 3))
		kind("uncomparable any", exec(seq.MkLooseAny, 3))
		// Positions and counts of every size on slices of hundreds to more than 2^17 elements.
		for i := 0; i < c.N(150, 3000); i++ {
			n := []int{60, 130, 257, 500, 1030, 5000}[i%6]
			k := 12
			if i%25 == 7 {
				n, k = []int{33000, 66000, 140000}[i/25%3]+r.IntN(100), 6
			}
			h := longer(r, n, k)
			c.Distinct(vk.HashS(vk.HistString(h)))
			c.Max("longest_slice", n)
			c.Count("histories_of_long_slices", 1)
			c.History("positions on long slices", h, exec(id, []int{0, 3, n / 2, 3 * n}[r.IntN(4)]))
		}
		// One operation on a very long slice, at every kind of position and span.
		for i := 0; i < c.N(400, 4000); i++ {
			n := []int{33000, 66000, 140000}[i%3] + r.IntN(100)
			at := []int{0, 1, r.IntN(n / 3), n / 2, n - n/3 + r.IntN(n/3), n - 2, n - 1, n}[r.IntN(8)]
			span := []int{0, 1, 2, 3, r.IntN(100), r.IntN(n)}[r.IntN(6)]
			h := []vk.Step{vk.S("Expand", 0, n)}
			switch i % 10 {
			case 0, 1, 2:
				h = append(h, vk.S("Cut", at, at+span))
			case 3, 4:
				h = append(h, vk.S("Splice", at, at+span, []int{1, 2, r.IntN(100), span, r.IntN(n)}[r.IntN(5)]))
			case 5:
				h = append(h, vk.S("Expand", at, span))
			case 6:
				h = append(h, vk.S("Rotate", []int{at, -at, span, n + at}[r.IntN(4)]))
			case 7:
				h = append(h, vk.S("Slice", at, at+span))
			case 8:
				h = append(h, vk.S([]string{"Insert", "Delete", "DeleteReplace", "Set", "Get"}[r.IntN(5)], at))
			case 9:
				h = append(h, vk.S([]string{"Push", "UnShift", "Pop", "Shift", "Reverse", "Copy"}[r.IntN(6)]))
			}
			c.Distinct(vk.HashS(vk.HistString(h)))
			c.Count("operations_on_very_long_slices", 1)
			c.History("operation on a very long slice", h, exec(id, []int{0, 3, n}[r.IntN(3)]))
		}
		// Shuffle is a permutation for longer slices too.
		for i := 0; i < c.N(300, 5000); i++ {
			n := r.IntN(200)
			h := []vk.Step{vk.S("Expand", 0, n), vk.S("Shuffle"), vk.S("Rotate", r.IntN(400)-200), vk.S("Reverse"), vk.S("Filter", i), vk.S("Shuffle"), vk.S("Repeat", 2)}
			c.Distinct(vk.HashS(vk.HistString(h)))
			c.History("long slices", h, exec(id, 0))
		}
	})
}
