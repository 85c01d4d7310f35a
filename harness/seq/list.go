// Package seq holds the ideal sequences the container checks compare with.
package seq

import (
	"fmt"
	"math"
	"math/rand/v2"

	"verifharness/vk"
)

// List is what both list implementations offer.
type List[T any] interface {
	Append(T)
	Insert(int, T)
	Remove(int) (T, bool)
	At(int) (T, bool)
	Iterate(func(T) bool)
	Len() int
}

// ExecList compares a list with an ideal sequence after every call.
// insertOOR says whether an out-of-range Insert may panic.
func ExecList[T any](mk func(int) T, fresh func() List[T], mayPanic bool, every int) func([]vk.Step) error {
	same := Same[T]()
	return func(h []vk.Step) error {
		l := fresh()
		var model []T
		var zero T
		n := 0
		full := func() error {
			vk.Op()
			if l.Len() != len(model) {
				return fmt.Errorf("Len is %d, ideal %d", l.Len(), len(model))
			}
			k := 0
			var bad error
			l.Iterate(func(v T) bool {
				if k >= len(model) {
					bad = fmt.Errorf("Iterate yields more than the %d elements held: %v", len(model), v)
					return false
				}
				if !same(model[k], v) {
					bad = fmt.Errorf("Iterate element %d is %v, ideal %v", k, v, model[k])
					return false
				}
				k++
				return true
			})
			if bad != nil {
				return bad
			}
			if k != len(model) {
				return fmt.Errorf("Iterate yields %d of %d elements", k, len(model))
			}
			stop := (n*7 + len(h)) % (len(model) + 1)
			calls := 0
			l.Iterate(func(v T) bool { calls++; return calls <= stop })
			if want := min(stop+1, len(model)); calls != want {
				return fmt.Errorf("Iterate called its callback %d times although call %d returned false", calls, stop+1)
			}
			for i := -2; i <= len(model)+1; i++ {
				if len(model) > 40 && i > 3 && i < len(model)-3 && i%17 != n%17 {
					continue
				}
				vk.Op()
				v, ok := l.At(i)
				w, wok := zero, i >= 0 && i < len(model)
				if wok {
					w = model[i]
				}
				if ok != wok || !same(v, w) {
					return fmt.Errorf("At(%d) is (%v,%v), ideal (%v,%v)", i, v, ok, w, wok)
				}
			}
			for _, i := range []int{math.MinInt, math.MaxInt} {
				if v, ok := l.At(i); ok || !same(v, zero) {
					return fmt.Errorf("At(%d) is (%v,%v)", i, v, ok)
				}
			}
			return nil
		}
		for si, s := range h {
			vk.Op()
			switch s.Op {
			case "Append":
				n++
				l.Append(mk(n))
				model = append(model, mk(n))
			case "Insert":
				n++
				i := s.A[0]
				if i < 0 || i > len(model) {
					e := vk.TryFast(func() { l.Insert(i, mk(n)) })
					if _, isPanic := e.(*vk.Panic); e != nil && !(isPanic && mayPanic) {
						return e
					}
					if err := full(); err != nil {
						return fmt.Errorf("after Insert(%d) out of range on %d elements: %w", i, len(model), err)
					}
				} else {
					l.Insert(i, mk(n))
					model = append(model, zero)
					copy(model[i+1:], model[i:])
					model[i] = mk(n)
				}
			case "Remove":
				i := s.A[0]
				v, ok := l.Remove(i)
				w, wok := zero, i >= 0 && i < len(model)
				if wok {
					w = model[i]
					model = append(model[:i:i], model[i+1:]...)
				}
				if ok != wok || !same(v, w) {
					return fmt.Errorf("Remove(%d) is (%v,%v), ideal (%v,%v)", i, v, ok, w, wok)
				}
			}
			if every <= 1 || si%every == 0 {
				if err := full(); err != nil {
					return err
				}
			}
		}
		return full()
	}
}

// ListCheck runs the list workloads.
func ListCheck(c *vk.C, intList func() List[int], strList func() List[string], ptrList func() List[*int], mayPanic bool) {
	vk.SetBound(20000000)
	listScale(c, intList)
	letters := []vk.Step{vk.S("Append")}
	for i := 0; i <= 3; i++ {
		letters = append(letters, vk.S("Insert", i), vk.S("Remove", i))
	}
	letters = append(letters, vk.S("Insert", -1), vk.S("Remove", -1))
	run := ExecList(func(i int) int { return i }, intList, mayPanic, 1)
	for n := 1; n <= c.N(5, 6); n++ {
		vk.Words(len(letters), n, func(w []int) {
			h := make([]vk.Step, n)
			for i, x := range w {
				h[i] = letters[x]
			}
			if n <= 5 {
				c.Distinct(vk.HashS(vk.HistString(h)))
			}
			c.History("all short histories", h, run)
		})
	}
	long := func(name string, rounds, size int, run func([]vk.Step) error) {
		r := c.Rand(name)
		for i := 0; i < rounds; i++ {
			h := ListHistory(r, size)
			c.Distinct(vk.HashS(vk.HistString(h)))
			if i == 0 {
				c.Sample(map[string]any{"workload": name, "history": vk.HistString(h[:min(40, len(h))])})
			}
			c.Count("long_histories", 1)
			c.History(name, h, run)
		}
	}
	long("random int", c.N(2000, 40000), 40, run)
	long("random int large", c.N(60, 1500), 600, ExecList(func(i int) int { return i }, intList, mayPanic, 29))
	long("random string", c.N(500, 10000), 60, ExecList(func(i int) string { return fmt.Sprint("v", i) }, strList, mayPanic, 3))
	ptrs := make([]*int, 5000)
	for i := range ptrs {
		ptrs[i] = new(int)
	}
	long("random pointer", c.N(300, 5000), 60, ExecList(func(i int) *int { return ptrs[i] }, ptrList, mayPanic, 3))
	r := c.Rand("waves")
	for i := 0; i < c.N(40, 1000); i++ {
		h := ListWaves(r, 64<<r.IntN(6))
		c.Distinct(vk.HashS(vk.HistString(h)))
		c.Count("wave_histories", 1)
		c.History("waves", h, ExecList(func(i int) int { return i }, intList, mayPanic, len(h)/9+1))
	}
	long("random equal values", c.N(500, 5000), 40, ExecList(func(i int) int { return i % 3 }, intList, mayPanic, 1))
}

// listScale visits sizes beyond every small counter (8, 15, 16, 17 bits).
func listScale(c *vk.C, fresh func() List[int]) {
	for _, n := range []int{200, 300, 33000, 66000, c.N(132000, 300000)} {
		l := fresh()
		var model []int
		verify := func(when string) {
			vk.Op()
			if l.Len() != len(model) {
				c.Violate("a large list: Len", map[string]any{"elements": len(model), "len": l.Len(), "when": when})
			}
			k, bad := 0, -1
			vk.Op()
			l.Iterate(func(v int) bool {
				if k >= len(model) || model[k] != v {
					bad = k
					return false
				}
				k++
				return true
			})
			if bad >= 0 || k != len(model) {
				c.Violate("a large list: Iterate", map[string]any{"elements": len(model), "reached": k, "differs_at": bad, "when": when})
			}
			for _, stop := range []int{0, 1, 2, 63, 64, 255, 256, 1000, 4095, 4096, 9999, 32767, 65535, len(model) / 3, len(model) - 2, len(model) - 1} {
				if stop < 0 || stop >= len(model) {
					continue
				}
				k, bad := 0, -1
				vk.Op()
				l.Iterate(func(v int) bool {
					if k > stop || model[k] != v {
						bad = k
					}
					k++
					return k <= stop
				})
				if bad >= 0 || k != stop+1 {
					c.Violate("a large list: Iterate that is stopped", map[string]any{"elements": len(model), "stopped_at": stop, "calls": k, "differs_at": bad, "when": when})
				}
				c.Count("stopped_iterations", 1)
			}
			for _, i := range []int{-1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, len(model) / 2, len(model) - 1, len(model), len(model) + 1} {
				vk.Op()
				v, ok := l.At(i)
				if want := i >= 0 && i < len(model); ok != want || want && v != model[i] {
					c.Violate("a large list: At", map[string]any{"elements": len(model), "index": i, "got": fmt.Sprint(v, ok), "when": when})
				}
			}
			c.Eval(1)
		}
		for i := 0; i < n; i++ {
			vk.Op()
			l.Append(i)
			model = append(model, i)
		}
		verify("appended")
		next := n
		for _, i := range []int{n, n - 1, n / 2, 65536, 65535, 32768, 32767, 256, 255, 1, 0} {
			if i > len(model) {
				continue
			}
			vk.Op()
			l.Insert(i, next)
			model = append(model, 0)
			copy(model[i+1:], model[i:])
			model[i] = next
			next++
			if n < 1000 {
				verify(fmt.Sprint("Insert ", i))
			}
		}
		verify("inserted")
		for _, i := range []int{len(model) - 1, n / 2, 65536, 65535, 32768, 32767, 256, 255, 1, 0} {
			if i >= len(model) {
				continue
			}
			vk.Op()
			v, ok := l.Remove(i)
			if !ok || v != model[i] {
				c.Violate("a large list: Remove", map[string]any{"elements": len(model), "index": i, "got": fmt.Sprint(v, ok), "want": model[i]})
			}
			model = append(model[:i], model[i+1:]...)
			if n < 1000 {
				verify(fmt.Sprint("Remove ", i))
			}
		}
		verify("removed")
		if n < 70000 {
			for k := 0; len(model) > 0; k++ { // from the front, a slice moves everything
				i := 0
				if k%2 == 1 && n < 1000 || len(model) > 1 && k < 20 {
					i = len(model) - 1
				}
				vk.Op()
				v, ok := l.Remove(i)
				if !ok || v != model[i] {
					c.Violate("a large list: Remove", map[string]any{"elements": len(model), "index": i, "got": fmt.Sprint(v, ok), "want": model[i]})
				}
				model = append(model[:i:i], model[i+1:]...)
				if n > 1000 && k == 60 {
					break
				}
			}
			verify("taken")
		}
		c.Max("largest_list", n)
	}
}

// ListHistory is a random history.
func ListHistory(r *rand.Rand, size int) []vk.Step {
	var h []vk.Step
	n := 0
	grow := r.IntN(3) + 1
	idx := func(n int) int {
		switch r.IntN(8) {
		case 0:
			return 0
		case 1:
			return max(n-1, 0)
		case 2:
			return n
		case 3:
			return []int{-1, n + 1, n + 5, math.MinInt, math.MaxInt}[r.IntN(5)]
		}
		return r.IntN(n + 1)
	}
	for i := 0; i < size*3; i++ {
		if r.IntN(40) == 0 {
			grow = r.IntN(4)
		}
		switch x := r.IntN(5); {
		case x < grow && r.IntN(2) == 0:
			h = append(h, vk.S("Append"))
			n++
		case x < grow:
			i := idx(n)
			h = append(h, vk.S("Insert", i))
			if i >= 0 && i <= n {
				n++
			}
		default:
			i := idx(n)
			h = append(h, vk.S("Remove", i))
			if i >= 0 && i < n {
				n--
			}
		}
	}
	return h
}

// ListWaves grows and shrinks a list by large amounts at one place.
func ListWaves(r *rand.Rand, size int) []vk.Step {
	var h []vk.Step
	n := 0
	place := func(style, n int) int {
		switch style {
		case 0:
			return 0
		case 1:
			return n
		case 2:
			return n / 2
		}
		return r.IntN(n + 1)
	}
	for w := 2 + r.IntN(3); w > 0; w-- {
		style := r.IntN(5)
		for up := n + 1 + r.IntN(size); n < up; n++ {
			if style == 4 || style == 1 && r.IntN(2) == 0 {
				h = append(h, vk.S("Append"))
			} else {
				h = append(h, vk.S("Insert", place(style, n)))
			}
		}
		style = r.IntN(4)
		for down := r.IntN(n/4 + 1); n > down; n-- {
			h = append(h, vk.S("Remove", min(place(style, n), n-1)))
		}
	}
	return h
}
