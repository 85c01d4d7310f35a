// C06: the deque against an ideal double-ended sequence.
package c06

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"

	"verifharness/seq"
	"verifharness/vk"
)

const (
	pf = iota
	pb
	of
	ob
	drainF
	drainB
	gc
)

var names = []string{"PushFront", "PushBack", "PopFront", "PopBack", "DrainFront", "DrainBack", "GC"}

// exec runs a history (op, repeat count) with both peeks checked after every
// single call, and finally drains alternating ends.
func exec[T any](mk func(int) T, peek bool) func(h []vk.Step) error {
	same := seq.Same[T]()
	return func(h []vk.Step) error {
		d := dequex.New[T]()
		model := make([]T, 0, 256)
		var zero T
		n := 0
		check := func(op string, v T, ok bool, want T, wok bool) error {
			if ok != wok || !same(v, want) {
				return fmt.Errorf("%s returned (%v,%v), ideal sequence says (%v,%v), %d elements held", op, v, ok, want, wok, len(model))
			}
			return nil
		}
		peeks := func() error {
			vk.Op()
			v, ok := d.PeekFront()
			w, wok := zero, len(model) > 0
			if wok {
				w = model[0]
			}
			if err := check("PeekFront", v, ok, w, wok); err != nil {
				return err
			}
			v, ok = d.PeekBack()
			if wok {
				w = model[len(model)-1]
			}
			return check("PeekBack", v, ok, w, wok)
		}
		one := func(op int) error {
			vk.Op()
			switch op {
			case pf:
				n++
				d.PushFront(mk(n))
				model = append(model, zero)
				copy(model[1:], model)
				model[0] = mk(n)
			case pb:
				n++
				d.PushBack(mk(n))
				model = append(model, mk(n))
			case of:
				v, ok := d.PopFront()
				w, wok := zero, len(model) > 0
				if wok {
					w = model[0]
					model = model[1:]
				}
				if err := check("PopFront", v, ok, w, wok); err != nil {
					return err
				}
			case ob:
				v, ok := d.PopBack()
				w, wok := zero, len(model) > 0
				if wok {
					w = model[len(model)-1]
					model = model[:len(model)-1]
				}
				if err := check("PopBack", v, ok, w, wok); err != nil {
					return err
				}
			}
			if peek || len(model) < 3 {
				return peeks()
			}
			return nil
		}
		for _, s := range h {
			k, op := 1, 0
			for i, nm := range names {
				if nm == s.Op {
					op = i
				}
			}
			if len(s.A) > 0 {
				k = s.A[0]
			}
			if op == gc {
				runtime.GC()
				runtime.GC()
				continue
			}
			if op == drainF || op == drainB {
				k, op = len(model)+1, op-drainF+of
			}
			for ; k > 0; k-- {
				if err := one(op); err != nil {
					return err
				}
			}
		}
		if err := peeks(); err != nil {
			return err
		}
		for i := 0; len(model) > 0; i++ {
			if err := one(of + i&1); err != nil {
				return err
			}
		}
		return one(of)
	}
}

type rec struct {
	a, b int
	s    string
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of deque calls compared call by call with an ideal sequence; it is non-trivial when it pushes and pops.", func(c *vk.C) {
		vk.SetBound(5000000)
		run := exec(func(i int) int { return i }, true)
		// every history of short length from the empty deque
		for n := 1; n <= c.N(8, 10); n++ {
			vk.Words(4, n, func(w []int) {
				h := make([]vk.Step, n)
				for i, x := range w {
					h[i] = vk.S(names[x])
				}
				c.History("all short histories", h, run)
			})
		}
		c.Count("short_histories_length", c.N(8, 10))
		// two macro moves to every buffer boundary, then every short word
		bulk := exec(func(i int) int { return i }, false)
		ks := []int{1, 2, 63, 64, 65, 127, 128, 129}
		var macros []vk.Step
		for op := 0; op < 4; op++ {
			for _, k := range ks {
				macros = append(macros, vk.S(names[op], k))
			}
		}
		sl := c.N(3, 5)
		for _, a := range macros[:2*len(ks)] {
			for _, b := range macros {
				for _, d := range []int{-1, pf, pb, of, ob} {
					vk.Words(4, sl, func(w []int) {
						h := []vk.Step{a, b}
						if d >= 0 {
							h = append(h, vk.S(names[d], 64))
						}
						for _, x := range w {
							h = append(h, vk.S(names[x]))
						}
						c.Distinct(vk.HashS(vk.HistString(h)))
						c.History("boundary histories", h, bulk)
					})
				}
			}
		}
		// long random histories in phases that grow and shrink
		long := func(name string, run func([]vk.Step) error, rounds int, withGC bool) {
			r := c.Rand(name)
			for i := 0; i < rounds; i++ {
				h := phases(r, withGC)
				c.Distinct(vk.HashS(vk.HistString(h)))
				c.Count("long_histories", 1)
				if i == 0 {
					c.Sample(map[string]any{"workload": name, "history": vk.HistString(h[:min(30, len(h))])})
				}
				c.History(name, h, run)
			}
		}
		long("random int", run, c.N(1500, 40000), false)
		long("random string", exec(func(i int) string { return fmt.Sprint("s", i) }, true), c.N(300, 8000), false)
		long("random struct", exec(func(i int) rec { return rec{i, -i, "x"} }, true), c.N(300, 8000), false)
		long("elements of kind any", exec(seq.MkAny, true), c.N(80, 2000), false)
		long("elements of kind big array", exec(seq.MkBig, true), c.N(80, 2000), false)
		long("elements of kind huge array", exec(seq.MkHuge, true), c.N(20, 300), false)
		long("elements of kind wide array", exec(seq.MkWide, true), c.N(2, 30), false)
		long("elements of kind odd array", exec(seq.MkOdd, true), c.N(80, 2000), false)
		long("elements of kind mixed struct", exec(seq.MkMixed, true), c.N(80, 2000), false)
		long("elements of kind pointers and nils", exec(seq.MkPtr, true), c.N(80, 2000), false)
		long("elements of kind errors and nils", exec(seq.MkErr, true), c.N(80, 2000), false)
		long("elements of kind empty struct", exec(seq.MkUnit, true), c.N(80, 2000), false)
		long("elements of kind bytes", exec(seq.MkSmall, true), c.N(80, 2000), false)
		long("elements of kind equal strings", exec(seq.MkString, true), c.N(80, 2000), false)
		long("elements of kind slices", exec(seq.MkSlice, true), c.N(60, 1500), false)
		long("elements of kind maps", exec(seq.MkMap, true), c.N(60, 1500), false)
		long("elements of kind functions", exec(seq.MkFunc, true), c.N(60, 1500), false)
		long("elements of kind channels", exec(seq.MkChan, true), c.N(60, 1500), false)
		long("elements of kind floats", exec(seq.MkFloat, true), c.N(60, 1500), false)
		long("elements of kind complex numbers", exec(seq.MkComplex, true), c.N(60, 1500), false)
		long("elements of kind uncomparable struct", exec(seq.MkLoose, true), c.N(60, 1500), false)
		long("elements of kind uncomparable any", exec(seq.MkLooseAny, true), c.N(60, 1500), false)
		r := c.Rand("waves")
		for i := 0; i < c.N(60, 2000); i++ {
			var h []vk.Step
			for w := 2 + r.IntN(4); w > 0; w-- {
				k := 1 + r.IntN(1<<(3+r.IntN(10)))
				h = append(h, vk.S(names[pf+r.IntN(2)], k))
				if r.IntN(2) == 0 {
					h = append(h, vk.S(names[pf+r.IntN(2)], 1+r.IntN(k)))
				}
				for x := r.IntN(30); x > 0; x-- {
					h = append(h, vk.S(names[r.IntN(4)], 1+r.IntN(3)))
				}
				h = append(h, vk.S(names[of+r.IntN(2)], 1+r.IntN(k)), vk.S(names[of+r.IntN(2)], 1+r.IntN(k)))
			}
			c.Distinct(vk.HashS(vk.HistString(h)))
			c.Count("wave_histories", 1)
			c.History("waves", h, run)
		}
		ptrs := map[int]*int{}
		long("random pointer with GC", exec(func(i int) *int {
			if ptrs[i] == nil {
				p := i
				ptrs[i] = &p
			}
			return ptrs[i]
		}, true), c.N(100, 2000), true)
	})
}

func phases(r *rand.Rand, withGC bool) []vk.Step {
	var h []vk.Step
	for p := 2 + r.IntN(6); p > 0; p-- {
		w := [4]int{r.IntN(5), r.IntN(5), r.IntN(5), r.IntN(5)}
		if r.IntN(4) == 0 { // one end feeds, the other drains
			a := r.IntN(2)
			w = [4]int{}
			w[a], w[of+1-a] = 4, 3+r.IntN(2)
		}
		tot := w[0] + w[1] + w[2] + w[3]
		if tot == 0 {
			continue
		}
		for i := 1 + r.IntN(60); i > 0; i-- {
			x := r.IntN(tot)
			op := 0
			for x >= w[op] {
				x -= w[op]
				op++
			}
			k := 1
			switch r.IntN(12) {
			case 0:
				k = 60 + r.IntN(10)
			case 1:
				k = r.IntN(20)
			}
			h = append(h, vk.S(names[op], k))
		}
		switch r.IntN(4) {
		case 0:
			h = append(h, vk.S(names[drainF]))
		case 1:
			h = append(h, vk.S(names[drainB]))
		}
		if withGC && r.IntN(2) == 0 {
			h = append(h, vk.S(names[gc]))
		}
	}
	return h
}
