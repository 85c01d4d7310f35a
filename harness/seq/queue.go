package seq

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"unsafe"

	"verifharness/vk"
)

// Ops is a container with one way in and one way out.
type Ops[T any] struct {
	In    func(T) bool
	Out   func() (T, bool)
	Peek  func() (T, bool)
	Empty func() bool // optional
	Len   func() int  // optional
	Extra func(model []T) error
}

// ExecQueue compares a queue (lifo false) or stack (lifo true) of the given
// capacity (0: unbounded) with the ideal one after every call.
func ExecQueue[T any](mk func(int) T, fresh func() Ops[T], lifo bool, capacity int) func([]vk.Step) error {
	same := Same[T]()
	return func(h []vk.Step) error {
		q := fresh()
		var model []T
		var zero T
		n := 0
		next := func() (T, bool) {
			if len(model) == 0 {
				return zero, false
			}
			if lifo {
				return model[len(model)-1], true
			}
			return model[0], true
		}
		state := func() error {
			vk.Op()
			w, wok := next()
			if v, ok := q.Peek(); ok != wok || !same(v, w) {
				return fmt.Errorf("Peek is (%v,%v), ideal (%v,%v)", v, ok, w, wok)
			}
			if q.Empty != nil && q.Empty() != (len(model) == 0) {
				return fmt.Errorf("IsEmpty is %v with %d elements held", q.Empty(), len(model))
			}
			if q.Len != nil && q.Len() != len(model) {
				return fmt.Errorf("Len is %d with %d elements held", q.Len(), len(model))
			}
			if q.Extra != nil {
				return q.Extra(model)
			}
			return nil
		}
		out := func() error {
			vk.Op()
			w, wok := next()
			if wok {
				if lifo {
					model = model[:len(model)-1]
				} else {
					model = model[1:]
				}
			}
			if v, ok := q.Out(); ok != wok || !same(v, w) {
				return fmt.Errorf("take returned (%v,%v), ideal (%v,%v)", v, ok, w, wok)
			}
			return state()
		}
		in := func() error {
			vk.Op()
			n++
			want := capacity == 0 || len(model) < capacity
			ok := q.In(mk(n))
			if ok != want {
				return fmt.Errorf("put returned %v with %d elements held", ok, len(model))
			}
			if ok {
				model = append(model, mk(n))
			}
			return state()
		}
		if err := state(); err != nil {
			return err
		}
		for _, s := range h {
			k := 1
			if len(s.A) > 0 {
				k = s.A[0]
			}
			for ; k > 0; k-- {
				var err error
				switch s.Op {
				case "put":
					err = in()
				case "take":
					err = out()
				case "cycle":
					if err = in(); err == nil {
						err = out()
					}
				case "drain":
					for len(model) > 0 && err == nil {
						err = out()
					}
					if err == nil {
						err = out()
					}
				case "gc":
					runtime.GC()
					runtime.GC()
				}
				if err != nil {
					return err
				}
			}
		}
		for len(model) > 0 {
			if err := out(); err != nil {
				return err
			}
		}
		return out()
	}
}

// QueueHistory is a random history in growing and shrinking phases.
func QueueHistory(r *rand.Rand, max int, gc bool) []vk.Step {
	var h []vk.Step
	for p := 1 + r.IntN(5); p > 0; p-- {
		bias := 1 + r.IntN(9)
		for i := 1 + r.IntN(40); i > 0; i-- {
			k := 1
			if r.IntN(6) == 0 {
				k = 1 + r.IntN(max)
			}
			if r.IntN(10) < bias {
				h = append(h, vk.S("put", k))
			} else {
				h = append(h, vk.S("take", k))
			}
		}
		if r.IntN(3) == 0 {
			h = append(h, vk.S("drain"))
		}
		if gc {
			h = append(h, vk.S("gc"))
		}
	}
	return h
}

// QueueScale holds many elements, then few during very many calls.
func QueueScale(c *vk.C, name string, fresh func() Ops[int], lifo bool, capacity int) {
	run := ExecQueue(func(i int) int { return i }, fresh, lifo, capacity)
	r := c.Rand(name)
	for _, h := range [][]vk.Step{
		{vk.S("put", 140000+r.IntN(1000)), vk.S("take", 5+r.IntN(100)), vk.S("cycle", 140000), vk.S("put", 300), vk.S("take", 139000), vk.S("cycle", 1000), vk.S("drain"), vk.S("put", 3)},
		{vk.S("put", 1+r.IntN(3)), vk.S("cycle", c.N(2300000, 20000000)+r.IntN(1000)), vk.S("take", 4), vk.S("put", 3)},
	} {
		c.Distinct(vk.HashS(name + vk.HistString(h)))
		c.Count("histories_of_more_than_2^17_elements_or_calls", 1)
		c.History(name+": scale", h, run)
	}
}

// QueueCheck runs the workloads of one implementation with one element type.
func QueueCheck[T any](c *vk.C, name string, mk func(int) T, fresh func() Ops[T], lifo bool, capacity, short, rounds, max int, gc bool) {
	run := ExecQueue(mk, fresh, lifo, capacity)
	for n := 1; n <= short; n++ {
		vk.Words(2, n, func(w []int) {
			h := make([]vk.Step, n)
			for i, x := range w {
				h[i] = vk.S([]string{"put", "take"}[x])
			}
			c.Distinct(vk.HashS(name + vk.HistString(h)))
			c.History(name+": all short histories", h, run)
		})
	}
	r := c.Rand(name)
	for i := 0; i < rounds; i++ {
		h := QueueHistory(r, max, gc)
		c.Distinct(vk.HashS(name + vk.HistString(h)))
		if i == 0 {
			c.Sample(map[string]any{"workload": name, "history": vk.HistString(h[:min(40, len(h))])})
		}
		c.Count("long_histories", 1)
		c.History(name+": random", h, run)
	}
	// Waves: grow far, run at a constant level for long, shrink, and again.
	if rounds > 0 {
		r := c.Rand(name + " waves")
		top := 13 // large elements: fewer of them
		for s := unsafe.Sizeof(*new(T)); s > 1<<12; s /= 2 {
			top--
		}
		for i := 0; i < c.N(4, 40); i++ {
			var h []vk.Step
			for w := 1 + r.IntN(3); w > 0; w-- {
				h = append(h, vk.S("put", 1+r.IntN(1<<(1+r.IntN(top)))))
				if capacity > 0 && r.IntN(2) == 0 {
					h[len(h)-1].A[0] = 1 + r.IntN(capacity)
				}
				h = append(h, vk.S("cycle", 1+r.IntN(3000)>>(13-top)))
				if !gc && i == 0 && w == 1 && top > 10 {
					h = append(h, vk.S("cycle", 70000))
				}
				h = append(h, vk.S("take", 1+r.IntN(1<<(1+r.IntN(13)))), vk.S("cycle", 100))
			}
			c.Distinct(vk.HashS(name + vk.HistString(h)))
			c.Count("wave_histories", 1)
			c.History(name+": waves", h, run)
		}
	}
}
