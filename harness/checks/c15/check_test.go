// C15: bit sets of every element type against an ideal set of positions.
package c15

import (
	"fmt"
	"math"
	"math/rand/v2"
	"testing"
	"unsafe"

	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"golang.org/x/exp/constraints"

	"verifharness/vk"
)

type named uint16

func exec[T constraints.Unsigned](h []vk.Step) error {
	var zero T
	w := int(unsafe.Sizeof(zero)) * 8
	var b bitsetx.BitSet[T]
	m := map[int]bool{}
	far := []int{w, w + 1, 2*w - 1, 2 * w, 63, 64, 65, 127, 128, 255, 256, 1 << 20, math.MaxInt32, int(int64(1) << 31 & math.MaxInt), math.MaxInt}
	verify := func() error {
		vk.Op()
		for i := 0; i < w; i++ {
			if b.Test(i) != m[i] {
				return fmt.Errorf("Test(%d) is %v, ideal %v", i, b.Test(i), m[i])
			}
		}
		for _, i := range far {
			if i >= w && b.Test(i) {
				return fmt.Errorf("Test(%d) is true beyond the width %d", i, w)
			}
		}
		if b.IsEmpty() != (len(m) == 0) {
			return fmt.Errorf("IsEmpty is %v with %d positions set", b.IsEmpty(), len(m))
		}
		if b.IsFull() != (len(m) == w) {
			return fmt.Errorf("IsFull is %v with %d of %d positions set", b.IsFull(), len(m), w)
		}
		if b.Test() {
			return fmt.Errorf("Test of no position is true")
		}
		return nil
	}
	if err := verify(); err != nil {
		return err
	}
	for _, s := range h {
		vk.Op()
		switch s.Op {
		case "Set":
			b.Set(s.A...)
			for _, i := range s.A {
				if i < w {
					m[i] = true
				}
			}
		case "Clear":
			b.Clear(s.A...)
			for _, i := range s.A {
				delete(m, i)
			}
		case "Toggle":
			b.Toggle(s.A...)
			for _, i := range s.A {
				if i < w {
					if m[i] {
						delete(m, i)
					} else {
						m[i] = true
					}
				}
			}
		case "SetAll":
			b.SetAll()
			for i := 0; i < w; i++ {
				m[i] = true
			}
		case "ClearAll":
			b.ClearAll()
			clear(m)
		case "ToggleAll":
			b.ToggleAll()
			for i := 0; i < w; i++ {
				if m[i] {
					delete(m, i)
				} else {
					m[i] = true
				}
			}
		case "Test":
			want := false
			for _, i := range s.A {
				want = want || m[i]
			}
			if got := b.Test(s.A...); got != want {
				return fmt.Errorf("Test%v is %v, ideal %v", s.A, got, want)
			}
		}
		if err := verify(); err != nil {
			return fmt.Errorf("after %s%v: %w", s.Op, s.A, err)
		}
	}
	return nil
}

func history(r *rand.Rand, w, n int) []vk.Step {
	pos := func() int {
		switch r.IntN(10) {
		case 0:
			return w + r.IntN(w+70)
		case 1:
			return []int{w - 1, w, w + 1, 0, 63, 64, 31, 32, 1 << 30, math.MaxInt}[r.IntN(10)]
		}
		return r.IntN(w)
	}
	var h []vk.Step
	for i := 0; i < n; i++ {
		a := make([]int, r.IntN(5))
		for k := range a {
			a[k] = pos()
		}
		switch x := r.IntN(24); {
		case x < 6:
			h = append(h, vk.S("Set", a...))
		case x < 11:
			h = append(h, vk.S("Clear", a...))
		case x < 16:
			h = append(h, vk.S("Toggle", a...))
		case x < 20:
			h = append(h, vk.S("Test", a...))
		default:
			h = append(h, vk.S([]string{"SetAll", "ClearAll", "ToggleAll", "SetAll"}[x-20]))
		}
	}
	return h
}

func typ[T constraints.Unsigned](c *vk.C) {
	var zero T
	w := int(unsafe.Sizeof(zero)) * 8
	name := fmt.Sprintf("%T", zero)
	run := exec[T]
	do := func(what string, h ...vk.Step) {
		c.Distinct(vk.HashS(name + vk.HistString(h)))
		c.History(name+": "+what, h, run)
	}
	// every position with every operation from the empty, the full and a mixed set
	for i := 0; i <= 2*w+2; i++ {
		for _, from := range [][]vk.Step{{}, {vk.S("SetAll")}, {vk.S("Set", 0, 2, w-1, w/2)}} {
			for _, op := range []string{"Set", "Clear", "Toggle", "Test"} {
				do("single positions", append(append([]vk.Step{}, from...), vk.S(op, i), vk.S("ToggleAll"), vk.S(op, i, i), vk.S(op, i, (i+1)%w))...)
			}
		}
	}
	// full, minus one position, plus it again
	for i := 0; i < w; i++ {
		do("all but one", vk.S("SetAll"), vk.S("Clear", i), vk.S("Set", i), vk.S("ClearAll"), vk.S("Set", i), vk.S("Toggle", i))
	}
	if w == 8 {
		// every state, every operation
		for st := 0; st < 256; st++ {
			var a []int
			for i := 0; i < 8; i++ {
				if st>>i&1 == 1 {
					a = append(a, i)
				}
			}
			for _, op := range []string{"Set", "Clear", "Toggle", "Test"} {
				for i := 0; i < 10; i++ {
					do("all states", vk.S("Set", a...), vk.S(op, i))
				}
				do("all states", vk.S("SetAll"), vk.S(op, a...))
				do("all states", vk.S("Set", a...), vk.S("ToggleAll"), vk.S(op, a...))
			}
		}
	}
	r := c.Rand(name)
	for _, k := range []int{7, 31, 255, 256, 257, 1000, 66000} { // calls with many positions
		a := make([]int, k)
		for rep := 0; rep < 3; rep++ {
			for i := range a {
				a[i] = r.IntN(w + rep)
			}
			if k > 200 { // the last one matters
				last := a[k-1]
				for i := range a[:k-1] {
					if a[i] == last {
						a[i] = (last + 1) % w
					}
				}
			}
			do("many positions", vk.S("Set", a...), vk.S("Clear", a[:k-1]...), vk.S("Test", a[:k-1]...), vk.S("Test", a...), vk.S("Toggle", a...), vk.S("Toggle", a[1:]...), vk.S("SetAll"), vk.S("Clear", a...))
			c.Count("calls_with_many_positions", 8)
		}
	}
	for i := 0; i < c.N(400, 20000); i++ {
		h := history(r, w, 40)
		if i == 0 {
			c.Sample(map[string]any{"type": name, "history": vk.HistString(h)})
		}
		do("random", h...)
	}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of bit-set calls on one element type, compared with an ideal set after every call.", func(c *vk.C) {
		vk.SetBound(1000000)
		typ[uint8](c)
		typ[uint16](c)
		typ[uint32](c)
		typ[uint64](c)
		typ[uint](c)
		typ[uintptr](c)
		typ[named](c)
	})
}
