// C13: no operation writes into a sequence it does not own. Canaries lie
// behind every argument, and every other sequence is compared with its
// snapshot after every call.
package c13

import (
	"fmt"
	"math/rand/v2"
	"strconv"
	"testing"
	"unsafe"

	"github.com/unsafe-risk/utilx/dsx/slicex"

	"verifharness/seq"
	"verifharness/vk"
)

// world is everything the caller holds.
type world[T any] struct {
	of    func(T) int
	s     []*slicex.Slice[T] // independent slices
	snap  [][]int
	kind  []string
	group []int // pieces of one Split share a group; 0: independent
	arg   [][]T
	argS  [][]int
	id    int
	ng    int
}

// ids are the numbers the elements were made from.
func (w *world[T]) ids(s []T) []int {
	out := make([]int, len(s))
	for i := range s {
		out[i] = w.of(s[i])
	}
	return out
}

func (w *world[T]) is(s []T, want []int) bool {
	if len(s) != len(want) {
		return false
	}
	for i := range s {
		if w.of(s[i]) != want[i] {
			return false
		}
	}
	return true
}

func (w *world[T]) add(s *slicex.Slice[T], kind string, group int) {
	w.s = append(w.s, s)
	w.snap = append(w.snap, w.ids(*s))
	w.kind = append(w.kind, kind)
	w.group = append(w.group, group)
}

// verify compares everything but slice `but` with its snapshot.
func (w *world[T]) verify(but int, op string) error {
	for i, s := range w.s {
		if i == but {
			continue
		}
		if !w.is(*s, w.snap[i]) {
			return fmt.Errorf("%s changed another sequence (%s): it is %v and was %v", op, w.kind[i], w.ids(*s), w.snap[i])
		}
	}
	for i, a := range w.arg {
		if !w.is(a, w.argS[i]) {
			return fmt.Errorf("%s wrote into the array behind an argument: %v, it was %v", op, w.ids(a), w.argS[i])
		}
	}
	return nil
}

// exec runs edits on slices of elements made by mk, of tells their numbers; arguments
// and pieces are scale times as long.
func exec[T any](mk func(int) T, of func(T) int, scale int) func(h []vk.Step) error {
	return func(h []vk.Step) error { return run(mk, of, scale, h) }
}

func run[T any](mk func(int) T, of func(T) int, scale int, h []vk.Step) error {
	w := &world[T]{of: of}
	first := slicex.New[T]()
	w.add(first, "slice", 0)
	fresh := func() T { w.id++; return mk(w.id) }
	w.id = 1000
	for _, st := range h {
		vk.Op()
		who := st.A[0] % len(w.s)
		s := w.s[who]
		cur := w.snap[who]
		a := func(i int) int {
			if i < len(st.A) {
				return st.A[i]
			}
			return 0
		}
		desc := fmt.Sprint(st.Op, st.A, " on ", w.kind[who], " ", cur)
		i, j := a(1)%(len(cur)+1), a(2)%(len(cur)+1)
		if i > j {
			i, j = j, i
		}
		edit := func(args []T, wholeArr []T) error {
			vals := w.ids(args)
			if wholeArr != nil {
				w.arg = append(w.arg, wholeArr)
				w.argS = append(w.argS, w.ids(wholeArr))
			}
			if st.Op == "Expand" || st.Op == "ExpandSelf" || st.Op == "ExpandOther" {
				j = i
				s.Expand(i, args...)
			} else {
				s.Splice(i, j, args...)
			}
			want := append(append(append([]int{}, cur[:i]...), vals...), cur[j:]...)
			if !w.is(*s, want) {
				return fmt.Errorf("%s with values %v (%d..%d) gives %v, ideal %v", desc, vals, i, j, w.ids(*s), want)
			}
			return nil
		}
		grows := true
		switch st.Op {
		case "Splice", "Expand":
			// argument values in the middle of an array with canaries around
			k, before, after := a(3)%4*scale, a(4)%3, a(5)%9*scale
			arr := make([]T, before+k+after)
			for x := range arr {
				arr[x] = fresh()
			}
			if err := edit(arr[before:before+k], arr); err != nil {
				return err
			}
		case "SpliceSelf", "ExpandSelf":
			x, y := a(3)%(len(cur)+1), a(4)%(len(cur)+1)
			if x > y {
				x, y = y, x
			}
			if err := edit((*s)[x:y], nil); err != nil {
				return err
			}
		case "SpliceOther", "ExpandOther":
			o := a(3) % len(w.s)
			if o == who || w.group[o] != 0 && w.group[o] == w.group[who] {
				continue
			}
			y := a(4) % (len(*w.s[o]) + 1)
			if err := edit((*w.s[o])[:y], nil); err != nil {
				return err
			}
		case "Push":
			s.Push(fresh())
		case "UnShift":
			s.UnShift(fresh())
		case "Insert":
			s.Insert(i, fresh())
		case "Extend":
			s.Extend(a(1) % 5 * scale)
		case "Copy":
			if len(w.s) < 6 {
				w.add(s.Copy(), "copy", 0)
			}
			if err := w.verify(-1, desc); err != nil {
				return err
			}
			continue
		case "Split", "Batch":
			if len(w.s) > 6 || w.group[who] != 0 {
				continue
			}
			// the pieces are made from a private copy, which is then dropped
			src := append(make([]T, 0, len(cur)+8), *s...)
			var ps []slicex.Slice[T]
			if st.Op == "Batch" {
				ps = slicex.Slice[T](src).Batch((1 + a(1)%4) * scale)
			} else {
				ps = slicex.Slice[T](src).Split(a(1)%4*scale, a(2)%4*scale, a(3)%4*scale)
			}
			if len(ps) > 12 {
				ps = ps[:12]
			}
			w.ng++
			for x := range ps {
				w.add(&ps[x], st.Op+" piece", w.ng)
			}
			continue
		case "Set":
			s.Set(i, fresh())
			grows = false
		case "Reverse":
			s.Reverse()
			grows = false
		case "Rotate":
			s.Rotate(a(1)%(9*scale) - 4*scale)
			grows = false
		case "Cut":
			s.Cut(i, j)
			grows = false
		case "Pop":
			s.Pop()
			grows = false
		case "DeleteReplace":
			s.DeleteReplace(i)
			grows = false
		case "Shift":
			s.Shift()
			grows = false
		case "Repeat":
			if len(cur) < 20*scale {
				s.Repeat(a(1) % 3)
			}
			grows = false
		case "Filter":
			s.Filter(func(v T) bool { return of(v)%3 != a(1)%3 })
			grows = false
		case "Clear":
			s.Clear()
			grows = false
		case "Slice":
			s.Slice(i, j)
			grows = false
		case "Shuffle":
			s.Shuffle()
			grows = false
		}
		_ = grows
		if err := w.verify(who, desc); err != nil {
			return err
		}
		w.snap[who] = w.ids(*s)
	}
	return nil
}

var ops = []string{"Splice", "Splice", "Splice", "Expand", "Expand", "SpliceSelf", "SpliceSelf", "ExpandSelf", "SpliceOther", "ExpandOther", "Push", "Push", "UnShift", "Insert", "Extend",
	"Copy", "Copy", "Split", "Batch", "Set", "Set", "Reverse", "Rotate", "Cut", "Pop", "DeleteReplace", "Shift", "Repeat", "Filter", "Clear", "Slice", "Shuffle"}

func random(r *rand.Rand, n int) []vk.Step {
	var h []vk.Step
	for i := 0; i < n; i++ {
		op := ops[r.IntN(len(ops))]
		if i < 2 {
			op = "Expand"
		}
		h = append(h, vk.S(op, r.IntN(720), r.IntN(720), r.IntN(720), r.IntN(720), r.IntN(720), r.IntN(720)))
	}
	return h
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one sequence of edits over a set of slices, copies, split pieces and argument arrays; after every edit all sequences but the edited one are compared with their snapshots. Edits in place of one piece concern that piece only.", func(c *vk.C) {
		vk.SetBound(20000000)
		ints := exec(func(i int) int { return i }, func(i int) int { return i }, 1)
		// every splice of a small slice with a part of itself, with and without spare capacity
		for _, fill := range []int{1, 2, 3, 4, 5} {
			for _, ext := range []string{"Extend", "Push"} {
				pre := []vk.Step{vk.S("Expand", 0, 0, 0, 3, 0, 0)}
				for k := 1; k < fill; k++ {
					pre = append(pre, vk.S("Push", 0))
				}
				if ext == "Extend" {
					pre = append(pre, vk.S("Extend", 0, 4), vk.S("Pop", 0), vk.S("Pop", 0), vk.S("Pop", 0), vk.S("Pop", 0))
				}
				n := fill + 3
				for i := 0; i < n; i++ {
					for j := i; j < n; j++ {
						for x := 0; x < n; x++ {
							for y := x; y < n; y++ {
								h := append(append([]vk.Step{}, pre...), vk.S("SpliceSelf", 0, i, j, x, y), vk.S("Push", 0), vk.S("ExpandSelf", 0, i, i, x, y))
								c.Distinct(vk.HashS(vk.HistString(h)))
								c.History("self splices", h, ints)
							}
						}
					}
				}
			}
		}
		r := c.Rand("random")
		for i := 0; i < c.N(40000, 800000); i++ {
			h := random(r, 4+r.IntN(16))
			c.Distinct(vk.HashS(vk.HistString(h)))
			if i < 2 {
				c.Sample(map[string]any{"workload": "random", "history": vk.HistString(h)})
			}
			c.History("random", h, ints)
		}
		// elements of other kinds and sizes, and long slices
		kind(c, "ints", func(i int) int { return i }, func(v int) int { return v })
		kind(c, "bytes", func(i int) uint8 { return uint8(i) }, func(v uint8) int { return int(v) })
		kind(c, "odd arrays", seq.MkOdd, func(v seq.Odd) int { return int(v[0]) })
		kind(c, "strings", func(i int) string { return fmt.Sprint(i) }, func(v string) int { n, _ := strconv.Atoi(v); return n })
		kind(c, "any", func(i int) any { return i }, func(v any) int { n, _ := v.(int); return n })
		kind(c, "pointers", func(i int) *int { return &i }, func(v *int) int {
			if v == nil {
				return 0
			}
			return *v
		})
		kind(c, "slices", func(i int) []int { return []int{i} }, func(v []int) int {
			if v == nil {
				return 0
			}
			return v[0]
		})
		type pair struct {
			a any
			n int
		}
		kind(c, "structs", func(i int) pair { return pair{i, i} }, func(v pair) int { return v.n })
		kind(c, "arrays of 264 bytes", func(i int) seq.Big { return seq.Big{0: i, 32: i} }, func(v seq.Big) int { return v[0] + (v[32]-v[0])*1000003 })
		kind(c, "arrays of 9608 bytes", func(i int) seq.Huge { return seq.Huge{0: int64(i), 1200: int64(i)} }, func(v seq.Huge) int { return int(v[0]) + int(v[1200]-v[0])*1000003 })
	})
}

func kind[T any](c *vk.C, name string, mk func(int) T, of func(T) int) {
	r := c.Rand("kind " + name)
	n := c.N(800, 16000)
	if unsafe.Sizeof(*new(T)) > 4096 {
		n /= 4
	}
	for i := 0; i < n; i++ {
		h := random(r, 4+r.IntN(16))
		c.Distinct(vk.HashS(name + vk.HistString(h)))
		c.History("elements of kind "+name, h, exec(mk, of, 1))
	}
	for i := 0; i < n/16; i++ {
		scale := []int{9, 40, 70, 300, 1100}[r.IntN(5)]
		if unsafe.Sizeof(*new(T)) > 4096 {
			scale = 9
		}
		h := random(r, 4+r.IntN(12))
		c.Distinct(vk.HashS(name + fmt.Sprint(scale) + vk.HistString(h)))
		c.Count("histories_of_long_slices", 1)
		c.History(fmt.Sprintf("long slices (%d) of kind %s", scale, name), h, exec(mk, of, scale))
	}
}
