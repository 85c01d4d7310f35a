// C10: both stacks against an ideal last-in first-out sequence.
package c10

import (
	"fmt"
	"testing"

	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"

	"verifharness/seq"
	"verifharness/vk"
)

func linked[T any]() seq.Ops[T] {
	s := lstack.New[T]()
	return seq.Ops[T]{In: s.Push, Out: s.Pop, Peek: s.Peek, Len: s.Len}
}

func slice[T any]() seq.Ops[T] {
	s := sstack.New[T]()
	return seq.Ops[T]{In: s.Push, Out: s.Pop, Peek: s.Peek, Len: s.Len, Empty: s.IsEmpty}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of stack calls compared with an ideal LIFO after every call and drained at the end, for both implementations.", func(c *vk.C) {
		vk.SetBound(5000000)
		id := func(i int) int { return i }
		str := func(i int) string { return fmt.Sprint("v", i) }
		ptrs := make([]*int, 200000)
		for i := range ptrs {
			ptrs[i] = new(int)
		}
		seq.QueueCheck(c, "linked int", id, linked[int], true, 0, c.N(14, 18), c.N(1500, 40000), 100, false)
		seq.QueueCheck(c, "slice int", id, slice[int], true, 0, c.N(14, 18), c.N(1500, 40000), 100, false)
		seq.QueueCheck(c, "linked string", str, linked[string], true, 0, 8, c.N(300, 4000), 50, false)
		seq.QueueCheck(c, "slice string", str, slice[string], true, 0, 8, c.N(300, 4000), 50, false)
		seq.QueueCheck(c, "linked pointer with GC", func(i int) *int { return ptrs[i] }, linked[*int], true, 0, 8, c.N(60, 1000), 50, true)
		seq.QueueKind(c, "linked any", seq.MkAny, linked[any], true, 0)
		seq.QueueKind(c, "slice any", seq.MkAny, slice[any], true, 0)
		seq.QueueKind(c, "linked big array", seq.MkBig, linked[seq.Big], true, 0)
		seq.QueueKind(c, "linked huge array", seq.MkHuge, linked[seq.Huge], true, 0)
		seq.QueueKind(c, "linked wide array", seq.MkWide, linked[seq.Wide], true, 0)
		seq.QueueKind(c, "linked odd array", seq.MkOdd, linked[seq.Odd], true, 0)
		seq.QueueKind(c, "slice big array", seq.MkBig, slice[seq.Big], true, 0)
		seq.QueueKind(c, "slice huge array", seq.MkHuge, slice[seq.Huge], true, 0)
		seq.QueueKind(c, "slice wide array", seq.MkWide, slice[seq.Wide], true, 0)
		seq.QueueKind(c, "slice odd array", seq.MkOdd, slice[seq.Odd], true, 0)
		seq.QueueKind(c, "linked mixed struct", seq.MkMixed, linked[seq.Mixed], true, 0)
		seq.QueueKind(c, "slice mixed struct", seq.MkMixed, slice[seq.Mixed], true, 0)
		seq.QueueKind(c, "linked pointers and nils", seq.MkPtr, linked[*int], true, 0)
		seq.QueueKind(c, "slice pointers and nils", seq.MkPtr, slice[*int], true, 0)
		seq.QueueKind(c, "linked errors and nils", seq.MkErr, linked[error], true, 0)
		seq.QueueKind(c, "slice errors and nils", seq.MkErr, slice[error], true, 0)
		seq.QueueKind(c, "linked empty struct", seq.MkUnit, linked[struct{}], true, 0)
		seq.QueueKind(c, "slice empty struct", seq.MkUnit, slice[struct{}], true, 0)
		seq.QueueKind(c, "linked bytes", seq.MkSmall, linked[uint8], true, 0)
		seq.QueueKind(c, "slice bytes", seq.MkSmall, slice[uint8], true, 0)
		seq.QueueKind(c, "linked equal strings", seq.MkString, linked[string], true, 0)
		seq.QueueKind(c, "slice equal strings", seq.MkString, slice[string], true, 0)
		seq.QueueKind(c, "linked slices", seq.MkSlice, linked[[]int], true, 0)
		seq.QueueKind(c, "linked maps", seq.MkMap, linked[map[string]int], true, 0)
		seq.QueueKind(c, "linked functions", seq.MkFunc, linked[func() int], true, 0)
		seq.QueueKind(c, "linked channels", seq.MkChan, linked[chan int], true, 0)
		seq.QueueKind(c, "linked floats", seq.MkFloat, linked[float64], true, 0)
		seq.QueueKind(c, "linked complex numbers", seq.MkComplex, linked[complex128], true, 0)
		seq.QueueKind(c, "linked uncomparable struct", seq.MkLoose, linked[seq.Loose], true, 0)
		seq.QueueKind(c, "linked uncomparable any", seq.MkLooseAny, linked[any], true, 0)
		seq.QueueKind(c, "slice slices", seq.MkSlice, slice[[]int], true, 0)
		seq.QueueKind(c, "slice maps", seq.MkMap, slice[map[string]int], true, 0)
		seq.QueueKind(c, "slice functions", seq.MkFunc, slice[func() int], true, 0)
		seq.QueueKind(c, "slice channels", seq.MkChan, slice[chan int], true, 0)
		seq.QueueKind(c, "slice floats", seq.MkFloat, slice[float64], true, 0)
		seq.QueueKind(c, "slice complex numbers", seq.MkComplex, slice[complex128], true, 0)
		seq.QueueKind(c, "slice uncomparable struct", seq.MkLoose, slice[seq.Loose], true, 0)
		seq.QueueKind(c, "slice uncomparable any", seq.MkLooseAny, slice[any], true, 0)
		seq.QueueCheck(c, "linked large", id, linked[int], true, 0, 0, c.N(5, 50), 20000, false)
		seq.QueueCheck(c, "slice large", id, slice[int], true, 0, 0, c.N(5, 50), 20000, false)
		seq.QueueScale(c, "linked scale", linked[int], true, 0)
		seq.QueueScale(c, "slice scale", slice[int], true, 0)
	})
}
