// C09: the linked queue against an ideal first-in first-out sequence.
package c09

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/queuex"

	"verifharness/seq"
	"verifharness/vk"
)

func fresh[T any]() seq.Ops[T] {
	q := queuex.New[T]()
	return seq.Ops[T]{In: q.Enqueue, Out: q.Dequeue, Peek: q.Peek, Empty: q.IsEmpty}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of queue calls compared with an ideal FIFO after every call and drained at the end.", func(c *vk.C) {
		vk.SetBound(5000000)
		seq.QueueCheck(c, "int", func(i int) int { return i }, fresh[int], false, 0, c.N(15, 19), c.N(1500, 40000), 100, false)
		seq.QueueCheck(c, "equal values", func(i int) int { return i % 2 }, fresh[int], false, 0, 0, c.N(300, 4000), 20, false)
		seq.QueueCheck(c, "string", func(i int) string { return fmt.Sprint("v", i) }, fresh[string], false, 0, 8, c.N(300, 4000), 50, false)
		ptrs := make([]*int, 200000)
		for i := range ptrs {
			ptrs[i] = new(int)
		}
		seq.QueueCheck(c, "pointer with GC", func(i int) *int { return ptrs[i] }, fresh[*int], false, 0, 8, c.N(60, 1000), 50, true)
		seq.QueueKind(c, "any", seq.MkAny, fresh[any], false, 0)
		seq.QueueKind(c, "big array", seq.MkBig, fresh[seq.Big], false, 0)
		seq.QueueKind(c, "huge array", seq.MkHuge, fresh[seq.Huge], false, 0)
		seq.QueueKind(c, "wide array", seq.MkWide, fresh[seq.Wide], false, 0)
		seq.QueueKind(c, "odd array", seq.MkOdd, fresh[seq.Odd], false, 0)
		seq.QueueKind(c, "mixed struct", seq.MkMixed, fresh[seq.Mixed], false, 0)
		seq.QueueKind(c, "pointers and nils", seq.MkPtr, fresh[*int], false, 0)
		seq.QueueKind(c, "errors and nils", seq.MkErr, fresh[error], false, 0)
		seq.QueueKind(c, "empty struct", seq.MkUnit, fresh[struct{}], false, 0)
		seq.QueueKind(c, "bytes", seq.MkSmall, fresh[uint8], false, 0)
		seq.QueueKind(c, "equal strings", seq.MkString, fresh[string], false, 0)
		seq.QueueKind(c, "slices", seq.MkSlice, fresh[[]int], false, 0)
		seq.QueueKind(c, "maps", seq.MkMap, fresh[map[string]int], false, 0)
		seq.QueueKind(c, "functions", seq.MkFunc, fresh[func() int], false, 0)
		seq.QueueKind(c, "channels", seq.MkChan, fresh[chan int], false, 0)
		seq.QueueKind(c, "floats", seq.MkFloat, fresh[float64], false, 0)
		seq.QueueKind(c, "complex numbers", seq.MkComplex, fresh[complex128], false, 0)
		seq.QueueKind(c, "uncomparable struct", seq.MkLoose, fresh[seq.Loose], false, 0)
		seq.QueueKind(c, "uncomparable any", seq.MkLooseAny, fresh[any], false, 0)
		seq.QueueCheck(c, "large", func(i int) int { return i }, fresh[int], false, 0, 0, c.N(5, 50), 20000, false)
		seq.QueueScale(c, "scale", fresh[int], false, 0)
	})
}
