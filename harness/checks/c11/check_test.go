// C11: the ring queue against an ideal bounded first-in first-out sequence.
package c11

import (
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex/queuex"

	"verifharness/seq"
	"verifharness/vk"
)

func fresh[T any](n int) func() seq.Ops[T] {
	same := seq.Same[T]()
	return func() seq.Ops[T] {
		q := queuex.New[T](n)
		return seq.Ops[T]{In: q.Enqueue, Out: q.Dequeue, Peek: q.Peek, Empty: q.IsEmpty, Extra: func(model []T) error {
			if q.IsFull() != (len(model) == n) {
				return fmt.Errorf("IsFull is %v with %d of %d elements held", q.IsFull(), len(model), n)
			}
			if q.Cap() != n {
				return fmt.Errorf("Cap is %d, created with %d", q.Cap(), n)
			}
			if len(model) > 0 && !same(q.Head(), model[0]) {
				return fmt.Errorf("Head is %v, ideal %v", q.Head(), model[0])
			}
			return nil
		}}
	}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of ring calls at one capacity compared with an ideal bounded FIFO after every call and drained at the end.", func(c *vk.C) {
		vk.SetBound(5000000)
		id := func(i int) int { return i }
		for n := 1; n <= 8; n++ {
			seq.QueueCheck(c, fmt.Sprint("int capacity ", n), id, fresh[int](n), false, n, c.N(12, 16), c.N(300, 4000), 2*n+1, false)
		}
		r := c.Rand("caps")
		caps := []int{9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 65535, 65536}
		for i := 0; i < c.N(20, 300); i++ {
			caps = append(caps, 1+r.IntN(300))
		}
		for _, n := range caps {
			c.Count("capacities", 1)
			rounds := c.N(10, 60)
			if n > 1000 {
				rounds = 3
			}
			seq.QueueCheck(c, fmt.Sprint("int capacity ", n), id, fresh[int](n), false, n, 0, rounds, n+n/2, false)
			fill := []vk.Step{vk.S("put", n+1), vk.S("take", n/2+1), vk.S("put", n+1), vk.S("drain"), vk.S("put", n+2), vk.S("take", 1), vk.S("put", 2), vk.S("drain")}
			c.History(fmt.Sprint("fill and drain at capacity ", n), fill, seq.ExecQueue(id, fresh[int](n), false, n))
		}
		seq.QueueKind(c, "any", seq.MkAny, fresh[any](1), false, 1)
		seq.QueueKind(c, "big array", seq.MkBig, fresh[seq.Big](2), false, 2)
		seq.QueueKind(c, "huge array", seq.MkHuge, fresh[seq.Huge](2), false, 2)
		seq.QueueKind(c, "wide array", seq.MkWide, fresh[seq.Wide](2), false, 2)
		seq.QueueKind(c, "odd array", seq.MkOdd, fresh[seq.Odd](2), false, 2)
		seq.QueueKind(c, "mixed struct", seq.MkMixed, fresh[seq.Mixed](3), false, 3)
		seq.QueueKind(c, "pointers and nils", seq.MkPtr, fresh[*int](4), false, 4)
		seq.QueueKind(c, "errors and nils", seq.MkErr, fresh[error](5), false, 5)
		seq.QueueKind(c, "empty struct", seq.MkUnit, fresh[struct{}](1), false, 1)
		seq.QueueKind(c, "bytes", seq.MkSmall, fresh[uint8](2), false, 2)
		seq.QueueKind(c, "equal strings", seq.MkString, fresh[string](3), false, 3)
		seq.QueueKind(c, "slices", seq.MkSlice, fresh[[]int](1), false, 1)
		seq.QueueKind(c, "maps", seq.MkMap, fresh[map[string]int](2), false, 2)
		seq.QueueKind(c, "functions", seq.MkFunc, fresh[func() int](3), false, 3)
		seq.QueueKind(c, "channels", seq.MkChan, fresh[chan int](4), false, 4)
		seq.QueueKind(c, "floats", seq.MkFloat, fresh[float64](1), false, 1)
		seq.QueueKind(c, "complex numbers", seq.MkComplex, fresh[complex128](2), false, 2)
		seq.QueueKind(c, "uncomparable struct", seq.MkLoose, fresh[seq.Loose](3), false, 3)
		seq.QueueKind(c, "uncomparable any", seq.MkLooseAny, fresh[any](4), false, 4)
		seq.QueueCheck(c, "string capacity 3", func(i int) string { return fmt.Sprint("v", i) }, fresh[string](3), false, 3, 10, c.N(300, 4000), 5, false)
		for _, n := range []int{1, 3, 65537, 70001, 131073} {
			seq.QueueScale(c, fmt.Sprint("scale, capacity ", n), fresh[int](n), false, n)
		}
	})
}
