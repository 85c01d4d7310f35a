// C08: the slice-backed list against an ideal positional sequence.
package c08

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex/listx"

	"verifharness/seq"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of list calls, out-of-range indices included, compared with an ideal sequence after every call; lists with and without spare capacity.", func(c *vk.C) {
		n := 0
		// Lists start with different spare capacities, filled with rubbish.
		seq.ListCheck(c, func() seq.List[int] {
			n++
			b := make([]int, n%9)
			for i := range b {
				b[i] = -7
			}
			l := listx.List[int](b[:0])
			return &l
		}, func() seq.List[string] { return new(listx.List[string]) }, func() seq.List[*int] { return new(listx.List[*int]) }, true)
		seq.ListKind(c, "any", seq.MkAny, func() seq.List[any] { return new(listx.List[any]) }, true)
		seq.ListKind(c, "big array", seq.MkBig, func() seq.List[seq.Big] { return new(listx.List[seq.Big]) }, true)
		seq.ListKind(c, "huge array", seq.MkHuge, func() seq.List[seq.Huge] { return new(listx.List[seq.Huge]) }, true)
		seq.ListKind(c, "wide array", seq.MkWide, func() seq.List[seq.Wide] { return new(listx.List[seq.Wide]) }, true)
		seq.ListKind(c, "odd array", seq.MkOdd, func() seq.List[seq.Odd] { return new(listx.List[seq.Odd]) }, true)
		seq.ListKind(c, "mixed struct", seq.MkMixed, func() seq.List[seq.Mixed] { return new(listx.List[seq.Mixed]) }, true)
		seq.ListKind(c, "pointers and nils", seq.MkPtr, func() seq.List[*int] { return new(listx.List[*int]) }, true)
		seq.ListKind(c, "errors and nils", seq.MkErr, func() seq.List[error] { return new(listx.List[error]) }, true)
		seq.ListKind(c, "empty struct", seq.MkUnit, func() seq.List[struct{}] { return new(listx.List[struct{}]) }, true)
		seq.ListKind(c, "bytes", seq.MkSmall, func() seq.List[uint8] { return new(listx.List[uint8]) }, true)
		seq.ListKind(c, "equal strings", seq.MkString, func() seq.List[string] { return new(listx.List[string]) }, true)
		seq.ListKind(c, "slices", seq.MkSlice, func() seq.List[[]int] { return new(listx.List[[]int]) }, true)
		seq.ListKind(c, "maps", seq.MkMap, func() seq.List[map[string]int] { return new(listx.List[map[string]int]) }, true)
		seq.ListKind(c, "functions", seq.MkFunc, func() seq.List[func() int] { return new(listx.List[func() int]) }, true)
		seq.ListKind(c, "channels", seq.MkChan, func() seq.List[chan int] { return new(listx.List[chan int]) }, true)
		seq.ListKind(c, "floats", seq.MkFloat, func() seq.List[float64] { return new(listx.List[float64]) }, true)
		seq.ListKind(c, "complex numbers", seq.MkComplex, func() seq.List[complex128] { return new(listx.List[complex128]) }, true)
		seq.ListKind(c, "uncomparable struct", seq.MkLoose, func() seq.List[seq.Loose] { return new(listx.List[seq.Loose]) }, true)
		seq.ListKind(c, "uncomparable any", seq.MkLooseAny, func() seq.List[any] { return new(listx.List[any]) }, true)
		if n == 0 {
			t.Fatal("no lists")
		}
	})
}
