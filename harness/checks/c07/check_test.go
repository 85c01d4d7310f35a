// C07: the linked list against an ideal positional sequence.
package c07

import (
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/listx"

	"verifharness/seq"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of list calls, out-of-range indices included, compared with an ideal sequence after every call.", func(c *vk.C) {
		seq.ListCheck(c, func() seq.List[int] { return listx.New[int]() }, func() seq.List[string] { return listx.New[string]() },
			func() seq.List[*int] { return listx.New[*int]() }, false)
		seq.ListKind(c, "any", seq.MkAny, func() seq.List[any] { return listx.New[any]() }, false)
		seq.ListKind(c, "big array", seq.MkBig, func() seq.List[seq.Big] { return listx.New[seq.Big]() }, false)
		seq.ListKind(c, "huge array", seq.MkHuge, func() seq.List[seq.Huge] { return listx.New[seq.Huge]() }, false)
		seq.ListKind(c, "wide array", seq.MkWide, func() seq.List[seq.Wide] { return listx.New[seq.Wide]() }, false)
		seq.ListKind(c, "odd array", seq.MkOdd, func() seq.List[seq.Odd] { return listx.New[seq.Odd]() }, false)
		seq.ListKind(c, "mixed struct", seq.MkMixed, func() seq.List[seq.Mixed] { return listx.New[seq.Mixed]() }, false)
		seq.ListKind(c, "pointers and nils", seq.MkPtr, func() seq.List[*int] { return listx.New[*int]() }, false)
		seq.ListKind(c, "errors and nils", seq.MkErr, func() seq.List[error] { return listx.New[error]() }, false)
		seq.ListKind(c, "empty struct", seq.MkUnit, func() seq.List[struct{}] { return listx.New[struct{}]() }, false)
		seq.ListKind(c, "bytes", seq.MkSmall, func() seq.List[uint8] { return listx.New[uint8]() }, false)
		seq.ListKind(c, "equal strings", seq.MkString, func() seq.List[string] { return listx.New[string]() }, false)
		seq.ListKind(c, "slices", seq.MkSlice, func() seq.List[[]int] { return listx.New[[]int]() }, false)
		seq.ListKind(c, "maps", seq.MkMap, func() seq.List[map[string]int] { return listx.New[map[string]int]() }, false)
		seq.ListKind(c, "functions", seq.MkFunc, func() seq.List[func() int] { return listx.New[func() int]() }, false)
		seq.ListKind(c, "channels", seq.MkChan, func() seq.List[chan int] { return listx.New[chan int]() }, false)
		seq.ListKind(c, "floats", seq.MkFloat, func() seq.List[float64] { return listx.New[float64]() }, false)
		seq.ListKind(c, "complex numbers", seq.MkComplex, func() seq.List[complex128] { return listx.New[complex128]() }, false)
		seq.ListKind(c, "uncomparable struct", seq.MkLoose, func() seq.List[seq.Loose] { return listx.New[seq.Loose]() }, false)
		seq.ListKind(c, "uncomparable any", seq.MkLooseAny, func() seq.List[any] { return listx.New[any]() }, false)
	})
}
