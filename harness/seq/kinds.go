package seq

import (
	"errors"
	"fmt"
	"math"
	"math/cmplx"
	"unsafe"

	"verifharness/vk"
)

// Big is an element much larger than a word.
type Big [33]int

// Huge is larger than a page, Wide than 2^16 bytes; Odd is no whole number of words.
type (
	Huge [1201]int64
	Wide [70001]byte
	Odd  [3]byte
)

// Mixed has fields of different sizes and kinds.
type Mixed struct {
	A int8
	B string
	C any
	D [3]int16
	E *int
	F bool
}

var cells [128]int

// MkBig, MkMixed, MkAny, MkPtr, MkErr, MkUnit, MkSmall and MkString make elements; zero
// values, nils and equal elements are among them.
func MkBig(i int) Big {
	var b Big
	if i%5 != 0 {
		b[0], b[32] = i, -i
	}
	return b
}

func MkHuge(i int) Huge {
	var h Huge
	if i%5 != 0 {
		h[0], h[i%1201], h[1200] = int64(i), int64(i), -int64(i)
	}
	return h
}

func MkWide(i int) Wide {
	var w Wide
	if i%5 != 0 {
		w[0], w[i*997%70001], w[70000] = byte(i), byte(i), byte(i>>8)
	}
	return w
}

func MkOdd(i int) Odd { return Odd{byte(i), 0, byte(i * 3)} }

func MkMixed(i int) Mixed {
	if i%5 == 0 {
		return Mixed{}
	}
	return Mixed{int8(i), fmt.Sprint(i), MkAny(i), [3]int16{0, int16(i)}, MkPtr(i), i%2 == 0}
}

func MkPtr(i int) *int {
	if i%3 == 0 {
		return nil
	}
	return &cells[i%128]
}

var errs = []error{nil, errors.New("a"), errors.New("a"), (*typed)(nil), &typed{}}

type typed struct{ int }

func (*typed) Error() string { return "typed" }

func MkErr(i int) error { return errs[i%len(errs)] }

func MkUnit(int) struct{} { return struct{}{} }

func MkSmall(i int) uint8 { return uint8(i * 37) }

func MkString(i int) string { return []string{"", "a", "b", "a\x00"}[i%4] }

func MkAny(i int) any {
	switch i % 16 {
	case 0:
		return nil
	case 1:
		return 0
	case 2:
		return ""
	case 3:
		return (*int)(nil)
	case 4:
		return error((*typed)(nil))
	case 5:
		return false
	case 6:
		return struct{}{}
	case 7:
		return [0]int{}
	case 8:
		return math.Copysign(0, -1)
	case 9:
		return cmplx.Inf()
	case 10:
		return MkBig(i)
	case 11:
		return int8(0)
	case 12:
		return fmt.Sprint(i)
	case 13:
		return &cells[i%128]
	case 14:
		return uintptr(0)
	}
	return i
}

// ListKind runs random histories with one kind of element.
func ListKind[T any](c *vk.C, name string, mk func(int) T, fresh func() List[T], mayPanic bool) {
	r := c.Rand("kind", len(name))
	n := c.N(150, 3000)
	if unsafe.Sizeof(*new(T)) > 1<<16 {
		n /= 20
	}
	for i := 0; i < n; i++ {
		h := ListHistory(r, 60)
		c.Distinct(vk.HashS(name + vk.HistString(h)))
		c.Count("histories_of_other_kinds_of_element", 1)
		c.History("elements of kind "+name, h, ExecList(mk, fresh, mayPanic, 2))
	}
}

// QueueKind runs all short and some random histories with one kind of element.
func QueueKind[T any](c *vk.C, name string, mk func(int) T, fresh func() Ops[T], lifo bool, capacity int) {
	words, n := 7, c.N(60, 1500)
	if unsafe.Sizeof(*new(T)) > 1<<16 {
		words, n = 4, n/10
	} else if unsafe.Sizeof(*new(T)) > 1<<12 {
		words, n = 5, n/3
	}
	QueueCheck(c, "elements of kind "+name, mk, fresh, lifo, capacity, words, n, 40, false)
	c.Count("kinds_of_element", 1)
}
