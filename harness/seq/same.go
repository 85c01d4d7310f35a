package seq

import (
	"math"
	"math/cmplx"
	"reflect"
	"unsafe"
)

// Same returns the comparison "is this the very value that was put in" for
// any type, comparable or not: floats by their bits, slices, maps, channels
// and functions by what they refer to.
func Same[T any]() func(a, b T) bool {
	var zero T
	var f any
	switch any(zero).(type) {
	case int:
		f = func(a, b int) bool { return a == b }
	case string:
		f = func(a, b string) bool { return a == b }
	case *int:
		f = func(a, b *int) bool { return a == b }
	case uint8:
		f = func(a, b uint8) bool { return a == b }
	case Big:
		f = func(a, b Big) bool { return a == b }
	case Huge:
		f = func(a, b Huge) bool { return a == b }
	case Wide:
		f = func(a, b Wide) bool { return a == b }
	case Odd:
		f = func(a, b Odd) bool { return a == b }
	}
	if g, ok := f.(func(a, b T) bool); ok {
		return g
	}
	return func(a, b T) bool {
		return same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
	}
}

func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		return math.Float64bits(a.Float()) == math.Float64bits(b.Float())
	case reflect.Complex64, reflect.Complex128:
		x, y := a.Complex(), b.Complex()
		return math.Float64bits(real(x)) == math.Float64bits(real(y)) && math.Float64bits(imag(x)) == math.Float64bits(imag(y))
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Cap() == b.Cap() && a.UnsafePointer() == b.UnsafePointer()
	case reflect.Map, reflect.Chan, reflect.Pointer, reflect.UnsafePointer:
		return a.UnsafePointer() == b.UnsafePointer()
	case reflect.Func:
		if a.CanAddr() && b.CanAddr() { // the closure, not the code
			return *(*unsafe.Pointer)(a.Addr().UnsafePointer()) == *(*unsafe.Pointer)(b.Addr().UnsafePointer())
		}
		return a.UnsafePointer() == b.UnsafePointer()
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem())
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i)) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	}
	return a.Equal(b)
}

// Loose has fields that cannot be compared.
type Loose struct {
	A []int
	B map[string]int
	C func() int
	D any
	E float64
}

var (
	slices_ [16][]int
	maps_   [16]map[string]int
	funcs_  [16]func() int
	chans_  [16]chan int
)

func init() {
	for i := range slices_ {
		switch i % 5 {
		case 1:
			slices_[i] = []int{}
		case 2:
			slices_[i] = []int{1, 2, 3}
		case 3:
			slices_[i] = make([]int, 2, 10)
		case 4:
			slices_[i] = slices_[i-2][:2]
		}
		if i%3 != 0 {
			maps_[i] = map[string]int{"a": i % 2}
			funcs_[i] = func() int { return i % 2 }
			chans_[i] = make(chan int, i%2)
		}
	}
}

// MkSlice, MkMap, MkFunc, MkChan, MkFloat, MkComplex, MkLoose and MkLooseAny
// make elements that cannot be compared, or differ from themselves, or are
// equal and not the same. The same number makes the same element.
func MkSlice(i int) []int { return slices_[i%16] }

func MkMap(i int) map[string]int { return maps_[i%16] }

func MkFunc(i int) func() int { return funcs_[i%16] }

func MkChan(i int) chan int { return chans_[i%16] }

func MkFloat(i int) float64 {
	return []float64{0, math.Copysign(0, -1), math.NaN(), math.Float64frombits(0xfff8000000000001), math.Inf(1), 1}[i%6]
}

func MkComplex(i int) complex128 {
	return []complex128{0, complex(math.Copysign(0, -1), 0), cmplx.NaN(), complex(0, math.Copysign(0, -1)), cmplx.Inf()}[i%5]
}

func MkLoose(i int) Loose {
	if i%7 == 0 {
		return Loose{}
	}
	return Loose{MkSlice(i), MkMap(i), MkFunc(i), MkAny(i), MkFloat(i)}
}

func MkLooseAny(i int) any {
	switch i % 9 {
	case 0:
		return nil
	case 1:
		return MkSlice(i / 9)
	case 2:
		return MkMap(i / 9)
	case 3:
		return MkFunc(i / 9)
	case 4:
		return MkFloat(i / 9)
	case 5:
		return MkLoose(i / 9)
	case 6:
		return [1]any{MkSlice(i / 9)}
	case 7:
		return &cells[i%128]
	}
	return i
}
