// C36: built-in numeric conversions against the conversions of the language.
package c36

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"reflect"
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

type number interface {
	int8 | int16 | int32 | int64 | int | uint8 | uint16 | uint32 | uint64 | uint | float32 | float64
}

func isFloat[T number]() bool {
	switch any(T(0)).(type) {
	case float32, float64:
		return true
	}
	return false
}

var limits = map[reflect.Kind][2]*big.Float{}

func init() {
	f := func(k reflect.Kind, bits uint, signed bool) {
		one := big.NewInt(1)
		lo, hi := big.NewInt(0), new(big.Int)
		if signed {
			hi.Sub(new(big.Int).Lsh(one, bits-1), one)
			lo.Neg(new(big.Int).Lsh(one, bits-1))
		} else {
			hi.Sub(new(big.Int).Lsh(one, bits), one)
		}
		limits[k] = [2]*big.Float{new(big.Float).SetInt(lo), new(big.Float).SetInt(hi)}
	}
	f(reflect.Int8, 8, true)
	f(reflect.Int16, 16, true)
	f(reflect.Int32, 32, true)
	f(reflect.Int64, 64, true)
	f(reflect.Int, 64, true)
	f(reflect.Uint8, 8, false)
	f(reflect.Uint16, 16, false)
	f(reflect.Uint32, 32, false)
	f(reflect.Uint64, 64, false)
	f(reflect.Uint, 64, false)
}

// inRange: the language defines the conversion of v to R.
func inRange[T, R number](v T) bool {
	if !isFloat[T]() || isFloat[R]() {
		return true
	}
	f := float64(v)
	if math.IsNaN(f) || math.IsInf(f, 0) {
		return false
	}
	b := new(big.Float).SetFloat64(math.Trunc(f))
	l := limits[reflect.TypeOf(R(0)).Kind()]
	return b.Cmp(l[0]) >= 0 && b.Cmp(l[1]) <= 0
}

func bitsOf[T number](v T) uint64 {
	switch x := any(v).(type) {
	case float32:
		if x != x {
			return 1 << 63
		}
		return uint64(math.Float32bits(x))
	case float64:
		if x != x {
			return 1
		}
		return math.Float64bits(x)
	}
	return uint64(v)
}

func values[T number](c *vk.C, r *rand.Rand) []T {
	var out []T
	t := reflect.TypeOf(T(0))
	switch t.Size() {
	case 1:
		for i := 0; i < 256; i++ {
			out = append(out, T(int8(i)))
			out = append(out, T(uint8(i)))
		}
		return out
	case 2:
		for i := 0; i < 65536; i++ {
			if t.Kind() == reflect.Int16 {
				out = append(out, T(int16(i)))
			} else {
				out = append(out, T(uint16(i)))
			}
		}
		return out
	}
	n := c.N(3000, 200000)
	if isFloat[T]() {
		add := func(f float64) {
			out = append(out, T(f))
			if t.Size() == 4 {
				g := float32(f)
				out = append(out, T(math.Nextafter32(g, float32(math.Inf(1)))), T(math.Nextafter32(g, float32(math.Inf(-1)))))
			} else {
				out = append(out, T(math.Nextafter(f, math.Inf(1))), T(math.Nextafter(f, math.Inf(-1))))
			}
		}
		for _, f := range []float64{0, math.Copysign(0, -1), 0.5, 1, 1.5, math.Inf(1), math.NaN(), math.MaxFloat64, math.MaxFloat32, math.SmallestNonzeroFloat64, math.SmallestNonzeroFloat32, 1e-310, 1e-45, 16777217} {
			add(f)
			add(-f)
		}
		for e := -2; e <= 66; e++ {
			for _, d := range []float64{-1, -0.5, 0, 0.5, 1} {
				add(math.Ldexp(1, e) + d)
				add(-math.Ldexp(1, e) + d)
			}
		}
		for i := 0; i < n; i++ {
			switch r.IntN(3) {
			case 0:
				if t.Size() == 4 {
					out = append(out, T(math.Float32frombits(r.Uint32())))
				} else {
					out = append(out, T(math.Float64frombits(r.Uint64())))
				}
			case 1:
				add(float64(r.Int64()>>r.IntN(64)) * (float64(r.IntN(3)) - 1))
			case 2:
				add(r.NormFloat64() * math.Ldexp(1, r.IntN(70)-3))
			}
		}
		return out
	}
	for b := 0; b < 64; b++ {
		for d := -2; d <= 2; d++ {
			out = append(out, T(int64(1)<<b+int64(d)), T(-(int64(1)<<b)+int64(d)), T(uint64(1)<<b+uint64(d)))
		}
	}
	// integers around ties of the rounding to float32 and float64
	for i := 0; i < n/4; i++ {
		for _, p := range []int{24, 53} {
			m := r.Uint64()>>(64-p) | 1<<(p-1)
			s := r.IntN(64 - p + 1)
			if s > 0 {
				out = append(out, T(m<<s|1<<(s-1)), T(m<<s|1<<(s-1)|1), T(m<<s|(1<<(s-1)-1)))
				out = append(out, T(-int64(m<<s|1<<(s-1))))
			}
		}
	}
	for i := 0; i < n; i++ {
		out = append(out, T(r.Uint64()>>r.IntN(64)), T(-int64(r.Uint64()>>r.IntN(64))))
	}
	return out
}

func pair[T, R number](c *vk.C, vals []T) {
	name := fmt.Sprintf("%T -> %T", T(0), R(0))
	c.Context("%s", name)
	if !convx.Exists[T, R]() {
		c.Violate("no converter "+name, nil)
	}
	n := 0
	for i, v := range vals {
		if !inRange[T, R](v) {
			continue
		}
		n++
		got, ok := convx.Into[T, R](v)
		want := R(v)
		if !ok || bitsOf(got) != bitsOf(want) {
			c.Violate("conversion "+name, map[string]any{"value": fmt.Sprint(v), "got": fmt.Sprint(got), "want": fmt.Sprint(want), "ok": ok})
		}
		if i%16 == 0 {
			if g := convx.IntoOr[T, R](v, want+1); bitsOf(g) != bitsOf(want) {
				c.Violate("IntoOr "+name, map[string]any{"value": fmt.Sprint(v), "got": fmt.Sprint(g), "want": fmt.Sprint(want)})
			}
		}
		if i < 3000 {
			c.Distinct(vk.HashS(name) ^ bitsOf(v)*0x9e3779b97f4a7c15)
		}
	}
	c.Eval(n)
	c.Count("pairs", 1)
}

func from[T number](c *vk.C) {
	vals := values[T](c, c.Rand(fmt.Sprintf("%T", T(0))))
	pair[T, int8](c, vals)
	pair[T, int16](c, vals)
	pair[T, int32](c, vals)
	pair[T, int64](c, vals)
	pair[T, int](c, vals)
	pair[T, uint8](c, vals)
	pair[T, uint16](c, vals)
	pair[T, uint32](c, vals)
	pair[T, uint64](c, vals)
	pair[T, uint](c, vals)
	pair[T, float32](c, vals)
	pair[T, float64](c, vals)
	name := fmt.Sprintf("%T and bool", T(0))
	if !convx.Exists[T, bool]() || !convx.Exists[bool, T]() {
		c.Violate("no converter between "+name, nil)
	}
	for _, v := range vals {
		if v != v {
			continue // not a number
		}
		c.Eval(1)
		got, ok := convx.Into[T, bool](v)
		if !ok || got != (v != 0) || convx.IntoOr[T, bool](v, !(v != 0)) != (v != 0) {
			c.Violate("conversion "+name, map[string]any{"value": fmt.Sprint(v), "got": got, "ok": ok})
		}
	}
	for _, b := range []bool{true, false} {
		want := T(0)
		if b {
			want = 1
		}
		got, ok := convx.Into[bool, T](b)
		if !ok || bitsOf(got) != bitsOf(want) || convx.IntoOr[bool, T](b, 7) != want {
			c.Violate("conversion "+name, map[string]any{"value": b, "got": fmt.Sprint(got), "ok": ok})
		}
	}
	c.Sample(map[string]any{"type": fmt.Sprintf("%T", T(0)), "values": len(vals), "some": fmt.Sprint(vals[len(vals)/2 : len(vals)/2+5])})
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one value converted from one type to another; all are non-trivial; distinct by pair and value (the first 3000 values of a pair are counted).", func(c *vk.C) {
		from[int8](c)
		from[int16](c)
		from[int32](c)
		from[int64](c)
		from[int](c)
		from[uint8](c)
		from[uint16](c)
		from[uint32](c)
		from[uint64](c)
		from[uint](c)
		from[float32](c)
		from[float64](c)
		for _, b := range []bool{true, false} {
			if got, ok := convx.Into[bool, bool](b); !ok || got != b {
				c.Violate("conversion bool -> bool", b)
			}
		}
	})
}
