// C37: text conversions.
package c37

import (
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"reflect"
	"strconv"
	"strings"
	"testing"
	"unicode/utf8"

	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

type integer interface {
	int8 | int16 | int32 | int64 | int | uint8 | uint16 | uint32 | uint64 | uint
}

type float interface{ float32 | float64 }

func ints[T integer](c *vk.C) {
	r := c.Rand(fmt.Sprintf("%T", T(0)))
	k := reflect.TypeOf(T(0))
	bits := uint(k.Size()) * 8
	signed := k.Kind() <= reflect.Int64
	lo, hi := big.NewInt(0), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits), big.NewInt(1))
	if signed {
		lo = new(big.Int).Neg(new(big.Int).Lsh(big.NewInt(1), bits-1))
		hi = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), bits-1), big.NewInt(1))
	}
	value := func(b *big.Int) T {
		if signed {
			return T(b.Int64())
		}
		return T(b.Uint64())
	}
	one := func(b *big.Int) {
		v := value(b)
		want := b.String() // independent of strconv
		got, ok := convx.Into[T, string](v)
		if !ok || got != want {
			c.Violate(fmt.Sprintf("text of a %T", v), map[string]any{"value": want, "got": got, "ok": ok})
		}
		texts := []string{want}
		if r.IntN(4) == 0 {
			s := strings.TrimPrefix(want, "-")
			z := strings.Repeat("0", r.IntN(30)) + s
			if b.Sign() < 0 {
				texts = append(texts, "-"+z)
			} else {
				texts = append(texts, z)
				if signed {
					texts = append(texts, "+"+z)
				}
			}
		}
		for _, s := range texts {
			back, ok := convx.Into[string, T](s)
			if !ok || back != v {
				c.Violate(fmt.Sprintf("%T from text", v), map[string]any{"text": s, "got": fmt.Sprint(back), "ok": ok})
			}
		}
		if convx.IntoOr[string, T](want, v+1) != v || convx.IntoOr[T, string](v, "?") != want {
			c.Violate(fmt.Sprintf("IntoOr between %T and text", v), map[string]any{"value": want})
		}
		c.Eval(len(texts) + 1)
		c.Distinct(vk.HashS(fmt.Sprintf("%T %s", v, want)))
	}
	if bits <= 16 {
		for b := new(big.Int).Set(lo); b.Cmp(hi) <= 0; b.Add(b, big.NewInt(1)) {
			one(b)
		}
		return
	}
	in := func(b *big.Int) {
		if b.Cmp(lo) >= 0 && b.Cmp(hi) <= 0 {
			one(b)
		}
	}
	for p := uint(0); p <= bits; p++ {
		for d := int64(-2); d <= 2; d++ {
			b := new(big.Int).Lsh(big.NewInt(1), p)
			b.Add(b, big.NewInt(d))
			in(b)
			in(new(big.Int).Neg(b))
		}
	}
	for p := int64(1); p < 20; p++ {
		for d := int64(-1); d <= 1; d++ {
			b := new(big.Int).Exp(big.NewInt(10), big.NewInt(p), nil)
			b.Add(b, big.NewInt(d))
			in(b)
			in(new(big.Int).Neg(b))
		}
	}
	for i := 0; i < c.N(20000, 1000000); i++ {
		b := new(big.Int).SetUint64(r.Uint64() >> r.IntN(64))
		in(b)
		in(b.Neg(b))
	}
}

func floats[T float](c *vk.C) {
	r := c.Rand(fmt.Sprintf("%T", T(0)))
	_, is32 := any(T(0)).(float32)
	one := func(v T) {
		want := strconv.FormatFloat(float64(v), 'f', -1, 64)
		got, ok := convx.Into[T, string](v)
		if !ok || got != want {
			c.Violate(fmt.Sprintf("text of a %T", v), map[string]any{"value": fmt.Sprintf("%b", v), "got": got, "want": want})
		}
		back, ok := convx.Into[string, T](want)
		same := back == v && math.Signbit(float64(back)) == math.Signbit(float64(v)) || back != back && v != v
		if !ok || !same {
			c.Violate(fmt.Sprintf("%T does not survive the way through text", v), map[string]any{"value": fmt.Sprintf("%b", v), "text": want, "back": fmt.Sprintf("%b", back)})
		}
		c.Eval(2)
		c.Distinct(vk.HashS(fmt.Sprintf("%T %b", v, v)))
	}
	for _, f := range []float64{0, math.Copysign(0, -1), 0.1, 1, 1e21, 1e22, 1e-7, 123456789, math.MaxFloat32, math.SmallestNonzeroFloat32, math.Pi, 16777216, math.Inf(1), math.Inf(-1), math.NaN(), 5e-324, math.MaxFloat64, 2.2250738585072014e-308} {
		one(T(f))
		one(T(-f))
	}
	for i := 0; i < c.N(30000, 2000000); i++ {
		switch {
		case r.IntN(3) == 0:
			one(T(float64(r.IntN(2000000)-1000000) / math.Pow(10, float64(r.IntN(8)))))
		case is32:
			one(T(math.Float32frombits(r.Uint32())))
		default:
			one(T(math.Float64frombits(r.Uint64())))
		}
	}
	// decimal texts: the nearest number of the type
	for i := 0; i < c.N(20000, 500000); i++ {
		n := 1 + r.IntN(25)
		var b strings.Builder
		if r.IntN(2) == 0 {
			b.WriteByte('-')
		}
		dot := r.IntN(n + 1)
		for j := 0; j < n; j++ {
			if j == dot && j > 0 {
				b.WriteByte('.')
			}
			b.WriteByte(byte('0' + r.IntN(10)))
		}
		s := b.String()
		got, ok := convx.Into[string, T](s)
		exact, _, err := big.ParseFloat(s, 10, 400, big.ToNearestEven)
		if err != nil {
			panic(err)
		}
		f64, _ := exact.Float64()
		f32, _ := exact.Float32()
		if !ok || is32 && got != T(f32) && got != T(float32(f64)) || !is32 && got != T(f64) {
			c.Violate(fmt.Sprintf("%T from decimal text", got), map[string]any{"text": s, "got": fmt.Sprint(got), "want": f64})
		}
		c.Eval(1)
	}
}

func randString(r *rand.Rand) string {
	var b []byte
	for n := r.IntN(40); n > 0; n-- {
		switch r.IntN(6) {
		case 0:
			b = append(b, byte(r.IntN(256)))
		case 1:
			b = utf8.AppendRune(b, rune(r.IntN(0x110000)))
		case 2:
			b = append(b, 0xed, byte(0xa0+r.IntN(32)), byte(0x80+r.IntN(64))) // surrogate bytes
		default:
			b = utf8.AppendRune(b, []rune{'a', 'é', '가', '😀', 0, 0xfffd, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0x10ffff}[r.IntN(13)])
		}
	}
	return string(b)
}

func texts(c *vk.C) {
	r := c.Rand("texts")
	sizes := []int{255, 256, 257, 4095, 4097, 65535, 65536, 65537, 140000, 1<<20 + 3}
	for i := -len(sizes); i < c.N(40000, 2000000); i++ {
		s := randString(r)
		if i < 0 { // long texts, mixed or plain
			n := sizes[-1-i]
			var b strings.Builder
			for b.Len() < n {
				if i%2 == 0 {
					b.WriteString(randString(r))
				} else {
					b.WriteByte(byte('a' + b.Len()%26))
				}
			}
			s = b.String()[:n]
			c.Max("longest_text", n)
		}
		keep := strings.Clone(s)
		fail := func(what string, got any) {
			c.Violate(what, map[string]any{"text": fmt.Sprintf("%q", keep), "got": fmt.Sprintf("%q", got)})
		}
		b, ok := convx.Into[string, []byte](s)
		if !ok || string(b) != keep || len(b) != len(keep) {
			fail("string to bytes", b)
		}
		for j := range b {
			b[j] ^= 0x55
		}
		if b2 := append(b, 'x'); len(b2) != len(s)+1 || s != keep {
			fail("the byte slice shares memory with the string", s)
		}
		in := []byte(keep)
		s2, ok := convx.Into[[]byte, string](in)
		if !ok || s2 != keep {
			fail("bytes to string", s2)
		}
		for j := range in {
			in[j] ^= 0x55
		}
		if s2 != keep {
			fail("the string shares memory with the byte slice", s2)
		}
		rs, ok := convx.Into[string, []rune](s)
		want := []rune(keep)
		if !ok || len(rs) != len(want) {
			fail("string to runes", rs)
		}
		for j := range want {
			if rs[j] != want[j] {
				fail("string to runes", rs)
			}
		}
		for j := 0; j < 3; j++ { // also values that are no characters
			want = append(want, []rune{-1, 0xd800, 0xdfff, 0x110000, math.MaxInt32, math.MinInt32, 'k'}[r.IntN(7)])
		}
		orig := append([]rune{}, want...)
		s3, ok := convx.Into[[]rune, string](want)
		if !ok || s3 != string(orig) {
			fail("runes to string", s3)
		}
		if s4, ok := convx.Into[string, string](s); !ok || s4 != keep {
			fail("string to string", s4)
		}
		bb := []byte(keep)
		if x, ok := convx.Into[[]byte, []byte](bb); !ok || string(x) != keep {
			fail("bytes to bytes", x)
		}
		if x, ok := convx.Into[[]rune, []rune](orig); !ok || string(x) != string(want) {
			fail("runes to runes", x)
		}
		if convx.IntoOr[string, []byte](s, nil) == nil && len(s) > 0 || convx.IntoOr[[]byte, string]([]byte(keep), "?"+keep) != keep {
			fail("IntoOr between string and bytes", s)
		}
		c.Eval(7)
		c.Distinct(vk.HashS(keep))
		if i < 400 && len(keep) > 20 {
			c.Sample(fmt.Sprintf("%q", keep))
		}
	}
	for _, b := range []bool{true, false} {
		w := "false"
		if b {
			w = "true"
		}
		s, ok := convx.Into[bool, string](b)
		back, ok2 := convx.Into[string, bool](s)
		if !ok || !ok2 || s != w || back != b {
			c.Violate("bool and text", map[string]any{"value": b, "text": s, "back": back})
		}
	}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one value or text and its conversions; all are non-trivial; distinct by type and value.", func(c *vk.C) {
		ints[int8](c)
		ints[int16](c)
		ints[int32](c)
		ints[int64](c)
		ints[int](c)
		ints[uint8](c)
		ints[uint16](c)
		ints[uint32](c)
		ints[uint64](c)
		ints[uint](c)
		floats[float32](c)
		floats[float64](c)
		texts(c)
	})
}
