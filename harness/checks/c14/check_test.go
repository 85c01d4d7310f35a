// C14: Split, Batch and Join against their definitions.
package c14

import (
	"fmt"
	"io"
	"math"
	"slices"
	"strings"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/dsx/slicex"

	"verifharness/seq"
	"verifharness/vk"
)

func ints(n int) []int {
	s := make([]int, n, n+3)
	for i := range s {
		s[i] = i + 1
	}
	return s
}

// joined compares Join with the elements as fmt prints them.
func joined[T any](c *vk.C, kind string, n int, sep string, mk func(int) T) {
	s := make(slicex.Slice[T], n)
	w := make([]string, n)
	for i := range s {
		s[i] = mk(i)
		w[i] = fmt.Sprintf("%v", s[i])
	}
	c.Eval(1)
	want := strings.Join(w, sep)
	c.Distinct(vk.HashS(kind + want))
	c.Count("joins_of_elements_of_many_types", 1)
	vk.Op()
	if got := s.Join(sep); got != want {
		c.Violate("Join differs from its definition", map[string]any{"type": fmt.Sprintf("%T", s), "elements": n, "separator": sep, "got": got, "want": want})
	}
}

type (
	point struct {
		X int
		s string
	}
	colour    int
	loud      string
	quiet     string
	byPointer struct{ n int }
	formatted struct{ n int }
	panics    struct{ n int }
	goSyntax  struct{ n int }
)

func (c colour) String() string                { return fmt.Sprint("colour ", int(c)) }
func (l loud) String() string                  { return strings.ToUpper(string(l)) + "!" }
func (p *byPointer) String() string            { return fmt.Sprint("at ", p.n) }
func (f formatted) Format(s fmt.State, v rune) { fmt.Fprintf(s, "<%c%d>", v, f.n) }
func (p panics) String() string                { panic("no text") }
func (g goSyntax) GoString() string            { return "go" }
func (g goSyntax) Error() string               { return fmt.Sprint("error ", g.n) }

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one slice length with one list of piece lengths, batch size or separator; the pieces are compared with the definition.", func(c *vk.C) {
		vk.SetBound(10000000)
		split := func(n int, lens []int) {
			c.Eval(1)
			c.Distinct(vk.HashS(fmt.Sprint("s", n, lens)))
			c.Context("Split%v of %d elements", lens, n)
			s := ints(n)
			vk.Op()
			got := slicex.Slice[int](s).Split(lens...)
			var want [][]int
			all := ints(n)
			end := 0
			for _, l := range lens {
				k := min(l, n-end)
				want = append(want, all[end:end+k])
				end += k
			}
			if end < n {
				want = append(want, all[end:])
			}
			same := len(got) == len(want)
			for i := 0; same && i < len(want); i++ {
				same = slices.Equal([]int(got[i]), want[i])
			}
			if !same {
				c.Violate("Split differs from its definition", map[string]any{"elements": n, "lengths": lens, "got": fmt.Sprint(got), "want": fmt.Sprint(want)})
			}
			if !slices.Equal(s[:cap(s)], all[:n+3]) {
				c.Violate("Split changes the slice", map[string]any{"elements": n, "lengths": lens, "slice": s})
			}
		}
		vals := []int{0, 1, 2, 3, 5, 9, math.MaxInt, math.MaxInt - 1, math.MaxInt/2 + 1}
		for n := 0; n <= 8; n++ {
			for k := 0; k <= c.N(4, 5); k++ {
				vk.Words(len(vals), k, func(w []int) {
					l := make([]int, k)
					for i, x := range w {
						l[i] = vals[x]
					}
					split(n, l)
				})
			}
		}
		r := c.Rand("split")
		for i := 0; i < c.N(3000, 50000); i++ {
			n := r.IntN(300)
			l := make([]int, r.IntN(30))
			for j := range l {
				l[j] = r.IntN(1 + r.IntN(40))
			}
			split(n, l)
		}
		batch := func(n, size int) {
			c.Eval(1)
			c.Distinct(vk.HashS(fmt.Sprint("b", n, size)))
			c.Context("Batch(%d) of %d elements", size, n)
			s := ints(n)
			vk.Op()
			got := slicex.Slice[int](s).Batch(size)
			b := max(size, 1)
			pos := 0
			for i, p := range got {
				want := min(b, n-pos)
				if len(p) != want || len(p) == 0 {
					c.Violate("Batch piece has the wrong length", map[string]any{"elements": n, "size": size, "piece": i, "got": fmt.Sprint(got)})
				}
				for _, v := range p {
					pos++
					if v != pos {
						c.Violate("Batch pieces are not consecutive", map[string]any{"elements": n, "size": size, "got": fmt.Sprint(got)})
					}
				}
			}
			if pos != n {
				c.Violate("Batch loses elements", map[string]any{"elements": n, "size": size, "got": fmt.Sprint(got)})
			}
			if !slices.Equal(s[:cap(s)], ints(n)[:n+3]) {
				c.Violate("Batch changes the slice", map[string]any{"elements": n, "size": size, "slice": s})
			}
		}
		for _, n := range []int{255, 256, 257, 4096, 32769, 65535, 65536, 65537, 140001} { // counts beyond 8, 16 and 17 bits
			for _, size := range []int{1, 2, 3, 7, 255, 256, 300, 32768, 65535, 65536, 65537, n - 1, n, n + 1} {
				batch(n, size)
			}
			for _, of := range []int{1, 2, 257, 65537} {
				l := make([]int, n/of+r.IntN(3))
				for j := range l {
					l[j] = max(0, of-r.IntN(3)/2)
				}
				split(n, l)
			}
			c.Count("large_slices", 1)
		}
		for n := 0; n <= c.N(80, 300); n++ {
			for size := -2; size <= n+2; size++ {
				batch(n, size)
			}
			for _, size := range []int{math.MinInt, math.MaxInt, math.MaxInt - 1, int(int64(1) << 32 & math.MaxInt)} {
				batch(n, size)
			}
		}
		join := func(parts []string, sep string) {
			c.Eval(1)
			c.Distinct(vk.HashS(fmt.Sprintf("j%q%q", parts, sep)))
			vk.Op()
			if got, want := slicex.Slice[string](append([]string{}, parts...)).Join(sep), strings.Join(parts, sep); got != want {
				c.Violate("Join differs from its definition", map[string]any{"elements": parts, "separator": sep, "got": got, "want": want})
			}
		}
		words := []string{"", "a", "bc", ",", "%d", "%", "日本", "\x00"}
		for n := 0; n <= 4; n++ {
			vk.Words(len(words), n, func(w []int) {
				p := make([]string, n)
				for i, x := range w {
					p[i] = words[x]
				}
				for _, sep := range []string{"", ",", ", ", "%s", "a"} {
					join(p, sep)
				}
			})
		}
		for n := 0; n < 60; n++ {
			var w []string
			for _, v := range ints(n) {
				w = append(w, fmt.Sprint(v))
			}
			if got := slicex.Slice[int](ints(n)).Join("-"); got != strings.Join(w, "-") {
				c.Violate("Join differs from its definition", map[string]any{"elements": n, "got": got})
			}
			c.Eval(1)
		}
		r = c.Rand("join")
		for i := 0; i < c.N(200, 5000); i++ {
			n := r.IntN(40)
			if i%50 == 0 {
				n = 300 + r.IntN(2000)
			}
			sep := []string{"", ",", " ", "\x00", "日"}[r.IntN(5)]
			fs, is := seq.Floats(r, n), seq.Ints(r, n)
			at := func(i int) float64 { return fs[i] }
			joined(c, "string", n, sep, func(i int) string { return seq.MkString(i) })
			joined(c, "float64", n, sep, at)
			joined(c, "float32", n, sep, func(i int) float32 { return float32(at(i)) })
			joined(c, "float32", n, sep, func(i int) float32 { return float32(i) / 10 })
			joined(c, "float64", n, sep, func(i int) float64 {
				return []float64{math.NaN(), math.Inf(1), 1e20, 1e21, 1e-5, 0.1, math.Copysign(0, -1)}[i%7]
			})
			joined(c, "complex", n, sep, func(i int) complex128 { return complex(at(i), 1) })
			joined(c, "complex64", n, sep, func(i int) complex64 { return complex(float32(i)/3, -1) })
			joined(c, "int64", n, sep, func(i int) int64 { return is[i] })
			joined(c, "int", n, sep, func(i int) int { return int(is[i]) })
			joined(c, "int32 or rune", n, sep, func(i int) int32 { return int32(is[i]) })
			joined(c, "int16", n, sep, func(i int) int16 { return int16(is[i]) })
			joined(c, "int8", n, sep, func(i int) int8 { return int8(is[i]) })
			joined(c, "uint64", n, sep, func(i int) uint64 { return uint64(is[i]) })
			joined(c, "uint", n, sep, func(i int) uint { return uint(is[i]) })
			joined(c, "uint32", n, sep, func(i int) uint32 { return uint32(is[i]) })
			joined(c, "uint16", n, sep, func(i int) uint16 { return uint16(is[i]) })
			joined(c, "byte", n, sep, func(i int) byte { return byte(is[i]) })
			joined(c, "uintptr", n, sep, func(i int) uintptr { return uintptr(is[i]) })
			joined(c, "bool", n, sep, func(i int) bool { return is[i]%2 == 0 })
			joined(c, "bytes", n, sep, func(i int) []byte { return []byte(seq.MkString(i)) })
			joined(c, "byte array", n, sep, func(i int) [3]byte { return [3]byte{byte(i), 0, 65} })
			joined(c, "runes", n, sep, func(i int) []rune { return []rune(seq.MkString(i)) })
			joined(c, "strings", n, sep, func(i int) []string { return []string{seq.MkString(i), "x y"} })
			joined(c, "slices", n, sep, func(i int) slicex.Slice[int] { return slicex.Slice[int]{i, 2} })
			joined(c, "pointers to slices", n, sep, func(i int) *slicex.Slice[int] { return slicex.New(i) })
			joined(c, "any", n, sep, seq.MkAny)
			joined(c, "error", n, sep, func(i int) error { return []error{nil, io.EOF, fmt.Errorf("%%d %w", io.EOF)}[i%3] })
			joined(c, "struct", n, sep, func(i int) point { return point{i, "p"} })
			joined(c, "pointers to structs", n, sep, func(i int) *point { return &point{i, "p"} })
			joined(c, "unit", n, sep, seq.MkUnit)
			joined(c, "map", n, sep, func(i int) map[string]int { return map[string]int{"b": i, "a": 1} })
			joined(c, "duration", n, sep, func(i int) time.Duration { return time.Duration(is[i]) })
			joined(c, "time", n, sep, func(i int) time.Time { return time.Unix(int64(i)*1e6, 0).UTC() })
			joined(c, "named number with its own text", n, sep, func(i int) colour { return colour(i) })
			joined(c, "named text with its own text", n, sep, func(i int) loud { return loud(seq.MkString(i)) })
			joined(c, "named text", n, sep, func(i int) quiet { return quiet(seq.MkString(i)) })
			joined(c, "own text by pointer, given by value", n, sep, func(i int) byPointer { return byPointer{i} })
			joined(c, "own text by pointer", n, sep, func(i int) *byPointer {
				if i%4 == 0 {
					return nil
				}
				return &byPointer{i}
			})
			joined(c, "own format", n, sep, func(i int) formatted { return formatted{i} })
			joined(c, "own text that panics", n, sep, func(i int) panics { return panics{i} })
			joined(c, "Go syntax", n, sep, func(i int) goSyntax { return goSyntax{i} })
		}
		for _, n := range []int{300, 66000} {
			p := make([]string, n)
			for i := range p {
				p[i] = words[(i%7)*(i%7)%7%len(words)]
			}
			join(p, "")
			join(p[:min(n, 33000)], "--")
		}
		join([]string{strings.Repeat("a", 1<<20), strings.Repeat("b", 70000)}, strings.Repeat(",", 66000))
		c.Sample("Split(2,0,9223372036854775807) of 5 elements: [1 2] [] [3 4 5]")
	})
}
