// C25: interval intersection against a brute-force definition.
package c25

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"testing"

	"github.com/unsafe-risk/utilx/timex/intersectionx"

	"verifharness/vk"
)

type iv = intersectionx.Interval

func depth(x int64, in []iv) int {
	n := 0
	for _, i := range in {
		if i.Offset-i.ConfidenceBand <= x && x <= i.Offset+i.ConfidenceBand {
			n++
		}
	}
	return n
}

// ideal: the span for the smallest admissible number f of falsetickers.
// The first and last point of a given depth are always interval ends.
func ideal(in []iv) (lo, hi int64, f int, ok bool) {
	n := len(in)
	var ends []int64
	for _, i := range in {
		ends = append(ends, i.Offset-i.ConfidenceBand, i.Offset+i.ConfidenceBand)
	}
	sort.Slice(ends, func(i, j int) bool { return ends[i] < ends[j] })
	deep := make([]int, len(ends))
	if n < 50 {
		for i, e := range ends {
			deep[i] = depth(e, in)
		}
	} else {
		var los, his []int64
		for _, i := range in {
			los = append(los, i.Offset-i.ConfidenceBand)
			his = append(his, i.Offset+i.ConfidenceBand)
		}
		slices.Sort(los)
		slices.Sort(his)
		for i, e := range ends {
			deep[i] = sort.Search(n, func(k int) bool { return los[k] > e }) - sort.Search(n, func(k int) bool { return his[k] >= e })
		}
	}
	for f = 0; f < n/2; f++ {
		found := false
		for i, e := range ends {
			if deep[i] >= n-f {
				if !found {
					lo = e
				}
				hi, found = e, true
			}
		}
		if !found {
			continue
		}
		out := 0
		for _, i := range in {
			if i.Offset < lo || i.Offset > hi {
				out++
			}
		}
		if out <= f {
			return lo, hi, f, true
		}
	}
	return 0, 0, 0, false
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one list of intervals compared with the brute-force definition; distinct by its intervals, non-trivial when the definition yields a span with at least one falseticker or none at all.", func(c *vk.C) {
		vk.SetBound(1000000000)
		one := func(in []iv) {
			vk.Op()
			c.Eval(1)
			a, b, ok := intersectionx.Intersection(in...)
			d := func() any {
				return map[string]any{"intervals": fmt.Sprintf("%v (offset, half-width)", in), "got": fmt.Sprint(a, b, ok)}
			}
			switch len(in) {
			case 0:
				if ok {
					c.Violate("no interval, but success", d())
				}
				return
			case 1:
				if !ok || a != in[0].Offset-in[0].ConfidenceBand || b != in[0].Offset+in[0].ConfidenceBand {
					c.Violate("one interval does not return itself", d())
				}
				return
			}
			lo, hi, f, want := ideal(in)
			if want && (!ok || a != lo || b != hi) {
				c.Violate(fmt.Sprintf("the definition gives %d..%d with %d falsetickers", lo, hi, f), d())
			}
			if ok && (a > b || 2*depth(a, in) <= len(in) || 2*depth(b, in) <= len(in)) {
				c.Violate("success, but the span is empty or its ends lie in no majority", d())
			}
			c.Count(fmt.Sprintf("success_%v", want), 1)
			if want {
				c.Count(fmt.Sprintf("falsetickers_%d", min(f, 5)), 1)
			}
			if !want || f > 0 {
				c.Distinct(vk.Hash(in))
			}
		}
		// all orders are the same to it
		orders := func(r *rand.Rand, in []iv) {
			a, b, ok := intersectionx.Intersection(in...)
			for k := 0; k < 3; k++ {
				p := append([]iv{}, in...)
				r.Shuffle(len(p), func(i, j int) { p[i], p[j] = p[j], p[i] })
				q := append([]iv{}, p...)
				x, y, o := intersectionx.Intersection(p...)
				if o != ok || ok && (x != a || y != b) {
					c.Violate("the result depends on the order of the arguments", map[string]any{"intervals": fmt.Sprint(in), "got": fmt.Sprint(a, b, ok), "permuted": fmt.Sprint(q), "got_permuted": fmt.Sprint(x, y, o)})
				}
				if fmt.Sprint(p) != fmt.Sprint(q) {
					c.Violate("the caller's intervals were changed", map[string]any{"before": fmt.Sprint(q), "after": fmt.Sprint(p)})
				}
			}
		}
		r := c.Rand("iv")
		one(nil)
		var all []iv
		for o := int64(-1); o < 4; o++ {
			for b := int64(0); b < 3; b++ {
				all = append(all, iv{Offset: o, ConfidenceBand: b})
			}
		}
		for n := 1; n <= c.N(4, 5); n++ {
			vk.Words(len(all), n, func(w []int) {
				in := make([]iv, n)
				for i, x := range w {
					in[i] = all[x]
				}
				one(in)
			})
		}
		gen := func() []iv {
			n := 1 + r.IntN(9)
			if r.IntN(10) == 0 {
				n = 1 + r.IntN(40)
			}
			in := make([]iv, n)
			scale := []int64{3, 10, 100, 1 << 20, 1 << 60}[r.IntN(5)]
			base := r.Int64N(2*scale) - scale
			for i := range in {
				switch r.IntN(5) {
				case 0: // falseticker
					in[i] = iv{Offset: base + r.Int64N(4*scale/4+1) - scale/2, ConfidenceBand: r.Int64N(scale/4 + 1)}
				case 1: // touching ends
					in[i] = iv{Offset: base + scale/4, ConfidenceBand: scale / 8}
				case 2:
					in[i] = iv{Offset: base, ConfidenceBand: 0}
				default:
					in[i] = iv{Offset: base + r.Int64N(scale/8+2) - scale/16, ConfidenceBand: r.Int64N(scale/4 + 1)}
				}
				if i > 0 && r.IntN(6) == 0 {
					in[i] = in[r.IntN(i)]
				}
			}
			return in
		}
		for i := 0; i < c.N(300000, 8000000); i++ {
			in := gen()
			one(in)
			if i%8 == 0 {
				orders(r, in)
			}
		}
		// Hundreds and thousands of sources, few to most of them wrong.
		for _, n := range []int{127, 128, 255, 256, 257, 300, 384, 512, 767, 768, 769, 1000, c.N(1536, 10000)} {
			for _, wrong := range []int{0, 1, n / 4, n/2 - 1, n / 2, n/2 + 1, n - 3} {
				in := make([]iv, n)
				for i := range in {
					in[i] = iv{Offset: 1000 + r.Int64N(200), ConfidenceBand: 150 + r.Int64N(300)}
					if i < wrong {
						in[i] = iv{Offset: 5000 + 1000*int64(i) + r.Int64N(200), ConfidenceBand: r.Int64N(900)}
						if r.IntN(4) == 0 {
							in[i].Offset *= -1
						}
					}
				}
				r.Shuffle(n, func(i, j int) { in[i], in[j] = in[j], in[i] })
				one(in)
				orders(r, in)
				c.Max("most_sources", n)
			}
		}
		// anywhere in the 64-bit range (as long as the ends are in it)
		wide := func() []iv {
			in := make([]iv, 1+r.IntN(8))
			room := func(o int64) int64 {
				if o < 0 {
					return o - math.MinInt64
				}
				return math.MaxInt64 - o
			}
			for i := range in {
				o := int64(r.Uint64()) >> r.IntN(3)
				switch r.IntN(6) {
				case 0:
					o = math.MaxInt64 - r.Int64N(5)
				case 1:
					o = math.MinInt64 + r.Int64N(5)
				}
				if i > 0 && r.IntN(3) == 0 { // near an earlier one
					near := in[r.IntN(i)].Offset
					o = near + min(room(near), int64(r.IntN(100)))
				}
				b := room(o)
				if b > 0 && r.IntN(4) > 0 {
					b = r.Int64N(b) >> r.IntN(8)
				}
				in[i] = iv{Offset: o, ConfidenceBand: b}
			}
			return in
		}
		for i := 0; i < c.N(100000, 2000000); i++ {
			in := wide()
			one(in)
			c.Count("whole_64_bit_range", 1)
			if i%8 == 0 {
				orders(r, in)
			}
		}
		c.Sample(fmt.Sprint("intervals [{0 2} {1 2} {10 1} {0 1}]: ", func() string {
			a, b, ok := intersectionx.Intersection(iv{Offset: 0, ConfidenceBand: 2}, iv{Offset: 1, ConfidenceBand: 2}, iv{Offset: 10, ConfidenceBand: 1}, iv{Offset: 0, ConfidenceBand: 1})
			return fmt.Sprint(a, b, ok)
		}()))
	})
}
