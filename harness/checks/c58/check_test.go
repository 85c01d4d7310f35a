// C58: Shuffle puts a slice into every order with the same probability,
// independently of everything else. The orders it produces are counted and
// compared with the uniform distribution; every bound is so wide that a fair
// shuffle crosses one of them less than once in 10^9 runs.
package c58

import (
	"fmt"
	"math"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/slicex"

	"verifharness/vk"
)

const far = 7.5 // standard deviations

// z is the distance of a chi-square statistic from its mean in standard
// deviations of (almost) a normal distribution (Wilson and Hilferty).
func z(chi2, df float64) float64 {
	return (math.Cbrt(chi2/df) - (1 - 2/(9*df))) / math.Sqrt(2/(9*df))
}

type big struct {
	name string
	id   int
	pad  [5]uint64
}

// source makes orders: next returns the order Shuffle gave the positions
// 0..n-1 of a slice of n elements (order[p] is the former position of the
// element at p).
type source struct {
	name string
	make func(n int) func() []int
}

func fresh[T any](to func(int) T, from func(T) int, spare int) func(n int) func() []int {
	return func(n int) func() []int {
		out := make([]int, n)
		s := make([]T, n, n+spare)
		return func() []int {
			s = s[:n]
			for i := range s {
				s[i] = to(i)
			}
			x := slicex.Slice[T](s)
			r := *x.Shuffle()
			if len(r) != n || len(x) != n {
				panic(fmt.Sprint("Shuffle changed the length: ", n, len(r)))
			}
			for i, v := range r {
				out[i] = from(v)
			}
			return out
		}
	}
}

func again(n int) func() []int { // the same slice over and over
	s := make(slicex.Slice[int], n)
	at, out := make([]int, n), make([]int, n)
	for i := range s {
		s[i] = i
	}
	return func() []int {
		for p, v := range s {
			at[v] = p
		}
		s.Shuffle()
		for p, v := range s {
			out[p] = at[v]
		}
		return out
	}
}

// window shuffles a part of a longer array.
func window(n int) func() []int {
	all := make([]int, n+7)
	out := make([]int, n)
	return func() []int {
		for i := range all {
			all[i] = i - 3
		}
		w := slicex.Slice[int](all[3 : 3+n])
		copy(out, *w.Shuffle())
		return out
	}
}

func sources() []source {
	ident := func(i int) int { return i }
	ptr := make([]int, 1<<17)
	for i := range ptr {
		ptr[i] = i
	}
	return []source{
		{"ints in a slice without spare capacity", fresh(ident, ident, 0)},
		{"ints in a slice with spare capacity", fresh(ident, ident, 9)},
		{"the same slice again and again", again},
		{"a window of a longer array", window},
		{"bytes", fresh(func(i int) [2]byte { return [2]byte{byte(i), byte(i >> 8)} }, func(b [2]byte) int { return int(b[0]) | int(b[1])<<8 }, 3)},
		{"strings", fresh(func(i int) string { return strings.Repeat("a", i) }, func(s string) int { return len(s) }, 0)},
		{"structs", fresh(func(i int) big { return big{"x", i, [5]uint64{uint64(i)}} }, func(b big) int { return b.id }, 1)},
		{"pointers", fresh(func(i int) *int { return &ptr[i] }, func(p *int) int { return *p }, 0)},
	}
}

func check(order []int) error {
	seen := make([]bool, len(order))
	for _, v := range order {
		if v < 0 || v >= len(order) || seen[v] {
			return fmt.Errorf("not a permutation: %v", order)
		}
		seen[v] = true
	}
	return nil
}

// rank numbers the orders of n elements.
func rank(order []int) int {
	k := 0
	for i, v := range order {
		less := 0
		for _, w := range order[i+1:] {
			if w < v {
				less++
			}
		}
		k = k*(len(order)-i) + less
	}
	return k
}

func odd(order []int) int {
	seen := make([]bool, len(order))
	p := len(order)
	for i := range order {
		if !seen[i] {
			p--
			for j := i; !seen[j]; j = order[j] {
				seen[j] = true
			}
		}
	}
	return p & 1
}

type suite struct{ *vk.C }

// even reports counts that are not those of equally likely outcomes.
func (s *suite) even(what string, counts []int, scale float64, df float64, both bool, detail any) {
	n := 0
	for _, k := range counts {
		n += k
	}
	e := float64(n) / float64(len(counts))
	chi2 := 0.0
	for _, k := range counts {
		chi2 += (float64(k) - e) * (float64(k) - e) / e
	}
	d := z(chi2*scale, df)
	s.Eval(1)
	s.Max("largest_deviation_in_hundredths", int(math.Abs(d)*100))
	s.Count("compared: "+strings.SplitN(what, ":", 2)[0], 1)
	if d > far || both && d < -far {
		if len(counts) > 150 {
			counts = counts[:150]
		}
		s.Violate("orders are not equally likely: "+what, map[string]any{"case": detail, "counts": counts, "expected_each": e, "chi_square": chi2 * scale, "degrees_of_freedom": df, "deviation_in_standard_deviations": d})
	}
}

// coin reports a count far from n*p.
func (s *suite) coin(what string, hits, n int, p float64, detail any) {
	e, d := float64(n)*p, math.Sqrt(float64(n)*p*(1-p))
	s.Eval(1)
	s.Count("compared: "+what, 1)
	if math.Abs(float64(hits)-e) > far*d+3 {
		s.Violate("orders are not equally likely: "+what, map[string]any{"case": detail, "count": hits, "of": n, "expected": e, "standard_deviation": d})
	}
}

func fact(n int) int {
	if n < 2 {
		return 1
	}
	return n * fact(n-1)
}

// small counts every order of few elements, and pairs of successive orders.
func (s *suite) small(src source, n, per int) {
	f := fact(n)
	counts := make([]int, f)
	var pairs []int
	if f*f <= 600 {
		pairs = make([]int, f*f)
	}
	next := src.make(n)
	last := 0
	for i := 0; i < f*per; i++ {
		vk.Tick()
		o := next()
		if err := check(o); err != nil {
			s.Violate("Shuffle loses elements", map[string]any{"case": src.name, "n": n, "order": o})
		}
		k := rank(o)
		counts[k]++
		if pairs != nil {
			if i%2 == 1 {
				pairs[last*f+k]++
			}
			last = k
		}
		s.Distinct(uint64(n)<<32 | uint64(k))
	}
	s.Count("shuffles", f*per)
	d := map[string]any{"slices": src.name, "length": n}
	s.even("all orders of few elements", counts, 1, float64(f-1), true, d)
	if pairs != nil {
		s.even("two shuffles in a row", pairs, 1, float64(f*f-1), true, d)
	}
}

// large counts where the elements of longer slices go.
func (s *suite) large(src source, n, times int) {
	b := n
	for b > 40 {
		b = 20
	}
	for n%b != 0 {
		b--
	}
	if b < 2 {
		b = 0 // prime: no equal buckets; the other statistics remain
	}
	matrix := make([]int, b*b)
	bucket := 1
	if b > 0 {
		bucket = n / b
	}
	parity := 0
	fixed, follow := 0, 0
	first, lastp := make([]int, 8), make([]int, 8)
	firsts := make([]int, 64)
	lf := 0
	seen := map[uint64]int{}
	repeats := 0
	next := src.make(n)
	for i := 0; i < times; i++ {
		vk.Tick()
		o := next()
		if err := check(o); err != nil {
			s.Violate("Shuffle loses elements", map[string]any{"case": src.name, "n": n, "order": o})
		}
		h := uint64(14695981039346656037)
		for p, v := range o {
			if b > 0 {
				matrix[p/bucket*b+v/bucket]++
			}
			if p == v {
				fixed++
			}
			if p > 0 && v == o[p-1]+1 {
				follow++
			}
			h = (h ^ uint64(v)) * 1099511628211
		}
		parity += odd(o)
		f := o[0] * 8 / n
		first[f]++
		lastp[o[n-1]*8/n]++
		if i%2 == 1 {
			firsts[lf*8+f]++
		}
		lf = f
		if n >= 20 {
			if _, ok := seen[h]; ok {
				repeats++
			}
			seen[h] = i
		}
		s.Distinct(h)
	}
	s.Count("shuffles", times)
	d := map[string]any{"slices": src.name, "length": n, "shuffles": times}
	if b > 0 && float64(times)*float64(n)/float64(b*b) >= 8 {
		s.even("where elements go", matrix, float64(n-1)/float64(n), float64((b-1)*(b-1)), true, d)
	}
	if times >= 100 {
		s.coin("odd and even orders", parity, times, 0.5, d)
		if n%8 == 0 {
			s.even("which element comes first", first, 1, 7, true, d)
			s.even("which element comes last", lastp, 1, 7, true, d)
			if times >= 1000 {
				s.even("first elements of two shuffles in a row", firsts, 1, 63, true, d)
			}
		}
		// The numbers of elements that stay and of neighbours that stay
		// neighbours are almost Poisson distributed with means 1, (n-1)/n.
		for _, k := range []struct {
			what string
			got  int
			mean float64
		}{{"elements that stay", fixed, 1}, {"neighbours that stay", follow, float64(n-1) / float64(n)}} {
			e := k.mean * float64(times)
			if math.Abs(float64(k.got)-e) > far*math.Sqrt(e)+10 {
				s.Violate("orders are not equally likely: "+k.what, map[string]any{"case": d, "count": k.got, "expected": e})
			}
			s.Eval(1)
		}
	}
	if repeats > 2 {
		s.Violate("orders of long slices are repeated", map[string]any{"case": d, "repeated": repeats})
	}
}

// parallel: slices shuffled at the same time get independent orders.
func (s *suite) parallel(n, workers, times int) {
	seen := map[string]int{}
	repeats := 0
	parity, agree, all := 0, 0, 0
	lists := make([][][]int, workers)
	var wg sync.WaitGroup
	start := make(chan struct{})
	for w := range lists {
		wg.Add(1)
		go func() {
			defer wg.Done()
			next := sources()[w%4].make(n)
			<-start
			for i := 0; i < times; i++ {
				lists[w] = append(lists[w], append([]int(nil), next()...))
				vk.Tick()
			}
		}()
	}
	close(start)
	wg.Wait()
	matrix := make([]int, n*n)
	for i := 0; i < times; i++ {
		for w := range lists {
			o := lists[w][i]
			if err := check(o); err != nil {
				s.Violate("Shuffle loses elements", map[string]any{"case": "several goroutines", "n": n, "order": o})
			}
			k := fmt.Sprint(o)
			if _, ok := seen[k]; ok {
				repeats++
			}
			seen[k] = i
			s.Distinct(vk.HashS(k))
			parity += odd(o)
			for p, v := range o {
				matrix[p*n+v]++
			}
			if v := (w + 1) % workers; o[0] == lists[v][i][0] {
				agree++
			}
			all++
		}
	}
	d := map[string]any{"goroutines": workers, "length": n, "shuffles_each": times}
	s.Count("shuffles", all)
	s.Count("shuffles_at_the_same_time", all)
	if repeats > 2 {
		s.Violate("slices shuffled at the same time get the same orders", map[string]any{"case": d, "repeated": repeats})
	}
	s.coin("odd and even orders", parity, all, 0.5, d)
	s.coin("first elements of two slices shuffled at the same time", agree, all, 1/float64(n), d)
	s.even("where elements go", matrix, float64(n-1)/float64(n), float64((n-1)*(n-1)), true, d)
}

func line() string {
	s := make(slicex.Slice[int], 24)
	for i := range s {
		s[i] = i
	}
	return fmt.Sprint(*s.Shuffle())
}

// processes: another run of the program gets another order.
func (s *suite) processes(n int) {
	outs, errs := make([][]byte, n), make([]error, n)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-test.run=^TestCheck$")
			cmd.Env = append(os.Environ(), "VK_CHILD=1")
			outs[i], errs[i] = cmd.CombinedOutput()
			vk.Tick()
		}()
	}
	wg.Wait()
	seen := map[string]int{}
	for i, o := range outs {
		got := ""
		for _, l := range strings.Split(string(o), "\n") {
			if strings.HasPrefix(l, "order ") {
				got = l
			}
		}
		if got == "" {
			panic(fmt.Sprint("no order from a child: ", errs[i], " ", string(o)))
		}
		if j, ok := seen[got]; ok {
			s.Violate("two runs of a program shuffle alike", map[string]any{"runs": []int{j, i}, "order": got})
		}
		seen[got] = i
		s.Eval(1)
		s.Distinct(vk.HashS(got))
		s.Count("processes", 1)
	}
}

func TestCheck(t *testing.T) {
	if os.Getenv("VK_CHILD") != "" {
		fmt.Println("order " + line())
		return
	}
	vk.Run(t, "A case is one distribution of orders compared with the uniform one; distinct by order.", func(c *vk.C) {
		s := &suite{c}
		if c.Phase == "race" {
			s.parallel(20, 6, c.N(600, 20000))
			return
		}
		c.Assume("statistical bounds of 7.5 standard deviations (less than one false alarm in 10^10 comparisons)")
		for _, src := range sources() {
			s.Context("few elements: %s", src.name)
			for n := 2; n <= 6; n++ {
				per := c.N(1500, 20000)
				if n == 2 {
					per *= 10
				}
				s.small(src, n, per)
			}
			for _, n := range []int{8, 12, 16, 20, 24, 32, 33, 40, 64, 100, 128, 256, 257, 1000, 1024, 4096} {
				s.Context("%d elements: %s", n, src.name)
				if strings.HasPrefix(src.name, "strings") && n > 1024 {
					continue
				}
				s.large(src, n, c.N(max(200, min(20000, 2000000/n)), max(2000, min(300000, 30000000/n))))
			}
		}
		for _, n := range []int{10000, 65536, 65540, 100000} {
			for _, src := range sources()[:4] {
				s.Context("%d elements: %s", n, src.name)
				s.large(src, n, c.N(20, 400))
			}
		}
		s.Context("at the same time")
		for _, w := range []int{2, 8, 32} {
			s.parallel(20, w, c.N(20000, 200000)/w)
		}
		s.Context("other processes")
		s.processes(c.N(24, 200))
	})
}
