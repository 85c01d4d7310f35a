// C18: lazy values under concurrent Get.
package c18

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/functionalx/lazyx"

	"verifharness/seq"
	"verifharness/vk"
)

type big struct {
	a, b, c, d int
	p          *[64]int
	s          string
	m          map[int]int
}

func build(x int) big {
	v := big{a: x, b: x, c: x, d: x, p: new([64]int), s: fmt.Sprint(x), m: map[int]int{x: x}}
	for i := range v.p {
		v.p[i] = x
	}
	return v
}

func good(v big, x int) bool {
	if v.a != x || v.b != x || v.c != x || v.d != x || v.p == nil || v.s != fmt.Sprint(x) || v.m[x] != x {
		return false
	}
	for _, y := range v.p {
		if y != x {
			return false
		}
	}
	return true
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one lazy value shared by several goroutines under a perturbed schedule; non-trivial when more than one goroutine had called Get before the constructor finished; distinct by seed and shape.", func(c *vk.C) {
		r := c.Rand("lazy", len(c.Phase))
		if c.Phase == "race" {
			race(c)
			return
		}
		if c.Phase == "long" {
			long(c)
			return
		}
		// sequential: not before the first Get, once, for many types
		seqOnce(c, 0)
		seqOnce(c, "")
		seqOnce(c, "x")
		seqOnce(c, (*int)(nil))
		seqOnce(c, error(nil))
		seqOnce(c, struct{}{})
		seqOnce(c, false)
		for i := 0; i < 40; i++ {
			seqOnce(c, seq.MkSlice(i))
			seqOnce(c, seq.MkMap(i))
			seqOnce(c, seq.MkFunc(i))
			seqOnce(c, seq.MkChan(i))
			seqOnce(c, seq.MkFloat(i))
			seqOnce(c, seq.MkComplex(i))
			seqOnce(c, seq.MkLoose(i))
			seqOnce(c, seq.MkLooseAny(i))
			seqOnce(c, seq.MkAny(i))
			seqOnce(c, seq.MkErr(i))
			seqOnce(c, seq.MkMixed(i))
			seqOnce(c, seq.MkBig(i))
			seqOnce(c, seq.MkHuge(i))
			seqOnce(c, seq.MkOdd(i))
		}
		// many calls and many callers
		{
			runs := 0
			l := lazyx.New(func() *int { runs++; return &runs })
			for i := 0; i < c.N(1200000, 20000000); i++ {
				if p := l.Get(); p != &runs || runs != 1 {
					c.Violate("Get does not return what the one run of the constructor produced", map[string]any{"call": i + 1, "constructor_runs": runs})
				}
			}
			c.Eval(1)
		}
		for _, callers := range []int{300, 3000, c.N(20000, 100000)} {
			vk.Perturb(r.Uint64(), 1)
			var runs, entered, early atomic.Int64
			var done atomic.Bool
			l := lazyx.New(func() *int {
				runs.Add(1)
				for i := 0; i < 4*callers && entered.Load() < int64(callers); i++ {
					runtime.Gosched()
				}
				c.Max("most_callers_during_construction", int(entered.Load())-1)
				done.Store(true)
				return new(int)
			})
			got := make([]*int, callers)
			var wg sync.WaitGroup
			for g := 0; g < callers; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					entered.Add(1)
					got[g] = l.Get()
					if !done.Load() {
						early.Add(1)
					}
				}()
			}
			wg.Wait()
			for g := range got {
				if got[g] == nil || got[g] != got[0] || runs.Load() != 1 || early.Load() != 0 {
					c.Violate("of many callers one did not get the one value that the one run of the constructor produced", map[string]any{"callers": callers, "caller": g, "constructor_runs": runs.Load(), "gets_before_the_constructor_finished": early.Load()})
				}
			}
			c.Eval(1)
			c.Distinct(uint64(callers) << 32)
			vk.Tick()
		}
		for round := 0; round < c.N(6000, 300000); round++ {
			shapes[round%len(shapes)](c, r, round)
		}
		c.Sample("4 goroutines, the constructor waits until 3 of them have called Get, spins 20 times: 1 run, 12 equal results")
	})
}

// shapes share values of all kinds and sizes between goroutines.
var shapes = []func(c *vk.C, r *rand.Rand, round int){
	of(build, good), of(build, good),
	of(func(x int) int { return x }, func(v, x int) bool { return v == x }),
	of(func(x int) uint8 { return uint8(x | 1) }, func(v uint8, x int) bool { return v == uint8(x|1) }),
	of(func(x int) string { return fmt.Sprint(x) }, func(v string, x int) bool { return v == fmt.Sprint(x) }),
	of(func(x int) any { return fmt.Sprint(x) }, func(v any, x int) bool { return v == fmt.Sprint(x) }),
	of(func(x int) *big { b := build(x); return &b }, func(v *big, x int) bool { return good(*v, x) }),
	of(func(x int) []int { return []int{x, x} }, func(v []int, x int) bool { return len(v) == 2 && v[0] == x && v[1] == x }),
	of(func(x int) map[int]int { return map[int]int{x: x} }, func(v map[int]int, x int) bool { return v[x] == x }),
	of(func(x int) func() int { return func() int { return x } }, func(v func() int, x int) bool { return v() == x }),
	of(fill[[20]int], filled[[20]int]), of(fill[[700]int], filled[[700]int]), of(fill[[9000]int], filled[[9000]int]),
}

type ints interface{ [20]int | [700]int | [9000]int }

func fill[A ints](x int) (a A) {
	for i := 0; i < len(a); i++ {
		a[i] = x
	}
	return a
}

func filled[A ints](a A, x int) bool {
	for i := 0; i < len(a); i++ {
		if a[i] != x {
			return false
		}
	}
	return true
}

// of shares one value between goroutines: mk constructs it for x, good tells
// whether it is that one.
func of[T any](mk func(x int) T, good func(v T, x int) bool) func(c *vk.C, r *rand.Rand, round int) {
	isZero := seq.Same[T]()
	return func(c *vk.C, r *rand.Rand, round int) {
		if c.Phase == "race" {
			raced(c, r, round, mk, good)
			return
		}
		build := mk
		vk.Perturb(r.Uint64(), r.IntN(3))
		runtime.GOMAXPROCS([]int{1, 2, 8, 8}[r.IntN(4)])
		gs := 2 + r.IntN(7)
		wait := r.IntN(gs) // the constructor runs until that many others have called Get
		spins := r.IntN(60)
		// a weight of zero makes the value the zero value: it must not be computed again
		zero := r.IntN(4) == 0
		var runs, entered, finished, early atomic.Int64
		var done atomic.Bool
		x := round + 1
		if zero {
			x = 0
		}
		mk := func() T {
			runs.Add(1)
			for i := 0; i < 4000 && entered.Load() < int64(1+wait); i++ {
				runtime.Gosched()
			}
			for i := 0; i < spins; i++ {
				runtime.Gosched()
			}
			if entered.Load() > 1 {
				c.Count("callers_during_construction", int(entered.Load())-1)
				c.Distinct(uint64(round))
			}
			var v T
			if !zero {
				v = build(x)
			}
			done.Store(true)
			return v
		}
		l := lazyx.New(mk)
		if runs.Load() != 0 {
			c.Violate("the constructor ran before the first Get", round)
		}
		var wg sync.WaitGroup
		bad := make([]string, gs)
		for g := 0; g < gs; g++ {
			late := r.IntN(3) == 0
			wg.Add(1)
			go func() {
				defer wg.Done()
				if late {
					for i := 0; i < 30; i++ {
						runtime.Gosched()
					}
				}
				for k := 0; k < 3; k++ {
					entered.Add(1)
					v := l.Get()
					if !done.Load() {
						early.Add(1)
					}
					ok := zero && isZero(v, *new(T)) || !zero && good(v, x)
					if !ok {
						bad[g] = fmt.Sprintf("Get returned %.200s, the constructor produced the value %d", fmt.Sprintf("%+v", v), x)
					}
				}
				finished.Add(1)
			}()
		}
		wg.Wait()
		c.Eval(1)
		vk.Tick()
		d := map[string]any{"type": fmt.Sprintf("%T", *new(T)), "goroutines": gs, "round": round, "zero_value": zero, "constructor_runs": runs.Load(), "gets_before_the_constructor_finished": early.Load()}
		if runs.Load() != 1 {
			c.Violate("the constructor did not run exactly once", d)
		}
		if early.Load() != 0 {
			c.Violate("Get returned before the constructor had finished", d)
		}
		for _, b := range bad {
			if b != "" {
				d["observed"] = b
				c.Violate("Get returned something the constructor did not produce", d)
			}
		}
	}
}

// long: a constructor that takes seconds of real time, and callers that come
// at different moments while it runs.
func long(c *vk.C) {
	vk.Unbound()
	for round := 0; round < c.N(1, 5); round++ {
		took := time.Duration(c.N(6, 25*(1+round%3))) * time.Second
		var wg sync.WaitGroup
		for shape := 0; shape < 4; shape++ { // values of several kinds side by side
			var runs atomic.Int32
			in := make(chan bool)
			l := lazyx.New(func() big {
				if runs.Add(1) == 1 {
					close(in)
				}
				if shape%2 == 0 {
					time.Sleep(took)
				} else {
					for end := time.Now().Add(took); time.Now().Before(end); {
						runtime.Gosched()
					}
				}
				return build(7 + shape)
			})
			for g := 0; g < 3+3*shape; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					if g > 0 {
						<-in
						time.Sleep(time.Duration(g-1) * took / 12)
					}
					v := l.Get()
					if n := runs.Load(); n != 1 || !good(v, 7+shape) {
						c.Violate("Get during a constructor that takes long", map[string]any{"constructor_takes": took.String(), "caller": g, "constructor_runs": n, "value_is_the_constructed_one": good(v, 7+shape)})
					}
				}()
			}
			c.Count("callers_of_a_slow_constructor", 3+3*shape)
		}
		wg.Wait()
		c.Eval(1)
		c.Distinct(uint64(round))
		c.Max("seconds_waited", int(took/time.Second))
	}
}

func seqOnce[T any](c *vk.C, want T) {
	runs := 0
	l := lazyx.New(func() T { runs++; return want })
	if runs != 0 {
		c.Violate("the constructor ran before the first Get", fmt.Sprintf("%T", want))
	}
	for i := 1; i <= 5; i++ {
		if v := l.Get(); !seq.Same[T]()(v, want) || runs != 1 {
			c.Violate("sequential Get", map[string]any{"type": fmt.Sprintf("%T", want), "call": i, "value": fmt.Sprint(v), "constructed": fmt.Sprint(want), "constructor_runs": runs})
		}
	}
	// two lazy values with the same constructor are independent
	m := lazyx.New(func() T { runs++; return want })
	m.Get()
	if runs != 2 {
		c.Violate("lazy values are not independent", fmt.Sprintf("%T", want))
	}
	c.Eval(1)
}

// race: no synchronisation but the lazy value's own between the goroutines.
func race(c *vk.C) {
	r := c.Rand("race")
	for round := 0; round < c.N(2500, 60000); round++ {
		shapes[round%len(shapes)](c, r, round)
	}
}

func raced[T any](c *vk.C, r *rand.Rand, round int, build func(x int) T, good func(v T, x int) bool) {
	vk.Perturb(r.Uint64(), r.IntN(4))
	runtime.GOMAXPROCS([]int{2, 4, 8}[r.IntN(3)])
	x := round + 1
	spins := r.IntN(20)
	runs := 0 // written by the constructor only, read by every caller
	l := lazyx.New(func() T {
		runs++
		for i := 0; i < spins; i++ {
			runtime.Gosched()
		}
		return build(x)
	})
	gs := 2 + r.IntN(5)
	bad := make([]bool, gs)
	var wg sync.WaitGroup
	for g := 0; g < gs; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 2; k++ {
				v := l.Get()
				if !good(v, x) || runs != 1 {
					bad[g] = true
				}
			}
		}()
	}
	wg.Wait()
	c.Eval(1)
	c.Distinct(uint64(round))
	for _, b := range bad {
		if b {
			c.Violate("a caller of Get saw a wrong value or a second constructor run", map[string]any{"type": fmt.Sprintf("%T", *new(T)), "round": round, "constructor_runs": runs})
		}
	}
}
