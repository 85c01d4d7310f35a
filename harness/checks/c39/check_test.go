// C39: converters that use the registry, with writers waiting at the same
// time, and converters that panic. A call that cannot return is seen by the
// watchdog, which looks at the states of all goroutines.
package c39

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

type (
	n0 struct{ d int }
	n1 struct{ d int }
	n2 struct{ d int }
	n3 struct{ d int }
	w0 int
	w1 int
	px int
)

// act is what a converter does with the registry while it runs.
type act struct {
	kind   int
	writer bool // another goroutine registers at the same time
}

type plan struct {
	acts  []act
	panic int // at which level a panic happens, -1: none
}

func (p plan) String() string { return fmt.Sprintf("%v panic at %d", p.acts, p.panic) }

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one nest of converters that use the registry while others register; all are non-trivial; distinct by plan.", func(c *vk.C) {
		for _, depth := range []int{20, 130, 300, 1100, c.N(33000, 140000)} {
			if c.Phase == "race" && depth > 2000 {
				continue
			}
			deep(c, depth)
		}
		kinds(c, c.Rand("kinds"+c.Phase))
		r := c.Rand("nests" + c.Phase)
		for round := 0; round < c.N(3000, 100000); round++ {
			if c.Phase == "race" && round%5 != 0 {
				continue
			}
			vk.Perturb(r.Uint64(), 1+r.IntN(3))
			if round%100 == 0 {
				runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.IntN(4)])
			}
			p := plan{panic: -1}
			for i := 0; i < 4; i++ {
				p.acts = append(p.acts, act{r.IntN(7), r.IntN(2) == 0})
			}
			if r.IntN(3) == 0 {
				p.panic = r.IntN(4)
			}
			c.Context("%v", p)
			nest(c, r, p, round)
			c.Eval(1)
			c.Distinct(vk.HashS(p.String()))
			if round < 3 {
				c.Sample(p.String())
			}
		}
	})
}

func nest(c *vk.C, r *rand.Rand, p plan, round int) {
	var ww sync.WaitGroup
	var calls, nested atomic.Int64
	n := 1 + r.IntN(3)
	alone := n == 1 // nobody else registers converters for px
	fail := func(what string) { c.Violate(what, map[string]any{"plan": p.String()}) }
	// writer lets another goroutine reach the registry's lock, if it must wait
	// for it, before the converter goes on.
	writer := func(k int) {
		var done atomic.Bool
		ww.Add(1)
		go func() {
			defer ww.Done()
			switch k % 3 {
			case 0:
				convx.Register(func(v w0) w1 { return w1(v) + 1 })
			case 1:
				convx.Unregister[w0, w1]()
			case 2:
				convx.Register(func(v w1) w0 { return w0(v) })
			}
			done.Store(true)
		}()
		for i := 0; i < 60 && !done.Load(); i++ {
			runtime.Gosched()
		}
	}
	do := func(level int) {
		calls.Add(1)
		a := p.acts[level]
		if a.writer {
			writer(level + round)
		}
		switch a.kind {
		case 0:
			if s, ok := convx.Into[int, string](41 + level); !ok || s != fmt.Sprint(41+level) {
				fail(fmt.Sprintf("Into inside a converter gave %q, %v", s, ok))
			}
		case 1:
			if !convx.Exists[int, string]() {
				fail("Exists inside a converter does not see a registered converter")
			}
		case 2:
			convx.Register(func(v px) string { return fmt.Sprint("px", int(v), level) })
			if s, ok := convx.Into[px, string](3); alone && (!ok || s != fmt.Sprint("px", 3, level)) {
				fail(fmt.Sprintf("a converter registered inside a converter gave %q, %v", s, ok))
			}
		case 3:
			convx.Unregister[px, string]()
			if alone && convx.Exists[px, string]() {
				fail("a converter unregistered inside a converter exists")
			}
		case 4:
			if s := convx.IntoOr[w0, struct{ x int }](1, struct{ x int }{9}); s.x != 9 {
				fail("IntoOr inside a converter misses the default")
			}
		case 5: // replaces the converters that are running
			convx.Register(func(v n3) int { return v.d })
			convx.Unregister[n0, int]()
		case 6:
			if a.writer {
				writer(level + round + 1)
			}
			convx.Into[w0, w1](4)
		}
		if p.panic == level {
			panic("converter panics")
		}
	}
	convx.Register(func(v n3) int { do(3); nested.Add(1); return v.d + 1000 })
	convx.Register(func(v n2) int { do(2); x, _ := convx.Into[n3, int](n3{v.d}); nested.Add(1); return x })
	convx.Register(func(v n1) int { do(1); x := convx.IntoOr[n2, int](n2{v.d}, -1); nested.Add(1); return x })
	convx.Register(func(v n0) int { do(0); x, _ := convx.Into[n1, int](n1{v.d}); nested.Add(1); return x })
	var wg sync.WaitGroup
	for g := 0; g < n; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			var v int
			var ok bool
			var pan any
			func() {
				defer func() { pan = recover() }()
				v, ok = convx.Into[n0, int](n0{g})
			}()
			vk.Tick()
			if n > 1 {
				return // somebody else may have replaced a level
			}
			replaced := -1 // innermost level a running converter replaces
			for l, a := range p.acts {
				if a.kind == 5 && l < 3 {
					replaced = 3
				}
			}
			wantPanic := p.panic >= 0 && !(p.panic == 3 && replaced == 3)
			if wantPanic != (pan != nil) || pan != nil && pan != "converter panics" {
				fail(fmt.Sprintf("a panic of a converter: wanted %v, got %v", wantPanic, pan))
			}
			if pan == nil {
				want := g + 1000
				if replaced == 3 {
					want = g
				}
				if !ok || v != want {
					fail(fmt.Sprintf("nested conversion gave %d, %v, want %d", v, ok, want))
				}
			}
		}()
	}
	wg.Wait()
	ww.Wait()
	// The registry is usable.
	convx.Register(func(v px) string { return "after" })
	if s, ok := convx.Into[px, string](1); !ok || s != "after" || !convx.Exists[px, string]() {
		fail("the registry is not usable afterwards")
	}
	convx.Unregister[px, string]()
	convx.Unregister[n0, int]()
	convx.Unregister[w0, w1]()
	c.Count("converters_run", int(calls.Load()))
	c.Count("converters_finished", int(nested.Load()))
}

type level struct{ n int }

// deep nests one conversion in another, the innermost registering,
// unregistering and panicking.
func deep(c *vk.C, depth int) {
	for _, end := range []string{"value", "panic", "replace"} {
		runs := 0
		convx.Register(func(v level) int {
			runs++
			vk.Tick()
			if v.n == 0 {
				switch end {
				case "panic":
					panic("innermost")
				case "replace":
					convx.Register(func(v level) int { return -7 })
				}
				return 1
			}
			if v.n%256 == 0 {
				convx.Register(func(v w0) w1 { return w1(v) })
				if !convx.Exists[level, int]() {
					c.Violate("Exists inside a converter does not see a registered converter", map[string]any{"depth": depth, "level": v.n})
				}
			}
			x, ok := convx.Into[level, int](level{v.n - 1})
			if !ok {
				c.Violate("Into inside a converter finds no converter", map[string]any{"depth": depth, "level": v.n})
			}
			return x + 1
		})
		var got int
		var ok bool
		var pan any
		func() {
			defer func() { pan = recover() }()
			got, ok = convx.Into[level, int](level{depth})
		}()
		if end == "panic" && pan != "innermost" || end != "panic" && (pan != nil || !ok || got != depth+1) || runs != depth+1 {
			c.Violate("a deep nest of conversions", map[string]any{"depth": depth, "end": end, "got": got, "found": ok, "panic": fmt.Sprint(pan), "converters run": runs})
		}
		if end != "replace" {
			convx.Unregister[level, int]()
			continue
		}
		if x, ok := convx.Into[level, int](level{0}); !ok || x != -7 {
			c.Violate("a converter registered in the innermost of a deep nest is not used afterwards", map[string]any{"depth": depth, "got": x, "found": ok})
		}
		convx.Unregister[level, int]()
		if convx.Exists[level, int]() {
			c.Violate("the registry is not usable after a deep nest", map[string]any{"depth": depth})
		}
		c.Eval(1)
		c.Max("deepest_nest", depth)
	}
}

// kinds nests conversions between types of every kind and size: each pair
// within itself, there and back again, and through every other pair, with
// writers waiting meanwhile.
func kinds(c *vk.C, r *rand.Rand) {
	type empty struct{}
	type strs struct{ a, b, c, d, e, f, g, h string }
	type num float64
	type list []strs
	p := new(int)
	var all []*pair
	for rep := 0; rep < 2; rep++ { // the second time some writers wait
		all = all[:0]
		all = append(all, pairOf[int8, [20]int](-3, [20]int{1, 2}), pairOf[[20]int, int8]([20]int{5}, 7),
			pairOf[[20]int, [20]int]([20]int{8}, [20]int{9}), pairOf[strs, strs](strs{a: "x"}, strs{h: "y"}),
			pairOf[[9000]byte, string]([9000]byte{1}, "nine"), pairOf[string, [9000]byte]("nine", [9000]byte{8999: 1}),
			pairOf[empty, empty](empty{}, empty{}), pairOf[empty, [0]int](empty{}, [0]int{}),
			pairOf[string, num]("text", 2.5), pairOf[num, string](1.5, ""), pairOf[float32, complex128](1, 2i),
			pairOf[*int, **int](p, &p), pairOf[**int, *int](&p, p), pairOf[any, error](3, nil), pairOf[error, any](nil, 4),
			pairOf[any, any](nil, "any"), pairOf[fmt.Stringer, error](nil, fmt.Errorf("e")),
			pairOf[chan int, bool](make(chan int), true), pairOf[bool, chan int](false, nil),
			pairOf[struct{ a, b any }, [2]any](struct{ a, b any }{1, "b"}, [2]any{2, "c"}),
			pairOf[[2]any, struct{ a, b any }]([2]any{nil, 1}, struct{ a, b any }{nil, 5}))
		all = append(all, loose[[]byte, list]([]byte("ab"), list{{a: "z"}}), loose[map[string]int, []byte](map[string]int{"k": 1}, []byte("cd")),
			loose[list, map[string]int](list{{}, {}}, map[string]int{"l": 2}), loose[[]byte, strs](nil, strs{b: "q"}),
			loose[func() int, []byte](nil, []byte{1}), loose[[]any, [70]string]([]any{1, "2"}, [70]string{69: "end"}))
		for _, a := range all {
			for _, depth := range []int{1, 2, 5, 40} {
				nestPairs(c, r, rep == 1, a.name, depth, func(int) *pair { return a })
			}
			for n := 0; n < 3; n++ {
				b := all[r.IntN(len(all))]
				nestPairs(c, r, rep == 1, a.name+" and "+b.name, 6, func(l int) *pair { return []*pair{a, b}[l%2] })
			}
		}
		for n := 0; n < c.N(40, 2000); n++ {
			order := make([]*pair, 2+r.IntN(12))
			for i := range order {
				order[i] = all[r.IntN(len(all))]
			}
			nestPairs(c, r, rep == 1, fmt.Sprint("mixed ", n), len(order), func(l int) *pair { return order[l%len(order)] })
		}
		for _, a := range all {
			a.remove()
		}
	}
	c.Count("type_pairs_nested", len(all))
}

// A pair is a source and a target type with a value of each: convert makes
// the conversion and tells whether it came out right.
type pair struct {
	name     string
	register func(in func())
	convert  func() string // "" if right
	exists   func() bool
	remove   func()
}

func pairOf[T, U comparable](v T, u U) *pair {
	return mkPair(v, u, func(a, b T) bool { return a == b }, func(a, b U) bool { return a == b })
}

// loose is for types that have no ==.
func loose[T, U any](v T, u U) *pair {
	return mkPair(v, u, func(a, b T) bool { return fmt.Sprint(a) == fmt.Sprint(b) }, func(a, b U) bool { return fmt.Sprint(a) == fmt.Sprint(b) })
}

func mkPair[T, U any](v T, u U, sameT func(a, b T) bool, sameU func(a, b U) bool) *pair {
	wrong := ""
	return &pair{
		name: fmt.Sprintf("%T to %T", *new(T), *new(U)),
		register: func(in func()) {
			convx.Register(func(x T) U {
				if !sameT(x, v) {
					wrong = "the converter got another value"
				}
				in()
				return u
			})
		},
		convert: func() string {
			wrong = ""
			got, ok := convx.Into[T, U](v)
			if !ok {
				return "no converter was found"
			}
			if !sameU(got, u) {
				return "another value came out"
			}
			if or := convx.Exists[T, U](); !or {
				return "the converter does not exist"
			}
			return wrong
		},
		exists: convx.Exists[T, U],
		remove: convx.Unregister[T, U],
	}
}

// nestPairs makes conversions inside one another: at level l that of at(l).
func nestPairs(c *vk.C, r *rand.Rand, writers bool, what string, depth int, at func(l int) *pair) {
	level, runs := 0, 0
	var ww sync.WaitGroup
	bad := func(l int, why string) {
		c.Violate("a nest of conversions: "+why, map[string]any{"types": what, "depth": depth, "level": l})
	}
	in := func() {
		vk.Tick()
		runs++
		l := level
		if writers && r.IntN(3) == 0 {
			var done atomic.Bool
			ww.Add(1)
			go func() {
				defer ww.Done()
				convx.Register(func(v w0) w1 { return w1(v) })
				done.Store(true)
			}()
			for i := 0; i < 20 && !done.Load(); i++ {
				runtime.Gosched()
			}
		}
		if level++; level < depth {
			if why := at(level).convert(); why != "" {
				bad(level, why)
			}
		}
		level = l
	}
	for l := 0; l < depth; l++ {
		at(l).register(in)
	}
	c.Context("nest of %s, depth %d", what, depth)
	if why := at(0).convert(); why != "" {
		bad(0, why)
	}
	if runs != depth {
		bad(0, fmt.Sprintf("%d converters ran instead of %d", runs, depth))
	}
	ww.Wait()
	c.Eval(1)
	c.Distinct(vk.HashS(what + fmt.Sprint(depth, writers)))
}
