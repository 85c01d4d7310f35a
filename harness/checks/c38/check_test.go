// C38: the converter registry against a map, sequentially and concurrently.
package c38

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

// entry is the registry as seen through one ordered pair of types. Converters
// return a tag; -1 means a converter was given a value it was not called with.
type entry struct {
	name       string
	built      bool // a converter exists from the start
	register   func(tag int)
	unregister func()
	exists     func() bool
	into       func() (tag int, ok bool, zero bool)
	intoOr     func() (tag int, isDefault bool)
}

// mk builds the entry of (T, R). val is the value converted, mkR and tagOf
// carry a tag through R, def is the default of IntoOr.
func mk[T, R any](name string, val T, same func(a, b T) bool, mkR func(int) R, tagOf func(R) int, def R) *entry {
	return &entry{
		name:  name,
		built: convx.Exists[T, R](),
		register: func(tag int) {
			convx.Register(func(v T) R {
				if !same(v, val) {
					return mkR(-1)
				}
				return mkR(tag)
			})
		},
		unregister: convx.Unregister[T, R],
		exists:     convx.Exists[T, R],
		into: func() (int, bool, bool) {
			r, ok := convx.Into[T, R](val)
			if !ok {
				return 0, false, reflect.ValueOf(&r).Elem().IsZero()
			}
			return tagOf(r), true, false
		},
		intoOr: func() (int, bool) {
			r := convx.IntoOr[T, R](val, def)
			if t := tagOf(r); t != tagOf(def) {
				return t, false
			}
			return 0, true
		},
	}
}

type (
	A    int
	B    int
	C    struct{ X, Y int }
	S    string
	Err  struct{ n int }
	Intf interface{ N() int }
	Emb  interface {
		Intf
		M()
	}
	Fn       func(int) int
	G[T any] struct{ V T }
)

func (e Err) Error() string  { return fmt.Sprint(e.n) }
func (e Err) N() int         { return e.n }
func (e Err) M()             {}
func (e Err) String() string { return fmt.Sprint("s", e.n) }

const defTag = 1 << 30

func eq[T comparable](a, b T) bool { return a == b }

// Local types of two functions have the same name and package.
func local1() []*entry {
	type X int
	type Y struct{ N int }
	return []*entry{
		mk[X, Y]("local1.X->Y", 5, eq[X], func(t int) Y { return Y{t} }, func(y Y) int { return y.N }, Y{defTag}),
		mk[Y, X]("local1.Y->X", Y{3}, eq[Y], func(t int) X { return X(t) }, func(y X) int { return int(y) }, defTag),
		mk[X, X]("local1.X->X", 5, eq[X], func(t int) X { return X(t) }, func(y X) int { return int(y) }, defTag),
	}
}

func local2() []*entry {
	type X int
	type Y struct{ N int }
	return []*entry{
		mk[X, Y]("local2.X->Y", 6, eq[X], func(t int) Y { return Y{t} }, func(y Y) int { return y.N }, Y{defTag}),
		mk[Y, X]("local2.Y->X", Y{4}, eq[Y], func(t int) X { return X(t) }, func(y X) int { return int(y) }, defTag),
	}
}

func entries() []*entry {
	num := func(t int) int { return t }
	a := func(t int) A { return A(t) }
	fa := func(t A) int { return int(t) }
	b := func(t int) B { return B(t) }
	fb := func(t B) int { return int(t) }
	str := func(t int) string { return fmt.Sprint(t) }
	fstr := func(s string) int { n := 0; fmt.Sscan(s, &n); return n }
	er := func(t int) error { return Err{t} }
	fer := func(e error) int { return e.(Err).n }
	an := func(t int) any { return t }
	fan := func(x any) int { return x.(int) }
	in := func(t int) Intf { return Err{t} }
	fin := func(x Intf) int { return x.N() }
	pt := func(t int) *int { return &t }
	fpt := func(p *int) int { return *p }
	cs := func(t int) C { return C{t, -t} }
	fcs := func(c C) int { return c.X }
	p := pt(9)
	always := func(Fn, Fn) bool { return true }
	es := []*entry{
		mk[A, B]("A->B", 1, eq[A], b, fb, defTag),
		mk[B, A]("B->A", 1, eq[B], a, fa, defTag),
		mk[A, A]("A->A", 1, eq[A], a, fa, defTag),
		mk[A, int]("A->int", 1, eq[A], num, num, defTag),
		mk[int, A]("int->A", 1, eq[int], a, fa, defTag),
		mk[int, int]("int->int", 77, eq[int], num, num, defTag),
		mk[int, string]("int->string", 78, eq[int], str, fstr, fmt.Sprint(defTag)),
		mk[string, int]("string->int", "79", eq[string], num, num, defTag),
		mk[S, string]("S->string", "s", eq[S], str, fstr, fmt.Sprint(defTag)),
		mk[string, S]("string->S", "s", eq[string], func(t int) S { return S(str(t)) }, func(s S) int { return fstr(string(s)) }, S(fmt.Sprint(defTag))),
		mk[C, A]("C->A", C{1, 2}, eq[C], a, fa, defTag),
		mk[A, C]("A->C", 1, eq[A], cs, fcs, C{defTag, 0}),
		mk[error, int]("error->int", er(4), eq[error], num, num, defTag),
		mk[error, error]("error->error", er(4), eq[error], er, fer, er(defTag)),
		mk[int, error]("int->error", 4, eq[int], er, fer, er(defTag)),
		mk[Err, error]("Err->error", Err{4}, eq[Err], er, fer, er(defTag)),
		mk[Err, int]("Err->int", Err{4}, eq[Err], num, num, defTag),
		mk[any, int]("any->int", any(5), eq[any], num, num, defTag),
		mk[any, any]("any->any", any("x"), eq[any], an, fan, any(defTag)),
		mk[int, any]("int->any", 5, eq[int], an, fan, any(defTag)),
		mk[any, error]("any->error with nil", nil, eq[any], er, fer, er(defTag)),
		mk[error, any]("error->any with nil", nil, eq[error], an, fan, any(defTag)),
		mk[Intf, A]("Intf->A", Err{7}, eq[Intf], a, fa, defTag),
		mk[A, Intf]("A->Intf", 7, eq[A], in, fin, Intf(Err{defTag})),
		mk[Emb, A]("Emb->A", Err{7}, eq[Emb], a, fa, defTag),
		mk[Intf, Emb]("Intf->Emb", Err{7}, eq[Intf], func(t int) Emb { return Err{t} }, func(x Emb) int { return x.N() }, Emb(Err{defTag})),
		mk[fmt.Stringer, int]("Stringer->int", Err{7}, eq[fmt.Stringer], num, num, defTag),
		mk[*int, A]("*int->A", p, eq[*int], a, fa, defTag),
		mk[A, *int]("A->*int", 7, eq[A], pt, fpt, pt(defTag)),
		mk[*A, *int]("*A->*int with nil", nil, eq[*A], pt, fpt, pt(defTag)),
		mk[Fn, int]("Fn->int", func(int) int { return 0 }, always, num, num, defTag),
		mk[[2]int, [3]int]("[2]int->[3]int", [2]int{1, 2}, eq[[2]int], func(t int) [3]int { return [3]int{0, t} }, func(x [3]int) int { return x[1] }, [3]int{0, defTag}),
		mk[[3]int, [2]int]("[3]int->[2]int", [3]int{1, 2}, eq[[3]int], func(t int) [2]int { return [2]int{0, t} }, func(x [2]int) int { return x[1] }, [2]int{0, defTag}),
		mk[G[int], G[string]]("G[int]->G[string]", G[int]{1}, eq[G[int]], func(t int) G[string] { return G[string]{str(t)} }, func(x G[string]) int { return fstr(x.V) }, G[string]{fmt.Sprint(defTag)}),
		mk[G[string], G[int]]("G[string]->G[int]", G[string]{"1"}, eq[G[string]], func(t int) G[int] { return G[int]{t} }, func(x G[int]) int { return x.V }, G[int]{defTag}),
		mk[chan int, A]("chan int->A", nil, eq[chan int], a, fa, defTag),
		mk[<-chan int, A]("<-chan int->A", nil, eq[<-chan int], a, fa, defTag),
		mk[struct{}, A]("struct{}->A", struct{}{}, eq[struct{}], a, fa, defTag),
		mk[int64, int]("int64->int", 3, eq[int64], num, num, defTag),
		mk[float64, float64]("float64->float64", 3, eq[float64], func(t int) float64 { return float64(t) }, func(f float64) int { return int(f) }, defTag),
	}
	_ = errors.New
	_ = io.EOF
	return append(append(es, local1()...), local2()...)
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of registry operations over many type pairs, or one concurrent history; non-trivial when converters were registered and looked up; distinct by history.", func(c *vk.C) {
		es := entries()
		if c.Phase == "race" {
			race(c, es)
			return
		}
		sequential(c, es)
		concurrent(c, es)
	})
}

var tags atomic.Int64

func sequential(c *vk.C, es []*entry) {
	r := c.Rand("sequential")
	state := map[*entry]int{} // tag; 0: none, -2: built in
	for _, e := range es {
		if e.built {
			state[e] = -2
		}
	}
	var log []string
	fail := func(what string) {
		c.Violate(what, map[string]any{"last_operations": log[max(0, len(log)-60):]})
	}
	look := func(e *entry) {
		want := state[e]
		if got := e.exists(); got != (want != 0) {
			fail(fmt.Sprintf("Exists for %s returned %v", e.name, got))
		}
		var tag int
		var ok, zero bool
		if p := vk.Try(func() { tag, ok, zero = e.into() }); p != nil {
			fail(fmt.Sprintf("Into for %s: %v", e.name, p))
		}
		switch {
		case want == 0 && (ok || !zero):
			fail(fmt.Sprintf("Into for %s without a converter returned tag %d, %v, zero value %v", e.name, tag, ok, zero))
		case want != 0 && !ok:
			fail(fmt.Sprintf("Into for %s with a converter reports none", e.name))
		case want > 0 && tag != want:
			fail(fmt.Sprintf("Into for %s used converter %d, the latest is %d", e.name, tag, want))
		}
		var def bool
		if p := vk.Try(func() { tag, def = e.intoOr() }); p != nil {
			fail(fmt.Sprintf("IntoOr for %s: %v", e.name, p))
		}
		if def != (want == 0) || want > 0 && tag != want {
			fail(fmt.Sprintf("IntoOr for %s returned tag %d (default: %v), the latest converter is %d", e.name, tag, def, want))
		}
		c.Eval(3)
	}
	for i := 0; i < c.N(20000, 500000); i++ {
		// mostly few pairs, so that neighbours are hit
		e := es[r.IntN(len(es))]
		if r.IntN(2) == 0 {
			e = es[(i/200*7+r.IntN(5))%len(es)]
		}
		switch r.IntN(3) {
		case 0:
			tag := int(tags.Add(1))
			log = append(log, fmt.Sprintf("register %s (%d)", e.name, tag))
			e.register(tag)
			state[e] = tag
		case 1:
			log = append(log, "unregister "+e.name)
			e.unregister()
			delete(state, e)
		}
		look(e)
		look(es[r.IntN(len(es))])
		if i%50 == 0 {
			for _, e := range es {
				look(e)
			}
		}
		if len(log) > 1000 {
			log = log[900:]
		}
		c.Distinct(vk.HashS(fmt.Sprint(i, log[max(0, len(log)-3):])))
	}
	// one pair registered more often than 16 and 17 bits count
	for _, e := range []*entry{es[0], es[len(es)-1], es[len(es)/2]} {
		for i := 0; i < c.N(140000, 1000000); i++ {
			tag := int(tags.Add(1))
			if i%7 == 3 {
				e.unregister()
				delete(state, e)
			} else {
				e.register(tag)
				state[e] = tag
			}
			if i%10 < 2 {
				log = append(log[:0], fmt.Sprintf("registration or unregistration %d of %s", i, e.name))
				look(e)
			}
		}
		c.Count("registrations_of_one_pair", c.N(140000, 1000000))
		for _, e := range es {
			look(e)
		}
	}
	c.Sample(log[max(0, len(log)-20):])
	for _, e := range es {
		e.unregister()
	}
}

type in struct {
	e   int
	op  string
	tag int
}

type out struct {
	ok  bool
	tag int
}

var model = porcupine.Model{
	Partition: func(h []porcupine.Operation) [][]porcupine.Operation {
		m := map[int][]porcupine.Operation{}
		for _, o := range h {
			k := o.Input.(in).e
			m[k] = append(m[k], o)
		}
		var l [][]porcupine.Operation
		for _, x := range m {
			l = append(l, x)
		}
		return l
	},
	Init: func() interface{} { return 0 },
	Step: func(st, i, o interface{}) (bool, interface{}) {
		s, a, r := st.(int), i.(in), o.(out)
		switch a.op {
		case "register":
			return true, a.tag
		case "unregister":
			return true, 0
		case "exists":
			return r.ok == (s != 0), s
		}
		return r.ok == (s != 0) && (s == 0 || r.tag == s), s
	},
}

// Types of which the registry has never heard: the first registrations for a
// source type race with each other.
type w1[T any] struct{ v T }
type w2[T any] struct{ v T }

func targets[T any]() []*entry {
	var v T
	always := func(T, T) bool { return true }
	n := fmt.Sprint(reflect.TypeOf((*T)(nil)).Elem(), "->")
	return []*entry{
		mk[T, int](n+"int", v, always, func(t int) int { return t }, func(r int) int { return r }, defTag),
		mk[T, A](n+"A", v, always, func(t int) A { return A(t) }, func(r A) int { return int(r) }, defTag),
		mk[T, C](n+"C", v, always, func(t int) C { return C{t, t} }, func(r C) int { return r.X }, C{defTag, 0}),
	}
}

func zoo1[T any]() [][]*entry {
	return [][]*entry{targets[w1[T]](), targets[w2[T]](), targets[[]T](), targets[*T](), targets[chan T](), targets[map[int]T](), targets[[7]T](), targets[func(T)]()}
}

func zoo2[T any]() (l [][]*entry) {
	for _, x := range [][][]*entry{zoo1[T](), zoo1[w1[w1[T]]](), zoo1[w2[[]T]](), zoo1[w1[*T]](), zoo1[w2[chan T]](), zoo1[w1[[9]T]]()} {
		l = append(l, x...)
	}
	return
}

func zoo() (l [][]*entry) {
	for _, x := range [][][]*entry{zoo2[A](), zoo2[C](), zoo2[S](), zoo2[Err](), zoo2[w2[uint8]](), zoo2[w2[float32]]()} {
		l = append(l, x...)
	}
	return
}

func concurrent(c *vk.C, es []*entry) {
	r := c.Rand("concurrent")
	fresh := zoo()
	c.Count("source_types_never_seen_before", len(fresh))
	r.Shuffle(len(fresh), func(i, j int) { fresh[i], fresh[j] = fresh[j], fresh[i] })
	for round := 0; round < c.N(4000, 150000)+len(fresh); round++ {
		vk.Perturb(r.Uint64(), r.IntN(3))
		if round%200 == 0 {
			runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.IntN(4)])
		}
		if round < len(fresh) {
			vk.Perturb(r.Uint64(), 2+r.IntN(3))
			runtime.GOMAXPROCS([]int{2, 4, 8, 8}[r.IntN(4)])
			together(c, r, fresh[round], 3+r.IntN(2), 1+r.IntN(2), round, true)
			continue
		}
		// A few pairs that share a source or target type, emptied first.
		base := r.IntN(len(es) - 3)
		together(c, r, es[base:base+1+r.IntN(3)], 2+r.IntN(4), 2+r.IntN(6), round, false)
	}
}

// together lets gs goroutines do per calls each.
func together(c *vk.C, r *rand.Rand, use []*entry, gs, per, round int, first bool) {
	var clock atomic.Int64
	var ready atomic.Int32
	logs := make([][]porcupine.Operation, gs)
	start := make(chan struct{})
	var wg sync.WaitGroup
	do := func(g, k, n int) {
		e := use[k]
		a := in{e: k}
		var o out
		if n < 3 {
			a.op, a.tag = "register", int(tags.Add(1))
		}
		t0 := clock.Add(1)
		switch n {
		case 0, 1, 2:
			e.register(a.tag)
		case 3:
			a.op = "unregister"
			e.unregister()
		case 4:
			a.op = "exists"
			o.ok = e.exists()
		case 5:
			a.op = "intoOr"
			var d bool
			o.tag, d = e.intoOr()
			o.ok = !d
		default:
			a.op = "into"
			o.tag, o.ok, _ = e.into()
		}
		t1 := clock.Add(1)
		logs[g] = append(logs[g], porcupine.Operation{ClientId: g, Input: a, Output: o, Call: t0, Return: t1})
	}
	for g := 0; g < gs; g++ {
		seed := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 6))
			<-start
			ready.Add(1)
			for i := 0; i < 1000 && int(ready.Load()) < gs; i++ {
				runtime.Gosched()
			}
			for i := 0; i < per; i++ {
				if first && i == 0 {
					do(g, g%len(use), 0)
					continue
				}
				do(g, r.IntN(len(use)), r.IntN(8))
			}
		}()
	}
	close(start)
	wg.Wait()
	for k := range use { // what is left
		do(0, k, 4)
		do(0, k, 6)
	}
	var hist []porcupine.Operation
	for _, l := range logs {
		hist = append(hist, l...)
	}
	overlap := 0
	for i, a := range hist {
		for _, b := range hist[:i] {
			if a.Call < b.Return && b.Call < a.Return {
				overlap++
			}
		}
	}
	var show []string
	for _, o := range hist {
		show = append(show, fmt.Sprintf("[%d..%d] %d: %s %s %d -> %v", o.Call, o.Return, o.ClientId, o.Input.(in).op, use[o.Input.(in).e].name, o.Input.(in).tag, o.Output))
	}
	c.Eval(len(hist))
	c.Count("overlapping_pairs_of_calls", overlap)
	if overlap > 0 {
		c.Distinct(vk.HashS(fmt.Sprint(show)))
	}
	if overlap > 3 && round < 30 {
		c.Sample(show)
	}
	if porcupine.CheckOperationsTimeout(model, hist, 60*time.Second) == porcupine.Illegal {
		c.Violate("no order of the registry calls explains their results", map[string]any{"history": show})
	}
	for _, e := range use {
		e.unregister()
	}
}

func race(c *vk.C, es []*entry) {
	r := c.Rand("race")
	for round := 0; round < c.N(100, 3000); round++ {
		vk.Perturb(r.Uint64(), 1+r.IntN(3))
		runtime.GOMAXPROCS([]int{2, 4, 8}[r.IntN(3)])
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			seed := r.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 7))
				for i := 0; i < 60; i++ {
					e := es[r.IntN(len(es))]
					switch r.IntN(6) {
					case 0, 1:
						e.register(g*1000 + i + 1)
					case 2:
						e.unregister()
					case 3:
						e.exists()
					case 4:
						e.intoOr()
					default:
						e.into()
					}
				}
			}()
		}
		wg.Wait()
		c.Eval(240)
		c.Distinct(uint64(round))
	}
}
