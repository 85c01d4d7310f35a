// C19: which function is called, how often, with what, and what comes back.
package c19

import (
	"errors"
	"fmt"
	"math"
	"testing"

	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"

	"verifharness/seq"
	"verifharness/vk"
)

var errs = append([]error{nil, errors.New("e1"), fmt.Errorf("wrapped %w", errors.New("e2"))}, vk.WellKnown...)

// same: the very value, not only an equal one.
var same = seq.Same[any]()

func option[T any](c *vk.C, vals ...T) {
	var zero T
	fail := func(what string, d ...any) {
		c.Violate("option: "+what, fmt.Sprintf("%T %v", zero, d))
	}
	for _, stored := range append([]T{zero}, vals...) {
		for _, ret := range append([]T{zero}, vals...) {
			for _, e := range errs {
				for kind := 0; kind < 3; kind++ {
					vk.Op()
					c.Eval(1)
					c.Distinct(vk.HashS(fmt.Sprintf("o%T%v%v%v%d", zero, stored, ret, e, kind)))
					o, present := optionx.Some(stored), true
					if kind == 1 {
						o, present = optionx.None[T](), false
					}
					if kind == 2 {
						o, present = optionx.Option[T]{}, false
					}
					for again := 0; again < 2; again++ {
						nf, ng := 0, 0
						var arg T
						v, err := o.Match(func(x T) (T, error) { nf++; arg = x; return ret, e }, func() (T, error) { ng++; return ret, e })
						if present && (nf != 1 || ng != 0) || !present && (nf != 0 || ng != 1) {
							fail("wrong function called", "present", present, "calls", nf, ng, "stored", stored)
						}
						if present && !same(any(arg), any(stored)) {
							fail("the function did not get the stored value", stored, arg)
						}
						if !same(any(v), any(ret)) || err != e {
							fail("results changed", ret, e, v, err)
						}
					}
				}
			}
		}
	}
}

func result[T any, E any](c *vk.C, vals []T, es []E) {
	var zero T
	var zeroE E
	fail := func(what string, d ...any) {
		c.Violate("result: "+what, fmt.Sprintf("%T %T %v", zero, zeroE, d))
	}
	vals = append([]T{zero}, vals...)
	es = append([]E{zeroE}, es...)
	for _, stored := range vals {
		for _, storedE := range es {
			for _, ret := range vals {
				for _, retE := range es {
					for _, success := range []bool{true, false} {
						vk.Op()
						c.Eval(1)
						c.Distinct(vk.HashS(fmt.Sprintf("r%T%T%v%v%v%v%v", zero, zeroE, stored, storedE, ret, retE, success)))
						o := resultx.Ok[T, E](stored)
						if !success {
							o = resultx.Err[T, E](storedE)
						}
						for again := 0; again < 2; again++ {
							nf, ng := 0, 0
							var arg T
							var argE E
							v, e := o.Match(func(x T) (T, E) { nf++; arg = x; return ret, retE }, func(x E) (T, E) { ng++; argE = x; return ret, retE })
							if success && (nf != 1 || ng != 0) || !success && (nf != 0 || ng != 1) {
								fail("wrong function called", "success", success, "calls", nf, ng, "stored", stored, storedE)
							}
							if success && !same(any(arg), any(stored)) || !success && !same(any(argE), any(storedE)) {
								fail("the function did not get what was stored", stored, storedE, arg, argE)
							}
							if !same(any(v), any(ret)) || !same(any(e), any(retE)) {
								fail("results changed", ret, retE, v, e)
							}
						}
					}
				}
			}
		}
	}
}

type cfg struct{ id int }
type out struct{ p *cfg }

func parameter(c *vk.C) {
	// w: what each function returns: 0 nil, 1 its input, 2 a fresh value, 3 changes its input in place
	check := func(w []int, ctorNil bool) {
		vk.Op()
		c.Eval(1)
		c.Distinct(vk.HashS(fmt.Sprint("p", w, ctorNil)))
		var want *cfg // what the next function must be given
		var log []int
		bad := ""
		fs := make([]func(*cfg) *cfg, len(w))
		for i, k := range w {
			fs[i] = func(p *cfg) *cfg {
				log = append(log, i)
				if p != want && bad == "" {
					bad = fmt.Sprintf("function %d got %p, the one before returned %p", i, p, want)
				}
				switch k {
				case 0:
					want = nil
				case 1:
					want = p
				case 2:
					want = &cfg{i}
				case 3:
					if p == nil {
						p = &cfg{}
					}
					p.id += 100
					want = p
				}
				return want
			}
		}
		ctors := 0
		var res *out
		got := optionalx.Parameter(func(p *cfg) *out {
			ctors++
			if p != want && bad == "" {
				bad = fmt.Sprintf("the constructor got %p, the last function returned %p", p, want)
			}
			if len(log) != len(w) && bad == "" {
				bad = fmt.Sprintf("the constructor ran after %d of %d functions", len(log), len(w))
			}
			if ctorNil {
				res = nil
			} else {
				res = &out{p}
			}
			return res
		}, fs...)
		for i, x := range log {
			if i != x && bad == "" {
				bad = fmt.Sprintf("order of calls %v", log)
			}
		}
		if bad == "" && (len(log) != len(w) || ctors != 1 || got != res) {
			bad = fmt.Sprintf("%d of %d functions called, constructor called %d times, its result returned: %v", len(log), len(w), ctors, got == res)
		}
		if bad != "" {
			c.Violate("parameter folding: "+bad, map[string]any{"functions": w, "kinds": "0 returns nil, 1 its input, 2 a fresh value, 3 its input changed"})
		}
	}
	for n := 0; n <= c.N(6, 8); n++ {
		vk.Words(4, n, func(w []int) {
			check(w, false)
			check(w, true)
		})
	}
	r := c.Rand("p")
	for i := 0; i < c.N(500, 10000); i++ {
		w := make([]int, r.IntN(200))
		for j := range w {
			w[j] = r.IntN(4)
		}
		check(w, i%2 == 0)
	}
	for _, n := range []int{255, 256, 257, 300, 1000, 32769, 65536, 70000} {
		w := make([]int, n)
		for j := range w {
			w[j] = 1 + r.IntN(3)
		}
		check(w, false)
		w[r.IntN(n)] = 0
		check(w, n%2 == 0)
		c.Count("long lists of functions", 2)
	}
	c.Sample("functions [fresh, nil, changes its input, returns its input]: order 0 1 2 3, constructor gets the last output")
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one Match or one folding with counted callbacks; distinct by types, stored values and what the callbacks return.", func(c *vk.C) {
		vk.SetBound(1000000)
		p, s := new(int), []int{1}
		option(c, 1, -1)
		option(c, "a", "\x00")
		option(c, true)
		option(c, 1.5, math.NaN(), math.Copysign(0, -1))
		option[*int](c, p)
		option[[]int](c, s, []int{})
		option[map[int]int](c, map[int]int{})
		option[error](c, errs[1])
		option[any](c, 0, "", nil, p)
		option(c, cfg{1})
		option[struct{}](c)
		option[func()](c, func() {})
		option[[40]int](c, [40]int{39: 1})
		loose := make([]any, 30)
		for i := range loose {
			loose[i] = seq.MkLooseAny(i)
		}
		option(c, loose...)
		option(c, seq.MkFloat(1), seq.MkFloat(2), seq.MkFloat(3))
		option(c, seq.MkComplex(1), seq.MkComplex(2), seq.MkComplex(3))
		option(c, seq.MkLoose(1), seq.MkLoose(2), seq.MkLoose(9))
		option(c, s[:1], s[:0], s[:1:1])
		result(c, loose[:9], []float64{seq.MkFloat(1), seq.MkFloat(2)})
		result(c, []seq.Loose{seq.MkLoose(1), seq.MkLoose(4)}, []func() int{seq.MkFunc(1), seq.MkFunc(2)})
		result(c, []int{1, -1}, errs[1:])
		result(c, []string{"a"}, []string{"b"})
		result(c, []bool{true}, []bool{true})
		result(c, []*int{p}, []any{nil, 0, "x"})
		result(c, []any{0, p}, []int{1})
		result(c, []error{errs[1]}, []error{errs[2]})
		result(c, []struct{}{}, []struct{}{})
		result(c, [][]int{s, {}}, []map[int]int{{}})
		parameter(c)
	})
}
