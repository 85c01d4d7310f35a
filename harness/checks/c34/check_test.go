// C34: the scope helper under every pattern of failing closers and every way
// the function can end.
package c34

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"strings"
	"testing"

	"github.com/unsafe-risk/utilx/iox/usingx"

	"verifharness/vk"
)

type sliceErr []string // not comparable

func (e sliceErr) Error() string { return strings.Join(e, ",") }

type typedNil struct{}

func (*typedNil) Error() string { return "typed nil" }

type joined struct{ errs []error }

func (j joined) Error() string   { return "joined" }
func (j joined) Unwrap() []error { return j.errs }

type closer struct {
	i   int
	err error
	log *[]string
	run func()
}

func (c *closer) Close() error {
	*c.log = append(*c.log, fmt.Sprint("close ", c.i))
	if c.run != nil {
		c.run()
	}
	return c.err
}

// valueCloser is a closer that is not a pointer.
type valueCloser struct{ *closer }

var ends = []string{"return", "panic string", "panic error", "panic nil map", "panic nil", "goexit", "panic in defer", "nested"}

func mkErr(kind, i int) error {
	switch kind {
	case 1:
		return fmt.Errorf("closer %d failed", i)
	case 2:
		return sliceErr{"closer", fmt.Sprint(i)}
	case 3:
		return fmt.Errorf("closer %d: %w", i, io.ErrClosedPipe)
	case 4:
		return io.EOF // the same error from several closers
	case 5:
		return (*typedNil)(nil)
	case 6:
		return joined{[]error{io.EOF, errors.New(fmt.Sprint(i))}}
	case 7:
		return vk.WellKnown[i%len(vk.WellKnown)]
	}
	return nil
}

func same(a, b error) (eq bool) {
	if x, ok := a.(sliceErr); ok {
		y, ok := b.(sliceErr)
		return ok && len(x) == len(y) && &x[0] == &y[0]
	}
	if x, ok := a.(joined); ok {
		y, ok := b.(joined)
		return ok && &x.errs[0] == &y.errs[0]
	}
	if _, ok := b.(sliceErr); ok {
		return false
	}
	if _, ok := b.(joined); ok {
		return false
	}
	return a == b
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one number of closers, one pattern of failures and one way the function ends; non-trivial when a closer fails or the function does not return normally; all are distinct.", func(c *vk.C) {
		for n := 0; n <= c.N(8, 12); n++ {
			for mask := 0; mask < 1<<n; mask++ {
				for _, end := range ends {
					kinds := make([]int, n)
					for i := range kinds {
						if mask>>i&1 == 1 {
							kinds[i] = 1 + (i+mask)%7
						}
					}
					one(c, kinds, end)
				}
			}
		}
		r := c.Rand("large")
		for i := 0; i < c.N(500, 20000); i++ {
			kinds := make([]int, r.IntN(300))
			for j := range kinds {
				if r.IntN(3) == 0 {
					kinds[j] = 1 + r.IntN(7)
				}
			}
			one(c, kinds, ends[r.IntN(len(ends))])
		}
		for _, n := range []int{1000, 3000, 33000, 66000, 70000} { // counts beyond 10, 15 and 16 bits
			for _, share := range []int{1, 2, 500} {
				kinds := make([]int, n)
				for j := range kinds {
					if r.IntN(share) == 0 {
						kinds[j] = 1 + r.IntN(7)
					}
				}
				kinds[n-1] = 1
				one(c, kinds, ends[r.IntN(len(ends))])
				one(c, kinds, "return")
				c.Count("scopes with thousands of closers", 2)
			}
		}
		r = c.Rand("again")
		for i := 0; i < c.N(800, 30000); i++ {
			again(c, r)
		}
	})
}

// counting is a closer without identity: equal ones are the same value.
type counting struct {
	i, fails int
	log      *[]string
}

func (k counting) Close() error {
	*k.log = append(*k.log, fmt.Sprint("close ", k.i))
	return mkErr(k.fails, k.i)
}

// bundle is a closer that cannot be compared.
type bundle []*closer

func (b bundle) Close() error { return b[0].Close() }

// again calls one scope several times, with closers that are values, that
// cannot be compared, and that occur more than once.
func again(c *vk.C, r *rand.Rand) {
	var log []string
	n := r.IntN(6)
	var closers []io.Closer
	var desc []string
	cls := map[int]*closer{}
	for i := 0; i < n; i++ {
		id := r.IntN(4)
		if cls[id] == nil {
			cls[id] = &closer{i: 10 + id, log: &log}
		}
		switch r.IntN(4) {
		case 0:
			closers = append(closers, counting{id, 4 * (id % 2), &log})
			desc = append(desc, fmt.Sprint("value ", id))
		case 1:
			closers = append(closers, bundle{cls[id]})
			desc = append(desc, fmt.Sprint("uncomparable ", id))
		default:
			closers = append(closers, cls[id])
			desc = append(desc, fmt.Sprint("pointer ", id))
		}
	}
	var runs []string
	type result struct{ got, want []error }
	var results []result
	fail := func(what string) {
		c.Violate(what, map[string]any{"closers": desc, "calls": runs, "events of the last call": log})
	}
	scope := usingx.Close(closers...)
	for call := 0; call < 1+r.IntN(4); call++ {
		log = log[:0]
		kinds := map[int]int{}
		for id, cl := range cls {
			kinds[id] = max(0, r.IntN(14)-6)
			cl.err = mkErr(kinds[id], id)
		}
		wantLog := []string{"function"}
		var want []error
		for i, cl := range closers {
			var e error
			switch x := cl.(type) {
			case counting:
				wantLog = append(wantLog, fmt.Sprint("close ", x.i))
				e = mkErr(x.fails, x.i)
			case bundle:
				wantLog = append(wantLog, fmt.Sprint("close ", x[0].i))
				e = x[0].err
			case *closer:
				wantLog = append(wantLog, fmt.Sprint("close ", x.i))
				e = x.err
			}
			if e != nil {
				want = append(want, e)
			}
			_ = i
		}
		panics := r.IntN(4) == 0
		runs = append(runs, fmt.Sprintf("failures %v, panics: %v", kinds, panics))
		c.Distinct(vk.HashS(fmt.Sprint(desc, runs)))
		c.Eval(1)
		var got []error
		err := vk.TryFast(func() {
			got = scope(func() {
				log = append(log, "function")
				if panics {
					panic("the panic")
				}
			})
		})
		if fmt.Sprint(log) != fmt.Sprint(wantLog) {
			fail(fmt.Sprintf("call %d of the scope did not run the function once and then every closer once per place in the list: %v, want %v", call, log, wantLog))
		}
		if panics != (err != nil) {
			fail(fmt.Sprintf("call %d of the scope: panic %v", call, err))
		}
		if !panics {
			results = append(results, result{got, want})
		}
		for k, x := range results {
			ok := len(x.got) == len(x.want) && (len(x.want) > 0 || x.got == nil)
			for i := range x.want {
				ok = ok && same(x.want[i], x.got[i])
			}
			if !ok {
				fail(fmt.Sprintf("after call %d of the scope the result of its normal call %d is %v, want %v", call, k, x.got, x.want))
			}
		}
		c.Count("calls of a scope used again", 1)
	}
}

func one(c *vk.C, kinds []int, end string) {
	var log []string
	var want []error
	var closers []io.Closer
	wantLog := []string{"function"}
	if end == "nested" {
		wantLog = append(wantLog, "close 1000", "close 1001")
	}
	for i, k := range kinds {
		cl := &closer{i: i, err: mkErr(k, i), log: &log}
		if k != 0 {
			want = append(want, cl.err)
		}
		if i%3 == 2 {
			closers = append(closers, valueCloser{cl})
		} else {
			closers = append(closers, cl)
		}
		wantLog = append(wantLog, fmt.Sprint("close ", i))
	}
	desc := fmt.Sprintf("%d closers, errors %v, function ends by: %s", len(kinds), kinds, end)
	fail := func(what string) {
		c.Violate(what, map[string]any{"case": desc, "events": log, "want_events": wantLog})
	}
	var got []error
	var caught any
	returned, finished := false, false
	done := make(chan struct{})
	perr := errors.New("the panic")
	go func() {
		defer close(done)
		defer func() { caught = recover(); finished = true }()
		got = usingx.Close(closers...)(func() {
			log = append(log, "function")
			switch end {
			case "panic string":
				panic("the panic")
			case "panic error":
				panic(perr)
			case "panic nil map":
				var m map[int]int
				m[1] = 1
			case "panic nil":
				panic(nil)
			case "goexit":
				runtime.Goexit()
			case "panic in defer":
				defer func() { panic("the panic") }()
			case "nested":
				e := usingx.Close(&closer{i: 1000, err: io.EOF, log: &log}, &closer{i: 1001, log: &log})(func() {})
				if len(e) != 1 || e[0] != io.EOF {
					log = append(log, fmt.Sprint("inner scope returned ", e))
				}
			}
		})
		returned = true
	}()
	<-done
	_ = finished
	c.Eval(1)
	if len(want) > 0 || end != "return" {
		c.Distinct(vk.HashS(desc))
	}
	c.Count("ended by "+end, 1)
	if fmt.Sprint(log) != fmt.Sprint(wantLog) {
		fail("the function did not run once followed by every closer once in order")
	}
	switch end {
	case "return", "nested":
		if caught != nil {
			fail(fmt.Sprintf("panics: %v", caught))
		}
		if !returned {
			fail("does not return")
		}
		if len(want) == 0 && got != nil {
			fail(fmt.Sprintf("no closer failed but the result is %#v, not nil", got))
		}
		ok := len(got) == len(want)
		for i := range want {
			ok = ok && same(want[i], got[i])
		}
		if !ok {
			fail(fmt.Sprintf("returned errors %v, want %v", got, want))
		}
	case "goexit":
		if returned || caught != nil {
			fail(fmt.Sprintf("the goroutine exit of the function was stopped (returned %v, panic %v)", returned, caught))
		}
	default:
		if returned || caught == nil {
			fail("the panic of the function did not continue")
		}
		switch v := caught.(type) {
		case string:
			if v != "the panic" {
				fail(fmt.Sprintf("the panic of the function became %v", caught))
			}
		case *runtime.PanicNilError:
			if end != "panic nil" {
				fail(fmt.Sprintf("the panic of the function became %v", caught))
			}
		case error:
			if end == "panic error" && v != perr || end == "panic nil map" && !strings.Contains(v.Error(), "nil map") {
				fail(fmt.Sprintf("the panic of the function became %v", caught))
			}
		default:
			fail(fmt.Sprintf("the panic of the function became %v", caught))
		}
	}
}
