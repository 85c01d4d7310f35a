// C52: functions supplied by the caller fail at every point. Each scenario
// calls one operation whose callback panics (or ends its goroutine) at its
// k-th call, watches what reaches the caller, and then puts the object to use:
// it must answer, and hold what it held.
package c52

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"net/http"
	"os"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"github.com/unsafe-risk/utilx/syncx/lockx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

// fault makes the k-th call of a callback fail.
type fault struct {
	mode string
	k    int
	n    int
	hit  bool
	v    int // which of values
}

type token struct{ n int }

var (
	thrown    = &token{1}
	errThrown = errors.New("thrown")
	values    = append([]any{"", "text", 0, -1, false, struct{}{}, 'x', 1.5, os.Interrupt, http.ErrAbortHandler, reflect.TypeOf(0)}, wellKnown()...)
)

func wellKnown() (out []any) {
	for _, e := range vk.WellKnown {
		out = append(out, e)
	}
	return out
}

// call is what every callback does first.
func (f *fault) call() {
	f.n++
	if f.n-1 != f.k {
		return
	}
	f.hit = true
	switch f.mode {
	case "pointer":
		panic(thrown)
	case "error":
		panic(errThrown)
	case "value":
		panic(values[f.v%len(values)])
	case "runtime error":
		var m map[int]int
		m[0] = 1
	case "goexit":
		runtime.Goexit()
	}
}

// outcome is how an attack ended.
type outcome struct {
	returned bool
	value    any
	stack    string
}

func (f *fault) wrong(o outcome) string {
	if !f.hit {
		if o.value != nil {
			return fmt.Sprint("panic without a failing callback: ", o.value, "\n", o.stack)
		}
		if !o.returned {
			return "the call did not return although no callback failed"
		}
		return ""
	}
	if o.returned {
		return "the call returned although its callback failed: the failure is swallowed"
	}
	switch f.mode {
	case "pointer":
		if o.value != any(thrown) {
			return fmt.Sprint("the caller's panic value arrives as ", o.value)
		}
	case "error":
		if o.value != any(errThrown) {
			return fmt.Sprint("the caller's panic value arrives as ", o.value)
		}
	case "runtime error":
		if e, ok := o.value.(runtime.Error); !ok || !strings.Contains(e.Error(), "nil map") {
			return fmt.Sprint("the callback's runtime error arrives as ", o.value)
		}
	case "value":
		if w := values[f.v%len(values)]; o.value != w {
			return fmt.Sprintf("the caller's panic value %T %v arrives as %T %v", w, w, o.value, o.value)
		}
	case "goexit":
		if o.value != nil {
			return fmt.Sprint("a callback that ended its goroutine became the panic ", o.value)
		}
	}
	return ""
}

// run executes f in a goroutine of its own and reports how it ended; false if
// it did not end.
func run(f func()) (o outcome, ended bool) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if !o.returned {
				if o.value = recover(); o.value != nil {
					b := make([]byte, 1<<14)
					o.stack = string(b[:runtime.Stack(b, false)])
				}
			}
		}()
		f()
		o.returned = true
	}()
	t := time.NewTimer(30 * time.Second)
	defer t.Stop()
	select {
	case <-done:
		return o, true
	case <-t.C:
		return outcome{}, false
	}
}

// target is an object with one operation under attack.
type target struct {
	name   string
	attack func(f *fault)
	after  func(f *fault) error // puts the object to use and checks it
	own    bool                 // the failure stays in a goroutine of the object's own
}

func ints(r *rand.Rand, n int) []int {
	v := make([]int, n)
	for i := range v {
		v[i] = r.IntN(2*n + 1)
	}
	return v
}

func same(what string, got, want any) error {
	if fmt.Sprint(got) != fmt.Sprint(want) {
		return fmt.Errorf("%s: %v, should be %v", what, got, want)
	}
	return nil
}

type from struct{ v int }
type to struct{ v int }
type closer func() error

func (c closer) Close() error { return c() }

// large is an element of more than 2 kB.
type large struct {
	a int
	_ [300]int
	b int
}

// containers are the targets that hold elements of type T, which mk makes and
// of knows again.
func containers[T any](m map[string]func(r *rand.Rand) target, suffix string, mk func(int) T, of func(T) int) {
	made := func(is []int) []T {
		out := make([]T, len(is))
		for i, v := range is {
			out[i] = mk(v)
		}
		return out
	}
	numbers := func(vs []T) []int {
		out := make([]int, len(vs))
		for i, v := range vs {
			out[i] = of(v)
		}
		return out
	}
	list := func(fresh func() interface {
		Append(T)
		Insert(int, T)
		Remove(int) (T, bool)
		Iterate(func(T) bool)
		Len() int
	}) func(r *rand.Rand) target {
		return func(r *rand.Rand) target {
			l := fresh()
			want := ints(r, r.IntN(12))
			for _, v := range want {
				l.Append(mk(v))
			}
			return target{attack: func(f *fault) { l.Iterate(func(T) bool { f.call(); return true }) }, after: func(*fault) error {
				l.Append(mk(-1))
				l.Insert(0, mk(-2))
				want := append(append([]int{-2}, want...), -1)
				var got []int
				l.Iterate(func(v T) bool { got = append(got, of(v)); return true })
				if err := same("elements", got, want); err != nil {
					return err
				}
				v, ok := l.Remove(0)
				return same("Remove and Len", []any{of(v), ok, l.Len()}, []any{-2, true, len(want) - 1})
			}}
		}
	}
	type lister = interface {
		Append(T)
		Insert(int, T)
		Remove(int) (T, bool)
		Iterate(func(T) bool)
		Len() int
	}
	m["linked list"+suffix+", Iterate"] = list(func() lister { return llist.New[T]() })
	m["slice list"+suffix+", Iterate"] = list(func() lister { return new(slist.List[T]) })
	visitors := map[string]func(s *slicex.Slice[T], f *fault){
		"Each":     func(s *slicex.Slice[T], f *fault) { s.Each(func(T) { f.call() }) },
		"ForEach":  func(s *slicex.Slice[T], f *fault) { s.ForEach(func(int, T) { f.call() }) },
		"IndexOf":  func(s *slicex.Slice[T], f *fault) { s.IndexOf(func(T) bool { f.call(); return false }) },
		"Contains": func(s *slicex.Slice[T], f *fault) { s.Contains(func(T) bool { f.call(); return false }) },
	}
	for name, do := range visitors {
		m["slice"+suffix+", "+name] = func(r *rand.Rand) target {
			want := ints(r, r.IntN(12))
			s := slicex.New(made(want)...)
			return target{attack: func(f *fault) { do(s, f) }, after: func(*fault) error {
				s.Push(mk(9)).UnShift(mk(8))
				return same("elements", numbers(*s), append(append([]int{8}, want...), 9))
			}}
		}
	}
	sorts := map[string]func(v []T, less func(a, b T) bool){
		"SortCustom":       func(v []T, less func(a, b T) bool) { sortx.SortCustom(v, less) },
		"SortStableCustom": func(v []T, less func(a, b T) bool) { sortx.SortStableCustom(v, less) },
		"IsSortedCustom":   func(v []T, less func(a, b T) bool) { sortx.IsSortedCustom(v, less) },
	}
	for name, do := range sorts {
		m[name+suffix] = func(r *rand.Rand) target {
			want := ints(r, r.IntN([]int{5, 20, 200}[r.IntN(3)]))
			if name == "IsSortedCustom" {
				sort.Ints(want)
			}
			v := made(want)
			if name != "IsSortedCustom" {
				slices.Sort(want)
			}
			return target{attack: func(f *fault) { do(v, func(a, b T) bool { f.call(); return of(a) < of(b) }) }, after: func(*fault) error {
				got := numbers(v)
				if name != "IsSortedCustom" {
					slices.Sort(got)
				}
				return same("elements (in order)", got, want)
			}}
		}
	}
}

func makers() map[string]func(r *rand.Rand) target {
	m := map[string]func(r *rand.Rand) target{}
	num := func(v int) int { return v }
	containers(m, "", num, num)
	containers(m, " of texts", func(v int) string { return fmt.Sprint(v) }, func(v string) int { n, _ := strconv.Atoi(v); return n })
	containers(m, " of any", func(v int) any { return v }, func(v any) int { return v.(int) })
	containers(m, " of arrays", func(v int) [33]int { return [33]int{0: v, 32: v} }, func(v [33]int) int { return v[0] + (v[32]-v[0])*1000 })
	containers(m, " of large structs", func(v int) large { return large{a: v, b: v} }, func(v large) int {
		if v.a != v.b {
			return -1 << 30
		}
		return v.a
	})
	m["ordered map, Range"] = func(r *rand.Rand) target {
		o := ordmapx.New[int, int]()
		d := map[int]int{}
		for _, k := range ints(r, r.IntN(15)) {
			o.Set(k, k*3)
			d[k] = k * 3
		}
		edit := r.IntN(2) == 0
		return target{attack: func(f *fault) {
			o.Range(func(k, v int) bool {
				if edit {
					o.Del(k)
					delete(d, k)
					o.Set(k+1000, v)
					d[k+1000] = v
				}
				f.call()
				return k >= 1000
			})
		}, after: func(*fault) error {
			o.Set(-5, 7)
			d[-5] = 7
			var ks, vs []int
			for k := range d {
				ks = append(ks, k)
			}
			sort.Ints(ks)
			for _, k := range ks {
				vs = append(vs, d[k])
			}
			var rk, rv []int
			o.Range(func(k, v int) bool { rk, rv = append(rk, k), append(rv, v); return false })
			return same("Keys, Values, Range, Len", []any{o.Keys(), o.Values(), rk, rv, o.Len()}, []any{ks, vs, ks, vs, len(ks)})
		}}
	}
	m["SearchCustom"] = func(r *rand.Rand) target {
		v := ints(r, r.IntN(40))
		sort.Ints(v)
		want := slices.Clone(v)
		x := r.IntN(60)
		return target{attack: func(f *fault) { searchx.SearchCustom(v, x, func(a, b int) int { f.call(); return a - b }) }, after: func(*fault) error {
			return same("elements", v, want)
		}}
	}
	m["conversion"] = func(r *rand.Rand) target {
		var f *fault
		convx.Register(func(x from) to { f.call(); return to{x.v * 2} })
		nested := r.IntN(2) == 0
		if nested {
			convx.Register(func(x *from) *to {
				y, _ := convx.Into[from, to](*x)
				return &y
			})
		}
		or := r.IntN(2) == 0
		waiting := r.IntN(2) == 0
		return target{attack: func(g *fault) {
			f = g
			if waiting { // somebody wants to register while the converter runs
				go convx.Register(func(x to) from { return from{x.v / 2} })
			}
			switch {
			case nested:
				convx.Into[*from, *to](&from{4})
			case or:
				convx.IntoOr[from](from{4}, to{1})
			default:
				convx.Into[from, to](from{4})
			}
		}, after: func(*fault) error {
			f = &fault{k: -1}
			y, ok := convx.Into[from, to](from{21})
			if err := same("Into", []any{y.v, ok, convx.Exists[from, to]()}, []any{42, true, true}); err != nil {
				return err
			}
			convx.Register(func(x from) to { return to{x.v + 1} })
			y, ok = convx.Into[from, to](from{21})
			if err := same("Into after Register", []any{y.v, ok}, []any{22, true}); err != nil {
				return err
			}
			convx.Unregister[from, to]()
			_, ok = convx.Into[from, to](from{21})
			return same("Into after Unregister", ok, false)
		}}
	}
	m["decoupler, view"] = func(r *rand.Rand) target {
		size := 1 + r.IntN(5)
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) { return 0, io.ErrShortWrite })
		n := r.IntN(size + 1)
		for s := r.IntN(2 * size); s > 0; s-- { // start anywhere in the ring
			d.Write([]byte("x"))
			d.Next(nil)
		}
		for i := 0; i < n; i++ {
			d.Write([]byte{byte(i + 1)})
		}
		seen := 0
		return target{attack: func(f *fault) {
			for d.Next(func([]byte) { f.call(); seen++ }) {
			}
		}, after: func(f *fault) error {
			// The message whose view failed may come again or not; the others
			// come in order, and the capacity is what it was.
			var want []byte
			for i := seen; i < n; i++ {
				want = append(want, byte(i+1))
			}
			var got []byte
			for d.Next(func(b []byte) { got = append(got, b...) }) {
				if len(got) > 100 {
					break
				}
			}
			if string(got) != string(want) && !(f.hit && len(want) > 0 && string(got) == string(want[1:])) {
				return fmt.Errorf("messages %v are delivered afterwards, %v were waiting", got, want)
			}
			took := 0
			for i := 0; i < size+3; i++ {
				if n, err := d.Write([]byte{100 + byte(i)}); err == nil && n == 1 {
					took++
				}
			}
			if took != size {
				return fmt.Errorf("a decoupler of size %d takes %d messages afterwards", size, took)
			}
			for i := 0; i < size; i++ {
				ok := d.Next(func(b []byte) { got = b })
				if !ok || len(got) != 1 || got[0] != 100+byte(i) {
					return fmt.Errorf("later message %d arrives as %v %v", i, got, ok)
				}
			}
			return nil
		}}
	}
	m["decoupler, drop"] = func(r *rand.Rand) target {
		size := 1 + r.IntN(4)
		var f *fault
		d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) { f.call(); return 0, io.ErrShortWrite })
		return target{attack: func(g *fault) {
			f = g
			for i := 0; i < size+6; i++ {
				d.Write([]byte{byte(i + 1)})
			}
		}, after: func(*fault) error {
			f = &fault{k: -1}
			n, err := d.Write([]byte{99})
			if n != 0 || err != io.ErrShortWrite {
				return fmt.Errorf("a full decoupler takes a write: %d %v", n, err)
			}
			for round := 0; round < 2; round++ {
				for i := 0; i < size; i++ {
					var got []byte
					ok := d.Next(func(b []byte) { got = append(got, b...) })
					if !ok || len(got) != 1 || got[0] != byte(i+1) {
						return fmt.Errorf("message %d arrives as %v %v", i, got, ok)
					}
				}
				if d.Next(nil) {
					return errors.New("one message too many")
				}
				for i := 0; i < size; i++ {
					if n, err := d.Write([]byte{byte(i + 1)}); n != 1 || err != nil {
						return fmt.Errorf("write %d after all was read: %d %v", i, n, err)
					}
				}
			}
			return nil
		}}
	}
	m["close manager"] = func(r *rand.Rand) target {
		c := closex.New()
		var f *fault
		closed := make([]int, r.IntN(6))
		for i := range closed {
			c.Append(closer(func() error { f.call(); closed[i]++; return nil }))
		}
		return target{attack: func(g *fault) { f = g; c.Close() }, after: func(g *fault) error {
			f = &fault{k: -1}
			first := slices.Clone(closed)
			later := 0
			c.Append(closer(func() error { later++; return errThrown }))
			err := c.Close()
			if later == 0 {
				return errors.New("a closer registered afterwards is not closed")
			}
			if l, ok := closex.AsErrs(err); !ok || len(l) == 0 || l[len(l)-1] != errThrown {
				return fmt.Errorf("the failure of a closer registered afterwards is not reported: %v", err)
			}
			for i := range closed {
				if closed[i] == 0 {
					return fmt.Errorf("closer %d of %d is never closed (before: %v)", i, len(closed), first)
				}
				_ = g
			}
			return nil
		}}
	}
	m["typed object pool, constructor"] = func(r *rand.Rand) target {
		var p syncpoolx.Pool[to]
		var f *fault
		p.Init(func() *to { f.call(); return &to{5} })
		held := r.IntN(4)
		return target{attack: func(g *fault) {
			f = g
			for i := 0; i <= held; i++ {
				p.Get()
			}
		}, after: func(*fault) error {
			f = &fault{k: -1}
			a, b := p.Get(), p.Get()
			if a == nil || b == nil || a == b || a.v != 5 || b.v != 5 {
				return fmt.Errorf("Get returns %v %v", a, b)
			}
			p.Put(a)
			return nil
		}}
	}
	m["lazy value"] = func(r *rand.Rand) target {
		var f *fault
		l := lazyx.New(func() int { f.call(); return 5 })
		return target{attack: func(g *fault) { f = g; l.Get() }, after: func(g *fault) error {
			// What a failed constructor leaves is not said, but callers return.
			v := l.Get()
			if !g.hit && v != 5 {
				return fmt.Errorf("Get returns %d", v)
			}
			return nil
		}}
	}
	m["critical section"] = func(r *rand.Rand) target {
		type cell struct {
			self unsafe.Pointer
			n    int
		}
		x := new(cell)
		x.self = unsafe.Pointer(x)
		rounds := r.IntN(4)
		return target{attack: func(f *fault) {
			for i := 0; i <= rounds; i++ {
				lockx.Lock(x, func(c *cell) { f.call(); c.n++ })
			}
		}, after: func(*fault) error {
			n := x.n
			var wg sync.WaitGroup
			for g := 0; g < 3; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					lockx.Lock(x, func(c *cell) { c.n++ })
				}()
			}
			wg.Wait()
			return same("sections run afterwards", x.n-n, 3)
		}}
	}
	m["goroutine pool, handler that ends its goroutine"] = func(r *rand.Rand) target {
		var f *fault
		var mu sync.Mutex
		var ran atomic.Int64
		max := 1 + r.IntN(4)
		p, err := gopoolx.NewTimedPool(int64(max), func(int) {
			ran.Add(1)
			mu.Lock()
			defer mu.Unlock()
			if f.mode == "goexit" {
				f.call()
			}
		}, time.Hour, time.Hour, r.IntN(max+1))
		if err != nil {
			panic(err)
		}
		tasks := 1 + r.IntN(8)
		put := func() error {
			for i := 0; ; i++ {
				if p.Run(1) {
					return nil
				}
				if i > 20000 {
					return fmt.Errorf("the pool refuses tasks for ever with nothing to do (%d of %d workers)", p.Workers(), max)
				}
				time.Sleep(100 * time.Microsecond)
			}
		}
		return target{own: true, attack: func(g *fault) {
			f = g
			for i := 0; i < tasks; i++ {
				if put() != nil {
					return // after says more
				}
			}
		}, after: func(*fault) error {
			for i := 0; i < 3*max; i++ {
				if err := put(); err != nil {
					return err
				}
			}
			for i := 0; ran.Load() != int64(tasks+3*max); i++ {
				if i > 20000 {
					return fmt.Errorf("%d of %d accepted tasks ran", ran.Load(), tasks+3*max)
				}
				time.Sleep(100 * time.Microsecond)
			}
			// All workers at once, still.
			mu.Lock()
			busy := 0
			for i := 0; i < 20000 && busy < max; i++ {
				if p.Run(1) {
					busy++
				} else {
					time.Sleep(100 * time.Microsecond)
				}
			}
			mu.Unlock()
			if busy != max {
				return fmt.Errorf("the pool runs %d tasks at once, its limit is %d", busy, max)
			}
			p.Stop()
			for i := 0; p.Workers() != 0; i++ {
				if i > 20000 {
					return fmt.Errorf("%d workers are left after Stop", p.Workers())
				}
				time.Sleep(100 * time.Microsecond)
			}
			return nil
		}}
	}
	for name, mk := range m {
		m[name] = func(r *rand.Rand) target { t := mk(r); t.name = name; return t }
	}
	return m
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one object of random content, one operation, one way for its callback to fail and one call of the callback to fail at, followed by use of the object; distinct by these and the seed. Cases in which the callback was not called often enough to fail are run and counted apart.", func(c *vk.C) {
		ms := makers()
		var names []string
		for n := range ms {
			names = append(names, n)
		}
		sort.Strings(names)
		modes := []string{"pointer", "error", "value", "runtime error", "goexit"}
		n := c.N(60, 1500)
		for _, name := range names {
			r := c.Rand("c52", int(vk.HashS(name)&0xffff))
			for _, mode := range modes {
				for i := 0; i < n; i++ {
					seed := r.Uint64()
					f := &fault{mode: mode, k: r.IntN(1 + r.IntN([]int{3, 10, 300}[r.IntN(3)])), v: i}
					tg := ms[name](rand.New(rand.NewPCG(seed, 2)))
					detail := map[string]any{"operation": name, "failure": mode, "at call": f.k, "seed": seed}
					o, ended := run(func() { tg.attack(f) })
					if !ended {
						detail["stacks"] = stacks()
						c.Violate("the call did not end", detail)
					}
					if !tg.own {
						if w := f.wrong(o); w != "" {
							detail["observed"] = w
							c.Violate("what happens in the caller's function does not reach the caller", detail)
						}
					}
					var err error
					o, ended = run(func() { err = tg.after(f) })
					if !ended {
						detail["stacks"] = stacks()
						c.Violate("the object does not answer after the caller's function failed", detail)
					}
					if o.value != nil {
						err = fmt.Errorf("panic: %v\n%s", o.value, o.stack)
					}
					if err != nil {
						detail["observed"] = err.Error()
						c.Violate("the object is damaged after the caller's function failed", detail)
					}
					c.Eval(1)
					if f.hit || tg.own {
						c.Distinct(vk.Hash([]any{name, mode, f.k, seed}))
						c.Count(name+": failures", 1)
					} else {
						c.Count("cases in which no callback failed", 1)
					}
				}
			}
		}
		c.Sample(map[string]any{"operations": names, "failures": modes})
	})
}

func stacks() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}
