// C59: what has left an object is let go. Every element is a heap object of its
// own that is watched through a weak pointer; after collections only those
// the object still holds may be alive.
package c59

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"
	"unsafe"
	"weak"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	squeue "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/timex/sleepx"
	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

// slack is the number of elements an object may hold on to beyond its
// contents (slots of a block that is still in use, the last element seen).
const slack = 200

type elem struct {
	id  int
	pad [7]uint64
}

// watcher knows which elements exist and which ought to.
type watcher struct {
	weak []weak.Pointer[elem]
	in   map[int]bool
}

func (w *watcher) fresh() *elem {
	e := &elem{id: len(w.weak)}
	w.weak = append(w.weak, weak.Make(e))
	return e
}

func collect() {
	for i := 0; i < 3; i++ { // object pools let go at the second collection
		runtime.GC()
	}
}

// judge counts the elements that are alive although nothing should hold them.
func (w *watcher) judge() (held, lost int) {
	for id, p := range w.weak {
		switch alive := p.Value() != nil; {
		case alive && !w.in[id]:
			held++
		case !alive && w.in[id]:
			lost++
		}
	}
	return
}

// holder is an object that elements are given to and taken from.
type holder[T any] struct {
	name  string
	add   func(r *rand.Rand, v T) (out []T, ok bool) // out: what it replaced
	take  func(r *rand.Rand) (T, bool)
	clear func()
}

type kind[T any] struct {
	name string
	wrap func(*elem) T
	get  func(T) *elem
}

func holders[T any](n int) []holder[T] {
	d := dequex.New[T]()
	l := llist.New[T]()
	q := lqueue.New[T]()
	s := lstack.New[T]()
	g := squeue.New[T](n)
	t := sstack.New[T]()
	om := ordmapx.New[int, T]()
	sm := sklmapx.New[int, T]()
	ym := syncmapx.New[int, T]()
	some := func(r *rand.Rand, most int) int { return r.IntN(most) }
	return []holder[T]{
		{"deque", func(r *rand.Rand, v T) ([]T, bool) {
			if r.IntN(2) == 0 {
				d.PushFront(v)
			} else {
				d.PushBack(v)
			}
			return nil, true
		}, func(r *rand.Rand) (T, bool) {
			if r.IntN(3) == 0 {
				return d.PopFront()
			}
			return d.PopBack()
		}, nil},
		{"linked list", func(r *rand.Rand, v T) ([]T, bool) {
			if r.IntN(2) == 0 {
				l.Insert(min(l.Len(), r.IntN(20)), v)
			} else {
				l.Append(v)
			}
			return nil, true
		}, func(r *rand.Rand) (T, bool) { return l.Remove(min(max(0, l.Len()-1), r.IntN(50))) }, nil},
		{"linked queue", func(r *rand.Rand, v T) ([]T, bool) { return nil, q.Enqueue(v) }, func(*rand.Rand) (T, bool) { return q.Dequeue() }, nil},
		{"linked stack", func(r *rand.Rand, v T) ([]T, bool) { return nil, s.Push(v) }, func(*rand.Rand) (T, bool) { return s.Pop() }, nil},
		{"ring queue", func(r *rand.Rand, v T) ([]T, bool) { return nil, g.Enqueue(v) }, func(*rand.Rand) (T, bool) { return g.Dequeue() }, nil},
		{"slice-backed stack", func(r *rand.Rand, v T) ([]T, bool) { return nil, t.Push(v) }, func(*rand.Rand) (T, bool) { return t.Pop() }, nil},
		{"ordered map", func(r *rand.Rand, v T) (out []T, ok bool) {
			k := some(r, n)
			if o, ok := om.Get(k); ok {
				out = append(out, o)
			}
			om.Set(k, v)
			return out, true
		}, func(r *rand.Rand) (v T, ok bool) {
			om.Range(func(k int, o T) bool { v, ok = o, true; defer om.Del(k); return true })
			return
		}, om.Clear},
		{"skip-list map", func(r *rand.Rand, v T) (out []T, ok bool) {
			k := some(r, n)
			if o, ok := sm.Get(k); ok {
				out = append(out, o)
			}
			sm.Set(k, v)
			return out, true
		}, func(r *rand.Rand) (v T, ok bool) {
			k, v, ok := sm.Iterator().Next()
			for i := 0; i < 5; i++ {
				if w, there := sm.Get(k + i*i); there && r.IntN(2) == 0 {
					k, v = k+i*i, w
				}
			}
			if ok {
				sm.Del(k)
			}
			return v, ok
		}, sm.Clear},
		{"goroutine-safe map", func(r *rand.Rand, v T) (out []T, ok bool) {
			k := some(r, n)
			if ym.Has(k) {
				out = append(out, ym.Get(k))
			}
			ym.Set(k, v)
			return out, true
		}, func(r *rand.Rand) (v T, ok bool) {
			for i, k := 0, some(r, n); i < n; i++ {
				if k = (k + 1) % n; ym.Has(k) {
					v = ym.Get(k)
					ym.Delete(k)
					return v, true
				}
			}
			return
		}, ym.Clear},
	}
}

type pair struct {
	name string
	p    *elem
	n    int
}

// large is an element of more than 2 kB.
type large struct {
	a [150]int
	p *elem
	b [120]int
}

type fault struct{ e *elem }

func (fault) Error() string { return "fault" }

func kinds() []func(s *suite) {
	return []func(s *suite){
		func(s *suite) {
			histories(s, kind[*elem]{"pointers", func(e *elem) *elem { return e }, func(e *elem) *elem { return e }})
		},
		func(s *suite) {
			histories(s, kind[any]{"interface values", func(e *elem) any { return e }, func(v any) *elem { return v.(*elem) }})
		},
		func(s *suite) {
			histories(s, kind[pair]{"structs", func(e *elem) pair { return pair{"x", e, e.id} }, func(v pair) *elem { return v.p }})
		},
		func(s *suite) {
			histories(s, kind[[]*elem]{"slices", func(e *elem) []*elem { return []*elem{e} }, func(v []*elem) *elem { return v[0] }})
		},
		func(s *suite) {
			histories(s, kind[large]{"large structs", func(e *elem) large { return large{p: e} }, func(v large) *elem { return v.p }})
		},
		func(s *suite) {
			histories(s, kind[[2]*elem]{"arrays", func(e *elem) [2]*elem { return [2]*elem{1: e} }, func(v [2]*elem) *elem { return v[1] }})
		},
		func(s *suite) {
			histories(s, kind[map[int]*elem]{"maps", func(e *elem) map[int]*elem { return map[int]*elem{e.id: e} }, func(v map[int]*elem) *elem {
				for _, e := range v {
					return e
				}
				return nil
			}})
		},
		func(s *suite) {
			histories(s, kind[chan *elem]{"channels", func(e *elem) chan *elem { c := make(chan *elem, 1); c <- e; return c }, func(v chan *elem) *elem { e := <-v; v <- e; return e }})
		},
		func(s *suite) {
			histories(s, kind[error]{"errors", func(e *elem) error { return fault{e} }, func(v error) *elem { return v.(fault).e }})
		},
		func(s *suite) {
			histories(s, kind[func() *elem]{"functions", func(e *elem) func() *elem { return func() *elem { return e } }, func(v func() *elem) *elem { return v() }})
		},
	}
}

type suite struct{ *vk.C }

// apart runs f on a goroutine of its own, so that nothing stays on a stack.
func apart(f func()) {
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if p := <-done; p != nil {
		panic(p)
	}
	vk.Tick()
}

func (s *suite) report(what string, w *watcher, detail map[string]any) {
	var held, lost int
	for try := 0; try < 6; try++ {
		collect()
		if held, lost = w.judge(); held <= slack && lost == 0 {
			break
		}
		time.Sleep(time.Duration(try) * 20 * time.Millisecond)
	}
	s.Eval(1)
	s.Max("most_let_go_in_one_object", len(w.weak)-len(w.in))
	s.Max("most_still_held_beyond_the_contents", held)
	s.Count("elements_watched", len(w.in))
	s.Distinct(vk.HashS(fmt.Sprint(what, detail, len(w.weak), len(w.in))))
	if lost > 0 {
		panic(fmt.Sprint("harness: elements that are held have been collected: ", what, lost))
	}
	if held > slack {
		detail["alive_without_being_held"] = held
		detail["made"] = len(w.weak)
		detail["in_the_object"] = len(w.in)
		s.Violate("what has left the object is not let go", map[string]any{"object": what, "case": detail})
	}
}

func histories[T any](s *suite, k kind[T]) {
	n := 3000
	if unsafe.Sizeof(*new(T)) > 1000 {
		n = 900
	}
	for i := range holders[T](1) {
		for rep := 0; rep < s.N(3, 30); rep++ {
			h := holders[T](n)[i]
			r := s.Rand(h.name+k.name, rep)
			w := &watcher{in: map[int]bool{}}
			s.Context("%s of %s, history %d", h.name, k.name, rep)
			put := func(r *rand.Rand) {
				e := w.fresh()
				out, ok := h.add(r, k.wrap(e))
				if !ok {
					return
				}
				w.in[e.id] = true
				for _, o := range out {
					delete(w.in, k.get(o).id)
				}
			}
			for wave := 0; wave < 4; wave++ {
				top := 1 + r.IntN(n)
				var low int
				switch r.IntN(3) {
				case 0:
				case 1:
					low = r.IntN(5)
				case 2:
					low = r.IntN(top)
				}
				apart(func() {
					for j := 0; j < 40*n && len(w.in) < top; j++ {
						if r.IntN(10) < 7 {
							put(r)
						} else if v, ok := h.take(r); ok {
							delete(w.in, k.get(v).id)
						}
						if w, ok := h.name, len(w.in) >= n-5; ok && w == "ring queue" {
							break
						}
					}
				})
				if wave%2 == 0 {
					s.report(h.name, w, map[string]any{"elements": k.name, "history": rep, "wave": wave, "at": "the top"})
				}
				apart(func() {
					if h.clear != nil && r.IntN(3) == 0 {
						h.clear()
						clear(w.in)
						return
					}
					for len(w.in) > low {
						v, ok := h.take(r)
						if !ok {
							break
						}
						delete(w.in, k.get(v).id)
					}
				})
				s.report(h.name, w, map[string]any{"elements": k.name, "history": rep, "wave": wave, "at": "the bottom"})
			}
			runtime.KeepAlive(h)
		}
	}
}

// keys: keys of the maps are let go as well.
func (s *suite) keys() {
	type stringMap struct {
		name  string
		set   func(string)
		del   func(string)
		clear func()
	}
	for rep := 0; rep < s.N(3, 30); rep++ {
		om, sm, ym := ordmapx.New[string, int](), sklmapx.New[string, int](), syncmapx.New[string, int]()
		for _, m := range []stringMap{
			{"ordered map", func(k string) { om.Set(k, 1) }, om.Del, om.Clear},
			{"skip-list map", func(k string) { sm.Set(k, 1) }, func(k string) { sm.Del(k) }, sm.Clear},
			{"goroutine-safe map", func(k string) { ym.Set(k, 1) }, ym.Delete, ym.Clear},
		} {
			for round := 0; round < 3; round++ {
				var ws []weak.Pointer[byte]
				left := 0
				apart(func() {
					var keys []string
					for i := 0; i < 2000; i++ {
						k := strings.Repeat("k", 60) + fmt.Sprintf("%06d", i*7919%2000)
						k = string(append([]byte(k), byte(rep)))
						ws = append(ws, weak.Make(unsafe.StringData(k)))
						keys = append(keys, k)
						m.set(k)
					}
					if round == 1 {
						m.clear()
						return
					}
					for i, k := range keys {
						if i%100 == 7 && round == 0 {
							left++
							continue
						}
						m.del(string([]byte(k)))
					}
				})
				alive := 0
				for try := 0; try < 5; try++ {
					collect()
					alive = 0
					for _, w := range ws {
						if w.Value() != nil {
							alive++
						}
					}
					if alive <= left+slack {
						break
					}
				}
				s.Eval(1)
				s.Count("keys_watched", len(ws))
				s.Distinct(vk.HashS(fmt.Sprint(m.name, rep, round)))
				if alive > left+slack {
					s.Violate("what has left the object is not let go", map[string]any{"object": m.name + ": keys", "alive": alive, "left_in_the_map": left, "round": round})
				}
				apart(m.clear)
			}
		}
		runtime.KeepAlive(om)
		runtime.KeepAlive(sm)
		runtime.KeepAlive(ym)
	}
}

func (s *suite) pools() {
	for rep := 0; rep < s.N(6, 80); rep++ {
		r := s.Rand("pools", rep)
		w := &watcher{in: map[int]bool{}}
		var wg sync.WaitGroup
		period := []time.Duration{time.Hour, 5 * time.Millisecond}[rep%2]
		workers := 1 + r.IntN(30)
		p, err := gopoolx.NewTimedPool(int64(workers), func(v any) {
			if v.(*elem).id%7 == 0 {
				runtime.Gosched()
			}
			wg.Done()
		}, period, period, r.IntN(10))
		if err != nil {
			panic(err)
		}
		for round := 0; round < 3; round++ {
			apart(func() {
				for i := 0; i < 3000; i++ {
					wg.Add(1)
					if !p.Run(w.fresh()) {
						wg.Done()
						if i%16 == 0 {
							runtime.Gosched()
						}
					}
				}
				wg.Wait()
			})
			s.report("goroutine pool: tasks", w, map[string]any{"workers": workers, "round": round, "collecting": period < time.Second})
		}
		apart(p.Stop)
		s.report("goroutine pool: tasks, after Stop", w, map[string]any{"workers": workers})
		runtime.KeepAlive(p)
	}
	// Pools that were stopped and dropped.
	for rep := 0; rep < s.N(2, 10); rep++ {
		w := &watcher{in: map[int]bool{}}
		apart(func() {
			for i := 0; i < 600; i++ {
				e := w.fresh()
				var wg sync.WaitGroup
				p, err := gopoolx.NewTimedPool(3, func(int) { e.pad[0]++; wg.Done() }, time.Hour, time.Hour, i%4)
				if err != nil {
					panic(err)
				}
				for k := 0; k < i%5; k++ {
					wg.Add(1)
					if !p.Run(k) {
						wg.Done()
					}
				}
				wg.Wait()
				p.Stop()
			}
		})
		time.Sleep(50 * time.Millisecond)
		s.report("stopped goroutine pools: what their handlers use", w, map[string]any{"repetition": rep})
	}
	// Objects that lie in an object pool may be reclaimed.
	for rep := 0; rep < s.N(3, 20); rep++ {
		w := &watcher{in: map[int]bool{}}
		var p syncpoolx.Pool[elem]
		p.Init(func() *elem { return w.fresh() })
		for round := 0; round < 3; round++ {
			apart(func() {
				var out []*elem
				for i := 0; i < 3000; i++ {
					out = append(out, p.Get())
				}
				for _, e := range out {
					p.Put(e)
				}
			})
			s.report("object pool", w, map[string]any{"round": round})
		}
		runtime.KeepAlive(&p)
	}
}

type key[T any] struct{}

// converters that were replaced or withdrawn, and what they use.
func (s *suite) converters() {
	for rep := 0; rep < s.N(3, 30); rep++ {
		w := &watcher{in: map[int]bool{}}
		for round := 0; round < 4; round++ {
			apart(func() {
				for i := 0; i < 1000; i++ {
					e := w.fresh()
					convx.Register(func(key[int]) int { return e.id })
					f := w.fresh()
					convx.Register(func(key[string]) *elem { return f })
					convx.Into[key[int], int](key[int]{})
					convx.Into[key[string], *elem](key[string]{})
					if round%2 == 0 && i == 999 {
						w.in[e.id] = true
					} else {
						convx.Unregister[key[int], int]()
					}
					if i%2 == 0 {
						convx.Unregister[key[string], *elem]()
					}
				}
			})
			s.report("conversion registry: converters", w, map[string]any{"round": round})
			apart(func() {
				convx.Unregister[key[int], int]()
				convx.Unregister[key[string], *elem]()
				clear(w.in)
			})
			s.report("conversion registry: converters", w, map[string]any{"round": round, "all": "withdrawn"})
		}
	}
}

// arguments of calls that keep nothing of them.
func (s *suite) arguments() {
	for rep := 0; rep < s.N(2, 20); rep++ {
		var ws []weak.Pointer[byte]
		arg := func(text string) []byte {
			b := make([]byte, 64)
			copy(b, text)
			ws = append(ws, weak.Make(&b[0]))
			return b
		}
		dropped := 0
		d := decouplex.NewDecoupler(8, func(b []byte) (int, error) { dropped++; return 0, nil })
		sl := sleepx.New()
		calls := map[string]func(i int){
			"encryption": func(i int) {
				enc := []func(a, b []byte) ([]byte, error){aesx.EncryptCBC, aesx.EncryptCTR, aesx.EncryptGCM}[i%3]
				dec := []func(a, b []byte) ([]byte, error){aesx.DecryptCBC, aesx.DecryptCTR, aesx.DecryptGCM}[i%3]
				c, err := enc(arg("data"), arg("key"))
				if err != nil {
					panic(err)
				}
				ws = append(ws, weak.Make(&c[0]))
				m, err := dec(c, arg("key"))
				if err != nil {
					panic(err)
				}
				ws = append(ws, weak.Make(&m[0]))
			},
			"decoupler": func(i int) {
				d.Write(arg("message"))
				if i%20 == 0 {
					d.Next(func([]byte) {})
				}
			},
			"conversions": func(i int) {
				s, _ := convx.Into[[]byte, string](arg(strings.Repeat("1", 64)))
				ws = append(ws, weak.Make(unsafe.StringData(s)))
				b, _ := convx.Into[string, []byte](s)
				ws = append(ws, weak.Make(&b[0]))
				convx.Into[string, int](string(arg("x")))
			},
			"sleeper": func(i int) {
				b := arg("x")
				sl.SleepFor(0)
				b[0]++
			},
		}
		for name, f := range calls {
			ws = nil
			apart(func() {
				for i := 0; i < 1500; i++ {
					f(i)
				}
			})
			alive := 0
			for try := 0; try < 5; try++ {
				collect()
				alive = 0
				for _, w := range ws {
					if w.Value() != nil {
						alive++
					}
				}
				if alive <= slack {
					break
				}
			}
			s.Eval(1)
			s.Count("arguments_and_results_watched", len(ws))
			s.Distinct(vk.HashS(fmt.Sprint(name, rep)))
			if alive > slack {
				s.Violate("what has left the object is not let go", map[string]any{"calls": name, "arguments_and_results_alive": alive, "of": len(ws)})
			}
		}
		runtime.KeepAlive(d)
	}
}

// memory: the linked containers and the skip-list map give back the room of
// what they held.
func (s *suite) memory() {
	heap := func() uint64 {
		collect()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return m.HeapAlloc
	}
	n := s.N(100000, 1000000)
	for rep := 0; rep < s.N(2, 6); rep++ {
		for i, h := range holders[int](1) {
			if h.name == "ring queue" || h.name == "slice-backed stack" || strings.Contains(h.name, "map") && h.name != "skip-list map" {
				continue
			}
			before := heap()
			h = holders[int](n)[i]
			r := s.Rand("memory", rep, i)
			var top, end uint64
			for try := 0; try < 4; try++ {
				apart(func() {
					for k := 0; k < n; k++ {
						h.add(r, k)
					}
				})
				top = heap()
				apart(func() {
					if h.clear != nil && rep%2 == 1 {
						h.clear()
						return
					}
					for {
						if _, ok := h.take(r); !ok {
							break
						}
					}
				})
				if end = heap(); end < before+(top-before)/4+1<<18 {
					break
				}
			}
			runtime.KeepAlive(h)
			s.Eval(1)
			s.Max("largest_object_in_kB: "+h.name, int(top-before)>>10)
			s.Distinct(vk.HashS(fmt.Sprint(h.name, rep, "memory")))
			if end >= before+(top-before)/4+1<<18 {
				s.Violate("an emptied object keeps the memory of what it held", map[string]any{"object": h.name, "elements": n, "live_bytes_before": before, "full": top, "emptied": end})
			}
		}
	}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one object at one moment of its history, at which the elements alive are compared with those it holds; distinct by object, elements and history.", func(c *vk.C) {
		s := &suite{c}
		for _, f := range kinds() {
			f(s)
		}
		s.keys()
		s.pools()
		s.converters()
		s.arguments()
		s.memory()
	})
}
