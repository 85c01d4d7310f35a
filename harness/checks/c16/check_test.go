// C16: goroutines with containers of their own do not influence each other.
// Every goroutine compares its containers with ideal ones; nothing but the
// code under test could synchronise them, so the race detector sees every
// piece of state shared behind their backs.
package c16

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"slices"
	"sort"
	"sync"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeue "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"

	"verifharness/seq"
	"verifharness/vk"
)

// A work item runs one private history and reports what was wrong.
type work struct {
	name string
	run  func(r *rand.Rand, tag int) error
}

func queue[T comparable](mk func(tag, i int) T, fresh func() seq.Ops[T], lifo bool, capacity int) func(*rand.Rand, int) error {
	return func(r *rand.Rand, tag int) error {
		return seq.ExecQueue(func(i int) T { return mk(tag, i) }, fresh, lifo, capacity)(seq.QueueHistory(r, 12, false))
	}
}

func tagged(tag, i int) int { return tag<<24 | i }
func words(tag, i int) string {
	return fmt.Sprint(tag, ":", i)
}

func deque[T comparable](mk func(tag, i int) T, n int) func(*rand.Rand, int) error {
	return func(r *rand.Rand, tag int) error {
		d := dequex.New[T]()
		var m []T
		grow := 3
		for i := 1; i < n; i++ {
			if i%50 == 0 {
				grow = 1 + r.IntN(4)
			}
			front := r.IntN(2) == 0
			if r.IntN(5) < grow {
				v := mk(tag, i)
				if front {
					d.PushFront(v)
					m = append([]T{v}, m...)
				} else {
					d.PushBack(v)
					m = append(m, v)
				}
				continue
			}
			var v, w T
			var ok bool
			if front {
				v, ok = d.PopFront()
			} else {
				v, ok = d.PopBack()
			}
			if ok != (len(m) > 0) {
				return fmt.Errorf("pop reports %v with %d elements", ok, len(m))
			}
			if ok {
				if front {
					w, m = m[0], m[1:]
				} else {
					w, m = m[len(m)-1], m[:len(m)-1]
				}
			}
			if v != w {
				return fmt.Errorf("pop returned %s, ideal %s", brief(v), brief(w))
			}
		}
		return nil
	}
}

func brief(v any) string {
	if s := fmt.Sprintf("%#x", v); len(s) < 200 {
		return s
	} else {
		return s[:200]
	}
}

type omap[V any] interface {
	Set(int, V)
	Get(int) (V, bool)
	Len() int
	Keys() []int
	Values() []V
	Clear()
}

func ordered[V comparable](val func(tag, i int) V, mk func() (omap[V], func(int))) func(r *rand.Rand, tag int) error {
	return func(r *rand.Rand, tag int) error {
		m, del := mk()
		d := map[int]V{}
		for i := 0; i < 200; i++ {
			k := r.IntN(60)
			switch x := r.IntN(20); {
			case x < 11:
				m.Set(k, val(tag, i))
				d[k] = val(tag, i)
			case x < 18:
				del(k)
				delete(d, k)
			case x == 18 && r.IntN(5) == 0:
				m.Clear()
				clear(d)
			}
			w, has := d[k]
			if v, ok := m.Get(k); v != w || ok != has {
				return fmt.Errorf("Get(%d) is %s %v, ideal %s %v", k, brief(v), ok, brief(w), has)
			}
			if i%20 == 0 {
				ks := make([]int, 0)
				for k := range d {
					ks = append(ks, k)
				}
				sort.Ints(ks)
				vs := make([]V, 0, len(ks))
				for _, k := range ks {
					vs = append(vs, d[k])
				}
				if !slices.Equal(m.Keys(), ks) || !slices.Equal(m.Values(), vs) || m.Len() != len(ks) {
					return fmt.Errorf("listings %v %s, ideal %v %s", m.Keys(), brief(m.Values()), ks, brief(vs))
				}
			}
		}
		return nil
	}
}

func shared[V comparable](val func(tag, i int) V) func(r *rand.Rand, tag int) error {
	return func(r *rand.Rand, tag int) error {
		m := syncmapx.New[int, V]()
		d := map[int]V{}
		for i := 0; i < 300; i++ {
			k := r.IntN(20)
			if r.IntN(3) > 0 {
				m.Set(k, val(tag, i))
				d[k] = val(tag, i)
			} else {
				m.Delete(k)
				delete(d, k)
			}
			if m.Get(k) != d[k] || m.Size() != len(d) {
				return fmt.Errorf("Get(%d) is %s, ideal %s; size %d, ideal %d", k, brief(m.Get(k)), brief(d[k]), m.Size(), len(d))
			}
			if i%8 == 0 {
				ks, vs := m.Keys(), m.Values()
				if len(ks) != len(d) || len(vs) != len(d) {
					return fmt.Errorf("%d keys and %d values, ideal %d", len(ks), len(vs), len(d))
				}
				for _, k := range ks {
					if _, ok := d[k]; !ok {
						return fmt.Errorf("key %d listed, ideal has %v", k, ks)
					}
					i := slices.Index(vs, d[k])
					if i < 0 {
						return fmt.Errorf("value %s not listed", brief(d[k]))
					}
					vs = append(vs[:i], vs[i+1:]...)
				}
			}
		}
		return nil
	}
}

// pieces edits a slice; it leaves out what needs an order.
func pieces[T comparable](mk func(tag, i int) T) func(r *rand.Rand, tag int) error {
	return func(r *rand.Rand, tag int) error {
		s := slicex.New[T]()
		var m []T
		for i := 0; i < 80; i++ {
			v := mk(tag, i)
			k := 0
			if len(m) > 0 {
				k = r.IntN(len(m))
			}
			switch r.IntN(9) {
			case 0, 1, 2:
				s.Insert(k, v)
				m = append(m[:k:k], append([]T{v}, m[k:]...)...)
			case 3:
				s.Push(v)
				m = append(m, v)
			case 4:
				s.Expand(k, v, mk(tag, i+1))
				m = append(m[:k:k], append([]T{v, mk(tag, i+1)}, m[k:]...)...)
			case 5:
				s.Delete(k)
				if len(m) > 0 {
					m = append(m[:k:k], m[k+1:]...)
				}
			case 6:
				s.Filter(func(T) bool { return true }).Reverse()
				for i, j := 0, len(m)-1; i < j; i, j = i+1, j-1 {
					m[i], m[j] = m[j], m[i]
				}
			case 7:
				s = s.Copy()
				for _, p := range s.Batch(k + 1) {
					p.Push(v)
				}
			case 8:
				s.Rotate(0).Reverse().Reverse().Repeat(1)
			}
			if !slices.Equal(*s, m) {
				return fmt.Errorf("slice is %s, ideal %s", brief([]T(*s)), brief(m))
			}
		}
		return nil
	}
}

// worksOf are containers of elements of type T.
func worksOf[T comparable](of string, mk func(tag, i int) T) []work {
	list := func(fresh func() seq.List[T], slice bool) func(r *rand.Rand, tag int) error {
		return func(r *rand.Rand, tag int) error {
			return seq.ExecList(func(i int) T { return mk(tag, i) }, fresh, slice, 9)(seq.ListHistory(r, 12))
		}
	}
	return []work{
		{"deque of " + of, deque(mk, 250)},
		{"linked list of " + of, list(func() seq.List[T] { return llist.New[T]() }, false)},
		{"slice list of " + of, list(func() seq.List[T] { return new(slist.List[T]) }, true)},
		{"linked queue of " + of, queue(mk, func() seq.Ops[T] {
			q := lqueue.New[T]()
			return seq.Ops[T]{In: q.Enqueue, Out: q.Dequeue, Peek: q.Peek, Empty: q.IsEmpty}
		}, false, 0)},
		{"linked stack of " + of, queue(mk, func() seq.Ops[T] {
			s := lstack.New[T]()
			return seq.Ops[T]{In: s.Push, Out: s.Pop, Peek: s.Peek, Len: s.Len}
		}, true, 0)},
		{"slice stack of " + of, queue(mk, func() seq.Ops[T] {
			s := sstack.New[T]()
			return seq.Ops[T]{In: s.Push, Out: s.Pop, Peek: s.Peek, Len: s.Len}
		}, true, 0)},
		{"ring of " + of, queue(mk, func() seq.Ops[T] {
			q := squeue.New[T](9)
			return seq.Ops[T]{In: q.Enqueue, Out: q.Dequeue, Peek: q.Peek, Empty: q.IsEmpty}
		}, false, 9)},
		{"skip-list map of " + of, ordered(mk, func() (omap[T], func(int)) {
			m := sklmapx.New[int, T]()
			return m, func(k int) { m.Del(k) }
		})},
		{"ordered map of " + of, ordered(mk, func() (omap[T], func(int)) {
			m := ordmapx.New[int, T]()
			return m, func(k int) { m.Del(k) }
		})},
		{"goroutine-safe map of " + of, shared(mk)},
		{"slice of " + of, pieces(mk)},
	}
}

type pair struct {
	tag int
	i   string
}

func works() []work {
	ws := []work{
		{"deque", deque(tagged, 400)},
		{"linked list", func(r *rand.Rand, tag int) error {
			return seq.ExecList(func(i int) int { return tagged(tag, i) }, func() seq.List[int] { return llist.New[int]() }, false, 9)(seq.ListHistory(r, 30))
		}},
		{"slice list", func(r *rand.Rand, tag int) error {
			return seq.ExecList(func(i int) int { return tagged(tag, i) }, func() seq.List[int] { return new(slist.List[int]) }, true, 9)(seq.ListHistory(r, 30))
		}},
		{"linked queue", queue(tagged, func() seq.Ops[int] {
			q := lqueue.New[int]()
			return seq.Ops[int]{In: q.Enqueue, Out: q.Dequeue, Peek: q.Peek, Empty: q.IsEmpty}
		}, false, 0)},
		{"linked queue of strings", queue(words, func() seq.Ops[string] {
			q := lqueue.New[string]()
			return seq.Ops[string]{In: q.Enqueue, Out: q.Dequeue, Peek: q.Peek, Empty: q.IsEmpty}
		}, false, 0)},
		{"linked stack", queue(tagged, func() seq.Ops[int] {
			s := lstack.New[int]()
			return seq.Ops[int]{In: s.Push, Out: s.Pop, Peek: s.Peek, Len: s.Len}
		}, true, 0)},
		{"slice stack", queue(tagged, func() seq.Ops[int] {
			s := sstack.New[int]()
			return seq.Ops[int]{In: s.Push, Out: s.Pop, Peek: s.Peek, Len: s.Len}
		}, true, 0)},
		{"ring", queue(tagged, func() seq.Ops[int] {
			q := squeue.New[int](9)
			return seq.Ops[int]{In: q.Enqueue, Out: q.Dequeue, Peek: q.Peek, Empty: q.IsEmpty}
		}, false, 9)},
		{"skip-list map", ordered(tagged, func() (omap[int], func(int)) {
			m := sklmapx.New[int, int]()
			return m, func(k int) { m.Del(k) }
		})},
		{"ordered map", ordered(tagged, func() (omap[int], func(int)) {
			m := ordmapx.New[int, int]()
			return m, func(k int) { m.Del(k) }
		})},
		{"goroutine-safe map", shared(tagged)},
		{"slice", func(r *rand.Rand, tag int) error {
			s := slicex.New[int]()
			var m []int
			for i := 0; i < 150; i++ {
				v := tagged(tag, i)
				k := 0
				if len(m) > 0 {
					k = r.IntN(len(m))
				}
				switch r.IntN(9) {
				case 0, 1, 2, 3:
					s.Insert(k, v)
					m = append(m[:k:k], append([]int{v}, m[k:]...)...)
				case 4:
					s.Expand(k, v, v+1)
					m = append(m[:k:k], append([]int{v, v + 1}, m[k:]...)...)
				case 5:
					s.Delete(k)
					if len(m) > 0 {
						m = append(m[:k:k], m[k+1:]...)
					}
				case 6:
					s.Shuffle()
					sort.Ints(*s)
					m = append([]int{}, m...)
					sort.Ints(m)
				case 7:
					s = s.Copy()
					for _, p := range s.Split(1, k) {
						p.Push(v)
					}
				case 8:
					s.Rotate(0).Reverse().Reverse().Filter(func(int) bool { return true }).Repeat(1)
				}
				if fmt.Sprint([]int(*s)) != fmt.Sprint(m) {
					return fmt.Errorf("slice is %v, ideal %v", *s, m)
				}
			}
			_ = s.Join(",")
			return nil
		}},
		{"bit set", func(r *rand.Rand, tag int) error {
			var b bitsetx.BitSet[uint64]
			m := map[int]bool{}
			for i := 0; i < 300; i++ {
				k := r.IntN(70)
				switch r.IntN(3) {
				case 0:
					b.Set(k)
					if k < 64 {
						m[k] = true
					}
				case 1:
					b.Clear(k)
					delete(m, k)
				case 2:
					if b.Test(k) != m[k] || b.IsEmpty() != (len(m) == 0) {
						return fmt.Errorf("Test(%d) is %v, ideal %v", k, b.Test(k), m[k])
					}
				}
			}
			return nil
		}},
	}
	ws = append(ws, worksOf("texts", words)...)
	ws = append(ws, worksOf("any", func(tag, i int) any { return pair{tag, fmt.Sprint(i)} })...)
	ws = append(ws, worksOf("structs", func(tag, i int) pair { return pair{tag, fmt.Sprint(i)} })...)
	ws = append(ws, worksOf("arrays of 9608 bytes", func(tag, i int) seq.Huge { return seq.Huge{0: int64(tag), 1200: int64(i)} })...)
	return append(ws, worksOf("floats", func(tag, i int) float64 { return float64(tag) + float64(i)/1e6 })...)
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one private history run by one of eight goroutines at the same time as the others, each with containers of its own; distinct by container kind, goroutine and seed.", func(c *vk.C) {
		ws := works()
		r := c.Rand("c16", len(c.Phase))
		rounds := c.N(140, 2500)
		if c.Phase == "values" {
			rounds = c.N(280, 5000)
		}
		const gs = 8
		for round := 0; round < rounds; round++ {
			vk.Perturb(r.Uint64(), 1+r.IntN(5))
			runtime.GOMAXPROCS([]int{1, 2, 8, 8}[r.IntN(4)])
			same := -1
			if round%2 == 0 { // all goroutines on the same kind of container
				same = (round / 2) % len(ws)
			}
			var wg sync.WaitGroup
			errs := make([]string, gs)
			start := make(chan struct{})
			for g := 0; g < gs; g++ {
				seed := r.Uint64()
				kind := same
				if kind < 0 {
					kind = r.IntN(len(ws))
				}
				c.Distinct(seed)
				c.Count(ws[kind].name, 1)
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewPCG(seed, 7))
					<-start
					for i := 0; i < 4; i++ {
						err := vk.Try(func() {
							if e := ws[kind].run(r, g*100+i+1); e != nil {
								errs[g] = fmt.Sprint(ws[kind].name, ": ", e)
							}
						})
						if err != nil {
							errs[g] = fmt.Sprint(ws[kind].name, ": ", err, "\n", err.(*vk.Panic).Stack)
						}
						if errs[g] != "" {
							return
						}
						vk.Tick()
					}
				}()
			}
			close(start)
			wg.Wait()
			c.Eval(gs * 4)
			for g, e := range errs {
				if e != "" {
					c.Violate("a container used by one goroutine only does not behave like the ideal one", map[string]any{"goroutine": g, "round": round, "observed": e})
				}
			}
		}
		c.Sample(map[string]any{"goroutines": gs, "containers": len(ws)})
	})
}
