// C56: work of calls that concern one element, measured while the object holds
// more and more of what they are not concerned with.
package c56

import (
	"fmt"
	"io"
	"math/rand/v2"
	"sync"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeue "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

// op is one operation to be measured on an object that holds n things.
type op struct {
	name  string
	calls int
	f     func(i int)
}

// subject makes an object with n things in it; done frees it.
type subject struct {
	name  string
	sizes [3]int
	logs  bool // a logarithmic cost is allowed
	make  func(r *rand.Rand, n int) (ops []op, done func())
}

var sink any

type closer struct{}

func (closer) Close() error { return nil }

type wide[A, B any] struct{}

func subjects(c *vk.C) []subject {
	std := [3]int{500, 8000, c.N(100000, 1000000)}
	nop := func() {}
	return []subject{
		{"ordered map", std, true, func(r *rand.Rand, n int) ([]op, func()) {
			m := ordmapx.New[int, int]()
			for _, i := range r.Perm(n) {
				m.Set(2*i, i)
			}
			keys := r.Perm(n)
			k := min(n, 1000)
			return []op{
				{"Get", k, func(i int) { m.Get(2 * keys[i]) }},
				{"Get absent", k, func(i int) { m.Get(2*keys[i] + 1) }},
				{"Set present", k, func(i int) { m.Set(2*keys[i], i) }},
				{"Len", k, func(i int) { m.Len() }},
				{"Set new", k, func(i int) { m.Set(2*keys[i]+1, i) }},
				{"Del", k, func(i int) { m.Del(2*keys[i] + 1) }},
				{"Del absent", k, func(i int) { m.Del(2*keys[i] + 1) }},
				{"Range, stopped at once", 200, func(i int) { m.Range(func(int, int) bool { return true }) }},
				{"Set new, Range, Del", 200, func(i int) {
					m.Set(2*keys[i]+1, i)
					m.Range(func(int, int) bool { return true })
					m.Del(2*keys[i] + 1)
				}},
			}, nop
		}},
		{"skip-list map", std, true, func(r *rand.Rand, n int) ([]op, func()) {
			m := sklmapx.New[int, int]()
			for i := 0; i < n; i++ {
				m.Set(i, i)
			}
			it := m.Iterator()
			return []op{
				{"Len", 500, func(int) { m.Len() }},
				{"Iterator, Next", 500, func(int) { m.Iterator().Next() }},
				{"Rewind, Next", 500, func(int) { it.Rewind(); it.Next() }},
			}, nop
		}},
		{"goroutine-safe map", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			m := syncmapx.New[int, int]()
			for i := 0; i < 2*n; i++ { // room for more: growing is amortised
				m.Set(i, i)
			}
			for i := n; i < 2*n; i++ {
				m.Delete(i)
			}
			k := min(n, 1000)
			return []op{
				{"Get", k, func(i int) { m.Get(i) }},
				{"Has", k, func(i int) { m.Has(-i) }},
				{"Size", k, func(i int) { m.Size() }},
				{"Set present", k, func(i int) { m.Set(i, -i) }},
				{"Set new, Delete", k, func(i int) { m.Set(-1-i, i); m.Delete(-1 - i) }},
				{"Set, Size, Get, Has, Delete", k, func(i int) { m.Set(-1-i, i); m.Size(); m.Get(i); m.Has(i); m.Delete(-1 - i) }},
			}, nop
		}},
		{"goroutine-safe map, growing and shrinking", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			m := syncmapx.New[int, int]()
			return []op{
				{"Set, growing", 4 * n, func(i int) { m.Set(i, i) }},
				{"Delete, shrinking", 3 * n, func(i int) { m.Delete(i) }},
				{"Get, shrunk", 500, func(i int) { m.Get(i); m.Has(4*n - i) }},
				{"Set new, Delete, shrunk", 500, func(i int) { m.Set(-1-i, i); m.Delete(-1 - i) }},
				{"Set, growing again", 2 * n, func(i int) { m.Set(i, i) }},
				{"Delete, shrinking to nothing", 4 * n, func(i int) { m.Delete(i) }},
				{"Set, emptied", 500, func(i int) { m.Set(i, i); m.Delete(i); m.Size() }},
			}, nop
		}},
		{"ordered map, growing and shrinking", std, true, func(r *rand.Rand, n int) ([]op, func()) {
			m := ordmapx.New[int, int]()
			return []op{
				{"Set, growing", 2 * n, func(i int) { m.Set(i*7919%(2*n), i) }},
				{"Del, shrinking", 2*n - 100, func(i int) { m.Del(i) }},
				{"Get, shrunk", 500, func(i int) { m.Get(i); m.Get(2*n - i); m.Len() }},
				{"Set new, Del, shrunk", 500, func(i int) { m.Set(-1-i, i); m.Del(-1 - i) }},
				{"Range, stopped at once, shrunk", 200, func(int) { m.Range(func(int, int) bool { return true }) }},
				{"Set, growing again", n, func(i int) { m.Set(i, i) }},
			}, nop
		}},
		{"slice, growing and shrinking", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			s := slicex.New[int]()
			return []op{
				{"Push, growing", 3 * n, func(i int) { s.Push(i) }},
				{"Pop, shrinking", 2*n + n/2, func(int) { s.Pop() }},
				{"Push, Pop, shrunk", 500, func(i int) { s.Push(i); s.Pop() }},
				{"DeleteReplace, shrunk", n / 4, func(i int) { s.DeleteReplace(i % s.Len()) }},
				{"Push, growing again", n, func(i int) { s.Push(i) }},
			}, nop
		}},
		{"slice", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			s := slicex.New(make([]int, n, 2*n+2000)...)
			return []op{
				{"Push, Pop", 1000, func(i int) { s.Push(i); s.Pop() }},
				{"Get, Set, Len", 1000, func(i int) { s.Set(i%n, i); sink = s.Get(i%n) + s.Len() }},
				{"DeleteReplace, Push", 500, func(i int) { s.DeleteReplace(i); s.Push(i) }},
				{"IndexOf the first", 500, func(i int) { s.IndexOf(func(int) bool { return true }) }},
				{"Contains the first", 500, func(i int) { s.Contains(func(int) bool { return true }) }},
				{"Slice, Finalize", 200, func(i int) { t := *s; t.Slice(1, n-1); sink = t.Finalize() }},
				{"Slice of all", 200, func(i int) { t := *s; t.Slice(0, n) }},
				{"Split in two", 200, func(i int) { sink = s.Split(n / 2) }},
				{"Batch of all", 200, func(i int) { sink = s.Batch(n) }},
				{"Clear", 200, func(i int) { t := *s; t.Clear() }},
			}, nop
		}},
		{"fresh slice", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			s := slicex.New[int]()
			return []op{
				{"Push", n, func(i int) { s.Push(i) }},
				{"Pop", n, func(i int) { s.Pop() }},
			}, nop
		}},
		{"deque, queues and stacks", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			d, q, s, t := dequex.New[int](), lqueue.New[int](), lstack.New[int](), sstack.New[int]()
			g := squeue.New[int](n + 1)
			for i := 0; i < n; i++ {
				d.PushBack(i)
				q.Enqueue(i)
				s.Push(i)
				t.Push(i)
				g.Enqueue(i)
			}
			return []op{
				{"peek at the deque", 500, func(int) { d.PeekFront(); d.PeekBack() }},
				{"peek at the queue", 500, func(int) { q.Peek(); q.IsEmpty() }},
				{"peek at the linked stack", 500, func(int) { s.Peek(); s.Len() }},
				{"peek at the slice stack", 500, func(int) { t.Peek(); t.Len(); t.IsEmpty() }},
				{"peek at the ring", 500, func(int) { g.Peek(); g.Head(); g.IsEmpty(); g.IsFull(); g.Cap() }},
			}, nop
		}},
		{"linked list", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			l := llist.New[int]()
			for i := 0; i < n; i++ {
				l.Append(i)
			}
			return []op{
				{"Len", 500, func(int) { l.Len() }},
				{"At the front", 500, func(i int) { l.At(i % 3) }},
				{"Insert and Remove at the front", 500, func(i int) { l.Insert(i%2, i); l.Remove(i % 3) }},
				{"Iterate, stopped at once", 500, func(int) { l.Iterate(func(int) bool { return false }) }},
			}, nop
		}},
		{"slice-backed list", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			l := make(slist.List[int], n, n+2000)
			return []op{
				{"Len", 500, func(int) { l.Len() }},
				{"At", 500, func(i int) { l.At(i * 7919 % n) }},
				{"Iterate, stopped at once", 500, func(int) { l.Iterate(func(int) bool { return false }) }},
			}, nop
		}},
		{"decoupler, half full", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			d := decouplex.NewDecoupler(uint64(n), nil)
			msg := []byte("message")
			for i := 0; i < n/2; i++ {
				d.Write(msg)
			}
			return []op{
				{"Write, Next", 1000, func(int) { d.Write(msg); d.Next(nil) }},
				{"Write of nothing", 200, func(int) { d.Write(nil) }},
			}, nop
		}},
		{"decoupler, empty", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			d := decouplex.NewDecoupler(uint64(n), nil)
			msg := []byte("message")
			return []op{
				{"Next, Write, Next", 1000, func(int) { d.Next(nil); d.Write(msg); d.Next(nil) }},
			}, nop
		}},
		{"decoupler, full", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			d := decouplex.NewDecoupler(uint64(n), nil)
			msg := []byte("message")
			for i := 0; i < n; i++ {
				d.Write(msg)
			}
			return []op{
				{"Write dropped", 1000, func(int) { d.Write(msg) }},
				{"Next, Write, Write dropped", 1000, func(int) { d.Next(nil); d.Write(msg); d.Write(msg) }},
			}, nop
		}},
		{"close manager", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			m := closex.New()
			cs := make([]io.Closer, n)
			for i := range cs {
				cs[i] = &struct{ closer }{}
			}
			return []op{{"Append", n, func(i int) { m.Append(cs[i]) }}}, nop
		}},
		{"object pool", std, false, func(r *rand.Rand, n int) ([]op, func()) {
			var p syncpoolx.Pool[[8]byte]
			p.Init(func() *[8]byte { return new([8]byte) })
			for i := 0; i < n; i++ {
				p.Put(new([8]byte))
			}
			return []op{{"Get, Put", 500, func(int) { p.Put(p.Get()) }}}, nop
		}},
		{"goroutine pool, idle workers", [3]int{100, 1000, c.N(10000, 40000)}, false, func(r *rand.Rand, n int) ([]op, func()) {
			ran := make(chan struct{})
			p, err := gopoolx.NewTimedPool(int64(n), func(int) { ran <- struct{}{} }, time.Hour, time.Hour, n)
			if err != nil {
				panic(err)
			}
			return []op{
				{"Run", 300, func(i int) {
					if !p.Run(i) {
						panic("refused")
					}
					<-ran
				}},
				{"Workers", 300, func(int) { p.Workers() }},
			}, p.Stop
		}},
		{"goroutine pool, busy workers", [3]int{100, 1000, c.N(10000, 40000)}, false, func(r *rand.Rand, n int) ([]op, func()) {
			ran, hold := make(chan struct{}), make(chan struct{})
			var up sync.WaitGroup
			up.Add(n)
			p, err := gopoolx.NewTimedPool(int64(n+300), func(i int) {
				if i < 0 {
					up.Done()
					<-hold
					return
				}
				ran <- struct{}{}
			}, time.Hour, time.Hour, 0)
			if err != nil {
				panic(err)
			}
			for i := 0; i < n; i++ {
				p.Run(-1)
			}
			up.Wait()
			return []op{
				{"Run", 300, func(i int) {
					if !p.Run(i) {
						panic("refused")
					}
					<-ran
				}},
			}, func() { close(hold); p.Stop() }
		}},
		{"conversion registry", [3]int{1, 40, 400}, false, func(r *rand.Rand, n int) ([]op, func()) {
			grow(n)
			return []op{
				{"Into", 500, func(i int) { convx.Into[int, string](i) }},
				{"IntoOr, absent", 500, func(i int) { convx.IntoOr(struct{ a, b int }{i, i}, 0) }},
				{"Exists", 500, func(i int) { convx.Exists[wide[int, int], int]() }},
				{"Register, Unregister", 500, func(i int) {
					convx.Register(func(wide[int, int]) int { return 1 })
					convx.Unregister[wide[int, int], int]()
				}},
			}, nop
		}},
	}
}

// grow registers converters for n more types (and keeps them).
func grow(n int) {
	if n >= 40 {
		grow1[int8]()
		grow1[int16]()
		grow1[int32]()
		grow1[int64]()
	}
	if n >= 400 {
		for _, f := range []func(){grow2[int8], grow2[int16], grow2[int32], grow2[int64], grow2[uint8], grow2[uint16], grow2[uint32], grow2[uint64], grow2[string], grow2[bool], grow2[float32], grow2[float64]} {
			f()
		}
	}
}

func reg[A, B any]() {
	convx.Register(func(wide[A, B]) int { return 0 })
	convx.Register(func(wide[A, B]) string { return "" })
	convx.Register(func(int) wide[A, B] { return wide[A, B]{} })
}

func grow1[A any]() {
	reg[A, int]()
	reg[A, string]()
	reg[A, bool]()
	reg[A, []A]()
	reg[A, error]()
	reg[A, map[string]A]()
	reg[A, *A]()
	reg[A, [2]A]()
	reg[A, func()]()
	reg[A, any]()
}

func grow2[A any]() {
	grow1[A]()
	grow1[*A]()
	grow1[[]A]()
}

const bad = "the work of a call grows with things it is not concerned with"

// growth is the factor by which the work may grow.
func growth(s subject) float64 {
	if s.logs {
		return 4
	}
	return 2.5
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one operation measured in executed statements, allocated bytes and time on objects of one size, from hundreds to a hundred thousand things held; distinct by operation, object and size.", func(c *vk.C) {
		vk.Bound(1 << 60)
		r := c.Rand("cost")
		for _, s := range subjects(c) {
			gs := map[string]*vk.Growth{}
			var order []string
			for _, n := range s.sizes {
				for rep := 0; rep < 3; rep++ {
					c.Context("%s with %d things", s.name, n)
					ops, done := s.make(r, n)
					for _, o := range ops {
						g := gs[o.name]
						if g == nil {
							g = &vk.Growth{Name: s.name + ": " + o.name}
							gs[o.name] = g
							order = append(order, o.name)
						}
						if len(g.Sizes) == 0 || g.Sizes[len(g.Sizes)-1] != n {
							g.Sizes = append(g.Sizes, n)
							g.Costs = append(g.Costs, nil)
						}
						k := len(g.Costs) - 1
						g.Costs[k] = append(g.Costs[k], vk.Measure(o.calls, o.f))
						c.Eval(o.calls)
						c.Distinct(vk.HashS(fmt.Sprint(s.name, o.name, n)))
						c.Count("calls_measured", o.calls)
					}
					done()
				}
				if n != s.sizes[1] {
					continue
				}
				// A cost that is plain by now makes the largest size endless.
				for _, name := range order {
					if err := gs[name].Judge(growth(s)); err != nil {
						c.Violate(bad, map[string]any{"observed": err.Error(), "sizes": gs[name].Sizes, "costs": gs[name].Costs})
					}
				}
			}
			for _, name := range order {
				g := gs[name]
				med := g.Median()
				c.Sample(map[string]any{"operation": g.Name, "sizes": g.Sizes, "cost": med})
				c.Max("largest_growth_of_statements_x100", int(100*med[2].Steps/(med[0].Steps+20)))
				if err := g.Judge(growth(s)); err != nil {
					c.Violate(bad, map[string]any{"observed": err.Error(), "sizes": g.Sizes, "costs": g.Costs})
				}
			}
		}
	})
}
