// C17: work of calls at the ends of containers, measured at growing sizes.
package c17

import (
	"fmt"
	"runtime"
	"testing"
	"unsafe"

	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeue "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"

	"verifharness/seq"
	"verifharness/vk"
)

// box is one container at work.
type box struct {
	in, out []func()
	other   []func(n int) // calls that are not at an end; n: elements held
	names   [2]string
	noOut   bool
}

// boxes are containers of elements like x.
func boxes[T any](x T) map[string]func(n int) box {
	return map[string]func(n int) box{
		"deque back": func(int) box {
			d := dequex.New[T]()
			return box{in: []func(){func() { d.PushBack(x) }}, out: []func(){func() { d.PopBack() }}}
		},
		"deque front": func(int) box {
			d := dequex.New[T]()
			return box{in: []func(){func() { d.PushFront(x) }}, out: []func(){func() { d.PopFront() }}}
		},
		"deque back to front": func(int) box {
			d := dequex.New[T]()
			return box{in: []func(){func() { d.PushBack(x) }}, out: []func(){func() { d.PopFront() }}}
		},
		"deque front to back": func(int) box {
			d := dequex.New[T]()
			return box{in: []func(){func() { d.PushFront(x) }}, out: []func(){func() { d.PopBack() }}}
		},
		"deque both ends": func(int) box {
			d := dequex.New[T]()
			return box{in: []func(){func() { d.PushFront(x) }, func() { d.PushBack(x) }}, out: []func(){func() { d.PopBack() }, func() { d.PopFront() }}, other: []func(int){
				func(int) { d.PeekFront(); d.PeekBack() },
				func(int) { run(150, d.PopBack) },
				func(int) { run(150, d.PopFront) },
				func(n int) { run(n, d.PopFront); d.PopBack(); times(n, func() { d.PushBack(x) }) },
				func(n int) { run(n, d.PopBack); d.PopFront(); times(n, func() { d.PushFront(x) }) },
			}}
		},
		"linked queue": func(int) box {
			q := lqueue.New[T]()
			return box{in: []func(){func() { q.Enqueue(x) }}, out: []func(){func() { q.Dequeue() }}, other: []func(int){
				func(int) { q.Peek(); q.IsEmpty() },
				func(n int) { run(n, q.Dequeue); q.Dequeue(); times(n, func() { q.Enqueue(x) }) },
			}}
		},
		"linked stack": func(int) box {
			s := lstack.New[T]()
			return box{in: []func(){func() { s.Push(x) }}, out: []func(){func() { s.Pop() }}, other: []func(int){
				func(int) { s.Peek(); s.Len() },
				func(n int) { run(n, s.Pop); s.Pop(); times(n, func() { s.Push(x) }) },
			}}
		},
		"slice stack": func(int) box {
			s := sstack.New[T]()
			return box{in: []func(){func() { s.Push(x) }}, out: []func(){func() { s.Pop() }}, other: []func(int){
				func(int) { s.Peek(); s.Len() },
				func(n int) { run(n, s.Pop); s.Pop(); times(n, func() { s.Push(x) }) },
			}}
		},
		"ring": func(n int) box {
			q := squeue.New[T](n + n/4 + 10)
			return box{in: []func(){func() { q.Enqueue(x) }}, out: []func(){func() { q.Dequeue() }}, other: []func(int){
				func(int) { q.Peek(); q.Head(); q.Cap(); q.IsEmpty(); q.IsFull() },
				func(n int) { run(n, q.Dequeue); q.Dequeue(); times(n, func() { q.Enqueue(x) }) },
			}}
		},
		"full ring": func(n int) box {
			q := squeue.New[T](n)
			return box{in: []func(){func() { q.Enqueue(x) }}, out: []func(){func() { q.Dequeue() }}}
		},
		"linked list append": func(int) box {
			l := llist.New[T]()
			return box{in: []func(){func() { l.Append(x) }}, other: []func(int){
				func(int) { l.Remove(l.Len() - 1) },
				func(int) { l.Remove(l.Len() - 1); l.Remove(l.Len() - 1) },
				func(n int) { l.Remove(n / 2) },
				func(int) { l.Remove(0) },
				func(int) { l.Insert(0, x); l.Remove(l.Len() - 1) },
				func(n int) { l.Insert(n/2, x); l.Remove(l.Len() - 1) },
				func(int) { l.Remove(0); l.Insert(l.Len(), x) },
				func(n int) { l.At(l.Len() - 1); l.At(n / 2); l.Len() },
				func(int) { l.Iterate(func(T) bool { return false }) },
				func(int) { l.Iterate(func(T) bool { return true }) },
			}, noOut: true}
		},
		"linked list append after removals": func(int) box {
			l := llist.New[T]()
			k := 0
			return box{in: []func(){func() { l.Append(x) }, func() {
				if k++; k%3 == 0 {
					l.Remove(0)
				} else {
					l.Append(x)
				}
			}}, noOut: true}
		},
		"slice list append": func(int) box {
			l := new(slist.List[T])
			return box{in: []func(){func() { l.Append(x) }}, other: []func(int){
				func(int) { l.Remove(l.Len() - 1) },
				func(int) { l.Remove(l.Len() - 1); l.Remove(l.Len() - 1) },
				func(n int) { l.Remove(n / 2) },
				func(int) { l.Remove(0) },
				func(int) { l.Insert(0, x); l.Remove(l.Len() - 1) },
				func(n int) { l.Insert(n/2, x); l.Remove(l.Len() - 1) },
				func(int) { l.Remove(0); l.Insert(l.Len(), x) },
				func(n int) { l.At(l.Len() - 1); l.At(n / 2); l.Len() },
				func(int) { l.Iterate(func(T) bool { return false }) },
				func(int) { l.Iterate(func(T) bool { return true }) },
			}, noOut: true}
		},
	}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one call measured in executed statements, allocated bytes and time at sizes from about a thousand to several hundred thousand elements; distinct by container, size and phase (fill, steady work at that size, saw-tooth, drain).", func(c *vk.C) {
		vk.Bound(1 << 60)
		measure(c, "", 1, 1000, 16000, c.N(300000, 3000000))
		measure(c, " of texts", "text", 1000, 16000, c.N(60000, 600000))
		measure(c, " of any", any(1.5), 1000, 16000, c.N(60000, 600000))
		measure(c, " of arrays of 264 bytes", seq.Big{}, 1000, 8000, c.N(40000, 200000))
		measure(c, " of arrays of 9608 bytes", seq.Huge{}, 500, 2000, c.N(6000, 30000))
		measure(c, " of nothing", struct{}{}, 1000, 16000, c.N(60000, 600000))
	})
}

func measure[T any](c *vk.C, of string, x T, sizes ...int) {
	for name, mk := range boxes(x) {
		name += of
		gs := map[string]*vk.Growth{}
		rec := func(phase string, n int, cost vk.Cost, calls int) {
			g := gs[phase]
			if g == nil {
				g = &vk.Growth{Name: name + ": " + phase}
				gs[phase] = g
			}
			if len(g.Sizes) == 0 || g.Sizes[len(g.Sizes)-1] != n {
				g.Sizes = append(g.Sizes, n)
				g.Costs = append(g.Costs, nil)
			}
			g.Costs[len(g.Costs)-1] = append(g.Costs[len(g.Costs)-1], cost)
			c.Eval(calls)
			c.Distinct(vk.HashS(fmt.Sprint(name, phase, n)))
		}
		for _, n := range sizes {
			for rep := 0; rep < 3; rep++ {
				c.Context("%s with %d elements", name, n)
				b := mk(n)
				in := func(i int) { b.in[i%len(b.in)]() }
				out := func(i int) { b.out[i%len(b.out)]() }
				rec("fill", n, vk.Measure(n, in), n)
				// After calls elsewhere the ends have to be as near as ever.
				for k, f := range b.other {
					for try := 0; try < 2; try++ {
						f(n)
						m := vk.Measure(2*len(b.in), in)
						m.Time = 0 // too short to time
						rec(fmt.Sprint("after other calls ", k), n, m, 2*len(b.in))
						if len(b.out) == 0 {
							continue
						}
						f(n)
						m = vk.Measure(2*len(b.out), out)
						m.Time = 0
						rec(fmt.Sprint("out after other calls ", k), n, m, 2*len(b.out))
					}
				}
				if b.noOut {
					rec("steady", n, vk.Measure(n, in), n)
					continue
				}
				rec("steady", n, vk.Measure(2000, func(i int) {
					if i%2 == 0 {
						out(i / 2)
					} else {
						in(i / 2)
					}
				}), 2000)
				rec("saw-tooth", n, vk.Measure(2000, func(i int) {
					if i/100%2 == 0 {
						out(i)
					} else {
						in(i)
					}
				}), 2000)
				// Up and down right where the container last took more memory.
				edge(in, out, n, max(4, unsafe.Sizeof(x)/2))
				rec("at the edge", n, vk.Measure(2000, func(i int) {
					if k := i % 8; k == 0 || k == 2 || k == 3 || k == 7 {
						in(i)
					} else {
						out(i)
					}
				}), 2000)
				rec("at the edge, from below", n, vk.Measure(2000, func(i int) {
					if i%2 == 0 {
						out(i)
					} else {
						in(i)
					}
				}), 2000)
				rec("drain", n, vk.Measure(n+10, out), n+10)
				vk.Measure(n, out) // what edge has added
				rec("refill", n, vk.Measure(n, in), n)
			}
		}
		for phase, g := range gs {
			med := g.Median()
			if phase == "steady" {
				c.Sample(map[string]any{"container": name, "phase": phase, "sizes": g.Sizes, "cost": med})
			}
			if a, b := med[0], med[len(med)-1]; a.Bytes > 100 {
				c.Max("greatest_growth_of_bytes_in_percent: "+phase, int(100*b.Bytes/a.Bytes))
			}
			// Averages over a whole fill or drain may grow by a small factor
			// (slices grow in bigger and bigger steps); steady work must not.
			factor := 2.5
			if of != "" { // fewer sizes, memory in coarser steps
				factor = 4
			}
			if err := g.Judge(factor); err != nil {
				c.Violate("the work of a call at the end grows with the number of elements", map[string]any{"observed": err.Error(), "sizes": g.Sizes, "costs": g.Costs})
			}
		}
	}
}

func run[T any](n int, f func() (T, bool)) {
	for i := 0; i < n; i++ {
		if _, ok := f(); !ok {
			return
		}
	}
}

func times(n int, f func()) {
	for i := 0; i < n; i++ {
		f()
	}
}

// edge adds elements (to a container of n) until one call has taken memory
// that grows with n, and settles there.
func edge(in, out func(int), n int, size uintptr) {
	const chunk = 500
	bytes := func(f func()) uint64 {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		return b.TotalAlloc - a.TotalAlloc
	}
	for done := 0; done < n; done += chunk {
		if bytes(func() {
			for i := 0; i < chunk; i++ {
				in(i)
			}
		}) < uint64(n)*uint64(size) {
			continue
		}
		for i := 0; i < chunk; i++ {
			out(i)
		}
		for i := 0; i < chunk; i++ {
			if bytes(func() { in(i) }) >= uint64(n)*uint64(size) {
				break
			}
		}
		break
	}
	for i := 0; i < 100; i++ {
		out(i)
		in(i)
	}
}
