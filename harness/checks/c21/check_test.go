// C21: the pointer lock under controlled schedules and the race detector.
package c21

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"github.com/unsafe-risk/utilx/syncx/lockx"

	"verifharness/vk"
)

type cell struct {
	self unsafe.Pointer
	n    int
	log  []int
}

func newCell() *cell {
	c := &cell{}
	c.self = unsafe.Pointer(c)
	return c
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one schedule of several goroutines locking one to three cells, switching at every statement of the lock and of the sections; distinct by the sequence of scheduling decisions, non-trivial when a goroutine found the cell taken.", func(c *vk.C) {
		if c.Phase == "race" {
			race(c)
			return
		}
		if c.Phase == "long" {
			long(c)
			return
		}
		r := c.Rand("sched")
		for round := 0; round < c.N(20000, 600000); round++ {
			gs := 2 + r.IntN(3)
			ncells := 1 + r.IntN(2)
			cells := make([]*cell, ncells)
			inside := make([]int, ncells)
			for i := range cells {
				cells[i] = newCell()
			}
			var bad string
			var order []int
			contended := false
			ran := 0
			want := 0
			var procs []func(*vk.Sched)
			for g := 0; g < gs; g++ {
				k := 1 + r.IntN(3)
				targets := make([]int, k)
				nest := make([]bool, k)
				for i := range targets {
					targets[i] = r.IntN(ncells)
					// nested locks always go from cell 0 to cell 1
					nest[i] = ncells > 1 && targets[i] == 0 && r.IntN(3) == 0
					want++
					if nest[i] {
						want++
					}
				}
				procs = append(procs, func(s *vk.Sched) {
					var section func(x int, nested bool)
					section = func(x int, nested bool) {
						calls := 0
						if inside[x] != 0 {
							contended = true
						}
						lockx.Lock(cells[x], func(p *cell) {
							calls++
							if p != cells[x] && bad == "" {
								bad = "the function was not given the cell"
							}
							if inside[x] != 0 && bad == "" {
								bad = fmt.Sprintf("goroutine %d entered a section while goroutine %d was inside", g, inside[x]-1)
							}
							inside[x] = g + 1
							p.log = append(p.log, g)
							order = append(order, g)
							n := p.n
							s.Yield()
							s.Yield()
							if nested {
								section(1, false)
							}
							p.n = n + 1
							ran++
							inside[x] = 0
						})
						if calls != 1 && bad == "" {
							bad = fmt.Sprintf("Lock ran its function %d times", calls)
						}
					}
					for i, x := range targets {
						section(x, nest[i])
					}
				})
			}
			s := vk.Schedule(r, 50000, procs...)
			c.Eval(1)
			c.Count("statements_scheduled", s.Steps)
			if contended {
				c.Distinct(s.Trace)
			}
			d := map[string]any{"goroutines": gs, "cells": ncells, "round": round, "order_of_sections": order, "statements": s.Steps}
			for _, p := range s.Panics {
				d["panic"] = p.Error()
				d["stack"] = p.Stack
				c.Violate("panic", d)
			}
			if s.Over {
				c.Violate("the goroutines do not finish: a cell stays locked", d)
			}
			if bad != "" {
				c.Violate(bad, d)
			}
			if ran != want {
				d["sections_run"], d["sections_requested"] = ran, want
				c.Violate("not every section ran exactly once", d)
			}
			total := 0
			for i, x := range cells {
				total += x.n
				if x.self != unsafe.Pointer(x) {
					d["cell"] = i
					c.Violate("the cell is not lockable afterwards", d)
				}
			}
			if total != want {
				d["counted"], d["sections_requested"] = total, want
				c.Violate("an update made in a section was lost", d)
			}
			if round < 2 {
				c.Sample(d)
			}
		}
		independent(c)
		if c.ID == "C21" {
			ordinary(c)
		}
	})
}

// independent: a held cell does not make others wait, however they are laid out.
func independent(c *vk.C) {
	for _, n := range []int{2, 3, 17, 64, 300} {
		arr := make([]cell, n)
		for i := range arr {
			arr[i].self = unsafe.Pointer(&arr[i])
		}
		for hold := 0; hold < n; hold += 1 + n/20 {
			vk.Bound(1000000)
			vk.Op()
			err := vk.Try(func() {
				lockx.Lock(&arr[hold], func(*cell) {
					for i := range arr {
						if i != hold {
							before := arr[i]
							ran := 0
							lockx.Lock(&arr[i], func(p *cell) { ran++; p.n++ })
							if ran != 1 || arr[i].self != unsafe.Pointer(&arr[i]) || arr[i].n != before.n+1 {
								c.Violate("locking another cell while one is held", map[string]any{"cells": n, "held": hold, "locked": i, "runs": ran})
							}
						}
					}
				})
			})
			if err != nil {
				c.Violate("a held cell keeps others from being locked", map[string]any{"cells": n, "held": hold, "observed": err.Error()})
			}
			c.Eval(1)
		}
		vk.Unbound()
	}
	field(c)
	// other cell types
	type small struct{ self unsafe.Pointer }
	s := &small{}
	s.self = unsafe.Pointer(s)
	type typed struct {
		self *typed
		x    int
	}
	y := &typed{}
	y.self = y
	vk.Bound(1000000)
	for i := 0; i < 100; i++ {
		n := 0
		vk.Op()
		if err := vk.Try(func() {
			lockx.Lock(s, func(p *small) { n++ })
			lockx.Lock(y, func(p *typed) { n++; p.x++ })
		}); err != nil || n != 2 || s.self != unsafe.Pointer(s) || y.self != y || y.x != i+1 {
			c.Violate("repeated locking of a free cell", map[string]any{"round": i, "sections": n, "error": fmt.Sprint(err)})
		}
		c.Eval(1)
	}
	vk.Unbound()
}

// long: sections that last seconds of real time, with callers that wait all
// that time for their cell, and others that do not have to.
func long(c *vk.C) {
	vk.Unbound()
	type holder struct {
		cells  []*cell
		inside []atomic.Int32
	}
	for round := 0; round < c.N(1, 6); round++ {
		hold := time.Duration(c.N(6, 20*(1+round%4))) * time.Second
		n := 2
		h := holder{inside: make([]atomic.Int32, n)}
		var wg sync.WaitGroup
		var sections atomic.Int64
		for i := 0; i < n; i++ {
			x := newCell()
			h.cells = append(h.cells, x)
			in := make(chan bool)
			enter := func(what string) {
				if k := h.inside[i].Add(1); k != 1 {
					c.Violate("two sections of a cell at once", map[string]any{"section": what, "inside": k, "first_section_lasts": hold.String()})
				}
				sections.Add(1)
				x.n++
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				lockx.Lock(x, func(*cell) {
					enter("holder")
					close(in)
					if i%2 == 0 {
						time.Sleep(hold)
					} else {
						for end := time.Now().Add(hold); time.Now().Before(end); {
						}
					}
					x.log = append(x.log, 1)
					h.inside[i].Add(-1)
				})
			}()
			<-in
			for w := 0; w < 1+round%3; w++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					lockx.Lock(x, func(*cell) {
						enter("waiting caller")
						if len(x.log) == 0 {
							c.Violate("a section does not see what the section before it wrote", map[string]any{"first_section_lasts": hold.String()})
						}
						h.inside[i].Add(-1)
					})
				}()
			}
		}
		wg.Wait()
		for i, x := range h.cells {
			if want := 2 + round%3; x.n != want || x.self != unsafe.Pointer(x) {
				c.Violate("sections lost around one that lasted long", map[string]any{"cell": i, "sections": x.n, "want": want, "free_again": x.self == unsafe.Pointer(x)})
			}
		}
		c.Eval(1)
		c.Distinct(uint64(round))
		c.Count("long_sections", n)
		c.Count("sections_after_a_long_wait", int(sections.Load())-n)
		c.Max("seconds_waited", int(hold/time.Second))
	}
}

// field: one held cell among very many others, near and far, and very many
// held at once.
func field(c *vk.C) {
	type small struct{ self unsafe.Pointer }
	n := c.N(200000, 1000000)
	arr := make([]small, n)
	for i := range arr {
		arr[i].self = unsafe.Pointer(&arr[i])
	}
	r := c.Rand("field")
	vk.SetBound(1000000)
	defer vk.Unbound()
	for _, hold := range []int{0, r.IntN(n), n - 1} {
		c.Context("cell %d of %d held, all others locked one after another", hold, n)
		ran := 0
		err := vk.Try(func() {
			vk.Op()
			lockx.Lock(&arr[hold], func(*small) {
				for i := range arr {
					if i != hold {
						vk.Op()
						lockx.Lock(&arr[i], func(*small) { ran++ })
					}
				}
			})
		})
		if err != nil || ran != n-1 {
			c.Violate("a held cell keeps others from being locked", map[string]any{"cells": n, "held": hold, "locked before": ran, "observed": fmt.Sprint(err)})
		}
		c.Eval(n)
	}
	const depth = 5000
	for round := 0; round < 4; round++ {
		order := r.Perm(n)[:depth]
		if round == 0 {
			for i := range order {
				order[i] = i
			}
		}
		c.Context("%d cells held at once", depth)
		inside := 0
		var down func(k int)
		down = func(k int) {
			if k == depth {
				return
			}
			vk.Op()
			lockx.Lock(&arr[order[k]], func(*small) {
				inside++
				down(k + 1)
			})
		}
		if err := vk.Try(func() { down(0) }); err != nil || inside != depth {
			c.Violate("holding many cells at once", map[string]any{"cells": depth, "held": inside, "observed": fmt.Sprint(err)})
		}
		c.Eval(depth)
	}
	for i := range arr {
		if arr[i].self != unsafe.Pointer(&arr[i]) {
			c.Violate("the cell is not lockable afterwards", map[string]any{"cell": i})
		}
	}
	c.Max("cells_side_by_side", n)
	c.Max("cells_held_at_once", depth)
}

// ordinary values: the known finding.
func ordinary(c *vk.C) {
	found := ""
	try := func(name string, f func() (ran int)) {
		vk.Bound(20000)
		vk.Op()
		ran := 0
		err := vk.Try(func() { ran = f() })
		vk.Unbound()
		c.Eval(1)
		c.Count("ordinary_values_tried", 1)
		if err != nil || ran != 1 {
			found += fmt.Sprintf("%s: function run %d times, %v; ", name, ran, err)
		}
	}
	try("int 0", func() (n int) { x := new(int); lockx.Lock(x, func(*int) { n++ }); return })
	try("int 42", func() (n int) { x := new(int); *x = 42; lockx.Lock(x, func(*int) { n++ }); return })
	try("struct", func() (n int) {
		x := &struct{ a, b int }{1, 2}
		lockx.Lock(x, func(*struct{ a, b int }) { n++ })
		return
	})
	try("string", func() (n int) { x := new(string); *x = "text"; lockx.Lock(x, func(*string) { n++ }); return })
	if found != "" {
		c.Known("lock-ordinary-value", "an ordinary value cannot be locked", found)
	}
}

// Cells of other types; all that matters is that the first word refers to the
// cell itself.
type (
	bare  unsafe.Pointer
	table [300]unsafe.Pointer
	big   struct {
		self *big
		pad  [5000]uint64
		n    int
	}
	inner struct {
		cell
		name string
	}
	link *link
	slot struct {
		self uintptr // keeps nothing alive, the caller does
		n    [3]uint8
	}
	iface struct {
		self unsafe.Pointer
		v    any
		f    func()
	}
)

// one lets goroutines count in plain memory behind a lock at a cell of type T,
// which may lie inside something else.
func one[T any](c *vk.C, r *rand.Rand, what string, x *T) {
	head := func() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(x)) }
	*(*unsafe.Pointer)(unsafe.Pointer(x)) = unsafe.Pointer(x)
	gs := 2 + r.IntN(5)
	const k = 15
	counted := 0
	var inside atomic.Int32
	var bad atomic.Pointer[string]
	wrong := func(s string) { bad.CompareAndSwap(nil, &s) }
	var wg sync.WaitGroup
	for g := 0; g < gs; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < k; i++ {
				lockx.Lock(x, func(p *T) {
					if p != x {
						wrong("the function was not given the cell")
					}
					if inside.Add(1) != 1 {
						wrong("two sections at once")
					}
					counted++
					if i%4 == 0 {
						runtime.Gosched()
					}
					inside.Add(-1)
				})
				vk.Tick()
			}
		}()
	}
	wg.Wait()
	c.Eval(gs * k)
	c.Count("sections of cells of other types", gs*k)
	if counted != gs*k {
		wrong("updates lost")
	}
	if head() != unsafe.Pointer(x) {
		wrong("the cell is not lockable afterwards")
	}
	if b := bad.Load(); b != nil {
		c.Violate("sections at one cell do not run one at a time", map[string]any{"cell": what, "observed": *b, "goroutines": gs, "sections": gs * k, "counted": counted})
	}
	runtime.KeepAlive(x)
}

func types(c *vk.C) {
	r := c.Rand("types")
	for round := 0; round < c.N(40, 1200); round++ {
		vk.Perturb(r.Uint64(), r.IntN(3))
		runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.IntN(4)])
		one(c, r, "bare pointer", new(bare))
		one(c, r, "pointer to itself", new(link))
		one(c, r, "array of pointers", new(table))
		one(c, r, "struct of 40 kB", new(big))
		one(c, r, "embedded", &new(inner).cell)
		one(c, r, "outer struct", new(inner))
		one(c, r, "number", new(slot))
		one(c, r, "struct with interfaces and functions", new(iface))
		many := make([]unsafe.Pointer, 64)
		one(c, r, "element of a slice", &many[r.IntN(64)])
		deep := new([9]struct {
			before [7]byte
			x      cell
		})
		one(c, r, "field of an element", &deep[r.IntN(9)].x)
	}
}

// race: sections write plain memory; only the lock orders them.
func race(c *vk.C) {
	types(c)
	r := c.Rand("race")
	for round := 0; round < c.N(300, 10000); round++ {
		vk.Perturb(r.Uint64(), r.IntN(3))
		runtime.GOMAXPROCS([]int{2, 4, 8}[r.IntN(3)])
		x := newCell()
		gs := 2 + r.IntN(5)
		const k = 30
		var wg sync.WaitGroup
		for g := 0; g < gs; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < k; i++ {
					lockx.Lock(x, func(p *cell) {
						p.n++
						if i%3 == 0 {
							runtime.Gosched()
						}
						p.log = append(p.log, g)
					})
					vk.Tick()
				}
			}()
		}
		wg.Wait()
		c.Eval(gs * k)
		c.Distinct(uint64(round))
		if x.n != gs*k || len(x.log) != gs*k || x.self != unsafe.Pointer(x) {
			c.Violate("updates lost or cell not lockable afterwards", map[string]any{"goroutines": gs, "sections": gs * k, "counted": x.n, "logged": len(x.log)})
		}
	}
}
