// C03: work of skip-list calls measured at growing sizes.
package c03

import (
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"

	"verifharness/vk"
)

// meter watches the calls that build a map: the average work in a window of
// calls may not be several times that of building the smallest map.
type meter struct {
	c              *vk.C
	base           map[string]float64 // per order, statements per call at the smallest size
	order          string
	n, calls       int
	steps, allwork int64
	all            int
}

func (w *meter) note() {
	w.calls++
	w.all++
	w.steps += vk.Steps()
	w.allwork += vk.Steps()
	if w.calls < 2000 {
		return
	}
	avg := float64(w.steps) / float64(w.calls)
	w.calls, w.steps = 0, 0
	if b, ok := w.base[w.order]; ok && avg > 6*b+60 {
		w.c.Violate("the work of a call grows with the size of the map", map[string]any{"while": "building", "history": w.order, "entries_aimed_at": w.n, "calls_so_far": w.all, "statements_per_call_recently": avg, "statements_per_call_for_the_smallest_map": b})
	}
}

// build makes a map with n entries (even keys 0..2n-2) by the named history.
func build(r *rand.Rand, order string, n int, w *meter) *sklmapx.SkipListMap[int, int] {
	m := sklmapx.New[int, int]()
	w.order, w.n, w.calls, w.steps, w.all, w.allwork = order, n, 0, 0, 0, 0
	defer func() {
		if _, ok := w.base[order]; !ok {
			w.base[order] = float64(w.allwork) / float64(w.all)
		}
	}()
	set := func(i int) { vk.Op(); m.Set(2*i, i); w.note() }
	del := func(i int) { vk.Op(); m.Del(2 * i); w.note() }
	switch order {
	case "ascending":
		for i := 0; i < n; i++ {
			set(i)
		}
	case "descending":
		for i := n - 1; i >= 0; i-- {
			set(i)
		}
	case "random":
		for _, i := range r.Perm(n) {
			set(i)
		}
	case "churn": // every entry deleted and inserted again
		for i := 0; i < n; i++ {
			set(i)
		}
		for round := 0; round < 2; round++ {
			for _, i := range r.Perm(n) {
				del(i)
				set(i)
			}
		}
	case "shrink": // what is left of a map four times as large
		for _, i := range r.Perm(4 * n) {
			set(i)
		}
		for _, i := range r.Perm(4 * n) {
			if i >= n {
				del(i)
			}
		}
	case "replaced": // a window of n entries moved along, oldest first
		for i := 0; i < 4*n; i++ {
			if i >= n {
				del(i - n)
			}
			vk.Op()
			m.Set(2*i, i)
			w.note()
		}
		for i := 0; i < n; i++ { // bring the keys back to 0..2n-2
			del(3*n + i)
			set(i)
		}
	case "stack": // the upper half removed and inserted again and again
		for i := 0; i < n; i++ {
			set(i)
		}
		for round := 0; round < 4; round++ {
			for i := n - 1; i >= n/2; i-- {
				del(i)
			}
			for i := n / 2; i < n; i++ {
				set(i)
			}
		}
	case "cleared":
		for i := 0; i < n; i++ {
			set(i)
		}
		m.Clear()
		for _, i := range r.Perm(n) {
			set(i)
		}
	}
	return m
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one call measured in executed statements, allocated bytes and time, at sizes from about a thousand to over a hundred thousand entries; distinct by size, history and operation.", func(c *vk.C) {
		vk.Bound(1 << 60)
		sizes := []int{1024, 8192, c.N(131072, 1048576)}
		r := c.Rand("cost")
		reps := 3
		tiny := map[string]float64{}
		w := &meter{c: c, base: map[string]float64{}}
		for _, order := range []string{"random", "ascending", "descending", "churn", "shrink", "cleared", "replaced", "stack"} {
			gs := map[string]*vk.Growth{}
			rec := func(name string, n int, cost vk.Cost) {
				g := gs[name]
				if g == nil {
					g = &vk.Growth{Name: order + " " + name}
					gs[name] = g
				}
				if len(g.Sizes) == 0 || g.Sizes[len(g.Sizes)-1] != n {
					g.Sizes = append(g.Sizes, n)
					g.Costs = append(g.Costs, nil)
				}
				g.Costs[len(g.Costs)-1] = append(g.Costs[len(g.Costs)-1], cost)
				c.Distinct(vk.HashS(fmt.Sprint(order, name, n)))
				c.Max("most_steps_of_one_call", int(cost.Max))
			}
			small := 0.0
			for i := 0; i < 32; i++ { // steps of an iterator over tiny maps
				it := build(r, order, 16, &meter{c: c, base: map[string]float64{}}).Iterator()
				small += vk.Measure(16, func(int) { it.Next() }).Steps / 32
			}
			tiny[order] = small
			for _, n := range sizes {
				if order == "shrink" && n > 200000 {
					n = 200000
				}
				for rep := 0; rep < reps; rep++ {
					c.Context("%s map with %d entries", order, n)
					m := build(r, order, n, w)
					if m.Len() != n {
						c.Violate("wrong number of entries", map[string]any{"order": order, "want": n, "len": m.Len()})
					}
					const k = 2000
					rec("Get", n, vk.Measure(k, func(int) { m.Get(2 * r.IntN(n)) }))
					rec("Get absent", n, vk.Measure(k, func(int) { m.Get(2*r.IntN(n) + 1) }))
					rec("Get last", n, vk.Measure(k, func(i int) { m.Get(2*n - 2*(i%10)) }))
					rec("Set present", n, vk.Measure(k, func(int) { m.Set(2*r.IntN(n), 1) }))
					it := m.Iterator()
					rec("Seek", n, vk.Measure(k, func(int) { it.Seek(2 * r.IntN(n)) }))
					it.Rewind()
					rec("Next", n, vk.Measure(min(n, 20000), func(int) { it.Next() }))
					ks := r.Perm(n)[:k/2]
					for _, x := range ks {
						m.Set(2*x+1, 1)
					}
					rec("Del", n, vk.Measure(len(ks), func(i int) { m.Del(2*ks[i] + 1) }))
					rec("Set new", n, vk.Measure(len(ks), func(i int) { m.Set(2*ks[i]+1, 1) }))
					c.Eval(7*k + 20000)
				}
			}
			for name, g := range gs {
				med := g.Median()
				if name == "Get" || name == "Next" {
					c.Sample(map[string]any{"order": order, "operation": name, "sizes": g.Sizes, "cost": med})
				}
				if med[0].Steps == 0 {
					c.Count("not_instrumented", 1)
				}
				f := 3.0
				if name == "Next" {
					f = 1.5
				}
				err := g.Judge(f)
				if d1, d2 := med[1].Steps-med[0].Steps, med[2].Steps-med[1].Steps; err == nil && d2 > 6*max(d1, 0)+0.6*med[0].Steps+10 {
					err = fmt.Errorf("%s: the growth accelerates: %.1f, %.1f and %.1f statements per call at sizes %v", g.Name, med[0].Steps, med[1].Steps, med[2].Steps, g.Sizes)
				}
				if err == nil && name == "Next" && med[2].Steps > 1.2*tiny[order]+3 {
					err = fmt.Errorf("%s: a step costs %.1f statements with 16 entries and %.1f with %d", g.Name, tiny[order], med[2].Steps, g.Sizes[2])
				}
				if err != nil {
					c.Violate("the work of a call grows with the size of the map", map[string]any{"observed": err.Error(), "sizes": g.Sizes, "costs": g.Costs})
				}
			}
		}
	})
}
