package pool

import (
	"fmt"
	"math/rand/v2"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"

	"verifharness/vk"
)

// Crowd is what a pool with thousands of workers showed.
type Crowd struct {
	Limit, Tasks int
	Accepted     int
	Wrong        []string // tasks that did not run exactly once / ran though refused
	Limits       []string // handlers or workers beyond the limit, refusals too early
	Lives        []string // workers gone too early or too late, or not reused
	Ends         []string // after Stop
	Log          []string
}

// RunCrowd fills a pool with a large limit, lets the handlers end in two
// waves, reuses some of the workers, lets everything become idle and stops it.
func RunCrowd(c *vk.C, t *testing.T, r *rand.Rand, limit int) *Crowd {
	if limit == 0 {
		limit = []int{65, 300, 1025, 4097, 5000, 9000, 20000, 30000}[r.IntN(8)]
	}
	it := time.Duration(2+r.IntN(8)) * time.Second
	gc := time.Duration(1+r.IntN(4)) * time.Second
	endless := r.IntN(3) == 0 // no limit that matters
	max := int64(limit)
	if endless {
		max = 1 << 40
	}
	pre := []int{0, 0, limit / 2, limit}[r.IntN(4)]
	res := &Crowd{Limit: limit, Tasks: 2 * limit}
	c.Bubble(t, func() any { return res.Log }, func() {
		logf := func(f string, a ...any) { res.Log = append(res.Log, fmt.Sprintf(f, a...)) }
		logf("max=%d timeout=%v gc=%v preheat=%d", max, it, gc, pre)
		ran := make([]atomic.Int32, 4*limit)
		ended := make([]atomic.Int32, 4*limit)
		ok := make([]bool, 4*limit)
		gates := make([]chan bool, 6)
		for i := range gates {
			gates[i] = make(chan bool)
		}
		type task struct{ id, gate int }
		var now, most atomic.Int64
		begin := time.Now()
		base := vk.NumGoroutines(-1)
		p, err := gopoolx.NewTimedPool(max, func(x task) {
			n := now.Add(1)
			for o := most.Load(); n > o && !most.CompareAndSwap(o, n); o = most.Load() {
			}
			ran[x.id].Add(1)
			<-gates[x.gate]
			ended[x.id].Add(1)
			now.Add(-1)
		}, it, gc, pre)
		if err != nil {
			c.Violate("valid construction arguments refused", err.Error())
		}
		next := 0
		run := func(gate int) bool {
			x := task{next, gate}
			next++
			ok[x.id] = p.Run(x)
			if ok[x.id] {
				res.Accepted++
			}
			return ok[x.id]
		}
		// Stay between the collections.
		time.Sleep(gc / 4)
		first := limit / (1 + r.IntN(4))
		for i := 0; i < limit; i++ {
			g := 0
			if i >= first {
				g = 1
			}
			if !run(g) {
				res.Limits = append(res.Limits, fmt.Sprintf("Run refused with %d of %d handlers running", i, max))
				break
			}
		}
		synctest.Wait()
		workers := func(lo, hi int, what string, list *[]string) {
			synctest.Wait()
			w := p.Workers()
			g := vk.NumGoroutines(int(w)+base+1) - base - 1 // without the collector
			logf("%v %s: %d workers, %d goroutines", time.Since(begin), what, w, g)
			if w < int64(lo) || w > int64(hi) {
				*list = append(*list, fmt.Sprintf("%v %s: %d workers, want %d to %d", time.Since(begin), what, w, lo, hi))
			}
			if int64(g) != w {
				*list = append(*list, fmt.Sprintf("%v %s: %d workers reported, %d goroutines alive", time.Since(begin), what, w, g))
			}
		}
		workers(limit, limit, "all busy", &res.Lives)
		if !endless {
			for i := 0; i < 3; i++ {
				if run(0) {
					res.Limits = append(res.Limits, fmt.Sprintf("Run succeeded with %d of %d handlers running", limit+i, max))
				}
			}
		}
		// past sleeps until workers idle since s must be gone.
		past := func(s time.Duration) {
			due := s + it
			if due%gc == 0 {
				due += gc
			}
			time.Sleep(due + gc + 1 - time.Since(begin))
		}
		idle := time.Since(begin)
		// First wave ends; before their timeout some are used again.
		close(gates[0])
		synctest.Wait()
		workers(limit, limit, "first wave idle", &res.Lives)
		time.Sleep(it - it/8)
		workers(limit, limit, "shortly before the timeout", &res.Lives)
		again := first / (2 + r.IntN(3))
		for i := 0; i < again; i++ {
			if !run(2) {
				res.Limits = append(res.Limits, fmt.Sprintf("Run refused with %d of %d handlers running", limit-first+i, max))
				break
			}
		}
		workers(limit, limit, "some used again", &res.Lives)
		past(idle)
		workers(limit-first+again, limit-first+again, "idle part of the first wave expired", &res.Lives)
		// Second wave ends, everything idle.
		close(gates[1])
		close(gates[2])
		synctest.Wait()
		workers(limit-first+again, limit-first+again, "all idle", &res.Lives)
		full := r.IntN(2) == 0
		if full {
			past(time.Since(begin))
			workers(0, 0, "everything expired", &res.Lives)
		}
		busy := r.IntN(limit)
		for i := 0; i < busy; i++ {
			if !run(3) {
				res.Limits = append(res.Limits, fmt.Sprintf("Run refused with %d of %d handlers running", i, max))
				break
			}
		}
		want := busy
		if !full && limit-first+again > busy {
			want = limit - first + again
		}
		workers(want, want, "busy again", &res.Lives)
		p.Stop()
		if run(3) {
			res.Ends = append(res.Ends, "Run succeeded after Stop had returned")
		}
		synctest.Wait()
		if w := p.Workers(); w < int64(busy) {
			res.Ends = append(res.Ends, fmt.Sprintf("%d workers reported with %d handlers running after Stop", w, busy))
		}
		close(gates[3])
		time.Sleep(2 * gc)
		if w := p.Workers(); w != 0 {
			res.Ends = append(res.Ends, fmt.Sprintf("%d workers reported after the stopped pool had finished", w))
		}
		if g := vk.NumGoroutines(base) - base; g != 0 {
			res.Ends = append(res.Ends, fmt.Sprintf("%d goroutines of a stopped pool live on", g))
		}
		for i := 0; i < next; i++ {
			n := int32(0)
			if ok[i] {
				n = 1
			}
			if ran[i].Load() != n || ended[i].Load() != n {
				res.Wrong = append(res.Wrong, fmt.Sprintf("task %d: accepted %v, began %d times, ended %d times", i, ok[i], ran[i].Load(), ended[i].Load()))
			}
		}
		if most.Load() > max {
			res.Limits = append(res.Limits, fmt.Sprintf("%d handlers ran at once with a limit of %d", most.Load(), max))
		}
		c.Count("crowd_tasks", next)
	})
	c.Eval(1)
	c.Count("crowds", 1)
	c.Max("largest_crowd", limit)
	c.Distinct(vk.HashS(fmt.Sprint(res.Log)))
	return res
}

// Crowds runs crowds and reports what pick selects.
func Crowds(c *vk.C, t *testing.T, quick, thorough int, pick func(*Crowd) []string) {
	r := c.Rand("crowds")
	for i := 0; i < c.N(quick, thorough); i++ {
		Procs(r, i)
		limit := 0
		if i < 2 {
			limit = []int{34000, 68000}[i] + r.IntN(1000) // counts beyond 15 and 16 bits
		}
		x := RunCrowd(c, t, r, limit)
		if l := pick(x); len(l) > 0 {
			if len(l) > 20 {
				l = l[:20]
			}
			c.Violate("in a large pool: "+l[0], map[string]any{"problems": l, "scenario": x.Log})
		}
	}
}
