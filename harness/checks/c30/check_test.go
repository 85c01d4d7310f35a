// C30: Stop is final, complete and repeatable.
package c30

import (
	"fmt"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"

	"verifharness/pool"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one scenario in which a pool is stopped, at some moment and by one or several callers; non-trivial when tasks were running or submitted around the stop; distinct by configuration and outcomes.", func(c *vk.C) {
		if c.Phase == "race" {
			pool.Race(c, true)
			return
		}
		r := c.Rand("scenarios")
		for round := 0; round < c.N(4000, 120000); round++ {
			pool.Procs(r, round)
			cfg := pool.Random(r)
			if cfg.Stops == 0 && cfg.HandlerStops == 0 && r.IntN(4) > 0 {
				cfg.Stops = 1 + r.IntN(4)
			}
			res := pool.Run(c, t, cfg, r)
			c.Eval(1)
			acc, ref := 0, 0
			for _, x := range res.Tasks {
				if x.Accepted {
					acc++
				} else if x.Called {
					ref++
				}
			}
			c.Count("stop_calls", int(res.StopCalls))
			c.Count("tasks_accepted", acc)
			c.Count("tasks_refused", ref)
			if acc > 0 {
				c.Distinct(res.Hash())
			}
			if acc > 2 && ref > 2 && round < 40 {
				c.Sample(res.Show())
			}
			if len(res.LateOK) > 0 {
				c.Violate("Run succeeded after a Stop had returned", map[string]any{"tasks": res.LateOK, "scenario": res.Show()})
			}
			if res.StopsDone != res.StopCalls {
				c.Violate("a Stop did not return", res.Show())
			}
			if res.Workers != 0 {
				c.Violate(fmt.Sprintf("%d workers reported after the stopped pool has finished its tasks", res.Workers), res.Show())
			}
			if len(res.Left) > 0 {
				c.Violate("goroutines of a stopped pool live on", map[string]any{"goroutines": res.Left, "scenario": res.Show()})
			}
			if l := res.Lost(); len(l) > 0 {
				c.Violate("a task accepted before the stop did not finish", map[string]any{"tasks": l, "scenario": res.Show()})
			}
		}
		prompt(c, t)
		pool.Crowds(c, t, 30, 400, func(x *pool.Crowd) []string { return x.Ends })
	})
}

// prompt: Stop returns although handlers run on, refuses at once, and what is
// left goes when the handlers end.
func prompt(c *vk.C, t *testing.T) {
	r := c.Rand("prompt")
	for round := 0; round < c.N(2000, 50000); round++ {
		pool.Procs(r, round)
		maxW, pre, n := int64(1+r.IntN(5)), r.IntN(5), r.IntN(7)
		it, gc := time.Duration(1+r.IntN(5))*time.Millisecond, time.Duration(1+r.IntN(5))*time.Millisecond
		wait := time.Duration(r.IntN(4)) * gc
		inside, callers, order := r.IntN(3) == 0, 1+r.IntN(3), r.IntN(2)
		desc := fmt.Sprintf("max=%d preheat=%d tasks=%d timeout=%v gc=%v pause=%v inside=%v callers=%d", maxW, pre, n, it, gc, wait, inside, callers)
		accepted := 0
		c.Bubble(t, func() any { return desc }, func() {
			fail := func(f string, a ...any) {
				c.Violate(fmt.Sprintf(f, a...), map[string]any{"scenario": desc, "goroutines": vk.Goroutines()})
			}
			var p *gopoolx.TimedPool[int]
			var first atomic.Bool
			gate := make(chan bool)
			ended := make(chan bool, 100)
			returned := make(chan bool, 100)
			p, err := gopoolx.NewTimedPool(maxW, func(i int) {
				if inside && first.CompareAndSwap(false, true) {
					p.Stop()
					p.Stop()
					returned <- true
				}
				<-gate
				ended <- true
			}, it, gc, pre)
			if err != nil {
				fail("valid construction arguments refused: %v", err)
			}
			if order == 0 {
				time.Sleep(wait)
			}
			stops := 0
			for i := 0; i < n; i++ {
				if p.Run(i) {
					accepted++
				}
			}
			if inside && accepted > 0 {
				stops++
			}
			if order == 1 {
				time.Sleep(wait)
			}
			if !inside || accepted == 0 {
				for i := 0; i < callers; i++ {
					stops++
					go func() {
						p.Stop()
						if p.Run(50) {
							fail("Run succeeded after Stop had returned")
						}
						p.Stop()
						returned <- true
					}()
				}
			}
			synctest.Wait()
			if len(returned) != stops {
				fail("%d of %d Stops have returned while %d handlers are running", len(returned), stops, accepted)
			}
			if p.Run(60) {
				fail("Run succeeded after Stop had returned")
			}
			if len(ended) != 0 {
				fail("a handler ended before its time")
			}
			time.Sleep(time.Duration(r.IntN(3)) * gc)
			if w := p.Workers(); w < int64(accepted) {
				fail("%d workers reported while %d handlers are running", w, accepted)
			}
			close(gate)
			time.Sleep(20 * (it + gc))
			if len(ended) != accepted {
				fail("%d of %d accepted tasks finished", len(ended), accepted)
			}
			if w := p.Workers(); w != 0 {
				fail("%d workers reported after the stopped pool has finished its tasks", w)
			}
			if g := vk.Goroutines(); len(g) > 0 {
				fail("%d goroutines of a stopped pool live on", len(g))
			}
			p.Stop()
		})
		c.Eval(1)
		if accepted > 0 {
			c.Distinct(vk.HashS(fmt.Sprint(desc, accepted)))
		}
	}
}
