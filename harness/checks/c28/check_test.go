// C28: the worker limit, and refusals only when the pool is full. Besides the
// storms of package pool, a pool is driven one call at a time: between the
// calls everything comes to rest, so that Run must succeed exactly when fewer
// than max handlers are running, and of several calls at once exactly as many
// as there are free places.
package c28

import (
	"fmt"
	"math"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"

	"verifharness/pool"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one storm on a pool, one call-by-call history, or one combination of construction arguments; non-trivial when the pool was full at some moment or an argument is at a limit; distinct by configuration and outcomes.", func(c *vk.C) {
		arguments(c, t)
		rest(c, t)
		storms(c, t)
		pool.Crowds(c, t, 30, 400, func(x *pool.Crowd) []string { return x.Limits })
	})
}

func arguments(c *vk.C, t *testing.T) {
	for _, m := range []int64{math.MinInt64, -2, -1, 0, 1, 2, 5, math.MaxInt64} {
		for _, h := range []func(int){nil, func(int) {}} {
			for _, it := range []time.Duration{math.MinInt64, -1, 0, 1, time.Second, math.MaxInt64} {
				for _, gc := range []time.Duration{math.MinInt64, -1, 0, 1, time.Second, math.MaxInt64} {
					for _, pre := range []int{math.MinInt, -1, 0, 1, 2, 5, 9, math.MaxInt} {
						if m > 1000 && pre > 1000 {
							continue // asks for that many goroutines
						}
						bad := m <= 0 || h == nil || it <= 0 || gc <= 0
						c.Context("NewTimedPool(%d, nil=%v, %d, %d, %d)", m, h == nil, it, gc, pre)
						c.Eval(1)
						c.Distinct(vk.HashS(fmt.Sprint(m, h == nil, it, gc, pre)))
						var p *gopoolx.TimedPool[int]
						var err error
						var w int64
						if bad {
							if e := vk.Try(func() { p, err = gopoolx.NewTimedPool(m, h, it, gc, pre) }); e != nil {
								c.Violate("construction panics", map[string]any{"arguments": fmt.Sprint(m, h == nil, it, gc, pre), "panic": e.Error()})
							}
							if err == nil || p != nil {
								c.Violate("invalid construction arguments accepted", map[string]any{"arguments": fmt.Sprint(m, h == nil, it, gc, pre), "error": fmt.Sprint(err), "pool": p != nil})
							}
							continue
						}
						c.Bubble(t, nil, func() {
							p, err = gopoolx.NewTimedPool(m, h, it, gc, pre)
							if err == nil && p != nil {
								w = p.Workers()
								p.Stop()
							}
						})
						if err != nil || p == nil {
							c.Violate("valid construction arguments refused", map[string]any{"arguments": fmt.Sprint(m, it, gc, pre), "error": fmt.Sprint(err)})
						}
						if w > m {
							c.Violate("preheating exceeds the worker limit", map[string]any{"max": m, "preheat": pre, "workers": w})
						}
					}
				}
			}
		}
	}
}

func rest(c *vk.C, t *testing.T) {
	r := c.Rand("rest")
	for round := 0; round < c.N(2500, 80000); round++ {
		pool.Procs(r, round)
		var log []string
		full, together := 0, 0
		maxW := int64([]int{1, 2, 3, 4, 7, 20}[r.IntN(6)])
		it := time.Duration(1+r.IntN(5)) * time.Millisecond
		gc := time.Duration(1+r.IntN(5)) * time.Millisecond
		pre := r.IntN(int(maxW) + 3)
		log = append(log, fmt.Sprintf("max=%d timeout=%v gc=%v preheat=%d", maxW, it, gc, pre))
		c.Bubble(t, func() any { return log }, func() {
			fail := func(what string) {
				c.Violate(what, map[string]any{"history": log})
			}
			begin := time.Now()
			running := 0 // only changed at rest
			gates := []chan bool{}
			p, err := gopoolx.NewTimedPool(maxW, func(g chan bool) { <-g }, it, gc, pre)
			if err != nil {
				fail("valid construction arguments refused: " + err.Error())
			}
			workers := func() {
				if w := p.Workers(); w > maxW || w < int64(running) {
					fail(fmt.Sprintf("%d workers reported with %d handlers running and a limit of %d", w, running, maxW))
				}
			}
			// Instants between collections: nothing but the call happens.
			settle := func() {
				synctest.Wait()
				if time.Since(begin)%gc == 0 {
					time.Sleep(gc / 2)
				}
				synctest.Wait()
			}
			stopAt := -1
			n := 10 + r.IntN(50)
			if r.IntN(3) == 0 {
				stopAt = r.IntN(n)
			}
			bias := 1 + r.IntN(3)
			stopped := false
			for i := 0; i < n; i++ {
				settle()
				workers()
				if i == stopAt {
					p.Stop()
					stopped = true
					log = append(log, "stop")
					continue
				}
				switch k := r.IntN(8); {
				case k >= 6:
					// Several calls at once while no handler ends and no time
					// passes: together they take exactly the free places.
					n := 2 + r.IntN(5)
					oks := make([]bool, n)
					gs := make([]chan bool, n)
					start := make(chan bool)
					for j := range gs {
						gs[j] = make(chan bool)
						go func() {
							<-start
							oks[j] = p.Run(gs[j])
						}()
					}
					synctest.Wait()
					close(start)
					synctest.Wait()
					got := 0
					for j := range gs {
						if oks[j] {
							got++
							gates = append(gates, gs[j])
						}
					}
					log = append(log, fmt.Sprintf("%v %d runs at once -> %d succeed (%d running)", time.Since(begin), n, got, running))
					want := min(n, int(maxW)-running)
					if stopped {
						want = 0
					}
					if got != want {
						fail(fmt.Sprintf("%d of %d concurrent Runs succeeded with %d of %d handlers running (stopped: %v)", got, n, running, maxW, stopped))
					}
					together++
					running += got
				case k < 1+bias:
					g := make(chan bool)
					ok := p.Run(g)
					log = append(log, fmt.Sprintf("%v run -> %v (%d running)", time.Since(begin), ok, running))
					if want := running < int(maxW) && !stopped; ok != want {
						fail(fmt.Sprintf("Run returned %v with %d of %d handlers running (stopped: %v)", ok, running, maxW, stopped))
					}
					if running == int(maxW) {
						full++
					}
					if ok {
						gates = append(gates, g)
						running++
					}
				case k == 4:
					if running > 0 {
						j := r.IntN(running)
						close(gates[j])
						gates[j] = gates[running-1]
						gates = gates[:running-1]
						running--
						log = append(log, fmt.Sprintf("%v end one", time.Since(begin)))
					}
				case k == 5:
					d := time.Duration(r.IntN(4)) * gc
					if r.IntN(2) == 0 {
						d = it + time.Duration(r.IntN(3)-1)
					}
					time.Sleep(d)
					log = append(log, fmt.Sprintf("%v slept", time.Since(begin)))
				default: // several at once, then again at rest
					if running > 0 && r.IntN(2) == 0 {
						for _, g := range gates {
							close(g)
						}
						gates, running = nil, 0
						log = append(log, fmt.Sprintf("%v end all", time.Since(begin)))
					}
				}
			}
			settle()
			workers()
			for _, g := range gates {
				close(g)
			}
			p.Stop()
		})
		c.Eval(len(log))
		c.Count("runs_on_a_full_pool", full)
		c.Count("volleys_of_concurrent_runs", together)
		if full > 0 {
			c.Distinct(vk.HashS(fmt.Sprint(log)))
		}
		if round < 5 {
			c.Sample(log)
		}
	}
}

func storms(c *vk.C, t *testing.T) {
	r := c.Rand("storms")
	for round := 0; round < c.N(2500, 80000); round++ {
		pool.Procs(r, round)
		cfg := pool.Random(r)
		cfg.Max = []int64{1, 2, 3, 5}[r.IntN(4)]
		cfg.Clients = 2 + r.IntN(6)
		res := pool.Run(c, t, cfg, r)
		c.Eval(1)
		c.Max("most_handlers_at_once", int(res.MaxRunning))
		if res.MaxRunning > cfg.Max {
			c.Violate(fmt.Sprintf("%d handlers ran at once with a limit of %d", res.MaxRunning, cfg.Max), res.Show())
		}
		if res.MaxWorkers > cfg.Max {
			c.Violate(fmt.Sprintf("%d workers reported with a limit of %d", res.MaxWorkers, cfg.Max), res.Show())
		}
		if res.MaxRunning == cfg.Max {
			c.Count("storms_that_reached_the_limit", 1)
			c.Distinct(res.Hash())
		}
	}
}
