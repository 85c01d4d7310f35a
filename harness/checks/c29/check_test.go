// C29: lifetimes of idle workers under virtual time. Workers are identified
// by the goroutine their handler runs on; the ideal pool gives for every
// moment the workers that must be alive and those that must be gone.
package c29

import (
	"fmt"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"

	"verifharness/pool"
	"verifharness/vk"
)

type worker struct {
	busy  bool
	since time.Duration // idle since
	gone  bool
}

type task struct {
	gate chan bool
	gid  chan int64
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of submissions, completions and pauses on one pool under virtual time; non-trivial when a worker was collected or reused; distinct by configuration and history.", func(c *vk.C) {
		defer pool.Crowds(c, t, 30, 400, func(x *pool.Crowd) []string { return x.Lives }) // last: they slow the dumps of all goroutines down
		r := c.Rand("lifetimes")
		for round := 0; round < c.N(1800, 60000); round++ {
			pool.Procs(r, round)
			maxW := []int64{1, 2, 3, 5, 8, 1 << 40}[r.IntN(6)]
			unit := []time.Duration{time.Millisecond, time.Microsecond, time.Second, time.Hour}[r.IntN(4)]
			it := time.Duration(1+r.IntN(12)) * unit
			gc := time.Duration(1+r.IntN(12)) * unit
			if r.IntN(4) == 0 {
				gc += time.Duration(r.IntN(1000))
			}
			pre := 0
			if r.IntN(2) == 0 {
				pre = 1 + r.IntN(8)
			}
			log := []string{fmt.Sprintf("max=%d timeout=%v gc=%v preheat=%d", maxW, it, gc, pre)}
			reused, collected := 0, 0
			c.Bubble(t, func() any { return log }, func() {
				begin := time.Now()
				now := func() time.Duration { return time.Since(begin) }
				fail := func(what string, a ...any) {
					c.Violate(fmt.Sprintf(what, a...), map[string]any{"history": log})
				}
				p, err := gopoolx.NewTimedPool(maxW, func(x task) {
					x.gid <- vk.GID()
					<-x.gate
				}, it, gc, pre)
				if err != nil {
					fail("valid construction arguments refused: %v", err)
				}
				ws := map[int64]*worker{}
				pre64 := min(int64(pre), maxW)
				if w := p.Workers(); w != pre64 {
					fail("%d workers right after construction, preheated %d", w, pre64)
				}
				unseen := int(pre64) // preheated workers that have not run a task, idle since 0
				type run struct {
					x   task
					gid int64
				}
				var running []run
				// The moment by which a worker idle since s is gone for certain.
				deadline := func(s time.Duration) time.Duration {
					due := s + it
					if due%gc == 0 {
						return due + 2*gc
					}
					return due + gc
				}
				check := func() {
					synctest.Wait()
					t := now()
					alive := vk.Goroutines()
					lo, hi, live := int64(0), int64(0), int64(0)
					for id, w := range ws {
						if w.gone {
							continue
						}
						_, there := alive[id]
						idle := t - w.since
						switch {
						case w.busy:
							lo, hi = lo+1, hi+1
							if !there {
								fail("at %v: the goroutine of busy worker %d is gone", t, id)
							}
						case idle < it:
							lo, hi = lo+1, hi+1
							if !there {
								fail("at %v: worker %d is gone after only %v of idleness", t, id, idle)
							}
						case t > deadline(w.since):
							if there {
								fail("at %v: worker %d is still alive after %v of idleness", t, id, idle)
							}
						default:
							hi++
						}
						if there {
							live++
						} else {
							w.gone = true
							collected++
						}
					}
					n := p.Workers()
					u := int64(unseen)
					switch {
					case t < it:
						lo, hi = lo+u, hi+u
					case t > deadline(0):
						unseen = 0
						u = 0
					default:
						hi += u
					}
					if n < lo || n > hi {
						fail("at %v: %d workers reported; %d are busy or recently used, at most %d can be alive", t, n, lo, hi)
					}
					if u == 0 && n != live {
						fail("at %v: %d workers reported but %d worker goroutines are alive", t, n, live)
					}
				}
				submit := func() {
					before := p.Workers()
					x := task{make(chan bool), make(chan int64, 1)}
					busy := int64(len(running))
					ok := p.Run(x)
					synctest.Wait()
					if !ok {
						if busy < maxW {
							fail("at %v: Run refused with %d of %d handlers running", now(), busy, maxW)
						}
						log = append(log, fmt.Sprintf("%v refused", now()))
						return
					}
					after := p.Workers()
					if before > busy && after != before || before <= busy && after != before+1 {
						fail("at %v: the worker count went from %d to %d by a submission while %d were busy", now(), before, after, busy)
					}
					var id int64
					select {
					case id = <-x.gid:
					default:
						fail("at %v: the accepted task does not run", now())
					}
					w := ws[id]
					switch {
					case w == nil && before > busy: // an idle worker had to be used: preheated
						if unseen == 0 {
							fail("at %v: idle workers exist but the task runs on a new goroutine", now())
						}
						unseen--
						ws[id] = &worker{busy: true}
						reused++
					case w == nil:
						ws[id] = &worker{busy: true}
					default:
						if w.busy {
							fail("at %v: a task was given to busy worker %d", now(), id)
						}
						w.busy = true
						reused++
					}
					running = append(running, run{x, id})
					log = append(log, fmt.Sprintf("%v run on %d", now(), id))
				}
				finish := func(j int) {
					x := running[j]
					running = append(running[:j], running[j+1:]...)
					close(x.x.gate)
					synctest.Wait()
					ws[x.gid].busy, ws[x.gid].since = false, now()
					log = append(log, fmt.Sprintf("%v done %d", now(), x.gid))
				}
				// Calls stay off the instants of collections.
				off := func() {
					if m := now() % gc; m == 0 {
						time.Sleep(max(1, gc/3))
					}
				}
				n := 10 + r.IntN(50)
				for i := 0; i < n; i++ {
					check()
					off()
					check()
					switch k := r.IntN(10); {
					case k < 3:
						submit()
					case k < 4:
						for j := 0; j < 1+r.IntN(4); j++ {
							submit()
						}
					case k < 6 && len(running) > 0:
						finish(r.IntN(len(running)))
					case k < 7:
						for len(running) > 0 {
							finish(r.IntN(len(running)))
						}
					default:
						var d time.Duration
						switch r.IntN(6) {
						case 0:
							d = time.Duration(r.Int64N(int64(it)))
						case 1:
							d = time.Duration(r.Int64N(int64(gc)))
						case 2:
							d = it - 1 - now()%gc
						case 3:
							d = it + gc
						case 4: // just before or after the next due moment of some idle worker
							var due []time.Duration
							for _, w := range ws {
								if !w.busy && !w.gone {
									due = append(due, w.since+it-1, deadline(w.since)+1)
								}
							}
							sort.Slice(due, func(i, j int) bool { return due[i] < due[j] })
							for _, x := range due {
								if x > now() {
									d = x - now()
									break
								}
							}
						case 5:
							d = unit
						}
						if d > 0 {
							time.Sleep(d)
						}
						log = append(log, fmt.Sprintf("%v slept", now()))
					}
				}
				check()
				for len(running) > 0 {
					off()
					finish(0)
				}
				if r.IntN(2) == 0 {
					time.Sleep(it + 2*gc + 1)
					check()
					if n := p.Workers(); n != 0 {
						fail("at %v: %d workers after everything was idle for the timeout and two collections", now(), n)
					}
				}
				p.Stop()
				time.Sleep(3 * gc)
			})
			c.Eval(len(log))
			c.Count("workers_reused", reused)
			c.Count("workers_collected", collected)
			if reused+collected > 0 {
				c.Distinct(vk.HashS(fmt.Sprint(log[0], len(log), reused, collected, round)))
			}
			if reused > 2 && collected > 2 && round < 50 {
				c.Sample(log)
			}
		}
	})
}
