// C24: wakeups that race with sleeps. Histories of calls that all happen at
// one virtual instant are checked against a sequential sleeper; a sleep that
// goes on although a wakeup reported success shows as a goroutine that is
// still blocked when the bubble has come to rest.
package c24

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/unsafe-risk/utilx/timex/sleepx"

	"verifharness/vk"
)

type in struct {
	op string // begin, end, wakeup, rest
	id int
}

type state struct {
	id    int // sleep in progress, 0: none
	woken bool
}

// The sequential sleeper. A successful sleep is a begin and an end inside its
// call; a sleep only ends after a wakeup (they all would sleep forever, or
// for an hour of virtual time that never passes).
var model = porcupine.Model{
	Init: func() interface{} { return state{} },
	Step: func(st, i, o interface{}) (bool, interface{}) {
		s, a := st.(state), i.(in)
		switch a.op {
		case "begin":
			if o.(bool) {
				return s.id == 0, state{id: a.id}
			}
			return s.id != 0, s
		case "end":
			return s.id == a.id && s.woken, state{}
		case "wakeup":
			if o.(bool) {
				s.woken = true
				return s.id != 0, s
			}
			return s.id == 0, s
		case "rest": // everything has come to rest with sleep id still going on (0: none)
			return s.id == a.id && !s.woken, s
		}
		return false, s
	},
}

type ev struct {
	client int
	op     string
	id     int
	t0, t1 int64
	ok     bool
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of concurrent sleep and wakeup calls; non-trivial when a wakeup overlaps the beginning or end of a sleep; distinct by order of calls, returns and results.", func(c *vk.C) {
		if c.Phase == "race" {
			race(c)
			return
		}
		r := c.Rand("hist")
		for round := 0; round < c.N(12000, 400000); round++ {
			vk.Perturb(r.Uint64(), r.IntN(3))
			if round%500 == 0 {
				runtime.GOMAXPROCS([]int{1, 2, 8, 8}[r.IntN(4)])
			}
			var hist []ev
			stuck := 0
			synctest.Test(t, func(t *testing.T) {
				s := sleepx.New()
				var clock atomic.Int64
				sleepers, wakers := 1+r.IntN(3), 1+r.IntN(3)
				logs := make([][]ev, sleepers+wakers)
				current := make([]ev, sleepers)
				active := make([]bool, sleepers)
				var stop atomic.Bool
				for g := 0; g < sleepers; g++ {
					k := 1 + r.IntN(3)
					kind := r.IntN(3)
					pre := r.IntN(6)
					go func() {
						for i := 0; i < pre; i++ {
							runtime.Gosched()
						}
						for i := 0; i < k && !stop.Load(); i++ {
							id := g*10 + i + 1
							current[g] = ev{client: g, op: "sleep", id: id, t0: clock.Add(1)}
							active[g] = true
							var ok bool
							switch kind {
							case 0:
								ok = s.SleepForever()
							case 1:
								ok = s.SleepFor(3600)
							case 2:
								ok = s.SleepUntil(time.Now().Add(time.Hour))
							}
							e := current[g]
							e.t1, e.ok = clock.Add(1), ok
							active[g] = false
							logs[g] = append(logs[g], e)
						}
					}()
				}
				for g := sleepers; g < sleepers+wakers; g++ {
					k := 1 + r.IntN(4)
					pre := r.IntN(6)
					until := r.IntN(3) == 0
					go func() {
						for i := 0; i < pre; i++ {
							runtime.Gosched()
						}
						for i := 0; i < k; i++ {
							e := ev{client: g, op: "wakeup", t0: clock.Add(1)}
							e.ok = s.Wakeup()
							e.t1 = clock.Add(1)
							logs[g] = append(logs[g], e)
							if until && e.ok {
								break
							}
							runtime.Gosched()
						}
					}()
				}
				synctest.Wait()
				for _, l := range logs {
					hist = append(hist, l...)
				}
				rest := ev{client: 99, op: "rest", t0: clock.Add(1)}
				n := 0
				for g := range active {
					if active[g] {
						n++
						stuck++
						rest.id = current[g].id
						e := current[g]
						e.op, e.ok, e.t1 = "begun", true, clock.Add(1)
						hist = append(hist, e)
					}
				}
				rest.t1 = clock.Add(1)
				hist = append(hist, rest)
				if n > 1 {
					c.Violate("two sleeps on one sleeper at the same time", map[string]any{"history": show(hist)})
				}
				// let everything end
				stop.Store(true)
				for i := 0; i < 20; i++ {
					s.Wakeup()
					synctest.Wait()
				}
				for g := range active {
					if active[g] {
						c.Violate("a sleep does not end although it is woken", map[string]any{"history": show(hist)})
					}
				}
			})
			sort.Slice(hist, func(i, j int) bool { return hist[i].t0 < hist[j].t0 })
			var ops []porcupine.Operation
			edge := 0
			for _, e := range hist {
				add := func(op string, id int, out bool, cl int) {
					ops = append(ops, porcupine.Operation{ClientId: cl, Input: in{op, id}, Output: out, Call: e.t0, Return: e.t1})
				}
				switch e.op {
				case "sleep":
					add("begin", e.id, e.ok, e.client)
					if e.ok {
						add("end", e.id, true, 50+e.client)
					}
				case "begun":
					add("begin", e.id, true, e.client)
				case "wakeup":
					add("wakeup", 0, e.ok, e.client)
				case "rest":
					add("rest", e.id, true, e.client)
				}
				for _, f := range hist {
					if e.op == "wakeup" && f.op == "sleep" && e.t0 < f.t1 && f.t0 < e.t1 {
						edge++
					}
				}
			}
			c.Eval(1)
			c.Count("sleeps_and_wakeups_overlapping", edge)
			c.Count("sleeps_still_going_on_at_rest", stuck)
			if edge > 0 {
				c.Distinct(vk.HashS(fmt.Sprint(hist)))
			}
			if edge > 1 && round < 40 {
				c.Sample(show(hist))
			}
			if porcupine.CheckOperationsTimeout(model, ops, 60*time.Second) == porcupine.Illegal {
				c.Violate("no order of the calls explains the results: a wakeup was lost, invented, or misreported", map[string]any{"history": show(hist)})
			}
		}
	})
}

func show(h []ev) []string {
	var out []string
	for _, e := range h {
		switch e.op {
		case "begun":
			out = append(out, fmt.Sprintf("[%d..] sleep %d goes on", e.t0, e.id))
		case "rest":
			out = append(out, fmt.Sprintf("[%d] everything at rest, sleep in progress: %d", e.t0, e.id))
		default:
			out = append(out, fmt.Sprintf("[%d..%d] %s %d -> %v", e.t0, e.t1, e.op, e.id, e.ok))
		}
	}
	return out
}

// race: the calls run unobserved, in real time, under the race detector.
func race(c *vk.C) {
	r := c.Rand("race")
	for round := 0; round < c.N(150, 4000); round++ {
		vk.Perturb(r.Uint64(), r.IntN(3))
		runtime.GOMAXPROCS([]int{2, 4, 8}[r.IntN(3)])
		s := sleepx.New()
		var wg, ww sync.WaitGroup
		var stop atomic.Bool
		for g := 0; g < 3; g++ {
			seed := r.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 1))
				for i := 0; i < 20; i++ {
					switch r.IntN(4) {
					case 0:
						s.SleepFor(0)
					case 1:
						s.SleepUntil(time.Now().Add(time.Duration(r.IntN(50)) * time.Microsecond))
					case 2:
						s.SleepForever()
					case 3:
						s.SleepFor(1000000)
					}
					vk.Tick()
				}
			}()
		}
		for g := 0; g < 3; g++ {
			ww.Add(1)
			go func() {
				defer ww.Done()
				for i := 0; i < 60; i++ {
					s.Wakeup()
					runtime.Gosched()
				}
				// one waker stays until everybody is done
				for g == 0 && !stop.Load() {
					s.Wakeup()
					runtime.Gosched()
				}
			}()
		}
		wg.Wait()
		stop.Store(true)
		ww.Wait()
		c.Eval(60 + 180)
		c.Distinct(uint64(round))
	}
}
