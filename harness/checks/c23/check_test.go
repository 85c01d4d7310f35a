// C23: sleeps under virtual time. Every call of a scenario happens at an
// instant of its own, so the ideal sleeper predicts every result and every
// return instant exactly.
package c23

import (
	"fmt"
	"sort"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/timex/sleepx"

	"verifharness/vk"
)

type call struct {
	at   time.Duration
	op   string // SleepFor, SleepUntil, SleepForever, Wakeup
	arg  time.Duration
	zone int
	far  time.Time // SleepUntil this instead, centuries away

	wantOK  bool
	wantEnd time.Duration // -1: never by itself
	gotOK   bool
	gotEnd  time.Duration
	done    bool
}

var zones = []*time.Location{time.UTC, time.FixedZone("a", 9*3600), time.FixedZone("b", -7*3600)}

const never = time.Duration(-1)

// predict runs the ideal sleeper.
func predict(cs []*call) {
	var cur *call
	settle := func(t time.Duration) {
		if cur != nil && cur.wantEnd != never && cur.wantEnd <= t {
			cur = nil
		}
	}
	for _, c := range cs {
		settle(c.at)
		switch c.op {
		case "Wakeup":
			c.wantOK, c.wantEnd = cur != nil, c.at
			if cur != nil {
				cur.wantEnd = c.at
				cur = nil
			}
			continue
		}
		if cur != nil {
			c.wantOK, c.wantEnd = false, c.at
			continue
		}
		cur = c
		c.wantOK = true
		switch c.op {
		case "SleepFor":
			c.wantEnd = c.at + max(0, c.arg)*time.Duration(time.Second)
			if c.arg > 100*365*86400 {
				c.wantEnd = never
			}
		case "SleepUntil":
			c.wantEnd = max(c.at, c.arg)
			if c.far.Year() > 2050 {
				c.wantEnd = never
			} else if !c.far.IsZero() {
				c.wantEnd = c.at
			}
		case "SleepForever":
			c.wantEnd = never
		}
	}
}

func describe(cs []*call, all bool) []string {
	var out []string
	for _, c := range cs {
		s := fmt.Sprintf("at %v: %s", c.at, c.op)
		switch c.op {
		case "SleepFor":
			s += fmt.Sprintf("(%d)", int64(c.arg))
		case "SleepUntil":
			s += fmt.Sprintf("(%v)", c.arg)
			if !c.far.IsZero() {
				s += " in fact until " + c.far.String()
			}
		}
		if all {
			s += fmt.Sprintf(" ideal %v at %v; got %v at %v (returned: %v)", c.wantOK, c.wantEnd, c.gotOK, c.gotEnd, c.done)
		}
		out = append(out, s)
	}
	return out
}

func scenario(c *vk.C, t *testing.T, cs []*call) {
	sort.SliceStable(cs, func(i, j int) bool { return cs[i].at < cs[j].at })
	// instants of their own: no call at the end of a sleep or of another call
	for {
		predict(cs)
		busy := map[time.Duration]bool{}
		moved := false
		for _, x := range cs {
			if x.op != "Wakeup" && x.wantOK && x.wantEnd != never && x.wantEnd != x.at {
				busy[x.wantEnd] = true
			}
		}
		woken := map[time.Duration]bool{}
		for _, x := range cs {
			for busy[x.at] && !(x.op == "Wakeup" && x.wantOK) || woken[x.at] {
				x.at += 1
				moved = true
			}
			woken[x.at] = true
		}
		sort.SliceStable(cs, func(i, j int) bool { return cs[i].at < cs[j].at })
		if !moved {
			break
		}
	}
	predict(cs)
	bad := ""
	synctest.Test(t, func(t *testing.T) {
		s := sleepx.New()
		t0 := time.Now()
		for _, x := range cs {
			go func() {
				time.Sleep(x.at)
				switch x.op {
				case "SleepFor":
					x.gotOK = s.SleepFor(x.arg)
				case "SleepUntil":
					until := t0.Add(x.arg)
					if !x.far.IsZero() {
						until = x.far
					}
					x.gotOK = s.SleepUntil(until.In(zones[x.zone]))
				case "SleepForever":
					x.gotOK = s.SleepForever()
				case "Wakeup":
					x.gotOK = s.Wakeup()
				}
				x.gotEnd, x.done = time.Since(t0), true
			}()
		}
		var horizon time.Duration
		for _, x := range cs {
			horizon = max(horizon, x.at, x.wantEnd)
		}
		time.Sleep(horizon + time.Hour)
		synctest.Wait()
		pending := false
		for _, x := range cs {
			if x.wantEnd == never {
				if x.done {
					bad = "a sleep returned that should go on: " + describe([]*call{x}, true)[0]
				} else {
					pending = true
				}
				continue
			}
			if !x.done {
				bad = "a call has not returned an hour after it should: " + describe([]*call{x}, true)[0]
			} else if x.gotOK != x.wantOK || x.gotEnd != x.wantEnd {
				bad = "a call differs from the ideal sleeper: " + describe([]*call{x}, true)[0]
			}
			if bad != "" {
				break
			}
		}
		if bad != "" {
			c.Violate(bad, map[string]any{"scenario": describe(cs, true)})
		}
		if pending {
			if !s.Wakeup() {
				c.Violate("Wakeup reports no sleep although one is in progress", map[string]any{"scenario": describe(cs, true)})
			}
		}
		synctest.Wait()
		for _, x := range cs {
			if !x.done {
				c.Violate("a sleep did not end when it was woken", map[string]any{"scenario": describe(cs, true)})
			}
		}
	})
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one scenario of up to fourteen sleep and wakeup calls on one sleeper under virtual time, each predicted exactly; distinct by its calls, non-trivial when some call finds the sleeper asleep.", func(c *vk.C) {
		vk.Perturb(c.Seed, 1)
		r := c.Rand("sleep")
		args := []time.Duration{0, 1, 1, 2, 3, 10, 3600, -1, -100, 86400 * 365}
		// centuries, which no sleep of this check outlives
		centuries := []time.Duration{time.Second * 4, 200 * 366 * 86400, time.Minute, time.Hour, 24 * time.Hour, 1<<63 - 1, 1 << 62, 1<<54 + 3}
		years := []int{2, 1600, 1677, 1678, 1969, 2200, 2261, 2263, 2292, 2293, 2400, 3000, 9999, 200000}
		for round := 0; round < c.N(6000, 200000); round++ {
			n := 1 + r.IntN(14)
			var cs []*call
			span := int64(time.Duration(1+r.IntN(30)) * time.Second)
			for i := 0; i < n; i++ {
				x := &call{at: time.Duration(r.Int64N(span)), zone: r.IntN(len(zones))}
				if r.IntN(3) == 0 {
					x.at = x.at.Truncate(time.Second)
				}
				switch r.IntN(10) {
				case 0, 1, 2, 3:
					x.op, x.arg = "SleepFor", args[r.IntN(len(args))]
					if r.IntN(15) == 0 {
						x.arg = centuries[r.IntN(len(centuries))]
						if r.IntN(3) == 0 {
							x.arg = -x.arg
						}
					}
				case 4, 5:
					x.op, x.arg = "SleepUntil", x.at+time.Duration(r.Int64N(int64(8*time.Second)))-time.Duration(r.Int64N(int64(4*time.Second)))
					if r.IntN(8) == 0 {
						x.arg = -time.Duration(r.Int64N(int64(1e17)))
					}
					if r.IntN(12) == 0 {
						x.far = time.Date(years[r.IntN(len(years))], 1+time.Month(r.IntN(12)), 1+r.IntN(28), r.IntN(24), 0, 0, 0, time.UTC)
					}
				case 6:
					x.op = "SleepForever"
				default:
					x.op = "Wakeup"
				}
				cs = append(cs, x)
			}
			c.Context("%v", describe(cs, false))
			scenario(c, t, cs)
			c.Eval(n)
			refused, woken := 0, 0
			for _, x := range cs {
				if x.op == "Wakeup" && x.wantOK {
					woken++
				}
				if x.op != "Wakeup" && !x.wantOK {
					refused++
				}
			}
			c.Count("refused_sleeps", refused)
			c.Count("effective_wakeups", woken)
			if refused+woken > 0 {
				c.Distinct(vk.HashS(fmt.Sprint(describe(cs, false))))
			}
			if round < 2 {
				c.Sample(describe(cs, true))
			}
		}
		for _, op := range []string{"SleepFor", "SleepUntil", "SleepForever"} {
			often(c, t, op, c.N(70000, 300000))
			crowd(c, t, op, []int{300, c.N(33000, 70000)})
		}
		// one sleeper used again and again
		for _, op := range []string{"SleepFor", "SleepUntil", "SleepForever"} {
			var cs []*call
			for i := 0; i < 300; i++ {
				at := time.Duration(i) * 10 * time.Second
				cs = append(cs, &call{at: at, op: op, arg: map[string]time.Duration{"SleepFor": 4, "SleepUntil": at + 3*time.Second}[op]})
				if op == "SleepForever" || i%3 == 0 {
					cs = append(cs, &call{at: at + 2*time.Second, op: "Wakeup"})
				}
				cs = append(cs, &call{at: at + time.Second, op: "SleepFor", arg: 1})
				if i%5 == 0 {
					cs = append(cs, &call{at: at + 6*time.Second, op: "Wakeup"})
				}
			}
			scenario(c, t, cs)
			c.Eval(len(cs))
		}
	})
}

// often: more sleeps and wakeups on one sleeper than 16 bits count.
func often(c *vk.C, t *testing.T, op string, n int) {
	r := c.Rand("often" + op)
	synctest.Test(t, func(t *testing.T) {
		s := sleepx.New()
		begin := time.Now()
		bad := func(i int, what string) {
			c.Violate("one sleeper used very often: "+what, map[string]any{"operation": op, "sleep": i, "virtual time": time.Since(begin).String()})
		}
		var now string
		go func() { // a waker and a second sleeper, at odd half seconds
			time.Sleep(500 * time.Millisecond)
			for i := 0; i < n; i++ {
				switch now {
				case "wake":
					if s.SleepFor(3) {
						bad(i, "a sleep succeeded while another one was going on")
					}
					if !s.Wakeup() {
						bad(i, "Wakeup reported no sleep while one was going on")
					}
				case "let":
					if s.SleepForever() {
						bad(i, "a sleep succeeded while another one was going on")
					}
				case "none":
					if s.Wakeup() {
						bad(i, "Wakeup reported a sleep while none was going on")
					}
				}
				time.Sleep(2 * time.Second)
			}
		}()
		for i := 0; i < n; i++ {
			t0 := time.Now()
			k := r.IntN(4)
			if op == "SleepForever" && k == 1 {
				k = 0
			}
			if k == 3 {
				now = "none"
				time.Sleep(2 * time.Second)
				continue
			}
			now = []string{"wake", "let", "wake"}[k]
			want := 500 * time.Millisecond
			if k == 1 {
				want = time.Second
			}
			var ok bool
			switch op {
			case "SleepFor":
				ok = s.SleepFor(1)
			case "SleepUntil":
				ok = s.SleepUntil(t0.Add(time.Second))
			case "SleepForever":
				ok = s.SleepForever()
			}
			if d := time.Since(t0); !ok || d != want {
				bad(i, fmt.Sprintf("returned %v after %v, the ideal sleeper true after %v", ok, d, want))
			}
			time.Sleep(2*time.Second - time.Since(t0))
		}
		time.Sleep(10 * time.Second) // for the waker to end
	})
	c.Eval(1)
	c.Count("sleeps_and_wakeups_on_one_sleeper", n)
	c.Distinct(vk.HashS("often" + op))
}

// crowd: very many callers find the sleeper asleep, again and again.
func crowd(c *vk.C, t *testing.T, op string, sizes []int) {
	for _, n := range sizes {
		synctest.Test(t, func(t *testing.T) {
			s := sleepx.New()
			for rep := 0; rep < 3; rep++ {
				var won, lost atomic.Int64
				for g := 0; g < n; g++ {
					go func() {
						var ok bool
						switch op {
						case "SleepFor":
							ok = s.SleepFor(100)
						case "SleepUntil":
							ok = s.SleepUntil(time.Now().Add(100 * time.Second))
						case "SleepForever":
							ok = s.SleepForever()
						}
						if ok {
							won.Add(1)
						} else {
							lost.Add(1)
						}
					}()
				}
				time.Sleep(time.Second)
				synctest.Wait()
				a, b := lost.Load(), won.Load()
				w := s.Wakeup()
				synctest.Wait()
				if a != int64(n-1) || b != 0 || !w || won.Load() != 1 || lost.Load() != int64(n-1) || s.Wakeup() {
					c.Violate("of many simultaneous sleeps not exactly one went on and was woken", map[string]any{"operation": op, "callers": n, "round": rep, "refused": a, "ended early": b, "wakeup": w, "ended": won.Load()})
				}
			}
		})
		c.Eval(3 * n)
		c.Max("largest_crowd_of_sleepers", n)
		c.Distinct(vk.HashS(fmt.Sprint("crowd", op, n)))
	}
}
