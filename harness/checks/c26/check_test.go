// C26: clock helpers and stopwatch, under virtual time and under a wall clock
// that is set forward and back while the monotonic clock runs on.
package c26

import (
	"fmt"
	"math"
	"runtime"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"

	"verifharness/vk"
)

var zones = []*time.Location{time.UTC, time.FixedZone("a", 9*3600), time.FixedZone("b", -12*3600), time.FixedZone("c", 5*3600+45*60), time.FixedZone("d", -1)}

func isUTC(t time.Time) bool {
	n, off := t.Zone()
	return off == 0 && n == "UTC" && t.Location() == time.UTC
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one stopwatch or clock reading with a known true instant and duration; distinct by the steps of the scenario.", func(c *vk.C) {
		orig := time.Local
		defer func() { time.Local = orig }()
		if c.Phase == "wall-clock" {
			wall(c)
			return
		}
		custom(c)
		r := c.Rand("virtual")
		for round := 0; round < c.N(3000, 100000); round++ {
			time.Local = zones[round%len(zones)]
			synctest.Test(t, func(t *testing.T) {
				d := diffx.New()
				var s, e time.Time
				started, ended := false, false
				log := ""
				fail := func(what string, got any) {
					c.Violate("stopwatch under virtual time: "+what, map[string]any{"steps": log, "got": fmt.Sprint(got), "start": fmt.Sprint(s), "end": fmt.Sprint(e), "zone": time.Local.String()})
				}
				steps := 2 + r.IntN(12)
				for i := 0; i < steps; i++ {
					var w time.Duration
					switch r.IntN(4) {
					case 0:
						w = time.Duration(r.IntN(100))
					case 1:
						w = time.Duration(r.Int64N(int64(time.Minute)))
					case 2:
						w = time.Duration(r.Int64N(int64(3000 * time.Hour)))
					}
					time.Sleep(w)
					log += fmt.Sprint(" wait ", w)
					switch k := r.IntN(6); k {
					case 0, 1, 2:
						d.Start()
						s, started = time.Now(), true
						log += " Start"
					case 3, 4:
						d.End()
						e, ended = time.Now(), true
						log += " End"
					case 5:
						n := timex.Now()
						log += " Now"
						if !n.Equal(time.Now()) || !isUTC(n) {
							fail("Now is not the current instant in UTC", n)
						}
					}
					if started && (!d.GetStart().Equal(s) || !isUTC(d.GetStart())) {
						fail("GetStart", d.GetStart())
					}
					if ended && (!d.GetEnd().Equal(e) || !isUTC(d.GetEnd())) {
						fail("GetEnd", d.GetEnd())
					}
					if started && ended && d.GetDiff() != e.Sub(s) {
						fail("GetDiff", d.GetDiff())
					}
				}
				if started && ended {
					c.Distinct(vk.HashS(log))
					if s.After(e) {
						c.Count("negative_spans", 1)
					}
				}
				if round < 2 {
					c.Sample(log)
				}
			})
			c.Eval(1)
		}
	})
}

func custom(c *vk.C) {
	r := c.Rand("custom")
	one := func(sec, nsec int64) {
		got, want := timex.Custom(sec, nsec), time.Unix(sec, nsec)
		c.Eval(1)
		c.Distinct(vk.HashS(fmt.Sprint("custom", sec, nsec)))
		if !got.Equal(want) || !isUTC(got) || got.Nanosecond() != want.Nanosecond() || got.Unix() != want.Unix() {
			c.Violate("Custom is not the given instant in UTC", map[string]any{"sec": sec, "nsec": nsec, "got": fmt.Sprint(got), "want": fmt.Sprint(want.UTC())})
		}
	}
	for _, z := range zones {
		time.Local = z
		for _, s := range []int64{0, 1, -1, 1 << 31, -1 << 31, 1 << 32, 1700000000, 253402300799, -62135596800, -62135596801} {
			for _, n := range []int64{0, 1, -1, 999999999, 1000000000, -1000000000, 1500000001, math.MaxInt64, math.MinInt64, 5} {
				one(s, n)
			}
		}
	}
	for i := 0; i < c.N(20000, 500000); i++ {
		time.Local = zones[i%len(zones)]
		one(r.Int64N(1<<40)-1<<39, r.Int64()-r.Int64())
	}
}

// wall: the true elapsed time is known up to the readings of the monotonic
// clock taken just before and just after each call.
func wall(c *vk.C) {
	if !shiftable {
		c.Assume("wall clock not adjustable in this build")
	}
	r := c.Rand("wall")
	base := time.Now()
	mono := func() time.Duration { return time.Since(base) }
	spin := func(d time.Duration) {
		for t := mono(); mono()-t < d; {
			runtime.Gosched()
		}
	}
	shifts := []time.Duration{0, time.Nanosecond, time.Second, -time.Second, time.Hour, -time.Hour, 24 * time.Hour, -400 * 24 * time.Hour, 10000 * time.Hour, 300 * time.Millisecond, -300 * time.Millisecond}
	for round := 0; round < c.N(3000, 60000); round++ {
		time.Local = zones[round%len(zones)]
		a, b := shifts[r.IntN(len(shifts))], shifts[r.IntN(len(shifts))]
		endFirst := r.IntN(5) == 0
		d := diffx.New()
		w := time.Duration(r.IntN(200)) * time.Microsecond
		call := func(f func(), sh time.Duration, get func() time.Time) (before, after time.Duration) {
			shift(sh)
			w0 := time.Now()
			before = mono()
			f()
			after = mono()
			w1 := time.Now()
			got := get()
			if got.Round(0).Before(w0.Round(0)) || got.Round(0).After(w1.Round(0)) || !isUTC(got) {
				c.Violate("the stopwatch's instant is not that of the call", map[string]any{"got": fmt.Sprint(got), "between": fmt.Sprint(w0), "and": fmt.Sprint(w1)})
			}
			n := timex.Now()
			w2 := time.Now()
			if n.Round(0).Before(w1.Round(0)) || n.Round(0).After(w2.Round(0)) || !isUTC(n) {
				c.Violate("Now is not the current instant in UTC", map[string]any{"got": fmt.Sprint(n), "between": fmt.Sprint(w1), "and": fmt.Sprint(w2)})
			}
			return
		}
		var s0, s1, e0, e1 time.Duration
		if endFirst {
			e0, e1 = call(d.End, b, d.GetEnd)
			spin(w)
			s0, s1 = call(d.Start, a, d.GetStart)
		} else {
			s0, s1 = call(d.Start, a, d.GetStart)
			spin(w)
			e0, e1 = call(d.End, b, d.GetEnd)
		}
		got := d.GetDiff()
		shift(0)
		c.Eval(1)
		c.Distinct(vk.HashS(fmt.Sprint(a, b, endFirst, w)))
		c.Count("clock_adjusted_between", b2i(a != b))
		if got < e0-s1 || got > e1-s0 {
			c.Violate("the difference is not the time that passed", map[string]any{"got": got.String(), "at_least": (e0 - s1).String(), "at_most": (e1 - s0).String(), "wall_clock_shift_at_start": a.String(), "at_end": b.String()})
		}
	}
	c.Sample("clock set back one hour between Start and End, 120 µs apart: the difference lies between the monotonic readings around the calls")
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}
