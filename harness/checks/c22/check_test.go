// C22: truncation against integer calendar arithmetic.
package c22

import (
	"fmt"
	"testing"
	"time"
	_ "time/tzdata"

	"github.com/unsafe-risk/utilx/timex/truncatex"

	"verifharness/vk"
)

func floordiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func leap(y int64) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

// daysTo is the number of days from 1970-01-01 to January 1 of year y
// (proleptic Gregorian calendar).
func daysTo(y int64) int64 {
	p := y - 1
	return 365*p + floordiv(p, 4) - floordiv(p, 100) + floordiv(p, 400) - 719162
}

var mdays = []int64{31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}

func yearOf(day int64) int64 {
	y := 1970 + floordiv(day*400, 146097)
	for daysTo(y) > day {
		y--
	}
	for daysTo(y+1) <= day {
		y++
	}
	return y
}

const day = 86400

func yearStart(s int64) int64 { return daysTo(yearOf(floordiv(s, day))) * day }

func monthStart(s int64) (start, length int64) {
	d := floordiv(s, day)
	y := yearOf(d)
	x := daysTo(y)
	for m := 0; ; m++ {
		n := mdays[m]
		if m == 1 && leap(y) {
			n++
		}
		if d < x+n {
			return x * day, n * day
		}
		x += n
	}
}

// from year 1, January 1 (a Monday)
const epoch1 = -719162 * day

func unit(s, n int64) int64 { return floordiv(s-epoch1, n)*n + epoch1 }

var zones []*time.Location

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one instant truncated to one unit with one local time zone; distinct by instant and unit (zones on top).", func(c *vk.C) {
		vk.SetBound(1000000)
		zones = []*time.Location{time.UTC, time.FixedZone("a", 9*3600), time.FixedZone("b", -12*3600), time.FixedZone("c", 14*3600), time.FixedZone("d", 5*3600+45*60), time.FixedZone("e", -(3*3600 + 1799)), time.FixedZone("f", 1)}
		for _, n := range []string{"America/New_York", "Asia/Seoul", "Europe/London", "Pacific/Apia", "Australia/Lord_Howe", "America/Sao_Paulo"} {
			if l, err := time.LoadLocation(n); err == nil {
				zones = append(zones, l)
				c.Count("zones_with_dst_history", 1)
			}
		}
		orig := time.Local
		defer func() { time.Local = orig }()
		zi := 0
		check := func(s int64) {
			zi++
			time.Local = zones[zi%len(zones)]
			m, ml := monthStart(s)
			y := yearStart(s)
			type row struct {
				name      string
				f         func(int64) int64
				want, len int64
			}
			for _, r := range []row{
				{"TruncateSec", truncatex.TruncateSec, s, 1},
				{"TruncateMin", truncatex.TruncateMin, unit(s, 60), 60},
				{"TruncateHour", truncatex.TruncateHour, unit(s, 3600), 3600},
				{"TruncateDay", truncatex.TruncateDay, floordiv(s, day) * day, day},
				{"TruncateWeek", truncatex.TruncateWeek, unit(s, 7*day), 7 * day},
				{"TruncateMonth", truncatex.TruncateMonth, m, ml},
				{"TruncateYear", truncatex.TruncateYear, y, 366 * day},
			} {
				vk.Op()
				got := r.f(s)
				if got != r.want || got > s || s-got >= r.len {
					c.Violate("truncation differs from calendar arithmetic", map[string]any{"function": r.name, "input": s, "instant": time.Unix(s, 0).UTC().String(), "zone": time.Local.String(), "got": got, "want": r.want, "got_instant": time.Unix(got, 0).UTC().String()})
				}
				vk.Op()
				if again := r.f(got); again != got {
					c.Violate("truncating twice differs from truncating once", map[string]any{"function": r.name, "input": s, "once": got, "twice": again})
				}
			}
			c.Eval(7)
			c.Distinct(uint64(s))
		}
		checkN := func(s, n int64) {
			zi++
			time.Local = zones[zi%len(zones)]
			vk.Op()
			want := unit(s, n)
			got := truncatex.Truncate(s, n)
			if got != want {
				c.Violate("Truncate differs from unit arithmetic", map[string]any{"input": s, "unit": n, "zone": time.Local.String(), "got": got, "want": want})
			}
			vk.Op()
			if again := truncatex.Truncate(got, n); again != got {
				c.Violate("truncating twice differs from truncating once", map[string]any{"input": s, "unit": n, "once": got, "twice": again})
			}
			c.Eval(1)
			c.Distinct(uint64(s)*31 ^ uint64(n))
		}
		// around every year, month and week boundary of interesting years, in every zone's offset reach
		offs := []int64{-14 * 3600, -day, -7 * day, -3601, -3600, -61, -60, -59, -2, -1, 0, 1, 2, 59, 60, 61, 3599, 3600, 3601, 9 * 3600, 9*3600 - 1, day - 1, day, 12 * 3600, 14 * 3600, 7*day - 1, 7 * day}
		var years []int64
		for y := int64(1885); y <= 2110; y++ {
			years = append(years, y)
		}
		years = append(years, -401, -400, -399, -100, -4, -1, 0, 1, 2, 3, 4, 5, 99, 100, 101, 399, 400, 401, 1000, 1582, 1583, 1600, 1700, 1752, 1800, 2200, 2300, 2400, 2500, 2999, 3000, 4000, 9999, 10000, 12345)
		for _, y := range years {
			x := daysTo(y) * day
			for m := 0; m < 12; m++ {
				for _, o := range offs {
					check(x + o)
				}
				n := mdays[m]
				if m == 1 && leap(y) {
					n++
				}
				x += n * day
			}
		}
		c.Count("years_swept", len(years))
		r := c.Rand("instants")
		for i := 0; i < c.N(200000, 8000000); i++ {
			var s int64
			switch r.IntN(3) {
			case 0:
				s = r.Int64N(8e9) - 4e9
			case 1:
				s = r.Int64N(4e11) - 2e11 // years -4400 to 8300
			case 2:
				s = floordiv(r.Int64N(8e9)-4e9, day)*day + r.Int64N(3) - 1
			}
			check(s)
			n := 1 + r.Int64N(1+[]int64{100, 100000, 40000000, 8999999999}[r.IntN(4)])
			if n > 9e9 {
				n = 9e9
			}
			checkN(s, n)
		}
		for _, n := range []int64{1, 2, 59, 60, 61, 3600, day, 7 * day, 30 * day, 365 * day, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<32 + 1, 9e9} {
			for _, s := range []int64{0, 1, -1, 60, -60, 1<<31 - 1, 1 << 31, -1 << 31, 1 << 32, 1<<33 + 7, epoch1, epoch1 - 1, epoch1 + 1, -1 << 36} {
				for range zones {
					checkN(s, n)
				}
			}
		}
		// non-decreasing: neighbours
		prev := map[string]int64{}
		for s := int64(-200000); s < 200000; s += 7 {
			for name, f := range map[string]func(int64) int64{"min": truncatex.TruncateMin, "hour": truncatex.TruncateHour, "day": truncatex.TruncateDay, "week": truncatex.TruncateWeek, "month": truncatex.TruncateMonth, "year": truncatex.TruncateYear} {
				vk.Op()
				v := f(s)
				if p, ok := prev[name]; ok && v < p {
					c.Violate("truncation decreases", map[string]any{"unit": name, "input": s, "value": v, "previous": p})
				}
				prev[name] = v
			}
		}
		c.Sample(fmt.Sprint("2000-02-29T23:59:59Z to month: ", truncatex.TruncateMonth(951868799), " with local zone ", zones[1]))
	})
}
