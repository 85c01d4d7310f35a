package vk

import (
	"fmt"
	"runtime"
	"sort"
	"time"
)

// Cost is what one operation took on average, seen by three meters:
// statements of the package under test, bytes allocated, and time.
type Cost struct {
	Steps float64       `json:"steps"`
	Max   int64         `json:"max_steps"`
	Bytes float64       `json:"bytes"`
	Time  time.Duration `json:"ns"`
}

// Measure runs op n times in batches and reports the average cost; the time
// is that of the fastest batch.
func Measure(n int, op func(i int)) Cost {
	var c Cost
	var total int64
	var a, b runtime.MemStats
	batch := n/8 + 1
	runtime.ReadMemStats(&a)
	for i := 0; i < n; {
		t0 := time.Now()
		k := 0
		for ; k < batch && i < n; k++ {
			Op()
			op(i)
			s := Steps()
			total += s
			c.Max = max(c.Max, s)
			i++
		}
		if d := time.Since(t0) / time.Duration(k); k > batch/2 && (c.Time == 0 || d < c.Time) {
			c.Time = d
		}
	}
	runtime.ReadMemStats(&b)
	c.Steps = float64(total) / float64(n)
	c.Bytes = float64(b.TotalAlloc-a.TotalAlloc) / float64(n)
	return c
}

// Growth is the cost of one operation at growing sizes.
type Growth struct {
	Name  string
	Sizes []int
	Costs [][]Cost // per size, repeated measurements
}

// Median returns, per size, the median number of steps and the smallest
// bytes and time over the repetitions.
func (g *Growth) Median() []Cost {
	out := make([]Cost, len(g.Costs))
	for i, cs := range g.Costs {
		st := make([]float64, len(cs))
		out[i] = cs[0]
		for j, c := range cs {
			st[j] = c.Steps
			out[i].Bytes = min(out[i].Bytes, c.Bytes)
			out[i].Time = min(out[i].Time, c.Time)
			out[i].Max = min(out[i].Max, c.Max)
		}
		sort.Float64s(st)
		out[i].Steps = st[len(st)/2]
	}
	return out
}

// Judge compares the largest size with the smallest: steps may grow by the
// factor f (plus a constant), bytes by f, and time by the factor 60 (the time
// meter only serves to see work done inside the runtime, such as copying).
func (g *Growth) Judge(f float64) error {
	m := g.Median()
	a, b := m[0], m[len(m)-1]
	na, nb := g.Sizes[0], g.Sizes[len(m)-1]
	if b.Steps > f*a.Steps+20 {
		return fmt.Errorf("%s: %.1f statements per call with %d elements, %.1f with %d", g.Name, a.Steps, na, b.Steps, nb)
	}
	if b.Bytes > f*a.Bytes+256 {
		return fmt.Errorf("%s: %.1f bytes allocated per call with %d elements, %.1f with %d", g.Name, a.Bytes, na, b.Bytes, nb)
	}
	if b.Time > 60*a.Time && b.Time > 20*time.Microsecond {
		return fmt.Errorf("%s: %v per call with %d elements, %v with %d", g.Name, a.Time, na, b.Time, nb)
	}
	return nil
}
