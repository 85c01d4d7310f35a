package pool

import (
	"fmt"
	"math/rand/v2"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"

	"verifharness/seq"
	"verifharness/vk"
)

// Kinds runs tasks of many types, nils and zero values among them, and
// compares what the handlers got with what was accepted.
func Kinds(c *vk.C, t *testing.T) {
	r := c.Rand("kinds")
	for i := 0; i < c.N(40, 800); i++ {
		kind(c, t, r, "any", seq.MkAny)
		kind(c, t, r, "big", seq.MkBig)
		kind(c, t, r, "huge", seq.MkHuge)
		kind(c, t, r, "odd", seq.MkOdd)
		kind(c, t, r, "mixed", seq.MkMixed)
		kind(c, t, r, "pointers and nils", seq.MkPtr)
		kind(c, t, r, "errors and nils", seq.MkErr)
		kind(c, t, r, "empty struct", seq.MkUnit)
		kind(c, t, r, "bytes", seq.MkSmall)
		kind(c, t, r, "equal strings", seq.MkString)
		kind(c, t, r, "slices", seq.MkSlice)
		kind(c, t, r, "maps", seq.MkMap)
		kind(c, t, r, "functions", seq.MkFunc)
		kind(c, t, r, "floats", seq.MkFloat)
		kind(c, t, r, "uncomparable struct", seq.MkLoose)
		kind(c, t, r, "uncomparable any", seq.MkLooseAny)
	}
}

func kind[T any](c *vk.C, t *testing.T, r *rand.Rand, name string, mk func(int) T) {
	vk.Perturb(r.Uint64(), r.IntN(4))
	max := int64(1 + r.IntN(6))
	n := 5 + r.IntN(60)
	it := time.Duration(1+r.IntN(4)) * time.Millisecond
	gc := time.Duration(1+r.IntN(4)) * time.Millisecond
	took := time.Duration(r.IntN(3)) * time.Millisecond
	pre := r.IntN(3)
	same := seq.Same[T]()
	var want, got []T
	accepted := 0
	show := func() any {
		return map[string]any{"kind of task": name, "max": max, "timeout": it.String(), "gc": gc.String(), "preheat": pre, "accepted": fmt.Sprint(want), "run": fmt.Sprint(got)}
	}
	c.Bubble(t, show, func() {
		var mu sync.Mutex
		p, err := gopoolx.NewTimedPool(max, func(v T) {
			mu.Lock()
			got = append(got, v)
			mu.Unlock()
			time.Sleep(took)
		}, it, gc, pre)
		if err != nil {
			c.Violate("valid construction arguments refused", err.Error())
		}
		for i := 0; i < n; i++ {
			if p.Run(mk(i)) {
				want = append(want, mk(i))
				accepted++
			} else {
				time.Sleep(time.Millisecond)
			}
			if i%7 == 0 {
				time.Sleep(it + 2*gc) // all workers go
			}
		}
		synctest.Wait()
		p.Stop()
		time.Sleep(time.Second)
	})
	times := func(in []T, v T) (n int) {
		for _, w := range in {
			if same(v, w) {
				n++
			}
		}
		return n
	}
	for _, m := range [][]T{want, got} {
		for _, v := range m {
			if n, k := times(want, v), times(got, v); n != k {
				c.Violate(fmt.Sprintf("task %v (kind %s) was accepted %d times and ran %d times", v, name, n, k), show())
			}
		}
	}
	c.Eval(1)
	c.Count("tasks_of_other_kinds", accepted)
}
