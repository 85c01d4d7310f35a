// C27: every accepted task runs exactly once.
package c27

import (
	"testing"

	"verifharness/pool"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one scenario of clients, handlers, collections and stops on one pool; non-trivial when tasks were accepted; distinct by configuration and the outcome and time of every submission.", func(c *vk.C) {
		if c.Phase == "race" {
			pool.Race(c, true)
			pool.Race(c, false)
			return
		}
		pool.Crowds(c, t, 30, 400, func(x *pool.Crowd) []string { return x.Wrong })
		pool.Kinds(c, t)
		r := c.Rand("scenarios")
		for round := 0; round < c.N(5000, 150000); round++ {
			pool.Procs(r, round)
			res := pool.Run(c, t, pool.Random(r), r)
			c.Eval(1)
			n := 0
			for _, x := range res.Tasks {
				if x.Called {
					c.Count("submissions", 1)
				}
				if x.Accepted {
					n++
				}
			}
			c.Count("tasks_accepted", n)
			if n > 0 {
				c.Distinct(res.Hash())
			}
			if n > 3 && round < 30 {
				c.Sample(res.Show())
			}
			if l := res.Lost(); len(l) > 0 {
				c.Violate("a task did not run exactly once when accepted, or ran although refused, or arrived changed", map[string]any{"tasks": l, "scenario": res.Show()})
			}
		}
	})
}
