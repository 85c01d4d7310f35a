// C32: exactly-once, whole, ordered delivery by the decoupler.
package c32

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/unsafe-risk/utilx/iox/decouplex"

	"verifharness/dec"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one run of writers and a reader under one schedule; non-trivial when messages were delivered; distinct by scheduling decisions.", func(c *vk.C) {
		if c.Phase == "race" {
			dec.Race(c)
			return
		}
		r := c.Rand("long")
		for _, size := range []int{1, 3, 5, 1000, 65537, 70000} {
			long(c, r, size)
		}
		r = c.Rand("schedules")
		for round := 0; round < c.N(30000, 1000000); round++ {
			res := dec.Scenario(r)
			c.Eval(1)
			c.Count("messages_written", len(res.Writes))
			c.Count("scheduling_points", res.Steps)
			n := len(res.Delivered())
			c.Count("messages_delivered", n)
			if n > 0 {
				c.Distinct(res.Trace)
			}
			if n > 3 && round < 20 {
				c.Sample(res.Show())
			}
			for _, p := range res.Panics {
				c.Violate("panic: "+p.Error(), map[string]any{"history": res.Show(), "stack": p.Stack})
			}
			if res.Over {
				c.Violate("calls keep running without returning: messages cannot be delivered", map[string]any{"history": res.Show(), "statements": res.Steps})
			}
			if s := res.JudgeDelivery(); s != "" {
				c.Violate(s, map[string]any{"history": res.Show()})
			}
		}
	})
}

// long passes more messages through one decoupler than 16 and 17 bits count.
func long(c *vk.C, r *rand.Rand, size int) {
	vk.SetBound(100000)
	defer vk.Unbound()
	defer vk.SetBound(1 << 62)
	msg := func(i int) []byte {
		b := make([]byte, 8+i%13)
		binary.LittleEndian.PutUint64(b, uint64(i))
		for j := 8; j < len(b); j++ {
			b[j] = byte(i * j)
		}
		return b
	}
	dropped := false
	d := decouplex.NewDecoupler(uint64(size), func([]byte) (int, error) { dropped = true; return 0, nil })
	var pending []int
	delivered := 0
	next := func() {
		var want []byte
		if len(pending) > 0 {
			want = msg(pending[0])
		}
		vk.Op()
		if err := vk.TryFast(func() {
			d.Next(func(b []byte) {
				if !bytes.Equal(b, want) {
					c.Violate("a message was delivered that is not the next one written", map[string]any{"size": size, "delivered before": delivered, "got": fmt.Sprint(b), "want": fmt.Sprint(want)})
				}
				pending = pending[1:]
				want = nil
				delivered++
			})
		}); err != nil {
			c.Violate("Next: "+err.Error(), map[string]any{"size": size, "delivered before": delivered, "pending": len(pending)})
		}
		if want != nil {
			c.Violate("an accepted message was not delivered", map[string]any{"size": size, "delivered before": delivered, "message": pending[0], "pending": len(pending)})
		}
	}
	level := 0
	total := c.N(210000, 3000000)
	for i := 0; i < total; i++ {
		b := msg(i)
		dropped = false
		vk.Op()
		if err := vk.TryFast(func() { d.Write(b) }); err != nil {
			c.Violate("Write: "+err.Error(), map[string]any{"size": size, "delivered before": delivered, "pending": len(pending)})
		}
		if !dropped {
			pending = append(pending, i)
		}
		if i%5000 == 0 || size < 100 {
			level = r.IntN(size + 1)
		}
		for len(pending) > level {
			next()
		}
	}
	for len(pending) > 0 {
		next()
	}
	c.Eval(1)
	c.Distinct(uint64(size))
	c.Count("messages_delivered", delivered)
	c.Max("most_messages_through_one_decoupler", delivered)
}
