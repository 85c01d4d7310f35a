// C33: the decoupler drops only when full, hands over what it drops and never
// wedges.
package c33

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/unsafe-risk/utilx/iox/decouplex"

	"verifharness/dec"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one sequential history or one run of writers and a reader under one schedule; non-trivial when a message was dropped; distinct by history or scheduling decisions.", func(c *vk.C) {
		if c.Phase == "schedules" {
			r := c.Rand("schedules")
			for round := 0; round < c.N(30000, 1000000); round++ {
				res := dec.Scenario(r)
				c.Eval(1)
				drops := 0
				for _, w := range res.Writes {
					drops += w.Dropped
				}
				c.Count("messages_written", len(res.Writes))
				c.Count("messages_dropped", drops)
				if drops > 0 {
					c.Distinct(res.Trace)
				}
				if drops > 1 && round < 20 {
					c.Sample(res.Show())
				}
				for _, p := range res.Panics {
					c.Violate("panic: "+p.Error(), map[string]any{"history": res.Show(), "stack": p.Stack})
				}
				if s := res.JudgeDrops(); s != "" {
					c.Violate(s, map[string]any{"history": res.Show()})
				}
			}
			return
		}
		vk.SetBound(100000)
		// All sequences of write, read, read without view, empty write.
		for size := 1; size <= 4; size++ {
			for n := 1; n <= c.N(8, 10); n++ {
				vk.Words(4, n, func(w []int) {
					sequence(c, size, w, true)
					if n <= 6 {
						sequence(c, size, w, false)
					}
				})
			}
		}
		r := c.Rand("scale")
		for _, size := range []int{1, 3, 5, 1000, 65537, 70000} { // counts beyond 16 and 17 bits
			w := make([]int, c.N(300000, 3000000))
			for j, up := 0, true; j < len(w); j++ {
				if j%(2*size+3000) == 0 {
					up = !up || r.IntN(3) == 0
				}
				if (r.IntN(8) == 0) == up {
					w[j] = 1
				}
			}
			sequence(c, size, w, true)
			c.Count("histories_of_300000_calls", 1)
		}
		r = c.Rand("long")
		for i := 0; i < c.N(3000, 100000); i++ {
			size := []int{1, 2, 3, 5, 7, 8, 16, 33, 100, 1000}[r.IntN(10)]
			w := make([]int, 50+r.IntN(400)+size)
			bias := r.IntN(4)
			for j := range w {
				if j%(2*size) == 0 {
					bias = r.IntN(4)
				}
				switch k := r.IntN(10); {
				case k < 2+bias*2:
					w[j] = 0
				case k == 9:
					w[j] = 2 + r.IntN(2)
				default:
					w[j] = 1
				}
			}
			sequence(c, size, w, i%5 != 4)
		}
	})
}

var names = []string{"write", "next", "next-nil", "write-empty"}

// sequence compares one history with a bounded queue. Without a drop function
// what is dropped is discarded, as if it had been written.
func sequence(c *vk.C, size int, word []int, withDrop bool) {
	h := make([]vk.Step, len(word))
	for i, k := range word {
		h[i] = vk.S(names[k])
	}
	drops := 0
	name := fmt.Sprintf("size %d", size)
	if !withDrop {
		name += ", no drop function"
	}
	c.History(name, h, func(h []vk.Step) error {
		drops = 0
		var queue [][]byte
		var handed [][]byte
		var ret error
		retN := 0
		drop := func(b []byte) (int, error) {
			handed = append(handed, append([]byte{}, b...))
			return retN, ret
		}
		if !withDrop {
			drop = nil
		}
		d := decouplex.NewDecoupler(uint64(size), drop)
		for i, s := range h {
			vk.Op()
			handed = nil
			switch s.Op {
			case "write", "write-empty":
				b := []byte{}
				if s.Op == "write" {
					b = dec.Msg(1, i, (i*7)%40)
					if i%61 == 60 {
						b = dec.Msg(1, i, []int{252, 1020, 4091, 4092, 4093, 8192, 20000, 65532, 70001}[i/61%9])
					}
				} else if i%2 == 0 {
					b = nil
				}
				orig := append([]byte{}, b...)
				retN, ret = i+1000, errors.New("x")
				if i%3 == 0 {
					ret = nil
				}
				full := len(queue) == size
				n, err := d.Write(b)
				if !bytes.Equal(b, orig) {
					return fmt.Errorf("step %d: Write changed the caller's bytes", i)
				}
				if s.Op == "write" && !full {
					if len(handed) != 0 {
						return fmt.Errorf("step %d: dropped with %d of %d messages pending", i, len(queue), size)
					}
					if n != len(b) || err != nil {
						return fmt.Errorf("step %d: accepted Write of %d bytes returned (%d, %v)", i, len(b), n, err)
					}
					queue = append(queue, orig)
				} else {
					drops++
					if !withDrop {
						if n != len(orig) || err != nil {
							return fmt.Errorf("step %d: Write of %d bytes returned (%d, %v) with %d of %d pending and no drop function", i, len(orig), n, err, len(queue), size)
						}
					} else if len(handed) != 1 || !bytes.Equal(handed[0], orig) {
						return fmt.Errorf("step %d: %d messages handed to the drop function (%v), want exactly the written one, with %d of %d pending", i, len(handed), handed, len(queue), size)
					}
					if withDrop && (n != retN || err != ret) {
						return fmt.Errorf("step %d: Write returned (%d, %v), the drop function (%d, %v)", i, n, err, retN, ret)
					}
				}
				for j := range b {
					b[j] = 0xee
				}
			case "next", "next-nil":
				views := 0
				var got []byte
				view := func(b []byte) { views++; got = append([]byte{}, b...) }
				if s.Op == "next-nil" {
					view = nil
				}
				ok := d.Next(view)
				if ok != (len(queue) > 0) {
					return fmt.Errorf("step %d: Next returned %v with %d messages pending", i, ok, len(queue))
				}
				if len(handed) != 0 {
					return fmt.Errorf("step %d: Next called the drop function", i)
				}
				if ok {
					if view != nil && (views != 1 || !bytes.Equal(got, queue[0])) {
						return fmt.Errorf("step %d: Next showed %d messages, the last being %v, want %v", i, views, got, queue[0])
					}
					queue = queue[1:]
				} else if views != 0 {
					return fmt.Errorf("step %d: Next showed a message and returned false", i)
				}
			}
		}
		return nil
	})
	if drops > 0 {
		s := []byte(fmt.Sprint(size))
		for _, k := range word {
			s = append(s, byte('0'+k))
		}
		c.Distinct(vk.HashS(string(s)))
		c.Count("drops", drops)
	}
}
