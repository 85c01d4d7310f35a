// Package dec drives decouplex.Decoupler and records what happens at its
// boundary; the checks of C32 and C33 judge the records.
package dec

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/unsafe-risk/utilx/iox/decouplex"

	"verifharness/vk"
)

// Msg is the content of message k of writer w: its identity and a pattern.
func Msg(w, k, n int) []byte {
	b := make([]byte, 4+n)
	b[0], b[1], b[2], b[3] = byte(w), byte(k), byte(k>>8), byte(n)
	for i := 0; i < n; i++ {
		b[4+i] = byte(w*31 + k*7 + i*13)
	}
	return b
}

func Parse(b []byte) (w, k int, err error) {
	if len(b) < 4 {
		return 0, 0, fmt.Errorf("a message of %d bytes", len(b))
	}
	w, k = int(b[0]), int(b[1])|int(b[2])<<8
	if n := len(b) - 4; n&255 != int(b[3]) || !bytes.Equal(b, Msg(w, k, n)) {
		return w, k, fmt.Errorf("bytes that are no message as a whole (claims to be message %d of writer %d, %d bytes)", k, w, len(b))
	}
	return w, k, nil
}

// Write is one recorded Write call.
type Write struct {
	W, K, N  int
	T0, T1   int64
	Dropped  int // drop calls
	DropAt   int64
	DropBad  string
	Ret      int
	Err      error
	Returned bool
}

// Next is one recorded Next call.
type Next struct {
	T0, T1  int64
	OK      bool
	W, K    int
	Problem string
	Views   int
}

type Result struct {
	Size   uint64
	Writes []*Write
	Nexts  []*Next
	Over   bool
	Panics []*vk.Panic
	Trace  uint64
	Steps  int
	Final  []*Next // after all writers have returned
	Log    string
}

func (r *Result) Show() []string {
	out := []string{fmt.Sprintf("size=%d", r.Size)}
	type e struct {
		t int64
		s string
	}
	var es []e
	for _, w := range r.Writes {
		s := "accepted"
		if w.Dropped > 0 {
			s = fmt.Sprintf("dropped at %d", w.DropAt)
		}
		es = append(es, e{w.T0, fmt.Sprintf("[%d..%d] writer %d: Write message %d (%d bytes) %s, returns (%d, %v)", w.T0, w.T1, w.W, w.K, w.N, s, w.Ret, w.Err)})
	}
	for _, n := range append(append([]*Next{}, r.Nexts...), r.Final...) {
		s := "false"
		if n.OK {
			s = fmt.Sprintf("writer %d message %d", n.W, n.K)
		}
		if n.Problem != "" {
			s += " " + n.Problem
		}
		es = append(es, e{n.T0, fmt.Sprintf("[%d..%d] Next: %s", n.T0, n.T1, s)})
	}
	sort.Slice(es, func(i, j int) bool { return es[i].t < es[j].t })
	for _, x := range es {
		out = append(out, x.s)
	}
	return out
}

var errDrop = errors.New("dropped")

// Scenario runs writers and one reader under the controlled scheduler.
func Scenario(r *rand.Rand) *Result {
	size := uint64([]int{1, 1, 2, 2, 3, 4, 5, 8}[r.IntN(8)])
	res := &Result{Size: size}
	writers := 1 + r.IntN(4)
	per := 1 + r.IntN(8)
	lens := []int{0, 1, 5, 60}
	if r.IntN(25) == 0 {
		lens = []int{0, 251, 252, 1020, 4091, 4092, 5000, 9000}
		if r.IntN(6) == 0 {
			lens = []int{7, 65531, 65532, 70000, 140000}
		}
	}
	var s *vk.Sched
	current := map[int]*Write{} // by writer, set while its Write runs
	d := decouplex.NewDecoupler(size, func(b []byte) (int, error) {
		w, k, err := Parse(b)
		x := current[w]
		if err != nil || x == nil || x.K != k || x.Returned {
			for _, y := range current { // blame any call that is going on
				y.DropBad = fmt.Sprintf("the drop function is given %v that nobody is writing (%v)", b, err)
			}
			return 0, nil
		}
		x.Dropped++
		x.DropAt = s.Now()
		s.Yield()
		return -k - 1, errDrop
	})
	var procs []func(*vk.Sched)
	left := writers
	seeds := make([]uint64, writers+1)
	for i := range seeds {
		seeds[i] = r.Uint64()
	}
	for w := 0; w < writers; w++ {
		procs = append(procs, func(s *vk.Sched) {
			r := rand.New(rand.NewPCG(seeds[w], 3))
			for k := 0; k < per; k++ {
				x := &Write{W: w, K: k, N: lens[r.IntN(len(lens))]}
				b := Msg(w, k, x.N)
				res.Writes = append(res.Writes, x)
				current[w] = x
				x.T0 = s.Now()
				x.Ret, x.Err = d.Write(b)
				x.T1 = s.Now()
				x.Returned = true
				delete(current, w)
				if !bytes.Equal(b, Msg(w, k, x.N)) {
					x.DropBad = "the caller's bytes were changed"
				}
				for i := range b { // the caller's memory is its own again
					b[i] = 0xee
				}
				if r.IntN(4) == 0 {
					s.Yield()
				}
			}
			left--
		})
	}
	next := func(s *vk.Sched) *Next {
		n := &Next{T0: s.Now(), W: -1}
		n.OK = d.Next(func(b []byte) {
			n.Views++
			before := append([]byte(nil), b...)
			var err error
			n.W, n.K, err = Parse(b)
			if err != nil {
				n.Problem = err.Error()
			}
			for i := 0; i < 4; i++ {
				s.Yield()
			}
			if !bytes.Equal(before, b) {
				n.Problem = "the message changed while the reader looked at it"
			}
		})
		n.T1 = s.Now()
		return n
	}
	idle := r.IntN(3)
	procs = append(procs, func(s *vk.Sched) {
		r := rand.New(rand.NewPCG(seeds[writers], 4))
		for left > 0 {
			res.Nexts = append(res.Nexts, next(s))
			for i := 0; i < idle*r.IntN(40); i++ {
				s.Yield()
			}
		}
		for i := 0; i < int(size)+2; i++ {
			res.Final = append(res.Final, next(s))
		}
	})
	vk.ScheduleInit(r, 200000, func(x *vk.Sched) { s = x }, procs...)
	res.Over, res.Panics, res.Trace, res.Steps = s.Over, s.Panics, s.Trace, s.Steps
	return res
}

// Delivered returns all deliveries in order.
func (r *Result) Delivered() []*Next {
	var out []*Next
	for _, n := range append(append([]*Next{}, r.Nexts...), r.Final...) {
		if n.OK || n.Views > 0 {
			out = append(out, n)
		}
	}
	return out
}

// JudgeDelivery is the oracle of C32.
func (r *Result) JudgeDelivery() string {
	type id struct{ w, k int }
	by := map[id]*Write{}
	for _, w := range r.Writes {
		by[id{w.W, w.K}] = w
	}
	seen := map[id]int{}
	var order []*Write
	for i, n := range r.Delivered() {
		if n.Problem != "" {
			return n.Problem
		}
		if !n.OK || n.Views != 1 {
			return fmt.Sprintf("a Next returned %v after showing %d messages", n.OK, n.Views)
		}
		w := by[id{n.W, n.K}]
		if w == nil || n.T1 < w.T0 {
			return fmt.Sprintf("message %d of writer %d was delivered without having been written", n.K, n.W)
		}
		if j, dup := seen[id{n.W, n.K}]; dup {
			return fmt.Sprintf("message %d of writer %d was delivered twice (deliveries %d and %d)", n.K, n.W, j, i)
		}
		if w.Dropped > 0 {
			return fmt.Sprintf("message %d of writer %d was delivered although it was dropped", n.K, n.W)
		}
		seen[id{n.W, n.K}] = i
		order = append(order, w)
	}
	for i, a := range order {
		for _, b := range order[i+1:] {
			if b.T1 < a.T0 {
				return fmt.Sprintf("message %d of writer %d was delivered before message %d of writer %d, whose Write had returned before the other began", a.K, a.W, b.K, b.W)
			}
		}
	}
	for _, w := range r.Writes {
		if _, ok := seen[id{w.W, w.K}]; !ok && w.Dropped == 0 && w.Returned {
			return fmt.Sprintf("message %d of writer %d was accepted but never delivered", w.K, w.W)
		}
		if w.Returned && w.Dropped == 0 && (w.Err != nil || w.Ret != 4+w.N) {
			return fmt.Sprintf("accepted message %d of writer %d (%d bytes) returned (%d, %v)", w.K, w.W, 4+w.N, w.Ret, w.Err)
		}
		if w.DropBad == "the caller's bytes were changed" {
			return w.DropBad
		}
	}
	return ""
}

// JudgeDrops is the oracle of C33 for concurrent runs.
func (r *Result) JudgeDrops() string {
	if r.Over {
		return fmt.Sprintf("calls keep running without returning (%d statements executed)", r.Steps)
	}
	type ev struct {
		t int64
		d int
	}
	// Upper bound of the number of pending messages over time: a message
	// counts from the begin of its Write to the end of the Next that took it.
	var evs []ev
	for _, w := range r.Writes {
		if w.Dropped == 0 {
			evs = append(evs, ev{w.T0, 1})
		}
	}
	for _, n := range r.Delivered() {
		if n.OK {
			evs = append(evs, ev{n.T1, -1})
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].t < evs[j].t })
	for _, w := range r.Writes {
		if w.DropBad != "" {
			return w.DropBad
		}
		if w.Dropped == 0 {
			continue
		}
		if w.Dropped > 1 {
			return fmt.Sprintf("message %d of writer %d was handed to the drop function %d times", w.K, w.W, w.Dropped)
		}
		if w.Ret != -w.K-1 || w.Err != errDrop {
			return fmt.Sprintf("the Write of dropped message %d of writer %d returned (%d, %v) instead of what the drop function returned", w.K, w.W, w.Ret, w.Err)
		}
		p, most := 0, 0
		for _, e := range evs {
			if e.t > w.DropAt {
				break
			}
			if e.t > w.T0 && p > most {
				most = p
			}
			p += e.d
		}
		most = max(most, p)
		if uint64(most) < r.Size {
			return fmt.Sprintf("message %d of writer %d was dropped although at most %d of %d messages were pending during the call", w.K, w.W, most, r.Size)
		}
	}
	// After the writers have returned: Next delivers exactly what is pending.
	pend := 0
	for _, w := range r.Writes {
		if w.Dropped == 0 {
			pend++
		}
	}
	for _, n := range r.Nexts {
		if n.OK {
			pend--
		}
	}
	for _, n := range r.Final {
		if n.OK != (pend > 0) {
			return fmt.Sprintf("with no Write in progress, Next returned %v while %d messages were pending", n.OK, pend)
		}
		if n.OK {
			pend--
		}
	}
	if pend > 0 && len(r.Panics) == 0 {
		return fmt.Sprintf("%d accepted messages are still pending after %d Next calls on a buffer of size %d", pend, len(r.Final), r.Size)
	}
	return ""
}

// Race runs writers and a reader in parallel, unobserved.
func Race(c *vk.C) {
	r := c.Rand("race")
	for round := 0; round < c.N(60, 2000); round++ {
		vk.Perturb(r.Uint64(), 2+r.IntN(4))
		runtime.GOMAXPROCS([]int{2, 4, 8}[r.IntN(3)])
		size := uint64([]int{1, 2, 3, 7, 64}[r.IntN(5)])
		writers := 1 + r.IntN(4)
		per := 150
		var dropped [8][]int
		d := decouplex.NewDecoupler(size, func(b []byte) (int, error) {
			w, k, err := Parse(b)
			if err != nil || w >= writers {
				c.Violate("the drop function is given a damaged message", map[string]any{"bytes": fmt.Sprint(b)})
			}
			dropped[w] = append(dropped[w], k) // runs inside the writer's call
			return len(b), nil
		})
		var left atomic.Int32
		left.Store(int32(writers))
		var wg sync.WaitGroup
		for w := 0; w < writers; w++ {
			seed := r.Uint64()
			exact, large := round%2 == 1, round%5 == 1
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 5))
				buf := make([]byte, 0, 300)
				for k := 0; k < per; k++ {
					n := r.IntN(200)
					if large && r.IntN(8) == 0 {
						n = 1000 + r.IntN(9000)
					}
					if exact { // no spare capacity
						buf = Msg(w, k, n)
					} else {
						buf = append(buf[:0], Msg(w, k, n)...)
					}
					d.Write(buf)
					for i := range buf {
						buf[i] = 0xdd
					}
					vk.Tick()
				}
				left.Add(-1)
			}()
		}
		got := make([][]int, writers)
		read := func() bool {
			return d.Next(func(b []byte) {
				w, k, err := Parse(b)
				if err != nil || w >= writers {
					c.Violate("the reader is given a damaged message", map[string]any{"bytes": fmt.Sprint(b), "problem": fmt.Sprint(err)})
				}
				got[w] = append(got[w], k)
			})
		}
		for left.Load() > 0 {
			if !read() {
				runtime.Gosched()
			}
		}
		wg.Wait()
		for read() {
		}
		n := 0
		for w := range got {
			all := append(append([]int{}, got[w]...), dropped[w]...)
			sort.Ints(all)
			ok := sort.IntsAreSorted(got[w]) && len(all) == per
			for i := range all {
				ok = ok && all[i] == i
			}
			n += len(got[w])
			if !ok {
				c.Violate("messages of one writer were lost, repeated or reordered", map[string]any{"writer": w, "size": size, "delivered": got[w], "dropped": dropped[w]})
			}
		}
		c.Eval(writers * per)
		c.Count("messages_delivered", n)
		c.Count("messages_dropped", writers*per-n)
		c.Distinct(uint64(round)<<32 | uint64(n))
	}
}
