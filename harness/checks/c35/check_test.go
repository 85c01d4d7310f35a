// C35: the close manager: failure patterns exhaustively, registration and
// Close concurrently, under perturbation and the race detector.
package c35

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/unsafe-risk/utilx/iox/managerx/closex"

	"verifharness/vk"
)

type closer struct {
	i     int
	err   error
	log   *[]int
	slow  int
	plain *int
}

func (c *closer) Close() error {
	for i := 0; i < c.slow; i++ {
		runtime.Gosched()
	}
	*c.log = append(*c.log, c.i) // Close calls of one manager do not overlap here
	return c.err
}

type valueCloser struct{ *closer }

type sliceErr []int

func (e sliceErr) Error() string { return fmt.Sprint("slice error", []int(e)) }

func mkErr(kind, i int) error {
	switch kind {
	case 1:
		return fmt.Errorf("closer %d failed", i)
	case 2:
		return sliceErr{i}
	case 3:
		return fmt.Errorf("closer %d wraps: %w", i, io.ErrClosedPipe)
	case 4:
		return io.EOF
	case 5: // the failure of a nested manager
		m := closex.New()
		for j := 0; j < 1+i%3; j++ {
			m.Append(&closer{i: j, err: mkErr(1+(i+j)%7, i*10+j), log: new([]int)})
		}
		return m.Close()
	case 6:
		return fmt.Errorf("closer %d wraps the failure of a nested manager: %w", i, mkErr(5, i))
	case 7:
		return closex.ErrorList{}
	case 8:
		return errors.Join(fmt.Errorf("closer %d", i), io.EOF, sliceErr{i})
	case 9:
		return (*nilErr)(nil) // typed nil: an error all the same
	case 10:
		return vk.WellKnown[i%len(vk.WellKnown)]
	}
	return nil
}

type nilErr struct{}

func (*nilErr) Error() string { return "nil pointer error" }

func same(a, b error) bool {
	if x, ok := a.(sliceErr); ok {
		y, ok := b.(sliceErr)
		return ok && len(x) == 1 && len(y) == 1 && x[0] == y[0]
	}
	if x, ok := a.(closex.ErrorList); ok {
		y, ok := b.(closex.ErrorList)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.(sliceErr); ok {
		return false
	}
	if _, ok := b.(closex.ErrorList); ok {
		return false
	}
	return a == b
}

// judge compares the result of a Close with the errors that occurred.
func judge(err error, want []error) string {
	if len(want) == 0 {
		if err != nil {
			return fmt.Sprintf("no closer failed but Close returned %#v", err)
		}
		return ""
	}
	if err == nil {
		return fmt.Sprintf("%d closers failed but Close returned nil", len(want))
	}
	text := err.Error()
	for _, w := range want {
		i := strings.Index(text, w.Error())
		if i < 0 {
			return fmt.Sprintf("the error text %q does not list %q (in order)", err.Error(), w.Error())
		}
		text = text[i+len(w.Error()):]
	}
	for i, e := range []error{err, fmt.Errorf("outer: %w", err), fmt.Errorf("outer: %w", fmt.Errorf("inner: %w", err)), errors.Join(errors.New("other"), err)} {
		list, ok := closex.AsErrs(e)
		eq := ok && len(list) == len(want)
		for j := range want {
			eq = eq && same(want[j], list[j])
		}
		if !eq {
			return fmt.Sprintf("AsErrs (wrapping %d) gave %v, %v, want %v", i, list, ok, want)
		}
	}
	return ""
}

type manager interface {
	Append(io.Closer)
	Close() error
}

type defaultManager struct{}

func (defaultManager) Append(c io.Closer) { closex.Append(c) }
func (defaultManager) Close() error       { return closex.Close() }

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one failure pattern, or one concurrent run of registrations and Close; non-trivial when a closer fails or a registration overlaps Close; distinct by pattern or by order of events.", func(c *vk.C) {
		if c.Phase == "patterns" {
			patterns(c)
		}
		concurrent(c)
	})
}

func patterns(c *vk.C) {
	one := func(kinds []int, m manager, name string) {
		var log []int
		var want []error
		for i, k := range kinds {
			cl := &closer{i: i, err: mkErr(k, i), log: &log}
			if k != 0 {
				want = append(want, cl.err)
			}
			if i%3 == 2 {
				m.Append(valueCloser{cl})
			} else {
				m.Append(cl)
			}
		}
		if len(log) != 0 {
			c.Violate("a closer was closed before Close", map[string]any{"manager": name, "errors": kinds, "closed": log})
		}
		err := m.Close()
		c.Eval(1)
		ok := len(log) == len(kinds)
		for i := range log {
			ok = ok && log[i] == i
		}
		if !ok {
			c.Violate("not every closer was closed once in order", map[string]any{"manager": name, "errors": kinds, "closed": log})
		}
		if s := judge(err, want); s != "" {
			c.Violate(s, map[string]any{"manager": name, "errors": kinds})
		}
		if len(want) > 0 {
			c.Distinct(vk.HashS(fmt.Sprint(kinds)))
		}
	}
	if _, ok := closex.AsErrs(nil); ok {
		c.Violate("AsErrs finds a list in nil", nil)
	}
	if _, ok := closex.AsErrs(io.EOF); ok {
		c.Violate("AsErrs finds a list in another error", nil)
	}
	for n := 0; n <= c.N(9, 13); n++ {
		for mask := 0; mask < 1<<n; mask++ {
			kinds := make([]int, n)
			for i := range kinds {
				if mask>>i&1 == 1 {
					kinds[i] = 1 + (i+mask)%10
				}
			}
			one(kinds, closex.New(), "new")
			if mask%3 == 0 {
				one(kinds, &closex.CloseManager{}, "zero value")
			}
		}
	}
	r := c.Rand("large")
	for i := 0; i < c.N(500, 10000); i++ {
		kinds := make([]int, r.IntN(300))
		for j := range kinds {
			kinds[j] = max(0, r.IntN(20)-9)
		}
		one(kinds, closex.New(), "new")
	}
	for _, n := range []int{1000, 3000, 33000, 66000, 70000} { // counts beyond 10, 15 and 16 bits
		for _, share := range []int{1, 2, 500} {
			kinds := make([]int, n)
			for j := range kinds {
				if r.IntN(share) == 0 {
					kinds[j] = []int{1, 2, 3, 4, 9, 10}[r.IntN(6)]
				}
			}
			kinds[n-1] = 1
			one(kinds, closex.New(), "new")
			c.Count("managers with thousands of closers", 1)
		}
	}
	r = c.Rand("again")
	for i := 0; i < c.N(800, 20000); i++ {
		again(c, r)
	}
	// two managers do not share anything
	var la, lb []int
	a, b := closex.New(), closex.New()
	a.Append(&closer{i: 1, log: &la, err: io.EOF})
	b.Append(&closer{i: 2, log: &lb})
	if e := b.Close(); e != nil || len(la) != 0 || len(lb) != 1 {
		c.Violate("managers share closers", map[string]any{"first": la, "second": lb})
	}
	a.Close()
}

// counting is a closer without identity: equal ones are the same value.
type counting struct {
	i, fails int
	log      *[]int
}

func (k counting) Close() error {
	*k.log = append(*k.log, k.i)
	return mkErr(k.fails, k.i)
}

// bundle is a closer that cannot be compared.
type bundle []*closer

func (b bundle) Close() error { return b[0].Close() }

// again registers closers that are values, that cannot be compared, and some
// more than once.
func again(c *vk.C, r *rand.Rand) {
	var log, wantLog []int
	var want []error
	var desc []string
	cls := map[int]*closer{}
	m := closex.New()
	for i := r.IntN(8); i > 0; i-- {
		id := r.IntN(4)
		if cls[id] == nil {
			cls[id] = &closer{i: 10 + id, log: &log, err: mkErr(max(0, r.IntN(10)-5), id)}
		}
		e := cls[id].err
		wantLog = append(wantLog, 10+id)
		switch r.IntN(4) {
		case 0:
			m.Append(counting{id, 4 * (id % 2), &log})
			wantLog[len(wantLog)-1] = id
			e = mkErr(4*(id%2), id)
			desc = append(desc, fmt.Sprint("value ", id))
		case 1:
			m.Append(bundle{cls[id]})
			desc = append(desc, fmt.Sprint("uncomparable ", id))
		default:
			m.Append(cls[id])
			desc = append(desc, fmt.Sprint("pointer ", id))
		}
		if e != nil {
			want = append(want, e)
		}
	}
	c.Eval(1)
	c.Distinct(vk.HashS(fmt.Sprint(desc, want)))
	c.Count("managers with closers registered twice, values and uncomparable ones", 1)
	err := m.Close()
	if fmt.Sprint(log) != fmt.Sprint(wantLog) {
		c.Violate("not every registration was closed once in order", map[string]any{"registered": desc, "closed": log, "want": wantLog})
	}
	if s := judge(err, want); s != "" {
		c.Violate(s, map[string]any{"registered": desc})
	}
}

type reg struct {
	g, i     int
	t0, t1   int64
	fail     error
	closedBy [2]int // calls by the first and the second Close
	pos      [2]int
	close    func() error
}

func (r *reg) Close() error { return r.close() }

func concurrent(c *vk.C) {
	r := c.Rand("concurrent" + c.Phase)
	logical := c.Phase != "race"
	// The default manager accumulates; it is judged once at the end by the
	// closers of its own run.
	for round := 0; round < c.N(3000, 100000); round++ {
		if !logical && round%20 != 0 {
			continue
		}
		vk.Perturb(r.Uint64(), r.IntN(3))
		if round%100 == 0 {
			runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.IntN(4)])
		}
		var m manager = closex.New()
		if round == 0 {
			m = defaultManager{}
		}
		var clock atomic.Int64
		now := func() int64 { return 0 }
		if logical {
			now = func() int64 { return clock.Add(1) }
		}
		gs, per := 1+r.IntN(5), 1+r.IntN(8)
		var order [2][]*reg
		phase := 0
		var wg sync.WaitGroup
		regs := make([][]*reg, gs)
		for g := 0; g < gs; g++ {
			for i := 0; i < per; i++ {
				x := &reg{g: g, i: i}
				if r.IntN(3) == 0 {
					x.fail = fmt.Errorf("closer %d/%d", g, i)
				}
				slow := r.IntN(3)
				x.close = func() error {
					for k := 0; k < slow; k++ {
						runtime.Gosched()
					}
					x.closedBy[phase]++
					x.pos[phase] = len(order[phase])
					order[phase] = append(order[phase], x)
					return x.fail
				}
				regs[g] = append(regs[g], x)
			}
			pre := r.IntN(4)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < pre; k++ {
					runtime.Gosched()
				}
				for _, x := range regs[g] {
					x.t0 = now()
					m.Append(x)
					x.t1 = now()
				}
			}()
		}
		var c0, c1 int64
		var e1 error
		during := r.IntN(3) > 0
		if !during {
			wg.Wait()
		} else {
			for k := r.IntN(12); k > 0; k-- {
				runtime.Gosched()
			}
		}
		c0 = now()
		e1 = m.Close()
		c1 = now()
		wg.Wait()
		first := append([]*reg{}, order[0]...)
		show := func() map[string]any {
			var ev []string
			for _, l := range regs {
				for _, x := range l {
					ev = append(ev, fmt.Sprintf("[%d..%d] goroutine %d appends %d; closed %d times by the first Close [%d..%d], %d times by the second", x.t0, x.t1, x.g, x.i, x.closedBy[0], c0, c1, x.closedBy[1]))
				}
			}
			return map[string]any{"events": ev}
		}
		errsOf := func(o []*reg) (out []error) {
			for _, x := range o {
				if x.fail != nil {
					out = append(out, x.fail)
				}
			}
			return
		}
		if s := judge(e1, errsOf(first)); s != "" {
			c.Violate(s, show())
		}
		phase = 1
		e2 := m.Close()
		if s := judge(e2, errsOf(order[1])); s != "" {
			c.Violate("second Close: "+s, show())
		}
		if s := judge(e1, errsOf(first)); s != "" {
			c.Violate("the result of an earlier Close changed: "+s, show())
		}
		overlap := 0
		for _, l := range regs {
			for _, x := range l {
				if x.closedBy[0] > 1 || x.closedBy[1] > 1 {
					c.Violate("a closer was closed twice by one Close", show())
				}
				if x.closedBy[0]+x.closedBy[1] == 0 {
					c.Violate("a registered closer was never closed", show())
				}
				if logical {
					if x.t1 < c0 && x.closedBy[0] == 0 {
						c.Violate("a closer registered before Close was not closed by it", show())
					}
					if x.t0 > c1 && x.closedBy[0] != 0 {
						c.Violate("a closer was closed before it was registered", show())
					}
					if x.t0 < c1 && c0 < x.t1 {
						overlap++
					}
				}
			}
		}
		for p := 0; p < 2; p++ {
			for i, x := range order[p] {
				for _, y := range order[p][i+1:] {
					if x.g == y.g && x.i > y.i || logical && y.t1 < x.t0 {
						c.Violate("closers were not closed in order of registration", show())
					}
				}
			}
		}
		c.Eval(1)
		c.Count("registrations", gs*per)
		c.Count("registrations_overlapping_close", overlap)
		if overlap > 0 || !logical {
			s := fmt.Sprint(round % 1)
			for _, x := range first {
				s += fmt.Sprint(x.g, ".", x.i, " ")
			}
			c.Distinct(vk.HashS(fmt.Sprint(s, gs, per, c0, c1)))
		}
		if overlap > 2 && round < 50 {
			c.Sample(show())
		}
	}
}
