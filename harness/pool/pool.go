// Package pool drives gopoolx.TimedPool with random scenarios and records
// what happens at its boundary. The checks judge the records.
package pool

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/poolx/gopoolx"

	"verifharness/vk"
)

// Task has several words so that a torn or mixed-up value shows.
type Task struct {
	ID  int
	Sum int
	Rec *Record
	Tag string
}

type Record struct {
	ID       int
	Client   int
	Dur      time.Duration
	Accepted bool
	Called   bool
	AfterEnd bool // Run began after a Stop had returned
	Inside   bool // Run was called by a handler
	Runs     atomic.Int32
	Ended    atomic.Int32
	At       time.Duration
}

type Config struct {
	Max            int64
	Timeout, GC    time.Duration
	Preheat        int
	Clients, Tasks int
	Stops          int // goroutines that call Stop while clients run
	HandlerStops   int // number of tasks whose handler calls Stop
	Nested         bool
}

func (c Config) String() string {
	return fmt.Sprintf("max=%d timeout=%v gc=%v preheat=%d clients=%d tasks=%d stops=%d handlerstops=%d nested=%v", c.Max, c.Timeout, c.GC, c.Preheat, c.Clients, c.Tasks, c.Stops, c.HandlerStops, c.Nested)
}

func Random(r *rand.Rand) Config {
	d := func() time.Duration { return time.Duration([]int{1, 1, 2, 3, 5, 10}[r.IntN(6)]) * time.Millisecond }
	c := Config{Max: []int64{1, 2, 3, 4, 8, 1 << 40}[r.IntN(6)], Timeout: d(), GC: d(), Clients: 1 + r.IntN(5), Tasks: 1 + r.IntN(12)}
	switch r.IntN(4) {
	case 0:
		c.Preheat = 1 + r.IntN(3)
	case 1:
		c.Preheat = int(min(c.Max, 10)) + r.IntN(3)
	}
	if r.IntN(2) == 0 {
		c.Stops = 1 + r.IntN(3)
	}
	if r.IntN(4) == 0 {
		c.HandlerStops = 1 + r.IntN(2)
	}
	c.Nested = r.IntN(4) == 0
	return c
}

// Result is what one scenario showed.
type Result struct {
	Cfg        Config
	Tasks      []*Record
	Damaged    []string // handler values that were never submitted
	MaxRunning int64
	MaxWorkers int64
	LateOK     []int // accepted although a Stop had returned before the call
	StopsDone  int64
	StopCalls  int64
	Workers    int64 // after everything has ended
	Left       map[int64]string
	StopAt     time.Duration
}

// Run executes one scenario under virtual time.
func Run(c *vk.C, t *testing.T, cfg Config, r *rand.Rand) *Result {
	res := &Result{Cfg: cfg}
	c.Bubble(t, func() any { return cfg.String() }, func() {
		begin := time.Now()
		var running, maxRunning, maxWorkers, stopCalls, stopsDone atomic.Int64
		var stopped atomic.Bool
		var dmu sync.Mutex
		var p *gopoolx.TimedPool[Task]
		total := cfg.Clients*cfg.Tasks + 8
		res.Tasks = make([]*Record, total)
		mk := func(i, client int) *Record {
			d := time.Duration(0)
			switch r.IntN(5) {
			case 0:
			case 1:
				d = -1 // only yields
			case 2:
				d = cfg.GC * time.Duration(1+r.IntN(3))
			case 3:
				d = cfg.Timeout + time.Duration(r.IntN(3)-1)
			case 4:
				d = time.Duration(1+r.IntN(4)) * time.Millisecond
			}
			x := &Record{ID: i, Client: client, Dur: d}
			res.Tasks[i] = x
			return x
		}
		up := func(a *atomic.Int64, v int64) {
			for {
				o := a.Load()
				if v <= o || a.CompareAndSwap(o, v) {
					return
				}
			}
		}
		var submit func(x *Record)
		stop := func() {
			stopCalls.Add(1)
			p.Stop()
			stopped.Store(true)
			stopsDone.Add(1)
		}
		handlerStop := map[int]bool{}
		for i := 0; i < cfg.HandlerStops; i++ {
			handlerStop[r.IntN(total)] = true
		}
		nested := map[int]*Record{}
		for i := 0; i < 8; i++ {
			x := mk(cfg.Clients*cfg.Tasks+i, -1)
			x.Inside = true
			if cfg.Nested {
				nested[r.IntN(cfg.Clients*cfg.Tasks)] = x
			}
		}
		handler := func(v Task) {
			up(&maxRunning, running.Add(1))
			defer running.Add(-1)
			if v.Rec == nil || v.ID != v.Rec.ID || v.Sum != v.ID*7+3 || v.Tag != fmt.Sprint("t", v.ID) || res.Tasks[v.ID] != v.Rec {
				dmu.Lock()
				res.Damaged = append(res.Damaged, fmt.Sprintf("%d %d %q", v.ID, v.Sum, v.Tag))
				dmu.Unlock()
				return
			}
			v.Rec.Runs.Add(1)
			up(&maxWorkers, p.Workers())
			if y := nested[v.ID]; y != nil {
				submit(y)
			}
			switch {
			case v.Rec.Dur < 0:
				for i := 0; i < 1+v.ID%5; i++ {
					runtime.Gosched()
				}
			case v.Rec.Dur > 0:
				time.Sleep(v.Rec.Dur)
			}
			if handlerStop[v.ID] {
				stop()
			}
			v.Rec.Ended.Add(1)
		}
		submit = func(x *Record) {
			x.AfterEnd = stopped.Load()
			x.Called = true
			x.At = time.Since(begin)
			x.Accepted = p.Run(Task{ID: x.ID, Sum: x.ID*7 + 3, Rec: x, Tag: fmt.Sprint("t", x.ID)})
		}
		var err error
		p, err = gopoolx.NewTimedPool(cfg.Max, handler, cfg.Timeout, cfg.GC, cfg.Preheat)
		if err != nil {
			c.Violate("valid construction arguments refused", map[string]any{"config": cfg.String(), "error": err.Error()})
		}
		up(&maxWorkers, p.Workers())
		var wg, sg sync.WaitGroup
		ends := make([]time.Duration, cfg.Clients)
		for g := 0; g < cfg.Clients; g++ {
			var xs []*Record
			var gaps []time.Duration
			for i := 0; i < cfg.Tasks; i++ {
				xs = append(xs, mk(g*cfg.Tasks+i, g))
				gap := time.Duration(0)
				switch r.IntN(6) {
				case 0, 1:
				case 2: // on a collection
					now := ends[g]
					gap = (cfg.GC - now%cfg.GC) + cfg.GC*time.Duration(r.IntN(3))
				case 3:
					gap = cfg.Timeout + time.Duration(r.IntN(3)-1)
				case 4:
					gap = time.Duration(r.IntN(5)) * time.Millisecond
				case 5:
					gap = cfg.Timeout + cfg.GC*time.Duration(1+r.IntN(2))
				}
				gaps = append(gaps, gap)
				ends[g] += gap
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i, x := range xs {
					if gaps[i] > 0 {
						time.Sleep(gaps[i])
					}
					submit(x)
					if i%3 == 0 {
						up(&maxWorkers, p.Workers())
					}
				}
			}()
		}
		if cfg.Stops > 0 {
			at := time.Duration(r.Int64N(int64(ends[0] + 1)))
			if r.IntN(2) == 0 {
				at -= at % cfg.GC
			}
			res.StopAt = at
			for i := 0; i < cfg.Stops; i++ {
				n := r.IntN(3)
				d := at
				if r.IntN(3) == 0 {
					d += time.Duration(r.IntN(3)) * cfg.GC
				}
				sg.Add(1)
				go func() {
					defer sg.Done()
					time.Sleep(d)
					for i := 0; i <= n; i++ {
						stop()
					}
				}()
			}
		}
		wg.Wait()
		sg.Wait()
		time.Sleep(time.Duration(r.IntN(30)) * time.Millisecond)
		up(&maxWorkers, p.Workers())
		if r.IntN(2) == 0 {
			stop()
		} else {
			for i := 0; i < 3; i++ {
				go stop()
			}
		}
		time.Sleep(time.Second)
		res.Workers = p.Workers()
		res.Left = vk.Goroutines()
		res.StopCalls, res.StopsDone = stopCalls.Load(), stopsDone.Load()
		res.MaxRunning, res.MaxWorkers = maxRunning.Load(), maxWorkers.Load()
		for _, x := range res.Tasks {
			if x.Accepted && x.AfterEnd {
				res.LateOK = append(res.LateOK, x.ID)
			}
		}
		if len(res.Left) > 0 {
			return
		}
		// A stopped pool stays stopped.
		if p.Run(Task{}) {
			res.LateOK = append(res.LateOK, -1)
			time.Sleep(time.Second)
		}
		p.Stop()
	})
	return res
}

// Show lists the tasks of a scenario.
func (r *Result) Show() []string {
	out := []string{r.Cfg.String()}
	for _, x := range r.Tasks {
		if x != nil && x.Called {
			out = append(out, fmt.Sprintf("task %d client %d at %v dur %v: accepted %v, began %d, ended %d, after Stop %v", x.ID, x.Client, x.At, x.Dur, x.Accepted, x.Runs.Load(), x.Ended.Load(), x.AfterEnd))
		}
	}
	return out
}

// Lost lists tasks that did not run exactly once (accepted) or ran (refused).
func (r *Result) Lost() []string {
	var out []string
	for _, x := range r.Tasks {
		want := int32(0)
		if x.Accepted {
			want = 1
		}
		if n := x.Runs.Load(); n != want || x.Ended.Load() != want {
			out = append(out, fmt.Sprintf("task %d: accepted %v, began %d times, ended %d times", x.ID, x.Accepted, n, x.Ended.Load()))
		}
	}
	return append(out, r.Damaged...)
}

// Hash identifies the observed outcome.
func (r *Result) Hash() uint64 {
	s := r.Cfg.String()
	for _, x := range r.Tasks {
		s += fmt.Sprintf("%d%v%v%v ", x.Runs.Load(), x.Accepted, x.At, x.AfterEnd)
	}
	return vk.HashS(s)
}

// Procs varies the number of processors between rounds.
func Procs(r *rand.Rand, round int) {
	vk.Perturb(r.Uint64(), r.IntN(4))
	if round%200 == 0 {
		runtime.GOMAXPROCS([]int{1, 2, 4, 8}[r.IntN(4)])
	}
}

// Race hammers pools in real time for the race detector. Tasks carry a plain
// counter that only their handler touches. opts: stop while clients run.
func Race(c *vk.C, stopEarly bool) {
	r := c.Rand("race")
	for round := 0; round < c.N(120, 3000); round++ {
		vk.Perturb(r.Uint64(), r.IntN(4))
		runtime.GOMAXPROCS([]int{2, 4, 8}[r.IntN(3)])
		type task struct{ n, done int }
		us := func() time.Duration { return time.Duration([]int{1, 5, 20, 100, 1000}[r.IntN(5)]) * time.Microsecond }
		var wg, acc sync.WaitGroup
		maxW := int64([]int{1, 2, 4, 64}[r.IntN(4)])
		var p *gopoolx.TimedPool[*task]
		p, err := gopoolx.NewTimedPool(maxW, func(x *task) {
			x.n++
			if x.n%2 == 0 {
				runtime.Gosched()
			}
			x.done++
			acc.Done()
		}, us(), us(), r.IntN(4))
		if err != nil {
			c.Violate("valid construction arguments refused", err.Error())
		}
		all := make([][]*task, 4)
		oks := make([][]bool, 4)
		for g := 0; g < 4; g++ {
			wg.Add(1)
			seed := r.Uint64()
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 2))
				for i := 0; i < 100; i++ {
					x := &task{}
					acc.Add(1)
					ok := p.Run(x)
					if !ok {
						acc.Done()
					}
					all[g] = append(all[g], x)
					oks[g] = append(oks[g], ok)
					switch r.IntN(8) {
					case 0:
						time.Sleep(time.Duration(r.IntN(100)) * time.Microsecond)
					case 1:
						p.Workers()
					default:
						runtime.Gosched()
					}
				}
			}()
		}
		if stopEarly {
			k := r.IntN(300)
			for s := 0; s < 2; s++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					time.Sleep(time.Duration(k) * time.Microsecond)
					p.Stop()
					p.Stop()
				}()
			}
		}
		wg.Wait()
		acc.Wait()
		p.Stop()
		n := 0
		for g := range all {
			for i, x := range all[g] {
				want := 0
				if oks[g][i] {
					want = 1
					n++
				}
				if x.n != want || x.done != want {
					c.Violate("a task did not run exactly once when accepted, or ran although refused", map[string]any{"client": g, "task": i, "accepted": oks[g][i], "began": x.n, "ended": x.done})
				}
			}
		}
		c.Eval(400)
		c.Count("tasks_accepted", n)
		c.Distinct(uint64(round)<<32 | uint64(n))
	}
}
