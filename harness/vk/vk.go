// Package vk is the monitor runtime shared by all checks: verdicts, evidence,
// replay files, step bounds, schedule perturbation and a controlled scheduler.
package vk

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/zzvyield"
)

// C is one running check (one phase of it).
type C struct {
	T     *testing.T
	ID    string
	Phase string
	Tier  string
	Seed  uint64

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counts   map[string]int64
	samples  []any
	known    map[string]string
	rule     string
	assume   []string
	start    time.Time
	context  string
	nviol    int
	finds    []string
}

type partial struct {
	Phase       string           `json:"phase"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int64            `json:"distinct_nontrivial"`
	Rule        string           `json:"rule"`
	Samples     []any            `json:"samples"`
	Counts      map[string]int64 `json:"counts"`
	Assumptions []string         `json:"assumptions"`
	Violations  int              `json:"violations"`
	Known       []string         `json:"known_findings"`
	Wall        float64          `json:"wall_s"`
}

// Run runs f as the body of a check and exits the process with its verdict.
func Run(t *testing.T, rule string, f func(c *C)) {
	c := &C{T: t, ID: os.Getenv("VK_ID"), Phase: os.Getenv("VK_PHASE"), Tier: os.Getenv("VERIF_TIER"),
		distinct: map[uint64]struct{}{}, counts: map[string]int64{}, known: map[string]string{},
		rule: rule, start: time.Now()}
	if c.Tier == "" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if p := os.Getenv("VK_KNOWN"); p != "" {
		b, _ := os.ReadFile(p)
		for _, l := range strings.Split(string(b), "\n") {
			var k struct{ Property, Key, What, Status string }
			if json.Unmarshal([]byte(l), &k) == nil && k.Property == c.ID && k.Status == "known" {
				c.known[k.Key] = k.What
			}
		}
	}
	go c.watch()
	defer func() {
		if r := recover(); r != nil {
			c.crash(r, string(debug.Stack()))
		}
	}()
	f(c)
	if defaultLimit < 1<<62 {
		c.Count("statements_of_the_longest_call", int(stepHigh))
		c.Count("statement_limit_per_call", int(defaultLimit))
	}
	c.flush()
	os.Exit(0)
}

func (c *C) crash(r any, stack string) {
	if inTarget(stack) {
		c.Violate("panic in the code under test", map[string]any{"panic": fmt.Sprint(r), "context": c.context, "stack": stack})
	}
	fmt.Fprintf(os.Stderr, "harness panic: %v\n%s\n", r, stack)
	os.Exit(3)
}

// inTarget reports whether a stack contains frames of the module under test
// other than the instrumentation support.
func inTarget(stack string) bool {
	for _, l := range strings.Split(stack, "\n") {
		if strings.Contains(l, "github.com/unsafe-risk/utilx/") && !strings.Contains(l, "utilx/zzvyield") && !strings.HasPrefix(l, "\t") {
			return true
		}
	}
	return false
}

func (c *C) Thorough() bool { return c.Tier == "thorough" }

// N picks a workload size by tier.
func (c *C) N(quick, thorough int) int {
	if c.Thorough() {
		return thorough
	}
	return quick
}

// Rand returns the generator of a named stream, determined by the seed.
func (c *C) Rand(stream string, n ...int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, stream, n)
	return rand.New(rand.NewPCG(c.Seed, h.Sum64()))
}

func (c *C) Eval(n int) {
	Tick()
	c.mu.Lock()
	c.evals += int64(n)
	c.mu.Unlock()
}

func Hash(v any) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%#v", v)
	return h.Sum64()
}

func HashS(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// Distinct records one non-trivial case by its hash.
func (c *C) Distinct(h uint64) {
	c.mu.Lock()
	c.distinct[h] = struct{}{}
	c.mu.Unlock()
}

func (c *C) Count(name string, n int) {
	c.mu.Lock()
	c.counts[name] += int64(n)
	c.mu.Unlock()
}

func (c *C) Max(name string, n int) {
	c.mu.Lock()
	if int64(n) > c.counts[name] {
		c.counts[name] = int64(n)
	}
	c.mu.Unlock()
}

func (c *C) Assume(s string) { c.assume = append(c.assume, s) }

func (c *C) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 4 {
		if b, err := json.Marshal(v); err != nil || len(b) > 1500 { // keep the evidence readable
			if err != nil {
				b = fmt.Appendf(nil, "%+v", v)
			}
			v = strings.ToValidUTF8(string(b[:min(len(b), 1500)]), "") + "..."
		}
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

// Context names what is being executed, for crash reports.
func (c *C) Context(f string, a ...any) { c.context = fmt.Sprintf(f, a...) }

func (c *C) flush() {
	hit := 0
	for i := 0; i < zzvyield.N; i++ {
		if zzvyield.Hit[i] {
			hit++
		}
	}
	c.mu.Lock()
	if zzvyield.N > 0 {
		c.counts["instrumented_statements"] = int64(zzvyield.N)
		c.counts["instrumented_statements_executed"] = int64(hit)
	}
	p := partial{c.Phase, c.evals, int64(len(c.distinct)), c.rule, c.samples, c.counts, c.assume, c.nviol, c.finds, time.Since(c.start).Seconds()}
	c.mu.Unlock()
	b, err := json.MarshalIndent(p, "", " ")
	if err != nil {
		fmt.Fprintln(os.Stderr, "evidence:", err)
		os.Exit(3)
	}
	if out := os.Getenv("VK_OUT"); out != "" {
		os.WriteFile(out, b, 0o644)
	}
	if os.Getenv("VK_SITES") != "" {
		for i := 0; i < zzvyield.N; i++ {
			if !zzvyield.Hit[i] {
				fmt.Println("not executed:", zzvyield.Names[i])
			}
		}
	}
}

var violOnce sync.Mutex

// Violate reports a violation, writes the replay file and ends the process.
func (c *C) Violate(what string, detail any) {
	violOnce.Lock() // never released: the first violation wins
	zzvyield.Hook = nil
	c.nviol++
	if len(what) > 2000 {
		what = what[:2000] + "..."
	}
	dir := os.Getenv("VK_REPLAY")
	if dir == "" {
		dir = os.TempDir()
	}
	path := filepath.Join(dir, c.ID+"-"+c.Phase+".json")
	rep := map[string]any{"property": c.ID, "phase": c.Phase, "seed": c.Seed, "tier": c.Tier, "what": what, "detail": detail,
		"rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d python3 run.py %s %s", c.Seed, c.ID, c.Tier)}
	b, err := json.MarshalIndent(rep, "", " ")
	if err != nil {
		rep["detail"] = fmt.Sprintf("%+v", detail)
		b, _ = json.MarshalIndent(rep, "", " ")
	}
	os.MkdirAll(dir, 0o755)
	os.WriteFile(path, b, 0o644)
	c.flush()
	s := string(b)
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	fmt.Println(s)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
	os.Exit(1)
}

// Known reports a violation unless key is a listed known finding.
func (c *C) Known(key, what string, detail any) {
	if k, ok := c.known[key]; ok {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
		c.mu.Lock()
		c.finds = append(c.finds, key)
		c.mu.Unlock()
		return
	}
	c.Violate(what, detail)
}

// ---------------------------------------------------------------- step bound

// StepLimit is the panic value of an exceeded step bound.
type StepLimit struct{ Steps int64 }

func (s StepLimit) Error() string {
	return fmt.Sprintf("the call executed %d statements without returning", s.Steps)
}

var (
	steps     int64
	stepLimit int64
	stepHigh  int64 // the most statements any call executed
	progress  int64
)

//go:norace
func countHook(site uint32) {
	steps++
	if steps > stepHigh {
		stepHigh = steps
	}
	if steps > stepLimit {
		n := steps
		stepLimit = 1 << 62
		panic(StepLimit{n})
	}
}

// Bound installs the step counter for single-goroutine workloads. Every call
// of Op afterwards restarts the count.
func Bound(limit int64) {
	steps, stepLimit = 0, limit
	zzvyield.Hook = countHook
}

// Unbound removes the hook.
func Unbound() { zzvyield.Hook = nil }

// Op marks the start of one call into the code under test.
//
//go:norace
func Op() { steps = 0; progress++ }

// Steps is the number of instrumented statements executed since Op.
func Steps() int64 { return steps }

//go:norace
func Tick() { progress++ }

// Try runs f and returns the panic it ended with, if any, as an error.
func Try(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(StepLimit); ok {
				err = e
				return
			}
			err = &Panic{r, string(debug.Stack())}
		}
	}()
	f()
	return nil
}

// TryFast is Try without a stack for ordinary panics.
func TryFast(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(StepLimit); ok {
				err = e
				return
			}
			err = &Panic{r, ""}
		}
	}()
	f()
	return nil
}

// Panic is a recovered panic.
type Panic struct {
	Value any
	Stack string
}

func (p *Panic) Error() string { return fmt.Sprintf("panic: %v", p.Value) }

// ------------------------------------------------------- schedule perturbation

var (
	yState uint64
	yMask  uint64
	yLong  bool
)

//go:norace
func yieldHook(site uint32) {
	x := yState*6364136223846793005 + 1442695040888963407
	yState = x
	z := (x >> 32) ^ (x >> 48)
	if z&yMask == 0 {
		runtime.Gosched()
		if yLong && z&0x700 == 0 {
			for i := 0; i < 3; i++ {
				runtime.Gosched()
			}
		}
	}
}

// Perturb makes every instrumented statement yield the processor with
// probability 2^-bits. It creates no happens-before edges.
func Perturb(seed uint64, bits int) {
	yState = seed*0x9e3779b97f4a7c15 + 1
	yMask = 1<<bits - 1
	yLong = true
	zzvyield.Hook = yieldHook
}

// -------------------------------------------------------- controlled scheduler

// Sched runs goroutines one at a time; at every instrumented statement the
// generator decides who continues. Deterministic for a given generator.
type Sched struct {
	r      *rand.Rand
	pnum   uint64 // switch probability in 1/256
	limit  int
	Steps  int
	Trace  uint64 // hash of the scheduling decisions
	Over   bool   // step limit exceeded
	wake   []chan struct{}
	live   []int
	cur    int
	done   chan struct{}
	abort  bool
	Panics []*Panic
	seq    int64
}

type schedAbort struct{}

// Schedule runs procs under a controlled random schedule and returns it.
func Schedule(r *rand.Rand, limit int, procs ...func(s *Sched)) *Sched {
	return ScheduleInit(r, limit, nil, procs...)
}

// ScheduleInit is Schedule with a function that sees the scheduler first.
func ScheduleInit(r *rand.Rand, limit int, init func(*Sched), procs ...func(s *Sched)) *Sched {
	s := &Sched{r: r, limit: limit, done: make(chan struct{}), Trace: 14695981039346656037}
	if init != nil {
		init(s)
	}
	s.pnum = []uint64{8, 32, 64, 128, 256}[r.IntN(5)]
	for i := range procs {
		s.wake = append(s.wake, make(chan struct{}, 1))
		s.live = append(s.live, i)
	}
	zzvyield.Hook = func(uint32) { s.yield() }
	for i, p := range procs {
		go func() {
			<-s.wake[i]
			defer func() {
				if v := recover(); v != nil {
					if _, ok := v.(schedAbort); !ok {
						s.Panics = append(s.Panics, &Panic{v, string(debug.Stack())})
						s.abort = true
					}
				}
				s.finish(i)
			}()
			p(s)
		}()
	}
	s.cur = s.live[r.IntN(len(s.live))]
	s.wake[s.cur] <- struct{}{}
	<-s.done
	zzvyield.Hook = nil
	Tick()
	return s
}

func (s *Sched) finish(i int) {
	for k, x := range s.live {
		if x == i {
			s.live = append(s.live[:k], s.live[k+1:]...)
			break
		}
	}
	if len(s.live) == 0 {
		close(s.done)
		return
	}
	s.cur = s.live[s.r.IntN(len(s.live))]
	s.note()
	s.wake[s.cur] <- struct{}{}
}

func (s *Sched) note() { s.Trace = (s.Trace ^ uint64(s.cur+1)) * 1099511628211 }

func (s *Sched) yield() {
	if s.abort {
		panic(schedAbort{})
	}
	s.Steps++
	if s.Steps > s.limit {
		s.Over, s.abort = true, true
		panic(schedAbort{})
	}
	if len(s.live) > 1 && s.r.Uint64()&255 < s.pnum {
		me := s.cur
		next := s.live[s.r.IntN(len(s.live))]
		if next != me {
			s.cur = next
			s.note()
			s.wake[next] <- struct{}{}
			<-s.wake[me]
			if s.abort {
				panic(schedAbort{})
			}
			return
		}
	}
	s.note()
}

// Yield is a scheduling point of the harness itself.
func (s *Sched) Yield() { s.yield() }

// Now is a logical clock: strictly increasing per call.
func (s *Sched) Now() int64 { s.seq++; return s.seq }

// -------------------------------------------------------------------- watchdog

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

//go:norace
func readProgress() int64 { return progress }

func (c *C) watch() {
	last, since, cpu := readProgress(), time.Now(), cpuTime()
	for {
		time.Sleep(500 * time.Millisecond)
		if p := readProgress(); p != last {
			last, since, cpu = p, time.Now(), cpuTime()
			continue
		}
		if time.Since(since) < 15*time.Second {
			continue
		}
		// Nothing has completed for a while. Two verdicts are possible, both
		// decided by what the goroutines are doing and not by the clock: all
		// of them blocked for good with one inside the code under test, or
		// one spinning inside the code under test for minutes of CPU time.
		a := stacks()
		time.Sleep(3 * time.Second)
		b := stacks()
		if readProgress() != last {
			continue
		}
		if d := deadlocked(a); d != "" && deadlocked(b) != "" {
			c.Violate("deadlock: every goroutine is blocked, at least one inside the code under test", map[string]any{"context": c.context, "goroutines": b})
		}
		if cpuTime()-cpu > 100*time.Second && spinning(a) && spinning(b) {
			c.Violate("no termination: a call has been executing for more than 100 s of processor time", map[string]any{"context": c.context, "goroutines": b})
		}
	}
}

func stacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

func gstate(g string) string {
	i, j := strings.Index(g, "["), strings.Index(g, "]")
	if i < 0 || j < i {
		return ""
	}
	st := g[i+1 : j]
	if k := strings.IndexAny(st, ",("); k >= 0 {
		st = st[:k]
	}
	return strings.TrimSpace(st)
}

var blockedStates = map[string]bool{"chan receive": true, "chan send": true, "select": true, "semacquire": true,
	"sync.Mutex.Lock": true, "sync.RWMutex.Lock": true, "sync.RWMutex.RLock": true, "sync.WaitGroup.Wait": true,
	"synctest.Run": true, "synctest.Wait": true,
	"sync.Cond.Wait": true, "select (no cases)": true, "chan receive (nil chan)": true, "chan send (nil chan)": true}

func deadlocked(dump string) string {
	found := ""
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "vk.(*C).watch") || strings.Contains(g, "os/signal.") || strings.Contains(g, "runtime/debug.") {
			continue
		}
		st := gstate(g)
		if st == "sleep" && strings.Contains(strings.SplitN(g, "\n", 2)[0], "synctest bubble") {
			// Virtual time stands still while the rest of the bubble is blocked.
			st = "synctest.Wait"
		}
		if !blockedStates[st] {
			return ""
		}
		if inTarget(g) {
			found = st
		}
	}
	return found
}

func spinning(dump string) bool {
	for _, g := range strings.Split(dump, "\n\n") {
		if strings.Contains(g, "vk.(*C).watch") {
			continue
		}
		if st := gstate(g); (st == "running" || st == "runnable") && inTarget(g) {
			return true
		}
	}
	return false
}

// -------------------------------------------------------------------- histories

// Step is one operation of a sequential history.
type Step struct {
	Op string `json:"op"`
	A  []int  `json:"a,omitempty"`
}

func S(op string, a ...int) Step { return Step{op, a} }

func HistString(h []Step) string {
	var b strings.Builder
	for i, s := range h {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString(s.Op)
		if len(s.A) > 0 {
			fmt.Fprint(&b, s.A)
		}
	}
	return b.String()
}

// History executes h against the real code and its model with exec; the first
// divergence is shrunk and reported.
func (c *C) History(name string, h []Step, exec func([]Step) error) {
	c.Eval(1)
	err := c.tryHist(h, exec)
	if err == nil {
		return
	}
	first := err
	// Shrink: drop chunks, then single steps, while it still fails.
	cur := h
	tries := 0
	for n := len(cur) / 2; n >= 1 && tries < 3000; {
		removed := false
		for i := 0; i+n <= len(cur) && tries < 3000; {
			cand := append(append([]Step{}, cur[:i]...), cur[i+n:]...)
			tries++
			if e := c.tryHist(cand, exec); e != nil {
				cur, err, removed = cand, e, true
			} else {
				i += n
			}
		}
		if !removed || n > len(cur) {
			n /= 2
		}
	}
	if e := c.tryHist(cur, exec); e != nil {
		err = e
	}
	d := map[string]any{"workload": name, "shrunk_history": HistString(cur), "observed": err.Error(), "original_length": len(h), "original_observed": first.Error()}
	if p, ok := err.(*Panic); ok {
		d["stack"] = p.Stack
	}
	if len(h) <= 200 {
		d["original_history"] = HistString(h)
	}
	c.Violate("history diverges from the model: "+name, d)
}

func (c *C) tryHist(h []Step, exec func([]Step) error) (err error) {
	Op()
	if e := Try(func() { err = exec(h) }); e != nil {
		if p, ok := e.(*Panic); ok && !inTarget(p.Stack) {
			panic(fmt.Sprintf("harness: %v\n%s", p.Value, p.Stack))
		}
		if stepLimit == 1<<62 {
			stepLimit = defaultLimit
		}
		return e
	}
	return err
}

var defaultLimit int64 = 1 << 62

// SetBound is Bound that also restores the limit between histories.
func SetBound(limit int64) { defaultLimit = limit; Bound(limit) }

// Words enumerates all words of length n over k letters.
func Words(k, n int, f func(w []int)) {
	w := make([]int, n)
	for {
		f(w)
		i := n - 1
		for ; i >= 0; i-- {
			w[i]++
			if w[i] < k {
				break
			}
			w[i] = 0
		}
		if i < 0 {
			return
		}
	}
}

// Keys returns the sorted keys of a map.
func Keys[V any](m map[int]V) []int {
	ks := make([]int, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Ints(ks)
	return ks
}

func Errf(f string, a ...any) error { return fmt.Errorf(f, a...) }
