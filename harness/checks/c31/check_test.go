// C31: shutdown signals. Every scenario runs in a child process of its own
// that sends itself the signals and watches handlers and channels.
package c31

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand/v2"
	"os"
	"os/exec"
	"os/signal"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/osx/closex"

	"verifharness/vk"
)

type scenario struct {
	Regs      int   // registrations
	Gate      bool  // handlers wait until told to go on
	Own       bool  // the child watches the shutdown signals itself as well
	Senders   int   // goroutines that send the first signals
	Others    []int // signals that must not trigger anything
	First     []int
	During    []int // while the handlers wait
	After     []int // when everything is over
	LateReg   bool  // one more registration while the handlers wait
	Immediate bool
	Burst     int // rounds of all other signals at once right before the first one
}

func (s scenario) String() string { b, _ := json.Marshal(s); return string(b) }

var kill = []syscall.Signal{syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM}
var other = []syscall.Signal{syscall.SIGHUP, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGWINCH, syscall.SIGCHLD, syscall.SIGCONT, syscall.SIGALRM, syscall.SIGIO}

func send(s syscall.Signal) { syscall.Kill(syscall.Getpid(), s) }

func bad(f string, a ...any) {
	fmt.Printf("BAD %s\n", fmt.Sprintf(f, a...))
	buf := make([]byte, 1<<20)
	fmt.Printf("%s\n", buf[:runtime.Stack(buf, true)])
	os.Exit(7)
}

// atRest reports whether all goroutines but the caller are blocked.
func atRest() bool {
	buf := make([]byte, 1<<20)
	for i, g := range strings.Split(string(buf[:runtime.Stack(buf, true)]), "\n\n") {
		if i == 0 {
			continue
		}
		h := strings.SplitN(g, "\n", 2)[0]
		if strings.Contains(h, "[running") || strings.Contains(h, "[runnable") || strings.Contains(h, "[sleep") {
			return false
		}
		if strings.Contains(h, "[syscall") && !strings.Contains(g, "os/signal") {
			return false
		}
	}
	return true
}

// await waits for done. When sure is given (the signal has arrived) and
// nothing can run any more although done does not hold, that is a violation.
func await(done func() bool, sure bool, what string, a ...any) bool {
	quiet := 0
	for i := 0; ; i++ {
		if done() {
			return true
		}
		time.Sleep(time.Duration(min(i, 20)) * time.Millisecond / 4)
		if i < 20 {
			continue
		}
		if atRest() && !done() {
			quiet++
		} else {
			quiet = 0
		}
		// kill(2) has returned long ago, and for a second (or, when nobody
		// has seen the signal arrive, for five) no goroutine had anything to do
		if sure && quiet > 200 || quiet > 1000 {
			bad(what, a...)
		}
		// This goroutine has been scheduled thousands of times since the signal
		// was seen to arrive: whoever had it to deal with has been, too. (What
		// wakes up on every signal is never found at rest, as taking the stacks
		// raises some.)
		if sure && i > 2500 {
			bad(what, a...)
		}
		if i > 4000 {
			fmt.Println("UNSURE")
			os.Exit(0)
		}
	}
}

func child(s scenario) {
	elsewhere := make(chan os.Signal, 1000)
	signal.Notify(elsewhere, syscall.SIGHUP, syscall.SIGUSR1, syscall.SIGUSR2, syscall.SIGALRM, syscall.SIGIO)
	own := make(chan os.Signal, 1000)
	if s.Own {
		signal.Notify(own, syscall.SIGINT, syscall.SIGQUIT, syscall.SIGTERM)
	}
	gate := make(chan struct{})
	var logged atomic.Int64
	logger := log.New(writer{&logged}, "", 0)
	type reg struct {
		begun, ended atomic.Int32
		c            chan struct{}
	}
	var regs []*reg
	add := func() {
		r := &reg{}
		ready := make(chan struct{})
		x := closex.HandleKillSig(func() {
			r.begun.Add(1)
			if s.Gate {
				<-gate
			}
			<-ready
			select {
			case <-r.c:
				bad("the channel is closed while the handler is still running")
			default:
			}
			runtime.Gosched()
			r.ended.Add(1)
		}, logger)
		r.c = x.C
		close(ready)
		regs = append(regs, r)
	}
	for i := 0; i < s.Regs; i++ {
		add()
	}
	closed := func(r *reg) bool {
		select {
		case <-r.c:
			return true
		default:
			return false
		}
	}
	none := func(when string) {
		for i, r := range regs {
			if r.begun.Load() != 0 {
				bad("%s: handler %d has run without a shutdown signal", when, i)
			}
			if closed(r) {
				bad("%s: channel %d is closed without a shutdown signal", when, i)
			}
		}
	}
	if len(s.Others) > 0 {
		for _, i := range s.Others {
			send(other[i])
		}
		for i := 0; i < 5; i++ {
			time.Sleep(time.Millisecond)
			none("after other signals")
		}
	}
	if len(s.First) == 0 {
		for i := 0; i < 10; i++ {
			time.Sleep(time.Millisecond)
			none("without any signal")
		}
		fmt.Println("DONE 0")
		return
	}
	if !s.Immediate {
		none("before the signal")
	}
	var wg sync.WaitGroup
	for g := 0; g < s.Senders; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < s.Burst; i++ {
				for k := range other {
					send(other[(k+i+g)%len(other)])
				}
			}
			for i, x := range s.First {
				if i%s.Senders == g {
					send(kill[x])
				}
			}
		}()
	}
	wg.Wait()
	arrived := func() bool { // given to every registered channel at the same time
		if !s.Own {
			return false
		}
		select {
		case <-own:
			return true
		case <-time.After(2 * time.Second):
			return false // somebody took the signals away from this channel
		}
	}
	sure := arrived()
	check := func(when string) {
		for i, r := range regs {
			if n := r.begun.Load(); n > 1 {
				bad("%s: handler %d has been called %d times", when, i, n)
			}
			if closed(r) && r.ended.Load() == 0 {
				bad("%s: channel %d is closed but its handler has not finished", when, i)
			}
		}
	}
	for i, r := range regs {
		await(func() bool { check("after the signal"); return r.begun.Load() == 1 }, sure, "handler %d does not run although the signal has arrived", i)
	}
	if s.Gate {
		for _, x := range s.During {
			send(kill[x])
			check("while the handlers run")
		}
		time.Sleep(2 * time.Millisecond)
		check("while the handlers run")
		if s.LateReg {
			add()
			for len(own) > 0 {
				<-own
			}
			send(syscall.SIGTERM)
			sure := arrived()
			last := regs[len(regs)-1]
			await(func() bool { check("late registration"); return last.begun.Load() == 1 }, sure, "a handler registered after the first signal does not run on the next one")
		}
		close(gate)
	}
	for i, r := range regs {
		await(func() bool { check("when the handlers end"); return closed(r) }, true, "channel %d is not closed although its handler has finished", i)
	}
	for _, x := range s.After {
		send(kill[x])
	}
	for i := 0; i < 4; i++ {
		time.Sleep(time.Millisecond)
		check("at the end")
	}
	for i, r := range regs {
		if r.begun.Load() != 1 || r.ended.Load() != 1 {
			bad("handler %d was called %d times and finished %d times", i, r.begun.Load(), r.ended.Load())
		}
	}
	fmt.Printf("DONE %d\n", len(regs))
}

type writer struct{ n *atomic.Int64 }

func (w writer) Write(b []byte) (int, error) { w.n.Add(1); return len(b), nil }

func pick(r *rand.Rand, k, lo, hi int) []int {
	var out []int
	for n := lo + r.IntN(hi-lo+1); n > 0; n-- {
		out = append(out, r.IntN(k))
	}
	return out
}

func TestCheck(t *testing.T) {
	if x := os.Getenv("VK_CHILD"); x != "" {
		var s scenario
		json.Unmarshal([]byte(x), &s)
		child(s)
		os.Exit(0)
	}
	vk.Run(t, "A case is one child process with registrations and a sequence of signals; non-trivial when a signal was sent; distinct by scenario.", func(c *vk.C) {
		r := c.Rand("signals")
		var list []scenario
		for a := 0; a < 3; a++ { // every signal alone and every pair
			list = append(list, scenario{Regs: 1, Own: true, Senders: 1, First: []int{a}})
			for b := 0; b < 3; b++ {
				list = append(list, scenario{Regs: 1, Own: true, Gate: true, Senders: 1, First: []int{a}, During: []int{b}, After: []int{a, b}},
					scenario{Regs: 1, Senders: 2, First: []int{a, b}, After: []int{b}})
			}
		}
		for i := range other {
			list = append(list, scenario{Regs: 1, Others: []int{i}}, scenario{Regs: 2, Own: true, Others: []int{i, i}, Senders: 1, First: pick(r, 3, 1, 2)})
		}
		for i := 0; i < 12; i++ {
			list = append(list, scenario{Regs: 1 + i%3, Own: true, Senders: 1, First: []int{i % 3}, Burst: 1 << (i % 6), Immediate: i%2 == 0})
		}
		for i := 0; i < c.N(400, 8000); i++ {
			s := scenario{Regs: 1 + r.IntN(4), Gate: r.IntN(2) == 0, Own: r.IntN(4) > 0, Senders: 1 + r.IntN(4), First: pick(r, 3, 1, 8), During: pick(r, 3, 0, 6), After: pick(r, 3, 0, 6), LateReg: r.IntN(3) == 0, Immediate: r.IntN(2) == 0}
			if r.IntN(3) == 0 {
				s.Others = pick(r, len(other), 1, 5)
			}
			if r.IntN(10) == 0 {
				s.First = nil
			} else if r.IntN(4) == 0 {
				s.Burst = 1 << r.IntN(6)
			}
			list = append(list, s)
		}
		for _, n := range []int{9, 20, 40, 70, 130, 260, 300} { // many registrations, many signals
			list = append(list, scenario{Regs: n, Own: true, Senders: 1, First: []int{n % 3}},
				scenario{Regs: n, Own: true, Gate: true, Senders: 4, First: pick(r, 3, 8, 8), During: pick(r, 3, 3, 9), After: pick(r, 3, 5, 40), LateReg: true, Immediate: true},
				scenario{Regs: 1, Own: true, Gate: n%4 == 0, Senders: 1, Others: pick(r, len(other), n, n), First: pick(r, 3, n, n), During: pick(r, 3, n, n), After: pick(r, 3, n, n)})
		}
		exe, err := os.Executable()
		if err != nil {
			panic(err)
		}
		next := make(chan scenario)
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for s := range next {
					one(c, exe, s)
				}
			}()
		}
		for _, s := range list {
			next <- s
		}
		close(next)
		wg.Wait()
	})
}

func one(c *vk.C, exe string, s scenario) {
	cmd := exec.Command(exe, "-test.run=^TestCheck$", "-test.timeout=0")
	cmd.Env = append(os.Environ(), "VK_CHILD="+s.String(), "GOTRACEBACK=all")
	var out, errs bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errs
	cmd.Stdin = nil
	err := cmd.Run()
	_, _ = io.Discard, err
	c.Eval(1)
	c.Count("signals_sent", len(s.First)+len(s.During)+len(s.After)+len(s.Others)+s.Senders*s.Burst*len(other))
	if len(s.First) > 0 {
		c.Distinct(vk.HashS(s.String()))
		if len(s.During) > 2 {
			c.Sample(s)
		}
	}
	o := out.String()
	detail := map[string]any{"scenario": s, "output": o, "stderr": errs.String()}
	switch {
	case strings.Contains(o, "BAD "):
		c.Violate(strings.SplitN(o[strings.Index(o, "BAD ")+4:], "\n", 2)[0], detail)
	case strings.Contains(errs.String(), "WARNING: DATA RACE") && strings.Contains(errs.String(), "utilx/osx/closex"):
		c.Violate("data race in the code under test", detail)
	case strings.Contains(errs.String(), "panic: ") || strings.Contains(errs.String(), "fatal error: "):
		c.Violate("the process panicked", detail)
	case strings.Contains(o, "UNSURE"):
		c.Count("children_without_verdict", 1)
	case strings.Contains(o, "DONE"):
		c.Count("children_judged", 1)
	default:
		if ws, ok := cmd.ProcessState.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
			for _, k := range kill {
				if ws.Signal() == k {
					c.Violate(fmt.Sprintf("the process was killed by %v although a handler is registered", k), detail)
				}
			}
		}
		if strings.Contains(errs.String(), "SIGQUIT: quit") {
			c.Violate("the process was ended by SIGQUIT although a handler is registered", detail)
		}
		panic(fmt.Sprintf("child ended with %v\n%s\n%s", err, o, errs.String()))
	}
}
