package c45

import (
	"bytes"
	crand "crypto/rand"
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand/v2"
	"os"
	"os/exec"
	"strings"
	"sync"

	"verifharness/vk"
)

// faulty is a source of randomness that hands out at most most bytes a call
// and limit in all, and fails from then on (or just once).
type faulty struct {
	r           *rand.Rand
	most, limit int
	once        bool
	mu          sync.Mutex
	calls       int
	given       int
	failed      int
}

var errSource = errors.New("no randomness left")

func (f *faulty) Read(b []byte) (int, error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.calls++
	if f.once && f.failed > 0 {
		f.limit = 1 << 30
	}
	n := min(len(b), f.most, f.limit-f.given)
	for i := range b[:n] {
		b[i] = byte(1 + f.r.IntN(255)) // never 0
	}
	f.given += n
	if n < min(len(b), f.most) {
		f.failed++
		return n, errSource
	}
	return n, nil
}

type mode struct {
	name        string
	most, limit int
	once        bool
}

func modes() (out []mode) {
	for _, k := range []int{0, 1, 8, 11} {
		out = append(out, mode{fmt.Sprint("fails after ", k, " bytes"), 1 << 30, k, false})
	}
	out = append(out, mode{"fails after 7 bytes, one at a time", 1, 7, false}, mode{"fails once", 1 << 30, 3, true})
	for _, k := range []int{1, 5} {
		out = append(out, mode{fmt.Sprint("hands out ", k, " at a time"), k, 1 << 30, false})
	}
	return
}

// faultChild runs one source of values while the machine's randomness is bad.
func faultChild() {
	var k, m int
	fmt.Sscan(os.Getenv("VK_CHILD"), &k, &m)
	s, md := sources()[k], modes()[m]
	n := 6
	if len(s.name) == 3 {
		n = 30
	}
	for i := 0; i < n; i++ {
		src := &faulty{r: rand.New(rand.NewPCG(uint64(i), 9)), most: md.most, limit: md.limit, once: md.once}
		crand.Reader = src
		iv, err := func() (iv []byte, err error) {
			defer func() {
				if x := recover(); x != nil {
					err = fmt.Errorf("panic: %v", x) // no success either
				}
			}()
			iv, _, err = s.take(bytes.Clone(msg), bytes.Clone(key))
			return
		}()
		what := "refused"
		if err == nil {
			what = "value " + hex.EncodeToString(iv)
		} else if !errors.Is(err, errSource) && strings.HasPrefix(err.Error(), "0 bytes, <nil>") {
			what = "nothing" // no result and no error
		}
		fmt.Println("did", src.calls, src.given, src.failed, what)
	}
	fmt.Println("end")
}

func faults(c *vk.C) {
	ss, ms := sources(), modes()
	type job struct{ k, m int }
	jobs := make(chan job)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jobs {
				cmd := exec.Command(os.Args[0], "-test.run=^TestCheck$")
				cmd.Env = append(os.Environ(), fmt.Sprintf("VK_CHILD=%d %d", j.k, j.m), "VK_FAULTS=1")
				out, err := cmd.CombinedOutput()
				vk.Tick()
				judgeFaults(c, ss[j.k], ms[j.m], string(out), err)
			}
		}()
	}
	for k, s := range ss {
		for m := range ms {
			if strings.HasSuffix(s.name, "high") {
				continue // the same code, only slower
			}
			jobs <- job{k, m}
		}
	}
	close(jobs)
	wg.Wait()
}

func judgeFaults(c *vk.C, s source, md mode, out string, err error) {
	var vals [][]byte
	bad := func(what string, line string) {
		c.Violate(s.name+": "+what, map[string]any{"source of randomness": md.name, "observed": line, "format": "reads of the source, bytes it handed out, failures, result"})
	}
	for _, l := range strings.Split(out, "\n") {
		var calls, given, failed int
		var what, val string
		n, _ := fmt.Sscan(l, new(string), &calls, &given, &failed, &what, &val)
		if !strings.HasPrefix(l, "did ") || n < 5 {
			continue
		}
		c.Eval(1)
		c.Distinct(vk.HashS(s.name + md.name + l))
		switch {
		case what == "nothing" && failed > 0:
			bad("a call that got no randomness neither fails nor has a result", l)
		case what == "value" && calls > 0:
			if failed > 0 && !md.once && given < s.size {
				bad("a call succeeds although the source of randomness failed", l)
			}
			v, _ := hex.DecodeString(val)
			vals = append(vals, v)
			c.Count("successes_with_a_slow_or_failing_source", 1)
		case what == "refused":
			c.Count("refused_without_randomness", 1)
		}
	}
	if err != nil {
		if !strings.Contains(out, "crypto/rand: failed to read random data") {
			panic(fmt.Sprint(s.name, md.name, err, out))
		}
		c.Count("ended_by_the_runtime_without_randomness", 1)
	} else if !strings.Contains(out, "end\n") {
		panic("a child ended early: " + out)
	}
	if len(vals) < 4 {
		return
	}
	for p := 0; p < s.size; p++ {
		same := true
		for _, v := range vals {
			same = same && v[p] == vals[0][p]
		}
		if same {
			bad("a part of the random value does not come from the source", fmt.Sprintf("byte %d is %#x in all of %d values", p, vals[0][p], len(vals)))
		}
	}
}
