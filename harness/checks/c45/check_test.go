// C45: every encryption and hash uses fresh randomness.
package c45

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"

	"verifharness/vk"
)

type source struct {
	name  string
	size  int
	quick int
	deep  int
	take  func(msg, key []byte) ([]byte, []byte, error) // random part, whole result
}

var bc64 = base64.NewEncoding("./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789").WithPadding(base64.NoPadding)

func head(n int, f func(a, b []byte) ([]byte, error)) func(a, b []byte) ([]byte, []byte, error) {
	return func(a, b []byte) ([]byte, []byte, error) {
		out, err := f(a, b)
		if err != nil || len(out) < n {
			return nil, nil, fmt.Errorf("%d bytes, %v", len(out), err)
		}
		return out[:n], out, nil
	}
}

func sources() []source {
	salt := func(l passhashx.SecurityLevel, text bool) func(a, b []byte) ([]byte, []byte, error) {
		return func(_, pw []byte) ([]byte, []byte, error) {
			var h []byte
			var err error
			if text {
				var s string
				s, err = passhashx.HashBase64(pw, l)
				if err == nil {
					h, err = base64.RawURLEncoding.DecodeString(s)
				}
			} else {
				h, err = passhashx.Hash(pw, l)
			}
			if err != nil || len(h) != 65 {
				return nil, nil, fmt.Errorf("%d bytes, %v", len(h), err)
			}
			return h[17:33], h, nil
		}
	}
	return []source{
		{"CBC", 16, 160000, 600000, head(16, aesx.EncryptCBC)},
		{"CTR", 16, 160000, 600000, head(16, aesx.EncryptCTR)},
		{"GCM", 12, 160000, 600000, head(12, aesx.EncryptGCM)},
		{"passhash high", 16, 8, 40, salt(passhashx.SecurityLevelHigh, false)},
		{"passhash low", 16, 32, 300, salt(passhashx.SecurityLevelLow, false)},
		{"passhash mobile high", 16, 24, 200, salt(passhashx.SecurityLevelMobileHigh, false)},
		{"passhash mobile low", 16, 48, 400, salt(passhashx.SecurityLevelMobileLow, false)},
		{"passhash base64", 16, 32, 300, salt(passhashx.SecurityLevelLow, true)},
		{"bcrypt", 16, 64, 600, func(_, pw []byte) ([]byte, []byte, error) {
			h, err := bcryptx.Encrypt(pw)
			if err != nil || len(h) != 60 {
				return nil, nil, fmt.Errorf("%d bytes, %v", len(h), err)
			}
			b, err := bc64.DecodeString(string(h[7:29]))
			return b, h, err
		}},
	}
}

var msg, key = bytes.Repeat([]byte("0123456789abcdef"), 2), []byte("the same key")

const grs = 8

func TestCheck(t *testing.T) {
	if n := os.Getenv("VK_CHILD"); n != "" {
		if os.Getenv("VK_FAULTS") != "" {
			faultChild()
			os.Exit(0)
		}
		child()
		os.Exit(0)
	}
	vk.Run(t, "A case is one encryption or hash of the same input under the same key; all are non-trivial; distinct by the random value observed. In the isolated phase two processes with a stopped clock and fixed general-purpose generators are compared.", func(c *vk.C) {
		if os.Getenv("VK_ISOLATED") != "" {
			isolated(c)
			return
		}
		if c.Phase == "inputs" {
			inputs(c)
			return
		}
		if c.Phase == "faults" {
			faults(c)
			return
		}
		raced := c.Phase == "race"
		for _, s := range sources() {
			n := c.N(s.quick, s.deep)
			if raced {
				n = min(2000, max(16, n/8))
				if strings.HasPrefix(s.name, "passhash") && s.name != "passhash low" {
					if !c.Thorough() && s.name != "passhash mobile low" {
						continue
					}
					n = 8
				}
			}
			// the same input from many goroutines; each keeps its own record
			per := make([][][2][]byte, grs)
			errs := make([]error, grs)
			var wg sync.WaitGroup
			for g := 0; g < grs; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					// private copies: the calls share nothing but the package
					m, k := bytes.Clone(msg), bytes.Clone(key)
					for i := 0; i < n/grs; i++ {
						iv, all, err := s.take(m, k)
						if err != nil {
							errs[g] = err
							return
						}
						per[g] = append(per[g], [2][]byte{iv, all})
						if i%64 == 0 {
							vk.Tick()
						}
					}
				}()
			}
			wg.Wait()
			seen, whole := map[string]int{}, map[uint64]bool{}
			words := map[uint64]int{}
			var vals [][]byte
			for g := range per {
				if errs[g] != nil {
					c.Violate(s.name+" fails", errs[g].Error())
				}
				var prev []byte
				for i, v := range per[g] {
					at := g*1000000 + i // goroutine and call
					if len(v[0]) != s.size {
						c.Violate(s.name+": the random part has the wrong length", fmt.Sprintf("%x", v[1]))
					}
					if o, ok := seen[string(v[0])]; ok {
						c.Violate(s.name+": a random value repeats", map[string]any{"value": fmt.Sprintf("%x", v[0]), "first": o, "again": at})
					}
					if whole[vk.HashS(string(v[1]))] {
						c.Violate(s.name+": equal inputs give equal results", map[string]any{"at": at})
					}
					seen[string(v[0])], whole[vk.HashS(string(v[1]))] = at, true
					vals = append(vals, v[0])
					c.Distinct(vk.HashS(s.name + string(v[0])))
					if prev != nil {
						// arithmetic progressions
						w := be(v[0][:8]) - be(prev[:8])
						words[w]++
						if words[w] > 2 {
							c.Violate(s.name+": consecutive random values differ by a constant", map[string]any{"difference": w, "at": at})
						}
					}
					prev = v[0]
				}
			}
			c.Eval(len(vals))
			c.Count(s.name, len(vals))
			stats(c, s, vals)
			// Early, middle and late ones for themselves.
			if k := len(vals) / grs / 8; k*grs >= 10000 {
				for w := 0; w < 8; w++ {
					var part [][]byte
					for g := range per {
						for _, v := range per[g][w*k : (w+1)*k] {
							part = append(part, v[0])
						}
					}
					stats(c, s, part)
				}
			}
		}
		c.Sample(map[string]any{"note": "see coverage counts: values per source and the extreme bit frequencies in per mille"})
	})
}

// inputs repeats calls with inputs of many lengths and kinds.
func inputs(c *vk.C) {
	type in struct {
		name     string
		msg, key []byte
	}
	r := c.Rand("inputs")
	kinds := []func(n int) []byte{
		func(n int) []byte { return make([]byte, n) },
		func(n int) []byte { return bytes.Repeat([]byte("x"), n) },
		func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.IntN(256))
			}
			return b
		},
		func(n int) []byte { return []byte(strings.Repeat("Pässword 1\n", n/12+1))[:n] },
	}
	kind := 0
	some := func(n int) []byte {
		kind++
		return kinds[kind%len(kinds)](n)
	}
	seen := map[string]string{}
	var mu sync.Mutex
	try := func(s source, calls int, i in) {
		if t := strings.HasPrefix(s.name, "CBC"); t {
			i.msg = i.msg[:len(i.msg)/16*16]
		}
		name := fmt.Sprintf("%s: %d bytes %.8q, key or password of %d bytes %.8q", s.name, len(i.msg), i.msg, len(i.key), i.key)
		c.Context("%s", name)
		var vals [][]byte
		whole := map[string]bool{}
		for k := 0; k < calls; k++ {
			iv, all, err := s.take(bytes.Clone(i.msg), bytes.Clone(i.key))
			if err != nil {
				c.Violate(s.name+" fails", map[string]any{"input": name, "observed": err.Error()})
			}
			mu.Lock()
			if o, ok := seen[s.name+string(iv)]; ok {
				c.Violate(s.name+": a random value repeats", map[string]any{"value": fmt.Sprintf("%x", iv), "first": o, "again": name})
			}
			seen[s.name+string(iv)] = name
			mu.Unlock()
			if len(all) > 4096 {
				all = all[:4096]
			}
			if whole[string(all)] {
				c.Violate(s.name+": equal inputs give equal results", name)
			}
			whole[string(all)] = true
			vals = append(vals, iv)
			c.Distinct(vk.HashS(s.name + string(iv)))
			vk.Tick()
		}
		c.Eval(calls)
		c.Count("inputs for "+s.name, 1)
		for p := 0; p < s.size; p++ {
			same := true
			for _, v := range vals {
				same = same && v[p] == vals[0][p]
			}
			if same {
				c.Violate(s.name+": a byte of the random part is constant for an input", map[string]any{"position": p, "input": name, "calls": calls, "value": fmt.Sprintf("%x", vals[0])})
			}
		}
	}
	lens := []int{0, 1, 2, 7, 8, 12, 15, 16, 17, 24, 31, 32, 33, 48, 63, 64, 65, 71, 72, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 1 << 18, 1 << 20, 1<<20 + 1, 5 << 20, c.N(1<<24, 1<<27)}
	for _, s := range sources() {
		switch {
		case s.size == 12 || len(s.name) == 3: // the three modes
			for _, n := range lens {
				for rep := 0; rep < 3; rep++ {
					try(s, 10, in{msg: some(n), key: key})
					if n > 1<<20 {
						break
					}
				}
				if n <= 1<<20+1 {
					try(s, 10, in{msg: msg, key: some(n)})
				}
				if n < 10000 {
					m := some(n)
					try(s, 10, in{msg: m, key: m})
				}
			}
			try(s, 10, in{msg: nil, key: nil})
			try(s, 10, in{msg: []byte{}, key: []byte{}})
		case s.name == "bcrypt":
			for _, n := range []int{0, 1, 8, 16, 40, 56, 64, 71, 72} {
				try(s, c.N(7, 20), in{key: some(n)})
			}
		default:
			calls, ls := c.N(5, 12), lens
			if !c.Thorough() {
				switch s.name {
				case "passhash mobile low":
					ls = []int{0, 1, 8, 16, 32, 33, 64, 65, 100, 129, 256, 257, 1000, 4096, 65536}
				case "passhash low", "passhash mobile high":
					ls = []int{7, 65, 1000}
				case "passhash base64":
					ls = []int{0, 200}
				default:
					ls = []int{100}
				}
			}
			for _, n := range ls {
				if n <= 1<<20 {
					try(s, calls, in{key: some(n)})
				}
			}
		}
	}
}

func be(b []byte) (w uint64) {
	for _, x := range b {
		w = w<<8 | uint64(x)
	}
	return
}

// stats watches every byte and bit position over all values.
func stats(c *vk.C, s source, vals [][]byte) {
	n := len(vals)
	for p := 0; p < s.size; p++ {
		seen := map[byte]int{}
		for _, v := range vals {
			seen[v[p]]++
		}
		// n uniform draws leave 2^-8n chance of a constant position.
		if n >= 8 && len(seen) < 2 || n >= 40 && len(seen) < 12 || n >= 1000 && len(seen) < 128 {
			c.Violate(s.name+": a byte of the random part is (nearly) constant", map[string]any{"position": p, "values_seen": len(seen), "calls": n})
		}
		if n < 1000 {
			continue
		}
		// 14 standard deviations at n = 16000, 6 at n = 2000
		lim := 0.05
		if n < 10000 {
			lim = 0.12
		}
		for b := 0; b < 8; b++ {
			ones := 0
			for _, v := range vals {
				ones += int(v[p] >> b & 1)
			}
			f := float64(ones) / float64(n)
			c.Max("largest deviation of a bit frequency from 1/2, per mille", int(1000*max(f-0.5, 0.5-f)))
			if f < 0.5-lim || f > 0.5+lim {
				c.Violate(s.name+": a bit of the random part is biased", map[string]any{"byte": p, "bit": b, "frequency": f, "calls": n})
			}
		}
		for q := p + 1; q < s.size; q++ {
			eq := 0
			for _, v := range vals {
				if v[p] == v[q] {
					eq++
				}
			}
			if float64(eq) > 0.05*float64(n) {
				c.Violate(s.name+": two bytes of the random part agree too often", map[string]any{"positions": []int{p, q}, "agreements": eq, "calls": n})
			}
		}
	}
}

func childCalls(name string) int {
	if len(name) == 3 {
		return 200
	}
	if strings.HasPrefix(name, "passhash high") {
		return 1
	}
	return 2
}

// child prints random values; its clock and its general-purpose generators are fixed.
func child() {
	a := time.Now()
	b := time.Now()
	fmt.Println("clock", a.UnixNano(), b.UnixNano(), b.Sub(a))
	fmt.Println("math", fixedValues())
	for _, s := range sources() {
		for i := 0; i < childCalls(s.name); i++ {
			iv, _, err := s.take(bytes.Clone(msg), bytes.Clone(key))
			if err != nil {
				fmt.Println("error", s.name, err)
				os.Exit(1)
			}
			fmt.Println("value", strings.ReplaceAll(s.name, " ", "-"), hex.EncodeToString(iv))
		}
	}
}

func isolated(c *vk.C) {
	seen := map[string]int{}
	var clock, math string
	n := c.N(3, 12)
	outs, errs := make([][]byte, n), make([]error, n)
	var wg sync.WaitGroup
	for run := 0; run < n; run++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-test.run=^TestCheck$")
			cmd.Env = append(os.Environ(), "VK_CHILD=1", "ZZFREEZE=1", "GODEBUG=randautoseed=0")
			outs[run], errs[run] = cmd.CombinedOutput()
			vk.Tick()
		}()
	}
	wg.Wait()
	for run := 0; run < n; run++ {
		out, err := outs[run], errs[run]
		if err != nil {
			if strings.Contains(string(out), "error ") || strings.Contains(string(out), "cryptox/") {
				c.Violate("a process with a stopped clock fails", string(out))
			}
			panic(fmt.Sprint(err, string(out)))
		}
		for _, l := range strings.Split(string(out), "\n") {
			f := strings.Fields(l)
			switch {
			case len(f) == 0:
			case f[0] == "clock":
				if clock != "" && l != clock {
					panic("the clock of the child is not stopped: " + l + " " + clock)
				}
				clock = l
			case f[0] == "math":
				if math != "" && l != math {
					panic("the generators of the child are not fixed: " + l + " " + math)
				}
				math = l
			case f[0] == "value":
				c.Eval(1)
				c.Count("values", 1)
				c.Distinct(vk.HashS(l))
				if o, ok := seen[l]; ok {
					c.Violate(f[1]+": a random value is repeated by another process in the same circumstances", map[string]any{"value": f[2], "first_run": o, "again_in_run": run})
				}
				seen[l] = run
			}
		}
		c.Count("processes", 1)
	}
	c.Sample(map[string]string{"clock": clock, "general_purpose_generators": math})
}
