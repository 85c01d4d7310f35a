// C48: stored password hashes stay verifiable and as strong as their level says.
package c48

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"math/bits"
	"math/rand/v2"
	"runtime"
	"sync"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"golang.org/x/crypto/argon2"

	"verifharness/cry"
	"verifharness/golden"
	"verifharness/vk"
)

var names = map[int]string{1: "high", 2: "low", 3: "mobile high", 4: "mobile low"}
var levels = map[int]passhashx.SecurityLevel{1: passhashx.SecurityLevelHigh, 2: passhashx.SecurityLevelLow, 3: passhashx.SecurityLevelMobileHigh, 4: passhashx.SecurityLevelMobileLow}

func random(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Uint32())
	}
	return b
}

func password(r *rand.Rand, k int) []byte {
	switch k % 6 {
	case 0:
		return []byte("correct horse battery staple")
	case 1:
		return nil
	case 2:
		return random(r, 1+r.IntN(10))
	case 3:
		return random(r, 60+r.IntN(140))
	case 4:
		return []byte("비밀번호 " + fmt.Sprint(r.IntN(1000)))
	}
	return random(r, 1000+r.IntN(4000))
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one stored hash compared with another implementation or an earlier version, in one direction; all are non-trivial; distinct by level, password, salt and direction.", func(c *vk.C) {
		library := func(l int, pw, salt []byte) []byte {
			p := cry.Levels[l]
			return argon2.IDKey(pw, salt, p[0], p[1], uint8(p[2]), 32)
		}
		own := func(l int, pw, salt []byte) []byte {
			p := cry.Levels[l]
			return cry.Argon2id(pw, salt, p[0], p[1], p[2], 32)
		}
		note := func(kind string, l int, pw, st []byte) {
			c.Eval(1)
			c.Count(kind+", "+names[l], 1)
			c.Distinct(vk.HashS(fmt.Sprintf("%s|%d|%x|%x", kind, l, pw, st)))
		}
		verifies := func(kind string, l int, pw, st []byte) {
			var e1, e2 error
			p := vk.Try(func() {
				e1 = passhashx.Verify(pw, st)
				e2 = passhashx.VerifyBase64(pw, base64.RawURLEncoding.EncodeToString(st))
			})
			note(kind, l, pw, st)
			if p != nil || e1 != nil || e2 != nil {
				c.Violate(kind+" does not verify", map[string]any{"level": names[l], "password": fmt.Sprintf("%x", pw), "stored": fmt.Sprintf("%x", st), "verify": fmt.Sprint(e1), "verify_base64": fmt.Sprint(e2), "panic": fmt.Sprint(p)})
			}
		}
		// produced takes a fresh hash apart and recomputes it.
		produced := func(l int, pw []byte, text bool, by string, f func(int, []byte, []byte) []byte) {
			var st []byte
			var err error
			if text {
				var s string
				s, err = passhashx.HashBase64(pw, levels[l])
				if err == nil {
					if st, err = base64.RawURLEncoding.DecodeString(s); err != nil {
						c.Violate("the text form is not unpadded URL-safe base64", map[string]any{"text": s, "error": err.Error()})
					}
				}
			} else {
				st, err = passhashx.Hash(pw, levels[l])
			}
			note("fresh hash, recomputed by "+by, l, pw, st)
			if err != nil {
				c.Violate("hashing fails", map[string]any{"level": names[l], "error": err.Error()})
			}
			want := cry.PassHash(l, make([]byte, 16), make([]byte, 32))
			if len(st) != 65 || !bytes.Equal(st[:17], want[:17]) {
				c.Violate("the layout of a stored hash changed", map[string]any{"level": names[l], "stored": fmt.Sprintf("%x", st), "expected_start": fmt.Sprintf("%x", want[:17])})
			}
			if h := f(l, pw, st[17:33]); !bytes.Equal(h, st[33:]) {
				c.Violate("a fresh hash is not the Argon2id hash of its level's parameters", map[string]any{"level": names[l], "parameters": cry.Levels[l], "password": fmt.Sprintf("%x", pw), "stored": fmt.Sprintf("%x", st), "recomputed": fmt.Sprintf("%x", h), "by": by})
			}
		}
		if c.Phase == "machines" {
			// The result must not depend on the machine: this phase runs with
			// one processor, and with fewer or more than a level has lanes.
			for _, procs := range []int{1, 2, 3, 16}[:bits.UintSize/16] {
				runtime.GOMAXPROCS(procs)
				c.Max("processors_of_the_phase", runtime.NumCPU())
				for l := 1; l <= 4; l++ {
					r := c.Rand("machines", l, procs)
					pw := password(r, r.IntN(6))
					produced(l, pw, procs%2 == 1, fmt.Sprintf("the library's Argon2id, with %d processors", procs), library)
					salt := random(r, 16)
					verifies(fmt.Sprintf("hash computed elsewhere, with %d processors", procs), l, pw, cry.PassHash(l, salt, library(l, pw, salt)))
				}
			}
			return
		}
		if c.Phase == "bursts" {
			// Many hashes at once, and one after another until the process
			// has made hundreds of them: none may be weaker than the others.
			for b, n := range []int{40, 9, 40, 20, 60, c.N(100, 4000)} {
				var start, wg sync.WaitGroup
				start.Add(1)
				type made struct {
					l  int
					pw []byte
					st []byte
				}
				hashes := make([]made, n)
				width := n
				if b == 5 {
					width = 8
				}
				for g := 0; g < width; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						r := c.Rand("bursts", b, g)
						start.Wait()
						for i := g; i < n; i += width {
							l, pw := 2+r.IntN(3), password(r, r.IntN(6))
							switch {
							case b < 3: // one of the cheap levels
								l = []int{4, 1, 2}[b]
							case b == 3:
								l = 3
							case b == 5 && i%130 == 12:
								l = 1
							}
							st, err := passhashx.Hash(pw, levels[l])
							if err != nil {
								c.Violate("hashing fails", map[string]any{"level": names[l], "error": err.Error(), "at_once": width})
							}
							hashes[i] = made{l, pw, st}
							vk.Tick()
						}
					}()
				}
				start.Done()
				wg.Wait()
				c.Max("hashes_made_at_once", width)
				ch := make(chan made, n)
				for _, m := range hashes {
					ch <- m
				}
				close(ch)
				for g := 0; g < 8; g++ {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for m := range ch {
							note("hash made with others at once, recomputed", m.l, m.pw, m.st)
							if len(m.st) != 65 || !bytes.Equal(library(m.l, m.pw, m.st[17:33]), m.st[33:]) {
								c.Violate("a fresh hash is not the Argon2id hash of its level's parameters", map[string]any{"level": names[m.l], "parameters": cry.Levels[m.l], "password": fmt.Sprintf("%x", m.pw), "stored": fmt.Sprintf("%x", m.st), "made_at_once": width})
							}
							vk.Tick()
						}
					}()
				}
				wg.Wait()
				if b == 2 {
					// Verifications at once.
					for _, m := range hashes {
						wg.Add(1)
						go func() {
							defer wg.Done()
							verifies("hash made and verified with others at once", m.l, m.pw, m.st)
						}()
					}
					wg.Wait()
				}
			}
			return
		}
		// The independent implementation has to agree with what the first
		// version of the code stored, else it is wrong and not the code.
		gold := golden.Load("passhash", "passhash64")
		trusted := map[int]bool{}
		var jobs []func()
		var mu sync.Mutex
		for l := 1; l <= 4; l++ {
			jobs = append(jobs, func() {
				for _, v := range gold {
					if v.Level == l && (!trusted[l] || c.Thorough()) {
						if h := own(l, v.Key, v.Data[17:33]); !bytes.Equal(h, v.Data[33:]) {
							panic(fmt.Sprintf("the harness's Argon2id disagrees with stored data at level %d", l))
						}
						mu.Lock()
						trusted[l] = true
						mu.Unlock()
					}
				}
				if !trusted[l] {
					panic("no vector for the level")
				}
				r := c.Rand("own", l)
				for k := 0; k < c.N(1, 8); k++ {
					pw := password(r, r.IntN(6))
					produced(l, pw, k%2 == 1, "the harness's Argon2id", own)
					salt := random(r, 16)
					verifies("hash computed by the harness's Argon2id", l, pw, cry.PassHash(l, salt, own(l, pw, salt)))
				}
			})
		}
		for _, v := range gold {
			jobs = append(jobs, func() {
				verifies("hash of an earlier version", v.Level, v.Key, v.Data)
				if v.Text != "" {
					var err error
					p := vk.Try(func() { err = passhashx.VerifyBase64(v.Key, v.Text) })
					note("text hash of an earlier version", v.Level, v.Key, v.Data)
					if p != nil || err != nil {
						c.Violate("a text hash of an earlier version does not verify", map[string]any{"text": v.Text, "error": fmt.Sprint(err), "panic": fmt.Sprint(p)})
					}
				}
				if v.Level == 2 || c.Thorough() {
					if err := passhashx.Verify(append(bytes.Clone(v.Key), 'x'), v.Data); err == nil {
						c.Violate("a hash of an earlier version verifies with another password", fmt.Sprintf("%x", v.Key))
					}
					note("hash of an earlier version, other password", v.Level, v.Key, v.Data)
				}
			})
		}
		for l := 1; l <= 4; l++ {
			for k := 0; k < c.N(map[int]int{1: 3, 2: 12, 3: 6, 4: 12}[l], 60); k++ {
				jobs = append(jobs, func() {
					r := c.Rand("library", l, k)
					pw := password(r, k)
					produced(l, pw, k%2 == 1, "the library's Argon2id", library)
					salt := random(r, 16)
					switch k % 5 {
					case 3:
						salt = make([]byte, 16)
					case 4:
						salt = bytes.Repeat([]byte{255}, 16)
					}
					verifies("hash computed by the library's Argon2id", l, pw, cry.PassHash(l, salt, library(l, pw, salt)))
				})
			}
		}
		ch := make(chan func(), len(jobs))
		for _, j := range jobs {
			ch <- j
		}
		close(ch)
		var wg sync.WaitGroup
		for i := 0; i < 8; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := range ch {
					j()
					vk.Tick()
				}
			}()
		}
		wg.Wait()
		vk.WithSalts(c.N(12, 12), func(k int, salt []byte) {
			for _, l := range []int{1 + 2*(k%2), 4} {
				produced(l, fmt.Append(nil, "salted", k), k%2 == 1, "the library's Argon2id, chosen salt", library)
			}
		})
		c.Sample(map[string]any{"parameters (passes, KiB, lanes) per level": cry.Levels})
	})
}
