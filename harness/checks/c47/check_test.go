// C47: password verification accepts exactly the hashed password.
package c47

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"math/bits"
	"math/rand/v2"
	"sync"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/passhashx"

	"verifharness/vk"
)

var names = map[int]string{1: "high", 2: "low", 3: "mobile high", 4: "mobile low"}
var levels = map[int]passhashx.SecurityLevel{1: passhashx.SecurityLevelHigh, 2: passhashx.SecurityLevelLow, 3: passhashx.SecurityLevelMobileHigh, 4: passhashx.SecurityLevelMobileLow}

func pwOf(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	kind := r.IntN(4)
	for i := range b {
		switch kind {
		case 0:
			b[i] = byte(r.Uint32())
		case 1:
			b[i] = byte('a' + r.IntN(26))
		case 2:
			b[i] = 0
		default:
			b[i] = []byte("\xed\x95\x9c\xea\xb8\x80")[i%6]
		}
	}
	return b
}

func nears(r *rand.Rand, pw []byte) (out [][2]any) {
	add := func(kind string, b []byte) {
		if !bytes.Equal(b, pw) {
			out = append(out, [2]any{kind, b})
		}
	}
	n := len(pw)
	if n > 0 {
		for _, j := range []int{0, n - 1, r.IntN(n), r.IntN(n), min(n-1, 72), min(n-1, 64), min(n-1, 32)} {
			b := bytes.Clone(pw)
			b[j] ^= 1 << r.IntN(8)
			add("one bit changed", b)
		}
		add("without the last byte", pw[:n-1])
		add("without the first byte", pw[1:])
		add("case changed", bytes.ToUpper(pw))
		add("doubled", append(bytes.Clone(pw), pw...))
		add("cut at a NUL byte", bytes.SplitN(pw, []byte{0}, 2)[0])
		add("trimmed", bytes.TrimSpace(pw))
		for _, l := range []int{8, 16, 32, 64, 72, 128} {
			if n > l {
				add(fmt.Sprintf("cut to %d bytes", l), pw[:l])
			}
		}
	}
	add("empty", nil)
	add("one byte more", append(bytes.Clone(pw), 'x'))
	add("a NUL byte more", append(bytes.Clone(pw), 0))
	add("a newline more", append(bytes.Clone(pw), '\n'))
	return
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one verification against a stored hash (genuine, tampered or of another password) or one refused level; all are non-trivial; distinct by level, password, stored bytes and presented password.", func(c *vk.C) {
		verify := func(kind string, l int, st, pw, orig []byte, want bool, text bool) {
			a, b := bytes.Clone(st), bytes.Clone(pw)
			s := base64.RawURLEncoding.EncodeToString(st)
			var err error
			p := vk.Try(func() {
				if text {
					err = passhashx.VerifyBase64(pw, s)
				} else {
					err = passhashx.Verify(pw, st)
				}
			})
			c.Eval(1)
			c.Count(kind, 1)
			c.Count("level "+names[l], 1)
			c.Distinct(vk.HashS(fmt.Sprintf("%s|%x|%x|%v", kind, st, pw, text)))
			if p != nil || (err == nil) != want {
				c.Violate("verification of "+kind, map[string]any{"level": names[l], "stored": fmt.Sprintf("%x", st), "hashed_password": fmt.Sprintf("%.200x", orig), "presented_password": fmt.Sprintf("%.200x", pw), "error": fmt.Sprint(err), "expected_to_verify": want, "base64": text, "panic": fmt.Sprint(p)})
			}
			if !bytes.Equal(a, st) || !bytes.Equal(b, pw) {
				c.Violate("verification modifies its input", kind)
			}
		}
		hash := func(l int, pw []byte, text bool) []byte {
			a := bytes.Clone(pw)
			var st []byte
			var err error
			if text {
				var s string
				s, err = passhashx.HashBase64(pw, levels[l])
				if err == nil {
					st, err = base64.RawURLEncoding.DecodeString(s)
				}
			} else {
				st, err = passhashx.Hash(pw, levels[l])
			}
			if err != nil || len(st) == 0 {
				c.Violate("hashing fails", map[string]any{"level": names[l], "password": fmt.Sprintf("%x", pw), "error": fmt.Sprint(err)})
			}
			if !bytes.Equal(a, pw) {
				c.Violate("hashing modifies the password", "")
			}
			return st
		}
		// Argon2 is slow on 32-bit machines, and eight at a time are more
		// memory than they have: only what depends on the word size.
		narrow := bits.UintSize == 32
		workers := 8
		if narrow {
			workers = 2
		}
		var jobs []func()
		pool := func() {
			r := c.Rand("order")
			r.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
			ch := make(chan func(), len(jobs))
			for _, j := range jobs {
				ch <- j
			}
			close(ch)
			var wg sync.WaitGroup
			for i := 0; i < workers; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := range ch {
						j()
						vk.Tick()
					}
				}()
			}
			wg.Wait()
		}
		if c.Phase == "race" {
			// Different passwords and levels at the same time: any state the
			// calls share shows up as a wrong verdict or a race.
			pw := []byte("shared")
			st := hash(2, pw, false)
			for i := 0; i < c.N(20, 120); i++ {
				jobs = append(jobs, func() {
					switch i % 4 {
					case 0:
						verify("the password, concurrently", 2, st, pw, pw, true, i%8 == 0)
					case 1:
						verify("another password, concurrently", 2, st, []byte(fmt.Sprint("shared", i)), pw, false, false)
					case 2:
						own := []byte(fmt.Sprint("own", i))
						verify("the password, concurrently", 2, hash(2, own, false), own, own, true, false)
					default:
						own := []byte(fmt.Sprint("own", i))
						verify("the password, concurrently", 4, hash(4, own, true), own, own, true, true)
					}
				})
			}
			pool()
			return
		}
		// A caller that reads every password and every stored hash into the
		// same buffers, from a single goroutine: only what the buffers hold
		// during the call counts.
		for round := 0; round < c.N(3, 20); round++ {
			if narrow && round > 0 {
				break
			}
			r := c.Rand("reused", round)
			n := 1 + r.IntN(40)
			pws, sts := make([][]byte, 3), make([][]byte, 3)
			l := []int{4, 2, 3}[round%3]
			for i := range pws {
				pws[i] = pwOf(r, n)
				if i == 1 {
					pws[i] = bytes.Clone(pws[0])
					pws[i][r.IntN(n)] ^= byte(1 + r.IntN(127))
				}
				sts[i] = hash(l, pws[i], i == 2)
			}
			pb, sb := make([]byte, 0, 128), make([]byte, 0, 128)
			who := r.IntN(3)
			for i := 0; i < c.N(16, 60); i++ {
				x, y := who, who
				if i%2 == 1 {
					if x = (who + 1) % 3; r.IntN(2) == 0 {
						x, y = y, x
					}
					who = r.IntN(3)
				}
				pb, sb = append(pb[:0], pws[x]...), append(sb[:0], sts[y]...)
				verify("a password and a hash in buffers used before", l, sb, pb, pws[y], x == y || bytes.Equal(pws[x], pws[y]), i%4 > 1)
			}
			pb = append(pb[:0], pws[0]...)
			st := hash(l, pb, false)
			pb = append(pb[:0], pws[2]...)
			verify("a hash made from a buffer used before", l, st, pws[0], pws[0], true, false)
			st = hash(l, pb, false)
			verify("a hash made from a buffer used before", l, st, pb, pws[2], true, false)
			verify("a hash made from a buffer used before", l, st, pws[0], pws[2], bytes.Equal(pws[0], pws[2]), false)
		}
		lens := []int{0, 1, 5, 8, 16, 31, 32, 33, 64, 65, 72, 73, 100, 128, 129, 1000, 70000}
		// 1. the password and its neighbours, at every level
		for l := 1; l <= 4; l++ {
			if narrow && l&1 == 1 {
				continue
			}
			for k := 0; k < c.N(map[int]int{1: 3, 2: 17, 3: 6, 4: 12}[l], 40)/map[bool]int{false: 1, true: 6}[narrow]; k++ {
				jobs = append(jobs, func() {
					r := c.Rand("near", l, k)
					pw := pwOf(r, lens[k%len(lens)])
					if l != 2 {
						pw = pwOf(r, lens[r.IntN(len(lens))])
					}
					st := hash(l, pw, k%2 == 1)
					// a hash made in one form verifies in the other as well
					verify("the password", l, st, pw, pw, true, false)
					verify("the password", l, st, pw, pw, true, true)
					ns := nears(r, pw)
					for i := 0; i < c.N(map[int]int{1: 2, 2: 5, 3: 3, 4: 5}[l], 12); i++ {
						x := ns[r.IntN(len(ns))]
						verify("another password: "+x[0].(string), l, st, x[1].([]byte), pw, false, i%2 == 1)
					}
				})
			}
		}
		// 2. every byte of a stored hash changed; the password itself is right
		for _, l := range []int{2, 4, 3, 1} {
			if !c.Thorough() && l != 2 && l != 4 || narrow && l != 4 {
				continue
			}
			pw := []byte("tampered with")
			st := hash(l, pw, false)
			if len(st) != 65 {
				c.Count("hashes_of_another_layout", 1) // C48 judges the form
				jobs = append(jobs, func() { verify("the password", l, st, pw, pw, true, false) })
				continue
			}
			for i := range st {
				if narrow && i >= 20 {
					break
				}
				for rep := 0; rep < c.N(1, 4); rep++ {
					jobs = append(jobs, func() {
						r := c.Rand("tamper", l, i, rep)
						bad := bytes.Clone(st)
						bad[i] ^= byte(1) << r.IntN(8)
						if rep > 0 {
							bad[i] = st[i] ^ byte(1+r.IntN(255))
						}
						kind := "a changed hash"
						switch {
						case i == 0:
							kind = "a changed parameter byte"
						case i < 17:
							kind = "a changed offset"
						case i < 33:
							kind = "a changed salt"
						}
						verify(kind, l, bad, pw, pw, false, r.IntN(2) == 0)
					})
				}
			}
			if l == 4 || c.Thorough() {
				r := c.Rand("several", l)
				most := c.N(240, 2000)
				if narrow {
					most = 12
				}
				for i, part := range []string{"salt", "hash"} {
					at := [][2]int{{17, 33}, {33, 65}}[i]
					for _, x := range vk.Changes(r, st, at[0], at[1], most/(2-i)) {
						jobs = append(jobs, func() { verify("a "+part+" with "+x.Name, l, x.Data, pw, pw, false, len(x.Name)%2 == 0) })
					}
				}
			}
			for n := 0; n < len(st); n++ {
				jobs = append(jobs, func() { verify("a truncated stored hash", l, st[:n:n], pw, pw, false, n%2 == 0) })
			}
			// consistent rewrites: parts shortened together with their offsets
			form := func(param byte, salt, h []byte) []byte {
				out := binary.LittleEndian.AppendUint64([]byte{param}, uint64(17+len(salt)))
				out = binary.LittleEndian.AppendUint64(out, uint64(17+len(salt)+len(h)))
				return append(append(out, salt...), h...)
			}
			salt, h := st[17:33], st[33:65]
			for _, n := range []int{0, 1, 4, 8, 16, 24, 31} {
				jobs = append(jobs, func() {
					verify("a shortened hash", l, form(st[0], salt, h[:n]), pw, pw, false, false)
					verify("the end of the hash only", l, form(st[0], salt, h[32-n:]), pw, pw, false, false)
					verify("a shortened hash, another password", l, form(st[0], salt, h[:n]), []byte("x"), pw, false, false)
					if n <= 16 {
						verify("a shortened salt", l, form(st[0], salt[:min(n, 15)], h), pw, pw, false, false)
					}
				})
			}
			jobs = append(jobs, func() {
				verify("an extended hash", l, form(st[0], salt, append(bytes.Clone(h), 0)), pw, pw, false, false)
				verify("an extended salt", l, form(st[0], append(bytes.Clone(salt), 0), h), pw, pw, false, false)
				verify("a zeroed hash", l, form(st[0], salt, make([]byte, 32)), pw, pw, false, false)
				verify("salt and hash boundary moved", l, form(st[0], append(bytes.Clone(salt), h[0]), h[1:]), pw, pw, false, false)
				verify("hash rotated", l, form(st[0], salt, append(bytes.Clone(h[1:]), h[0])), pw, pw, false, false)
				verify("hash halves swapped", l, form(st[0], salt, append(bytes.Clone(h[16:]), h[:16]...)), pw, pw, false, false)
				inv := bytes.Clone(h)
				for i := range inv {
					inv[i] ^= 0xff
				}
				verify("hash inverted", l, form(st[0], salt, inv), pw, pw, false, false)
				verify("the form rebuilt unchanged", l, form(st[0], salt, h), pw, pw, true, false)
				verify("the form rebuilt unchanged", l, form(st[0], salt, h), pw, pw, true, true)
				other := hash(l, []byte("other"), false)
				verify("the salt of another hash", l, form(st[0], other[17:33], h), pw, pw, false, false)
				verify("the hash of another password", l, form(st[0], salt, other[33:]), pw, pw, false, false)
				for p := byte(0); p < 4; p++ {
					if p != st[0] && (c.Thorough() || p != 0) {
						verify("the parameters of another level", l, form(p, salt, h), pw, pw, false, false)
					}
				}
				for _, p := range []byte{4, 5, 127, 128, 255} {
					verify("unknown parameters", l, form(p, salt, h), pw, pw, false, p%2 == 0)
				}
			})
		}
		// 3. unknown levels
		jobs = append(jobs, func() {
			for l := math.MinInt16; l <= math.MaxInt16; l++ {
				if l >= 1 && l <= 4 {
					continue
				}
				st, err := passhashx.Hash([]byte("pw"), passhashx.SecurityLevel(l))
				s, err2 := passhashx.HashBase64([]byte("pw"), passhashx.SecurityLevel(l))
				if err == nil || err2 == nil || len(st) > 0 || s != "" {
					c.Violate("an unknown security level is accepted", map[string]any{"level": l, "stored": fmt.Sprintf("%x", st), "text": s})
				}
			}
			c.Eval(65532)
			c.Count("unknown levels refused", 65532)
			c.Distinct(vk.HashS("unknown levels"))
		})
		pool()
	})
}
