// C46: bcrypt verification accepts exactly the hashed password.
package c46

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"strings"
	"sync"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"golang.org/x/crypto/bcrypt"

	"verifharness/golden"
	"verifharness/vk"
)

// key is what bcrypt makes of a password: the password and a NUL, repeated to
// 72 bytes. Passwords with NUL bytes may have the same key.
func key(pw []byte) string {
	k := append(bytes.Clone(pw), 0)
	for len(k) < 72 {
		k = append(k, append(bytes.Clone(pw), 0)...)
	}
	return string(k[:72])
}

func pwOf(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	kind := r.IntN(6)
	for i := range b {
		switch kind {
		case 4:
			b[i] = byte(r.IntN(256))
		case 5:
			b[i] = byte(r.IntN(3)) // many NULs
		case 0:
			b[i] = byte(1 + r.IntN(255))
		case 1:
			b[i] = byte('a' + r.IntN(26))
		case 2:
			b[i] = 'a'
		default:
			b[i] = []byte("\xed\x95\x9c\xea\xb8\x80")[i%6]
		}
	}
	return b
}

// nears lists passwords that resemble pw and are not pw.
func nears(r *rand.Rand, pw []byte, all bool) (out [][2]any) {
	add := func(kind string, b []byte) {
		if !bytes.Equal(b, pw) && (len(b) > 72 || key(b) != key(pw)) {
			out = append(out, [2]any{kind, b})
		}
	}
	n := len(pw)
	step := 1
	if !all {
		step = 1 + n/6
	}
	for i := 0; i < n; i += step {
		j := i
		if !all {
			j = min(n-1, i+r.IntN(step))
		}
		b := bytes.Clone(pw)
		b[j] ^= 1 << r.IntN(8)
		add("one bit changed", b)
		add("one byte removed", append(bytes.Clone(pw[:j]), pw[j+1:]...))
		add("prefix", bytes.Clone(pw[:j]))
	}
	if n > 0 {
		b := bytes.Clone(pw)
		b[n-1] ^= 1
		add("last byte changed", b)
		b = bytes.Clone(pw)
		b[n-1] ^= 0x80
		add("last byte's top bit changed", b)
		b = bytes.Clone(pw)
		b[0] ^= 0x20
		add("first byte changed", b)
		add("without the last byte", pw[:n-1])
		add("without the first byte", pw[1:])
		add("reversed", func() []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = pw[n-1-i]
			}
			return b
		}())
		add("case changed", bytes.ToUpper(pw))
		add("doubled", append(bytes.Clone(pw), pw...))
		add("trimmed", bytes.TrimSpace(pw))
	}
	add("empty", nil)
	for _, k := range []int{1, 2, 8} {
		add("NUL bytes more", append(bytes.Clone(pw), make([]byte, k)...))
		add("NUL bytes before", append(make([]byte, k), pw...))
	}
	if n > 0 {
		j := r.IntN(n)
		b := bytes.Clone(pw)
		b[j] = 0
		add("a byte became NUL", b)
		add("NUL and something behind", append(append(bytes.Clone(pw), 0), pwOf(r, 1+r.IntN(9))...))
		add("NUL in between", append(append(bytes.Clone(pw[:j]), 0), pw[j:]...))
		add("up to the first NUL", pw[:max(0, bytes.IndexByte(pw, 0))])
		add("without NUL at the end", bytes.TrimRight(pw, "\x00"))
		add("NUL replaced by space", bytes.ReplaceAll(pw, []byte{0}, []byte{' '}))
	}
	add("one byte more", append(bytes.Clone(pw), 'x'))
	add("a space more", append(bytes.Clone(pw), ' '))
	add("a newline more", append(bytes.Clone(pw), '\n'))
	add("a space before", append([]byte{' '}, pw...))
	for _, l := range []int{72, 73, 80, 100} {
		if n < l {
			add(fmt.Sprintf("extended to %d bytes", l), append(bytes.Clone(pw), bytes.Repeat([]byte("y"), l-n)...))
		}
	}
	return
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one verification of a password against a stored hash (or one refused over-long password); all are non-trivial; distinct by stored password, presented password and outcome.", func(c *vk.C) {
		verify := func(kind string, st, pw, orig []byte, want bool) {
			a, b := bytes.Clone(st), bytes.Clone(pw)
			var ok bool
			var err error
			p := vk.Try(func() { ok, err = bcryptx.Decrypt(st, pw) })
			c.Eval(1)
			c.Count(kind, 1)
			c.Distinct(vk.HashS(fmt.Sprintf("%s|%x|%x", kind, orig, pw)))
			if p != nil || ok != want || (err == nil) != want {
				c.Violate("verification of "+kind, map[string]any{"stored": string(st), "hashed_password": fmt.Sprintf("%x", orig), "presented_password": fmt.Sprintf("%x", pw), "verified": ok, "error": fmt.Sprint(err), "expected": want, "panic": fmt.Sprint(p)})
			}
			if !bytes.Equal(a, st) || !bytes.Equal(b, pw) {
				c.Violate("verification modifies its input", kind)
			}
		}
		hash := func(pw []byte) []byte {
			a := bytes.Clone(pw)
			st, err := bcryptx.Encrypt(pw)
			c.Eval(1)
			if err != nil {
				c.Violate("a password of at most 72 bytes is refused", map[string]any{"password": fmt.Sprintf("%x", pw), "error": err.Error()})
			}
			if !bytes.Equal(a, pw) {
				c.Violate("hashing modifies the password", "")
			}
			cost, err := bcrypt.Cost(st)
			if err != nil || cost < bcrypt.DefaultCost {
				c.Violate("a stored hash is weaker than the default cost", map[string]any{"stored": string(st), "cost": cost, "error": fmt.Sprint(err)})
			}
			c.Max("lowest cost seen, as 100-cost", 100-cost)
			if !strings.HasPrefix(string(st), "$2") || len(st) != 60 {
				c.Violate("a stored hash does not have the bcrypt format", string(st))
			}
			if err := bcrypt.CompareHashAndPassword(st, pw); err != nil {
				c.Violate("a stored hash does not verify with the bcrypt library", map[string]any{"stored": string(st), "password": fmt.Sprintf("%x", pw), "error": err.Error()})
			}
			return st
		}
		// workers run the slow library on all cores; results are judged by each.
		pool := func(jobs []func()) {
			ch := make(chan func(), len(jobs))
			for _, j := range jobs {
				ch <- j
			}
			close(ch)
			var wg sync.WaitGroup
			for i := 0; i < 8; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := range ch {
						j()
						vk.Tick()
					}
				}()
			}
			wg.Wait()
		}
		var jobs []func()
		if c.Phase == "race" {
			st := hash([]byte("shared"))
			pw := []byte("shared")
			for i := 0; i < c.N(12, 120); i++ {
				jobs = append(jobs, func() {
					switch i % 3 {
					case 0:
						verify("the password, concurrently", st, pw, pw, true)
					case 1:
						verify("another password, concurrently", st, []byte(fmt.Sprint("shared", i)), pw, false)
					default:
						own := []byte(fmt.Sprint("own", i))
						verify("the password, concurrently", hash(own), own, own, true)
					}
				})
			}
			pool(jobs)
			return
		}
		// 1. real hashes at the real cost
		lens := []int{0, 1, 2, 7, 8, 15, 16, 17, 31, 32, 33, 47, 48, 55, 56, 57, 63, 64, 65, 70, 71, 72}
		if c.Thorough() {
			lens = nil
			for i := 0; i <= 72; i++ {
				lens = append(lens, i)
			}
		}
		for k, n := range lens {
			jobs = append(jobs, func() {
				r := c.Rand("real", k)
				pw := pwOf(r, n)
				st := hash(pw)
				verify("the password", st, pw, pw, true)
				ns := nears(r, pw, false)
				for i := 0; i < c.N(3, 12); i++ {
					x := ns[r.IntN(len(ns))]
					verify(x[0].(string), st, x[1].([]byte), pw, false)
				}
			})
		}
		// A caller that reads every password and every stored hash into the
		// same buffers, from a single goroutine: only what the buffers hold
		// during the call counts.
		for round := 0; round < c.N(12, 100); round++ {
			r := c.Rand("reused", round)
			n := 1 + r.IntN(72)
			pws, sts := make([][]byte, 3), make([][]byte, 3)
			for i := range pws {
				k := n // of the same length, mostly
				if r.IntN(4) == 0 {
					k = r.IntN(73)
				}
				pws[i] = pwOf(r, k)
				if i == 1 && len(pws[0]) == n {
					pws[i] = bytes.Clone(pws[0])
					pws[i][r.IntN(n)] ^= byte(1 + r.IntN(127))
				}
				if round%4 == 0 {
					sts[i] = hash(pws[i])
				} else {
					sts[i], _ = bcrypt.GenerateFromPassword(pws[i], bcrypt.MinCost)
				}
			}
			pb, sb := make([]byte, 0, 128), make([]byte, 0, 128)
			steps := c.N(60, 300)
			if round%4 == 0 {
				steps = c.N(8, 30)
			}
			who := r.IntN(3)
			for i := 0; i < steps; i++ {
				x, y := r.IntN(3), r.IntN(3)
				if i%2 == 1 { // after a success: only the password, only the hash, or both change
					x, y = who, who
				} else if i > 0 {
					x, y = who, (who+1)%3
					if r.IntN(2) == 0 {
						x, y = y, x
					}
					who = r.IntN(3)
				}
				pb, sb = append(pb[:0], pws[x]...), append(sb[:0], sts[y]...)
				want := bcrypt.CompareHashAndPassword(bytes.Clone(sb), bytes.Clone(pb)) == nil
				verify("a password and a hash in buffers used before", sb, pb, pws[y], want)
				if round%4 == 0 && i%5 == 4 {
					st := hash(pb)
					pb = append(pb[:0], pws[(x+1)%3]...)
					verify("a hash made from a buffer used before", st, bytes.Clone(pws[x]), pws[x], true)
				}
			}
		}
		// 2. many near misses against cheap hashes of the same library
		for k := 0; k < c.N(60, 600); k++ {
			jobs = append(jobs, func() {
				r := c.Rand("cheap", k)
				n := r.IntN(73)
				if k%3 == 0 {
					n = 72 - k/3%4
				}
				pw := pwOf(r, n)
				st, err := bcrypt.GenerateFromPassword(pw, bcrypt.MinCost+k%2)
				if err != nil {
					panic(err)
				}
				verify("the password, cheap hash", st, pw, pw, true)
				for _, x := range nears(r, pw, k%4 == 0 || c.Thorough()) {
					verify(x[0].(string), st, x[1].([]byte), pw, false)
				}
				verify("unrelated password", st, pwOf(r, r.IntN(80)+80), pw, false)
				// changed stored hashes
				for i := 0; i < 12; i++ {
					bad := bytes.Clone(st)
					j := 29 + r.IntN(30) // inside the hash, without the last character
					bad[j] = "./ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"[r.IntN(64)]
					if bad[j] != st[j] {
						verify("the password, stored hash changed", bad, pw, pw, false)
					}
				}
				for i := 0; i < 60; i += 7 {
					verify("the password, stored hash truncated", st[:i], pw, pw, false)
				}
			})
		}
		// 3. over-long passwords: refused by both sides, also when the first 72 bytes are right
		for k := 0; k < c.N(12, 60); k++ {
			jobs = append(jobs, func() {
				r := c.Rand("long", k)
				pw := pwOf(r, 72)
				st, err := bcrypt.GenerateFromPassword(pw, bcrypt.MinCost)
				if err != nil {
					panic(err)
				}
				verify("the password of 72 bytes", st, pw, pw, true)
				for _, extra := range []int{1, 2, 3, 8, 28, 184, 185, 256, 1000} {
					long := append(bytes.Clone(pw), pwOf(r, extra)...)
					verify("over-long password with the right prefix", st, long, pw, false)
					var h []byte
					p := vk.TryFast(func() { h, err = bcryptx.Encrypt(long) })
					c.Eval(1)
					c.Count("over-long passwords refused", 1)
					c.Distinct(vk.HashS(fmt.Sprintf("long %x", long)))
					if p != nil || err == nil || len(h) != 0 {
						c.Violate("a password of more than 72 bytes is hashed", map[string]any{"length": len(long), "stored": string(h), "panic": fmt.Sprint(p)})
					}
				}
			})
		}
		// 4. what earlier versions stored
		for k, v := range golden.Load("bcrypt") {
			jobs = append(jobs, func() {
				r := c.Rand("golden", k)
				verify("the password, hash of an earlier version", v.Data, v.Key, v.Key, true)
				ns := nears(r, v.Key, false)
				for i := 0; i < c.N(2, 10); i++ {
					x := ns[r.IntN(len(ns))]
					verify(x[0].(string), v.Data, x[1].([]byte), v.Key, false)
				}
			})
		}
		pool(jobs)
		// 5. salts that are easily lost
		vk.WithSalts(c.N(12, 12), func(k int, salt []byte) {
			pw := pwOf(c.Rand("salts", k), 1+k*6)
			st := hash(pw)
			verify("the password, chosen salt", st, pw, pw, true)
			if k%3 == 0 {
				verify("another password, chosen salt", st, append(bytes.Clone(pw), 'x')[:min(72, len(pw)+1)], pw, false)
			}
		})
	})
}
