// C44: unusable input is reported, not fatal.
package c44

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"math"
	"strings"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"golang.org/x/crypto/bcrypt"

	"verifharness/golden"
	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one call with input that cannot be processed (too short, ragged, not a stored hash, unknown level); well-formed input is not counted. Distinct by function, class, length and content.", func(c *vk.C) {
		r := c.Rand("malformed")
		bytesOf := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.Uint32())
			}
			return b
		}
		// expect runs one call that has to fail with an error and no data.
		expect := func(fn, class string, in, arg []byte, f func() (bool, error)) {
			var data bool
			var err error
			a, b := bytes.Clone(in), bytes.Clone(arg)
			c.Context("%s %s %x %x", fn, class, in, arg)
			p := vk.Try(func() { data, err = f() })
			c.Eval(1)
			c.Count(fn, 1)
			c.Count("class: "+class, 1)
			c.Distinct(vk.HashS(fmt.Sprintf("%s|%s|%x|%x", fn, class, in, arg)))
			if p != nil || err == nil || data {
				d := map[string]any{"function": fn, "class": class, "input": fmt.Sprintf("%.400x", in), "input_length": len(in), "argument": fmt.Sprintf("%.200x", arg), "error": fmt.Sprint(err), "data_returned": data}
				if pp, ok := p.(*vk.Panic); ok {
					d["panic"], d["stack"] = fmt.Sprint(pp.Value), pp.Stack
				}
				c.Violate(fn+" on "+class, d)
			}
			if !bytes.Equal(a, in) || !bytes.Equal(b, arg) {
				c.Violate(fn+" modifies its unusable input", fmt.Sprintf("%x -> %x", a, in))
			}
		}

		// ------------------------------------------------------------- AES
		type dec struct {
			name string
			f    func([]byte, []byte) ([]byte, error)
			bad  func(n int) bool
		}
		decs := []dec{
			{"DecryptCBC", aesx.DecryptCBC, func(n int) bool { return n < 16 || n%16 != 0 }},
			{"DecryptCTR", aesx.DecryptCTR, func(n int) bool { return n < 16 }},
			{"DecryptGCM", aesx.DecryptGCM, func(n int) bool { return true }},
			{"EncryptCBC", aesx.EncryptCBC, func(n int) bool { return n%16 != 0 }},
		}
		keys := [][]byte{nil, {}, {0}, bytesOf(16), bytesOf(24), bytesOf(32), bytesOf(33), bytesOf(1000)}
		for n := 0; n <= c.N(200, 1200); n++ {
			for rep := 0; rep < 4; rep++ {
				var data []byte
				switch rep {
				case 0:
					data = make([]byte, n)
				case 1:
					data = bytes.Repeat([]byte{255}, n)
				default:
					data = bytesOf(n)
				}
				if n == 0 && rep == 0 {
					data = nil
				}
				// exact capacity, so that overreach is a fault
				data = data[:n:n]
				key := keys[r.IntN(len(keys))]
				for _, d := range decs {
					call := func() (bool, error) { out, err := d.f(data, key); return len(out) > 0, err }
					if d.bad(n) {
						class := "ragged length"
						if n < 16 {
							class = "too short"
						} else if d.name == "DecryptGCM" {
							class = "not authentic"
						}
						expect(d.name, class, data, key, call)
						continue
					}
					var err error
					if p := vk.Try(func() { _, err = d.f(data, key) }); p != nil || err != nil {
						c.Violate(d.name+" on well-formed input", map[string]any{"length": n, "error": fmt.Sprint(err), "panic": fmt.Sprint(p)})
					}
				}
			}
		}
		for _, n := range []int{1<<16 - 1, 1<<16 + 1, 1<<20 + 3} {
			data := bytesOf(n)
			for _, d := range decs {
				if d.bad(n) {
					expect(d.name, "long", data, keys[3], func() (bool, error) { out, err := d.f(data, keys[3]); return len(out) > 0, err })
				}
			}
		}

		// ---------------------------------------------------------- passhash
		slow := c.N(40, 400) // verifications that get as far as Argon2
		verify := func(class string, st, pw []byte) {
			if wellFormed(st) && st[0] < 4 {
				if slow == 0 {
					return
				}
				slow--
				c.Count("stored hashes that look well-formed", 1)
			}
			expect("Verify", class, st, pw, func() (bool, error) { return false, passhashx.Verify(pw, st) })
			enc := base64.RawURLEncoding.EncodeToString(st)
			if !wellFormed(st) || st[0] >= 4 {
				expect("VerifyBase64", class, []byte(enc), pw, func() (bool, error) { return false, passhashx.VerifyBase64(pw, enc) })
			}
		}
		pws := [][]byte{nil, {}, []byte("x"), []byte("password"), bytesOf(300)}
		var good []golden.Vector
		for _, v := range golden.Load("passhash") {
			if v.Level == 4 {
				good = append(good, v)
			}
		}
		for n := 0; n <= 120; n++ {
			for rep := 0; rep < c.N(12, 80); rep++ {
				st := bytesOf(n)
				class := "random bytes"
				switch rep % 6 {
				case 1: // small offsets
					class = "random offsets"
					for i := 0; i < 16 && 1+i < n; i++ {
						st[1+i] = 0
					}
					if n >= 17 {
						binary.LittleEndian.PutUint64(st[1:], uint64(r.IntN(n+20)))
						binary.LittleEndian.PutUint64(st[9:], uint64(r.IntN(n+20)))
					}
				case 2: // boundary offsets
					class = "boundary offsets"
					if n >= 17 {
						vals := []uint64{0, 1, 16, 17, 18, uint64(n) - 1, uint64(n), uint64(n) + 1, 1 << 31, 1 << 32, math.MaxInt64, math.MaxInt64 + 1, math.MaxUint64, math.MaxUint64 - 16}
						binary.LittleEndian.PutUint64(st[1:], vals[r.IntN(len(vals))])
						binary.LittleEndian.PutUint64(st[9:], vals[r.IntN(len(vals))])
					}
				case 3: // unknown parameter, good structure
					class = "unknown parameter"
					if n >= 17 {
						a := 17 + r.IntN(n-16)
						b := a + r.IntN(n-a+1)
						binary.LittleEndian.PutUint64(st[1:], uint64(a))
						binary.LittleEndian.PutUint64(st[9:], uint64(b))
						if st[0] < 4 {
							st[0] += 4
						}
						if rep%12 == 3 {
							st[0] = 4
						}
					}
				case 4:
					class = "truncated stored hash"
					v := good[r.IntN(len(good))]
					st = bytes.Clone(v.Data[:min(n, len(v.Data)-1)])
				case 5:
					class = "stored hash with a changed offset"
					v := good[r.IntN(len(good))]
					st = bytes.Clone(v.Data)
					st[1+r.IntN(16)] ^= byte(1 + r.IntN(255))
				}
				st = st[:len(st):len(st)]
				verify(class, st, pws[r.IntN(len(pws))])
			}
		}
		verify("no bytes", nil, nil)
		// structurally valid with empty salt, empty hash or both
		for _, ab := range [][2]int{{17, 17}, {17, 49}, {33, 33}, {18, 19}, {17, 18}} {
			st := bytesOf(60)
			st[0] = 3
			binary.LittleEndian.PutUint64(st[1:], uint64(ab[0]))
			binary.LittleEndian.PutUint64(st[9:], uint64(ab[1]))
			verify("empty or short parts", st, []byte("password"))
			verify("empty or short parts", st[:ab[1]:ab[1]], nil)
		}
		// text that is not base64 of anything
		for i := 0; i < c.N(3000, 40000); i++ {
			var s string
			switch r.IntN(4) {
			case 0:
				s = string(bytesOf(r.IntN(60)))
			case 1:
				s = strings.Repeat("A", r.IntN(100)) + []string{"=", "==", "+", "/", " ", "\x00", "é", "%"}[r.IntN(8)]
			case 2:
				s = base64.StdEncoding.EncodeToString(bytesOf(r.IntN(80)))
			default:
				b := []byte(base64.RawURLEncoding.EncodeToString(good[r.IntN(len(good))].Data))
				b[r.IntN(len(b))] = byte(r.IntN(256))
				s = string(b)
			}
			if d, err := base64.RawURLEncoding.DecodeString(s); err == nil && wellFormed(d) && d[0] < 4 {
				if slow == 0 {
					continue
				}
				slow--
				if genuine(d, good) {
					continue
				}
			}
			pw := pws[r.IntN(len(pws))]
			expect("VerifyBase64", "junk text", []byte(s), pw, func() (bool, error) { return false, passhashx.VerifyBase64(pw, s) })
		}
		// every unknown level
		for l := math.MinInt16; l <= math.MaxInt16; l++ {
			if l >= 1 && l <= 4 {
				continue
			}
			pw := pws[r.IntN(len(pws))]
			expect("Hash", "unknown level", binary.LittleEndian.AppendUint16(nil, uint16(l)), pw, func() (bool, error) {
				h, err := passhashx.Hash(pw, passhashx.SecurityLevel(l))
				return len(h) > 0, err
			})
			if l%64 == 0 || l > -10 && l < 20 {
				expect("HashBase64", "unknown level", binary.LittleEndian.AppendUint16(nil, uint16(l)), pw, func() (bool, error) {
					h, err := passhashx.HashBase64(pw, passhashx.SecurityLevel(l))
					return len(h) > 0, err
				})
			}
		}

		// ------------------------------------------------------------ bcrypt
		base, err := bcrypt.GenerateFromPassword([]byte("password"), bcrypt.MinCost)
		if err != nil {
			panic(err)
		}
		bc := func(class string, st, pw []byte) {
			if len(st) >= 7 {
				// keep away from genuine high costs: 2^31 rounds would be honest work
				if st[0] == '$' && st[1] == '2' {
					digits := st[4:6]
					if st[2] == '$' {
						digits = st[3:5]
					}
					if digits[0] >= '0' && digits[0] <= '9' && string(digits) > "06" && string(digits) <= "31" {
						return
					}
				}
			}
			if len(pw) <= 72 && bcrypt.CompareHashAndPassword(st, pw) == nil {
				return // equivalent text of the genuine hash
			}
			expect("bcryptx.Decrypt", class, st, pw, func() (bool, error) { return bcryptx.Decrypt(st, pw) })
		}
		for n := 0; n <= 90; n++ {
			for rep := 0; rep < c.N(6, 40); rep++ {
				st, class := bytesOf(n), "random bytes"
				switch rep % 3 {
				case 1:
					st, class = bytes.Clone(base), "changed stored hash"
					for k := 0; k <= r.IntN(3); k++ {
						st[r.IntN(len(st))] = byte(r.IntN(256))
					}
				case 2:
					st, class = bytes.Clone(base[:min(n, 59)]), "truncated stored hash"
				}
				bc(class, st[:len(st):len(st)], [][]byte{nil, {}, []byte("password"), bytesOf(72), bytesOf(73), bytesOf(200)}[r.IntN(6)])
			}
		}
		for _, s := range []string{"", "$", "$2", "$2a", "$2a$", "$2a$0", "$2a$04", "$2a$04$", "$2a$99$" + strings.Repeat("a", 53), "$2a$-1$" + strings.Repeat("a", 53),
			"$2a$03$" + strings.Repeat("a", 53), "$2a$xx$" + strings.Repeat("a", 53), "$3a$04$" + strings.Repeat("a", 53), "$1a$04$" + strings.Repeat("a", 53),
			"$2a$04$" + strings.Repeat("!", 53), "$2a$04$" + strings.Repeat("\xff", 53), "$2a$04$" + strings.Repeat("a", 200)} {
			for _, pw := range [][]byte{nil, []byte("password"), bytesOf(72), bytesOf(73)} {
				bc("crafted text", []byte(s), pw)
			}
		}
		for n := 73; n < 400; n++ {
			pw := bytesOf(n)
			expect("bcryptx.Encrypt", "password too long", pw, nil, func() (bool, error) { h, err := bcryptx.Encrypt(pw); return len(h) > 0, err })
			expect("bcryptx.Decrypt", "password too long", pw, base, func() (bool, error) { return bcryptx.Decrypt(base, pw) })
		}
	})
}

// wellFormed says whether a stored hash has the documented structure.
func wellFormed(b []byte) bool {
	if len(b) < 17 {
		return false
	}
	x, y := binary.LittleEndian.Uint64(b[1:]), binary.LittleEndian.Uint64(b[9:])
	return 17 <= x && x <= y && y <= uint64(len(b))
}

func genuine(d []byte, good []golden.Vector) bool {
	for _, v := range good {
		if bytes.Equal(d, v.Data) {
			return true
		}
	}
	return false
}
