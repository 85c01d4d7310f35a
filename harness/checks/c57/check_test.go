// C57: which error a failing call returns. Callers decide by errors.Is and
// errors.As; every failure must be the documented one for its cause and no
// other.
package c57

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand/v2"
	"strings"
	"testing"
	"time"

	"golang.org/x/crypto/bcrypt"

	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/poolx/gopoolx"

	"verifharness/cry"
	"verifharness/vk"
)

// sentinels are all errors a caller may ask for.
var sentinels = map[string]error{
	"passhashx.ErrInvalidPassHash":        passhashx.ErrInvalidPassHash,
	"passhashx.ErrUnknownAlgorithm":       passhashx.ErrUnknownAlgorithm,
	"passhashx.ErrHashMismatch":           passhashx.ErrHashMismatch,
	"passhashx.ErrReadSaltFailed":         passhashx.ErrReadSaltFailed,
	"passhashx.ErrInvalidSecurityLevel":   passhashx.ErrInvalidSecurityLevel,
	"bcryptx.ErrPasswordTooLong":          bcryptx.ErrPasswordTooLong,
	"bcrypt.ErrMismatchedHashAndPassword": bcrypt.ErrMismatchedHashAndPassword,
	"bcrypt.ErrHashTooShort":              bcrypt.ErrHashTooShort,
	"aesx.ErrInvalidCiphertext":           aesx.ErrInvalidCiphertext,
	"aesx.ErrNotFullBlocks":               aesx.ErrNotFullBlocks,
	"gopoolx.ErrInvalidMaxWorkers":        gopoolx.ErrInvalidMaxWorkers,
	"gopoolx.ErrInvalidHandler":           gopoolx.ErrInvalidHandler,
	"gopoolx.ErrInvalidIdleTimeout":       gopoolx.ErrInvalidIdleTimeout,
	"gopoolx.ErrInvalidGCPeriod":          gopoolx.ErrInvalidGCPeriod,
}

type suite struct {
	*vk.C
	seen map[string]int
}

// expect reports a call whose error is not one of the names, or is also some
// other known error. With no names the error must be nil; "other" stands for
// an error that is none of the known ones.
func (s *suite) expect(call string, err error, detail any, names ...string) {
	s.Eval(1)
	var is []string
	for n, e := range sentinels {
		if err != nil && errors.Is(err, e) {
			is = append(is, n)
		}
	}
	switch {
	case len(names) == 0:
		if err == nil {
			s.seen[call+": no error"]++
			return
		}
	case err == nil:
	case len(is) == 0:
		for _, n := range names {
			if n == "other" {
				s.seen[call+": another error"]++
				return
			}
		}
	case len(is) == 1:
		for _, n := range names {
			if n == is[0] {
				s.seen[call+": "+n]++
				s.Distinct(vk.HashS(fmt.Sprint(call, n, detail)))
				return
			}
		}
	}
	s.Violate("a failure is not reported by its error", map[string]any{"call": call, "arguments": detail, "error": fmt.Sprint(err), "which_is": is, "expected": append([]string{}, names...)})
}

func text(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.IntN(256))
	}
	return b
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one failing (or succeeding) call with its cause; distinct by call, cause and arguments.", func(c *vk.C) {
		s := &suite{c, map[string]int{}}
		for n, e := range sentinels {
			if e == nil || e.Error() == "" {
				c.Violate("an error value is missing or says nothing", map[string]any{"error": n})
			}
			for m, f := range sentinels {
				if n != m && errors.Is(e, f) {
					c.Violate("two error values cannot be told apart", map[string]any{"errors": []string{n, m}})
				}
			}
		}
		r := c.Rand("errors")
		s.passhash(r)
		s.bcrypt(r)
		s.aes(r)
		s.pool(r)
		s.closers(r)
		for k, n := range s.seen {
			c.Count(k, n)
		}
		c.Sample(s.seen)
	})
}

func (s *suite) passhash(r *rand.Rand) {
	levels := []passhashx.SecurityLevel{passhashx.SecurityLevelMobileLow, passhashx.SecurityLevelLow, passhashx.SecurityLevelMobileHigh, passhashx.SecurityLevelHigh}
	known := map[passhashx.SecurityLevel]bool{}
	for _, l := range levels {
		known[l] = true
	}
	verify := func(pw, h []byte, what string, names ...string) {
		detail := fmt.Sprintf("%s: password %q, stored %x", what, pw, h)
		s.Context("Verify %s", detail)
		s.expect("Verify", passhashx.Verify(pw, h), detail, names...)
		s.expect("VerifyBase64", passhashx.VerifyBase64(pw, base64.RawURLEncoding.EncodeToString(h)), detail, names...)
	}
	// Levels: all of them.
	for l := math.MinInt16; l <= math.MaxInt16; l++ {
		level := passhashx.SecurityLevel(l)
		if known[level] {
			continue
		}
		pw := text(r, r.IntN(80))
		h, err := passhashx.Hash(pw, level)
		s.expect("Hash", err, fmt.Sprint("level ", l), "passhashx.ErrInvalidSecurityLevel")
		if h != nil {
			s.Violate("a refused level gives data", map[string]any{"level": l, "data": fmt.Sprintf("%x", h)})
		}
		if l%97 == 0 {
			b, err := passhashx.HashBase64(pw, level)
			s.expect("HashBase64", err, fmt.Sprint("level ", l), "passhashx.ErrInvalidSecurityLevel")
			if b != "" {
				s.Violate("a refused level gives data", map[string]any{"level": l, "data": b})
			}
		}
	}
	// Structure: offsets that do not fit, unknown algorithms.
	for i := 0; i < s.N(20000, 400000); i++ {
		pw := text(r, r.IntN(40))
		alg := byte(r.IntN(256))
		salt, hash := text(r, r.IntN(40)), text(r, r.IntN(60))
		h := []byte{alg}
		end := 17 + len(salt)
		h = binary.LittleEndian.AppendUint64(h, uint64(end))
		end += len(hash)
		h = binary.LittleEndian.AppendUint64(h, uint64(end))
		h = append(append(h, salt...), hash...)
		alg0 := alg
		switch k := r.IntN(5); {
		case k == 0: // well-formed
			if alg0 > 3 {
				verify(pw, h, "unknown algorithm", "passhashx.ErrUnknownAlgorithm")
			}
			continue
		case k == 1: // cut off
			if len(h) > 17 || len(hash) > 0 {
				h = h[:r.IntN(len(h))]
			} else {
				h = h[:r.IntN(17)]
			}
		case k == 2: // ends beyond
			binary.LittleEndian.PutUint64(h[9:], uint64(len(h))+1+r.Uint64()>>uint(1+r.IntN(63)))
		case k == 3: // ends before it begins
			binary.LittleEndian.PutUint64(h[1:], uint64(end)+1+r.Uint64()>>uint(1+r.IntN(63)))
		case k == 4: // begins inside the header
			binary.LittleEndian.PutUint64(h[1:], uint64(r.IntN(17)))
		}
		names := []string{"passhashx.ErrInvalidPassHash"}
		if len(h) > 0 && h[0] > 3 {
			names = append(names, "passhashx.ErrUnknownAlgorithm")
		}
		verify(pw, h, "structure", names...)
	}
	// Genuine hashes.
	for i := 0; i < s.N(10, 150); i++ {
		level := levels[0]
		if i%6 == 5 {
			level = levels[r.IntN(4)]
		}
		pw := text(r, r.IntN(90))
		h, err := passhashx.Hash(pw, level)
		s.expect("Hash", err, fmt.Sprint("level ", level))
		verify(pw, h, "right password")
		other := bytes.Clone(pw)
		if len(other) == 0 || r.IntN(2) == 0 {
			other = append(other, 0)
		} else {
			other[r.IntN(len(other))] ^= 1 << r.IntN(8)
		}
		verify(other, h, "wrong password", "passhashx.ErrHashMismatch")
		changed := bytes.Clone(h)
		changed[17+r.IntN(len(h)-17)] ^= 1 << r.IntN(8)
		verify(pw, changed, "changed salt or hash", "passhashx.ErrHashMismatch")
		short := cry.PassHash(int(h[0])+1, h[17:33], h[33:33+r.IntN(32)])
		verify(pw, short, "shortened hash", "passhashx.ErrHashMismatch", "passhashx.ErrInvalidPassHash")
		if i%3 == 0 {
			long := cry.PassHash(int(h[0])+1, append(bytes.Clone(h[17:33]), 1), h[33:])
			verify(pw, long, "other salt length", "passhashx.ErrHashMismatch", "passhashx.ErrInvalidPassHash")
		}
	}
	// Text that is not base64: an error, and not the one that says the
	// password is wrong.
	for i := 0; i < s.N(3000, 50000); i++ {
		b := []byte(base64.RawURLEncoding.EncodeToString(text(r, 1+r.IntN(80))))
		b[r.IntN(len(b))] = "!$%+/= \x00\xff.,*"[r.IntN(11)]
		if _, err := base64.RawURLEncoding.DecodeString(string(b)); err == nil {
			continue
		}
		s.expect("VerifyBase64", passhashx.VerifyBase64([]byte("pw"), string(b)), fmt.Sprintf("not base64: %q", b), "other", "passhashx.ErrInvalidPassHash")
	}
}

func (s *suite) bcrypt(r *rand.Rand) {
	cheap := func(pw []byte) []byte {
		h, err := bcrypt.GenerateFromPassword(pw, bcrypt.MinCost)
		if err != nil {
			panic(err)
		}
		return h
	}
	dec := func(what string, enc, pw []byte, names ...string) {
		s.Context("Decrypt %s %q %q", what, enc, pw)
		ok, err := bcryptx.Decrypt(enc, pw)
		s.expect("bcryptx.Decrypt", err, fmt.Sprintf("%s: stored %q, password of %d bytes %q", what, enc, len(pw), pw), names...)
		if ok != (err == nil) {
			s.Violate("Decrypt's two answers contradict each other", map[string]any{"ok": ok, "error": fmt.Sprint(err)})
		}
	}
	for i := 0; i < s.N(200, 8000); i++ {
		n := r.IntN(73)
		if i%4 == 0 {
			n = 70 + r.IntN(3)
		}
		pw := text(r, n)
		for j := range pw {
			pw[j] |= 1 // no NUL: bcrypt's key is cyclic
		}
		h := cheap(pw)
		dec("right password", h, pw)
		other := bytes.Clone(pw)
		if n > 0 {
			other[r.IntN(n)] ^= 2
			dec("wrong password", h, other, "bcrypt.ErrMismatchedHashAndPassword")
		}
		long := append(bytes.Clone(pw), text(r, 73-n+[]int{0, 0, 1, 9, 1000}[r.IntN(5)])...)
		dec("password too long", h, long, "bcryptx.ErrPasswordTooLong")
		if enc, err := bcryptx.Encrypt(long); true {
			s.expect("bcryptx.Encrypt", err, fmt.Sprintf("password of %d bytes", len(long)), "bcryptx.ErrPasswordTooLong")
			if enc != nil {
				s.Violate("a refused password gives data", map[string]any{"length": len(long)})
			}
		}
		dec("stored hash too short", h[:r.IntN(59)], pw, "bcrypt.ErrHashTooShort")
		dec("too short and too long", h[:r.IntN(59)], long, "bcrypt.ErrHashTooShort", "bcryptx.ErrPasswordTooLong")
		bad := bytes.Clone(h)
		bad[0] = "#@x"[r.IntN(3)]
		dec("wrong prefix", bad, pw, "other")
		if _, err := bcryptx.Decrypt(bad, pw); !errors.As(err, new(bcrypt.InvalidHashPrefixError)) {
			s.Violate("a failure is not reported by its error", map[string]any{"call": "Decrypt with a hash of the wrong prefix", "error": fmt.Sprint(err)})
		}
		bad = bytes.Clone(h)
		copy(bad[4:], []string{"99", "32", "00", "03"}[r.IntN(4)])
		dec("impossible cost", bad, pw, "other")
		if _, err := bcryptx.Decrypt(bad, pw); !errors.As(err, new(bcrypt.InvalidCostError)) {
			s.Violate("a failure is not reported by its error", map[string]any{"call": "Decrypt with a hash of impossible cost", "error": fmt.Sprint(err)})
		}
	}
}

func (s *suite) aes(r *rand.Rand) {
	for i := 0; i < s.N(4000, 100000); i++ {
		key := text(r, r.IntN(40))
		data := text(r, r.IntN(15))
		_, err := aesx.DecryptCTR(data, key)
		s.expect("DecryptCTR", err, fmt.Sprintf("%d bytes", len(data)), "aesx.ErrInvalidCiphertext")
		_, err = aesx.DecryptCBC(data, key)
		s.expect("DecryptCBC", err, fmt.Sprintf("%d bytes", len(data)), "aesx.ErrInvalidCiphertext")
		data = text(r, r.IntN(12))
		_, err = aesx.DecryptGCM(data, key)
		s.expect("DecryptGCM", err, fmt.Sprintf("%d bytes", len(data)), "aesx.ErrInvalidCiphertext")
		data = text(r, 16+16*r.IntN(5)+1+r.IntN(15))
		_, err = aesx.DecryptCBC(data, key)
		s.expect("DecryptCBC", err, fmt.Sprintf("%d bytes", len(data)), "aesx.ErrInvalidCiphertext")
		_, err = aesx.EncryptCBC(data, key)
		s.expect("EncryptCBC", err, fmt.Sprintf("%d bytes", len(data)), "aesx.ErrNotFullBlocks")
		data = text(r, 12+r.IntN(60))
		_, err = aesx.DecryptGCM(data, key)
		s.expect("DecryptGCM", err, fmt.Sprintf("%d random bytes", len(data)), "other", "aesx.ErrInvalidCiphertext")
		data = data[:len(data)/16*16]
		enc, err := aesx.EncryptCBC(data, key)
		s.expect("EncryptCBC", err, fmt.Sprintf("%d bytes", len(data)))
		_, err = aesx.DecryptCBC(enc, key)
		s.expect("DecryptCBC", err, fmt.Sprintf("%d bytes", len(data)))
	}
}

func (s *suite) pool(r *rand.Rand) {
	ints := []int64{math.MinInt64, -1 << 32, -2, -1, 0, 1, 2, 1 << 40, math.MaxInt64}
	durs := []time.Duration{math.MinInt64, -time.Hour, -1, 0, 1, time.Hour, math.MaxInt64}
	for _, max := range ints {
		for _, nilHandler := range []bool{false, true} {
			for _, idle := range durs {
				for _, gc := range durs {
					for _, preheat := range []int{math.MinInt, -1, 0, 1, 3} {
						var names []string
						if max <= 0 {
							names = append(names, "gopoolx.ErrInvalidMaxWorkers")
						}
						h := func(int) {}
						if nilHandler {
							h = nil
							names = append(names, "gopoolx.ErrInvalidHandler")
						}
						if idle <= 0 {
							names = append(names, "gopoolx.ErrInvalidIdleTimeout")
						}
						if gc <= 0 {
							names = append(names, "gopoolx.ErrInvalidGCPeriod")
						}
						if len(names) == 0 && gc == 1 && r.IntN(10) != 0 {
							continue // a busy ticker
						}
						p, err := gopoolx.NewTimedPool(max, h, idle, gc, preheat)
						s.expect("NewTimedPool", err, fmt.Sprint(max, nilHandler, idle, gc, preheat), names...)
						if (p == nil) != (err != nil) {
							s.Violate("a pool and an error, or neither", map[string]any{"arguments": fmt.Sprint(max, nilHandler, idle, gc, preheat), "error": fmt.Sprint(err)})
						}
						if p != nil {
							p.Stop()
						}
					}
				}
			}
		}
	}
}

type closer struct{ err error }

func (c closer) Close() error { return c.err }

type textErr struct{ text string }

func (e *textErr) Error() string { return e.text }

func (s *suite) closers(r *rand.Rand) {
	for i := 0; i < s.N(3000, 60000); i++ {
		m := closex.New()
		var want []string
		most := 8
		if i%200 == 7 {
			most = 400
		}
		for j := r.IntN(most); j > 0; j-- {
			var err error
			switch r.IntN(5) {
			case 0:
			case 1:
				err = fmt.Errorf("failure %d/%d", i, j)
			case 2:
				err = &textErr{fmt.Sprintf("text %d\nof two lines %%d %d", i, j)}
			case 3:
				err = fmt.Errorf("outer %d: %w", j, io.ErrUnexpectedEOF)
			case 4:
				err = vk.WellKnown[r.IntN(len(vk.WellKnown))]
			}
			if err != nil {
				want = append(want, err.Error())
			}
			m.Append(closer{err})
		}
		err := m.Close()
		if len(want) == 0 {
			s.expect("Close", err, want)
			continue
		}
		s.Eval(1)
		if err == nil {
			s.Violate("failures are not reported", map[string]any{"failures": want})
		}
		all := err.Error()
		rest := all
		for _, w := range want {
			k := strings.Index(rest, w)
			if k < 0 {
				s.Violate("the text of the error does not name every failure in order", map[string]any{"failures": want, "text": all})
			}
			rest = rest[k+len(w):]
		}
		s.seen["Close: every failure named"]++
		for _, e := range []error{nil, io.EOF, &textErr{"x"}, fmt.Errorf("x: %w", io.EOF), errors.Join(io.EOF)} {
			if errs, ok := closex.AsErrs(e); ok || errs != nil {
				s.Violate("AsErrs finds a list where there is none", map[string]any{"error": fmt.Sprint(e), "list": fmt.Sprint(errs)})
			}
		}
		for _, e := range []error{err, fmt.Errorf("closing: %w", err), errors.Join(io.EOF, err), fmt.Errorf("%w, %w", io.EOF, err)} {
			if errs, ok := closex.AsErrs(e); !ok || len(errs) != len(want) {
				s.Violate("AsErrs does not find the list", map[string]any{"error": fmt.Sprint(e), "list": fmt.Sprint(errs), "failures": want})
			}
		}
	}
}
