// C42: decryption inverts encryption; the format is the documented one.
package c42

import (
	"bytes"
	crand "crypto/rand"
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/aesx"

	"verifharness/cry"
	"verifharness/golden"
	"verifharness/vk"
)

type mode struct {
	name     string
	enc, dec func(data, key []byte) ([]byte, error)
	iv, tag  int
	mine     func(msg, key, iv []byte) []byte
	block    bool
}

var modes = []mode{
	{"cbc", aesx.EncryptCBC, aesx.DecryptCBC, 16, 0, cry.CBC, true},
	{"ctr", aesx.EncryptCTR, aesx.DecryptCTR, 16, 0, cry.CTR, false},
	{"gcm", aesx.EncryptGCM, aesx.DecryptGCM, 12, 16, cry.GCM, false},
}

// guarded is a slice with room behind it that nobody may touch.
type guarded struct{ all, s []byte }

func guard(b []byte) guarded {
	all := append(bytes.Repeat([]byte{0xa5}, 8), b...)
	all = append(all, bytes.Repeat([]byte{0x5a}, 64)...)
	return guarded{all, all[8 : 8+len(b)]}
}

func (g guarded) intact(b []byte) bool {
	return bytes.Equal(g.all[:8], bytes.Repeat([]byte{0xa5}, 8)) && bytes.Equal(g.s, b) && bytes.Equal(g.all[8+len(b):], bytes.Repeat([]byte{0x5a}, 64))
}

func (g guarded) fill() {
	for i := range g.all {
		g.all[i] ^= 0xff
	}
}

func one(c *vk.C, m mode, msg, key []byte) {
	fail := func(what string, d ...any) {
		if len(msg) > 1000 {
			msg = append(append([]byte{}, msg[:100]...), "..."...)
			for i := range d {
				if b, ok := d[i].([]byte); ok {
					d[i] = b[:min(len(b), 200)]
				}
			}
		}
		c.Violate(m.name+": "+what, map[string]any{"message": fmt.Sprintf("%x", msg), "key": fmt.Sprintf("%x", key), "detail": fmt.Sprintf("%x", d)})
	}
	c.Context("%s message of %d bytes %x key %x", m.name, len(msg), msg[:min(len(msg), 1000)], key)
	gm, gk := guard(msg), guard(key)
	ct, err := m.enc(gm.s, gk.s)
	if err != nil {
		fail("encryption failed: " + err.Error())
	}
	if !gm.intact(msg) || !gk.intact(key) {
		fail("encryption changed its input")
	}
	if len(ct) != m.iv+len(msg)+m.tag {
		fail(fmt.Sprintf("ciphertext of %d bytes for %d", len(ct), len(msg)), ct)
	}
	keep := append([]byte{}, ct...)
	gm.fill()
	gk.fill()
	if !bytes.Equal(ct, keep) {
		fail("the ciphertext shares memory with the input")
	}
	if want := m.mine(msg, key, ct[:m.iv]); !bytes.Equal(ct, want) {
		fail("the ciphertext differs from the documented format", ct, want)
	}
	gc, gk := guard(ct), guard(key)
	pt, err := m.dec(gc.s, gk.s)
	if err != nil || !bytes.Equal(pt, msg) {
		fail(fmt.Sprintf("decryption of the ciphertext: %v", err), pt)
	}
	if !gc.intact(ct) || !gk.intact(key) {
		fail("decryption changed its input")
	}
	gc.fill()
	gk.fill()
	if !bytes.Equal(pt, msg) {
		fail("the decrypted message shares memory with the input")
	}
	for i := range pt[:cap(pt)] {
		pt[:cap(pt)][i] ^= 0xff
	}
	for i := range ct[:cap(ct)] {
		ct[:cap(ct)][i] ^= 0xff
	}
	ct2, err := m.enc(msg, key)
	if err != nil {
		fail("second encryption failed: " + err.Error())
	}
	if pt, err := m.dec(ct2, key); err != nil || !bytes.Equal(pt, msg) {
		fail(fmt.Sprintf("second round trip: %v", err), pt)
	}
	// and data of the independent implementation
	iv := make([]byte, m.iv)
	for i := range iv {
		iv[i] = byte(len(msg)*3 + i*i + len(key))
		if len(msg)%3 == 0 {
			iv[i] = 0xff // the counter wraps
		}
	}
	if pt, err := m.dec(m.mine(msg, key, iv), key); err != nil || !bytes.Equal(pt, msg) {
		fail(fmt.Sprintf("decryption of data from an independent implementation: %v", err), pt)
	}
	c.Eval(1)
	if len(msg) > 0 {
		c.Distinct(vk.HashS(m.name + string(msg) + "|" + string(key)))
	}
}

// reused is a caller that reads every key, message and ciphertext into the
// same buffers: only what they hold during the call counts. Keys are right and
// wrong ones; what a wrong key must yield is known from the independent
// implementation.
func reused(c *vk.C, m mode, r *rand.Rand, bytesOf func(int) []byte) {
	for round := 0; round < c.N(60, 1500); round++ {
		kl, ml := r.IntN(70), 16*r.IntN(8)
		keys, msgs := make([][]byte, 3), make([][]byte, 3)
		for i := range keys {
			keys[i], msgs[i] = bytesOf(kl), bytesOf(ml)
			if r.IntN(6) == 0 {
				keys[i] = bytesOf(r.IntN(90))
			}
			if i == 1 && len(keys[0]) > 0 {
				keys[1] = bytes.Clone(keys[0])
				keys[1][r.IntN(len(keys[1]))] ^= 1 << r.IntN(8)
			}
		}
		kb, mb := make([]byte, 0, 300), make([]byte, 0, 300)
		var log []string
		for i := 0; i < 30; i++ {
			k := r.IntN(3)
			kb = append(kb[:0], keys[k]...)
			switch r.IntN(3) {
			case 0:
				msg := msgs[r.IntN(3)]
				mb = append(mb[:0], msg...)
				log = append(log, fmt.Sprintf("encrypt %x with %x", msg, keys[k]))
				ct, err := m.enc(mb, kb)
				if err != nil || len(ct) < m.iv || !bytes.Equal(ct, m.mine(msg, keys[k], ct[:m.iv])) {
					c.Violate(m.name+": encryption from buffers used before", map[string]any{"calls": log, "result": fmt.Sprintf("%x", ct), "error": fmt.Sprint(err)})
				}
			case 1:
				msg, iv := msgs[r.IntN(3)], bytesOf(m.iv)
				mb = append(mb[:0], m.mine(msg, keys[k], iv)...)
				log = append(log, fmt.Sprintf("decrypt %x with %x", mb, keys[k]))
				pt, err := m.dec(mb, kb)
				if err != nil || !bytes.Equal(pt, msg) {
					c.Violate(m.name+": decryption from buffers used before", map[string]any{"calls": log, "result": fmt.Sprintf("%x", pt), "message": fmt.Sprintf("%x", msg), "error": fmt.Sprint(err)})
				}
			case 2: // with another key than it was encrypted with
				data := m.mine(msgs[r.IntN(3)], keys[(k+1)%3], bytesOf(m.iv))
				mb = append(mb[:0], data...)
				log = append(log, fmt.Sprintf("decrypt %x with %x", mb, keys[k]))
				pt, err := m.dec(mb, kb)
				var want []byte
				ok := true
				switch m.name {
				case "cbc":
					want = cry.UnCBC(data, keys[k])
				case "ctr":
					want = cry.UnCTR(data, keys[k])
				default:
					if want, ok = cry.UnGCM(data, keys[k]); !ok {
						want = nil
					}
				}
				if (err == nil) != ok || !bytes.Equal(pt, want) {
					c.Violate(m.name+": decryption with another key from buffers used before", map[string]any{"calls": log, "result": fmt.Sprintf("%x", pt), "want": fmt.Sprintf("%x", want), "error": fmt.Sprint(err)})
				}
			}
			c.Eval(1)
			c.Distinct(vk.HashS(m.name + log[len(log)-1]))
		}
		c.Count("calls_with_buffers_used_before", 30)
	}
}

// chosenIVs encrypts while the source of randomness hands out the IVs of the
// harness's choice: the ones at which a block counter carries over 1, 2, 4, 8
// and 16 bytes, constant ones and ones that come back under another key.
func chosenIVs(c *vk.C, m mode, r *rand.Rand, bytesOf func(int) []byte) {
	real := crand.Reader
	defer func() { crand.Reader = real }()
	for i := 0; i < c.N(160, 3000); i++ {
		iv := bytesOf(m.iv)
		at := len(iv) - []int{0, 1, 2, 4, 5, 8, 9, 12, 16}[i%9]
		for j := max(at, 0); j < len(iv); j++ {
			iv[j] = byte(0xff - i/9%2*0xff)
		}
		if i%9 != 0 && i%4 == 0 {
			iv[len(iv)-1] -= byte(r.IntN(40)) // the carry comes later
		}
		n := r.IntN(40)
		if i%5 == 0 {
			n = 256 + r.IntN(20)
		}
		if i%53 == 0 {
			n = 65536 + 2 + r.IntN(20) // carries over two bytes from anywhere
		}
		n *= 16
		if !m.block {
			n += r.IntN(16)
		}
		msg, key := bytesOf(n), bytesOf(r.IntN(40))
		crand.Reader = chosen{iv}
		ct, err := m.enc(msg, key)
		crand.Reader = real
		if err != nil || len(ct) < m.iv || !bytes.Equal(ct, m.mine(msg, key, ct[:m.iv])) {
			c.Violate(m.name+": the ciphertext differs from the documented format", map[string]any{"iv": fmt.Sprintf("%x", iv), "message bytes": n, "key": fmt.Sprintf("%x", key), "error": fmt.Sprint(err), "start": fmt.Sprintf("%x", ct[:min(len(ct), 64)])})
		}
		if bytes.Equal(ct[:m.iv], iv) {
			c.Count("encryptions_with_a_chosen_iv", 1)
		}
		if pt, err := m.dec(ct, key); err != nil || !bytes.Equal(pt, msg) {
			c.Violate(m.name+": decryption of the ciphertext", map[string]any{"iv": fmt.Sprintf("%x", iv), "message bytes": n, "error": fmt.Sprint(err)})
		}
		c.Eval(1)
		c.Distinct(vk.HashS(m.name + string(iv) + string(key)))
	}
}

type chosen struct{ iv []byte }

func (x chosen) Read(b []byte) (int, error) {
	for n := 0; n < len(b); {
		n += copy(b[n:], x.iv)
	}
	return len(b), nil
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one message and key in one mode; non-trivial when the message is not empty; distinct by mode, message and key.", func(c *vk.C) {
		for _, v := range golden.Load("cbc", "ctr", "gcm") {
			for _, m := range modes {
				if m.name != v.Kind {
					continue
				}
				data := bytes.Clone(v.Data)
				pt, err := m.dec(data, bytes.Clone(v.Key))
				if !bytes.Equal(data, v.Data) {
					c.Violate(m.name+": decryption changed its input", map[string]any{"vector": v, "now": fmt.Sprintf("%x", data)})
				}
				if err != nil || !bytes.Equal(pt, v.Msg) {
					c.Violate(m.name+": data stored by an earlier version does not decrypt", map[string]any{"vector": v, "got": fmt.Sprintf("%x", pt), "error": fmt.Sprint(err)})
				}
				if !bytes.Equal(m.mine(v.Msg, v.Key, v.Data[:m.iv]), v.Data) {
					panic("the independent implementation is wrong")
				}
				c.Eval(1)
				c.Count("stored_vectors", 1)
			}
		}
		r := c.Rand("messages")
		bytesOf := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.Uint32())
			}
			return b
		}
		for _, m := range modes {
			for n := 0; n <= c.N(130, 600); n++ { // every length
				if m.block && n%16 != 0 {
					continue
				}
				one(c, m, bytesOf(n), bytesOf(r.IntN(50)))
			}
			for n := 0; n <= 80; n++ { // every key length
				one(c, m, bytesOf(16*r.IntN(4)), bytesOf(n))
			}
			one(c, m, nil, nil)
			one(c, m, []byte{}, []byte{})
			for _, n := range []int{255 * 16, 256 * 16, 257 * 16, 65536} { // counter carries
				one(c, m, bytesOf(n), bytesOf(16))
			}
			large := []int{1<<20 - 16, 1 << 20, 1<<20 + 16, 3<<20 + 16, 5 << 20}
			if !m.block {
				large = append(large, 65535, 65537, 1<<20-1, 1<<20+1, 2<<20+1+r.IntN(1000))
			}
			if c.Thorough() {
				large = append(large, 16<<20, 33<<20, 64<<20+32)
			}
			for _, n := range large {
				one(c, m, bytesOf(n), bytesOf(r.IntN(40)))
				c.Max("largest_message", n)
			}
			one(c, m, bytesOf(160), bytesOf(70000)) // long keys
			one(c, m, bytesOf(160), bytesOf(1<<20+1))
			for i := 0; i < c.N(400, 20000); i++ {
				n := r.IntN(300)
				if m.block {
					n = n / 16 * 16
				}
				msg := bytesOf(n)
				if i%7 == 0 {
					msg = make([]byte, n)
				}
				one(c, m, msg, bytesOf(r.IntN(100)))
			}
			reused(c, m, r, bytesOf)
			chosenIVs(c, m, r, bytesOf)
			c.Sample(map[string]any{"mode": m.name, "messages": "lengths 0..130, 64 KiB, random", "keys": "lengths 0..100"})
		}
	})
}
