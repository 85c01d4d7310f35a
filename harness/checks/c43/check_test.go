// C43: GCM decryption rejects everything else.
package c43

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/unsafe-risk/utilx/cryptox/aesx"

	"verifharness/vk"
)

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one input to decryption that is not what encryption with the key produced; all are non-trivial; distinct by kind of change, position and lengths.", func(c *vk.C) {
		r := c.Rand("tamper")
		bytesOf := func(n int) []byte {
			b := make([]byte, n)
			for i := range b {
				b[i] = byte(r.Uint32())
			}
			return b
		}
		genuine := map[string]bool{} // what encryption has produced
		enc := func(m, k []byte) []byte {
			ct, err := aesx.EncryptGCM(m, k)
			if err != nil {
				c.Violate("encryption failed", err.Error())
			}
			genuine[string(k)+"|"+string(ct)] = true
			return ct
		}
		reject := func(kind string, data, key, orig, origKey []byte) {
			if genuine[string(key)+"|"+string(data)] {
				return // by chance
			}
			c.Context("%s %x key %x", kind, data, key)
			var pt []byte
			var err error
			p := vk.TryFast(func() { pt, err = aesx.DecryptGCM(data, key) })
			c.Eval(1)
			c.Count(kind, 1)
			c.Distinct(vk.HashS(fmt.Sprint(kind, c.Seed, len(data), len(key), string(data))))
			if p != nil || err == nil || len(pt) != 0 {
				c.Violate("GCM decryption accepts "+kind, map[string]any{"original": fmt.Sprintf("%x", orig), "original_key": fmt.Sprintf("%x", origKey), "input": fmt.Sprintf("%x", data), "key": fmt.Sprintf("%x", key), "data": fmt.Sprintf("%x", pt), "error": fmt.Sprint(err), "panic": fmt.Sprint(p)})
			}
		}
		lens := []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 64, 100}
		if c.Thorough() {
			lens = nil
			for i := 0; i < 150; i++ {
				lens = append(lens, i)
			}
		}
		for _, n := range lens {
			for rep := 0; rep < c.N(2, 6); rep++ {
				key := bytesOf([]int{0, 1, 8, 16, 24, 32, 33, 70}[r.IntN(8)])
				msg := bytesOf(n)
				ct := enc(msg, key)
				if pt, err := aesx.DecryptGCM(ct, key); err != nil || !bytes.Equal(pt, msg) {
					c.Violate("the unmodified ciphertext is rejected", map[string]any{"error": fmt.Sprint(err)})
				}
				for i := 0; i < 8*len(ct); i++ { // every bit
					x := append([]byte{}, ct...)
					x[i/8] ^= 1 << (i % 8)
					reject("a changed bit", x, key, ct, key)
				}
				for i := range ct { // every byte, otherwise
					x := append([]byte{}, ct...)
					x[i] = byte(r.Uint32())
					reject("a changed byte", x, key, ct, key)
					x[r.IntN(len(x))] ^= byte(1 + r.IntN(255))
					reject("several changed bytes", x, key, ct, key)
				}
				// several changes that cancel in sums and exclusive-ors
				for _, x := range vk.Changes(r, ct, len(ct)-16, len(ct), 1000) {
					reject("a tag with "+x.Name, x.Data, key, ct, key)
				}
				for _, x := range vk.Changes(r, ct, 0, 12, 1000) {
					reject("a nonce with "+x.Name, x.Data, key, ct, key)
				}
				for _, x := range vk.Changes(r, ct, 0, len(ct), 200) {
					reject("a ciphertext with "+x.Name, x.Data, key, ct, key)
				}
				for i := 0; i < len(ct); i++ { // every truncation
					reject("a truncation at the end", ct[:i], key, ct, key)
					reject("a truncation at the front", ct[len(ct)-i:], key, ct, key)
					reject("a missing byte", append(append([]byte{}, ct[:i]...), ct[i+1:]...), key, ct, key)
					if i+1 < len(ct) {
						x := append([]byte{}, ct...)
						x[i], x[i+1] = x[i+1], x[i]
						reject("swapped bytes", x, key, ct, key)
					}
				}
				for i := 0; i <= len(ct); i += 1 + i/20 {
					reject("an inserted byte", append(append(append([]byte{}, ct[:i]...), byte(i*r.IntN(2))), ct[i:]...), key, ct, key)
				}
				for k := 1; k <= 40; k++ {
					reject("an extension", append(append([]byte{}, ct...), bytesOf(k)...), key, ct, key)
					reject("an extension with zeros", append(append([]byte{}, ct...), make([]byte, k)...), key, ct, key)
				}
				// parts of another genuine ciphertext under the same key
				other := enc(bytesOf(n), key)
				for i := 1; i < len(ct); i++ {
					reject("a splice of two ciphertexts", append(append([]byte{}, ct[:i]...), other[i:]...), key, ct, key)
				}
				reject("a doubled ciphertext", append(append([]byte{}, ct...), ct...), key, ct, key)
				same := enc(msg, key)
				reject("the tag of another encryption of the message", append(append([]byte{}, ct[:len(ct)-16]...), same[len(same)-16:]...), key, ct, key)
				// blocks exchanged, zero tags, partial tags
				if n >= 32 {
					x := append([]byte{}, ct...)
					copy(x[12:28], ct[28:44])
					copy(x[28:44], ct[12:28])
					reject("exchanged blocks", x, key, ct, key)
				}
				for k := 1; k <= 16; k++ {
					x := append([]byte{}, ct...)
					for j := 0; j < k; j++ {
						x[len(x)-1-j] = 0
					}
					reject("a zeroed tag", x, key, ct, key)
				}
				// other keys
				for i := 0; i < 8*len(key); i++ {
					k := append([]byte{}, key...)
					k[i/8] ^= 1 << (i % 8)
					reject("a key with a changed bit", ct, k, ct, key)
				}
				for i := 0; i < len(key); i++ {
					reject("a prefix of the key", ct, key[:i], ct, key)
				}
				reject("a key with a byte appended", ct, append(append([]byte{}, key...), 0), ct, key)
				reject("a key with a byte appended", ct, append(append([]byte{}, key...), 'x'), ct, key)
				reject("the key twice", ct, append(append([]byte{1}, key...), key...), ct, key)
				for i := 0; i < 20; i++ {
					reject("another key", ct, bytesOf(1+r.IntN(64)), ct, key)
				}
				// ciphertext of other modes
				if n%16 == 0 {
					x, _ := aesx.EncryptCBC(append(append([]byte{}, msg...), make([]byte, 16)...), key)
					reject("a ciphertext of CBC", x, key, ct, key)
				}
				x, _ := aesx.EncryptCTR(append(append([]byte{}, msg...), make([]byte, 16)...), key)
				reject("a ciphertext of CTR", x, key, ct, key)
			}
		}
		// The right key and then others in the same buffer, and the same for data.
		for i := 0; i < c.N(300, 6000); i++ {
			key, msg := bytesOf(1+r.IntN(70)), bytesOf(r.IntN(60))
			ct := enc(msg, key)
			kb, cb := append(make([]byte, 0, 200), key...), append(make([]byte, 0, 200), ct...)
			for again := 0; again < 3; again++ {
				if pt, err := aesx.DecryptGCM(cb, kb); err != nil || !bytes.Equal(pt, msg) {
					c.Violate("the unmodified ciphertext is rejected", map[string]any{"error": fmt.Sprint(err)})
				}
				if again%2 == i%2 {
					p := r.IntN(len(kb))
					kb[p] ^= 1 << r.IntN(8)
					reject("a changed key in the buffer of the right one", cb, kb, ct, key)
					kb[p] = key[p]
				} else {
					p := r.IntN(len(cb))
					cb[p] ^= 1 << r.IntN(8)
					reject("changed data in the buffer of the right one", cb, kb, ct, key)
					cb[p] = ct[p]
				}
			}
		}
		large(c, r, bytesOf, enc)
		key := bytesOf(16)
		for i := 0; i < c.N(20000, 1000000); i++ {
			reject("random bytes", bytesOf(r.IntN(80)), key, nil, key)
		}
		c.Sample(map[string]any{"message_lengths": lens})
	})
}

// large tampers with messages and keys of up to some MiB, at and around
// every multiple of the sizes in which something may be cut.
func large(c *vk.C, r *rand.Rand, bytesOf func(int) []byte, enc func(m, k []byte) []byte) {
	lens := []int{500, 1000, 1024, 4095, 4096, 4097, 10000, 32768, 65535, 65536, 65537, 100000, 3*65536 + 5, 1 << 20, 1<<20 + 1, 5<<20 + 3}
	if c.Thorough() {
		lens = append(lens, 2048, 8192, 16384, 131072, 1<<18, 1<<19, 1<<21, 1<<22, 1<<24, 33<<20+1)
	}
	keyLens := []int{16, 32, 1, 64, 65, 128, 129, 1000, 4097, 70000}
	for li, n := range lens {
		key := bytesOf(keyLens[li%len(keyLens)])
		msg := bytesOf(n)
		if li%3 == 2 {
			msg = make([]byte, n) // of zeros
		}
		ct := enc(msg, key)
		if pt, err := aesx.DecryptGCM(ct, key); err != nil || !bytes.Equal(pt, msg) {
			c.Violate("the unmodified ciphertext is rejected", map[string]any{"error": fmt.Sprint(err), "message_length": n})
		}
		x := append([]byte{}, ct...)
		reject := func(kind string, at int, data, key []byte) {
			c.Context("%s at %d of %d key of %d", kind, at, n, len(key))
			var pt []byte
			var err error
			p := vk.TryFast(func() { pt, err = aesx.DecryptGCM(data, key) })
			c.Eval(1)
			c.Count(kind, 1)
			c.Distinct(vk.HashS(fmt.Sprint("large", kind, c.Seed, n, at, len(key))))
			if p != nil || err == nil || len(pt) != 0 {
				c.Violate("GCM decryption accepts "+kind, map[string]any{"message_length": n, "key_length": len(key), "at": at, "data_length": len(pt), "error": fmt.Sprint(err), "panic": fmt.Sprint(p)})
			}
		}
		// places: the ends, the multiples of sizes, and anywhere
		var at []int
		for _, p := range []int{0, 1, 11, 12, 13, 27, 28, len(ct) - 1, len(ct) - 15, len(ct) - 16, len(ct) - 17, len(ct) - 18, len(ct) - 32, len(ct) - 33, len(ct) / 2} {
			at = append(at, p)
		}
		for _, sz := range []int{64, 256, 512, 1000, 1024, 4096, 8192, 16384, 32768, 65536, 1 << 17, 1 << 18, 1 << 20, 1 << 22} {
			k := len(ct) / sz
			for _, m := range []int{1, 2, 3, k, 1 + r.IntN(k+1)} {
				if k == 0 {
					continue
				}
				for _, d := range []int{0, -1, 12, 16, 28, 28 * m} {
					at = append(at, m*sz+d)
				}
			}
		}
		for i := 0; i < c.N(40, 200); i++ {
			at = append(at, r.IntN(len(ct)))
		}
		if n >= 1<<20 { // these take time
			r.Shuffle(len(at), func(i, j int) { at[i], at[j] = at[j], at[i] })
			at = at[:min(len(at), c.N(90, 200))]
			at = append(at, 12, len(ct)-16, len(ct)-17, len(ct)-1, 12+65536+16, 12+1<<20+16, 12+1<<20)
		}
		seen := map[int]bool{}
		for _, p := range at {
			if p < 0 || p >= len(ct) || seen[p] {
				continue
			}
			seen[p] = true
			old := x[p]
			x[p] ^= 1 << r.IntN(8)
			reject("a changed bit of a large message", p, x, key)
			x[p] = old
			reject("a large message cut at the end", p, ct[:p], key)
			if p > 0 {
				reject("a large message cut at the front", p, ct[p:], key)
			}
			// two blocks of 16 exchanged, and two larger ones
			for _, b := range []int{16, 4096, 65536} {
				q := p - p%b + 12
				if q+2*b > len(ct)-16 || bytes.Equal(ct[q:q+b], ct[q+b:q+2*b]) {
					continue
				}
				copy(x[q:], ct[q+b:q+2*b])
				copy(x[q+b:], ct[q:q+b])
				reject(fmt.Sprintf("exchanged parts of %d bytes of a large message", b), p, x, key)
				copy(x[q:q+2*b], ct[q:q+2*b])
			}
		}
		for _, k := range []int{1, 16, 28, 4096, 65536} {
			reject("an extended large message", k, append(append([]byte{}, ct...), make([]byte, k)...), key)
			if len(ct) > k+28 { // a part left out, one repeated
				q := 12 + 16*r.IntN((len(ct)-28-k)/16+1)
				reject("a large message with a part left out", k, append(append([]byte{}, ct[:q]...), ct[q+k:]...), key)
				reject("a large message with a part repeated", k, append(append([]byte{}, ct[:q+k]...), ct[q:]...), key)
			}
		}
		reject("a doubled large message", 0, append(append([]byte{}, ct...), ct...), key)
		// another encryption of the message: its nonce, its tag, its end
		other := enc(msg, key)
		for _, q := range []int{12, len(ct) / 2, 12 + (len(ct)-28)/32*16, len(ct) - 16} {
			reject("a splice of two large messages", q, append(append([]byte{}, ct[:q]...), other[q:]...), key)
		}
		if n <= 1<<18 {
			for _, p := range []int{0, 15, 16, 31, 32, 63, 64, 127, 128, 4095, 4096, 65535, 65536, len(key) - 1, len(key) / 2, r.IntN(len(key))} {
				if p < len(key) {
					k := append([]byte{}, key...)
					k[p] ^= 1 << r.IntN(8)
					reject("a long key with a changed bit", p, ct, k)
					reject("a prefix of a long key", p, ct, key[:p])
				}
			}
			reject("a long key with a byte appended", 0, ct, append(append([]byte{}, key...), 0))
		}
	}
	// long keys with short messages
	for _, n := range []int{64, 65, 100, 128, 200, 256, 1000, 4096, 65536, 65537, 100000, 1 << 20} {
		key := bytesOf(n)
		msg := bytesOf(r.IntN(40))
		ct := enc(msg, key)
		for i := 0; i < c.N(40, 300); i++ {
			k := append([]byte{}, key...)
			p := r.IntN(n)
			if i < 2 {
				p = (n - 1) * i
			}
			k[p] ^= 1 << r.IntN(8)
			if i%4 == 3 {
				k = k[:p]
			}
			var pt []byte
			var err error
			pv := vk.TryFast(func() { pt, err = aesx.DecryptGCM(ct, k) })
			c.Eval(1)
			c.Count("changed long keys", 1)
			c.Distinct(vk.HashS(fmt.Sprint("longkey", c.Seed, n, p, i%4 == 3)))
			if pv != nil || err == nil || len(pt) != 0 {
				c.Violate("GCM decryption accepts a changed long key", map[string]any{"key_length": n, "at": p, "cut": i%4 == 3, "error": fmt.Sprint(err), "panic": fmt.Sprint(pv)})
			}
		}
	}
}
