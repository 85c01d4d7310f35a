// Package cry holds independent implementations of the formats of cryptox.
package cry

import (
	"crypto/aes"
	"crypto/sha256"
	"encoding/binary"
)

func block(key []byte) func(dst, src []byte, decrypt bool) {
	k := sha256.Sum256(key)
	b, err := aes.NewCipher(k[:])
	if err != nil {
		panic(err)
	}
	return func(dst, src []byte, decrypt bool) {
		if decrypt {
			b.Decrypt(dst, src)
		} else {
			b.Encrypt(dst, src)
		}
	}
}

// CBC encrypts whole blocks: IV, then the ciphertext.
func CBC(msg, key, iv []byte) []byte {
	e := block(key)
	out := append([]byte{}, iv...)
	prev := append([]byte{}, iv...)
	for i := 0; i < len(msg); i += 16 {
		var x [16]byte
		for j := range x {
			x[j] = msg[i+j] ^ prev[j]
		}
		var y [16]byte
		e(y[:], x[:], false)
		copy(prev, y[:])
		out = append(out, y[:]...)
	}
	return out
}

func UnCBC(data, key []byte) []byte {
	e := block(key)
	var out []byte
	for i := 16; i < len(data); i += 16 {
		var y [16]byte
		e(y[:], data[i:i+16], true)
		for j := range y {
			out = append(out, y[j]^data[i-16+j])
		}
	}
	return out
}

func ctr(e func(dst, src []byte, decrypt bool), msg []byte, counter [16]byte, bits int) []byte {
	out := make([]byte, len(msg))
	for i := 0; i < len(msg); i += 16 {
		var y [16]byte
		e(y[:], counter[:], false)
		for j := 0; j < 16 && i+j < len(msg); j++ {
			out[i+j] = msg[i+j] ^ y[j]
		}
		for j := 15; j >= 16-bits/8; j-- {
			counter[j]++
			if counter[j] != 0 {
				break
			}
		}
	}
	return out
}

// CTR is its own inverse: IV, then the text.
func CTR(msg, key, iv []byte) []byte {
	var c [16]byte
	copy(c[:], iv)
	return append(append([]byte{}, iv...), ctr(block(key), msg, c, 128)...)
}

func UnCTR(data, key []byte) []byte { return CTR(data[16:], key, data[:16])[16:] }

// GCM by the book (SP 800-38D), bit by bit.
func GCM(msg, key, nonce []byte) []byte {
	e := block(key)
	var h, c, j0 [16]byte
	e(h[:], make([]byte, 16), false)
	copy(j0[:], nonce)
	j0[15] = 1
	c = j0
	c[15] = 2
	ct := ctr(e, msg, c, 32)
	var y [16]byte
	absorb := func(b []byte) {
		for i := range b {
			y[i] ^= b[i]
		}
		y = gmul(y, h)
	}
	for i := 0; i < len(ct); i += 16 {
		absorb(ct[i:min(i+16, len(ct))])
	}
	var l [16]byte
	binary.BigEndian.PutUint64(l[8:], uint64(len(ct))*8)
	absorb(l[:])
	var t [16]byte
	e(t[:], j0[:], false)
	for i := range t {
		t[i] ^= y[i]
	}
	return append(append(append([]byte{}, nonce...), ct...), t[:]...)
}

// UnGCM returns the message and whether the data is genuine.
func UnGCM(data, key []byte) ([]byte, bool) {
	if len(data) < 28 {
		return nil, false
	}
	e := block(key)
	var c [16]byte
	copy(c[:], data[:12])
	c[15] = 2
	msg := ctr(e, data[12:len(data)-16], c, 32)
	return msg, string(GCM(msg, key, data[:12])) == string(data)
}

func gmul(x, y [16]byte) [16]byte {
	var z [16]byte
	v := y
	for i := 0; i < 128; i++ {
		if x[i/8]>>(7-i%8)&1 == 1 {
			for j := range z {
				z[j] ^= v[j]
			}
		}
		lsb := v[15] & 1
		for j := 15; j > 0; j-- {
			v[j] = v[j]>>1 | v[j-1]<<7
		}
		v[0] >>= 1
		if lsb == 1 {
			v[0] ^= 0xe1
		}
	}
	return z
}
