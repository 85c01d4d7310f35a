package vk

import (
	"bytes"
	crand "crypto/rand"
)

type fixed struct{ b []byte }

func (x fixed) Read(b []byte) (int, error) {
	for n := 0; n < len(b); {
		n += copy(b[n:], x.b)
	}
	return len(b), nil
}

// WithSalts calls f while the source of randomness hands out bytes that a
// careless handling of salts would lose or change: NULs, spaces, bytes above
// 127, the characters that encodings treat specially. Nothing else may use
// randomness meanwhile.
func WithSalts(n int, f func(k int, salt []byte)) {
	real := crand.Reader
	defer func() { crand.Reader = real }()
	z := func(x byte, k int) []byte { return bytes.Repeat([]byte{x}, k) }
	for k, s := range [][]byte{z(0, 16), z(255, 16), append(z(0, 8), z(7, 8)...), append(z(7, 15), 0), append(z(7, 12), z(0, 4)...), z(' ', 16), z('\n', 16), z('=', 16), z(0x80, 16), z(0xfb, 16), append([]byte{0}, z(0x41, 15)...), append(z(0x41, 15), '\n')} {
		if k == n {
			return
		}
		crand.Reader = fixed{s}
		f(k, s)
		crand.Reader = real
	}
}
