package cry

import (
	"encoding/binary"
	"math/bits"

	"golang.org/x/crypto/blake2b"
)

// Argon2id after RFC 9106, lane by lane.
func Argon2id(password, salt []byte, passes, memory, lanes uint32, length int) []byte {
	le := func(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
	var in []byte
	for _, v := range []uint32{lanes, uint32(length), memory, passes, 0x13, 2} {
		in = append(in, le(v)...)
	}
	in = append(append(in, le(uint32(len(password)))...), password...)
	in = append(append(in, le(uint32(len(salt)))...), salt...)
	in = append(append(in, le(0)...), le(0)...)
	h0 := blake2b.Sum512(in)

	m := 4 * lanes * (memory / (4 * lanes))
	q := m / lanes // columns
	seg := q / 4
	type blk = [128]uint64
	B := make([]blk, m)
	at := func(lane, col uint32) *blk { return &B[lane*q+col] }
	load := func(b *blk, p []byte) {
		for i := range b {
			b[i] = binary.LittleEndian.Uint64(p[8*i:])
		}
	}
	for l := uint32(0); l < lanes; l++ {
		for c := uint32(0); c < 2; c++ {
			load(at(l, c), hprime(append(append(append([]byte{}, h0[:]...), le(c)...), le(l)...), 1024))
		}
	}
	for pass := uint32(0); pass < passes; pass++ {
		for slice := uint32(0); slice < 4; slice++ {
			for l := uint32(0); l < lanes; l++ {
				independent := pass == 0 && slice < 2
				var input, addr, zero blk
				input[0], input[1], input[2], input[3], input[4], input[5] = uint64(pass), uint64(l), uint64(slice), uint64(m), uint64(passes), 2
				next := func() {
					input[6]++
					compress(&addr, &zero, &input, false)
					compress(&addr, &zero, &addr, false)
				}
				start := uint32(0)
				if pass == 0 && slice == 0 {
					start = 2
					if independent {
						next()
					}
				}
				for i := start; i < seg; i++ {
					col := slice*seg + i
					prevCol := col - 1
					if col == 0 {
						prevCol = q - 1
					}
					prev := at(l, prevCol)
					var rnd uint64
					if independent {
						if i%128 == 0 {
							next()
						}
						rnd = addr[i%128]
					} else {
						rnd = prev[0]
					}
					j1, j2 := uint64(uint32(rnd)), uint32(rnd>>32)
					rl := j2 % lanes
					if pass == 0 && slice == 0 {
						rl = l
					}
					// reference area
					var area uint32
					if pass == 0 {
						if slice == 0 || rl == l {
							area = slice*seg + i - 1
						} else {
							area = slice * seg
							if i == 0 {
								area--
							}
						}
					} else {
						if rl == l {
							area = q - seg + i - 1
						} else {
							area = q - seg
							if i == 0 {
								area--
							}
						}
					}
					x := j1 * j1 >> 32
					y := uint64(area) * x >> 32
					z := uint64(area) - 1 - y
					base := uint64(0)
					if pass != 0 && slice != 3 {
						base = uint64(slice+1) * uint64(seg)
					}
					ref := at(rl, uint32((base+z)%uint64(q)))
					compress(at(l, col), prev, ref, pass > 0)
				}
			}
		}
	}
	var c blk
	for l := uint32(0); l < lanes; l++ {
		for i, v := range at(l, q-1) {
			c[i] ^= v
		}
	}
	var p []byte
	for _, v := range c {
		p = binary.LittleEndian.AppendUint64(p, v)
	}
	return hprime(p, length)
}

func hprime(in []byte, n int) []byte {
	in = append(binary.LittleEndian.AppendUint32(nil, uint32(n)), in...)
	sum := func(n int, b []byte) []byte {
		h, err := blake2b.New(n, nil)
		if err != nil {
			panic(err)
		}
		h.Write(b)
		return h.Sum(nil)
	}
	if n <= 64 {
		return sum(n, in)
	}
	var out []byte
	v := sum(64, in)
	for n-len(out) > 64 {
		out = append(out, v[:32]...)
		if n-len(out) > 64 {
			v = sum(64, v)
		}
	}
	return append(out, sum(n-len(out), v)...)
}

func compress(dst, x, y *[128]uint64, xor bool) {
	var r, z [128]uint64
	for i := range r {
		r[i] = x[i] ^ y[i]
	}
	z = r
	for i := 0; i < 8; i++ { // rows
		round(&z, func(k int) int { return 16*i + k })
	}
	for i := 0; i < 8; i++ { // columns
		round(&z, func(k int) int { return 2*i + k/2*16 + k%2 })
	}
	for i := range z {
		if xor {
			dst[i] ^= z[i] ^ r[i]
		} else {
			dst[i] = z[i] ^ r[i]
		}
	}
}

func round(b *[128]uint64, at func(int) int) {
	var v [16]uint64
	for k := range v {
		v[k] = b[at(k)]
	}
	g := func(a, b, c, d int) {
		f := func(x, y uint64) uint64 { return x + y + 2*uint64(uint32(x))*uint64(uint32(y)) }
		v[a] = f(v[a], v[b])
		v[d] = bits.RotateLeft64(v[d]^v[a], -32)
		v[c] = f(v[c], v[d])
		v[b] = bits.RotateLeft64(v[b]^v[c], -24)
		v[a] = f(v[a], v[b])
		v[d] = bits.RotateLeft64(v[d]^v[a], -16)
		v[c] = f(v[c], v[d])
		v[b] = bits.RotateLeft64(v[b]^v[c], -63)
	}
	g(0, 4, 8, 12)
	g(1, 5, 9, 13)
	g(2, 6, 10, 14)
	g(3, 7, 11, 15)
	g(0, 5, 10, 15)
	g(1, 6, 11, 12)
	g(2, 7, 8, 13)
	g(3, 4, 9, 14)
	for k := range v {
		b[at(k)] = v[k]
	}
}

// Level holds the cost of a security level: passes, memory in KiB, lanes.
var Levels = map[int][3]uint32{1: {20, 64 * 1024, 4}, 2: {32, 4 * 1024, 1}, 3: {4, 37 * 1024, 1}, 4: {8, 15 * 1024, 1}}

// PassHash assembles a stored hash.
func PassHash(level int, salt, hash []byte) []byte {
	out := []byte{byte(level - 1)}
	out = binary.LittleEndian.AppendUint64(out, uint64(17+len(salt)))
	out = binary.LittleEndian.AppendUint64(out, uint64(17+len(salt)+len(hash)))
	return append(append(out, salt...), hash...)
}
