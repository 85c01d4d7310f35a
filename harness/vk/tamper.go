package vk

import "math/rand/v2"

// Changes returns changes of several bytes of b[lo:hi] at once that weaker
// comparisons (sums, exclusive-ors, sorted or word-wise ones, polynomials)
// do not notice: each is a changed copy of b with a name.
func Changes(r *rand.Rand, b []byte, lo, hi, most int) (out []Change) {
	add := func(name string, f func(x []byte)) {
		x := append([]byte(nil), b...)
		f(x[lo:hi])
		for i := range x {
			if x[i] != b[i] {
				out = append(out, Change{name, x})
				return
			}
		}
	}
	n := hi - lo
	for _, d := range []int{1, 2, 4, 8, 16} {
		for i := 0; i+d < n; i++ {
			m := byte(1) << r.IntN(8)
			add("the same bit changed in two places", func(x []byte) { x[i] ^= m; x[i+d] ^= m })
			add("the top bit changed in two places", func(x []byte) { x[i] ^= 0x80; x[i+d] ^= 0x80 })
			v := byte(1 + r.IntN(255))
			add("one byte increased and another decreased by the same amount", func(x []byte) { x[i] += v; x[i+d] -= v })
			add("two bytes exchanged", func(x []byte) { x[i], x[i+d] = x[i+d], x[i] })
		}
	}
	for _, w := range []int{2, 4, 8, 16} {
		for i := 0; i+2*w <= n; i += w {
			j := i + w + w*r.IntN((n-i-w)/w)
			add("two words exchanged", func(x []byte) {
				for k := 0; k < w; k++ {
					x[i+k], x[j+k] = x[j+k], x[i+k]
				}
			})
			m := r.Uint64() | 1
			add("two words changed in the same bits", func(x []byte) {
				for k := 0; k < w; k++ {
					x[i+k] ^= byte(m >> (8 * (k % 8)))
					x[j+k] ^= byte(m >> (8 * (k % 8)))
				}
			})
		}
	}
	for i := 0; i < 20; i++ {
		add("bytes permuted", func(x []byte) { r.Shuffle(n, func(a, b int) { x[a], x[b] = x[b], x[a] }) })
		m := byte(1 + r.IntN(255))
		add("all bytes changed in the same bits", func(x []byte) {
			for k := range x {
				x[k] ^= m
			}
		})
		add("all other bytes changed", func(x []byte) {
			k := r.IntN(n)
			for j := range x {
				if j != k {
					x[j] ^= byte(1 + r.IntN(255))
				}
			}
		})
	}
	add("reversed", func(x []byte) {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
	})
	r.Shuffle(len(out), func(i, j int) { out[i], out[j] = out[j], out[i] })
	if len(out) > most {
		out = out[:most]
	}
	return out
}

// Change is a changed copy of something.
type Change struct {
	Name string
	Data []byte
}
