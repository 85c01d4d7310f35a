// C04: the ordered map against a sorted map, with callbacks that change it.
package c04

import (
	"cmp"
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"

	"verifharness/seq"
	"verifharness/vk"
)

func sorted[K cmp.Ordered, V any](m map[K]V) []K {
	ks := make([]K, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

func state[K cmp.Ordered, V any](m *ordmapx.OrdMap[K, V], d map[K]V, probe []K) error {
	same := seq.Same[V]()
	vk.Op()
	if m.Len() != len(d) {
		return fmt.Errorf("Len is %d, ideal %d", m.Len(), len(d))
	}
	want := sorted(d)
	for twice := 0; twice < 2; twice++ {
		ks, vs := m.Keys(), m.Values()
		if len(ks) != len(want) || len(vs) != len(want) {
			return fmt.Errorf("%d keys and %d values, ideal %d", len(ks), len(vs), len(want))
		}
		for i, k := range want {
			if ks[i] != k || !same(vs[i], d[k]) {
				return fmt.Errorf("entry %d is (%v,%v), ideal (%v,%v)", i, ks[i], vs[i], k, d[k])
			}
		}
		// The listings belong to the caller: overwriting or extending them
		// must not show up anywhere.
		clear(ks)
		clear(vs)
		_, _ = append(ks, ks...), append(vs, vs...)
	}
	n := 0
	var bad error
	m.Range(func(k K, v V) bool {
		if n >= len(want) || k != want[n] || !same(v, d[k]) {
			bad = fmt.Errorf("Range entry %d is (%v,%v)", n, k, v)
			return true
		}
		n++
		return false
	})
	if bad != nil {
		return bad
	}
	if n != len(want) {
		return fmt.Errorf("Range visits %d of %d entries", n, len(want))
	}
	for _, stop := range []int{0, 63, 64, 255, 256, 1000, 4095, 4096, 32767, 65535, len(want) / 2, len(want) - 1} {
		if len(want) <= 64 || stop >= len(want) {
			continue
		}
		n := 0
		m.Range(func(k K, v V) bool {
			if n > stop || k != want[n] || !same(v, d[k]) {
				bad = fmt.Errorf("Range that is to stop at entry %d: entry %d is (%v,%v)", stop, n, k, v)
			}
			n++
			return n > stop
		})
		if bad != nil {
			return bad
		}
		if n != stop+1 {
			return fmt.Errorf("Range that is to stop at entry %d visits %d", stop, n)
		}
	}
	for _, k := range probe {
		v, ok := m.Get(k)
		w, wok := d[k]
		if !same(v, w) || ok != wok {
			return fmt.Errorf("Get(%v) is (%v,%v), ideal (%v,%v)", k, v, ok, w, wok)
		}
	}
	return nil
}

// exec: steps Set k, Del k, Clear, Range stop; inside a Range the steps up to
// the matching End are handed to its callbacks one by one ("Visit" ends the
// work of one callback).
func exec[K cmp.Ordered, V any](key func(int) K, value func(int) V, span, every int) func(h []vk.Step) error {
	probe := make([]K, span)
	for i := range probe {
		probe[i] = key(i)
	}
	return func(h []vk.Step) error {
		m := ordmapx.New[K, V]()
		d := map[K]V{}
		val := 0
		change := func(s vk.Step, stay map[K]bool) {
			switch s.Op {
			case "Set":
				val++
				m.Set(key(s.A[0]), value(val))
				d[key(s.A[0])] = value(val)
			case "Del":
				m.Del(key(s.A[0]))
				delete(d, key(s.A[0]))
				delete(stay, key(s.A[0]))
			case "Clear":
				m.Clear()
				clear(d)
				clear(stay)
			}
		}
		for i := 0; i < len(h); i++ {
			vk.Op()
			s := h[i]
			if s.Op != "Range" {
				if s.Op != "Visit" && s.Op != "End" {
					change(s, nil)
				}
				if every <= 1 || i%every == 0 {
					if err := state(m, d, probe); err != nil {
						return err
					}
				}
				continue
			}
			stay := map[K]bool{}
			for k := range d {
				stay[k] = true
			}
			stop := s.A[0]
			var last K
			visits := 0
			stopped := false
			var bad error
			vk.Op()
			m.Range(func(k K, v V) bool {
				vk.Op()
				if bad != nil {
					return true
				}
				if stopped {
					bad = fmt.Errorf("Range calls its callback again after it asked to stop")
					return true
				}
				visits++
				if visits > 1 && k <= last {
					bad = fmt.Errorf("Range visits key %v after key %v", k, last)
					return true
				}
				for x := range stay {
					if x < k && (visits == 1 || x > last) {
						bad = fmt.Errorf("Range visits key %v and skips key %v, which was in the map all the time", k, x)
						return true
					}
				}
				if _, ok := d[k]; !ok {
					bad = fmt.Errorf("Range visits key %v, which is not in the map", k)
					return true
				}
				if !seq.Same[V]()(d[k], v) {
					bad = fmt.Errorf("Range passes value %v for key %v, its current value is %v", v, k, d[k])
					return true
				}
				if visits > len(h)+span+10 {
					bad = fmt.Errorf("Range does not end")
					return true
				}
				last = k
				for i+1 < len(h) && h[i+1].Op != "End" && h[i+1].Op != "Range" {
					i++
					if h[i].Op == "Visit" {
						break
					}
					change(h[i], stay)
					if i%5 == 0 {
						if bad = state(m, d, probe); bad != nil {
							return true
						}
					}
				}
				stopped = visits == stop
				return stopped
			})
			if bad != nil {
				return bad
			}
			if !stopped {
				for x := range stay {
					if visits == 0 || x > last {
						return fmt.Errorf("Range ends without visiting key %v, which was in the map all the time", x)
					}
				}
			}
			for i+1 < len(h) && h[i+1].Op != "End" && h[i+1].Op != "Range" {
				i++
			}
			if err := state(m, d, probe); err != nil {
				return fmt.Errorf("after Range: %w", err)
			}
		}
		return state(m, d, probe)
	}
}

func random(r *rand.Rand, span, n int) []vk.Step {
	var h []vk.Step
	ch := func(bias int, near int) {
		k := r.IntN(span)
		if near >= 0 && r.IntN(2) == 0 {
			k = min(span-1, max(0, near+r.IntN(5)-2))
		}
		switch {
		case r.IntN(60) == 0:
			h = append(h, vk.S("Clear"))
		case r.IntN(10) < bias:
			h = append(h, vk.S("Set", k))
		default:
			h = append(h, vk.S("Del", k))
		}
	}
	for len(h) < n {
		b := 2 + r.IntN(8)
		for i := r.IntN(span) + 1; i > 0; i-- {
			ch(b, -1)
		}
		stop := 0
		if r.IntN(3) == 0 {
			stop = 1 + r.IntN(span)
		}
		h = append(h, vk.S("Range", stop))
		for v := 0; v < r.IntN(span+2); v++ {
			for i := r.IntN(3); i > 0; i-- {
				ch(b, v)
			}
			h = append(h, vk.S("Visit"))
		}
		h = append(h, vk.S("End"))
	}
	return h
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of ordered-map calls, including changes made by Range callbacks, compared with a sorted map after the calls; non-trivial when it changes the map.", func(c *vk.C) {
		vk.SetBound(5000000)
		id := func(i int) int { return i - 1 }
		run := exec(id, id, 3, 1)
		words := func(name string, prefix, letters []vk.Step, n int) {
			vk.Words(len(letters), n, func(w []int) {
				h := append([]vk.Step{}, prefix...)
				for _, x := range w {
					h = append(h, letters[x])
				}
				c.Distinct(vk.HashS(vk.HistString(h)))
				c.History(name, h, run)
			})
		}
		var chg []vk.Step
		for k := 0; k < 3; k++ {
			chg = append(chg, vk.S("Set", k), vk.S("Del", k))
		}
		chg = append(chg, vk.S("Clear"))
		for n := 1; n <= c.N(4, 5); n++ {
			words("all short histories", nil, chg, n)
		}
		full := []vk.Step{vk.S("Set", 2), vk.S("Set", 0), vk.S("Set", 1)}
		for stop := 0; stop < 3; stop++ {
			words("all short callback scripts", append(append([]vk.Step{}, full...), vk.S("Range", stop)), append(chg, vk.S("Visit")), c.N(4, 5))
			words("all short callback scripts", []vk.Step{vk.S("Set", 0), vk.S("Set", 2), vk.S("Range", stop)}, append(chg, vk.S("Visit")), c.N(3, 5))
		}
		r := c.Rand("random")
		for i := 0; i < c.N(1500, 50000); i++ {
			span := 2 + r.IntN(25)
			h := random(r, span, 150)
			c.Distinct(vk.HashS(vk.HistString(h)))
			if i == 0 {
				c.Sample(map[string]any{"workload": "random", "history": vk.HistString(h)})
			}
			c.History("random int keys", h, exec(id, id, span, 3))
		}
		for i := 0; i < c.N(300, 5000); i++ {
			span := 2 + r.IntN(25)
			h := random(r, span, 150)
			c.Distinct(vk.HashS("s" + vk.HistString(h)))
			c.History("random string keys", h, exec(func(i int) string { return []string{"", "a", "\x00", "zz"}[i%4] + fmt.Sprint(i/4*7%11, i/4) }, id, span, 7))
		}
		kind := func(name string, span int, run func([]vk.Step) error) {
			for i := 0; i < c.N(60, 1500); i++ {
				h := random(r, span, 120)
				c.Distinct(vk.HashS(name + vk.HistString(h)))
				c.Count("histories_of_other_kinds_of_entry", 1)
				c.History("entries of kind "+name, h, run)
			}
		}
		kind("string keys, any values", 6, exec(func(i int) string { return []string{"", "a", "\x00", "aa", "\xff", "é"}[i] }, seq.MkAny, 6, 3))
		kind("extreme int64 keys, mixed values", 5, exec(func(i int) int64 { return []int64{math.MinInt64, -1, 0, 1, math.MaxInt64}[i] }, seq.MkMixed, 5, 3))
		kind("extreme uint64 keys, big values", 5, exec(func(i int) uint64 { return []uint64{math.MaxUint64, 1 << 63, 0, 1, 1<<63 - 1}[i] }, seq.MkBig, 5, 3))
		kind("extreme uint64 keys, huge values", 5, exec(func(i int) uint64 { return []uint64{math.MaxUint64, 1 << 63, 0, 1, 1<<63 - 1}[i] }, seq.MkHuge, 5, 3))
		kind("extreme uint64 keys, odd values", 5, exec(func(i int) uint64 { return []uint64{math.MaxUint64, 1 << 63, 0, 1, 1<<63 - 1}[i] }, seq.MkOdd, 5, 3))
		kind("float keys, error values", 6, exec(func(i int) float64 {
			return []float64{math.Inf(1), math.Inf(-1), 0, 5e-324, -5e-324, math.MaxFloat64}[i]
		}, seq.MkErr, 6, 3))
		kind("int8 keys, no values", 200, exec(func(i int) int8 { return int8(i * 7) }, seq.MkUnit, 200, 20))
		kind("float32 keys, pointers and nils", 9, exec(func(i int) float32 { return float32(i-4) / 3 }, seq.MkPtr, 9, 3))
		kind("int keys, slices", 9, exec(id, seq.MkSlice, 9, 3))
		kind("int keys, maps", 9, exec(id, seq.MkMap, 9, 3))
		kind("int keys, functions", 9, exec(id, seq.MkFunc, 9, 3))
		kind("int keys, channels", 9, exec(id, seq.MkChan, 9, 3))
		kind("int keys, floats", 9, exec(id, seq.MkFloat, 9, 3))
		kind("int keys, complex numbers", 9, exec(id, seq.MkComplex, 9, 3))
		kind("int keys, uncomparable struct", 9, exec(id, seq.MkLoose, 9, 3))
		kind("int keys, uncomparable any", 9, exec(id, seq.MkLooseAny, 9, 3))
		for i := 0; i < c.N(5, 50); i++ {
			n := 8 + r.IntN(40)
			ws, fs, is := seq.Words(r, n), seq.Floats(r, n), seq.Ints(r, n)
			kind("words", n, exec(func(i int) string { return ws[i] }, id, n, 5))
			kind("floats", n, exec(func(i int) float64 { return fs[i] }, id, n, 5))
			kind("ints", n, exec(func(i int) int64 { return is[i] }, id, n, 5))
		}
		for i := 0; i < c.N(8, 100); i++ {
			h := random(r, 1500, 5000)
			c.Distinct(vk.HashS(vk.HistString(h)))
			c.History("large map", h, exec(func(i int) float64 { return float64(i)*1.5 - 700 }, id, 1500, 500))
		}
		for i := 0; i < c.N(2, 10); i++ {
			scale(c, r, []int{70000, 140000}[i%2]+r.IntN(1000))
		}
	})
}

// scale uses more entries than 16 and 17 bits count.
func scale(c *vk.C, r *rand.Rand, n int) {
	vk.SetBound(200000000)
	defer vk.SetBound(5000000)
	m := ordmapx.New[int, int]()
	d := map[int]int{}
	probe := make([]int, 2000)
	for i := range probe {
		probe[i] = r.IntN(2*n) - n/2
	}
	c.Eval(1)
	c.Max("most_entries", n)
	c.Distinct(uint64(n))
	check := func(what string) {
		if err := vk.TryFast(func() {
			if err := state(m, d, probe); err != nil {
				c.Violate("large map: "+err.Error(), map[string]any{"entries": n, "after": what})
			}
		}); err != nil {
			c.Violate("large map: "+err.Error(), map[string]any{"entries": n, "after": what})
		}
	}
	for _, k := range r.Perm(n) {
		vk.Op()
		m.Set(k, k*3)
		d[k] = k * 3
	}
	check("all keys set")
	// A traversal whose callback removes what is ahead and behind, and adds.
	var want, got []int
	vk.Op()
	m.Range(func(k, v int) bool {
		vk.Op()
		got = append(got, k)
		if d[k] != v {
			c.Violate("large map: Range passes a value that is not the current one", map[string]any{"entries": n, "key": k, "value": v, "want": d[k]})
		}
		if k%3 == 0 {
			for _, x := range []int{k + 1, k - 2} {
				m.Del(x)
				delete(d, x)
			}
		}
		if k%1000 == 0 {
			m.Set(-k-1, k)
			d[-k-1] = k
			m.Set(k+2, k)
			if k+2 < n {
				d[k+2] = k
			} else {
				m.Del(k + 2)
			}
		}
		return false
	})
	for k := 0; k < n; k++ {
		if k%3 != 1 {
			want = append(want, k)
		}
	}
	if !slices.Equal(got, want) {
		c.Violate("large map: Range does not visit the keys that are in the map all the time, in order, and no removed one", map[string]any{"entries": n, "visited": len(got), "want": len(want)})
	}
	check("a traversal with changes")
	for i, k := range r.Perm(n) {
		if i%3 > 0 {
			vk.Op()
			m.Del(k)
			delete(d, k)
		}
	}
	check("most keys removed")
	m.Clear()
	clear(d)
	check("Clear")
	m.Set(5, 6)
	d[5] = 6
	check("Clear and Set")
}
