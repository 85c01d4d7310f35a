// C01: the skip-list map against a sorted map.
package c01

import (
	"fmt"
	"math"
	"math/rand/v2"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"golang.org/x/exp/constraints"

	"verifharness/seq"
	"verifharness/vk"
)

type ideal[K constraints.Ordered, V any] struct {
	m map[K]V
}

func (d *ideal[K, V]) keys() []K {
	ks := make([]K, 0, len(d.m))
	for k := range d.m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	return ks
}

// listings compares every whole-map observation with the ideal map.
func listings[K constraints.Ordered, V any](m *sklmapx.SkipListMap[K, V], d *ideal[K, V], str bool) error {
	same := seq.Same[V]()
	vk.Op()
	if m.Len() != len(d.m) {
		return fmt.Errorf("Len is %d, ideal %d", m.Len(), len(d.m))
	}
	want := d.keys()
	var shown []K // the keys as the map spells them (0 and -0 are one key)
	for twice := 0; twice < 2; twice++ {
		ks, vs, mm := m.Keys(), m.Values(), m.ToMap()
		if len(ks) != len(want) || len(vs) != len(want) || len(mm) != len(want) {
			return fmt.Errorf("%d keys, %d values, %d map entries listed, ideal %d", len(ks), len(vs), len(mm), len(want))
		}
		for i, k := range want {
			if ks[i] != k {
				return fmt.Errorf("Keys[%d] is %v, ideal %v", i, ks[i], k)
			}
			if !same(vs[i], d.m[k]) {
				return fmt.Errorf("Values[%d] is %v, ideal %v (key %v)", i, vs[i], d.m[k], k)
			}
			if v, ok := mm[k]; !ok || !same(v, d.m[k]) {
				return fmt.Errorf("ToMap has (%v,%v) for key %v, ideal %v", v, ok, k, d.m[k])
			}
		}
		// The listings belong to the caller: overwriting them must not show up
		// anywhere.
		shown = append([]K(nil), ks...)
		clear(ks)
		clear(vs)
		_, _ = append(ks, ks...), append(vs, vs...)
		clear(mm)
		if len(want) > 5000 {
			break
		}
	}
	if str {
		var b strings.Builder
		b.WriteString("sklmapx[")
		for i, k := range want {
			if i > 0 {
				b.WriteString(" ")
			}
			fmt.Fprintf(&b, "%v:%v", shown[i], d.m[k])
		}
		b.WriteString("]")
		if m.String() != b.String() {
			return fmt.Errorf("String is %q, ideal %q", m.String(), b.String())
		}
	}
	return nil
}

func lookup[K constraints.Ordered, V any](m *sklmapx.SkipListMap[K, V], d *ideal[K, V], k K) error {
	vk.Op()
	v, ok := m.Get(k)
	w, wok := d.m[k]
	if ok != wok || !seq.Same[V]()(v, w) {
		return fmt.Errorf("Get(%v) is (%v,%v), ideal (%v,%v)", k, v, ok, w, wok)
	}
	return nil
}

func exec[K constraints.Ordered, V any](key func(int) K, val func(int) V, every, span int) func([]vk.Step) error {
	return func(h []vk.Step) error {
		m := sklmapx.New[K, V]()
		d := &ideal[K, V]{map[K]V{}}
		for i, s := range h {
			vk.Op()
			switch s.Op {
			case "Set":
				m.Set(key(s.A[0]), val(i+1))
				d.m[key(s.A[0])] = val(i + 1)
			case "Del":
				k := key(s.A[0])
				_, was := d.m[k]
				delete(d.m, k)
				if got := m.Del(k); got != was {
					return fmt.Errorf("Del(%v) reports %v, present was %v", k, got, was)
				}
			case "Clear":
				m.Clear()
				clear(d.m)
			}
			if every <= 1 || i%every == 0 {
				for x := 0; x < span; x++ {
					if err := lookup(m, d, key(x)); err != nil {
						return err
					}
				}
				if err := listings(m, d, true); err != nil {
					return err
				}
			} else if len(s.A) > 0 {
				if err := lookup(m, d, key(s.A[0])); err != nil {
					return err
				}
				if m.Len() != len(d.m) {
					return fmt.Errorf("Len is %d, ideal %d", m.Len(), len(d.m))
				}
			}
		}
		for x := 0; x < span; x++ {
			if err := lookup(m, d, key(x)); err != nil {
				return err
			}
		}
		return listings(m, d, true)
	}
}

func history(r *rand.Rand, n, span int) []vk.Step {
	h := make([]vk.Step, 0, n)
	grow := 1 + r.IntN(5)
	pattern := r.IntN(4)
	for i := 0; i < n; i++ {
		if r.IntN(50) == 0 {
			grow, pattern = r.IntN(6), r.IntN(4)
		}
		k := r.IntN(span)
		switch pattern {
		case 0:
			k = i % span
		case 1:
			k = span - 1 - i%span
		}
		switch {
		case r.IntN(150) == 0:
			h = append(h, vk.S("Clear"))
		case r.IntN(6) < grow:
			h = append(h, vk.S("Set", k))
		default:
			h = append(h, vk.S("Del", k))
		}
	}
	return h
}

func typed[K constraints.Ordered, V any](c *vk.C, name string, keys []K, val func(int) V) {
	// keys are handed out in a scrambled order so that index order and key order differ
	ks := append([]K{}, keys...)
	r := c.Rand("type", len(name))
	r.Shuffle(len(ks), func(i, j int) { ks[i], ks[j] = ks[j], ks[i] })
	run := exec(func(i int) K { return ks[i%len(ks)] }, val, 5, len(ks))
	for i := 0; i < c.N(40, 1000); i++ {
		h := history(r, 200, len(ks))
		c.Distinct(vk.HashS(name + vk.HistString(h)))
		c.History("key type "+name+" "+reflect.TypeOf(ks[0]).String(), h, run)
		c.Count("typed_histories", 1)
	}
}

type named int32

func large(c *vk.C, n int, order string) {
	r := c.Rand("large"+order, n)
	c.Context("large map: %d keys, %s order", n, order)
	vk.SetBound(20000000 + 200*int64(n))
	m := sklmapx.New[int, int]()
	d := &ideal[int, int]{make(map[int]int, n)}
	fail := func(err error) {
		if err != nil {
			c.Violate("large map diverges from the ideal map", map[string]any{"keys": n, "order": order, "observed": err.Error()})
		}
	}
	perm := r.Perm(n)
	key := func(i int) int {
		switch order {
		case "ascending":
			return 3*i - n
		case "descending":
			return 3*(n-i) - n
		}
		return 3*perm[i] - n
	}
	for i := 0; i < n; i++ {
		vk.Op()
		m.Set(key(i), i)
		d.m[key(i)] = i
	}
	fail(listings(m, d, false))
	for i := 0; i < n; i++ {
		fail(lookup(m, d, 3*i-n))
		fail(lookup(m, d, 3*i-n+1))
	}
	c.Count("large_lookups", 2*n)
	for i := 0; i < n; i += 7 {
		vk.Op()
		m.Set(key(i), -i)
		d.m[key(i)] = -i
	}
	for round := 0; round < 2; round++ {
		for i := 0; i < n; i++ {
			k := 3*r.IntN(n) - n
			if r.IntN(3) == 0 {
				vk.Op()
				m.Set(k, i)
				d.m[k] = i
			} else {
				vk.Op()
				_, was := d.m[k]
				delete(d.m, k)
				if got := m.Del(k); got != was {
					fail(fmt.Errorf("Del(%v) reports %v, present was %v", k, got, was))
				}
			}
		}
		fail(listings(m, d, false))
	}
	for i := 0; i < n; i++ {
		fail(lookup(m, d, 3*i-n))
	}
	for _, k := range d.keys() {
		vk.Op()
		if !m.Del(k) {
			fail(fmt.Errorf("Del(%d) reports absent for a present key", k))
		}
		delete(d.m, k)
	}
	fail(listings(m, d, true))
	c.Eval(1)
	c.Distinct(vk.HashS(fmt.Sprint(order, n)))
	c.Max("largest_map", n)
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history of Set/Get/Del/Clear compared with a sorted map (lookups, length and all listings); non-trivial when it changes the map.", func(c *vk.C) {
		vk.SetBound(20000000)
		var letters []vk.Step
		for k := 0; k < 3; k++ {
			letters = append(letters, vk.S("Set", k), vk.S("Del", k))
		}
		letters = append(letters, vk.S("Clear"))
		id := func(i int) int { return i }
		neg := exec(func(i int) int { return i - 1 }, id, 1, 3)
		for n := 1; n <= c.N(5, 7); n++ {
			vk.Words(len(letters), n, func(w []int) {
				h := make([]vk.Step, n)
				for i, x := range w {
					h[i] = letters[x]
				}
				c.Distinct(vk.HashS(vk.HistString(h)))
				c.History("all short histories", h, neg)
			})
		}
		r := c.Rand("random")
		run := exec(func(i int) int { return i*7 - 100 }, id, 3, 40)
		for i := 0; i < c.N(400, 15000); i++ {
			h := history(r, 300, 40)
			c.Distinct(vk.HashS(vk.HistString(h)))
			if i == 0 {
				c.Sample(map[string]any{"workload": "random", "history": vk.HistString(h[:40])})
			}
			c.History("random int keys", h, run)
		}
		wide := exec(func(i int) int { return int(int64(i)*2654435761&0xffff) - 30000 }, id, 101, 800)
		for i := 0; i < c.N(60, 2000); i++ {
			h := history(r, 2500, 800)
			c.Distinct(vk.HashS(vk.HistString(h)))
			c.History("random int keys, wide", h, wide)
		}
		typed(c, "string", []string{"", "a", "aa", "ab", "b", "\x00", "\x00\x00", "\xff", "é", "e\u0301", "日本", "Z", "z", " ", "10", "9", strings.Repeat("x", 200), strings.Repeat("x", 201)}, id)
		typed(c, "float64", []float64{math.Inf(-1), math.Inf(1), 0, math.Copysign(0, -1), 1, -1, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, 0.1, 0.2, 0.30000000000000004, 0.3}, id)
		typed(c, "float32", []float32{float32(math.Inf(-1)), float32(math.Inf(1)), 0, 1, -1, 0.5, math.MaxFloat32}, id)
		typed(c, "int64", []int64{math.MinInt64, math.MinInt64 + 1, -1, 0, 1, math.MaxInt64, math.MaxInt64 - 1, 1 << 32, -(1 << 32)}, id)
		typed(c, "uint64", []uint64{0, 1, math.MaxUint64, math.MaxUint64 - 1, 1 << 63, 1<<63 - 1}, id)
		var i8 []int8
		for i := -128; i < 128; i++ {
			i8 = append(i8, int8(i))
		}
		typed(c, "int8", i8, id)
		typed(c, "uint8", []uint8{0, 1, 2, 127, 128, 129, 254, 255}, id)
		typed(c, "named", []named{-5, 0, 5, 1 << 30}, func(i int) string { return fmt.Sprint("v", i) })
		typed(c, "uintptr", []uintptr{0, 1, uintptr(uint64(1)<<40&math.MaxUint) | 1<<20}, func(i int) bool { return i%2 == 0 })
		typed(c, "struct values", []int{5, 4, 3, 2, 1, 0, -1}, func(i int) struct{} { return struct{}{} })
		typed(c, "pointer values", []int{5, 4, 3, 2, 1, 0, -1}, func(i int) *int {
			if i%3 == 0 {
				return nil
			}
			return &cells[i%100]
		})
		typed(c, "any values", []int{5, 4, 3, 2, 1, 0, -1}, seq.MkAny)
		typed(c, "big values", []string{"c", "b", "a", ""}, seq.MkBig)
		typed(c, "huge values", []string{"c", "b", "a", ""}, seq.MkHuge)
		typed(c, "odd values", []string{"c", "b", "a", ""}, seq.MkOdd)
		typed(c, "mixed values", []uint16{5, 4, 3, 2, 1, 0, 65535}, seq.MkMixed)
		typed(c, "error values", []int16{5, 4, 3, 2, 1, 0, -32768, 32767}, seq.MkErr)
		typed(c, "zero string values", []int32{5, 4, 3, 2, 1, 0, math.MinInt32, math.MaxInt32}, seq.MkString)
		typed(c, "uint32 keys", []uint32{0, 1, 1 << 31, math.MaxUint32, 1<<31 - 1}, seq.MkSmall)
		typed(c, "values: slices", []int{5, 4, 3, 2, 1, 0, -1, 9}, seq.MkSlice)
		typed(c, "values: maps", []int{5, 4, 3, 2, 1, 0, -1, 9}, seq.MkMap)
		typed(c, "values: functions", []int{5, 4, 3, 2, 1, 0, -1, 9}, seq.MkFunc)
		typed(c, "values: channels", []int{5, 4, 3, 2, 1, 0, -1, 9}, seq.MkChan)
		typed(c, "values: floats", []int{5, 4, 3, 2, 1, 0, -1, 9}, seq.MkFloat)
		typed(c, "values: complex numbers", []int{5, 4, 3, 2, 1, 0, -1, 9}, seq.MkComplex)
		typed(c, "values: uncomparable struct", []int{5, 4, 3, 2, 1, 0, -1, 9}, seq.MkLoose)
		typed(c, "values: uncomparable any", []int{5, 4, 3, 2, 1, 0, -1, 9}, seq.MkLooseAny)
		for i := 0; i < c.N(6, 60); i++ {
			typed(c, "words", seq.Words(r, 2+r.IntN(60)), id)
			typed(c, "floats", seq.Floats(r, 2+r.IntN(60)), id)
			typed(c, "ints", seq.Ints(r, 2+r.IntN(60)), id)
		}
		sizes := []int{1000, 20000, c.N(120000, 1500000)}
		for _, n := range sizes {
			for _, o := range []string{"random", "ascending", "descending"} {
				large(c, n, o)
			}
		}
	})
}

var cells [100]int
