// C02: skip-list traversals interleaved with changes.
package c02

import (
	"fmt"
	"math/rand/v2"
	"testing"

	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"

	"golang.org/x/exp/constraints"

	"verifharness/seq"
	"verifharness/vk"
)

// cursor and table are what traversals and maps with keys of any type look like
// when their keys are numbered in ascending order.
type cursor interface {
	Next() (int, int, bool)
	Seek(int) (int, int, bool)
	Rewind()
}

type table interface {
	Set(k, v int)
	Del(int) bool
	Clear()
	cursor() cursor
}

type plain struct {
	*sklmapx.SkipListMap[int, int]
}

func (p plain) cursor() cursor { return p.Iterator() }

type other[K constraints.Ordered] struct {
	*sklmapx.SkipListMap[K, int]
	keys []K // ascending
	num  map[K]int
}

func newOther[K constraints.Ordered](keys []K) func() table {
	num := map[K]int{}
	for i, k := range keys {
		num[k] = i
	}
	return func() table { return other[K]{sklmapx.New[K, int](), keys, num} }
}

func (o other[K]) Set(k, v int)   { o.SkipListMap.Set(o.keys[k], v) }
func (o other[K]) Del(k int) bool { return o.SkipListMap.Del(o.keys[k]) }
func (o other[K]) cursor() cursor { return otherCursor[K]{o.Iterator(), o} }

type otherCursor[K constraints.Ordered] struct {
	it *sklmapx.Iterator[K, int]
	o  other[K]
}

func (c otherCursor[K]) back(k K, v int, ok bool) (int, int, bool) {
	if ok {
		n, known := c.o.num[k]
		if !known {
			n = -1 // judged as a key that is not in the map
		}
		return n, v, ok
	}
	var zero K
	if k != zero {
		return -1, v, ok
	}
	return 0, v, ok
}

func (c otherCursor[K]) Next() (int, int, bool)      { return c.back(c.it.Next()) }
func (c otherCursor[K]) Seek(k int) (int, int, bool) { return c.back(c.it.Seek(c.o.keys[k])) }
func (c otherCursor[K]) Rewind()                     { c.it.Rewind() }

// trav monitors one traversal.
type trav struct {
	it     cursor
	any    bool         // something was yielded (or a seek positioned it)
	last   int          // last key yielded
	stay   map[int]bool // entries present ever since the traversal started
	size   int          // bounds the length of the traversal
	ended  bool
	dirty  bool // map changed since the end was reported
	lost   bool // position unspecified (after a failed seek)
	yields int
}

func (t *trav) start(m map[int]int) {
	t.any, t.ended, t.dirty, t.lost = false, false, false, false
	t.stay, t.size = map[int]bool{}, len(m)
	for k := range m {
		t.stay[k] = true
	}
}

func (t *trav) set() {
	t.size++
	t.dirty = true
}

func (t *trav) del(k int) {
	delete(t.stay, k)
	t.dirty = true
}

func (t *trav) next(m map[int]int) error {
	vk.Op()
	k, v, ok := t.it.Next()
	if t.lost {
		return nil
	}
	if t.ended {
		if !t.dirty && ok {
			return fmt.Errorf("Next yields (%d,%d) after it reported the end and nothing changed", k, v)
		}
		if t.dirty {
			t.lost = true
		}
		return nil
	}
	if !ok {
		if k != 0 || v != 0 {
			return fmt.Errorf("Next at the end returns (%d,%d)", k, v)
		}
		for s := range t.stay {
			if t.any && s <= t.last {
				continue
			}
			return fmt.Errorf("the traversal ended without reaching key %d, which was in the map all the time (last yielded: %v %d)", s, t.any, t.last)
		}
		t.ended, t.dirty = true, false
		return nil
	}
	t.yields++
	if t.any && k <= t.last {
		return fmt.Errorf("yields key %d after key %d", k, t.last)
	}
	for s := range t.stay {
		if s < k && (!t.any || s > t.last) {
			return fmt.Errorf("yields key %d and skips key %d, which was in the map all the time", k, s)
		}
	}
	cur, present := m[k]
	if !present {
		return fmt.Errorf("yields (%d,%d), the map has no entry with key %d", k, v, k)
	}
	if cur != v {
		return fmt.Errorf("yields value %d for key %d, its current value is %d", v, k, cur)
	}
	t.any, t.last = true, k
	return nil
}

func exec(iters int) func(h []vk.Step) error {
	return execOn(iters, func() table { return plain{sklmapx.New[int, int]()} })
}

func execOn(iters int, mk func() table) func(h []vk.Step) error {
	return func(h []vk.Step) error {
		m := mk()
		d := map[int]int{}
		ts := make([]*trav, iters)
		for i := range ts {
			ts[i] = &trav{it: m.cursor()}
			ts[i].start(d)
		}
		for i, s := range h {
			vk.Op()
			var t *trav
			a := 0
			if len(s.A) > 0 {
				a = s.A[0]
			}
			if len(s.A) > 1 {
				t = ts[s.A[1]%iters]
			} else {
				t = ts[0]
			}
			switch s.Op {
			case "Set":
				v := 1000 + i
				m.Set(a, v)
				d[a] = v
				for _, t := range ts {
					t.set()
				}
			case "Del":
				m.Del(a)
				delete(d, a)
				for _, t := range ts {
					t.del(a)
				}
			case "Clear":
				m.Clear()
				clear(d)
				for _, t := range ts {
					clear(t.stay)
					t.dirty = true
				}
			case "Next":
				if err := t.next(d); err != nil {
					return err
				}
			case "NextN":
				for ; a > 0; a-- {
					if err := t.next(d); err != nil {
						return err
					}
				}
			case "Rewind":
				t.it.Rewind()
				t.start(d)
			case "Seek":
				k, v, ok := t.it.Seek(a)
				w, wok := d[a]
				if ok != wok || ok && (k != a || v != w) {
					return fmt.Errorf("Seek(%d) is (%d,%d,%v), the map holds (%d,%v)", a, k, v, ok, w, wok)
				}
				t.start(d)
				if ok {
					t.any, t.last = true, a
				} else {
					t.lost = true
				}
			case "New":
				t.it = m.cursor()
				t.start(d)
			}
		}
		for _, t := range ts {
			for i := 0; i <= t.size+len(d)+3; i++ {
				if err := t.next(d); err != nil {
					return err
				}
			}
			if !t.lost && !t.ended {
				return fmt.Errorf("the traversal does not end")
			}
			t.it.Rewind()
			t.start(d)
			for i := 0; i <= len(d)+2; i++ {
				if err := t.next(d); err != nil {
					return fmt.Errorf("after Rewind: %w", err)
				}
			}
			if !t.ended {
				return fmt.Errorf("the traversal does not end after Rewind")
			}
		}
		return nil
	}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one history that interleaves steps of one to three traversals with changes of the map; non-trivial when a traversal yields something.", func(c *vk.C) {
		vk.SetBound(5000000)
		one := exec(1)
		word := func(name string, prefix []vk.Step, letters []vk.Step, n int) {
			vk.Words(len(letters), n, func(w []int) {
				h := append([]vk.Step{}, prefix...)
				for _, x := range w {
					h = append(h, letters[x])
				}
				c.Distinct(vk.HashS(vk.HistString(h)))
				c.History(name, h, one)
			})
		}
		var chg []vk.Step
		for k := 0; k < 4; k++ {
			chg = append(chg, vk.S("Set", k), vk.S("Del", k))
		}
		letters := append([]vk.Step{vk.S("Next"), vk.S("Clear")}, chg...)
		for _, p := range [][]vk.Step{
			{},
			{vk.S("Set", 0), vk.S("Set", 1), vk.S("Set", 2), vk.S("Set", 3)},
			{vk.S("Set", 0), vk.S("Set", 1), vk.S("Set", 2), vk.S("Set", 3), vk.S("Next"), vk.S("Next")},
			{vk.S("Set", 1), vk.S("Set", 3), vk.S("Next")},
			{vk.S("Set", 1), vk.S("Set", 2), vk.S("NextN", 3)},
		} {
			word("all short histories", p, letters, c.N(4, 5))
		}
		seekers := append([]vk.Step{vk.S("Rewind"), vk.S("Seek", 0), vk.S("Seek", 1), vk.S("Seek", 2), vk.S("Next"), vk.S("Clear")}, chg[:6]...)
		word("all short histories with seeks", []vk.Step{vk.S("Set", 0), vk.S("Set", 1), vk.S("Set", 2)}, seekers, c.N(4, 5))
		// Many changes between two steps of a traversal: as many as counters
		// of 8, 15, 16 and 17 bits can tell apart, and one more or less.
		for _, n := range []int{1, 2, 127, 128, 254, 255, 256, 257, 512, 32768, 65535, 65536, 65537, 131072} {
			for kind := 0; kind < 6; kind++ {
				h := []vk.Step{}
				for k := 0; k < 6; k++ {
					h = append(h, vk.S("Set", k))
				}
				h = append(h, vk.S("NextN", 1+kind%3))
				for i := 0; i < n; i++ {
					switch kind {
					case 0:
						h = append(h, vk.S("Clear"))
					case 1:
						h = append(h, vk.S("Clear"), vk.S("Set", i%6))
					case 2:
						h = append(h, vk.S("Del", 2), vk.S("Set", 2))
					case 3:
						h = append(h, vk.S("Set", 10+i%5), vk.S("Del", 10+i%5))
					case 4:
						h = append(h, vk.S("Set", 4))
					case 5:
						h = append(h, vk.S("Del", 9), vk.S("Seek", 3, 1), vk.S("Rewind", 0, 1))
					}
				}
				h = append(h, vk.S("Next"), vk.S("Set", 3), vk.S("Next"))
				c.Count("histories_with_many_changes_between_steps", 1)
				c.Distinct(uint64(n*10 + kind))
				c.History(fmt.Sprintf("%d changes between two steps", n), h, exec(1+kind/5))
			}
		}
		// A traversal of a large map that changes on the way.
		for _, n := range []int{300, 33000, 66000} {
			large(c, n)
		}
		r := c.Rand("random")
		three := exec(3)
		for i := 0; i < c.N(6000, 200000); i++ {
			span := 3 + r.IntN(30)
			h := random(r, span, 20+r.IntN(120))
			c.Distinct(vk.HashS(vk.HistString(h)))
			if i == 0 {
				c.Sample(map[string]any{"workload": "random", "history": vk.HistString(h)})
			}
			c.History("random", h, three)
		}
		for i := 0; i < c.N(1500, 30000); i++ {
			span := 3 + r.IntN(30)
			h := random(r, span, 20+r.IntN(120))
			var mk func() table
			name := ""
			switch i % 5 {
			case 0, 1:
				name, mk = "strings", newOther(seq.Sorted(seq.Words(r, span)))
			case 2:
				name, mk = "floats", newOther(seq.Sorted(seq.Floats(r, span)))
			case 3:
				name, mk = "integers of all magnitudes", newOther(seq.Sorted(seq.Ints(r, span)))
			case 4:
				u := []uint64{}
				for _, x := range seq.Ints(r, span) {
					u = append(u, uint64(x))
				}
				name, mk = "unsigned integers", newOther(seq.Sorted(u))
			}
			c.Distinct(vk.HashS(name + vk.HistString(h)))
			c.Count("histories_with_keys_of_other_types", 1)
			c.History("random, keys: "+name, h, execOn(3, mk))
		}
		for i := 0; i < c.N(20, 400); i++ {
			h := random(r, 400, 1000)
			c.Distinct(vk.HashS(vk.HistString(h)))
			c.History("random, large map", h, exec(2))
		}
	})
}

// large traverses a map of n keys while keys behind, at and ahead of the
// traversal come and go; the ideal is an array indexed by key.
func large(c *vk.C, n int) {
	m := sklmapx.New[int, int]()
	val := make([]int, 2*n) // 0: absent
	r := c.Rand("large", n)
	for k := 0; k < 2*n; k += 2 {
		vk.Op()
		m.Set(k, k+1)
		val[k] = k + 1
	}
	it := m.Iterator()
	last, yields := -1, 0
	for {
		vk.Op()
		k, v, ok := it.Next()
		want := last + 1
		for want < len(val) && val[want] == 0 {
			want++
		}
		if ok != (want < len(val)) || ok && (k != want || v != val[want]) {
			c.Violate("a traversal of a large map", map[string]any{"keys": n, "got": fmt.Sprint(k, v, ok), "want_key": want, "last": last})
		}
		c.Eval(1)
		if !ok {
			break
		}
		last, yields = k, yields+1
		for j := r.IntN(3); j > 0; j-- {
			x := k + r.IntN(7) - 3
			if x < 0 || x >= len(val) {
				continue
			}
			vk.Op()
			if val[x] != 0 {
				m.Del(x)
				val[x] = 0
			} else {
				m.Set(x, x+5)
				val[x] = x + 5
			}
		}
	}
	c.Max("longest_traversal", yields)
}

func random(r *rand.Rand, span, n int) []vk.Step {
	var h []vk.Step
	for k := 0; k < span; k++ {
		if r.IntN(3) > 0 {
			h = append(h, vk.S("Set", k))
		}
	}
	near := 0
	key := func() int {
		if r.IntN(2) == 0 { // around the place the traversal is at
			return min(span-1, max(0, near+r.IntN(5)-2))
		}
		return r.IntN(span)
	}
	bias := r.IntN(6)
	for i := 0; i < n; i++ {
		who := r.IntN(3)
		switch x := r.IntN(20); {
		case x < 7:
			h = append(h, vk.S("Next", 0, who))
			near++
		case x < 7+bias:
			h = append(h, vk.S("Set", key()))
		case x < 16:
			h = append(h, vk.S("Del", key()))
		case x == 16:
			k := key()
			near = k
			h = append(h, vk.S("Seek", k, who))
		case x == 17:
			near = 0
			h = append(h, vk.S("Rewind", 0, who))
		case x == 18:
			if r.IntN(4) == 0 {
				h = append(h, vk.S("Clear"))
				for k := 0; k < span; k++ {
					if r.IntN(3) > 0 && r.IntN(3) > 0 {
						h = append(h, vk.S("Set", k))
					}
				}
			}
		default:
			h = append(h, vk.S("NextN", r.IntN(1+span/2), who))
		}
		if near >= span {
			near = 0
		}
	}
	return h
}
