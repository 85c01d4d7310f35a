// C05: concurrent histories of the goroutine-safe map, checked for
// linearizability, and the same workload under the race detector.
package c05

import (
	"fmt"
	"math"
	"math/rand/v2"
	"os"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"

	"verifharness/seq"
	"verifharness/vk"
)

type in struct {
	op   string
	k, v int
}

const keys = 4

type state [keys]int // 0: absent

func list(xs []int) string {
	sort.Ints(xs)
	return strings.Trim(fmt.Sprint(xs), "[]")
}

func (s state) keys() string {
	var ks []int
	for k, v := range s {
		if v != 0 {
			ks = append(ks, k)
		}
	}
	return list(ks)
}

func (s state) values() string {
	var vs []int
	for _, v := range s {
		if v != 0 {
			vs = append(vs, v)
		}
	}
	return list(vs)
}

var model = porcupine.Model{
	Init: func() interface{} { return state{} },
	Step: func(st, i, o interface{}) (bool, interface{}) {
		s, a := st.(state), i.(in)
		switch a.op {
		case "Get":
			return o == fmt.Sprint(s[a.k]), s
		case "Has":
			return o == fmt.Sprint(s[a.k] != 0), s
		case "Size":
			n := 0
			for _, v := range s {
				if v != 0 {
					n++
				}
			}
			return o == fmt.Sprint(n), s
		case "Keys":
			return o == s.keys(), s
		case "Values":
			return o == s.values(), s
		case "Set":
			s[a.k] = a.v
		case "Delete":
			s[a.k] = 0
		case "Clear":
			s = state{}
		}
		return true, s
	},
	DescribeOperation: func(i, o interface{}) string { return fmt.Sprint(i, " -> ", o) },
}

// A client carries out operations on one map.
type client func(in) string

// on is a client of a map whose keys and values are made of numbers by key and
// mk; back and of recover the numbers, of gives -1 for a value that mk never
// made, a half written one for instance.
func on[K comparable, V any](m *syncmapx.Map[K, V], key func(int) K, back func(K) int, mk func(int) V, of func(V) int) client {
	numbers := func(vs []V) []int {
		out := make([]int, len(vs))
		for i, v := range vs {
			out[i] = of(v)
		}
		return out
	}
	return func(a in) string {
		switch a.op {
		case "Get":
			return fmt.Sprint(of(m.Get(key(a.k))))
		case "Has":
			return fmt.Sprint(m.Has(key(a.k)))
		case "Size":
			return fmt.Sprint(m.Size())
		case "Keys":
			ks := m.Keys()
			out := make([]int, len(ks))
			for i, k := range ks {
				out[i] = back(k)
			}
			clear(ks)
			return list(out)
		case "Values":
			vs := m.Values()
			out := numbers(vs)
			clear(vs)
			return list(out)
		case "Set":
			m.Set(key(a.k), mk(a.v))
		case "Delete":
			m.Delete(key(a.k))
		case "Clear":
			m.Clear()
		}
		return ""
	}
}

func num(v int) int { return v }

func digits(s string) int {
	n := 0
	for _, b := range []byte(s) {
		if b >= '0' && b <= '9' {
			n = n*10 + int(b-'0')
		}
	}
	return n
}

func text(v int) string { return fmt.Sprintf("value %d", v) }

func words(v int) []int {
	if v == 0 {
		return nil
	}
	return []int{v, v}
}

type pair struct {
	a int
	p *int
	s string
}

func number[T any](of func(T) int) func(any) int {
	return func(v any) int {
		if v == nil {
			return 0
		}
		t, ok := v.(T)
		if !ok {
			return -1
		}
		return of(t)
	}
}

func array(v int) (h seq.Huge) {
	for i := range h {
		h[i] = int64(v)
	}
	return
}

func filled(h seq.Huge) int {
	for i := range h {
		if h[i] != h[0] {
			return -1
		}
	}
	return int(h[0])
}

// clients have maps with keys and values of other types.
var clients = []func() client{
	func() client { return on(syncmapx.New[int, string](), num, num, text, digits) },
	func() client { return on(syncmapx.New[string, int](), text, digits, num, num) },
	func() client { return on(syncmapx.New[int, seq.Huge](), num, num, array, filled) },
	func() client {
		return on(syncmapx.New[any, any](), func(k int) any {
			switch k {
			case 0:
				return nil
			case 1:
				return "1"
			case 2:
				return [2]any{2, "2"}
			}
			return k
		}, func(k any) int {
			switch k {
			case nil:
				return 0
			case "1":
				return 1
			case [2]any{2, "2"}:
				return 2
			}
			return number(num)(k)
		}, func(v int) any {
			if v%2 == 0 {
				return v
			}
			return text(v)
		}, func(v any) int {
			if s, ok := v.(string); ok {
				return digits(s)
			}
			return number(num)(v)
		})
	},
	func() client {
		return on(syncmapx.New[[3]string, pair](), func(k int) [3]string { return [3]string{2: text(k)} }, func(k [3]string) int { return digits(k[2]) },
			func(v int) pair { return pair{v, &v, text(v)} }, func(v pair) int {
				if v.p == nil && v.a == 0 && v.s == "" {
					return 0
				}
				if v.p == nil || v.a != *v.p || digits(v.s) != v.a {
					return -1
				}
				return v.a
			})
	},
	func() client {
		return on(syncmapx.New[uint8, []int](), func(k int) uint8 { return uint8(k * 80) }, func(k uint8) int { return int(k / 80) }, words, func(v []int) int {
			if v == nil {
				return 0
			}
			if len(v) != 2 || v[0] != v[1] {
				return -1
			}
			return v[0]
		})
	},
	func() client {
		return on(syncmapx.New[float64, uint8](), func(k int) float64 { return float64(k) / 4 }, func(k float64) int { return int(k * 4) }, func(v int) uint8 { return uint8(v) }, func(v uint8) int { return int(v) })
	},
	func() client {
		return on(syncmapx.New[seq.Huge, *int](), array, filled, func(v int) *int { return &v }, func(v *int) int {
			if v == nil {
				return 0
			}
			return *v
		})
	},
}

// plain is a client of a map of numbers, the quickest one.
func plain() client { return on(syncmapx.New[int, int](), num, num, num, num) }

var ops = []string{"Get", "Has", "Size", "Keys", "Values", "Set", "Set", "Set", "Set", "Delete", "Delete", "Clear"}

func script(r *rand.Rand, profile, n, id int, next *int) []in {
	as := make([]in, n)
	for i := range as {
		var op string
		switch profile {
		case 0:
			op = ops[r.IntN(len(ops))]
		case 1: // one snapshot reader among writers that move entries
			op = []string{"Set", "Delete", "Set", "Clear"}[r.IntN(4)]
			if id == 0 {
				op = []string{"Keys", "Values", "Size"}[r.IntN(3)]
			}
		case 2: // one key
			op = []string{"Set", "Delete", "Get", "Has", "Clear"}[r.IntN(5)]
		}
		*next++
		k := r.IntN(keys)
		if profile == 2 {
			k = 0
		}
		as[i] = in{op, k, *next}
	}
	return as
}

// alone compares histories of a single client with a map, over many kinds of
// key and value.
func alone[K comparable, V any](c *vk.C, name string, key func(int) K, val func(int) V) {
	r := c.Rand("alone", len(name))
	same := seq.Same[V]()
	for round := 0; round < c.N(150, 3000); round++ {
		m := syncmapx.New[K, V]()
		d := map[K]V{}
		var log []string
		fail := func(f string, a ...any) {
			c.Violate("the map used by one client is not a map ("+name+")", map[string]any{"history": log, "observed": fmt.Sprintf(f, a...)})
		}
		span := 1 + r.IntN(20)
		if round%50 == 0 {
			span = 3000
		}
		n := 10 + r.IntN(80)
		if span > 100 {
			n = 5000
		}
		for i := 0; i < n; i++ {
			k := key(r.IntN(span))
			switch op := r.IntN(20); {
			case op < 9:
				v := val(r.IntN(span))
				log = append(log, fmt.Sprintf("Set(%v,%v)", k, v))
				m.Set(k, v)
				d[k] = v
			case op < 15:
				log = append(log, fmt.Sprintf("Delete(%v)", k))
				m.Delete(k)
				delete(d, k)
			case op == 15 && r.IntN(4) == 0:
				log = append(log, "Clear")
				m.Clear()
				clear(d)
			}
			k = key(r.IntN(span))
			_, has := d[k]
			if v := m.Get(k); !same(v, d[k]) || m.Has(k) != has {
				fail("Get(%v) is %v, Has is %v; the map has (%v,%v)", k, v, m.Has(k), d[k], has)
			}
			if m.Size() != len(d) {
				fail("Size is %d, the map has %d", m.Size(), len(d))
			}
			if i%9 != 0 || n > 1000 && i%500 != 0 {
				continue
			}
			ks, vs := m.Keys(), m.Values()
			if len(ks) != len(d) || len(vs) != len(d) {
				fail("%d keys and %d values, the map has %d", len(ks), len(vs), len(d))
			}
			seen, rest := map[K]bool{}, vs
			for j := range ks {
				if _, ok := d[ks[j]]; !ok || seen[ks[j]] {
					fail("key %v listed twice or not in the map", ks[j])
				}
				seen[ks[j]] = true
			}
			for _, v := range d {
				j := slices.IndexFunc(rest, func(w V) bool { return same(v, w) })
				if j < 0 {
					fail("value %v listed too rarely", v)
				}
				rest[0], rest[j] = rest[j], rest[0]
				rest = rest[1:]
			}
			clear(ks)
			clear(vs)
		}
		c.Eval(1)
		c.Count("histories_of_a_single_client", 1)
	}
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one concurrent history of three to six clients; non-trivial when operations of different clients overlap; distinct by the order of calls and returns with their results.", func(c *vk.C) {
		if os.Getenv("VK_PHASE") == "race" {
			race(c)
			return
		}
		alone(c, "int keys and values", func(i int) int { return i - 3 }, func(i int) int { return i })
		alone(c, "any keys and values", seq.MkAny, seq.MkAny)
		alone(c, "string keys, mixed values", func(i int) string { return []string{"", "a", "\x00", "b"}[i%4] + fmt.Sprint(i/4) }, seq.MkMixed)
		alone(c, "mixed keys, big values", seq.MkMixed, seq.MkBig)
		alone(c, "mixed keys, huge values", seq.MkMixed, seq.MkHuge)
		alone(c, "mixed keys, odd values", seq.MkMixed, seq.MkOdd)
		alone(c, "error keys, no values", seq.MkErr, seq.MkUnit)
		alone(c, "pointer keys and nil, errors and nils", seq.MkPtr, seq.MkErr)
		alone(c, "no keys", seq.MkUnit, seq.MkSmall)
		alone(c, "float keys, equal strings", func(i int) float64 { return []float64{0, math.Copysign(0, -1), 1, math.Inf(1), math.Inf(-1)}[i%5] }, seq.MkString)
		alone(c, "int keys, slices", func(i int) int { return i - 3 }, seq.MkSlice)
		alone(c, "int keys, maps", func(i int) int { return i - 3 }, seq.MkMap)
		alone(c, "int keys, functions", func(i int) int { return i - 3 }, seq.MkFunc)
		alone(c, "int keys, channels", func(i int) int { return i - 3 }, seq.MkChan)
		alone(c, "int keys, floats", func(i int) int { return i - 3 }, seq.MkFloat)
		alone(c, "int keys, complex numbers", func(i int) int { return i - 3 }, seq.MkComplex)
		alone(c, "int keys, uncomparable struct", func(i int) int { return i - 3 }, seq.MkLoose)
		alone(c, "int keys, uncomparable any", func(i int) int { return i - 3 }, seq.MkLooseAny)
		odd(c)
		large(c)
		r := c.Rand("lin")
		overlaps := 0
		for round := 0; round < c.N(15000, 300000); round++ {
			vk.Perturb(r.Uint64(), r.IntN(3))
			runtime.GOMAXPROCS([]int{1, 2, 8, 8}[r.IntN(4)])
			do, callers := plain(), 3+r.IntN(4)
			if round%5 == 4 {
				do = clients[round/5%len(clients)]()
			}
			var clock atomic.Int64
			next := 0
			scripts := make([][]in, callers)
			profile := r.IntN(3)
			for id := range scripts {
				scripts[id] = script(r, profile, 2+r.IntN(4), id, &next)
			}
			logs := make([][]porcupine.Operation, callers)
			start := make(chan struct{})
			var wg sync.WaitGroup
			for id := range scripts {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for _, a := range scripts[id] {
						t0 := clock.Add(1)
						o := do(a)
						t1 := clock.Add(1)
						logs[id] = append(logs[id], porcupine.Operation{ClientId: id, Input: a, Call: t0, Output: o, Return: t1})
						vk.Tick()
					}
				}()
			}
			close(start)
			wg.Wait()
			var all []porcupine.Operation
			for _, l := range logs {
				all = append(all, l...)
			}
			// quiescent observations at the end belong to the history
			for _, a := range []in{{op: "Keys"}, {op: "Values"}, {op: "Size"}, {"Get", 0, 0}, {"Has", 1, 0}, {"Get", 2, 0}, {"Get", 3, 0}} {
				t0 := clock.Add(1)
				o := do(a)
				all = append(all, porcupine.Operation{ClientId: 0, Input: a, Call: t0, Output: o, Return: clock.Add(1)})
			}
			n := 0
			for i := range all {
				for j := range all[:i] {
					if all[i].ClientId != all[j].ClientId && all[i].Call < all[j].Return && all[j].Call < all[i].Return {
						n++
					}
				}
			}
			overlaps += n
			c.Eval(1)
			sort.Slice(all, func(i, j int) bool { return all[i].Call < all[j].Call })
			if n > 0 {
				c.Distinct(vk.HashS(fmt.Sprint(all)))
			}
			if n > 0 && round < 50 {
				c.Sample(fmt.Sprint(all))
			}
			if res := porcupine.CheckOperationsTimeout(model, all, 60*time.Second); res == porcupine.Illegal {
				c.Violate("history is not linearizable", map[string]any{"operations": fmt.Sprint(all), "format": "{client {op key value} call output return}"})
			} else if res == porcupine.Unknown {
				c.Count("undecided", 1)
			}
			c.Count("operations", len(all))
		}
		c.Count("overlapping_pairs", overlaps)
		runtime.GOMAXPROCS(8)
		// No operation blocks others after it has returned.
		do := plain()
		for _, op := range []string{"Get", "Has", "Size", "Keys", "Values", "Set", "Delete", "Clear"} {
			c.Context("calls after %s has returned", op)
			do(in{op, 1, 1})
			for _, after := range []string{"Set", "Get", "Keys", "Delete", "Clear", "Size", "Has", "Values"} {
				done := make(chan struct{})
				go func() { do(in{after, 1, 1}); close(done) }()
				<-done
			}
		}
	})
}

// odd uses keys that differ from themselves, and keys that cannot be hashed:
// the former are in the map like others, except that nothing finds them; for
// the latter the call panics, and the map must go on as if it had not been made.
func odd(c *vk.C) {
	r := c.Rand("odd")
	for round := 0; round < c.N(300, 6000); round++ {
		m := syncmapx.New[any, int]()
		d := map[any]int{}
		nan := map[int]int{} // values stored under NaN
		var log []string
		fail := func(f string, a ...any) {
			c.Violate("the map with NaN and unhashable keys is not a map", map[string]any{"history": log, "observed": fmt.Sprintf(f, a...)})
		}
		for i := 0; i < 40; i++ {
			var k any = r.IntN(5)
			kind := r.IntN(4)
			switch kind {
			case 0:
				k = math.NaN()
			case 1:
				k = []any{[]int{1}, map[int]int{}, func() {}, [1]any{[]int{2}}, struct{ a any }{[]int{}}}[r.IntN(5)]
			}
			op := []string{"Get", "Has", "Set", "Set", "Delete", "Clear"}[r.IntN(6)]
			if op == "Clear" && r.IntN(4) != 0 {
				op = "Set"
			}
			log = append(log, fmt.Sprintf("%s(%T %v,%d)", op, k, k, i))
			c.Context("%v", log)
			panicked := true
			func() {
				defer func() {
					if panicked && recover() != nil && kind != 1 {
						fail("panic")
					}
				}()
				switch op {
				case "Get":
					m.Get(k)
				case "Has":
					if m.Has(k) && kind == 0 {
						fail("the map says it has NaN")
					}
				case "Set":
					m.Set(k, i)
					if kind == 0 {
						nan[i]++
					} else if kind != 1 {
						d[k] = i
					}
				case "Delete":
					m.Delete(k)
					if kind != 1 {
						delete(d, k)
					}
				case "Clear":
					m.Clear()
					clear(d)
					clear(nan)
				}
				panicked = false
			}()
			if panicked {
				c.Count("calls_with_unhashable_keys", 1)
			}
			// Another goroutine looks: nothing may be locked.
			done := make(chan struct{})
			go func() {
				defer close(done)
				m.Set("probe", -1)
				m.Delete("probe")
				vs := m.Values()
				ks := m.Keys()
				want := append([]int{}, mapValues(d)...)
				want = append(want, mapKeys(nan)...)
				if w, g := list(want), list(vs); w != g {
					fail("values %s, want %s", g, w)
				}
				n := 0
				for _, k := range ks {
					if k != k {
						n++
					}
				}
				if n != len(nan) || len(ks) != len(want) || m.Size() != len(want) {
					fail("%d keys, %d of them NaN, Size %d; want %d and %d", len(ks), n, m.Size(), len(want), len(nan))
				}
				for k, v := range d {
					if m.Get(k) != v || !m.Has(k) {
						fail("Get(%v) is %v, want %v", k, m.Get(k), v)
					}
				}
			}()
			<-done
		}
		c.Eval(1)
		c.Count("histories_with_odd_keys", 1)
	}
}

func mapValues(m map[any]int) (out []int) {
	for _, v := range m {
		out = append(out, v)
	}
	return
}

func mapKeys(m map[int]int) (out []int) {
	for k := range m {
		out = append(out, k)
	}
	return
}

// race runs the operations unobserved, so that only the map's own
// synchronisation orders them.
func race(c *vk.C) {
	r := c.Rand("race")
	for round := 0; round < c.N(200, 5000); round++ {
		vk.Perturb(r.Uint64(), r.IntN(4))
		runtime.GOMAXPROCS([]int{2, 4, 8}[r.IntN(3)])
		m := syncmapx.New[int, int]()
		do := on(m, num, num, num, num)
		other := round%2 == 1
		if other {
			do = clients[round/2%len(clients)]()
		}
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			seed := r.Uint64()
			wg.Add(1)
			go func() {
				defer wg.Done()
				r := rand.New(rand.NewPCG(seed, 1))
				for i := 0; i < 200; i++ {
					if !other {
						ks := m.Keys()
						if len(ks) > 0 {
							ks[0]++ // the returned slice belongs to the caller
						}
					}
					do(in{ops[r.IntN(len(ops))], r.IntN(keys), i + 1})
					vk.Tick()
				}
			}()
		}
		wg.Wait()
		c.Eval(1200)
		c.Distinct(uint64(round))
		c.Count("operations", 1200)
	}
	// Pointers handed over through the map carry their contents with them.
	for round := 0; round < c.N(200, 5000); round++ {
		m := syncmapx.New[int, *int]()
		var wg sync.WaitGroup
		wg.Add(2)
		go func() { defer wg.Done(); x := round; m.Set(1, &x) }()
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				if p := m.Get(1); p != nil {
					if *p != round {
						c.Violate("a value read through the map is not the value stored", map[string]any{"stored": round, "read": *p})
					}
					return
				}
				runtime.Gosched()
			}
		}()
		wg.Wait()
		c.Eval(1)
	}
}

// large: a map of thousands of entries that stay, and one client that moves a
// token through the keys: it sets the next place before it removes the last,
// so that every instant has all the staying entries and one or two neighbouring
// places of the token, and sometimes replaces everything by one Clear. The
// listings of the other clients have to show such an instant, one that lies
// between their call and return.
func large(c *vk.C) {
	r := c.Rand("large")
	for round := 0; round < c.N(10, 150); round++ {
		vk.Perturb(r.Uint64(), r.IntN(3))
		runtime.GOMAXPROCS([]int{2, 8, 8}[r.IntN(3)])
		n := []int{300, 1100, 5000, 20000, 70000}[round%5]
		m := syncmapx.New[int, int]()
		for i := 0; i < n; i++ {
			m.Set(i, -1-i)
		}
		var begun, ended atomic.Int64 // moves
		var stop atomic.Bool
		places := 3 * n
		place := func(i int64) int { return n + int(i*7919%int64(places)) }
		m.Set(place(0), 0)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := int64(1); !stop.Load(); i++ {
				begun.Store(i)
				m.Set(place(i), int(i))
				m.Delete(place(i - 1))
				ended.Store(i)
				if i%8 == 0 {
					runtime.Gosched()
				}
			}
		}()
		lists := c.N(12, 60)
		for l := 0; l < lists; l++ {
			e0 := ended.Load()
			kind := l % 4
			var got []int
			switch kind {
			case 0, 2:
				got = m.Keys()
			case 1:
				got = m.Values()
			case 3:
				size := m.Size()
				if size != n+1 && size != n+2 {
					c.Violate("Size of a large map is not its size at any instant of the call", map[string]any{"staying entries": n, "moving entries": "1 or 2", "size": size})
				}
				c.Count("sizes_of_a_changing_large_map", 1)
				continue
			}
			b1 := begun.Load()
			seen := make([]bool, n)
			var moving []int
			bad := ""
			for _, v := range got {
				switch {
				case kind == 1 && v < 0 && -1-v < n:
					v = -1 - v
					fallthrough
				case kind != 1 && v >= 0 && v < n:
					if seen[v] {
						bad = fmt.Sprintf("lists entry %d twice", v)
					}
					seen[v] = true
				default:
					moving = append(moving, v)
				}
			}
			for i, s := range seen {
				if !s && bad == "" {
					bad = fmt.Sprintf("lacks entry %d, which is there all the time", i)
				}
			}
			var ok bool
			switch len(moving) {
			case 1, 2:
				for i := e0; i <= b1 && !ok; i++ {
					a := []int{place(i)}
					b := []int{place(i), place(i + 1)}
					if kind == 1 {
						a, b = []int{int(i)}, []int{int(i), int(i + 1)}
					}
					ok = len(moving) == 1 && moving[0] == a[0] || len(moving) == 2 && (moving[0] == b[0] && moving[1] == b[1] || moving[0] == b[1] && moving[1] == b[0])
				}
			}
			if bad == "" && !ok {
				bad = fmt.Sprintf("shows the moving entry at %v, during the call it was between move %d (%d) and %d (%d)", moving, e0, place(e0), b1, place(b1))
			}
			if bad != "" {
				c.Violate("a listing of a large map shows no instant between call and return", map[string]any{"staying entries": n, "listing": []string{"Keys", "Values", "Keys"}[kind], "problem": bad, "moves before the call": e0, "moves begun before the return": b1, "length": len(got)})
			}
			if b1 > e0+1 {
				c.Count("listings_of_a_changing_large_map", 1)
			}
		}
		stop.Store(true)
		wg.Wait()
		c.Eval(lists)
		c.Max("most_entries_listed", n)
		m.Clear()
		if m.Size() != 0 || len(m.Keys()) != 0 || len(m.Values()) != 0 || m.Has(n/2) {
			c.Violate("a large map is not empty after Clear", map[string]any{"entries": n, "size": m.Size()})
		}
	}
	runtime.GOMAXPROCS(8)
	// one client, more entries than 16 and 17 bits count
	for _, n := range []int{66000, 140000} {
		m := syncmapx.New[int, int]()
		for i := 0; i < n; i++ {
			m.Set(i*3, i)
		}
		for i := 0; i < n; i += 2 {
			m.Delete(i * 3)
		}
		if m.Size() != n/2 || len(m.Keys()) != n/2 || len(m.Values()) != n/2 {
			c.Violate("the map used by one client is not a map", map[string]any{"keys set": n, "keys deleted": n / 2, "size": m.Size(), "keys": len(m.Keys()), "values": len(m.Values())})
		}
		for i := 0; i < n; i++ {
			if m.Has(i*3) != (i%2 == 1) || m.Get(i*3) != i*(i%2) || m.Has(i*3+1) {
				c.Violate("the map used by one client is not a map", map[string]any{"keys set": n, "key": i * 3, "has": m.Has(i * 3), "value": m.Get(i * 3)})
			}
		}
		c.Eval(1)
	}
}
