// C53: what is passed in is only read and not kept, and results belong to the
// caller. Arguments lie in memory that is made read-only during the call and
// inaccessible afterwards; the processor reports every access that should not
// be. Results are overwritten, extended and looked at again much later.
package c53

import (
	"bytes"
	"fmt"
	"math/rand/v2"
	"slices"
	"testing"
	"unsafe"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

type env struct {
	c    *vk.C
	r    *rand.Rand
	name string
	desc string
	seal []*vk.Sealed
	kept []kept // results of earlier calls with what they were
}

type kept struct {
	name string
	b    []byte
	was  []byte
}

func (e *env) fail(what string) {
	e.c.Violate(e.name+": "+what, map[string]any{"call": e.desc})
}

// in places an argument.
func in[T any](e *env, v []T) []T {
	s, d := vk.SealOf(e.r, v)
	e.seal = append(e.seal, s)
	return d
}

// call runs f with the arguments read-only, then takes them away and runs use,
// which looks at what the call left behind.
func (e *env) call(name, desc string, f func(), use func()) {
	e.name, e.desc = name, desc
	e.c.Context("%s %s", name, desc)
	for _, s := range e.seal {
		s.ReadOnly()
	}
	report := func(what string, err error) {
		if err == nil {
			return
		}
		stack := ""
		switch x := err.(type) {
		case *vk.Fault:
			stack = x.Stack
		case *vk.Panic:
			what, stack = "panics: "+x.Error(), x.Stack
		default:
			what = err.Error()
		}
		e.c.Violate(name+": "+what, map[string]any{"call": desc, "stack": stack})
	}
	report("writes to an argument, or reads outside it", vk.Faults(f))
	for _, s := range e.seal {
		s.None()
	}
	report("what it left behind still uses the memory of an argument", vk.Faults(use))
	for _, s := range e.seal {
		s.Free()
	}
	e.seal = e.seal[:0]
	e.c.Eval(1)
	e.c.Count("calls_with_sealed_arguments", 1)
	e.c.Distinct(vk.HashS(name + desc))
}

// own checks that a result belongs to the caller: it is overwritten with its
// spare capacity; again must still give an undamaged result, and results kept
// from before must be what they were.
func (e *env) own(b []byte) {
	k := kept{e.name, b, bytes.Clone(b)}
	if len(e.kept) < 40 {
		e.kept = append(e.kept, k)
		return
	}
	j := e.r.IntN(len(e.kept))
	old := e.kept[j]
	e.kept[j] = k
	if !bytes.Equal(old.b, old.was) {
		e.c.Violate(old.name+": a result changed after it was returned", map[string]any{"result": fmt.Sprintf("%x", old.was), "now": fmt.Sprintf("%x", old.b), "a later call": e.name})
	}
	all := old.b[:cap(old.b)]
	for i := range all {
		all[i] ^= 0x5a
	}
	e.c.Count("results_overwritten", 1)
	for _, o := range e.kept {
		if !bytes.Equal(o.b, o.was) {
			e.c.Violate("results of two calls share memory", map[string]any{"overwritten": old.name, "changed": o.name})
		}
	}
}

// twice: the same call again gives the same result although the first one was
// overwritten in the meantime, and the two share nothing.
func (e *env) twice(f func() []byte, want []byte) {
	first := f()
	for i := range first[:cap(first)] {
		first[:cap(first)][i] = 0xee
	}
	second := f()
	if !bytes.Equal(second, want) {
		e.fail("called again, gives the result of the first call as the caller has changed it")
	}
	for i := range second {
		second[i] = 0x11
	}
	for _, x := range first[:cap(first)] {
		if x != 0xee {
			e.fail("two results share memory")
		}
	}
	e.c.Count("calls_repeated", 1)
}

func (e *env) bytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(e.r.Uint32())
	}
	return b
}

func (e *env) size() int {
	switch e.r.IntN(8) {
	case 0:
		return 0
	case 1:
		return 4096*(1+e.r.IntN(3)) + e.r.IntN(3) - 1
	case 2:
		return 16 * e.r.IntN(20)
	}
	return e.r.IntN(200)
}

func crypt(e *env) {
	for _, m := range []struct {
		name     string
		enc, dec func(data, key []byte) ([]byte, error)
	}{{"CBC", aesx.EncryptCBC, aesx.DecryptCBC}, {"CTR", aesx.EncryptCTR, aesx.DecryptCTR}, {"GCM", aesx.EncryptGCM, aesx.DecryptGCM}} {
		msg, key := e.bytes(e.size()), e.bytes([]int{0, 1, 15, 16, 24, 31, 32, 33, 64, 100}[e.r.IntN(10)])
		if m.name == "CBC" {
			msg = msg[:len(msg)/16*16]
		}
		desc := fmt.Sprintf("%d bytes, key of %d bytes", len(msg), len(key))
		var ct, pt []byte
		var err error
		a, k := in(e, msg), in(e, key)
		e.call("Encrypt"+m.name, desc, func() { ct, err = m.enc(a, k) }, func() {
			if err != nil {
				e.fail("fails: " + err.Error())
			}
			ct = bytes.Clone(ct[:len(ct):len(ct)])
		})
		a, k = in(e, ct), in(e, key)
		e.call("Decrypt"+m.name, desc, func() { pt, err = m.dec(a, k) }, func() {
			if err != nil || !bytes.Equal(pt, msg) {
				e.fail(fmt.Sprintf("does not give the message (%v)", err))
			}
			e.own(pt)
		})
		e.twice(func() []byte { b, _ := m.dec(ct, key); return b }, msg)
		// The same again with results that are kept.
		e.name, e.desc = "Encrypt"+m.name, desc
		ct, err = m.enc(msg, key)
		if err != nil {
			e.fail("fails: " + err.Error())
		}
		e.own(ct)
		// Something that need not be a ciphertext.
		junk := e.bytes(e.size())
		a, k = in(e, junk), in(e, key)
		e.call("Decrypt"+m.name+" of something else", fmt.Sprintf("%d bytes", len(junk)), func() { pt, err = m.dec(a, k) }, func() { pt = bytes.Clone(pt) })
	}
}

func texts(e *env) {
	texts := []string{"", "0", "-17", "12345678901234567890", "3.25", "true", "false", "1e300", "x", "héllo wörld", "\xff\xfe", string(e.bytes(e.size()))}
	s := texts[e.r.IntN(len(texts))]
	desc := fmt.Sprintf("%d bytes of text", len(s))
	arg := func() string { return vk.Text(in(e, []byte(s))) }
	{
		a, got := arg(), []byte(nil)
		e.call("Into[string,[]byte]", desc, func() { got, _ = convx.Into[string, []byte](a) }, func() {
			if string(got) != s {
				e.fail("gives something else")
			}
			e.own(got)
		})
		e.twice(func() []byte { b, _ := convx.Into[string, []byte](s); return b }, []byte(s))
	}
	{
		a, got := arg(), []rune(nil)
		e.call("Into[string,[]rune]", desc, func() { got, _ = convx.Into[string, []rune](a) }, func() {
			if !slices.Equal(got, []rune(s)) {
				e.fail("gives something else")
			}
			clear(got[:cap(got)])
			if got, _ = convx.Into[string, []rune](s); !slices.Equal(got, []rune(s)) {
				e.fail("called again, gives the result of the first call as the caller has changed it")
			}
		})
	}
	{
		a, got := in(e, []byte(s)), ""
		e.call("Into[[]byte,string]", desc, func() { got, _ = convx.Into[[]byte, string](a) }, func() {
			if got != s {
				e.fail("gives something else")
			}
		})
	}
	{
		a, got := in(e, []rune(s)), ""
		e.call("Into[[]rune,string]", desc, func() { got, _ = convx.Into[[]rune, string](a) }, func() {
			if got != string([]rune(s)) {
				e.fail("gives something else")
			}
		})
	}
	{
		a := arg()
		e.call("Into[string,numbers]", desc, func() {
			convx.Into[string, int](a)
			convx.Into[string, uint8](a)
			convx.Into[string, int64](a)
			convx.Into[string, float64](a)
			convx.Into[string, float32](a)
			convx.Into[string, bool](a)
			convx.IntoOr[string, int16](a, 3)
		}, func() {})
	}
}

func search[T int | uint8 | float64 | int32](e *env, name string) {
	n := e.r.IntN(60)
	if e.r.IntN(5) == 0 {
		n = e.size()
	}
	v := make([]T, n)
	for i := range v {
		v[i] = T(e.r.IntN(1 + n))
	}
	desc := fmt.Sprintf("%d elements of %s", n, name)
	slices.Sort(v)
	a := in(e, v)
	e.call("Search", desc, func() {
		for i := 0; i < 5; i++ {
			searchx.Search(a, T(e.r.IntN(n+2)))
			searchx.SearchCustom(a, T(e.r.IntN(n+2)), func(x, y T) int { return int(x) - int(y) })
		}
	}, func() {})
	if e.r.IntN(2) == 0 {
		e.r.Shuffle(n, func(i, j int) { v[i], v[j] = v[j], v[i] })
	}
	a = in(e, v)
	e.call("IsSorted", desc, func() {
		sortx.IsSorted(a)
		sortx.IsSortedReverse(a)
		sortx.IsSortedCustom(a, func(x, y T) bool { return x < y })
	}, func() {})
	// The sorting functions write nothing but the elements: the memory on both
	// sides cannot be touched, spare capacity keeps its contents.
	e.name, e.desc = "Sort", desc
	s, d := vk.SealOf(e.r, v)
	rest := d[len(d):cap(d)]
	for i := range rest {
		rest[i] = 77
	}
	which := e.r.IntN(6)
	err := vk.Faults(func() {
		switch which {
		case 0:
			sortx.Sort(d, false)
		case 1:
			sortx.Sort(d, true)
		case 2:
			sortx.SortStable(d)
		case 3:
			sortx.SortStableReverse(d)
		case 4:
			sortx.SortCustom(d, func(x, y T) bool { return x < y })
		case 5:
			sortx.SortStableCustom(d, func(x, y T) bool { return x > y })
		}
	})
	if err != nil {
		e.fail("touches memory outside the slice")
	}
	for _, x := range rest {
		if x != 77 {
			e.fail("writes behind the slice")
		}
	}
	s.Free()
	e.c.Eval(1)
}

func intervals(e *env) {
	n := e.r.IntN(12)
	v := make([]intersectionx.Interval, n)
	for i := range v {
		v[i] = intersectionx.Interval{Offset: int64(e.r.IntN(100)), ConfidenceBand: int64(e.r.IntN(30))}
	}
	a := in(e, v)
	e.call("Intersection", fmt.Sprintf("%v", v), func() { intersectionx.Intersection(a...) }, func() {})
}

func slicesX(e *env) {
	n, k := e.r.IntN(30), e.r.IntN(10)
	v, w := make([]int, n), make([]int, k)
	for i := range v {
		v[i] = i + 1
	}
	for i := range w {
		w[i] = -i - 1
	}
	i, j := e.r.IntN(n+2), e.r.IntN(n+2)
	desc := fmt.Sprintf("%d elements, %d values at %d,%d", n, k, i, j)
	own := func() *slicex.Slice[int] {
		s := slicex.Slice[int](append(make([]int, 0, n+e.r.IntN(20)), v...))
		return &s
	}
	see := func(s *slicex.Slice[int]) func() {
		return func() {
			sum := 0
			for _, x := range s.Finalize()[:s.Len()] {
				sum += x
			}
			s.Push(1)
			clear(*s)
		}
	}
	a, s := in(e, w), own()
	e.call("Slice.Splice", desc, func() { s.Splice(i, j, a...) }, see(s))
	a, s = in(e, w), own()
	e.call("Slice.Expand", desc, func() { s.Expand(i, a...) }, see(s))
	a, s = in(e, w), own()
	s.Clear()
	e.call("Slice.Expand of an empty slice", desc, func() { s.Expand(0, a...) }, see(s))
	a = in(e, v)
	ro := slicex.Slice[int](a)
	var cp *slicex.Slice[int]
	e.call("Slice.Copy", desc, func() { cp = ro.Copy() }, func() { see(cp)() })
	splits := make([]int, e.r.IntN(5))
	for i := range splits {
		splits[i] = e.r.IntN(n + 2)
	}
	a = in(e, v)
	ro = a
	sp := in(e, splits)
	e.call("Slice reading", desc+fmt.Sprint(splits), func() {
		ro.Split(sp...)
		ro.Batch(1 + e.r.IntN(5))
		ro.Join(",")
		ro.IndexOf(func(x int) bool { return x == j })
		ro.Contains(func(x int) bool { return x == i })
		ro.Each(func(int) {})
		ro.ForEach(func(int, int) {})
		ro.Len()
		ro.Finalize()
		ro.Get(i)
	}, func() {})
	a = in(e, v)
	ro = a
	var text string
	e.call("Slice.Join", desc, func() { text = ro.Join(";") }, func() { _ = []byte(text) })
	// bit sets take positions
	pos := make([]int, e.r.IntN(6))
	for i := range pos {
		pos[i] = e.r.IntN(64)
	}
	p := in(e, pos)
	e.call("BitSet", fmt.Sprint(pos), func() {
		var b bitsetx.BitSet[uint64]
		b.Set(p...)
		b.Toggle(p...)
		b.Clear(p...)
		b.Test(p...)
	}, func() {})
}

func decouple(e *env) {
	size := uint64(1 + e.r.IntN(5))
	var dropped [][]byte
	d := decouplex.NewDecoupler(size, func(b []byte) (int, error) {
		dropped = append(dropped, bytes.Clone(b))
		return len(b), nil
	})
	var queue [][]byte
	for i := 0; i < 20; i++ {
		msg := e.bytes(1 + e.size())
		a := in(e, msg)
		full := len(queue) == int(size)
		e.call("Decoupler.Write", fmt.Sprintf("%d bytes, %d of %d buffered", len(msg), len(queue), size), func() { d.Write(a) }, func() {})
		if !full {
			queue = append(queue, msg)
		}
		if e.r.IntN(2) == 0 {
			continue
		}
		for k := e.r.IntN(int(size) + 1); k > 0 && len(queue) > 0; k-- {
			e.name, e.desc = "Decoupler.Next", fmt.Sprint(len(queue), " buffered")
			err := vk.Faults(func() {
				if !d.Next(func(b []byte) {
					if !bytes.Equal(b, queue[0]) {
						e.fail("hands over something else than was written")
					}
					clear(b)
				}) {
					e.fail("hands over nothing")
				}
			})
			if err != nil {
				e.c.Violate("Decoupler.Write kept the caller's memory", map[string]any{"observed": err.Error()})
			}
			queue = queue[1:]
		}
	}
	_ = dropped
}

type listing struct {
	name string
	take func() ([]int, []int)
	set  func(k, v int)
	del  func(k int)
}

func maps(e *env) {
	o, s, y, z := ordmapx.New[int, int](), sklmapx.New[int, int](), syncmapx.New[int, int](), sklmapx.New[int, int]()
	for _, m := range []listing{
		{"ordered map", func() ([]int, []int) { return o.Keys(), o.Values() }, o.Set, o.Del},
		{"skip-list map", func() ([]int, []int) { return s.Keys(), s.Values() }, s.Set, func(k int) { s.Del(k) }},
		{"goroutine-safe map", func() ([]int, []int) { return y.Keys(), y.Values() }, y.Set, y.Delete},
		{"skip-list map as a map", func() (ks, vs []int) {
			mm := z.ToMap()
			for k := range mm {
				ks = append(ks, k)
			}
			slices.Sort(ks)
			for _, k := range ks {
				vs = append(vs, mm[k])
			}
			clear(mm)
			mm[-1] = -1
			return
		}, z.Set, func(k int) { z.Del(k) }},
	} {
		d := map[int]int{}
		var hist []string
		type old struct{ ks, vs, wk, wv []int }
		var olds []old
		for i := 0; i < 30; i++ {
			k := e.r.IntN(12)
			if op := e.r.IntN(6); op == 0 {
				// listed again without a change
			} else if op < 4 {
				m.set(k, i+1)
				d[k] = i + 1
				hist = append(hist, fmt.Sprint("set ", k))
			} else {
				m.del(k)
				delete(d, k)
				hist = append(hist, fmt.Sprint("del ", k))
			}
			if e.r.IntN(3) > 0 {
				continue
			}
			ks, vs := m.take()
			hist = append(hist, "list")
			bad := len(ks) != len(d) || len(vs) != len(d)
			seen := map[int]bool{}
			for j := 0; !bad && j < len(ks); j++ {
				v, ok := d[ks[j]]
				bad = !ok || seen[ks[j]] || m.name != "goroutine-safe map" && v != vs[j]
				seen[ks[j]] = true
			}
			if bad {
				e.c.Violate(m.name+": a listing is wrong after earlier listings were overwritten", map[string]any{"history": hist, "keys": ks, "values": vs, "content": fmt.Sprint(d)})
			}
			for _, x := range olds {
				if !slices.Equal(x.ks, x.wk) || !slices.Equal(x.vs, x.wv) {
					e.c.Violate(m.name+": an earlier listing changed", map[string]any{"history": hist, "was": fmt.Sprint(x.wk, x.wv), "is": fmt.Sprint(x.ks, x.vs)})
				}
			}
			if e.r.IntN(2) == 0 {
				olds = append(olds, old{ks, vs, slices.Clone(ks), slices.Clone(vs)})
			} else {
				for _, l := range [][]int{ks, vs} {
					l = l[:cap(l)]
					for j := range l {
						l[j] = -99
					}
				}
			}
		}
		e.c.Eval(1)
		e.c.Count("map_listings_histories", 1)
	}
}

func hashes(e *env, round int) {
	pw := e.bytes([]int{0, 1, 8, 20, 71, 72}[e.r.IntN(6)])
	desc := fmt.Sprintf("password of %d bytes", len(pw))
	var h []byte
	var err error
	a := in(e, pw)
	e.call("bcrypt Encrypt", desc, func() { h, err = bcryptx.Encrypt(a) }, func() {
		if err != nil {
			e.fail("fails: " + err.Error())
		}
		h = bytes.Clone(h)
	})
	ok := false
	hh, a := in(e, h), in(e, pw)
	e.call("bcrypt Decrypt", desc, func() { ok, err = bcryptx.Decrypt(hh, a) }, func() {
		if !ok || err != nil {
			e.fail(fmt.Sprint("rejects the password: ", err))
		}
	})
	lvl := []passhashx.SecurityLevel{passhashx.SecurityLevelMobileLow, passhashx.SecurityLevelMobileHigh, passhashx.SecurityLevelLow, passhashx.SecurityLevelHigh}[round%4]
	desc += fmt.Sprint(", level ", lvl)
	a = in(e, pw)
	e.call("passhash Hash", desc, func() { h, err = passhashx.Hash(a, lvl) }, func() {
		if err != nil {
			e.fail("fails: " + err.Error())
		}
		e.own(bytes.Clone(h))
	})
	ph, a := in(e, h), in(e, pw)
	e.call("passhash Verify", desc, func() { err = passhashx.Verify(a, ph) }, func() {
		if err != nil {
			e.fail("rejects the password: " + err.Error())
		}
	})
	e.own(h)
	var s string
	a = in(e, pw)
	e.call("passhash HashBase64", desc, func() { s, err = passhashx.HashBase64(a, lvl) }, func() { s = string([]byte(s)) })
	a = in(e, pw)
	t := vk.Text(in(e, []byte(s)))
	e.call("passhash VerifyBase64", desc, func() { err = passhashx.VerifyBase64(a, t) }, func() {
		if err != nil {
			e.fail("rejects the password: " + err.Error())
		}
	})
}

func malformed(e *env) {
	pw, junk := e.bytes(e.r.IntN(20)), e.bytes(e.size())
	if len(junk) > 3 { // never a genuine hash, whose parameters could be costly
		junk[0], junk[1], junk[2], junk[3] = 0xff, 0xff, 0xff, 0xff
	}
	a, h := in(e, pw), in(e, junk)
	e.call("passhash Verify of something else", fmt.Sprint(len(junk)), func() { passhashx.Verify(a, h) }, func() {})
	a, h = in(e, pw), in(e, junk)
	e.call("bcrypt Decrypt of something else", fmt.Sprint(len(junk)), func() { bcryptx.Decrypt(h, a) }, func() {})
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one call with its arguments in sealed memory, or one history of listings; distinct by function and shape of the arguments; non-trivial all.", func(c *vk.C) {
		selfTest(t)
		e := &env{c: c, r: c.Rand("sealed")}
		for round := 0; round < c.N(1500, 40000); round++ {
			crypt(e)
			texts(e)
			search[int](e, "int")
			search[uint8](e, "uint8")
			search[float64](e, "float64")
			search[int32](e, "int32")
			intervals(e)
			slicesX(e)
			malformed(e)
			maps(e)
			if round%4 == 0 {
				decouple(e)
			}
			vk.Tick()
		}
		for round := 0; round < c.N(8, 60); round++ {
			hashes(e, round)
		}
	})
}

// selfTest: the instrument reports what it is there for.
func selfTest(t *testing.T) {
	r := rand.New(rand.NewPCG(1, 2))
	for i := 0; i < 30; i++ {
		s, d := vk.SealOf(r, []byte("abc"))
		s.ReadOnly()
		if string(d) != "abc" || vk.Faults(func() { d[1] = 'x' }) == nil {
			t.Fatal("a write to sealed memory goes unnoticed")
		}
		s.None()
		if vk.Faults(func() { _ = string(bytes.Clone(d)) }) == nil {
			t.Fatal("a read of sealed memory goes unnoticed")
		}
		s.Free()
		s, x := vk.SealOf(r, make([]int, 512))
		if vk.Faults(func() {
			for i := -1; i < 513; i++ {
				*(*int)(unsafe.Add(unsafe.Pointer(&x[0]), i*8))++
			}
		}) == nil {
			t.Fatal("an access outside sealed memory goes unnoticed")
		}
		s.Free()
	}
}
