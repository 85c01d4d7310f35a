package c50

import (
	"fmt"
	"math/rand/v2"
	"sort"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeue "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

// digest is short even for long listings.
func digest[T any](of func(T) int, vs []T) string {
	h := uint64(14695981039346656037)
	for _, v := range vs {
		h = (h ^ uint64(of(v))) * 1099511628211
	}
	return fmt.Sprintf("%d elements, %x", len(vs), h)
}

// objectsOf are the containers with elements of type T, made by mk from the
// numbers that of tells, holding about size elements.
func objectsOf[T any](o map[string]func() object, name string, mk func(int) T, of func(T) int, size int) {
	key := func(i int) string { return fmt.Sprintf("key %04d", i) }
	keys := max(40, size*3/2)
	id := func(v T, ok bool) string { return show(of(v), ok) }
	one := func(f func() (T, bool)) func(int) string {
		return func(int) string { return id(f()) }
	}
	fill := func(first bool, r *rand.Rand) int { // calls of one change
		if first {
			return size + r.IntN(20)
		}
		return 1 + r.IntN(20)
	}
	table := func(set func(string, T), del func(string), clear func()) func(*rand.Rand) {
		first := true
		return func(r *rand.Rand) {
			if !first && size < 100 && r.IntN(12) == 0 {
				clear()
			}
			for i := fill(first, r); i > 0; i-- {
				if first || r.IntN(3) > 0 {
					set(key(r.IntN(keys)), mk(r.IntN(100)))
				} else {
					del(key(r.IntN(keys)))
				}
			}
			first = false
		}
	}
	ends := func(in func(T), out func(), reads ...read) object {
		first, n := true, 0
		return object{func(r *rand.Rand) {
			for i, p := fill(first, r), 1+r.IntN(4); i > 0; i-- {
				n++
				if first || r.IntN(5) < p {
					in(mk(n % 100))
				} else {
					out()
				}
			}
			first = false
		}, reads, false}
	}
	sorted := func(s []string) string {
		sort.Strings(s)
		return digest(func(s string) int { return int(vk.HashS(s)) }, s)
	}
	ordered := func(s []string) string { return digest(func(s string) int { return int(vk.HashS(s)) }, s) }

	o["skip-list map of "+name] = func() object {
		m := sklmapx.New[string, T]()
		return object{table(m.Set, func(k string) { m.Del(k) }, m.Clear), []read{
			{"Get", func(k int) string { return id(m.Get(key(k * keys / 45))) }},
			{"Len", number(m.Len)},
			{"Keys", func(int) string { return ordered(m.Keys()) }},
			{"Values", func(int) string { return digest(of, m.Values()) }},
			{"ToMap", func(int) string {
				var s []string
				for k, v := range m.ToMap() {
					s = append(s, show(k, of(v)))
				}
				return sorted(s)
			}},
			{"Iterator", func(k int) string {
				it := m.Iterator()
				if k%2 == 0 {
					it.Seek(key(k * keys / 45))
				}
				var s []string
				for k, v, ok := it.Next(); ok; k, v, ok = it.Next() {
					s = append(s, show(k, of(v)))
				}
				return ordered(s)
			}},
		}, false}
	}
	o["ordered map of "+name] = func() object {
		m := ordmapx.New[string, T]()
		return object{table(m.Set, m.Del, m.Clear), []read{
			{"Get", func(k int) string { return id(m.Get(key(k * keys / 45))) }},
			{"Len", number(m.Len)},
			{"Keys", func(int) string { return ordered(m.Keys()) }},
			{"Values", func(int) string { return digest(of, m.Values()) }},
			{"Range", func(n int) string {
				var s []string
				m.Range(func(k string, v T) bool { s = append(s, show(k, of(v))); n--; return n == 0 })
				return ordered(s)
			}},
		}, false}
	}
	o["goroutine-safe map of "+name] = func() object {
		m := syncmapx.New[string, T]()
		return object{table(m.Set, m.Delete, m.Clear), []read{
			{"Get", func(k int) string { k = k * keys / 45; return show(of(m.Get(key(k))), m.Has(key(k))) }},
			{"Size", number(m.Size)},
			{"Keys", func(int) string { return sorted(m.Keys()) }},
			{"Values", func(int) string {
				vs := m.Values()
				sort.Slice(vs, func(i, j int) bool { return of(vs[i]) < of(vs[j]) })
				return digest(of, vs)
			}},
		}, false}
	}
	lists := func(l interface {
		Append(T)
		Insert(int, T)
		Remove(int) (T, bool)
		At(int) (T, bool)
		Iterate(func(T) bool)
		Len() int
	}) object {
		first, n := true, 0
		return object{func(r *rand.Rand) {
			for i := fill(first, r); i > 0; i-- {
				n++
				switch x := r.IntN(8); {
				case first || x < 2:
					l.Append(mk(n % 100))
				case x < 5:
					l.Insert(r.IntN(l.Len()+1), mk(n%100))
				case l.Len() > 0:
					l.Remove(r.IntN(l.Len()))
				}
			}
			first = false
		}, []read{
			{"At", func(i int) string { return id(l.At(i * max(l.Len(), 40) / 40)) }},
			{"Len", number(l.Len)},
			{"Iterate", func(n int) string {
				var s []T
				l.Iterate(func(v T) bool { s = append(s, v); n--; return n != 0 })
				return digest(of, s)
			}},
		}, false}
	}
	o["linked list of "+name] = func() object { return lists(llist.New[T]()) }
	o["slice list of "+name] = func() object { return lists(new(slist.List[T])) }
	o["deque of "+name] = func() object {
		d := dequex.New[T]()
		n := 0
		return ends(func(v T) {
			if n++; n%3 == 0 {
				d.PushFront(v)
			} else {
				d.PushBack(v)
			}
		}, func() {
			if n++; n%2 == 0 {
				d.PopBack()
			} else {
				d.PopFront()
			}
		}, read{"PeekFront", one(d.PeekFront)}, read{"PeekBack", one(d.PeekBack)})
	}
	o["linked queue of "+name] = func() object {
		q := lqueue.New[T]()
		return ends(func(v T) { q.Enqueue(v) }, func() { q.Dequeue() }, read{"Peek", one(q.Peek)}, read{"IsEmpty", truth(q.IsEmpty)})
	}
	o["linked stack of "+name] = func() object {
		s := lstack.New[T]()
		return ends(func(v T) { s.Push(v) }, func() { s.Pop() }, read{"Peek", one(s.Peek)}, read{"Len", number(s.Len)})
	}
	o["slice stack of "+name] = func() object {
		s := sstack.New[T]()
		return ends(func(v T) { s.Push(v) }, func() { s.Pop() }, read{"Peek", one(s.Peek)}, read{"Len", number(s.Len)}, read{"IsEmpty", truth(s.IsEmpty)})
	}
	o["ring of "+name] = func() object {
		q := squeue.New[T](size + 9)
		return ends(func(v T) { q.Enqueue(v) }, func() { q.Dequeue() }, read{"Peek", one(q.Peek)}, read{"IsEmpty", truth(q.IsEmpty)}, read{"IsFull", truth(q.IsFull)}, read{"Cap", number(q.Cap)})
	}
	o["slice of "+name] = func() object {
		s := slicex.New[T]()
		first, n := true, 0
		return object{func(r *rand.Rand) {
			for i := fill(first, r); i > 0; i-- {
				n++
				switch x := r.IntN(6); {
				case first || x < 2:
					s.Push(mk(n % 100))
				case x == 2:
					s.Delete(r.IntN(s.Len() + 1))
				case x == 3:
					s.Rotate(r.IntN(9) - 4)
				default:
					s.Insert(r.IntN(s.Len()+1), mk(n%100))
				}
			}
			first = false
		}, []read{
			{"Get", func(i int) string { return show(of(s.Get(i * max(s.Len(), 40) / 40))) }},
			{"Len", number(s.Len)},
			{"Copy", func(int) string { return digest(of, *s.Copy()) }},
			{"Join", func(int) string {
				if size > 100 || n > 2000 {
					return ""
				}
				return show(len(s.Join("-")))
			}},
			{"Split", func(i int) string {
				t := ""
				for _, p := range s.Split(1, i, s.Len()/2, 2) {
					t += digest(of, p)
				}
				return t
			}},
			{"Batch", func(i int) string {
				t := 0
				for _, p := range s.Batch(i + s.Len()/40) {
					t = t*31 + len(p)*1000 + of(p[0])
				}
				return show(t)
			}},
			{"IndexOf", func(i int) string { return show(s.IndexOf(func(v T) bool { return of(v) == i })) }},
			{"Contains", func(i int) string { return show(s.Contains(func(v T) bool { return of(v) == i*3 })) }},
			{"Each", func(int) string { t := 0; s.Each(func(v T) { t = t*31 + of(v) }); return show(t) }},
			{"ForEach", func(int) string { t := 0; s.ForEach(func(i int, v T) { t = t*31 + of(v)*i }); return show(t) }},
		}, false}
	}
	o["arguments of search and order test of "+name] = func() object {
		var v []T
		less := func(a, b T) bool { return of(a) < of(b) }
		return object{func(r *rand.Rand) {
			v = v[:0]
			for i := fill(true, r); i > 0; i-- {
				v = append(v, mk(r.IntN(100)))
			}
			sort.SliceStable(v, func(i, j int) bool { return less(v[i], v[j]) })
			v = roomy(v)
		}, []read{
			{"SearchCustom", func(i int) string {
				p, ok := searchx.SearchCustom(v, mk(i*2), func(a, b T) int { return of(a) - of(b) })
				return show(p, ok)
			}},
			{"IsSortedCustom", func(int) string { return show(sortx.IsSortedCustom(v, less)) }},
		}, false}
	}
	type goal struct{ v T }
	o["option, result, parameter and conversion of "+name] = func() object {
		opt, res, val := optionx.None[T](), resultx.Err[T, string](""), mk(1)
		convx.Register(func(v T) goal { return goal{v} })
		return object{func(r *rand.Rand) {
			val = mk(r.IntN(100))
			opt, res = optionx.Some(val), resultx.Ok[T, string](val)
			if r.IntN(3) == 0 {
				opt, res = optionx.None[T](), resultx.Err[T]("no")
			}
		}, []read{
			{"Option.Match", func(int) string {
				v, err := opt.Match(func(v T) (T, error) { return v, nil }, func() (T, error) { return mk(7), nil })
				return show(of(v), err)
			}},
			{"Result.Match", func(int) string {
				v, e := res.Match(func(v T) (T, string) { return v, "" }, func(e string) (T, string) { return mk(7), e })
				return show(of(v), e)
			}},
			{"Parameter", func(i int) string {
				g := optionalx.Parameter(func(v *T) *goal { return &goal{*v} }, func(*T) *T { return &val }, func(v *T) *T {
					if i%2 == 0 {
						n := mk(i)
						return &n
					}
					return v
				})
				return show(of(g.v))
			}},
			{"Into", func(int) string { g, ok := convx.Into[T, goal](val); return show(of(g.v), ok) }},
		}, false}
	}
}
