// C50: reading is not writing. Several goroutines read one object (or pass the
// same arguments to functions that only read them) with nothing that would
// order their accesses, so the race detector sees every write a reader makes.
// A twin built by the same history and read by one goroutine says what every
// reader must see.
package c50

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeue "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"github.com/unsafe-risk/utilx/typex/convx"
	"golang.org/x/crypto/bcrypt"

	"verifharness/seq"
	"verifharness/vk"
)

// object is something shared: it is changed by one goroutine while nobody
// reads, and read by many while nobody changes it.
type object struct {
	change func(r *rand.Rand)
	reads  []read
	costly bool
}

type read struct {
	name string
	do   func(arg int) string
}

func show(v ...any) string { return fmt.Sprint(v...) }

// roomy returns a copy of s with spare capacity behind it.
func roomy[T any](s []T) []T { return append(make([]T, 0, len(s)+24), s...) }

func sortedMap(kind string) object {
	if kind == "skl" {
		m := sklmapx.New[int, string]()
		return object{func(r *rand.Rand) { change(r, m.Set, func(k int) { m.Del(k) }, m.Clear) }, []read{
			{"Get", func(k int) string { v, ok := m.Get(k); return show(v, ok) }},
			{"Len", func(int) string { return show(m.Len()) }},
			{"Keys", func(int) string { return show(m.Keys()) }},
			{"Values", func(int) string { return show(m.Values()) }},
			{"ToMap", func(int) string { return show(m.ToMap()) }},
			{"String", func(int) string { return m.String() }},
			{"Iterator", func(k int) string {
				it := m.Iterator()
				if k%2 == 0 {
					it.Seek(k)
				}
				s := ""
				for k, v, ok := it.Next(); ok; k, v, ok = it.Next() {
					s += show(k, v)
				}
				return s
			}},
		}, false}
	}
	if kind == "sync" {
		m := syncmapx.New[int, string]()
		return object{func(r *rand.Rand) { change(r, m.Set, m.Delete, m.Clear) }, []read{
			{"Get", func(k int) string { return show(m.Get(k), m.Has(k)) }},
			{"Size", func(int) string { return show(m.Size()) }},
			{"Keys", func(int) string { ks := m.Keys(); sort.Ints(ks); return show(ks) }},
			{"Values", func(int) string { vs := m.Values(); sort.Strings(vs); return show(vs) }},
		}, false}
	}
	m := ordmapx.New[int, string]()
	return object{func(r *rand.Rand) { change(r, m.Set, m.Del, m.Clear) }, []read{
		{"Get", func(k int) string { v, ok := m.Get(k); return show(v, ok) }},
		{"Len", func(int) string { return show(m.Len()) }},
		{"Keys", func(int) string { return show(m.Keys()) }},
		{"Values", func(int) string { return show(m.Values()) }},
		{"Range", func(n int) string {
			s := ""
			m.Range(func(k int, v string) bool { s += show(k, v); n--; return n < 0 })
			return s
		}},
	}, false}
}

func change(r *rand.Rand, set func(int, string), del func(int), clear func()) {
	for i := r.IntN(30); i >= 0; i-- {
		switch x := r.IntN(20); {
		case x < 12:
			set(r.IntN(40), show("v", r.IntN(100)))
		case x < 19:
			del(r.IntN(40))
		default:
			clear()
		}
	}
}

func list(mk func() lister) object {
	l := mk()
	n := 0
	return object{func(r *rand.Rand) {
		for i := r.IntN(12); i >= 0; i-- {
			n++
			switch x := r.IntN(8); {
			case x < 3:
				l.Append(n)
			case x < 6:
				l.Insert(r.IntN(l.Len()+1), n)
			default:
				l.Remove(r.IntN(l.Len() + 1))
			}
		}
	}, []read{
		{"At", func(i int) string { v, ok := l.At(i); return show(v, ok) }},
		{"Len", func(int) string { return show(l.Len()) }},
		{"Iterate", func(n int) string {
			s := ""
			l.Iterate(func(v int) bool { s += show(v, ","); n--; return n >= 0 })
			return s
		}},
	}, false}
}

type lister interface {
	Append(int)
	Insert(int, int)
	Remove(int) (int, bool)
	At(int) (int, bool)
	Iterate(func(int) bool)
	Len() int
}

func line(in func(int), out func(), reads ...read) object {
	n := 0
	return object{func(r *rand.Rand) {
		for i, p := r.IntN(100), 1+r.IntN(4); i >= 0; i-- {
			n++
			if r.IntN(5) < p {
				in(n)
			} else {
				out()
			}
		}
	}, reads, false}
}

func pair(f func() (int, bool)) func(int) string {
	return func(int) string { v, ok := f(); return show(v, ok) }
}

func truth(f func() bool) func(int) string { return func(int) string { return show(f()) } }
func number(f func() int) func(int) string { return func(int) string { return show(f()) } }

type failing string

func (f failing) Error() string { return string(f) }
func (f failing) Close() error  { return f }

// goldenHash is a cheap bcrypt hash.
func goldenHash(pw []byte) []byte {
	h, err := bcrypt.GenerateFromPassword(pw, bcrypt.MinCost)
	if err != nil {
		panic(err)
	}
	return h
}

func objects() map[string]func() object {
	o := map[string]func() object{
		"skip-list map":      func() object { return sortedMap("skl") },
		"ordered map":        func() object { return sortedMap("ord") },
		"goroutine-safe map": func() object { return sortedMap("sync") },
		"linked list":        func() object { return list(func() lister { return llist.New[int]() }) },
		"slice list":         func() object { return list(func() lister { return new(slist.List[int]) }) },
		"deque": func() object {
			d := dequex.New[int]()
			n := 0
			return line(func(v int) {
				if v%2 == 0 {
					d.PushBack(v)
				} else {
					d.PushFront(v)
				}
			}, func() {
				if n++; n%2 == 0 {
					d.PopBack()
				} else {
					d.PopFront()
				}
			}, read{"PeekFront", pair(d.PeekFront)}, read{"PeekBack", pair(d.PeekBack)})
		},
		"linked queue": func() object {
			q := lqueue.New[int]()
			return line(func(v int) { q.Enqueue(v) }, func() { q.Dequeue() }, read{"Peek", pair(q.Peek)}, read{"IsEmpty", truth(q.IsEmpty)})
		},
		"linked stack": func() object {
			s := lstack.New[int]()
			return line(func(v int) { s.Push(v) }, func() { s.Pop() }, read{"Peek", pair(s.Peek)}, read{"Len", number(s.Len)})
		},
		"slice stack": func() object {
			s := sstack.New[int]()
			return line(func(v int) { s.Push(v) }, func() { s.Pop() }, read{"Peek", pair(s.Peek)}, read{"Len", number(s.Len)}, read{"IsEmpty", truth(s.IsEmpty)})
		},
		"ring": func() object {
			q := squeue.New[int](20)
			return line(func(v int) { q.Enqueue(v) }, func() { q.Dequeue() }, read{"Peek", pair(q.Peek)}, read{"IsEmpty", truth(q.IsEmpty)}, read{"IsFull", truth(q.IsFull)},
				read{"Cap", number(q.Cap)}, read{"Head", func(int) string {
					if q.IsEmpty() {
						return ""
					}
					return show(q.Head())
				}})
		},
		"bit set": func() object {
			var b bitsetx.BitSet[uint64]
			return object{func(r *rand.Rand) {
				switch r.IntN(6) {
				case 0:
					b.SetAll()
				case 1:
					b.ClearAll()
				case 2:
					b.ToggleAll()
				default:
					b.Toggle(r.IntN(64), r.IntN(64))
				}
			}, []read{
				{"Test", func(i int) string { return show(b.Test(i%64, (i+7)%64)) }},
				{"IsEmpty", truth(b.IsEmpty)},
				{"IsFull", truth(b.IsFull)},
			}, false}
		},
		"slice": func() object {
			s := slicex.New[int]()
			n := 0
			return object{func(r *rand.Rand) {
				for i := r.IntN(8); i >= 0; i-- {
					n++
					switch r.IntN(6) {
					case 0:
						s.Delete(r.IntN(s.Len() + 1))
					case 1:
						s.Rotate(r.IntN(9) - 4)
					case 2:
						s.Filter(func(v int) bool { return v%7 != 0 })
					default:
						s.Insert(r.IntN(s.Len()+1), n)
					}
				}
			}, []read{
				{"Get", func(i int) string { return show(s.Get(i)) }},
				{"Len", number(s.Len)},
				{"Copy", func(int) string { return show(*s.Copy()) }},
				{"Join", func(int) string { return s.Join("-") }},
				{"Split", func(i int) string { return show(s.Split(1, i, 2)) }},
				{"Batch", func(i int) string { return show(s.Batch(i)) }},
				{"IndexOf", func(i int) string { return show(s.IndexOf(func(v int) bool { return v == i })) }},
				{"Contains", func(i int) string { return show(s.Contains(func(v int) bool { return v == i })) }},
				{"Each", func(int) string { t := 0; s.Each(func(v int) { t = t*31 + v }); return show(t) }},
				{"ForEach", func(int) string { t := 0; s.ForEach(func(i, v int) { t = t*31 + v*i }); return show(t) }},
				{"Finalize", func(int) string { return show(s.Finalize()) }},
			}, false}
		},
		"arguments for search and order test": func() object {
			var v []int
			return object{func(r *rand.Rand) {
				v = v[:0]
				for i := r.IntN(60); i > 0; i-- {
					v = append(v, r.IntN(60))
				}
				sort.Ints(v)
				v = roomy(v)
			}, []read{
				{"Search", func(i int) string { p, ok := searchx.Search(v, i); return show(p, ok) }},
				{"SearchCustom", func(i int) string {
					p, ok := searchx.SearchCustom(v, i, func(a, b int) int { return a - b })
					return show(p, ok)
				}},
				{"IsSorted", func(int) string { return show(sortx.IsSorted(v), sortx.IsSortedReverse(v)) }},
				{"IsSortedCustom", func(int) string { return show(sortx.IsSortedCustom(v, func(a, b int) bool { return a > b })) }},
			}, false}
		},
		"arguments for an intersection": func() object {
			var v []intersectionx.Interval
			return object{func(r *rand.Rand) {
				v = v[:0]
				for i := r.IntN(9); i >= 0; i-- {
					v = append(v, intersectionx.Interval{Offset: r.Int64N(20), ConfidenceBand: r.Int64N(9)})
				}
				v = roomy(v)
			}, []read{
				{"Intersection", func(int) string { return show(intersectionx.Intersection(v...)) }},
			}, false}
		},
		"stopwatch": func() object {
			d := diffx.New()
			d.Start()
			d.End()
			return object{func(r *rand.Rand) {}, []read{
				{"GetDiff", func(int) string { return show(d.GetDiff() == d.GetDiff(), d.GetDiff() >= 0) }},
				{"GetStart", func(int) string { return show(d.GetStart().Location()) }},
				{"GetEnd", func(int) string { return show(d.GetEnd().Location(), d.GetEnd().Sub(d.GetStart()) < time.Hour) }},
			}, false}
		},
		"option and result": func() object {
			o := optionx.None[int]()
			q := resultx.Err[int, error](io.EOF)
			return object{func(r *rand.Rand) {
				o = optionx.Some(r.IntN(100))
				q = resultx.Ok[int, error](r.IntN(100))
				if r.IntN(3) == 0 {
					o, q = optionx.None[int](), resultx.Err[int, error](io.EOF)
				}
			}, []read{
				{"Option.Match", func(int) string {
					return show(o.Match(func(v int) (int, error) { return v, nil }, func() (int, error) { return 0, io.EOF }))
				}},
				{"Result.Match", func(int) string {
					return show(q.Match(func(v int) (int, error) { return v, nil }, func(e error) (int, error) { return 0, e }))
				}},
			}, false}
		},
		"error for a close manager": func() object {
			var err error = closex.ErrorList{}
			return object{func(r *rand.Rand) {
				m := closex.New()
				for i := r.IntN(5); i >= 0; i-- {
					m.Append(failing(show("failure ", r.IntN(9))))
				}
				err = m.Close()
				if r.IntN(2) == 0 {
					err = fmt.Errorf("wrapped: %w", err)
				}
			}, []read{
				{"Error", func(int) string { return err.Error() }},
				{"AsErrs", func(int) string { l, ok := closex.AsErrs(err); return show(l, ok) }},
				{"errors.Is", func(int) string { return show(errors.Is(err, io.EOF)) }},
			}, false}
		},
		"texts and bytes to convert": func() object {
			var b []byte
			var rs []rune
			return object{func(r *rand.Rand) {
				b = roomy([]byte(show(r.IntN(1000), "x")))
				rs = roomy([]rune(string(b)))
			}, []read{
				{"bytes to text", func(int) string { s, ok := convx.Into[[]byte, string](b); return show(s, ok) }},
				{"runes to text", func(int) string { s, ok := convx.Into[[]rune, string](rs); return show(s, ok) }},
				{"bytes to bytes", func(int) string { s, ok := convx.Into[[]byte, []byte](b); return show(string(s), ok) }},
				{"runes to runes", func(int) string { s, ok := convx.Into[[]rune, []rune](rs); return show(string(s), ok) }},
				{"text to bytes", func(i int) string { s, ok := convx.Into[string, []byte](show(i)); return show(string(s), ok) }},
			}, false}
		},
		"data and key for a cipher": func() object {
			var data, key []byte
			var cbc, ctr, gcm []byte
			back := func(want []byte) func([]byte, error) string {
				return func(got []byte, err error) string { return show(bytes.Equal(got, want), err) }
			}
			return object{func(r *rand.Rand) {
				data, key = roomy(make([]byte, 16*r.IntN(6))), roomy(make([]byte, r.IntN(40)))
				for i := range data {
					data[i] = byte(r.Uint32())
				}
				for i := range key {
					key[i] = byte(r.Uint32())
				}
				cbc, _ = aesx.EncryptCBC(data, key)
				ctr, _ = aesx.EncryptCTR(data, key)
				gcm, _ = aesx.EncryptGCM(data, key)
				cbc, ctr, gcm = roomy(cbc), roomy(ctr), roomy(gcm)
			}, []read{
				{"EncryptCBC", func(int) string {
					c, err := aesx.EncryptCBC(data, key)
					if err != nil {
						return show(err)
					}
					return back(data)(aesx.DecryptCBC(c, key))
				}},
				{"EncryptCTR", func(int) string {
					c, err := aesx.EncryptCTR(data, key)
					if err != nil {
						return show(err)
					}
					return back(data)(aesx.DecryptCTR(c, key))
				}},
				{"EncryptGCM", func(int) string {
					c, err := aesx.EncryptGCM(data, key)
					if err != nil {
						return show(err)
					}
					return back(data)(aesx.DecryptGCM(c, key))
				}},
				{"DecryptCBC", func(int) string { return back(data)(aesx.DecryptCBC(cbc, key)) }},
				{"DecryptCTR", func(int) string { return back(data)(aesx.DecryptCTR(ctr, key)) }},
				{"DecryptGCM", func(int) string { return back(data)(aesx.DecryptGCM(gcm, key)) }},
			}, false}
		},
		"password and its bcrypt hash": func() object {
			pw := roomy([]byte("correct horse"))
			wrong := roomy([]byte("correct house"))
			h := roomy(goldenHash(pw))
			short := roomy(h[:40])
			return object{func(r *rand.Rand) {}, []read{
				{"bcryptx.Decrypt", func(int) string { ok, err := bcryptx.Decrypt(h, pw); return show(ok, err) }},
				{"bcryptx.Decrypt, wrong", func(int) string { ok, err := bcryptx.Decrypt(h, wrong); return show(ok, err != nil) }},
				{"bcryptx.Decrypt, broken", func(int) string { ok, err := bcryptx.Decrypt(short, pw); return show(ok, err != nil) }},
			}, false}
		},
		"password to hash with bcrypt": func() object {
			pw := roomy([]byte("correct horse"))
			return object{func(r *rand.Rand) {}, []read{
				{"bcryptx.Encrypt", func(int) string {
					h, err := bcryptx.Encrypt(pw)
					return show(len(h), err, bcrypt.CompareHashAndPassword(h, []byte("correct horse")))
				}},
			}, true}
		},
		"password and its hash": func() object {
			pw := roomy([]byte("correct horse"))
			wrong := roomy([]byte("correct house"))
			ph, err := passhashx.Hash(pw, passhashx.SecurityLevelMobileLow)
			if err != nil {
				panic(err)
			}
			ph = roomy(ph)
			broken := roomy(ph[:len(ph)-1])
			broken[9]-- // a hash one byte shorter
			return object{func(r *rand.Rand) {}, []read{
				{"passhashx.Verify", func(int) string { return show(passhashx.Verify(pw, ph)) }},
				{"passhashx.Verify, wrong", func(int) string { return show(passhashx.Verify(wrong, ph) != nil) }},
				{"passhashx.Verify, broken", func(int) string { return show(passhashx.Verify(pw, broken) != nil) }},
				{"passhashx.Hash", func(int) string {
					h, err := passhashx.Hash(pw, passhashx.SecurityLevelMobileLow)
					return show(len(h), err)
				}},
			}, true}
		},
	}
	num := func(v int) int { return v }
	objectsOf(o, "texts", func(i int) string { return fmt.Sprint(i) }, func(v string) int { n, _ := strconv.Atoi(v); return n }, 30)
	objectsOf(o, "arrays of 9608 bytes", func(i int) seq.Huge { return seq.Huge{0: int64(i), 1200: int64(i)} }, func(v seq.Huge) int { return int(v[0]) + int(v[1200]-v[0])*1000003 }, 20)
	objectsOf(o, "any", func(i int) any { return i }, func(v any) int { n, _ := v.(int); return n }, 30)
	objectsOf(o, "bytes", func(i int) uint8 { return uint8(i) }, func(v uint8) int { return int(v) }, 30)
	objectsOf(o, "many numbers", num, num, 600)
	return o
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one round: an object changed by one goroutine and then read by several at once, every reader running its own sequence of read operations (the first ones after the change included); distinct by object kind and seed.", func(c *vk.C) {
		objs := objects()
		var names []string
		for n := range objs {
			if strings.Contains(n, " of ") && c.Phase == "kinds" || !strings.Contains(n, " of ") && c.Phase == "race" {
				names = append(names, n)
			}
		}
		sort.Strings(names)
		r := c.Rand("c50")
		lives := c.N(12, 300)
		if c.Phase == "kinds" {
			lives = c.N(8, 160)
		}
		for life := 0; life < lives; life++ {
			for k, name := range names {
				if c.Phase == "kinds" && k%4 != life%4 {
					continue
				}
				shared, twin := objs[name](), objs[name]()
				rounds := 8
				if shared.costly {
					if life >= c.N(1, 6) {
						continue
					}
					rounds = len(shared.reads)
				}
				for round := 0; round < rounds; round++ {
					vk.Perturb(r.Uint64(), 1+r.IntN(5))
					runtime.GOMAXPROCS([]int{1, 2, 8, 8}[r.IntN(4)])
					seed := r.Uint64()
					c.Distinct(vk.Hash([]any{name, seed}))
					shared.change(rand.New(rand.NewPCG(seed, 1)))
					twin.change(rand.New(rand.NewPCG(seed, 1)))
					gs := 2 + r.IntN(5)
					type job struct{ op, arg int }
					plans := make([][]job, gs)
					got := make([][]string, gs)
					first := -1 // in half of the rounds everybody starts with the same operation
					if round%2 == 0 {
						first = (life*4 + round/2) % len(shared.reads)
					}
					if shared.costly { // and here they do nothing else
						first, gs = round, 2
						plans, got = plans[:gs], got[:gs]
					}
					for g := range plans {
						n := 6
						if shared.costly {
							n = 1
						}
						for i := 0; i < n; i++ {
							j := job{r.IntN(len(shared.reads)), r.IntN(45)}
							if i == 0 && first >= 0 {
								j.op = first
							}
							plans[g] = append(plans[g], j)
						}
						got[g] = make([]string, n)
					}
					start := make(chan struct{})
					var wg sync.WaitGroup
					for g := range plans {
						wg.Add(1)
						go func() {
							defer wg.Done()
							<-start
							for i, j := range plans[g] {
								if err := vk.Try(func() { got[g][i] = shared.reads[j.op].do(j.arg) }); err != nil {
									got[g][i] = show("panic: ", err, "\n", err.(*vk.Panic).Stack)
								}
							}
						}()
					}
					close(start)
					wg.Wait()
					vk.Unbound()
					for g := range plans {
						for i, j := range plans[g] {
							op := shared.reads[j.op]
							want := twin.reads[j.op].do(j.arg)
							c.Eval(1)
							c.Count("reads of "+name, 1)
							if got[g][i] != want {
								c.Violate("a reader that ran beside other readers saw something else than the object holds",
									map[string]any{"object": name, "operation": op.name, "argument": j.arg, "observed": clip(got[g][i]), "alone": clip(want), "readers": gs})
							}
						}
					}
				}
			}
		}
		c.Sample(map[string]any{"objects": names})
	})
}

func clip(s string) string {
	if len(s) > 1500 {
		return s[:1500]
	}
	return strings.ToValidUTF8(s, "?")
}
