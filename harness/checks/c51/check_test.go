// C51: steady use leaves nothing behind. Every component is used over and over
// in a way that brings it back to where it was; the live heap (after
// collections) and the number of goroutines are sampled between equal windows
// of use and must not keep growing.
package c51

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"runtime"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/configx/optionalx"
	"github.com/unsafe-risk/utilx/cryptox/aesx"
	"github.com/unsafe-risk/utilx/cryptox/bcryptx"
	"github.com/unsafe-risk/utilx/cryptox/passhashx"
	"github.com/unsafe-risk/utilx/dsx/linkedx/dequex"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	lqueue "github.com/unsafe-risk/utilx/dsx/linkedx/queuex"
	lstack "github.com/unsafe-risk/utilx/dsx/linkedx/stackx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/syncmapx"
	"github.com/unsafe-risk/utilx/dsx/setx/bitsetx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	squeue "github.com/unsafe-risk/utilx/dsx/slicex/queuex"
	sstack "github.com/unsafe-risk/utilx/dsx/slicex/stackx"
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/iox/usingx"
	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/timex"
	"github.com/unsafe-risk/utilx/timex/diffx"
	"github.com/unsafe-risk/utilx/timex/intersectionx"
	"github.com/unsafe-risk/utilx/timex/sleepx"
	"github.com/unsafe-risk/utilx/timex/truncatex"
	"github.com/unsafe-risk/utilx/typex/convx"
	"golang.org/x/crypto/bcrypt"

	"verifharness/vk"
)

type use struct {
	name string
	n    int // steps per window (quick)
	mk   func() (step func(i int), end func())

	slack int64 // tolerated growth beyond limit: goroutine descriptors are never freed
}

type payload struct{ b [40]byte }

type failing struct{ i int }

func (f failing) Error() string { return "failing" }
func (f *failing) Close() error { return f2(f.i) }
func f2(i int) error {
	if i%2 == 0 {
		return failing{i}
	}
	return nil
}

var sink any

func simple(f func() func(int)) func() (func(int), func()) {
	return func() (func(int), func()) { return f(), func() {} }
}

func uses() []use {
	return []use{
		{"skip-list map, sliding keys", 20000, simple(func() func(int) {
			m := sklmapx.New[int, *payload]()
			return func(i int) {
				m.Set(i, &payload{})
				m.Del(i - 30)
				m.Get(i - 3)
				if i%1000 == 0 {
					_, _, _ = m.Keys(), m.Values(), m.String()
				}
			}
		}), 0},
		{"skip-list map, filled and cleared", 400, simple(func() func(int) {
			m := sklmapx.New[string, *payload]()
			return func(i int) {
				for k := 0; k < 50; k++ {
					m.Set(fmt.Sprint(i, k), &payload{})
				}
				m.Clear()
			}
		}), 0},
		{"skip-list map, iterators", 3000, simple(func() func(int) {
			m := sklmapx.New[int, int]()
			for k := 0; k < 30; k++ {
				m.Set(k, k)
			}
			return func(i int) {
				it := m.Iterator()
				it.Seek(i % 30)
				it.Next()
				it.Next()
			}
		}), 0},
		{"ordered map, sliding keys", 20000, simple(func() func(int) {
			m := ordmapx.New[int, *payload]()
			return func(i int) {
				m.Set(i, &payload{})
				m.Del(i - 30)
				if i%500 == 0 {
					m.Range(func(int, *payload) bool { return false })
				}
				if i%3000 == 0 {
					m.Clear()
				}
			}
		}), 0},
		{"ordered map, stretching the range of keys both ways", 20000, simple(func() func(int) {
			m := ordmapx.New[int, int]()
			return func(i int) {
				m.Set(i, 1)
				m.Set(-i, 1)
				m.Del(i - 20)
				m.Del(20 - i)
			}
		}), 0},
		{"goroutine-safe map", 20000, simple(func() func(int) {
			m := syncmapx.New[int, *payload]()
			return func(i int) {
				m.Set(i, &payload{})
				m.Delete(i - 30)
				m.Get(i * 7)
				m.Has(i * 7)
				if i%3000 == 0 {
					m.Clear()
				}
			}
		}), 0},
		{"deque, both directions", 20000, simple(func() func(int) {
			d := dequex.New[*payload]()
			for k := 0; k < 100; k++ {
				d.PushBack(&payload{})
			}
			return func(i int) {
				if i/1000%2 == 0 {
					d.PushBack(&payload{})
					d.PopFront()
				} else {
					d.PushFront(&payload{})
					d.PopBack()
				}
			}
		}), 0},
		{"deque, filled and drained", 2000, simple(func() func(int) {
			d := dequex.New[*payload]()
			return func(i int) {
				for k := 0; k < 10; k++ {
					d.PushBack(&payload{})
					d.PushFront(&payload{})
				}
				for k := 0; k < 10; k++ {
					d.PopBack()
					d.PopFront()
				}
			}
		}), 0},
		{"linked list, appended and taken from the head", 20000, simple(func() func(int) {
			l := llist.New[*payload]()
			return func(i int) {
				l.Append(&payload{})
				l.Insert(l.Len()/2, &payload{})
				if l.Len() > 20 {
					l.Remove(0)
					l.Remove(l.Len() - 1)
				}
			}
		}), 0},
		{"slice list", 20000, simple(func() func(int) {
			l := new(slist.List[*payload])
			return func(i int) {
				l.Append(&payload{})
				l.Insert(l.Len()/2, &payload{})
				if l.Len() > 20 {
					l.Remove(0)
					l.Remove(l.Len() - 1)
				}
			}
		}), 0},
		{"linked queue", 20000, simple(func() func(int) {
			q := lqueue.New[*payload]()
			return func(i int) {
				q.Enqueue(&payload{})
				if i > 30 {
					q.Dequeue()
				}
			}
		}), 0},
		{"linked queue, drained each time", 10000, simple(func() func(int) {
			q := lqueue.New[*payload]()
			return func(i int) {
				q.Enqueue(&payload{})
				q.Enqueue(&payload{})
				q.Dequeue()
				q.Dequeue()
				q.Dequeue()
			}
		}), 0},
		{"linked stack", 20000, simple(func() func(int) {
			s := lstack.New[*payload]()
			return func(i int) {
				s.Push(&payload{})
				s.Push(&payload{})
				s.Pop()
				s.Pop()
			}
		}), 0},
		{"slice stack", 20000, simple(func() func(int) {
			s := sstack.New[*payload]()
			return func(i int) {
				s.Push(&payload{})
				s.Push(&payload{})
				s.Pop()
				s.Pop()
			}
		}), 0},
		{"ring", 20000, simple(func() func(int) {
			q := squeue.New[*payload](16)
			return func(i int) {
				q.Enqueue(&payload{})
				if i%40 > 20 {
					q.Dequeue()
					q.Dequeue()
				}
			}
		}), 0},
		{"slice pushed and shifted", 20000, simple(func() func(int) {
			s := slicex.New[*payload]()
			return func(i int) {
				s.Push(&payload{})
				s.UnShift(&payload{})
				if s.Len() > 20 {
					s.Shift()
					s.Pop()
				}
			}
		}), 0},
		{"slice rotated, reversed, cut and expanded", 10000, simple(func() func(int) {
			s := slicex.New(1, 2, 3, 4, 5, 6)
			return func(i int) {
				s.Rotate(i%5 - 2)
				s.Reverse()
				s.Expand(2, i, i+1)
				s.Cut(1, 3)
				s.DeleteReplace(2)
				s.Insert(2, i)
				s.Filter(func(int) bool { return true })
				s.Shuffle()
				s.Extend(1)
				s.Slice(0, 6)
				sink = s.Split(2, 2)
				sink = s.Batch(2)
				sink = s.Join(",")
			}
		}), 0},
		{"bit set", 20000, simple(func() func(int) {
			var b bitsetx.BitSet[uint64]
			return func(i int) { b.Set(i % 64); b.Toggle(i % 61); b.Clear(i % 7) }
		}), 0},
		{"lazy values", 10000, simple(func() func(int) {
			return func(i int) {
				l := lazyx.New(func() *payload { return &payload{} })
				sink = l.Get()
				sink = l.Get()
			}
		}), 0},
		{"options, results, parameters", 10000, simple(func() func(int) {
			return func(i int) {
				sink, _ = optionx.Some(&payload{}).Match(func(p *payload) (*payload, error) { return p, nil }, func() (*payload, error) { return nil, io.EOF })
				sink, _ = resultx.Ok[*payload, error](&payload{}).Match(func(p *payload) (*payload, error) { return p, nil }, func(e error) (*payload, error) { return nil, e })
				sink = optionalx.Parameter(func(p *payload) *payload { return p }, func(*payload) *payload { return &payload{} })
			}
		}), 0},
		{"typed object pool", 20000, simple(func() func(int) {
			var p syncpoolx.Pool[payload]
			p.Init(func() *payload { return &payload{} })
			return func(i int) {
				a, b := p.Get(), p.Get()
				p.Put(a)
				if i%3 == 0 {
					p.Put(b)
				}
			}
		}), 0},
		{"decoupler, written and read", 20000, simple(func() func(int) {
			d := decouplex.NewDecoupler(8, nil)
			buf := make([]byte, 100)
			return func(i int) {
				d.Write(buf[:1+i%100])
				d.Next(func([]byte) {})
			}
		}), 0},
		{"decoupler, mostly full", 20000, simple(func() func(int) {
			d := decouplex.NewDecoupler(4, func(b []byte) (int, error) { return 0, io.ErrShortWrite })
			buf := make([]byte, 100)
			return func(i int) {
				d.Write(buf)
				d.Write(nil)
				if i%3 == 0 {
					d.Next(nil)
				}
			}
		}), 0},
		{"goroutine pool, bursts", 1000, func() (func(int), func()) {
			var wg sync.WaitGroup
			p, err := gopoolx.NewTimedPool(16, func(*payload) { wg.Done() }, time.Millisecond, time.Millisecond, 2)
			if err != nil {
				panic(err)
			}
			return func(i int) {
				for k := 0; k < 20; k++ {
					wg.Add(1)
					if !p.Run(&payload{}) {
						wg.Done()
					}
				}
				wg.Wait()
				if i%20 == 0 {
					time.Sleep(4 * time.Millisecond) // idle workers go
				}
			}, p.Stop
		}, 300 << 10},
		{"goroutine pool, all workers coming and going", 160, func() (func(int), func()) {
			var wg sync.WaitGroup
			p, err := gopoolx.NewTimedPool(64, func(hold chan bool) { wg.Done(); <-hold }, time.Millisecond, time.Millisecond, 0)
			if err != nil {
				panic(err)
			}
			return func(i int) {
				hold := make(chan bool)
				for k := 0; k < 64; k++ {
					wg.Add(1)
					if !p.Run(hold) {
						wg.Done()
					}
				}
				wg.Wait()
				close(hold)
				for k := 0; k < 2000 && p.Workers() > 0; k++ {
					time.Sleep(200 * time.Microsecond)
				}
				runtime.GC() // empties pools of idle objects
				runtime.GC()
			}, p.Stop
		}, 300 << 10},
		{"goroutine pools, made and stopped", 1000, simple(func() func(int) {
			return func(i int) {
				var done atomic.Int32
				p, err := gopoolx.NewTimedPool(4, func(*payload) { done.Add(1) }, time.Minute, time.Minute, i%6)
				if err != nil {
					panic(err)
				}
				for k := 0; k < i%4; k++ {
					p.Run(&payload{})
				}
				p.Stop()
			}
		}), 150 << 10},
		{"sleeper, woken early", 1000, simple(func() func(int) {
			s := sleepx.New()
			return func(i int) {
				done := make(chan bool)
				go func() {
					switch i % 3 {
					case 0:
						done <- s.SleepFor(100000)
					case 1:
						done <- s.SleepUntil(time.Now().Add(24 * time.Hour))
					default:
						done <- s.SleepForever()
					}
				}()
				for !s.Wakeup() {
					runtime.Gosched()
				}
				<-done
			}
		}), 60 << 10},
		{"sleeper, sleeping nothing", 3000, simple(func() func(int) {
			s := sleepx.New()
			return func(i int) {
				s.SleepFor(0)
				s.SleepUntil(time.Now().Add(-time.Second))
				s.Wakeup()
			}
		}), 0},
		{"sleepers, made and left", 3000, simple(func() func(int) {
			return func(i int) { sink = sleepx.New(); sleepx.New().Wakeup() }
		}), 0},
		{"clock helpers and truncation", 10000, simple(func() func(int) {
			return func(i int) {
				d := diffx.New()
				d.Start()
				d.End()
				_ = d.GetDiff()
				t := timex.Custom(int64(i)*86400*3, 5).Unix() + timex.Now().Unix()
				_ = truncatex.TruncateYear(t) + truncatex.TruncateMonth(t) + truncatex.TruncateWeek(t) + truncatex.TruncateDay(t) + truncatex.Truncate(t, int64(i%100+1))
			}
		}), 0},
		{"intersections", 5000, simple(func() func(int) {
			return func(i int) {
				k := int64(i)
				intersectionx.Intersection(intersectionx.Interval{Offset: k, ConfidenceBand: 3}, intersectionx.Interval{Offset: k + 1, ConfidenceBand: 3}, intersectionx.Interval{Offset: k + 2, ConfidenceBand: k})
			}
		}), 0},
		{"sorting and searching", 2000, simple(func() func(int) {
			return func(i int) {
				v := []int{i, 3, i * 7 % 50, 9, 1, 5, i % 4, 0, 12, 11, 15, 14, 13, 2, 8}
				sortx.Sort(v, i%2 == 0)
				sortx.SortStable(v)
				searchx.Search(v, i%60)
				sortx.SortCustom(v, func(a, b int) bool { return a%10 < b%10 })
			}
		}), 0},
		{"conversions of ever new values", 10000, simple(func() func(int) {
			return func(i int) {
				s, _ := convx.Into[int, string](i)
				n, _ := convx.Into[string, int](s)
				b, _ := convx.Into[string, []byte](s)
				t, _ := convx.Into[[]byte, string](b)
				r, _ := convx.Into[string, []rune](t)
				sink, _ = convx.Into[[]rune, string](r)
				f, _ := convx.Into[int, float64](n)
				sink, _ = convx.Into[float64, string](f)
				sink, _ = convx.Into[string, float64](s + ".5")
				sink, _ = convx.Into[string, float32](s + ".25")
				sink, _ = convx.Into[string, bool](s)
				sink, _ = convx.Into[string, uint64](s)
				sink, _ = convx.Into[string, int8](s)
				sink, _ = convx.Into[float32, string](float32(i))
				sink, _ = convx.Into[uint64, string](uint64(i) << 20)
				sink, _ = convx.Into[string, float64]("not a number " + s)
				sink, _ = convx.Into[string, int]("not a number " + s)
				sink = convx.IntoOr[payload, int](payload{}, 3) // no converter
			}
		}), 0},
		{"converters registered and withdrawn", 10000, simple(func() func(int) {
			return func(i int) {
				p := &payload{}
				convx.Register(func(payload) *payload { return p })
				convx.Register(func(payload) uint8 { return p.b[0] })
				convx.Into[payload, *payload](*p)
				convx.Exists[payload, *payload]()
				if i%2 == 0 {
					convx.Unregister[payload, *payload]()
				}
			}
		}), 0},
		{"close managers", 5000, simple(func() func(int) {
			return func(i int) {
				m := closex.New()
				m.Append(&failing{i})
				m.Append(&failing{i + 1})
				err := m.Close()
				l, _ := closex.AsErrs(err)
				sink = len(l) + len(err.Error())
			}
		}), 0},
		{"scoped closing", 5000, simple(func() func(int) {
			return func(i int) {
				sink = usingx.Close(&failing{i}, &failing{i + 1})(func() {})
				_ = vk.TryFast(func() { usingx.Close(&failing{i})(func() { panic("x") }) })
			}
		}), 0},
		{"ciphers with ever new keys", 1500, simple(func() func(int) {
			return func(i int) {
				key := []byte(fmt.Sprint("key", i))
				data := bytes.Repeat([]byte{byte(i)}, 64)
				for _, f := range []func([]byte, []byte) ([]byte, error){aesx.EncryptCBC, aesx.EncryptCTR, aesx.EncryptGCM} {
					if _, err := f(data, key); err != nil {
						panic(err)
					}
				}
				aesx.DecryptCBC(data, key)
				aesx.DecryptCTR(data, key)
				aesx.DecryptGCM(data, key)
				aesx.DecryptGCM(data[:5], key)
			}
		}), 0},
		{"bcrypt", 150, simple(func() func(int) {
			h, err := bcrypt.GenerateFromPassword([]byte("pw"), bcrypt.MinCost)
			if err != nil {
				panic(err)
			}
			return func(i int) {
				bcryptx.Decrypt(h, []byte("pw"))
				bcryptx.Decrypt(h, []byte(fmt.Sprint("pw", i)))
				bcryptx.Decrypt(h[:10], []byte(fmt.Sprint("pw", i)))
				bcryptx.Encrypt(make([]byte, 100))
			}
		}), 0},
		{"bcrypt hashing", 4, simple(func() func(int) {
			return func(i int) { sink, _ = bcryptx.Encrypt([]byte(fmt.Sprint("pw", i))) }
		}), 0},
		{"password hashes", 12, simple(func() func(int) {
			return func(i int) {
				pw := bytes.Repeat([]byte{byte(i), byte(i >> 8), 'x'}, 700)
				h, err := passhashx.HashBase64(pw, passhashx.SecurityLevelMobileLow)
				if err != nil || passhashx.VerifyBase64(pw, h) != nil {
					panic(errors.New("hash does not verify"))
				}
				passhashx.VerifyBase64(pw, "AAAA")
				passhashx.Hash(pw, 99)
			}
		}), 0},
	}
}

func heap() int64 {
	var m runtime.MemStats
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// routines waits for goroutines to end as far as they are going to.
func routines(limit int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 2000 && n > limit; i++ {
		time.Sleep(time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one component in steady use; distinct by component and way of using it. After a warm-up the use goes on for several equal windows with live heap and goroutines sampled in between.", func(c *vk.C) {
		debug.SetGCPercent(400)
		mult := c.N(1, 12)
		const windows = 5
		for _, u := range uses() {
			base := vk.NumGoroutines(-1)
			step, end := u.mk()
			i := 1
			run := func(n int) {
				for k := 0; k < n; k++ {
					step(i)
					i++
					if k%64 == 0 {
						vk.Tick()
					}
				}
				vk.Tick()
				sink = nil
			}
			n := u.n * mult
			var hs, gs []int64
			attempt := func() bool {
				hs, gs = hs[:0], gs[:0]
				for w := 0; w <= windows; w++ {
					run(n)
					g := routines(base + 40) // a pool in use may keep its workers
					hs = append(hs, heap())
					gs = append(gs, int64(g))
				}
				c.Eval((windows + 1) * n)
				l := limit(n, windows) + u.slack
				return hs[windows]-hs[0] > l && grows(hs, l/(3*windows)) || gs[windows] > int64(base+40)
			}
			run(n)
			leak := attempt()
			for again := 0; leak && again < 2; again++ { // noise does not repeat
				leak = attempt()
			}
			c.Distinct(vk.HashS(u.name))
			c.Count("steps: "+u.name, i)
			c.Max("growth: "+u.name, int(hs[windows]-hs[0]))
			c.Max("largest growth of the live heap over all windows, bytes", int(hs[windows]-hs[0]))
			c.Max("most goroutines between windows beyond the start", int(gs[windows])-base)
			if leak {
				c.Violate("steady use leaves something behind every time", map[string]any{"use": u.name, "steps per window": n, "live heap in bytes after each window": hs, "goroutines after each window": gs, "goroutines before": base})
			}
			end()
			if g := routines(base); g > base {
				c.Violate("goroutines are left behind after the last use", map[string]any{"use": u.name, "goroutines": g, "before": base, "stacks": stacks()})
			}
		}
		c.Sample(map[string]any{"uses": len(uses()), "windows": windows})
	})
}

// limit is the growth tolerated over all windows: far below one word per step
// of the cheap uses, and a few kilobytes for the costly ones.
func limit(n, windows int) int64 {
	l := int64(n*windows) * 2
	if l < 16<<10 {
		l = 16 << 10
	}
	if l > 256<<10 {
		l = 256 << 10
	}
	return l
}

// grows reports whether growth is seen in at least three of five windows.
func grows(hs []int64, by int64) bool {
	n := 0
	for i := 1; i < len(hs); i++ {
		if hs[i]-hs[i-1] > by {
			n++
		}
	}
	return n >= 3
}

func stacks() string {
	b := make([]byte, 1<<16)
	return string(b[:runtime.Stack(b, true)])
}
