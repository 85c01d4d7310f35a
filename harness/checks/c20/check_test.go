// C20: ownership of pooled objects.
package c20

import (
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/unsafe-risk/utilx/syncx/syncpoolx"

	"verifharness/vk"
)

type core struct {
	owner atomic.Int64 // ownership mark, phase "ownership" only
	made  int64        // which pool's constructor made it
	a, b  int          // state: equal while nobody is at work on it
	puts  int          // how often it was put back
}

type obj struct {
	core
	log []int
}

// flat has no pointers, padded is of any size.
type (
	flat          struct{ core }
	padded[P any] struct {
		obj
		pad P
	}
	behind[P any] struct {
		pad P
		obj
	}
)

// parts gives the fields of an object of any type here.
func parts[O any](x *O) (*core, *[]int) {
	switch x := any(x).(type) {
	case *obj:
		return &x.core, &x.log
	case *flat:
		return &x.core, nil
	case interface{ parts() (*core, *[]int) }:
		return x.parts()
	}
	panic("no parts")
}

func (o *obj) parts() (*core, *[]int) { return &o.core, &o.log }

var kinds = []func(c *vk.C, r *rand.Rand, round int){
	one[obj], one[obj], one[obj], one[flat], one[padded[[300]byte]], one[padded[[1500]byte]],
	one[behind[[5]string]], one[padded[[5000]byte]], one[behind[[2000]any]], one[padded[[70000]byte]], one[padded[any]],
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one round of several goroutines taking objects from and returning them to one or two pools under a perturbed schedule; non-trivial when objects changed hands.", func(c *vk.C) {
		race := c.Phase == "race"
		r := c.Rand("pool", len(c.Phase))
		rounds := c.N(400, 20000)
		if race {
			rounds = c.N(150, 5000)
		}
		for round := 0; round < rounds; round++ {
			vk.Perturb(r.Uint64(), r.IntN(3))
			runtime.GOMAXPROCS([]int{1, 2, 8, 8}[r.IntN(4)])
			kinds[round%len(kinds)](c, r, round)
		}
		// sequential: nested holds
		for n := 1; n < 204; n++ {
			n := n
			if n >= 200 {
				n = []int{1000, 5000, 70000, 140000}[n-200]
			}
			var p syncpoolx.Pool[[]byte]
			p.Init(func() *[]byte { b := make([]byte, 1); return &b })
			seen := map[*[]byte]bool{}
			for i := 0; i < n; i++ {
				x := p.Get()
				if x == nil || seen[x] {
					c.Violate("one goroutine was handed the same object twice, or nil", n)
				}
				seen[x] = true
			}
			for x := range seen {
				p.Put(x)
			}
			seen = map[*[]byte]bool{}
			for i := 0; i < n+2; i++ {
				x := p.Get()
				if x == nil || seen[x] || len(*x) != 1 {
					c.Violate("one goroutine was handed the same object twice, or nil", n)
				}
				seen[x] = true
			}
			c.Eval(1)
		}
	})
}

// one is a round with objects of type O.
func one[O any](c *vk.C, r *rand.Rand, round int) {
	race := c.Phase == "race"
	pools := make([]syncpoolx.Pool[O], 2)
	var made [2]atomic.Int64
	for i := range pools {
		tag := int64(round*2 + i + 1)
		pools[i].Init(func() *O {
			if !race {
				made[i].Add(1)
			}
			x := new(O)
			o, _ := parts(x)
			o.made, o.a, o.b = tag, 7, 7
			return x
		})
	}
	gs := 2 + r.IntN(7)
	bad := make([]string, gs)
	again := make([]int, gs)
	withGC := round%20 == 0
	var wg sync.WaitGroup
	for g := 0; g < gs; g++ {
		seed := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, 1))
			me := int64(g + 1)
			type held struct {
				x    *O
				o    *core
				log  *[]int
				pool int
			}
			var hs []held
			put := func(k int) {
				h := hs[k]
				hs = append(hs[:k], hs[k+1:]...)
				h.o.a = h.o.b
				h.o.puts++
				if !race && !h.o.owner.CompareAndSwap(me, 0) {
					bad[g] = fmt.Sprintf("object held by goroutine %d now bears the mark of %d", me, h.o.owner.Load())
				}
				pools[h.pool].Put(h.x)
			}
			for i := 0; i < 120 && bad[g] == ""; i++ {
				if len(hs) > 0 && (len(hs) > 5 || r.IntN(2) == 0) {
					put(r.IntN(len(hs)))
				} else {
					p := r.IntN(2)
					x := pools[p].Get()
					if x == nil {
						bad[g] = "Get returned nil"
						continue
					}
					o, log := parts(x)
					n := o.puts
					if log != nil {
						n = len(*log)
					}
					switch {
					case !race && !o.owner.CompareAndSwap(0, me):
						bad[g] = fmt.Sprintf("Get handed out an object that goroutine %d still holds", o.owner.Load())
					case o.made != int64(round*2+p+1):
						bad[g] = fmt.Sprintf("Get of pool %d returned an object that its constructor did not make (%d)", p, o.made)
					case o.a != o.b || o.puts == 0 && o.a != 7 || o.puts != n:
						bad[g] = fmt.Sprintf("object came back in another state than it was put back with: %d %d, put back %d times, log of %d", o.a, o.b, o.puts, n)
					}
					if o.puts > 0 {
						again[g]++
					}
					o.b = r.IntN(1000)
					if log != nil {
						*log = append(*log, int(me))
					}
					hs = append(hs, held{x, o, log, p})
				}
				for _, h := range hs {
					if h.log != nil && (*h.log)[len(*h.log)-1] != int(me) {
						bad[g] = "another goroutine wrote into an object while it was held"
					}
				}
				if withGC && i%40 == 0 {
					runtime.GC()
				}
				vk.Tick()
			}
			for len(hs) > 0 && bad[g] == "" {
				put(0)
			}
		}()
	}
	wg.Wait()
	n := 0
	for g := range bad {
		n += again[g]
		if bad[g] != "" {
			c.Violate("pool ownership: "+bad[g], map[string]any{"goroutines": gs, "round": round, "type": fmt.Sprintf("%T", *new(O))})
		}
	}
	c.Eval(gs * 120)
	c.Count("objects_taken_again", n)
	if n > 0 {
		c.Distinct(uint64(round))
	}
	if round == 0 {
		c.Sample(map[string]any{"goroutines": gs, "objects_taken_again": n, "constructed": made[0].Load() + made[1].Load()})
	}
}
