// C55: functions supplied by the caller use the object that calls them, and
// wait for other goroutines that use it. Every scenario has a plain recursive
// model; what must not happen is a deadlock, an endless loop, or a result that
// differs from that of the same call made elsewhere.
package c55

import (
	"errors"
	"fmt"
	"io"
	"math/rand/v2"
	"reflect"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unsafe"

	"github.com/unsafe-risk/utilx/algox/searchx"
	"github.com/unsafe-risk/utilx/algox/sortx"
	"github.com/unsafe-risk/utilx/configx/optionalx"
	llist "github.com/unsafe-risk/utilx/dsx/linkedx/listx"
	"github.com/unsafe-risk/utilx/dsx/mapx/ordmapx"
	"github.com/unsafe-risk/utilx/dsx/mapx/sklmapx"
	"github.com/unsafe-risk/utilx/dsx/slicex"
	slist "github.com/unsafe-risk/utilx/dsx/slicex/listx"
	"github.com/unsafe-risk/utilx/functionalx/lazyx"
	"github.com/unsafe-risk/utilx/functionalx/optionx"
	"github.com/unsafe-risk/utilx/functionalx/resultx"
	"github.com/unsafe-risk/utilx/iox/decouplex"
	"github.com/unsafe-risk/utilx/iox/managerx/closex"
	"github.com/unsafe-risk/utilx/iox/usingx"
	"github.com/unsafe-risk/utilx/poolx/gopoolx"
	"github.com/unsafe-risk/utilx/syncx/lockx"
	"github.com/unsafe-risk/utilx/syncx/syncpoolx"
	"github.com/unsafe-risk/utilx/typex/convx"

	"verifharness/vk"
)

type scenario struct {
	name string
	conc bool // uses several goroutines
	turn bool // but only one at a time
	run  func(r *rand.Rand) string
}

// elsewhere runs f in another goroutine and waits for it.
func elsewhere(f func()) {
	done := make(chan any)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	if p := <-done; p != nil {
		panic(p)
	}
}

// where picks this goroutine or another one.
func where(r *rand.Rand, f func()) {
	if r.IntN(2) == 0 {
		elsewhere(f)
		return
	}
	f()
}

type closer func() error

func (c closer) Close() error { return c() }

func diff(what string, got, want any) string {
	if reflect.DeepEqual(got, want) {
		return ""
	}
	return fmt.Sprintf("%s: got %.300s, want %.300s", what, fmt.Sprint(got), fmt.Sprint(want))
}

func first(s ...string) string {
	for _, x := range s {
		if x != "" {
			return x
		}
	}
	return ""
}

// ------------------------------------------------------------ closers

// manager: closers register further closers and close other managers.
func manager(r *rand.Rand) string {
	m, other := closex.New(), closex.New()
	isDefault := r.IntN(20) == 0
	if isDefault {
		m = closex.Default
	}
	n := 1 + r.IntN(6)
	closed := make([]int, n)
	var order []int
	var later []int
	var wantErrs []error
	otherClosed := 0
	other.Append(closer(func() error { otherClosed++; return nil }))
	wantOther := 0
	for i := 0; i < n; i++ {
		var e error
		if r.IntN(3) == 0 {
			e = fmt.Errorf("closer %d", i)
			wantErrs = append(wantErrs, e)
		}
		kids := r.IntN(3)
		mode := r.IntN(4)
		wait := r.IntN(2) == 0
		if mode == 1 {
			wantOther++
		}
		did := false
		m.Append(closer(func() error {
			closed[i]++
			if did { // the manager keeps its closers
				return nil
			}
			did = true
			order = append(order, i)
			use := func() {
				for k := 0; k < kids; k++ {
					id := len(later)
					later = append(later, 0)
					if isDefault {
						closex.Append(closer(func() error { later[id]++; return nil }))
					} else {
						m.Append(closer(func() error { later[id]++; return nil }))
					}
				}
				if mode == 1 {
					other.Close()
				}
			}
			if wait {
				elsewhere(use)
			} else {
				use()
			}
			return e
		}))
	}
	shut := m.Close
	if isDefault {
		shut = closex.Close
	}
	err := shut()
	want := make([]int, n)
	for i := range want {
		want[i] = i
	}
	errs, _ := closex.AsErrs(err)
	if len(wantErrs) == 0 && err != nil {
		return fmt.Sprint("nothing failed but Close returned ", err)
	}
	same := len(errs) == len(wantErrs)
	for i := range wantErrs {
		same = same && errs[i] == wantErrs[i]
	}
	if !same {
		return diff("errors of Close", errs, wantErrs)
	}
	if e := first(diff("closers closed, in order", order, want), diff("other manager closed", otherClosed, wantOther)); e != "" {
		return e
	}
	for i, k := range closed {
		if k != 1 {
			return fmt.Sprintf("closer %d closed %d times", i, k)
		}
	}
	for i, k := range later {
		if k > 1 {
			return fmt.Sprintf("closer %d registered meanwhile closed %d times by one Close", i, k)
		}
	}
	if err := shut(); err != nil {
		return fmt.Sprint("the second Close returned ", err)
	}
	for i, k := range later {
		if k == 0 {
			return fmt.Sprintf("closer %d registered by a closer was never closed", i)
		}
	}
	return ""
}

// scopes: scopes in scopes, in their functions and in their closers, and the
// same scope function again from inside.
func scopes(r *rand.Rand) string {
	type node struct {
		id    int
		f     []*node // scopes used by the function
		cl    [][]*node
		fails []bool
		again bool
	}
	id := 0
	var build func(d int) *node
	build = func(d int) *node {
		id++
		x := &node{id: id, again: r.IntN(4) == 0}
		if d > 0 {
			for i := r.IntN(3); i > 0; i-- {
				x.f = append(x.f, build(d-1))
			}
		}
		for i := r.IntN(4); i > 0; i-- {
			var k []*node
			if d > 0 && r.IntN(3) == 0 {
				k = append(k, build(d-1))
			}
			x.cl = append(x.cl, k)
			x.fails = append(x.fails, r.IntN(3) == 0)
		}
		return x
	}
	root := build(3)
	var want, got []string
	var model func(x *node, again bool)
	model = func(x *node, again bool) {
		want = append(want, fmt.Sprintf("f%d", x.id))
		if again {
			model(x, false)
		} else {
			for _, k := range x.f {
				model(k, k.again)
			}
		}
		errs := 0
		for i, k := range x.cl {
			want = append(want, fmt.Sprintf("c%d.%d", x.id, i))
			for _, y := range k {
				model(y, false)
			}
			if x.fails[i] {
				errs++
			}
		}
		want = append(want, fmt.Sprintf("e%d=%d", x.id, errs))
	}
	model(root, root.again)
	var mk func(x *node) func(again bool)
	mk = func(x *node) func(again bool) {
		var cs []io.Closer
		for i, k := range x.cl {
			var inner []func(bool)
			for _, y := range k {
				inner = append(inner, mk(y))
			}
			cs = append(cs, closer(func() error {
				got = append(got, fmt.Sprintf("c%d.%d", x.id, i))
				for _, f := range inner {
					f(false)
				}
				if x.fails[i] {
					return errors.New("no")
				}
				return nil
			}))
		}
		var inner []func(bool)
		for _, y := range x.f {
			inner = append(inner, mk(y))
		}
		scope := usingx.Close(cs...)
		var use func(again bool)
		use = func(again bool) {
			errs := scope(func() {
				got = append(got, fmt.Sprintf("f%d", x.id))
				if again {
					use(false)
					return
				}
				for i, f := range inner {
					f(x.f[i].again)
				}
			})
			got = append(got, fmt.Sprintf("e%d=%d", x.id, len(errs)))
		}
		return use
	}
	mk(root)(root.again)
	return diff("calls", got, want)
}

// ------------------------------------------------------------ containers

// rangeNested: Range inside Range, with reads in between.
func rangeNested(r *rand.Rand) string {
	m := ordmapx.New[int, int]()
	n := r.IntN(12)
	var keys []int
	for i := 0; i < n; i++ {
		m.Set(i*3, i)
		keys = append(keys, i*3)
	}
	stop := r.IntN(n + 2)
	var got, want [][2]int
	m.Range(func(k, v int) bool {
		seen := 0
		m.Range(func(k2, v2 int) bool {
			got = append(got, [2]int{k, k2})
			if x, ok := m.Get(k2); !ok || x != v2 || k2 != 3*v2 {
				panic(fmt.Sprintf("Get(%d) inside Range: %d %v", k2, x, ok))
			}
			seen++
			return seen == stop
		})
		if m.Len() != n || !slices.Equal(m.Keys(), keys) || len(m.Values()) != n {
			panic("a listing taken inside Range differs")
		}
		m.Set(k, v)
		return false
	})
	for i := range keys {
		for j := range keys {
			want = append(want, [2]int{keys[i], keys[j]})
			if j+1 == stop {
				break
			}
		}
	}
	return diff("visits", got, want)
}

// describe is a value whose text asks the map it is in.
type describe struct {
	k int
	f func(k int) string
}

func (d describe) String() string { return d.f(d.k) }

// texts: String of a map, Join of a slice and Error of a list call methods of
// the elements, which use the container.
func texts(r *rand.Rand) string {
	n := r.IntN(8)
	m := sklmapx.New[int, describe]()
	var ask func(k int) string
	ask = func(k int) string {
		v, ok := m.Get(k)
		it := m.Iterator()
		c := 0
		for _, _, ok := it.Next(); ok; _, _, ok = it.Next() {
			c++
		}
		return fmt.Sprint(v.k, ok, m.Len(), c, m.Keys())
	}
	var want []string
	for i := 0; i < n; i++ {
		m.Set(i, describe{i, ask})
	}
	for i := 0; i < n; i++ {
		want = append(want, fmt.Sprintf("%d:%s", i, ask(i)))
	}
	if e := diff("String", m.String(), "sklmapx["+strings.Join(want, " ")+"]"); e != "" {
		return e
	}
	var s slicex.Slice[describe]
	var lens slicex.Slice[int]
	for i := 0; i < n; i++ {
		lens = append(lens, i)
	}
	for i := 0; i < n; i++ {
		s = append(s, describe{i, func(k int) string {
			return fmt.Sprint(s.Len(), s.IndexOf(func(d describe) bool { return d.k == k }), lens.Join(";"))
		}})
	}
	want = want[:0]
	for i := 0; i < n; i++ {
		want = append(want, s[i].String())
	}
	return diff("Join", s.Join(", "), strings.Join(want, ", "))
}

type list interface {
	Append(int)
	Insert(int, int)
	Remove(int) (int, bool)
	At(int) (int, bool)
	Iterate(func(int) bool)
	Len() int
}

// iterate: the visitor of a list reads the list, walks it again, and changes it.
func iterate(r *rand.Rand) string {
	var l list = llist.New[int]()
	name := "linked"
	if r.IntN(2) == 0 {
		l, name = &slist.List[int]{}, "slice"
	}
	n := r.IntN(10)
	var model []int
	for i := 0; i < n; i++ {
		l.Append(i)
		model = append(model, i)
	}
	var got, want [][2]int
	l.Iterate(func(v int) bool {
		if x, ok := l.At(v); x != v || !ok || l.Len() != n {
			panic(fmt.Sprintf("At(%d) inside Iterate: %d %v, Len %d", v, x, ok, l.Len()))
		}
		l.Iterate(func(w int) bool {
			got = append(got, [2]int{v, w})
			return w < v
		})
		return true
	})
	for v := 0; v < n; v++ {
		for w := 0; w <= v; w++ {
			want = append(want, [2]int{v, w})
		}
	}
	if e := diff(name+" list, visits", got, want); e != "" {
		return e
	}
	// Elements added behind the visitor's place leave the earlier ones in place.
	budget := r.IntN(6)
	next := 100
	var visits []int
	l.Iterate(func(v int) bool {
		visits = append(visits, v)
		for budget > 0 && r.IntN(2) == 0 {
			budget--
			l.Append(next)
			model = append(model, next)
			next++
		}
		return true
	})
	if len(visits) < n || len(visits) > len(model) || !slices.Equal(visits, model[:len(visits)]) {
		return fmt.Sprintf("%s list with %d elements: visited %v while appending, content %v", name, n, visits, model)
	}
	// Any change from inside: the list holds what it should afterwards.
	budget = 8
	l.Iterate(func(v int) bool {
		if budget--; budget < 0 {
			return false
		}
		switch i := r.IntN(len(model) + 1); r.IntN(3) {
		case 0:
			l.Insert(i, next)
			model = slices.Insert(model, i, next)
			next++
		case 1:
			if x, ok := l.Remove(i); ok {
				if i >= len(model) || model[i] != x {
					panic(fmt.Sprintf("Remove(%d) = %d, list %v", i, x, model))
				}
				model = slices.Delete(model, i, i+1)
			}
		}
		return true
	})
	var now []int
	l.Iterate(func(v int) bool { now = append(now, v); return true })
	if l.Len() != len(model) || !slices.Equal(now, model) {
		return fmt.Sprintf("%s list holds %v (Len %d), want %v", name, now, l.Len(), model)
	}
	return ""
}

// visitors of extended slices.
func visitors(r *rand.Rand) string {
	n := r.IntN(9)
	var s slicex.Slice[int]
	for i := 0; i < n; i++ {
		s = append(s, i)
	}
	var got, want []int
	s.Each(func(v int) {
		s.ForEach(func(i, w int) {
			got = append(got, v*100+i*10+s.IndexOf(func(x int) bool { return x == w && s.Contains(func(y int) bool { return y == v }) }))
		})
	})
	for v := range s {
		for i := range s {
			want = append(want, v*100+i*10+i)
		}
	}
	if e := diff("visits", got, want); e != "" {
		return e
	}
	// Filter inside Filter, of another slice.
	keep := func(x, y int) bool { return (x+y)%3 != 0 }
	f := slicex.New(slices.Clone(s)...)
	sums := 0
	f.Filter(func(x int) bool {
		g := slicex.New(slices.Clone(s)...)
		g.Filter(func(y int) bool { return keep(x, y) })
		for _, y := range s {
			if keep(x, y) != g.Contains(func(z int) bool { return z == y }) {
				panic("Filter inside Filter")
			}
		}
		sums++
		return keep(x, 1)
	})
	var left []int
	for _, x := range s {
		if keep(x, 1) {
			left = append(left, x)
		}
	}
	if sums != n || !slices.Equal(*f, left) {
		return fmt.Sprint("Filter left ", *f, " want ", left)
	}
	return ""
}

// sorting: the comparison sorts and searches other slices.
func sorting(r *rand.Rand) string {
	type row struct {
		id    int
		cells []int
	}
	n := []int{2, 5, 13, 40, 200}[r.IntN(5)]
	rows := make([]row, n)
	for i := range rows {
		rows[i].id = i
		for k := r.IntN(6); k >= 0; k-- {
			rows[i].cells = append(rows[i].cells, r.IntN(9))
		}
	}
	key := func(x row) []int {
		c := slices.Clone(x.cells)
		switch r.IntN(3) {
		case 0:
			sortx.Sort(c, false)
		case 1:
			sortx.SortStable(c)
		default:
			sortx.SortStableCustom(c, func(i, j int) bool { return i < j })
		}
		return c
	}
	model := func(x row) []int { c := slices.Clone(x.cells); slices.Sort(c); return c }
	order := make([]row, n)
	copy(order, rows)
	slices.SortStableFunc(order, func(a, b row) int { return slices.Compare(model(a), model(b)) })
	less := func(a, b row) bool {
		x, y := key(a), key(b)
		if p, ok := searchx.Search(x, x[0]); p != 0 || !ok {
			panic(fmt.Sprintf("Search inside a sort: %d %v in %v", p, ok, x))
		}
		return slices.Compare(x, y) < 0
	}
	ids := func(s []row) (l []int) {
		for _, x := range s {
			l = append(l, x.id)
		}
		return
	}
	st, un := slices.Clone(rows), slices.Clone(rows)
	sortx.SortStableCustom(st, less)
	if e := diff("stable sort", ids(st), ids(order)); e != "" {
		return e
	}
	sortx.SortCustom(un, less)
	for i := range un {
		if !slices.Equal(model(un[i]), model(order[i])) {
			return fmt.Sprintf("sort: %v at %d, want %v", un[i].cells, i, order[i].cells)
		}
	}
	if !sortx.IsSortedCustom(un, less) {
		return "IsSortedCustom denies a sorted slice"
	}
	t := rows[r.IntN(n)]
	p, ok := searchx.SearchCustom(order, t, func(a, b row) int {
		x, y := key(a), key(b)
		if q, found := searchx.SearchCustom(x, 100, func(i, j int) int { return i - j }); q != len(x) || found {
			panic(fmt.Sprint("Search inside a search: ", q, found))
		}
		return slices.Compare(x, y)
	})
	w := 0
	for slices.Compare(model(order[w]), model(t)) < 0 {
		w++
	}
	if p != w || !ok {
		return fmt.Sprintf("search: %d %v, want %d", p, ok, w)
	}
	return ""
}

// ------------------------------------------------------------ decoupler

// dropOldest: a drop function that makes room and writes again.
func dropOldest(r *rand.Rand) string {
	size := 1 + r.IntN(6)
	var d *decouplex.Decoupler
	dropped := 0
	d = decouplex.NewDecoupler(uint64(size), func(b []byte) (n int, err error) {
		where(r, func() {
			d.Next(func([]byte) { dropped++ })
			n, err = d.Write(b)
		})
		return
	})
	var want, got []string
	for i := 0; i < 40; i++ {
		if r.IntN(4) == 0 {
			d.Next(func(b []byte) { got = append(got, string(b)) })
			if len(want) > 0 {
				if len(got) == 0 || got[len(got)-1] != want[0] {
					return fmt.Sprintf("size %d: delivered %v, want %s next", size, got, want[0])
				}
				want = want[1:]
			}
			continue
		}
		m := fmt.Sprint("message ", i)
		if n, err := d.Write([]byte(m)); n != len(m) || err != nil {
			return fmt.Sprint("Write: ", n, err)
		}
		if want = append(want, m); len(want) > size {
			want = want[1:]
		}
	}
	got = got[:0]
	for d.Next(func(b []byte) { got = append(got, string(b)) }) {
	}
	return diff("left at the end", append([]string{}, got...), append([]string{}, want...))
}

// viewWrites: the view of a message writes further ones.
func viewWrites(r *rand.Rand) string {
	size := 1 + r.IntN(6)
	var dropped []string
	d := decouplex.NewDecoupler(uint64(size), func(b []byte) (int, error) {
		dropped = append(dropped, string(b))
		return 0, nil
	})
	var accepted, got []string
	queued, id := 0, 0
	write := func(free int) string {
		m := fmt.Sprint("m", id)
		id++
		n, err := d.Write([]byte(m))
		isDropped := len(dropped) > 0 && dropped[len(dropped)-1] == m
		if err != nil || n != len(m) && !isDropped || n != 0 && isDropped {
			return fmt.Sprint("Write: ", n, err, isDropped)
		}
		if !isDropped {
			accepted = append(accepted, m)
			queued++
		} else if free > 0 {
			return fmt.Sprintf("dropped although %d of %d places were free", free, size)
		}
		return ""
	}
	bad := ""
	for i := 0; i < 30; i++ {
		if r.IntN(2) == 0 {
			bad = first(bad, write(size-queued))
			continue
		}
		had := queued
		ok := d.Next(func(b []byte) {
			m := string(b)
			// The message in view still has its place.
			where(r, func() {
				for k := r.IntN(3); k > 0; k-- {
					bad = first(bad, write(size-queued))
				}
			})
			if string(b) != m {
				bad = first(bad, fmt.Sprintf("the message in view changed from %s to %s", m, b))
			}
			got = append(got, m)
		})
		if ok != (had > 0) {
			return fmt.Sprintf("Next = %v with %d messages", ok, had)
		}
		if ok {
			queued--
		}
		if bad != "" {
			return bad
		}
	}
	for d.Next(func(b []byte) { got = append(got, string(b)) }) {
	}
	return first(bad, diff("deliveries", got, accepted))
}

// twoDecouplers: the view of one writes into the other and back.
func twoDecouplers(r *rand.Rand) string {
	var back [][]byte
	a := decouplex.NewDecoupler(8, nil)
	b := decouplex.NewDecoupler(8, nil)
	n := 1 + r.IntN(8)
	for i := 0; i < n; i++ {
		a.Write([]byte{byte(i)})
	}
	for a.Next(func(x []byte) {
		b.Write(append(x[:1:1], 1))
		b.Next(func(y []byte) { back = append(back, slices.Clone(y)) })
	}) {
	}
	var want [][]byte
	for i := 0; i < n; i++ {
		want = append(want, []byte{byte(i), 1})
	}
	return diff("through two decouplers", back, want)
}

// ------------------------------------------------------------ goroutine pool

// tree: handlers submit further tasks, to their own pool and another one, ask
// for the number of workers, and the last one stops both pools.
func tree(r *rand.Rand) string {
	type task struct{ depth, id int }
	var pools [2]*gopoolx.TimedPool[task]
	var ran [2048]atomic.Int32
	var next, open atomic.Int64
	fan := 1 + r.IntN(4)
	depth := 1 + r.IntN(4)
	max := int64(1 + r.IntN(20))
	done := make(chan struct{})
	var bad atomic.Pointer[string]
	stopInside := r.IntN(2) == 0
	var submit func(depth int)
	handle := func(x task) {
		ran[x.id].Add(1)
		if x.depth > 0 {
			for i := 0; i < fan; i++ {
				submit(x.depth - 1)
			}
		}
		for _, p := range pools {
			if w := p.Workers(); w < 0 || w > max {
				s := fmt.Sprintf("%d workers of at most %d", w, max)
				bad.Store(&s)
			}
		}
		if open.Add(-1) == 0 {
			if stopInside {
				pools[0].Stop()
				pools[1].Stop()
				if pools[0].Run(task{}) || pools[1].Run(task{}) {
					s := "Run succeeded after Stop in a handler"
					bad.Store(&s)
				}
			}
			close(done)
		}
	}
	submit = func(depth int) {
		x := task{depth, int(next.Add(1)) - 1}
		open.Add(1)
		if !pools[x.id%2].Run(x) && !pools[1-x.id%2].Run(x) {
			handle(x) // both full: do it here
		}
	}
	for i := range pools {
		p, err := gopoolx.NewTimedPool(max, handle, time.Second, 10*time.Millisecond, r.IntN(3))
		if err != nil {
			return err.Error()
		}
		pools[i] = p
	}
	open.Add(1)
	submit(depth)
	if open.Add(-1) == 0 {
		close(done)
	}
	<-done
	pools[0].Stop()
	pools[1].Stop()
	for i := int64(0); i < next.Load(); i++ {
		if k := ran[i].Load(); k != 1 {
			return fmt.Sprintf("task %d ran %d times", i, k)
		}
	}
	if s := bad.Load(); s != nil {
		return *s
	}
	return ""
}

// ------------------------------------------------------------ lazy values, pools of objects

// lazies: constructors read other lazy values, in this and other goroutines.
func lazies(r *rand.Rand) string {
	n := 2 + r.IntN(12)
	l := make([]*lazyx.Lazy[int], n)
	made := make([]atomic.Int32, n)
	want := make([]int, n)
	uses := make([][]int, n)
	apart := make([]bool, n)
	for i := range l {
		for k := r.IntN(3); k > 0 && i > 0; k-- {
			uses[i] = append(uses[i], r.IntN(i))
		}
		apart[i] = r.IntN(2) == 0
		want[i] = 1
		for _, k := range uses[i] {
			want[i] += want[k]
		}
		l[i] = lazyx.New(func() int {
			made[i].Add(1)
			sum := 1
			use := func() {
				for _, k := range uses[i] {
					sum += l[k].Get()
				}
			}
			if apart[i] {
				elsewhere(use)
			} else {
				use()
			}
			return sum
		})
	}
	var wg sync.WaitGroup
	got := make([][]int, 3)
	for g := range got {
		perm := r.Perm(n)
		got[g] = make([]int, n)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for _, i := range perm {
				got[g][i] = l[i].Get()
			}
		}()
	}
	wg.Wait()
	for g := range got {
		if e := diff("values", got[g], want); e != "" {
			return e
		}
	}
	for i := range made {
		if made[i].Load() != 1 {
			return fmt.Sprintf("constructor of value %d ran %d times", i, made[i].Load())
		}
	}
	return ""
}

type part struct {
	id   int64
	kids []*part
}

// objects: the constructor of a pool takes from the pool and gives back.
func objects(r *rand.Rand) string {
	var p syncpoolx.Pool[part]
	var ids atomic.Int64
	depth := 0
	wait := r.IntN(2) == 0
	limit := 1 + r.IntN(4)
	p.Init(func() *part {
		x := &part{id: ids.Add(1)}
		if depth < limit {
			depth++
			use := func() {
				x.kids = append(x.kids, p.Get(), p.Get())
				p.Put(x.kids[1])
				x.kids = x.kids[:1]
			}
			if wait {
				elsewhere(use)
			} else {
				use()
			}
			depth--
		}
		return x
	})
	held := map[*part]bool{}
	var hold func(x *part) string
	hold = func(x *part) string {
		if x == nil || x.id == 0 {
			return "Get returned something the constructor did not make"
		}
		if held[x] {
			return "one object is held twice"
		}
		held[x] = true
		for _, k := range x.kids {
			if e := hold(k); e != "" {
				return e
			}
		}
		return ""
	}
	for i := 0; i < 5; i++ {
		if e := hold(p.Get()); e != "" {
			return e
		}
	}
	return ""
}

type cell struct {
	self unsafe.Pointer
	n    int
}

// sections: a section of one cell uses other cells and waits for others who do.
func sections(r *rand.Rand) string {
	n := 2 + r.IntN(6)
	cells := make([]*cell, n)
	for i := range cells {
		cells[i] = &cell{}
		cells[i].self = unsafe.Pointer(cells[i])
	}
	var down func(i int)
	down = func(i int) {
		if i == n {
			return
		}
		lockx.Lock(cells[i], func(x *cell) {
			where(r, func() { down(i + 1) })
			x.n++
		})
	}
	down(0)
	for i, x := range cells {
		if x.n != 1 || x.self != unsafe.Pointer(x) {
			return fmt.Sprintf("cell %d: %d sections", i, x.n)
		}
	}
	return ""
}

// ------------------------------------------------------------ functional

// folding: matching and folding inside the functions of another match or fold.
func folding(r *rand.Rand) string {
	type conf struct{ v []int }
	var build func(d int) ([]int, *conf)
	build = func(d int) (want []int, got *conf) {
		n := r.IntN(4)
		var fs []func(*conf) *conf
		for i := 0; i < n; i++ {
			x := r.IntN(100)
			var inner []int
			var sub func() *conf
			if d > 0 && r.IntN(2) == 0 {
				w, g := build(d - 1)
				inner = w
				sub = func() *conf {
					return optionalx.Parameter(func(p *conf) *conf { return p }, func(p *conf) *conf {
						if p != nil {
							panic("an inner fold began with the outer parameters")
						}
						return g
					})
				}
			}
			want = append(want, x)
			want = append(want, inner...)
			fs = append(fs, func(p *conf) *conf {
				q := &conf{}
				if p != nil {
					q.v = append(q.v, p.v...)
				}
				q.v = append(q.v, x)
				if sub != nil {
					if s := sub(); s != nil {
						q.v = append(q.v, s.v...)
					}
				}
				return q
			})
		}
		got = optionalx.Parameter(func(p *conf) *conf { return p }, fs...)
		return
	}
	want, got := build(3)
	if got == nil {
		got = &conf{}
	}
	if !slices.Equal(got.v, want) {
		return diff("fold", got.v, want)
	}
	var opt func(d int) int
	opt = func(d int) int {
		if d == 0 {
			return 1
		}
		some := r.IntN(2) == 0
		o := optionx.None[int]()
		if some {
			o = optionx.Some(d)
		}
		inner := 0
		v, err := o.Match(func(x int) (int, error) {
			inner = opt(d - 1)
			y, _ := o.Match(func(x int) (int, error) { return x + 1, nil }, func() (int, error) { return -1, nil })
			return x*1000 + inner + y, nil
		}, func() (int, error) {
			inner = opt(d - 1)
			return -inner, io.EOF
		})
		if some && (v != d*1000+inner+d+1 || err != nil) || !some && (v != -inner || err != io.EOF) {
			panic(fmt.Sprintf("Match gave %d, %v", v, err))
		}
		return v % 100
	}
	opt(5)
	var res func(d int) int
	res = func(d int) int {
		if d == 0 {
			return 1
		}
		x := resultx.Ok[int, string](d)
		bad := r.IntN(2) == 0
		if bad {
			x = resultx.Err[int]("e")
		}
		inner := 0
		v, e := x.Match(func(y int) (int, string) {
			inner = res(d - 1)
			return y*1000 + inner, "ok"
		}, func(s string) (int, string) {
			inner = res(d - 1)
			return inner, s + "!"
		})
		if bad && (v != inner || e != "e!") || !bad && (v != d*1000+inner || e != "ok") {
			panic(fmt.Sprintf("Match gave %d, %s", v, e))
		}
		return v % 100
	}
	res(5)
	return ""
}

type convA int
type convB string
type convC []int

// converters: conversions, look-ups and registrations inside a converter, in
// this and other goroutines.
func converters(r *rand.Rand) string {
	convx.Register(func(a convA) convB {
		if a <= 0 {
			return ""
		}
		var rest convB
		where(r, func() {
			var ok bool
			if rest, ok = convx.Into[convA, convB](a - 1); !ok {
				panic("Into inside its own converter finds nothing")
			}
		})
		return convB(fmt.Sprint(int(a))) + rest
	})
	convx.Register(func(b convB) convC {
		where(r, func() {
			convx.Register(func(c convC) convB { return convB(fmt.Sprint(len(c))) })
			if !convx.Exists[convC, convB]() {
				panic("a converter registered by a converter is missing")
			}
		})
		c := convC{}
		for range b {
			c = append(c, 1)
		}
		s, ok := convx.Into[convC, convB](c)
		if !ok || s != convB(fmt.Sprint(len(b))) {
			panic("a converter registered by a converter does not work")
		}
		convx.Unregister[convC, convB]()
		return c
	})
	n := r.IntN(9)
	b, ok := convx.Into[convA, convB](convA(n))
	want := ""
	for i := n; i > 0; i-- {
		want += fmt.Sprint(i)
	}
	if !ok || string(b) != want {
		return fmt.Sprint("conversion: ", b, ok, " want ", want)
	}
	c, ok := convx.Into[convB, convC](b)
	if !ok || len(c) != n || convx.Exists[convC, convB]() {
		return fmt.Sprint("conversion: ", c, ok)
	}
	return ""
}

var scenarios = []scenario{
	{"closers register closers", true, true, manager},
	{"scopes in scopes", false, true, scopes},
	{"Range in Range", false, true, rangeNested},
	{"texts that ask their container", false, true, texts},
	{"Iterate in Iterate and changes from inside", false, true, iterate},
	{"visitors of slices", false, true, visitors},
	{"comparisons that sort and search", false, true, sorting},
	{"dropping the oldest", true, true, dropOldest},
	{"views that write", true, true, viewWrites},
	{"two decouplers", false, true, twoDecouplers},
	{"trees of tasks in two pools", true, false, tree},
	{"lazy values of lazy values", true, false, lazies},
	{"constructors that use their pool", true, true, objects},
	{"sections in sections", true, true, sections},
	{"folds and matches in folds and matches", false, true, folding},
	{"conversions in conversions", true, true, converters},
}

func TestCheck(t *testing.T) {
	vk.Run(t, "A case is one randomly built nest of calls; distinct by scenario and seed of its random choices (which decide the shape of the nest). Functions given to the code under test use the object that calls them, directly or by waiting for another goroutine that does.", func(c *vk.C) {
		race := c.Phase == "race"
		for _, s := range scenarios {
			if race && !s.conc {
				continue
			}
			r := c.Rand(s.name)
			n := c.N(400, 20000)
			if race {
				n = c.N(60, 2000)
			}
			for i := 0; i < n; i++ {
				seed := r.Uint64()
				if s.conc && !(s.turn && i%2 == 0 && !race) {
					runtime.GOMAXPROCS([]int{1, 2, 4, 8}[i%4])
					vk.Perturb(seed, 1+i%3)
				} else {
					vk.SetBound(5000000)
					vk.Op()
				}
				c.Context("%s, seed %d", s.name, seed)
				what := ""
				do := func() {
					defer func() {
						if p := recover(); p != nil {
							b := make([]byte, 1<<13)
							what = fmt.Sprint("panic: ", p, "\n", string(b[:runtime.Stack(b, false)]))
						}
					}()
					what = s.run(rand.New(rand.NewPCG(seed, 55)))
				}
				do()
				vk.Unbound()
				vk.Tick()
				c.Eval(1)
				c.Distinct(vk.HashS(fmt.Sprint(s.name, seed)))
				c.Count(s.name, 1)
				if what != "" {
					c.Violate(s.name+": "+what, map[string]any{"seed": seed, "observed": what})
				}
			}
		}
		c.Sample(map[string]any{"scenarios": len(scenarios)})
	})
}
