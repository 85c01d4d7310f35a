From 8a34f2edcc00f888ea98d5d157edb72a8dda27fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 01/35] fix: dequex: reset both ends and recycled nodes

Popping the last element from one end left the other end pointing at the
recycled node, so the next push on that end was lost; nodes taken back from
the pool kept their old links.
---
 dsx/linkedx/dequex/dequex.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dsx/linkedx/dequex/dequex.go b/dsx/linkedx/dequex/dequex.go
index d8adff5..72ac850 100644
--- a/dsx/linkedx/dequex/dequex.go
+++ b/dsx/linkedx/dequex/dequex.go
@@ -40,6 +40,8 @@ func (t *Deque[T]) PushFront(data T) {
 		n.data[0] = data
 		n.start = 0
 		n.end = 1
+		n.next = nil
+		n.prev = nil
 		t.head = n
 		t.tail = n
 		return
@@ -50,6 +52,7 @@ func (t *Deque[T]) PushFront(data T) {
 		n.start = nodeBufferSize - 1
 		n.end = nodeBufferSize
 		n.next = t.head
+		n.prev = nil
 		t.head.prev = n
 		t.head = n
 		return
@@ -64,6 +67,8 @@ func (t *Deque[T]) PushBack(data T) {
 		n.data[0] = data
 		n.start = 0
 		n.end = 1
+		n.next = nil
+		n.prev = nil
 		t.head = n
 		t.tail = n
 		return
@@ -74,6 +79,7 @@ func (t *Deque[T]) PushBack(data T) {
 		n.start = 0
 		n.end = 1
 		n.prev = t.tail
+		n.next = nil
 		t.tail.next = n
 		t.tail = n
 		return
@@ -93,6 +99,8 @@ func (t *Deque[T]) PopFront() (data T, ok bool) {
 		t.head = t.head.next
 		if t.head != nil {
 			t.head.prev = nil
+		} else {
+			t.tail = nil
 		}
 	}
 	return data, true
@@ -109,6 +117,8 @@ func (t *Deque[T]) PopBack() (data T, ok bool) {
 		t.tail = t.tail.prev
 		if t.tail != nil {
 			t.tail.next = nil
+		} else {
+			t.head = nil
 		}
 	}
 	return data, true
-- 
2.43.0


From b8b3481f31f3beae724e1ea55201f9c624bd2034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 02/35] fix: linkedx/queuex: Dequeue returns the element it
 removes

It returned the following element and panicked on the last one, and a
recycled node kept its old next link.
---
 dsx/linkedx/queuex/queuex.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dsx/linkedx/queuex/queuex.go b/dsx/linkedx/queuex/queuex.go
index 38627c4..af16dd3 100644
--- a/dsx/linkedx/queuex/queuex.go
+++ b/dsx/linkedx/queuex/queuex.go
@@ -32,6 +32,7 @@ func New[T any]() *Queue[T] {
 func (q *Queue[T]) Enqueue(data T) bool {
 	n := q.pool.Get().(*node[T])
 	n.data = data
+	n.next = nil
 	if q.head == nil {
 		q.head = n
 		q.tail = n
@@ -46,9 +47,10 @@ func (q *Queue[T]) Dequeue() (data T, ok bool) {
 	if q.head == nil {
 		return
 	}
+	data = q.head.data
 	q.pool.Put(q.head)
 	q.head = q.head.next
-	return q.head.data, true
+	return data, true
 }
 
 func (q *Queue[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 91cc6daf06e85445b23239bacd132c45c4c54cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 03/35] fix: linkedx/stackx: Pop returns the element it removes

It returned the element below the top and panicked on the last one.
---
 dsx/linkedx/stackx/stackx.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dsx/linkedx/stackx/stackx.go b/dsx/linkedx/stackx/stackx.go
index 93b5216..ff19295 100644
--- a/dsx/linkedx/stackx/stackx.go
+++ b/dsx/linkedx/stackx/stackx.go
@@ -43,9 +43,10 @@ func (s *Stack[T]) Pop() (data T, ok bool) {
 		return
 	}
 	s.length--
+	data = s.head.data
 	s.pool.Put(s.head)
 	s.head = s.head.next
-	return s.head.data, true
+	return data, true
 }
 
 func (s *Stack[T]) Peek() (data T, ok bool) {
-- 
2.43.0


From 616a8f5db35d3ccfaa4481c53474940e7ff749b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 04/35] fix: slicex/queuex: give the ring the slot its indices
 use

Indices run modulo cap+1 but only cap slots were allocated, so the first
wrap-around panicked.
---
 dsx/slicex/queuex/queuex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index c4aa0d8..fbe7081 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -18,7 +18,7 @@ func New[T any](cap int) *Ring[T] {
 		return nil
 	}
 	return &Ring[T]{
-		data: make([]T, cap),
+		data: make([]T, cap+1),
 		cap:  cap + 1,
 		head: 0,
 		tail: 0,
-- 
2.43.0


From 3d0bcd8150c10e45e25fba7c7bb85a524c89f800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 05/35] fix: sortx: honour the reverse argument of Sort

---
 algox/sortx/sortx.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/algox/sortx/sortx.go b/algox/sortx/sortx.go
index c43c333..2d87a18 100644
--- a/algox/sortx/sortx.go
+++ b/algox/sortx/sortx.go
@@ -6,6 +6,10 @@ import (
 )
 
 func Sort[T constraints.Ordered](s []T, reverse bool) {
+	if reverse {
+		SortReverse(s)
+		return
+	}
 	SortCustom(s, func(i, j T) bool {
 		return i < j
 	})
-- 
2.43.0


From f9e6c32c7b45c7c91af8faca5917caa009047e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 06/35] fix: managerx/closex: Close returns nil when nothing
 failed

An empty ErrorList in an error interface is not nil, so every Close looked
like a failure.
---
 iox/managerx/closex/manager.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index 5a6b954..ef05975 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -36,5 +36,8 @@ func (c *CloseManager) Close() error {
 		}
 	}
 
+	if len(errs) == 0 {
+		return nil
+	}
 	return errs
 }
-- 
2.43.0


From 76e1cb38944622464d550b37896c6204790c791a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 07/35] fix: osx/closex: handle the shutdown signal once

A second signal ran the handler again and then panicked closing a closed
channel.
---
 osx/closex/closex.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osx/closex/closex.go b/osx/closex/closex.go
index d51a242..2c26c57 100644
--- a/osx/closex/closex.go
+++ b/osx/closex/closex.go
@@ -23,6 +23,7 @@ func HandleKillSig(handler func(), logger *log.Logger) interrupt {
 			logger.Printf("Receive signal %s, Shutting down...", signal)
 			handler()
 			close(intr.C)
+			return
 		}
 	}()
 	return intr
-- 
2.43.0


From 0a273893269773c0288616ee71a69f8086010e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:27 +0000
Subject: [PATCH 08/35] fix: bcryptx: Decrypt rejects passwords longer than 72
 bytes

bcrypt ignores what follows byte 72, so a longer password sharing the
prefix was accepted although Encrypt refuses such passwords.
---
 cryptox/bcryptx/bcryptx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cryptox/bcryptx/bcryptx.go b/cryptox/bcryptx/bcryptx.go
index 086716c..6367733 100644
--- a/cryptox/bcryptx/bcryptx.go
+++ b/cryptox/bcryptx/bcryptx.go
@@ -28,6 +28,9 @@ func Encrypt(pw []byte) ([]byte, error) {
 }
 
 func Decrypt(enc, pw []byte) (bool, error) {
+	if len(pw) > DefMaxLen {
+		return false, ErrPasswordTooLong
+	}
 	err := bcrypt.CompareHashAndPassword(enc, pw)
 	if err != nil {
 		if err == bcrypt.ErrMismatchedHashAndPassword {
-- 
2.43.0


From c334f516659c5270d410bfc2951666e38ef3de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 09/35] fix: linkedx/listx: keep length and tail right in
 Insert and Remove

Insert at the end or into an empty list left the tail behind, so the next
Append dropped elements; Remove of the last element left the tail on the
recycled node; out-of-range calls changed the length.
---
 dsx/linkedx/listx/listx.go | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/dsx/linkedx/listx/listx.go b/dsx/linkedx/listx/listx.go
index d136036..2084b90 100644
--- a/dsx/linkedx/listx/listx.go
+++ b/dsx/linkedx/listx/listx.go
@@ -45,6 +45,13 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	if index < 0 || index > l.Len() {
+		return
+	}
+	if index == l.Len() {
+		l.Append(data)
+		return
+	}
 	l.length++
 	n := l.pool.Get().(*node[T])
 	n.data = data
@@ -54,11 +61,6 @@ func (l *List[T]) Insert(index int, data T) {
 		l.head = n
 		return
 	}
-	if index == l.Len() {
-		l.tail.next = n
-		l.tail = n
-		return
-	}
 	i := 0
 	for p := l.head; p != nil; p = p.next {
 		if i == index-1 {
@@ -71,6 +73,9 @@ func (l *List[T]) Insert(index int, data T) {
 }
 
 func (l *List[T]) Remove(index int) (rs T, ok bool) {
+	if index < 0 || index >= l.Len() {
+		return
+	}
 	l.length--
 	if index == 0 {
 		if l.head == nil {
@@ -79,6 +84,9 @@ func (l *List[T]) Remove(index int) (rs T, ok bool) {
 		rs = l.head.data
 		l.pool.Put(l.head)
 		l.head = l.head.next
+		if l.head == nil {
+			l.tail = nil
+		}
 		ok = true
 		return
 	}
@@ -91,6 +99,9 @@ func (l *List[T]) Remove(index int) (rs T, ok bool) {
 			rs = p.next.data
 			l.pool.Put(p.next)
 			p.next = p.next.next
+			if p.next == nil {
+				l.tail = p
+			}
 			ok = true
 			return
 		}
-- 
2.43.0


From 6f55925e08aeb48ef394fe52bd3ef8dcd8649eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 10/35] fix: slicex/listx: leave the list alone when Insert is
 out of range

Insert grew the list before the index was checked, so the panic left a
stray element behind.
---
 dsx/slicex/listx/listx.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dsx/slicex/listx/listx.go b/dsx/slicex/listx/listx.go
index c13e611..0453d7d 100644
--- a/dsx/slicex/listx/listx.go
+++ b/dsx/slicex/listx/listx.go
@@ -11,6 +11,7 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
+	_ = (*l)[:index:len(*l)]
 	*l = append(*l, data)
 	copy((*l)[index+1:], (*l)[index:])
 	(*l)[index] = data
-- 
2.43.0


From bf847842a1f51909d01235877937e3ed698ef04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 11/35] fix: sklmapx: Next on a finished iterator stays
 finished

The second Next after the end walked past the tail and dereferenced nil.
---
 dsx/mapx/sklmapx/sklmapx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index be8685d..b55215a 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -213,7 +213,7 @@ func (i *Iterator[K, V]) Rewind() {
 func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
-	} else {
+	} else if i.node != i.list.skl.tail {
 		i.node = i.node.next[0]
 	}
 	if i.node == i.list.skl.tail {
-- 
2.43.0


From e06cec5bd001b222dc158d155cc72f9d81e06c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 12/35] fix: sklmapx: Clear keeps the sentinels

An iterator (or an OrdMap.Range callback) that was under way when the map
was cleared missed the new tail, produced a phantom zero key and then
dereferenced nil.
---
 dsx/mapx/sklmapx/sklmapx.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index b55215a..f41c942 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -186,8 +186,12 @@ func (m *SkipListMap[K, V]) ToMap() map[K]V {
 }
 
 func (m *SkipListMap[K, V]) Clear() {
-	// Clear the map by creating a new one.
-	*m = *New[K, V]()
+	// Unlink every node but keep the sentinels, so that an iterator still
+	// standing on an old node reaches the tail.
+	for i := range m.skl.head.next {
+		m.skl.head.next[i] = m.skl.tail
+	}
+	m.skl.len = 0
 }
 
 type Iterator[K constraints.Ordered, V any] struct {
-- 
2.43.0


From 9d7a1c96fee54be3390d25a77794ea85ccd3dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 13/35] fix: slicex: Splice does not write into its argument's
 spare capacity

append(v, tail...) overwrote the elements behind v in the caller's array
(or in the slice itself when v was a part of it).
---
 dsx/slicex/slicex.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 08cdfc1..75d27e6 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -58,7 +58,7 @@ func (s *Slice[T]) Slice(i, j int) *Slice[T] {
 
 func (s *Slice[T]) Splice(i, j int, v ...T) *Slice[T] {
 	preprocIndexException(&i, &j, len(*s))
-	*s = append((*s)[:i], append(v, (*s)[j:]...)...)
+	*s = append((*s)[:i], append(v[:len(v):len(v)], (*s)[j:]...)...)
 	return s
 }
 
-- 
2.43.0


From a0f86f41e58700365d5cddb012967182fa8c8cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:12 +0000
Subject: [PATCH 14/35] fix: slicex: no overflow or panic on extreme indices

Delete(math.MaxInt) removed everything (i+1 overflowed), DeleteReplace
panicked on an empty slice or an index past the end, Rotate(math.MinInt)
panicked and Split lost the end of the slice when a length overflowed.
---
 dsx/slicex/slicex.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 75d27e6..7f0a9e8 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -75,6 +75,9 @@ func (s *Slice[T]) Cut(i, j int) *Slice[T] {
 }
 
 func (s *Slice[T]) Delete(i int) *Slice[T] {
+	if i >= len(*s) {
+		return s
+	}
 	return s.Cut(i, i+1)
 }
 
@@ -107,7 +110,10 @@ func (s *Slice[T]) Shift() T {
 }
 
 func (s *Slice[T]) DeleteReplace(i int) *Slice[T] {
-	preprocIndexException(&i, nil, len(*s))
+	if len(*s) == 0 {
+		return s
+	}
+	preprocIndexException(&i, nil, len(*s)-1)
 	(*s)[i] = (*s)[len(*s)-1]
 	*s = (*s)[:len(*s)-1]
 	return s
@@ -125,6 +131,7 @@ func (s *Slice[T]) Rotate(n int) *Slice[T] {
 		return s
 	}
 
+	n %= len(*s)
 	if n > 0 {
 		index := n % len(*s)
 		*s = append((*s)[index:], (*s)[:index]...)
@@ -168,6 +175,9 @@ func (s Slice[T]) Split(splits ...int) []Slice[T] {
 	var end int
 	for i := 0; i < len(splits); i++ {
 		endNext := end + splits[i]
+		if splits[i] > len(s)-end {
+			endNext = len(s)
+		}
 		preprocIndexException(&endNext, nil, len(s))
 		if endNext < end {
 			r = append(r, s[endNext:end])
-- 
2.43.0


From 9f376f396f793d7d2f5eb00162e67c192abd7f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 15/35] fix: slicex/listx: say why Insert slices first

---
 dsx/slicex/listx/listx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dsx/slicex/listx/listx.go b/dsx/slicex/listx/listx.go
index 0453d7d..f24edc3 100644
--- a/dsx/slicex/listx/listx.go
+++ b/dsx/slicex/listx/listx.go
@@ -11,7 +11,7 @@ func (l *List[T]) Append(data T) {
 }
 
 func (l *List[T]) Insert(index int, data T) {
-	_ = (*l)[:index:len(*l)]
+	_ = (*l)[:index:len(*l)] // panic before growing
 	*l = append(*l, data)
 	copy((*l)[index+1:], (*l)[index:])
 	(*l)[index] = data
-- 
2.43.0


From 32abf7444fc4995cfce86a2ba1344cce5919b5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 16/35] fix: slicex: pieces of Split and Batch do not grow into
 each other

The pieces kept the capacity of the whole slice, so pushing to one
overwrote the next (bytes.Split clips its pieces for the same reason).
---
 dsx/slicex/slicex.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dsx/slicex/slicex.go b/dsx/slicex/slicex.go
index 7f0a9e8..bcef709 100644
--- a/dsx/slicex/slicex.go
+++ b/dsx/slicex/slicex.go
@@ -180,14 +180,14 @@ func (s Slice[T]) Split(splits ...int) []Slice[T] {
 		}
 		preprocIndexException(&endNext, nil, len(s))
 		if endNext < end {
-			r = append(r, s[endNext:end])
+			r = append(r, s[endNext:end:end])
 		} else {
-			r = append(r, s[end:endNext])
+			r = append(r, s[end:endNext:endNext])
 		}
 		end = endNext
 	}
 	if end < len(s) {
-		r = append(r, s[end:])
+		r = append(r, s[end:len(s):len(s)])
 	}
 	return r
 }
-- 
2.43.0


From 9aada64647bcae56c9cf1448c19853b01581ff5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 17/35] fix: decouplex: dropped and retried writes no longer
 burn tickets

Every attempt took a ticket, even a dropped one, so after a drop (or lost
race) tickets and slots ran apart: the reader waited forever on a slot no
writer would fill, or saw messages out of order.
---
 iox/decouplex/decouple.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/iox/decouplex/decouple.go b/iox/decouplex/decouple.go
index c53b894..f273fac 100644
--- a/iox/decouplex/decouple.go
+++ b/iox/decouplex/decouple.go
@@ -51,7 +51,7 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 	}
 
 	for {
-		ts := atomic.AddUint64(&d._write, 1)
+		ts := atomic.LoadUint64(&d._write) + 1
 		idx := ts % d.size
 
 		lock := atomic.LoadUint64(&d.locktab[idx])
@@ -59,6 +59,13 @@ func (d *Decoupler) Write(b []byte) (int, error) {
 			if !atomic.CompareAndSwapUint64(&d.locktab[idx], empty, busy) {
 				continue
 			}
+			// Take the ticket only together with its slot: a ticket that is
+			// given up (slot busy, or dropped write) would leave a hole that
+			// the reader waits on forever.
+			if !atomic.CompareAndSwapUint64(&d._write, ts-1, ts) {
+				atomic.StoreUint64(&d.locktab[idx], empty)
+				continue
+			}
 			d.buffer[idx] = append(d.buffer[idx][:0], b...)
 			atomic.StoreUint64(&d.locktab[idx], ts)
 			atomic.AddUint64(&d._len, 1)
-- 
2.43.0


From f70f6e25946b86e7d440642f121b2937c5a10960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 18/35] fix: gopoolx: preheat never starts more than maxWorkers
 workers

---
 poolx/gopoolx/timedpool.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index aedcf63..a87089f 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -50,6 +50,9 @@ func (pool *TimedPool[T]) start(preheat int) {
 	})
 	pool.stop = make(chan struct{})
 
+	if int64(preheat) > pool.maxWorkers {
+		preheat = int(pool.maxWorkers)
+	}
 	if preheat > 0 {
 		pool.workers = int64(preheat)
 		for i := 0; i < preheat; i++ {
-- 
2.43.0


From def20e0602216fae42d501d283cc0a2ea86c9540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 19/35] fix: gopoolx: hand the channel to the worker before it
 starts

The worker goroutine read w.ch on its own, racing with the collector that
clears it; a preheated worker that started late would wait on a nil (or a
recycled) channel forever.
---
 poolx/gopoolx/timedpool.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index a87089f..d2fccf9 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -29,8 +29,8 @@ type TimedPool[T any] struct {
 	dobby   []*timedworker[T]
 }
 
-func tworker[T any](pool *TimedPool[T], w *timedworker[T]) {
-	for v := range w.ch {
+func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
@@ -59,7 +59,7 @@ func (pool *TimedPool[T]) start(preheat int) {
 			w := pool.pool.Get()
 			w.tt = time.Now().UnixNano()
 			pool.dobby = append(pool.dobby, w)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		}
 	}
 
@@ -163,7 +163,7 @@ func (pool *TimedPool[T]) Run(v T) (ok bool) {
 			pool.workers++
 			w = pool.pool.Get()
 			w.ch = make(chan T, 1)
-			go tworker(pool, w)
+			go tworker(pool, w, w.ch)
 		} else {
 			pool.mu.Unlock()
 			return false
-- 
2.43.0


From e3135afa7282b43e67c9465950c0ec6cf8ef3cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 20/35] fix: gopoolx: Stop takes effect before it returns and
 may be repeated

Run was still accepted for a moment after Stop had returned, and concurrent
Stop calls raced and could block forever.
---
 poolx/gopoolx/timedpool.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index d2fccf9..685c116 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -19,6 +19,7 @@ type TimedPool[T any] struct {
 	maxWorkers  int64
 	handler     func(T)
 	stop        chan struct{}
+	stopOnce    sync.Once
 	idleTimeout time.Duration
 	gcPeriod    time.Duration
 	_           [10]uint64
@@ -211,8 +212,12 @@ func (pool *TimedPool[T]) Stop() {
 	if pool.stop == nil {
 		return
 	}
-	pool.stop <- struct{}{}
-	pool.stop = nil
+	pool.stopOnce.Do(func() {
+		pool.mu.Lock()
+		pool.maxWorkers = -1
+		pool.mu.Unlock()
+		close(pool.stop)
+	})
 }
 
 func (pool *TimedPool[T]) Workers() int64 {
-- 
2.43.0


From 37b07cf2a8838c7d5ac4c0c711f1cdf9b04b0d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 21/35] fix: sleepx: no lost wakeups

Wakeup replaced the context while a goroutine going to sleep was reading
it: a data race, and the sleeper could pick up the new context and sleep
through a Wakeup that had reported success.
---
 timex/sleepx/sleepx.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index e8e8ce4..6abca68 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"sync"
 	"sync/atomic"
 	"time"
 
@@ -9,6 +10,9 @@ import (
 )
 
 type Sleeper struct {
+	// mu guards ctx and cancel, and makes going to sleep atomic for Wakeup
+	mu sync.Mutex
+
 	// wakeup signal
 	ctx    context.Context
 	cancel context.CancelFunc
@@ -27,11 +31,14 @@ func New() *Sleeper {
 }
 
 func (s *Sleeper) SleepFor(d time.Duration) bool {
+	s.mu.Lock()
 	if !s.slept.CompareAndSwap(false, true) {
+		s.mu.Unlock()
 		return false
 	}
 	defer s.slept.Store(false)
 	done := s.ctx.Done()
+	s.mu.Unlock()
 	for {
 		select {
 		case <-time.After(time.Duration(d) * time.Second):
@@ -43,11 +50,14 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 }
 
 func (s *Sleeper) SleepUntil(t time.Time) bool {
+	s.mu.Lock()
 	if !s.slept.CompareAndSwap(false, true) {
+		s.mu.Unlock()
 		return false
 	}
 	defer s.slept.Store(false)
 	done := s.ctx.Done()
+	s.mu.Unlock()
 	for {
 		select {
 		case <-time.After(t.Sub(timex.Now())):
@@ -59,11 +69,14 @@ func (s *Sleeper) SleepUntil(t time.Time) bool {
 }
 
 func (s *Sleeper) SleepForever() bool {
+	s.mu.Lock()
 	if !s.slept.CompareAndSwap(false, true) {
+		s.mu.Unlock()
 		return false
 	}
 	defer s.slept.Store(false)
 	done := s.ctx.Done()
+	s.mu.Unlock()
 	for {
 		select {
 		case <-done:
@@ -73,6 +86,8 @@ func (s *Sleeper) SleepForever() bool {
 }
 
 func (s *Sleeper) Wakeup() bool {
+	s.mu.Lock()
+	defer s.mu.Unlock()
 	if !s.slept.Load() {
 		return false
 	}
-- 
2.43.0


From 928cf414bf8de37f0175dacff844cf27d57d50ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 22/35] fix: intersectionx: order edges that share an offset

The unstable order of equal offsets decided whether touching intervals
intersect, so the answer depended on the order of the arguments.
---
 timex/intersectionx/intersectionx.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/timex/intersectionx/intersectionx.go b/timex/intersectionx/intersectionx.go
index e6d9e5d..5d427a6 100644
--- a/timex/intersectionx/intersectionx.go
+++ b/timex/intersectionx/intersectionx.go
@@ -17,6 +17,9 @@ func (s iSlice) Len() int {
 }
 
 func (s iSlice) Less(i, j int) bool {
+	if s[i].Offset == s[j].Offset {
+		return s[i].Type < s[j].Type // lower edge, midpoint, upper edge
+	}
 	return s[i].Offset < s[j].Offset
 }
 
-- 
2.43.0


From c5bfdd139f2db640d1a4db99ba7431bf9a15717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 23/35] fix: convx: keep interface types apart

reflect.TypeOf of a nil interface value is nil, so all interface types
shared one entry and converters from an interface type were never found.
---
 typex/convx/convx.go | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index d8dd152..a63aba7 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -8,44 +8,50 @@ import (
 var converters = make(map[reflect.Type]map[reflect.Type]any)
 var convertersLock = sync.RWMutex{}
 
+// typeOf returns the static type T, which for an interface type is not the
+// (possibly missing) dynamic type of a value.
+func typeOf[T any]() reflect.Type {
+	return reflect.TypeOf((*T)(nil)).Elem()
+}
+
 func Register[T, R any](converter func(T) R) {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	if converters[reflect.TypeOf(*new(T))] == nil {
-		converters[reflect.TypeOf(*new(T))] = make(map[reflect.Type]any)
+	if converters[typeOf[T]()] == nil {
+		converters[typeOf[T]()] = make(map[reflect.Type]any)
 	}
-	converters[reflect.TypeOf(*new(T))][reflect.TypeOf(*new(R))] = converter
+	converters[typeOf[T]()][typeOf[R]()] = converter
 }
 
 func Unregister[T, R any]() {
 	convertersLock.Lock()
 	defer convertersLock.Unlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	delete(m, reflect.TypeOf(*new(R)))
+	delete(m, typeOf[R]())
 }
 
 func Exists[T, R any]() bool {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(*new(T))]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return false
 	}
-	_, ok := m[reflect.TypeOf(*new(R))]
+	_, ok := m[typeOf[R]()]
 	return ok
 }
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
 	defer convertersLock.RUnlock()
-	m := converters[reflect.TypeOf(value)]
+	m := converters[typeOf[T]()]
 	if m == nil {
 		return
 	}
-	v := m[reflect.TypeOf(rs)]
+	v := m[typeOf[R]()]
 	if v == nil {
 		return
 	}
-- 
2.43.0


From e63e14a2f675173d191548b9d10358b8adb13bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 24/35] fix: convx: do not hold the registry lock while a
 converter runs

A converter that used the registry itself deadlocked: always on Register,
and on Into as soon as another goroutine was waiting to register.
---
 typex/convx/convx.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/typex/convx/convx.go b/typex/convx/convx.go
index a63aba7..8a84528 100644
--- a/typex/convx/convx.go
+++ b/typex/convx/convx.go
@@ -46,12 +46,9 @@ func Exists[T, R any]() bool {
 
 func Into[T, R any](value T) (rs R, ok bool) {
 	convertersLock.RLock()
-	defer convertersLock.RUnlock()
 	m := converters[typeOf[T]()]
-	if m == nil {
-		return
-	}
 	v := m[typeOf[R]()]
+	convertersLock.RUnlock()
 	if v == nil {
 		return
 	}
-- 
2.43.0


From 352789092b1b607ce8a2cbebd506b3868cd2f6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:18 +0000
Subject: [PATCH 25/35] fix: aesx: return an error for input that cannot be
 processed

Truncated ciphertext, and CBC input that is not a whole number of blocks,
panicked instead of using the error result.
---
 cryptox/aesx/aesx.go | 7 +++++++
 cryptox/aesx/cbcx.go | 9 +++++++++
 cryptox/aesx/ctrx.go | 3 +++
 cryptox/aesx/gcmx.go | 3 +++
 4 files changed, 22 insertions(+)

diff --git a/cryptox/aesx/aesx.go b/cryptox/aesx/aesx.go
index 3d6349e..d15760c 100644
--- a/cryptox/aesx/aesx.go
+++ b/cryptox/aesx/aesx.go
@@ -1 +1,8 @@
 package aesx
+
+import "errors"
+
+var (
+	ErrInvalidCiphertext = errors.New("invalid ciphertext")
+	ErrNotFullBlocks     = errors.New("input not full blocks")
+)
diff --git a/cryptox/aesx/cbcx.go b/cryptox/aesx/cbcx.go
index 35f95cf..c127045 100644
--- a/cryptox/aesx/cbcx.go
+++ b/cryptox/aesx/cbcx.go
@@ -13,6 +13,9 @@ func EncryptCBC(data []byte, key []byte) ([]byte, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(data)%block.BlockSize() != 0 {
+		return nil, ErrNotFullBlocks
+	}
 	iv := make([]byte, block.BlockSize())
 	if _, err := rand.Read(iv); err != nil {
 		return nil, err
@@ -30,7 +33,13 @@ func DecryptCBC(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrInvalidCiphertext
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
+	if len(ciphertext)%ivSize != 0 {
+		return nil, ErrInvalidCiphertext
+	}
 	mode := cipher.NewCBCDecrypter(block, iv)
 	result := make([]byte, len(ciphertext))
 	mode.CryptBlocks(result, ciphertext)
diff --git a/cryptox/aesx/ctrx.go b/cryptox/aesx/ctrx.go
index 032178e..50234e6 100644
--- a/cryptox/aesx/ctrx.go
+++ b/cryptox/aesx/ctrx.go
@@ -30,6 +30,9 @@ func DecryptCTR(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	ivSize := block.BlockSize()
+	if len(data) < ivSize {
+		return nil, ErrInvalidCiphertext
+	}
 	iv, ciphertext := data[:ivSize], data[ivSize:]
 	mode := cipher.NewCTR(block, iv)
 	result := make([]byte, len(ciphertext))
diff --git a/cryptox/aesx/gcmx.go b/cryptox/aesx/gcmx.go
index 5724a0b..cf91c17 100644
--- a/cryptox/aesx/gcmx.go
+++ b/cryptox/aesx/gcmx.go
@@ -36,6 +36,9 @@ func DecryptGCM(data []byte, key []byte) ([]byte, error) {
 		return nil, err
 	}
 	nonceSize := aead.NonceSize()
+	if len(data) < nonceSize {
+		return nil, ErrInvalidCiphertext
+	}
 	nonce, ciphertext := data[:nonceSize], data[nonceSize:]
 	result, err := aead.Open(nil, nonce, ciphertext, nil)
 	if err != nil {
-- 
2.43.0


From bd0a9a8f621e003266d883f0bf195d6e6f4be7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:41 +0000
Subject: [PATCH 26/35] fix: diffx: measure with the monotonic clock

---
 timex/diffx/diffx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/timex/diffx/diffx.go b/timex/diffx/diffx.go
index 3354f2a..a0249c1 100644
--- a/timex/diffx/diffx.go
+++ b/timex/diffx/diffx.go
@@ -2,10 +2,10 @@ package diffx
 
 import (
 	"time"
-
-	"github.com/unsafe-risk/utilx/timex"
 )
 
+// Differ keeps the instants with their monotonic clock reading, which UTC
+// would strip.
 type Differ struct {
 	start time.Time
 	end   time.Time
@@ -16,11 +16,11 @@ func New() *Differ {
 }
 
 func (d *Differ) Start() {
-	d.start = timex.Now()
+	d.start = time.Now()
 }
 
 func (d *Differ) End() {
-	d.end = timex.Now()
+	d.end = time.Now()
 }
 
 func (d *Differ) GetDiff() time.Duration {
@@ -28,9 +28,9 @@ func (d *Differ) GetDiff() time.Duration {
 }
 
 func (d *Differ) GetStart() time.Time {
-	return d.start
+	return d.start.UTC()
 }
 
 func (d *Differ) GetEnd() time.Time {
-	return d.end
+	return d.end.UTC()
 }
-- 
2.43.0


From 64d492aaabbf44a34bf721f8ef413323e3b53713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:22 +0000
Subject: [PATCH 27/35] fix: autotidy, autoupdate: a directory that could not
 be entered or listed made the go command run again elsewhere

---
 cmd/autotidy/autotidy.go     | 12 ++++++++++--
 cmd/autoupdate/autoupdate.go | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/cmd/autotidy/autotidy.go b/cmd/autotidy/autotidy.go
index 6ebbac2..a74f3bd 100644
--- a/cmd/autotidy/autotidy.go
+++ b/cmd/autotidy/autotidy.go
@@ -10,12 +10,20 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// A directory that cannot be read has been entered already.
+			log.Println("skipping", path, err)
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
+			if err := os.Chdir(path); err != nil {
+				log.Println("skipping", path, err)
+				return nil
+			}
 			log.Println("entering", path)
 			exec.Command("go", "mod", "tidy").Run()
 			log.Println("leaving", path)
diff --git a/cmd/autoupdate/autoupdate.go b/cmd/autoupdate/autoupdate.go
index 556d49a..99906b4 100644
--- a/cmd/autoupdate/autoupdate.go
+++ b/cmd/autoupdate/autoupdate.go
@@ -10,12 +10,20 @@ import (
 
 func main() {
 	workdir, _ := os.Getwd()
-	filepath.WalkDir(".", func(path string, d fs.DirEntry, _ error) error {
+	filepath.WalkDir(".", func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			// A directory that cannot be read has been entered already.
+			log.Println("skipping", path, err)
+			return nil
+		}
 		if d.IsDir() {
 			if d.Name() == "vendor" || d.Name() == ".git" {
 				return filepath.SkipDir
 			}
-			os.Chdir(path)
+			if err := os.Chdir(path); err != nil {
+				log.Println("skipping", path, err)
+				return nil
+			}
 			log.Println("entering", path)
 			exec.Command("go", "get", "-u").Run()
 			log.Println("leaving", path)
-- 
2.43.0


From 35dd06c23ae40f7d9974479b9d72e8beb2dd9138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:16 +0000
Subject: [PATCH 28/35] fix: sklmapx: an iterator yielded entries deleted or
 cleared away before the step

---
 dsx/mapx/sklmapx/sklmapx.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/dsx/mapx/sklmapx/sklmapx.go b/dsx/mapx/sklmapx/sklmapx.go
index f41c942..5961cbf 100644
--- a/dsx/mapx/sklmapx/sklmapx.go
+++ b/dsx/mapx/sklmapx/sklmapx.go
@@ -23,6 +23,7 @@ type skl[K constraints.Ordered, V any] struct {
 	tail *sknode[K, V]
 	seed uint64
 	len  uint
+	gen  uint // number of Clear calls
 }
 
 type sknode[K constraints.Ordered, V any] struct {
@@ -79,6 +80,7 @@ func (l *skl[K, V]) delete(key K, ctx *[MAX_HEIGHT]*sknode[K, V]) bool {
 	for i := 0; i < x.Height(); i++ {
 		ctx[i].next[i] = x.next[i]
 	}
+	x.height = 0 // tells iterators that the node is gone
 	l.len--
 
 	return true
@@ -186,22 +188,25 @@ func (m *SkipListMap[K, V]) ToMap() map[K]V {
 }
 
 func (m *SkipListMap[K, V]) Clear() {
-	// Unlink every node but keep the sentinels, so that an iterator still
-	// standing on an old node reaches the tail.
+	// Unlink every node but keep the sentinels; iterators notice by gen that
+	// the node they stand on is gone.
 	for i := range m.skl.head.next {
 		m.skl.head.next[i] = m.skl.tail
 	}
 	m.skl.len = 0
+	m.skl.gen++
 }
 
 type Iterator[K constraints.Ordered, V any] struct {
 	list *SkipListMap[K, V]
 	ctx  [MAX_HEIGHT]*sknode[K, V]
 	node *sknode[K, V]
+	gen  uint
 }
 
 func (i *Iterator[K, V]) Seek(key K) (K, V, bool) {
 	i.node = i.list.skl.search(key, &i.ctx)
+	i.gen = i.list.skl.gen
 	if i.node == nil {
 		var zero K
 		var zeroV V
@@ -218,8 +223,17 @@ func (i *Iterator[K, V]) Next() (K, V, bool) {
 	if i.node == nil {
 		i.node = i.list.skl.head.next[0]
 	} else if i.node != i.list.skl.tail {
+		if i.node.height == 0 || i.gen != i.list.skl.gen {
+			// The node has been removed: go on at the next larger key.
+			key := i.node.key
+			i.node = i.list.skl.search(key, &i.ctx)
+			if i.node == nil {
+				i.node = i.ctx[0]
+			}
+		}
 		i.node = i.node.next[0]
 	}
+	i.gen = i.list.skl.gen
 	if i.node == i.list.skl.tail {
 		var zero K
 		var zeroV V
-- 
2.43.0


From 7b86757660aeef57ca561fcd6a767b93b58d70a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 29/35] fix: lockx: unlock when the function panics or ends its
 goroutine

---
 syncx/lockx/lockx.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/syncx/lockx/lockx.go b/syncx/lockx/lockx.go
index ce07a8c..ff51594 100644
--- a/syncx/lockx/lockx.go
+++ b/syncx/lockx/lockx.go
@@ -12,8 +12,12 @@ func Lock[T any](l *T, f func(*T)) {
 		runtime.Gosched()
 		p = l
 	}
+	// Unlock even if f panics: nobody else could, and every later call would
+	// spin forever.
+	defer func() {
+		for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
+			runtime.Gosched()
+		}
+	}()
 	f(p)
-	for !atomic.CompareAndSwapPointer((*unsafe.Pointer)(unsafe.Pointer(l)), nil, unsafe.Pointer(p)) {
-		runtime.Gosched()
-	}
 }
-- 
2.43.0


From 61f16d11e12ab79ad06959e175ca86ad88361b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:48 +0000
Subject: [PATCH 30/35] fix: gopoolx: a handler that ends its goroutine gives
 its worker slot back

---
 poolx/gopoolx/timedpool.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/poolx/gopoolx/timedpool.go b/poolx/gopoolx/timedpool.go
index 685c116..679626b 100644
--- a/poolx/gopoolx/timedpool.go
+++ b/poolx/gopoolx/timedpool.go
@@ -31,16 +31,19 @@ type TimedPool[T any] struct {
 }
 
 func tworker[T any](pool *TimedPool[T], w *timedworker[T], ch <-chan T) {
+	// Deferred, as a handler may end its goroutine (runtime.Goexit).
+	defer func() {
+		pool.mu.Lock()
+		pool.workers--
+		pool.mu.Unlock()
+	}()
+
 	for v := range ch {
 		pool.handler(v)
 		if pool.free(w) {
 			return
 		}
 	}
-
-	pool.mu.Lock()
-	pool.workers--
-	pool.mu.Unlock()
 }
 
 func (pool *TimedPool[T]) start(preheat int) {
@@ -136,7 +139,6 @@ func (pool *TimedPool[T]) free(w *timedworker[T]) (stop bool) {
 	w.tt = time.Now().UnixNano()
 	pool.mu.Lock()
 	if pool.maxWorkers == -1 {
-		pool.workers--
 		pool.mu.Unlock()
 		return true
 	}
-- 
2.43.0


From 8ec92118b3fc8f515040e4ed5fc766a4ae1ebb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:57 +0000
Subject: [PATCH 31/35] fix: timex/sleepx: SleepFor of very many seconds
 returned at once

The product of the number and time.Second wrapped around, so that a sleep of
more than 292 years (SleepFor(10 * time.Second) asks for one) did not sleep.
---
 timex/sleepx/sleepx.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/timex/sleepx/sleepx.go b/timex/sleepx/sleepx.go
index 6abca68..c889c4c 100644
--- a/timex/sleepx/sleepx.go
+++ b/timex/sleepx/sleepx.go
@@ -2,6 +2,7 @@ package sleepx
 
 import (
 	"context"
+	"math"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -30,6 +31,18 @@ func New() *Sleeper {
 	}
 }
 
+// seconds converts a number of seconds; what a time.Duration cannot hold
+// becomes the longest or the shortest one instead of wrapping around.
+func seconds(d time.Duration) time.Duration {
+	if d > math.MaxInt64/time.Second {
+		return math.MaxInt64
+	}
+	if d < math.MinInt64/time.Second {
+		return math.MinInt64
+	}
+	return d * time.Second
+}
+
 func (s *Sleeper) SleepFor(d time.Duration) bool {
 	s.mu.Lock()
 	if !s.slept.CompareAndSwap(false, true) {
@@ -41,7 +54,7 @@ func (s *Sleeper) SleepFor(d time.Duration) bool {
 	s.mu.Unlock()
 	for {
 		select {
-		case <-time.After(time.Duration(d) * time.Second):
+		case <-time.After(seconds(d)):
 			return true
 		case <-done:
 			return true
-- 
2.43.0


From 64c021d26fedec9b91d2550077e6abd84d15c869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 32/35] fix: managerx/closex: closers may register further
 closers while Close runs

---
 iox/managerx/closex/manager.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/iox/managerx/closex/manager.go b/iox/managerx/closex/manager.go
index ef05975..d6c4463 100644
--- a/iox/managerx/closex/manager.go
+++ b/iox/managerx/closex/manager.go
@@ -12,8 +12,9 @@ func New() *CloseManager {
 }
 
 type CloseManager struct {
-	lock sync.Mutex
-	list []io.Closer
+	closing sync.Mutex // one Close at a time
+	lock    sync.Mutex // guards list, free while closers run
+	list    []io.Closer
 }
 
 func (c *CloseManager) Append(closer io.Closer) {
@@ -23,13 +24,17 @@ func (c *CloseManager) Append(closer io.Closer) {
 }
 
 func (c *CloseManager) Close() error {
+	c.closing.Lock()
+	defer c.closing.Unlock()
+
 	c.lock.Lock()
-	defer c.lock.Unlock()
+	list := c.list[:len(c.list):len(c.list)]
+	c.lock.Unlock()
 
-	errs := make(ErrorList, 0, len(c.list))
+	errs := make(ErrorList, 0, len(list))
 
 	var err error
-	for _, closer := range c.list {
+	for _, closer := range list {
 		err = closer.Close()
 		if err != nil {
 			errs = append(errs, err)
-- 
2.43.0


From 2746ccabd059c499c0d6be97b00dcd82b4c1ec95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:06 +0000
Subject: [PATCH 33/35] fix: syncmapx: a key that cannot be hashed no longer
 leaves the map locked

---
 dsx/mapx/syncmapx/syncmapx.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dsx/mapx/syncmapx/syncmapx.go b/dsx/mapx/syncmapx/syncmapx.go
index e16eecc..89fd83d 100644
--- a/dsx/mapx/syncmapx/syncmapx.go
+++ b/dsx/mapx/syncmapx/syncmapx.go
@@ -16,15 +16,15 @@ func New[K comparable, V any]() *Map[K, V] {
 
 func (m *Map[K, V]) Get(k K) V {
 	m.mtx.RLock()
+	defer m.mtx.RUnlock() // a key that cannot be hashed panics
 	val := m.m[k]
-	m.mtx.RUnlock()
 	return val
 }
 
 func (m *Map[K, V]) Has(k K) bool {
 	m.mtx.RLock()
+	defer m.mtx.RUnlock()
 	_, ok := m.m[k]
-	m.mtx.RUnlock()
 	return ok
 }
 
@@ -57,14 +57,14 @@ func (t *Map[K, V]) Values() []V {
 
 func (m *Map[K, V]) Set(k K, v V) {
 	m.mtx.Lock()
+	defer m.mtx.Unlock()
 	m.m[k] = v
-	m.mtx.Unlock()
 }
 
 func (m *Map[K, V]) Delete(k K) {
 	m.mtx.Lock()
+	defer m.mtx.Unlock()
 	delete(m.m, k)
-	m.mtx.Unlock()
 }
 
 func (m *Map[K, V]) Clear() {
-- 
2.43.0


From 45ca3044d1f1c516bdf03ec64079dbf71726ea0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 34/35] fix: slicex/queuex: a dequeued element is no longer
 kept reachable by its slot

---
 dsx/slicex/queuex/queuex.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsx/slicex/queuex/queuex.go b/dsx/slicex/queuex/queuex.go
index fbe7081..9be20af 100644
--- a/dsx/slicex/queuex/queuex.go
+++ b/dsx/slicex/queuex/queuex.go
@@ -39,6 +39,8 @@ func (r *Ring[T]) Dequeue() (data T, ok bool) {
 		return
 	}
 	data = r.data[r.head]
+	var zero T
+	r.data[r.head] = zero // let go of it
 	r.head = (r.head + 1) % r.cap
 	return data, true
 }
-- 
2.43.0


From 6b497798fd299eab9b491fb5c4d68e8b7d1c03e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:56 +0000
Subject: [PATCH 35/35] fix: slicex/stackx: a popped element is no longer kept
 reachable by its slot

---
 dsx/slicex/stackx/stackx.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dsx/slicex/stackx/stackx.go b/dsx/slicex/stackx/stackx.go
index 9d92967..087cc2f 100644
--- a/dsx/slicex/stackx/stackx.go
+++ b/dsx/slicex/stackx/stackx.go
@@ -22,6 +22,8 @@ func (s *Stack[T]) Pop() (rs T, ok bool) {
 		return
 	}
 	rs = s.data[len(s.data)-1]
+	var zero T
+	s.data[len(s.data)-1] = zero // let go of it
 	s.data = s.data[:len(s.data)-1]
 	return rs, true
 }
-- 
2.43.0

