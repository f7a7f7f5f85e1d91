From f493412a96ca03f7ef58f2eb9aa8dc81cdb36003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:28 +0000
Subject: [PATCH 01/22] fix: hashmap: Clear must not clear entries shared with
 a copy

---
 hashmap/map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hashmap/map.go b/hashmap/map.go
index 088978a..6c78ca6 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -172,6 +172,13 @@ func (m *Map[K, V]) Remove(key K) {
 
 // Clear removes all key-value pairs from the map.
 func (m *Map[K, V]) Clear() {
+	if m.readonly {
+		// the entries are shared with a copy, leave them alone
+		m.entries = make([]entry[K, V], len(m.entries))
+		m.length = 0
+		m.readonly = false
+		return
+	}
 	for idx, entry := range m.entries {
 		if entry.filled {
 			m.remove(uint64(idx))
-- 
2.43.0


From 9b01d9cdffa9d745f7b2f87f49952ddcbb27ea6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:29 +0000
Subject: [PATCH 02/22] fix: btree: Put of an existing key must not grow the
 size

---
 btree/btree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/btree/btree.go b/btree/btree.go
index c96e2ea..7f461b4 100644
--- a/btree/btree.go
+++ b/btree/btree.go
@@ -77,8 +77,11 @@ func (t *Tree[K, V]) search(x *node[K, V], key K, height int) (V, bool) {
 
 // Put associates 'key' with 'val'.
 func (t *Tree[K, V]) Put(key K, val V) {
+	_, exists := t.Get(key)
 	u := t.insert(t.root, key, val, t.height, true)
-	t.n++
+	if !exists {
+		t.n++
+	}
 	if u == nil {
 		return
 	}
-- 
2.43.0


From 83b7d91b7c148b2b21fa2bbcb9dddc2b40943383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 03/22] fix: trie: Remove of an absent key must not shrink the
 size

---
 trie/trie.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/trie.go b/trie/trie.go
index d01739d..b251082 100644
--- a/trie/trie.go
+++ b/trie/trie.go
@@ -145,7 +145,7 @@ func (t *Trie[V]) put(x *node[V], key string, val V, d int) *node[V] {
 // Remove removes the value associated with 'key', along with any nodes of the key that are no
 // longer used.
 func (t *Trie[V]) Remove(key string) {
-	if len(key) == 0 {
+	if !t.Contains(key) {
 		return
 	}
 
-- 
2.43.0


From cc90ec56622b053eb03934f1868f7e3dd8aeb660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 04/22] fix: ulist: Remove must move the iterator on to the
 next block

---
 ulist/ulist.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ulist/ulist.go b/ulist/ulist.go
index 0249f92..3a8f223 100644
--- a/ulist/ulist.go
+++ b/ulist/ulist.go
@@ -127,6 +127,11 @@ func (ul *UList[V]) Remove(iter *UListIter[V]) {
 		iter.Next()
 		return
 	}
+	if iter.index == len(iter.node.Value) {
+		// The last entry of the block was removed, the following one is in the next block.
+		iter.index--
+		iter.Next()
+	}
 }
 
 func hasCapacity[V any](llNode *list.Node[ulistBlk[V]]) bool {
-- 
2.43.0


From 5c80a6655fe09f53c7ca211b6721edab31a5e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 05/22] fix: cache: evict the entry announced to the callback,
 also if the callback changes the order

---
 cache/cache.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cache/cache.go b/cache/cache.go
index b67844b..4e97924 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -72,8 +72,8 @@ func (t *Cache[K, V]) evict() {
 	if t.evictCb != nil {
 		t.evictCb(entry.Key, entry.Val)
 	}
-	t.lru.Remove(t.lru.Back)
-	delete(t.table, entry.Key)
+	// The callback may have changed the order by looking up entries.
+	t.Remove(entry.Key)
 }
 
 // Remove causes the entry associated with the given key to be immediately
-- 
2.43.0


From 9ec018369ae04eefe1f16e736a210931c563ae80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:57 +0000
Subject: [PATCH 06/22] fix: cache: Put into a cache of capacity 0 must not
 panic

---
 cache/cache.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cache/cache.go b/cache/cache.go
index 4e97924..cc7f4d9 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -54,6 +54,10 @@ func (t *Cache[K, V]) Put(k K, e V) {
 		return
 	}
 
+	if t.capacity <= 0 {
+		return
+	}
+
 	if len(t.table) == t.capacity {
 		t.evict()
 	}
-- 
2.43.0


From 22712ebfa431c92a53d93370de88e50263a4a1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:11 +0000
Subject: [PATCH 07/22] fix: cache: a Resize aborted by the eviction callback
 must keep the size within the capacity

---
 cache/cache.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cache/cache.go b/cache/cache.go
index cc7f4d9..094c99c 100644
--- a/cache/cache.go
+++ b/cache/cache.go
@@ -91,10 +91,11 @@ func (t *Cache[K, V]) Remove(k K) {
 
 // Resize changes the maximum capacity for this cache to 'capacity'.
 func (t *Cache[K, V]) Resize(capacity int) {
-	t.capacity = capacity
 	for len(t.table) > capacity {
 		t.evict()
 	}
+	// Only now, so that the bound also holds if the callback panics.
+	t.capacity = capacity
 }
 
 // Size returns the number of active elements in the cache.
-- 
2.43.0


From 3615f5d7a3b1c84125ba0f057f6aa5f686274ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 08/22] fix: array2d: use the width as the distance between
 rows

---
 array2d/array2d.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index 172283c..e8fa9ab 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -78,7 +78,7 @@ func (a Array2D[T]) Get(x, y int) T {
 }
 
 func (a Array2D[T]) getUnchecked(x, y int) T {
-	return a.slice[x+y*a.height]
+	return a.slice[x+y*a.width]
 }
 
 // Set sets a value in the array.
@@ -95,7 +95,7 @@ func (a Array2D[T]) Set(x, y int, value T) {
 }
 
 func (a Array2D[T]) setUnchecked(x, y int, value T) {
-	a.slice[x+y*a.height] = value
+	a.slice[x+y*a.width] = value
 }
 
 // Width returns the width of this array. The maximum x value is Width()-1.
@@ -134,7 +134,7 @@ func (a Array2D[T]) RowSpan(x1, x2, y int) []T {
 	if x2 < x1 {
 		x1, x2 = x2, x1
 	}
-	return a.slice[x1+y*a.height : 1+x2+y*a.height]
+	return a.slice[x1+y*a.width : 1+x2+y*a.width]
 }
 
 // Row returns a mutable slice for an entire row. Changing values in this slice
@@ -143,7 +143,7 @@ func (a Array2D[T]) Row(y int) []T {
 	if y < 0 || y >= a.height {
 		panic(fmt.Sprintf("array2d: y index out of range [%d] with height %d", y, a.height))
 	}
-	return a.slice[y*a.height : a.width+y*a.height]
+	return a.slice[y*a.width : a.width+y*a.width]
 }
 
 // Fill will assign all values inside the region to the specified value.
@@ -171,10 +171,10 @@ func (a Array2D[T]) Fill(x1, y1, x2, y2 int, value T) {
 	if y2 < y1 {
 		y1, y2 = y2, y1
 	}
-	firstRow := a.slice[x1+y1*a.height : 1+x2+y1*a.height]
+	firstRow := a.slice[x1+y1*a.width : 1+x2+y1*a.width]
 	fill(firstRow, value)
 	for y := y1 + 1; y <= y2; y++ {
-		copy(a.slice[x1+y*a.height:1+x2+y*a.height], firstRow)
+		copy(a.slice[x1+y*a.width:1+x2+y*a.width], firstRow)
 	}
 }
 
-- 
2.43.0


From 83a554b4a0f8ec98abb12983dc63568444ca59c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:22 +0000
Subject: [PATCH 09/22] fix: array2d: OfJagged must ignore excess rows

---
 array2d/array2d.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/array2d/array2d.go b/array2d/array2d.go
index e8fa9ab..799e8ef 100644
--- a/array2d/array2d.go
+++ b/array2d/array2d.go
@@ -31,6 +31,9 @@ func NewFilled[T any](width, height int, value T) Array2D[T] {
 // are ignored.
 func OfJagged[J ~[]S, S ~[]E, E any](width, height int, jagged J) Array2D[E] {
 	arr := New[E](width, height)
+	if len(jagged) > height {
+		jagged = jagged[:height]
+	}
 	for y, row := range jagged {
 		copy(arr.Row(y), row)
 	}
-- 
2.43.0


From f150b6dc25889ca1422e7db53956cec507adced0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:16 +0000
Subject: [PATCH 10/22] fix: set: IsDisjoint must be true for sets without a
 common element

---
 set/set.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/set/set.go b/set/set.go
index cb9cdf5..e5abf3b 100644
--- a/set/set.go
+++ b/set/set.go
@@ -145,7 +145,7 @@ func (s Set[K]) Keys() []K {
 
 func (s Set[K]) IsDisjoint(other SetOf[K]) bool {
 	// TODO: maybe optimize?
-	return s.Intersection(other).Size() > 0
+	return s.Intersection(other).Size() == 0
 }
 
 func (s Set[K]) IsSubset(of SetOf[K]) bool {
-- 
2.43.0


From 89a0d76cbb97a16e307245350ace86171d0172b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:23 +0000
Subject: [PATCH 11/22] fix: set: InPlaceIntersection must not skip elements of
 a hash-backed set

---
 set/set.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/set/set.go b/set/set.go
index e5abf3b..9014189 100644
--- a/set/set.go
+++ b/set/set.go
@@ -108,11 +108,12 @@ func (s Set[K]) SymmetricDifference(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		s.Each(func(key K) {
+		// Not within Each: removing may move elements of the set.
+		for _, key := range s.Keys() {
 			if !other.Has(key) {
 				s.Remove(key)
 			}
-		})
+		}
 	}
 	return s
 }
-- 
2.43.0


From 11e76651aa39b88516beb70e7bca6ff0b41419d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:37 +0000
Subject: [PATCH 12/22] fix: set: InPlaceDifference of a hash-backed set with
 itself must remove every element

---
 set/set.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/set/set.go b/set/set.go
index 9014189..71ceb5f 100644
--- a/set/set.go
+++ b/set/set.go
@@ -120,9 +120,12 @@ func (s Set[K]) InPlaceIntersection(others ...SetOf[K]) Set[K] {
 
 func (s Set[K]) InPlaceDifference(others ...SetOf[K]) Set[K] {
 	for _, other := range others {
-		other.Each(func(key K) {
+		// Not within Each: 'other' may be 's' itself.
+		keys := make([]K, 0, other.Size())
+		other.Each(func(key K) { keys = append(keys, key) })
+		for _, key := range keys {
 			s.Remove(key)
-		})
+		}
 	}
 	return s
 }
-- 
2.43.0


From 1e4a1edf4a1f494eb13819b6d64dd97ebdfd831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 13/22] fix: rope: Rebuild must turn the node into a leaf
 before splitting it

---
 rope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rope/rope.go b/rope/rope.go
index 6fb6c75..199d2ef 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -234,6 +234,7 @@ func (n *Node[V]) Rebuild() {
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.kind = tLeaf
 		n.adjust()
 	}
 }
-- 
2.43.0


From ff13617bb5c4293b12e10482b5b35242c43096b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:26 +0000
Subject: [PATCH 14/22] fix: prope: Rebalance must not modify nodes shared with
 other versions

---
 prope/prope.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/prope/prope.go b/prope/prope.go
index cfca004..c900b4c 100644
--- a/prope/prope.go
+++ b/prope/prope.go
@@ -164,8 +164,11 @@ func (n *Node[V]) Rebalance() {
 	if g.Max(lratio, rratio) > RebalanceRatio {
 		n.Rebuild()
 	} else {
-		n.left.Rebalance()
-		n.right.Rebalance()
+		// the children may be shared with other versions of the rope
+		left, right := *n.left, *n.right
+		left.Rebalance()
+		right.Rebalance()
+		n.left, n.right = &left, &right
 	}
 }
 
-- 
2.43.0


From 9fce96a7210e3546767fbba59af2b5b9c1e77cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:56 +0000
Subject: [PATCH 15/22] fix: avl: a panic of less must not leave a half-done
 removal

---
 avl/avl.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/avl/avl.go b/avl/avl.go
index f8db1f5..f9d6876 100644
--- a/avl/avl.go
+++ b/avl/avl.go
@@ -99,7 +99,7 @@ func (n *node[K, V]) remove(key K, less g.LessFn[K]) *node[K, V] {
 			rightMinNode := n.right.findSmallest()
 			n.key = rightMinNode.key
 			n.value = rightMinNode.value
-			n.right = n.right.remove(rightMinNode.key, less)
+			n.right = n.right.removeSmallest()
 		} else if n.left != nil {
 			n = n.left
 		} else if n.right != nil {
@@ -195,6 +195,16 @@ func (n *node[K, V]) findSmallest() *node[K, V] {
 	}
 }
 
+// removeSmallest removes the smallest node without comparing keys, so that it
+// cannot be interrupted by a panic.
+func (n *node[K, V]) removeSmallest() *node[K, V] {
+	if n.left == nil {
+		return n.right
+	}
+	n.left = n.left.removeSmallest()
+	return n.rebalanceTree()
+}
+
 func (n *node[K, V]) size() int {
 	if n == nil {
 		return 0
-- 
2.43.0


From b5faba42e9981dc3637e65a94709e99e8c821107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 16/22] fix: hashmap: a panic of hash or equals must not lose
 entries in Remove

---
 hashmap/map.go | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 6c78ca6..4c84e5f 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -146,6 +146,18 @@ func (m *Map[K, V]) Remove(key K) {
 		return
 	}
 
+	// find the entries of the cluster that must move back before anything is
+	// changed, since the hash function may panic
+	var moves []uint64
+	hole := idx
+	for next := (idx + 1) & (m.capacity - 1); m.entries[next].filled; next = (next + 1) & (m.capacity - 1) {
+		home := m.ops.hash(m.entries[next].key) & (m.capacity - 1)
+		if (next-home)&(m.capacity-1) >= (next-hole)&(m.capacity-1) {
+			moves = append(moves, next)
+			hole = next
+		}
+	}
+
 	if m.readonly {
 		entries := make([]entry[K, V], len(m.entries), cap(m.entries))
 		copy(entries, m.entries)
@@ -153,16 +165,11 @@ func (m *Map[K, V]) Remove(key K) {
 		m.readonly = false
 	}
 
-	m.remove(idx)
-
-	idx = (idx + 1) & (m.capacity - 1)
-	for m.entries[idx].filled {
-		krehash := m.entries[idx].key
-		vrehash := m.entries[idx].value
-		m.remove(idx)
-		m.Put(krehash, vrehash)
-		idx = (idx + 1) & (m.capacity - 1)
+	for _, next := range moves {
+		m.entries[idx] = m.entries[next]
+		idx = next
 	}
+	m.remove(idx)
 
 	// halves the array if it is 12.5% full or less
 	if m.length > 0 && m.length <= m.capacity/8 {
-- 
2.43.0


From 6a77d3c2c4c91c2b89117a2fa6b8507aad14e774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 17/22] fix: heap: a panic of less must not leave a half-done
 Push or Pop

---
 heap/heap.go | 49 ++++++++++++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/heap/heap.go b/heap/heap.go
index 7bc8bc0..e544c61 100644
--- a/heap/heap.go
+++ b/heap/heap.go
@@ -31,7 +31,7 @@ func From[T any](less g.LessFn[T], t ...T) *Heap[T] {
 func FromSlice[T any](less g.LessFn[T], data []T) *Heap[T] {
 	n := len(data)
 	for i := n/2 - 1; i >= 0; i-- {
-		down(data, i, less)
+		down(data, i, data[i], less)
 	}
 
 	return &Heap[T]{
@@ -42,8 +42,9 @@ func FromSlice[T any](less g.LessFn[T], data []T) *Heap[T] {
 
 // Push pushes the given element onto the heap.
 func (h *Heap[T]) Push(x T) {
-	h.data = append(h.data, x)
-	up(h.data, len(h.data)-1, h.less)
+	data := append(h.data, x)
+	up(data, len(data)-1, h.less)
+	h.data = data
 }
 
 // Pop removes and returns the minimum element from the heap. If the heap is
@@ -56,9 +57,11 @@ func (h *Heap[T]) Pop() (T, bool) {
 
 	x = h.data[0]
 
-	h.data[0] = h.data[len(h.data)-1]
-	h.data = h.data[:len(h.data)-1]
-	down(h.data, 0, h.less)
+	last := len(h.data) - 1
+	if last > 0 {
+		down(h.data[:last], 0, h.data[last], h.less)
+	}
+	h.data = h.data[:last]
 
 	return x, true
 }
@@ -79,9 +82,12 @@ func (h *Heap[T]) Size() int {
 	return len(h.data)
 }
 
-func down[T any](h []T, i int, less g.LessFn[T]) {
+// down puts x into the place i, below which it sinks. Nothing is changed before
+// less was called for the last time, since it may panic.
+func down[T any](h []T, i int, x T, less g.LessFn[T]) {
+	k := i
 	for {
-		left, right := 2*i+1, 2*i+2
+		left, right := 2*k+1, 2*k+2
 		if left >= len(h) || left < 0 { // `left < 0` in case of overflow
 			break
 		}
@@ -92,23 +98,36 @@ func down[T any](h []T, i int, less g.LessFn[T]) {
 			j = right
 		}
 
-		if !less(h[j], h[i]) {
+		if !less(h[j], x) {
 			break
 		}
 
-		h[i], h[j] = h[j], h[i]
-		i = j
+		k = j
+	}
+
+	// move everything between i and k up
+	for ; k != i; k = (k - 1) / 2 {
+		h[k], x = x, h[k]
 	}
+	h[i] = x
 }
 
+// up lets the element at i rise. Nothing is changed before less was called for
+// the last time, since it may panic.
 func up[T any](h []T, i int, less g.LessFn[T]) {
+	x, k := h[i], i
 	for {
-		parent := (i - 1) / 2
-		if i == 0 || !less(h[i], h[parent]) {
+		parent := (k - 1) / 2
+		if k == 0 || !less(x, h[parent]) {
 			break
 		}
 
-		h[i], h[parent] = h[parent], h[i]
-		i = parent
+		k = parent
+	}
+
+	// move everything between k and i down
+	for ; i != k; i = (i - 1) / 2 {
+		h[i] = h[(i-1)/2]
 	}
+	h[k] = x
 }
-- 
2.43.0


From 548debcd3c4db576db8174ab70db4d01a176d65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:57 +0000
Subject: [PATCH 18/22] fix: multimap: a panic of less must not leave a key
 without values

---
 multimap/avl.go    | 10 ++++++----
 multimap/values.go |  5 +++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/multimap/avl.go b/multimap/avl.go
index 1242902..572bb73 100644
--- a/multimap/avl.go
+++ b/multimap/avl.go
@@ -53,10 +53,12 @@ func (m *avlMultiMap[K, V, C]) Remove(key K, value V) {
 		return
 	}
 
-	m.size -= values.Remove(value)
-	if values.Empty() {
-		m.keys.Remove(key)
+	if values.Size() == 1 && values.has(value) {
+		// a key exists only while it has values
+		m.RemoveAll(key)
+		return
 	}
+	m.size -= values.Remove(value)
 }
 
 func (m *avlMultiMap[K, V, C]) RemoveAll(key K) {
@@ -65,8 +67,8 @@ func (m *avlMultiMap[K, V, C]) RemoveAll(key K) {
 		return
 	}
 
-	m.size -= values.Size()
 	m.keys.Remove(key)
+	m.size -= values.Size()
 }
 
 func (m *avlMultiMap[K, V, C]) Clear() {
diff --git a/multimap/values.go b/multimap/values.go
index ce7c6d9..0dbc065 100644
--- a/multimap/values.go
+++ b/multimap/values.go
@@ -8,6 +8,7 @@ import (
 type valuesContainer[V any] interface {
 	Empty() bool
 	Size() int
+	has(value V) bool
 	Put(value V) int
 	Remove(value V) int
 	List() []V
@@ -75,6 +76,10 @@ func (vs *valuesSlice[V]) Size() int {
 	return len(*vs)
 }
 
+func (vs *valuesSlice[V]) has(value V) bool {
+	return slices.Contains(*vs, value)
+}
+
 func (vs *valuesSlice[V]) Put(value V) int {
 	*vs = append(*vs, value)
 	return 1
-- 
2.43.0


From ce19a48426e31b34e738d18f44df3b5d45fc0fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:05 +0000
Subject: [PATCH 19/22] fix: multimap: lists returned for keys with a values
 slice must not alias it

---
 multimap/values.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multimap/values.go b/multimap/values.go
index 0dbc065..e106bad 100644
--- a/multimap/values.go
+++ b/multimap/values.go
@@ -96,7 +96,8 @@ func (vs *valuesSlice[V]) Remove(value V) int {
 }
 
 func (vs *valuesSlice[V]) List() []V {
-	return *vs
+	// the caller's list must not change with later operations
+	return slices.Clone(*vs)
 }
 
 func (vs *valuesSlice[V]) Each(fn func(value V)) {
-- 
2.43.0


From 86cfc8d49e07f8cb7c531bdb2e59985313f3a067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:16 +0000
Subject: [PATCH 20/22] fix: prope: Remove descends only into the parts it
 removes from

Remove recursed into both children of every node, also with an empty range,
and so rebuilt the whole rope instead of taking O(lg n) time and space.
---
 prope/prope.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prope/prope.go b/prope/prope.go
index c900b4c..bb35b4c 100644
--- a/prope/prope.go
+++ b/prope/prope.go
@@ -121,14 +121,20 @@ func (n *Node[V]) Remove(start, end int) *Node[V] {
 	}
 
 	changedNode := &Node[V]{
-		kind: tNode,
+		kind:  tNode,
+		left:  n.left,
+		right: n.right,
 	}
 
 	leftStart, leftEnd := bound(start, end, n.left.length)
-	changedNode.left = n.left.Remove(leftStart, leftEnd)
+	if leftStart < leftEnd {
+		changedNode.left = n.left.Remove(leftStart, leftEnd)
+	}
 
 	rightStart, rightEnd := bound(start-n.left.length, end-n.left.length, n.right.length)
-	changedNode.right = n.right.Remove(rightStart, rightEnd)
+	if rightStart < rightEnd {
+		changedNode.right = n.right.Remove(rightStart, rightEnd)
+	}
 
 	changedNode.length = changedNode.right.length + changedNode.left.length
 	changedNode.adjust()
-- 
2.43.0


From 866502bd3a34d86d7e4d0826824b6d56e3728011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:53 +0000
Subject: [PATCH 21/22] fix: rope: inserting a slice of the rope itself garbled
 it

Slice and Value may return part of a leaf without copying it. Inserting
such a slice into the same leaf in place moved its elements before they
were copied.
---
 rope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rope/rope.go b/rope/rope.go
index 199d2ef..eb79a5f 100644
--- a/rope/rope.go
+++ b/rope/rope.go
@@ -268,6 +268,8 @@ func (n *Node[V]) Each(fn func(n *Node[V])) {
 // from slice tricks
 func insert[V any](s []V, k int, vs []V) []V {
 	if n := len(s) + len(vs); n <= cap(s) {
+		// vs may be part of s, which is about to be moved.
+		vs = append([]V(nil), vs...)
 		s2 := s[:n]
 		copy(s2[k+len(vs):], s[k:])
 		copy(s2[k:], vs)
-- 
2.43.0


From a9bd711461466c196316b2497398bfda700ccb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:01 +0000
Subject: [PATCH 22/22] fix: heap: From kept and reordered the caller's slice

---
 heap/heap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/heap/heap.go b/heap/heap.go
index e544c61..dfd2eb4 100644
--- a/heap/heap.go
+++ b/heap/heap.go
@@ -23,7 +23,7 @@ func New[T any](less g.LessFn[T]) *Heap[T] {
 
 // From returns a new heap with the given less function and initial data.
 func From[T any](less g.LessFn[T], t ...T) *Heap[T] {
-	return FromSlice(less, t)
+	return FromSlice(less, append([]T(nil), t...))
 }
 
 // FromSlice returns a new heap with the given less function and initial data.
-- 
2.43.0

