package wl

import (
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/trie"
	"verifsim/engine"
)

// cacheI is a cache of any types of keys and values, seen as numbers.
type cacheI interface {
	Put(k, v int)
	Get(k int) (int, bool)
	Remove(k int)
	Resize(n int)
	Size() int
	Capacity() int
	Each(fn func(k, v int))
	SetEvictCallback(fn func(k, v int))
}

type cacheT[K comparable, V any] struct {
	c *cache.Cache[K, V]
	k *vcodec[K]
	v *vcodec[V]
}

func newCacheT[K comparable, V any](n int, k *vcodec[K], v *vcodec[V]) cacheI {
	return cacheT[K, V]{cache.New[K, V](n), k, v}
}

func (h cacheT[K, V]) Put(k, v int) { h.c.Put(h.k.enc(k), h.v.enc(v)) }
func (h cacheT[K, V]) Get(k int) (int, bool) {
	v, ok := h.c.Get(h.k.enc(k))
	return h.v.dec(v), ok
}
func (h cacheT[K, V]) Remove(k int)  { h.c.Remove(h.k.enc(k)) }
func (h cacheT[K, V]) Resize(n int)  { h.c.Resize(n) }
func (h cacheT[K, V]) Size() int     { return h.c.Size() }
func (h cacheT[K, V]) Capacity() int { return h.c.Capacity() }
func (h cacheT[K, V]) Each(fn func(k, v int)) {
	h.c.Each(func(k K, v V) { fn(h.k.dec(k), h.v.dec(v)) })
}
func (h cacheT[K, V]) SetEvictCallback(fn func(k, v int)) {
	if fn == nil {
		h.c.SetEvictCallback(nil)
		return
	}
	h.c.SetEvictCallback(func(k K, v V) { fn(h.k.dec(k), h.v.dec(v)) })
}

// trieI is a trie of any type of values.
type trieI interface {
	Put(k string, v int)
	Get(k string) (int, bool)
	Contains(k string) bool
	Remove(k string)
	Size() int
	LongestPrefix(q string) string
	Keys() []string
	KeysWithPrefix(p string) []string
}

type trieT[V any] struct {
	*trie.Trie[V]
	v *vcodec[V]
}

func newTrieT[V any](v *vcodec[V]) trieI { return trieT[V]{trie.New[V](), v} }

func (h trieT[V]) Put(k string, v int) { h.Trie.Put(k, h.v.enc(v)) }
func (h trieT[V]) Get(k string) (int, bool) {
	v, ok := h.Trie.Get(k)
	return h.v.dec(v), ok
}

// heapI is a heap of any type of items.
type heapI interface {
	Push(x hitem)
	Pop() (hitem, bool)
	Peek() (hitem, bool)
	Size() int
}

type heapT[T any] struct {
	h   *heap.Heap[T]
	enc func(hitem) T
	dec func(T) hitem
}

// newHeapT makes a heap of the items in one of three ways.
func newHeapT[T any](ctor, ord int, items []hitem, enc func(hitem) T, dec func(T) hitem) heapI {
	less := func(a, b T) bool {
		engine.CB()
		return orderOf(ord, dec(a).p) < orderOf(ord, dec(b).p)
	}
	var ts []T
	for _, x := range items {
		ts = append(ts, enc(x))
	}
	switch ctor {
	case 0:
		h := heap.New(less)
		for _, x := range ts {
			h.Push(x)
		}
		return heapT[T]{h, enc, dec}
	case 1:
		h := heap.From(less, ts...)
		for i, x := range items {
			unchanged(dec(ts[i]) == x)
		}
		ts = ts[:cap(ts)]
		for i := range ts {
			ts[i] = enc(hitem{1 << 20, 1 << 20}) // the arguments are the caller's
		}
		return heapT[T]{h, enc, dec}
	}
	return heapT[T]{heap.FromSlice(less, ts), enc, dec}
}

func (h heapT[T]) one(x T, ok bool) (hitem, bool) { return h.dec(x), ok }

func (h heapT[T]) Push(x hitem)        { h.h.Push(h.enc(x)) }
func (h heapT[T]) Pop() (hitem, bool)  { return h.one(h.h.Pop()) }
func (h heapT[T]) Peek() (hitem, bool) { return h.one(h.h.Peek()) }
func (h heapT[T]) Size() int           { return h.h.Size() }

func hself(x hitem) hitem { return x }
func hany(x hitem) any {
	if x == (hitem{}) {
		return nil
	}
	return x
}
func hofAny(a any) hitem {
	x, _ := a.(hitem)
	return x
}
func hblob(x hitem) blob { return blob{x.p, []int{x.id}, x.id} }
func hofBlob(b blob) hitem {
	switch {
	case len(b.s) == 1 && b.s[0] == b.m:
		return hitem{b.n, b.m}
	case b.n == 0 && b.s == nil && b.m == 0:
		return hitem{}
	}
	return hitem{garbled, garbled}
}
func hint(x hitem) int   { return x.p<<32 | x.id }
func hofInt(n int) hitem { return hitem{n >> 32, n & (1<<32 - 1)} }
