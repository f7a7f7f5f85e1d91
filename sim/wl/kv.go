package wl

import (
	"fmt"
	"sort"

	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"verifsim/engine"
)

// kvh is a keyed container with ids for keys.
type kvh interface {
	Put(k, tag, v int)
	Get(k, tag int) (int, bool)
	Remove(k, tag int)
	Size() int
	Each(fn func(k, v int))
	Clear() // nil-able capability: see caps
	Copy() kvh
	Height() int
}

type hmapH[K, V any] struct {
	m *hashmap.Map[K, V]
	c *codec[K]
	v *vcodec[V]
}

func (h hmapH[K, V]) Put(k, tag, v int) { h.m.Put(h.c.enc(k, tag), h.v.enc(v)) }
func (h hmapH[K, V]) Get(k, tag int) (int, bool) {
	v, ok := h.m.Get(h.c.enc(k, tag))
	return h.v.dec(v), ok
}
func (h hmapH[K, V]) Remove(k, tag int)      { h.m.Remove(h.c.enc(k, tag)) }
func (h hmapH[K, V]) Size() int              { return h.m.Size() }
func (h hmapH[K, V]) Each(fn func(k, v int)) { h.m.Each(func(k K, v V) { fn(h.c.dec(k), h.v.dec(v)) }) }
func (h hmapH[K, V]) Clear()                 { h.m.Clear() }
func (h hmapH[K, V]) Copy() kvh              { return hmapH[K, V]{h.m.Copy(), h.c, h.v} }
func (h hmapH[K, V]) Height() int            { return -1 }

type hsetH[K any] struct {
	m *hashset.Set[K]
	c *codec[K]
}

func (h hsetH[K]) Put(k, tag, v int)          { h.m.Put(h.c.enc(k, tag)) }
func (h hsetH[K]) Get(k, tag int) (int, bool) { return 0, h.m.Has(h.c.enc(k, tag)) }
func (h hsetH[K]) Remove(k, tag int)          { h.m.Remove(h.c.enc(k, tag)) }
func (h hsetH[K]) Size() int                  { return h.m.Size() }
func (h hsetH[K]) Each(fn func(k, v int))     { h.m.Each(func(k K) { fn(h.c.dec(k), 0) }) }
func (h hsetH[K]) Clear()                     { h.m.Clear() }
func (h hsetH[K]) Copy() kvh                  { return hsetH[K]{h.m.Copy(), h.c} }
func (h hsetH[K]) Height() int                { return -1 }

type msetH[K comparable] struct {
	m mapset.Set[K]
	c *codec[K]
}

func (h msetH[K]) Put(k, tag, v int)          { h.m.Put(h.c.enc(k, 0)) }
func (h msetH[K]) Get(k, tag int) (int, bool) { return 0, h.m.Has(h.c.enc(k, 0)) }
func (h msetH[K]) Remove(k, tag int)          { h.m.Remove(h.c.enc(k, 0)) }
func (h msetH[K]) Size() int                  { return h.m.Size() }
func (h msetH[K]) Each(fn func(k, v int))     { h.m.Each(func(k K) { fn(h.c.dec(k), 0) }) }
func (h msetH[K]) Clear()                     { h.m.Clear() }
func (h msetH[K]) Copy() kvh                  { panic("no copy") }
func (h msetH[K]) Height() int                { return -1 }

type avlH[K, V any] struct {
	m *avl.Tree[K, V]
	c *codec[K]
	v *vcodec[V]
}

func (h avlH[K, V]) Put(k, tag, v int) { h.m.Put(h.c.enc(k, tag), h.v.enc(v)) }
func (h avlH[K, V]) Get(k, tag int) (int, bool) {
	v, ok := h.m.Get(h.c.enc(k, tag))
	return h.v.dec(v), ok
}
func (h avlH[K, V]) Remove(k, tag int)      { h.m.Remove(h.c.enc(k, tag)) }
func (h avlH[K, V]) Size() int              { return h.m.Size() }
func (h avlH[K, V]) Each(fn func(k, v int)) { h.m.Each(func(k K, v V) { fn(h.c.dec(k), h.v.dec(v)) }) }
func (h avlH[K, V]) Clear()                 {}
func (h avlH[K, V]) Copy() kvh              { panic("no copy") }
func (h avlH[K, V]) Height() int            { return h.m.Height() }

type btreeH[K, V any] struct {
	m *btree.Tree[K, V]
	c *codec[K]
	v *vcodec[V]
}

func (h btreeH[K, V]) Put(k, tag, v int) { h.m.Put(h.c.enc(k, tag), h.v.enc(v)) }
func (h btreeH[K, V]) Get(k, tag int) (int, bool) {
	v, ok := h.m.Get(h.c.enc(k, tag))
	return h.v.dec(v), ok
}
func (h btreeH[K, V]) Remove(k, tag int) { h.m.Remove(h.c.enc(k, tag)) }
func (h btreeH[K, V]) Size() int         { return h.m.Size() }
func (h btreeH[K, V]) Each(fn func(k, v int)) {
	h.m.Each(func(k K, v V) { fn(h.c.dec(k), h.v.dec(v)) })
}
func (h btreeH[K, V]) Clear()      {}
func (h btreeH[K, V]) Copy() kvh   { panic("no copy") }
func (h btreeH[K, V]) Height() int { return -1 }

const (
	kHmap = iota
	kHset
	kMset
	kAvl
	kBtree
)

func newKV[K comparable](r *engine.Run, kind, capacity int, c *codec[K], init []int) kvh {
	if kind == kMset {
		if len(init) > 0 {
			var ks []K
			for _, k := range init {
				ks = append(ks, c.enc(k, 0))
			}
			s := mapset.Of(ks...)
			spoil(ks, init, c)
			return msetH[K]{s, c}
		}
		return msetH[K]{mapset.New[K](), c}
	}
	return newKVAny(r, kind, capacity, c, init)
}

// newKVAny makes any of the containers that take keys of any type.
func newKVAny[K any](r *engine.Run, kind, capacity int, c *codec[K], init []int) kvh {
	if kind == kHset {
		if len(init) > 0 {
			var ks []K
			for _, k := range init {
				ks = append(ks, c.enc(k, 0))
			}
			s := hashset.Of(uint64(capacity), c.equals, c.hash, ks...)
			spoil(ks, init, c)
			return hsetH[K]{s, c}
		}
		return hsetH[K]{hashset.New(uint64(capacity), c.equals, c.hash), c}
	}
	switch r.Cfg("val") {
	case 1:
		return newKVOf(kind, capacity, c, vStr)
	case 2:
		return newKVOf(kind, capacity, c, vBlob)
	case 3:
		return newKVOf(kind, capacity, c, vAny)
	}
	return newKVOf(kind, capacity, c, vInt)
}

func newKVOf[K, V any](kind, capacity int, c *codec[K], v *vcodec[V]) kvh {
	switch kind {
	case kHmap:
		return hmapH[K, V]{hashmap.New[K, V](uint64(capacity), c.equals, c.hash), c, v}
	case kAvl:
		return avlH[K, V]{avl.New[K, V](c.less), c, v}
	}
	return btreeH[K, V]{btree.New[K, V](c.less), c, v}
}

// kvModel is the reference: a map.
type kvModel struct {
	ks   *keyset
	vals map[int]int
}

func newKVModel() *kvModel { return &kvModel{newKeyset(), map[int]int{}} }
func (m *kvModel) clone() *kvModel {
	n := newKVModel()
	for _, k := range m.ks.ids {
		n.put(k, m.vals[k])
	}
	return n
}
func (m *kvModel) put(k, v int) { m.ks.add(k); m.vals[k] = v }
func (m *kvModel) rem(k int)    { m.ks.del(k); delete(m.vals, k) }
func (m *kvModel) size() int    { return len(m.ks.ids) }

// kvBox is one container with its model.
type kvBox struct {
	kind    int
	h       kvh
	m       *kvModel
	univ    int
	ordered bool
	values  bool
	cmp     func(a, b int) bool
}

func cfgKV(r *engine.Run, init []int) *kvBox {
	kind := r.Cfg("kind")
	b := &kvBox{kind: kind, m: newKVModel(), univ: r.Cfg("univ")}
	b.ordered = kind == kAvl || kind == kBtree
	b.values = kind != kHset && kind != kMset
	if b.univ < 1 {
		b.univ = 1
	}
	for i := range init {
		init[i] %= b.univ
	}
	ord, hk, v, capacity := r.Cfg("ord"), r.Cfg("hash"), r.Cfg("enc"), r.Cfg("cap")
	key := r.Cfg("key")
	if key == 3 && kind == kMset {
		key = 0
	}
	switch key {
	case 3:
		c := bagCodec(ord, hk)
		b.h, b.cmp = newKVAny(r, kind, capacity, c, init), c.cmp
	case 0:
		c := intCodec(v, ord, hk)
		b.h, b.cmp = newKV(r, kind, capacity, c, init), c.cmp
	case 1:
		c := strCodec(v, ord, hk)
		b.h, b.cmp = newKV(r, kind, capacity, c, init), c.cmp
	default:
		c := tagCodec(ord, hk)
		b.h, b.cmp = newKV(r, kind, capacity, c, init), c.cmp
	}
	if kind == kHset || kind == kMset {
		for _, k := range init {
			b.m.put(k, 0)
		}
	}
	return b
}

func genKVCfg(g *Gen, kinds ...int) {
	k := g.Pick(kinds...)
	g.set("kind", k)
	g.set("ord", g.Pick(0, 0, 0, 1, 2, 3))
	g.set("hash", g.Intn(9))
	g.set("key", g.Pick(0, 0, 0, 1, 1, 2, 2, 3))
	genVal(g)
	g.set("enc", g.Intn(12))
	g.set("cap", g.Pick(0, 1, 1, 2, 3, 4, 5, 8, 16, 17, 64, 100))
	g.set("init", g.Pick(0, 0, 0, 0, 3, 9, 40))
	u := g.Pick(1, 2, 3, 4, 6, 8, 12, 20, 40, 80)
	if g.pc(12) {
		u = g.Pick(150, 300, 600)
		g.set("big", u)
		if h := g.P.Cfg["hash"]; h == 1 || h == 2 || h == 7 || h == 4 {
			g.set("hash", 0) // linear probing through hundreds of colliding keys: too slow
		}
	}
	if k == kBtree && g.pc(25) {
		u = g.Pick(150, 1200, 2500, 4000)
		g.set("big", u)
	}
	if n := g.huge(8, 1000, 2500, 4000); n > 0 {
		if k >= kAvl && !g.Race {
			switch g.Intn(40) {
			case 0:
				n = 40000
			case 1, 2:
				n = 9000
			}
			g.set("big", n)
		}
		if k < kAvl {
			n = g.giant(n, 40000, 40)
		}
		u = n
		g.set("full", 1)
		if h := g.P.Cfg["hash"]; h == 1 || h == 2 || h == 7 || h == 4 || h == 8 || n >= 10000 {
			g.set("hash", 0)
		}
	}
	if g.Race && u > 300 && g.P.Cfg["full"] == 0 {
		u = 300
		g.set("big", u)
	}
	g.set("univ", u)
}

// key resolves an operation's key: any id, or one that is present.
func (b *kvBox) key(raw, mode int) int {
	if mode >= 4 && len(b.m.ks.ids) > 0 {
		return b.m.ks.ids[abs(raw)%len(b.m.ks.ids)]
	}
	return abs(raw) % b.univ
}

var kvSpecs = []Spec{
	{K: "wput", W: 30, SW: 4, Args: argRaw, NoF: false},
	{K: "wrem", W: 24, SW: 1, Args: argRaw},
	{K: "wbulkput", W: 3, SW: 8, Args: argBulk(60), Cost: 20},
	{K: "wbulkrem", W: 3, SW: 2, Args: argBulk(60), Cost: 20},
	{K: "wclear", W: 1, NoF: true},
	{K: "rget", W: 24, Args: argRaw},
	{K: "rgets", W: 6, Args: argRaw, Cost: 4},
	{K: "reach", W: 12, Vis: true, Cost: 1},
	{K: "rsize", W: 8, NoF: true},
	{K: "rheight", W: 5, NoF: true},
}

func (b *kvBox) val(v int) int {
	if b.values && v%16 != 5 { // now and then the zero value
		return v + 1
	}
	return 0
}

func (b *kvBox) put1(t *Task, k, tag, v int) bool {
	again := v%8 == 1 && b.m.ks.has(k)
	v = b.val(v)
	if again {
		v = b.m.vals[k] // nothing changes
	}
	if t.Tracing() {
		t.Tracef("Put(%d, %d)", k, v)
	}
	if t.Must("Put", func() { b.h.Put(k, tag, v) }) {
		b.settle(t, k, true, v)
		return true
	}
	b.m.put(k, v)
	return false
}

func (b *kvBox) rem1(t *Task, k, tag int) bool {
	if t.Tracing() {
		t.Tracef("Remove(%d)", k)
	}
	if t.Must("Remove", func() { b.h.Remove(k, tag) }) {
		b.settle(t, k, false, 0)
		return true
	}
	b.m.rem(k)
	return false
}

// settle decides after an aborted write whether it took effect; the container must be
// in the state before or after it.
func (b *kvBox) settle(t *Task, k int, present bool, v int) {
	t.Quiet()
	var gv int
	var ok bool
	t.Must("Get", func() { gv, ok = b.h.Get(k, 0) })
	old, had := b.m.vals[k], b.m.ks.has(k)
	switch {
	case ok == had && (!ok || gv == old):
		t.Add(engine.CAbortedBefore, 1)
	case ok == present && (!ok || gv == v):
		t.Add(engine.CAbortedAfter, 1)
		if present {
			b.m.put(k, v)
		} else {
			b.m.rem(k)
		}
	default:
		t.Fail("after a write of key %d aborted by a callback panic, Get gives (%d,%v); before it was (%d,%v)", k, gv, ok, old, had)
	}
	b.check(t)
}

func (b *kvBox) write(t *Task, op *Op) {
	switch op.K {
	case "wput":
		b.put1(t, b.key(op.Arg(0), op.Arg(1)), op.Arg(2), op.Arg(2))
	case "wrem":
		b.rem1(t, b.key(op.Arg(0), op.Arg(1)), op.Arg(2))
	case "wbulkput":
		for i := 0; i < op.Arg(2); i++ {
			if b.put1(t, abs(op.Arg(0)+i*op.Arg(1))%b.univ, i, op.Arg(3)+i) {
				return
			}
		}
	case "wbulkrem":
		for i := 0; i < op.Arg(2); i++ {
			if b.rem1(t, abs(op.Arg(0)+i*op.Arg(1))%b.univ, i) {
				return
			}
			if b.kind == kAvl {
				b.height(t) // a later write may hide what this one did
			}
		}
	case "wclear":
		if b.kind > kMset {
			return
		}
		t.Tracef("Clear()")
		t.Must("Clear", func() { b.h.Clear() })
		b.m = newKVModel()
	}
}

func (b *kvBox) read(t *Task, op *Op) {
	switch op.K {
	case "rget":
		b.get1(t, b.key(op.Arg(0), op.Arg(1)), op.Arg(2))
	case "rgets":
		for i := 0; i < 6; i++ {
			if b.get1(t, b.key(op.Arg(0)+i, op.Arg(1)), i) {
				return
			}
		}
	case "rsize":
		var n int
		t.Must("Size", func() { n = b.h.Size() })
		if n != b.m.size() {
			t.Fail("Size() = %d, want %d", n, b.m.size())
		}
	case "reach":
		b.each(t)
	case "rheight":
		b.height(t)
	}
}

// checkAVLHeight compares a reported height with the AVL bound: a tree of height h
// holds at least fib(h+3)-1 and at most 2^h-1 nodes.
func checkAVLHeight(t *Task, h, n int) {
	a, c := 0, 1 // minimal sizes of heights 0 and 1
	for i := 0; i < h; i++ {
		a, c = c, a+c+1
	}
	if n < a || h < 62 && n > 1<<h-1 || n > 0 && h == 0 {
		t.Fail("Height() = %d for %d entries is outside the AVL bound", h, n)
	}
}

func (b *kvBox) get1(t *Task, k, tag int) bool {
	var v int
	var ok bool
	if t.Must("Get", func() { v, ok = b.h.Get(k, tag) }) {
		return true
	}
	if t.Tracing() {
		t.Tracef("Get(%d) = %d, %v", k, v, ok)
	}
	want, had := b.m.vals[k], b.m.ks.has(k)
	if ok != had || ok && v != want {
		t.Fail("Get(%d) = (%d,%v), want (%d,%v)", k, v, ok, want, had)
	}
	if !ok && v != 0 {
		t.Fail("Get(%d) of an absent key returned value %d", k, v)
	}
	return false
}

func (b *kvBox) each(t *Task) {
	var got []int
	seen := map[int]bool{}
	abort := t.Must("Each", func() {
		b.h.Each(func(k, v int) {
			if !b.m.ks.has(k) || b.m.vals[k] != v {
				t.Fail("Each visited (%d,%d), which is not an entry (want present=%v value %d)", k, v, b.m.ks.has(k), b.m.vals[k])
			}
			if seen[k] {
				t.Fail("Each visited key %d twice", k)
			}
			seen[k] = true
			got = append(got, k)
			t.Visit()
		})
	})
	if t.Tracing() {
		t.Tracef("Each = %s (complete: %v)", show(got), !abort)
	}
	if !abort && len(got) != b.m.size() {
		t.Fail("Each visited %d of %d entries", len(got), b.m.size())
	}
	if b.ordered {
		b.checkPrefix(t, got)
	}
}

func (b *kvBox) checkPrefix(t *Task, got []int) {
	want := append([]int(nil), b.m.ks.ids...)
	sort.Slice(want, func(i, j int) bool { return b.cmp(want[i], want[j]) })
	for i := range got {
		if got[i] != want[i] {
			t.Fail("Each visited key %d at position %d, want %d", got[i], i, want[i])
		}
	}
}

func (b *kvBox) check(t *Task) {
	b.each(t)
	var n int
	t.Must("Size", func() { n = b.h.Size() })
	if n != b.m.size() {
		t.Fail("Size() = %d, but %d entries are live", n, b.m.size())
	}
	step := 1 + len(b.m.ks.ids)/100
	for i := len(b.m.ks.ids) % step; i < len(b.m.ks.ids); i += step {
		b.get1(t, b.m.ks.ids[i], i)
	}
	for k := 0; k < b.univ+1; k += 1 + b.univ/40 {
		if !b.m.ks.has(k) {
			b.get1(t, k, 0)
		}
	}
	b.height(t)
}

func (b *kvBox) height(t *Task) {
	var h int
	t.Must("Height", func() { h = b.h.Height() })
	if h >= 0 {
		checkAVLHeight(t, h, b.m.size())
	}
}

func (b *kvBox) String() string { return fmt.Sprint(b.m.ks.sorted()) }

func initKeys(r *engine.Run) []int {
	var init []int
	for i := 0; i < r.Cfg("init"); i++ {
		init = append(init, i*i+r.Cfg("ord"))
	}
	return init
}

func genKV(g *Gen, kinds ...int) {
	genKVCfg(g, kinds...)
	n := 30
	if g.P.Cfg["big"] > 0 {
		n = 12
	}
	g.ops(kvSpecs, 4, n)
	if u := g.P.Cfg["big"]; g.P.Cfg["full"] > 0 {
		g.fill("wbulkput", g.Intn(1<<20), g.Pick(1, 1, 7, -1), g.most(u), g.Intn(1<<16))
	}
}

func newLockedKV(r *engine.Run) engine.Instance {
	return &locked{b: cfgKV(r, initKeys(r))}
}

func init() {
	register(&WL{Name: "hash", Pkgs: []string{"hashmap", "hashset", "mapset"}, Gen: func(g *Gen) { genKV(g, kHmap, kHmap, kHset, kMset) }, New: newLockedKV})
	register(&WL{Name: "tree", Pkgs: []string{"avl", "btree"}, Gen: func(g *Gen) { genKV(g, kAvl, kBtree) }, New: newLockedKV})
	register(&WL{Name: "kvfault", Pkgs: []string{"hashmap", "hashset", "avl", "btree"}, Gen: func(g *Gen) { genKV(g, kHmap, kHmap, kHset, kAvl, kAvl, kBtree) }, New: newLockedKV})
	register(&WL{Name: "cow", Pkgs: []string{"hashmap", "hashset"}, Gen: genCow, New: newCow})
	Props["C04"] = []Use{{WL: "hash", Weight: 1, Tune: func(g *Gen) { g.MapOrd = 60 }}}
	Props["C05"] = []Use{{WL: "tree", Weight: 1}}
	Props["C01"] = []Use{{WL: "cow", Weight: 1}}
}

// spoil overwrites arguments of a constructor, which remain the caller's.
func spoil[K any](ks []K, ids []int, c *codec[K]) {
	for i := range ks {
		unchanged(c.dec(ks[i]) == ids[i])
	}
	ks = ks[:cap(ks)]
	for i := range ks {
		ks[i] = c.enc(1<<18+i, 0)
	}
}

func unchanged(ok bool) {
	if !ok {
		panic("the arguments of a constructor were changed by it")
	}
}
