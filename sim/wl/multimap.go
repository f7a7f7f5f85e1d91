package wl

import (
	"sort"

	"github.com/zyedidia/generic/multimap"
	"verifsim/engine"
)

// mmh is a multimap with ids for keys and values.
type mmh interface {
	Dimension() int
	Size() int
	Count(k int) int
	Has(k int) bool
	Get(t *Task, op *Op, k int) []int
	Put(k, v int)
	Remove(k, v int)
	RemoveAll(k int)
	Clear()
	Each(fn func(k, v int))
	EachAssociation(t *Task, op *Op, fn func(k int, vs []int))
}

type mmT[K, V any] struct {
	m  multimap.MultiMap[K, V]
	ck *codec[K]
	cv *codec[V]
}

func (h mmT[K, V]) Dimension() int  { return h.m.Dimension() }
func (h mmT[K, V]) Size() int       { return h.m.Size() }
func (h mmT[K, V]) Count(k int) int { return h.m.Count(h.ck.enc(k, 0)) }
func (h mmT[K, V]) Has(k int) bool  { return h.m.Has(h.ck.enc(k, 0)) }
func (h mmT[K, V]) Put(k, v int)    { h.m.Put(h.ck.enc(k, 0), h.cv.enc(v, 0)) }
func (h mmT[K, V]) Remove(k, v int) { h.m.Remove(h.ck.enc(k, 0), h.cv.enc(v, 0)) }
func (h mmT[K, V]) RemoveAll(k int) { h.m.RemoveAll(h.ck.enc(k, 0)) }
func (h mmT[K, V]) Clear()          { h.m.Clear() }
func (h mmT[K, V]) Each(fn func(k, v int)) {
	h.m.Each(func(k K, v V) { fn(h.ck.dec(k), h.cv.dec(v)) })
}
func (h mmT[K, V]) list(vs []V) []int {
	var out []int
	for _, v := range vs {
		out = append(out, h.cv.dec(v))
	}
	return out
}
func (h mmT[K, V]) keep(t *Task, op *Op, name string, vs []V) {
	if op != nil {
		keepSlice(t, op, name, vs, func(a, b V) bool { return h.cv.dec(a) == h.cv.dec(b) }, func(i int) V { return h.cv.enc(5000+i, 0) })
	}
}
func (h mmT[K, V]) Get(t *Task, op *Op, k int) []int {
	vs := h.m.Get(h.ck.enc(k, 0))
	h.keep(t, op, "Get", vs)
	return h.list(vs)
}
func (h mmT[K, V]) EachAssociation(t *Task, op *Op, fn func(k int, vs []int)) {
	h.m.EachAssociation(func(k K, vs []V) {
		h.keep(t, op, "EachAssociation", vs)
		fn(h.ck.dec(k), h.list(vs))
	})
}

type mmBox struct {
	h              mmh
	m              map[int][]int // values in order of insertion
	ks             *keyset
	n              int
	univ           int
	vuniv          int
	set            bool // values merge and are sorted
	sortedKeys     bool
	cmpK, cmpV     func(a, b int) bool
	callsK, callsV bool
}

const (
	mmMapSlice = iota
	mmMapSet
	mmAvlSlice
	mmAvlSet
)

func newMM[K, V comparable](kind int, ck *codec[K], cv *codec[V]) mmh {
	h := mmT[K, V]{ck: ck, cv: cv}
	switch kind {
	case mmMapSlice:
		h.m = multimap.NewMapSlice[K, V]()
	case mmMapSet:
		h.m = multimap.NewMapSet[K, V](cv.less)
	case mmAvlSlice:
		h.m = multimap.NewAvlSlice[K, V](ck.less)
	default:
		h.m = multimap.NewAvlSet[K, V](ck.less, cv.less)
	}
	return h
}

func newMMBox(r *engine.Run) *mmBox {
	kind, ord := r.Cfg("kind"), r.Cfg("ord")
	b := &mmBox{m: map[int][]int{}, ks: newKeyset(), univ: r.Cfg("univ"), vuniv: r.Cfg("vuniv")}
	if b.univ < 1 {
		b.univ = 1
	}
	if b.vuniv < 1 {
		b.vuniv = 1
	}
	b.set = kind == mmMapSet || kind == mmAvlSet
	b.sortedKeys = kind == mmAvlSlice || kind == mmAvlSet
	switch key := r.Cfg("key"); {
	case key == 3 && kind == mmAvlSlice:
		ck, cv := bagCodec(ord, 0), intCodec(r.Cfg("enc"), ord/2, 0)
		b.h, b.cmpK, b.cmpV = mmT[bagKey, int]{multimap.NewAvlSlice[bagKey, int](ck.less), ck, cv}, ck.cmp, cv.cmp
	case key == 3 && kind == mmAvlSet:
		ck, cv := bagCodec(ord, 0), bagCodec(ord/2, 0)
		b.h, b.cmpK, b.cmpV = mmT[bagKey, bagKey]{multimap.NewAvlSet[bagKey, bagKey](ck.less, cv.less), ck, cv}, ck.cmp, cv.cmp
	case key == 3 && kind == mmMapSet:
		ck, cv := tagCodec(ord, 0), bagCodec(ord/2, 0)
		b.h, b.cmpK, b.cmpV = mmT[tagged, bagKey]{multimap.NewMapSet[tagged, bagKey](cv.less), ck, cv}, ck.cmp, cv.cmp
	case key == 0 || key == 3:
		ck, cv := intCodec(r.Cfg("enc"), ord, 0), intCodec(r.Cfg("enc")/2, ord/2, 0)
		b.h, b.cmpK, b.cmpV = newMM(kind, ck, cv), ck.cmp, cv.cmp
	case key == 1:
		ck, cv := strCodec(r.Cfg("enc"), ord, 0), intCodec(0, ord/2, 0)
		b.h, b.cmpK, b.cmpV = newMM(kind, ck, cv), ck.cmp, cv.cmp
	default:
		ck, cv := intCodec(1, ord, 0), strCodec(r.Cfg("enc"), ord/2, 0)
		b.h, b.cmpK, b.cmpV = newMM(kind, ck, cv), ck.cmp, cv.cmp
	}
	return b
}

func argMM(g *Gen) []int {
	return []int{g.Intn(1 << 20), g.Intn(8), g.Intn(1 << 16), g.Intn(8)}
}

var mmSpecs = []Spec{
	{K: "wput", W: 30, SW: 4, Args: argMM},
	{K: "wrem", W: 22, SW: 1, Args: argMM},
	{K: "wremall", W: 4, SW: 1, Args: argMM},
	{K: "wclear", W: 1, NoF: true},
	{K: "wbulkput", W: 3, SW: 8, Args: argBulk(60), Cost: 20},
	{K: "wbulkrem", W: 3, SW: 2, Args: argBulk(60), Cost: 20},
	{K: "rget", W: 16, Args: argMM, Keeps: true},
	{K: "rcount", W: 10, Args: argMM},
	{K: "rhas", W: 6, Args: argMM},
	{K: "reach", W: 8, Vis: true, Cost: 1},
	{K: "rassoc", W: 8, Vis: true, Cost: 1, Keeps: true},
	{K: "rsize", W: 6, NoF: true},
	{K: "rdim", W: 6, NoF: true},
}

func genMM(g *Gen) {
	g.set("kind", g.Intn(4))
	g.set("ord", g.Intn(8))
	g.set("key", g.Pick(0, 0, 1, 1, 2, 2, 3))
	g.set("enc", g.Intn(12))
	g.set("univ", g.Pick(1, 2, 3, 4, 6, 12, 30))
	g.set("vuniv", g.Pick(1, 2, 3, 4, 8, 20))
	n := g.huge(12, 300, 1000, 2000)
	n = g.giant(n, 20000, 40)
	switch {
	case n > 0 && g.pc(50):
		g.set("univ", n)
		g.set("vuniv", g.Pick(1, 2, 5))
	case n > 0:
		n /= 2
		g.set("univ", g.Pick(1, 1, 2))
		g.set("vuniv", n)
	}
	g.ops(withKept(g, mmSpecs), 4, 30)
	if n > 0 {
		g.fill("wbulkput", g.Intn(1<<20), g.Pick(1, 1, 7, -1), g.most(n), g.Intn(1<<16))
	}
}

func (b *mmBox) key(raw, mode int) int {
	if mode >= 4 && len(b.ks.ids) > 0 {
		return b.ks.ids[abs(raw)%len(b.ks.ids)]
	}
	return abs(raw) % b.univ
}

func (b *mmBox) val(k, raw, mode int) int {
	if vs := b.m[k]; mode >= 4 && len(vs) > 0 {
		return vs[raw%len(vs)]
	}
	return abs(raw) % b.vuniv
}

func count(vs []int, v int) int {
	n := 0
	for _, x := range vs {
		if x == v {
			n++
		}
	}
	return n
}

func (b *mmBox) mput(k, v int) {
	if b.set && count(b.m[k], v) > 0 {
		return
	}
	b.m[k] = append(b.m[k], v)
	b.ks.add(k)
	b.n++
}

func (b *mmBox) mrem(k, v int) {
	for i, x := range b.m[k] {
		if x == v {
			b.m[k] = append(append([]int{}, b.m[k][:i]...), b.m[k][i+1:]...)
			b.n--
			if len(b.m[k]) == 0 {
				b.ks.del(k)
				delete(b.m, k)
			}
			return
		}
	}
}

func (b *mmBox) mremall(k int) {
	b.n -= len(b.m[k])
	delete(b.m, k)
	b.ks.del(k)
}

// settle decides whether an aborted write of key k took effect.
func (b *mmBox) settle(t *Task, k int, after func()) {
	t.Quiet()
	var got []int
	t.Must("Get", func() { got = b.h.Get(t, nil, k) })
	before := append([]int{}, b.m[k]...)
	if sameBag(got, before) {
		t.Add(engine.CAbortedBefore, 1)
	} else {
		after()
		if !sameBag(got, b.m[k]) {
			t.Fail("after an aborted write the values of key %d are %s; before they were %s, completed they would be %s", k, show(got), show(before), show(b.m[k]))
		}
		t.Add(engine.CAbortedAfter, 1)
	}
	b.check(t)
}

func sameBag(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	x, y := append([]int{}, a...), append([]int{}, b...)
	sort.Ints(x)
	sort.Ints(y)
	for i := range x {
		if x[i] != y[i] {
			return false
		}
	}
	return true
}

func (b *mmBox) do(t *Task, name string, k, v int, f func(), after func()) bool {
	if t.Tracing() {
		t.Tracef("%s(%d, %d)", name, k, v)
	}
	if t.Must(name, f) {
		b.settle(t, k, after)
		return true
	}
	after()
	return false
}

func (b *mmBox) write(t *Task, op *Op) {
	switch op.K {
	case "wput":
		k := b.key(op.Arg(0), op.Arg(1))
		v := b.val(k, op.Arg(2), op.Arg(3)-2)
		b.do(t, "Put", k, v, func() { b.h.Put(k, v) }, func() { b.mput(k, v) })
	case "wrem":
		k := b.key(op.Arg(0), op.Arg(1)+1)
		v := b.val(k, op.Arg(2), op.Arg(3)+1)
		b.do(t, "Remove", k, v, func() { b.h.Remove(k, v) }, func() { b.mrem(k, v) })
	case "wremall":
		k := b.key(op.Arg(0), op.Arg(1))
		b.do(t, "RemoveAll", k, 0, func() { b.h.RemoveAll(k) }, func() { b.mremall(k) })
	case "wclear":
		t.Tracef("Clear()")
		t.Must("Clear", func() { b.h.Clear() })
		b.m, b.ks, b.n = map[int][]int{}, newKeyset(), 0
	case "wbulkput", "wbulkrem":
		for i := 0; i < op.Arg(2); i++ {
			k := abs(op.Arg(0)+i*op.Arg(1)) % b.univ
			v := (op.Arg(3) + i*i) % b.vuniv
			var aborted bool
			if op.K == "wbulkput" {
				aborted = b.do(t, "Put", k, v, func() { b.h.Put(k, v) }, func() { b.mput(k, v) })
			} else {
				aborted = b.do(t, "Remove", k, v, func() { b.h.Remove(k, v) }, func() { b.mrem(k, v) })
			}
			if aborted {
				return
			}
		}
	}
}

func (b *mmBox) num(t *Task, name string, want int, f func() int) {
	var n int
	if t.Must(name, func() { n = f() }) {
		return
	}
	if n != want {
		t.Fail("%s = %d, want %d", name, n, want)
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// values checks the value list of a key.
func (b *mmBox) values(t *Task, name string, k int, got []int) {
	if !sameBag(got, b.m[k]) {
		t.Fail("%s gives values %s for key %d, want (in any order) %s", name, show(got), k, show(b.m[k]))
	}
	if b.set {
		for i := 1; i < len(got); i++ {
			if !b.cmpV(got[i-1], got[i]) {
				t.Fail("%s gives values %s for key %d out of order", name, show(got), k)
			}
		}
	}
}

func (b *mmBox) keysInOrder(t *Task, name string, got []int, complete bool) {
	seen := map[int]bool{}
	for i, k := range got {
		if !b.ks.has(k) || seen[k] {
			t.Fail("%s visits key %d, which is absent or was visited before: %s", name, k, show(got))
		}
		seen[k] = true
		if b.sortedKeys && i > 0 && !b.cmpK(got[i-1], k) {
			t.Fail("%s visits keys out of order: %s", name, show(got))
		}
	}
	if complete && len(got) != len(b.ks.ids) {
		t.Fail("%s visits %d of %d keys", name, len(got), len(b.ks.ids))
	}
	if b.sortedKeys && len(got) > 0 {
		want := append([]int(nil), b.ks.ids...)
		sort.Slice(want, func(i, j int) bool { return b.cmpK(want[i], want[j]) })
		for i := range got {
			if got[i] != want[i] {
				t.Fail("%s visits key %d where key %d is next", name, got[i], want[i])
			}
		}
	}
}

func (b *mmBox) read(t *Task, op *Op) {
	k := b.key(op.Arg(0), op.Arg(1))
	switch op.K {
	case "rget":
		b.get(t, op, k)
	case "rcount":
		b.num(t, "Count", len(b.m[k]), func() int { return b.h.Count(k) })
	case "rhas":
		b.num(t, "Has", b2i(len(b.m[k]) > 0), func() int { return b2i(b.h.Has(k)) })
	case "rsize":
		b.num(t, "Size", b.n, b.h.Size)
	case "rdim":
		b.num(t, "Dimension", len(b.ks.ids), b.h.Dimension)
	case "reach":
		b.each(t)
	case "rassoc":
		b.assoc(t, op)
	}
}

func (b *mmBox) get(t *Task, op *Op, k int) {
	var got []int
	if t.Must("Get", func() { got = b.h.Get(t, op, k) }) {
		return
	}
	if t.Tracing() {
		t.Tracef("Get(%d) = %s", k, show(got))
	}
	b.values(t, "Get", k, got)
}

func (b *mmBox) each(t *Task) {
	var keys []int
	vals := map[int][]int{}
	abort := t.Must("Each", func() {
		b.h.Each(func(k, v int) {
			if len(keys) == 0 || keys[len(keys)-1] != k {
				keys = append(keys, k)
			}
			vals[k] = append(vals[k], v)
			if count(vals[k], v) > count(b.m[k], v) {
				t.Fail("Each visits entry (%d,%d), which is not there or too often", k, v)
			}
			t.Visit()
		})
	})
	b.keysInOrder(t, "Each", keys, !abort)
	for i, k := range keys {
		if !abort || i < len(keys)-1 {
			b.values(t, "Each", k, vals[k])
		}
	}
}

func (b *mmBox) assoc(t *Task, op *Op) {
	var keys []int
	abort := t.Must("EachAssociation", func() {
		b.h.EachAssociation(t, op, func(k int, vs []int) {
			keys = append(keys, k)
			b.values(t, "EachAssociation", k, vs)
			t.Visit()
		})
	})
	b.keysInOrder(t, "EachAssociation", keys, !abort)
}

func (b *mmBox) check(t *Task) {
	b.each(t)
	b.assoc(t, nil)
	b.num(t, "Size", b.n, b.h.Size)
	b.num(t, "Dimension", len(b.ks.ids), b.h.Dimension)
	for k := 0; k <= b.univ; k++ {
		k := k
		b.get(t, nil, k)
		b.num(t, "Count", len(b.m[k]), func() int { return b.h.Count(k) })
		b.num(t, "Has", b2i(len(b.m[k]) > 0), func() int { return b2i(b.h.Has(k)) })
	}
}

func init() {
	register(&WL{Name: "multimap", Pkgs: []string{"multimap", "avl"}, Gen: genMM, New: func(r *engine.Run) engine.Instance { return &locked{b: newMMBox(r)} }})
	Props["C07"] = []Use{{WL: "multimap", Weight: 1, Tune: func(g *Gen) { g.MapOrd = 60 }}}
}
