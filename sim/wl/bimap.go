package wl

import (
	"github.com/zyedidia/generic/bimap"
	"verifsim/engine"
)

type bmh interface {
	Len() int
	Add(k, v int)
	RemoveForward(k int)
	RemoveReverse(v int)
	Each(fn func(k, v int))
	ContainsForward(k int) bool
	GetForward(k int) (int, bool)
	ContainsReverse(v int) bool
	GetReverse(v int) (int, bool)
	Clear()
	Copy() bmh
}

type bmT[K, V comparable] struct {
	b  *bimap.Bimap[K, V]
	ck *codec[K]
	cv *codec[V]
}

func (h bmT[K, V]) Len() int                   { return h.b.Len() }
func (h bmT[K, V]) Add(k, v int)               { h.b.Add(h.ck.enc(k, 0), h.cv.enc(v, 0)) }
func (h bmT[K, V]) RemoveForward(k int)        { h.b.RemoveForward(h.ck.enc(k, 0)) }
func (h bmT[K, V]) RemoveReverse(v int)        { h.b.RemoveReverse(h.cv.enc(v, 0)) }
func (h bmT[K, V]) ContainsForward(k int) bool { return h.b.ContainsForward(h.ck.enc(k, 0)) }
func (h bmT[K, V]) ContainsReverse(v int) bool { return h.b.ContainsReverse(h.cv.enc(v, 0)) }
func (h bmT[K, V]) Clear()                     { h.b.Clear() }
func (h bmT[K, V]) Each(fn func(k, v int)) {
	h.b.Each(func(k K, v V) { fn(h.ck.dec(k), h.cv.dec(v)) })
}
func (h bmT[K, V]) GetForward(k int) (int, bool) {
	v, ok := h.b.GetForward(h.ck.enc(k, 0))
	if !ok {
		return 0, false
	}
	return h.cv.dec(v), true
}
func (h bmT[K, V]) GetReverse(v int) (int, bool) {
	k, ok := h.b.GetReverse(h.cv.enc(v, 0))
	if !ok {
		return 0, false
	}
	return h.ck.dec(k), true
}
func (h bmT[K, V]) Copy() bmh {
	c := h.b.Copy()
	return bmT[K, V]{&c, h.ck, h.cv}
}

type bmBox struct {
	h     bmh
	f, r  map[int]int
	ks    *keyset
	univ  int
	vuniv int
	init  map[int]int
}

func newBM[K, V comparable](ck *codec[K], cv *codec[V], init map[int]int) bmh {
	if init != nil {
		m := map[K]V{}
		for k, v := range init {
			m[ck.enc(k, 0)] = cv.enc(v, 0)
		}
		b := bimap.Of(m)
		unchanged(len(m) == len(init))
		for k, v := range init { // the map is the caller's
			unchanged(m[ck.enc(k, 0)] == cv.enc(v, 0))
			if k%2 == 0 {
				delete(m, ck.enc(k, 0))
			} else {
				m[ck.enc(k, 0)] = cv.enc(1<<20, 0)
			}
		}
		m[ck.enc(1<<20, 0)] = cv.enc(1<<20+1, 0)
		return bmT[K, V]{&b, ck, cv}
	}
	var none *bimap.Bimap[K, V]
	if none.Len() != 0 {
		panic("the Len of no map is not zero")
	}
	return bmT[K, V]{&bimap.Bimap[K, V]{}, ck, cv}
}

func newBmBox(r *engine.Run) *bmBox {
	b := &bmBox{f: map[int]int{}, r: map[int]int{}, ks: newKeyset(), univ: r.Cfg("univ"), vuniv: r.Cfg("vuniv")}
	if b.univ < 1 {
		b.univ = 1
	}
	if b.vuniv < 1 {
		b.vuniv = 1
	}
	if n := r.Cfg("init"); n > 0 {
		b.init = map[int]int{}
		for i := 0; i < n; i++ {
			b.init[i*3%b.univ] = (i*5 + r.Cfg("enc")) % b.vuniv
		}
	}
	switch r.Cfg("key") {
	case 0:
		b.h = newBM(intCodec(r.Cfg("enc"), 0, 0), intCodec(r.Cfg("enc")/2, 0, 0), b.init)
	case 1:
		b.h = newBM(strCodec(r.Cfg("enc"), 0, 0), intCodec(0, 0, 0), b.init)
	default:
		b.h = newBM(intCodec(1, 0, 0), strCodec(r.Cfg("enc"), 0, 0), b.init)
	}
	if b.init != nil {
		b.adopt(r.Main())
	}
	return b
}

// adopt takes over what Of made of a map in which values repeat: any bijection that
// holds every value, with pairs from the map.
func (b *bmBox) adopt(t *Task) {
	b.h.Each(func(k, v int) {
		if w, ok := b.init[k]; !ok || w != v {
			t.Fail("Of made a pair (%d,%d) that the map does not have", k, v)
		}
		if b.ks.has(k) {
			t.Fail("Of: key %d twice", k)
		}
		if _, ok := b.r[v]; ok {
			t.Fail("Of: value %d has two keys", v)
		}
		b.f[k], b.r[v] = v, k
		b.ks.add(k)
	})
	for _, v := range b.init {
		if _, ok := b.r[v]; !ok {
			t.Fail("Of lost value %d", v)
		}
	}
	b.check(t)
}

var bmSpecs = []Spec{
	{K: "wadd", W: 34, SW: 4, Args: argBM, NoF: true},
	{K: "wremf", W: 12, SW: 1, Args: argBM, NoF: true},
	{K: "wremr", W: 12, SW: 1, Args: argBM, NoF: true},
	{K: "wclear", W: 2, Args: argBM, NoF: true},
	{K: "wbulkadd", W: 3, SW: 8, Args: argBM, NoF: true},
	{K: "rgetf", W: 10, Args: argBM, NoF: true},
	{K: "rgetr", W: 10, Args: argBM, NoF: true},
	{K: "rhasf", W: 5, Args: argBM, NoF: true},
	{K: "rhasr", W: 5, Args: argBM, NoF: true},
	{K: "rlen", W: 5, Args: argBM, NoF: true},
	{K: "reach", W: 8, Args: argBM, Vis: true},
	{K: "rcopy", W: 3, Args: argBM, NoF: true},
}

func argBM(g *Gen) []int {
	return []int{g.Intn(1 << 20), g.Intn(8), g.Intn(1 << 16), g.Intn(8), g.Intn(16)}
}

func genBMCfg(g *Gen) {
	g.set("key", g.Intn(3))
	g.set("enc", g.Intn(12))
	g.set("univ", g.Pick(1, 2, 3, 4, 6, 12, 30))
	g.set("vuniv", g.Pick(1, 2, 3, 4, 6, 12, 30))
	g.set("init", g.Pick(0, 0, 3, 7, 20))
	if n := g.huge(20, 300, 1000, 3000); n > 0 {
		n = g.giant(n, 20000, 40)
		g.set("univ", n)
		g.set("vuniv", g.Pick(n, n, n/2, 2*n))
	}
}

func fillBM(g *Gen) {
	if n := g.P.Cfg["big"]; n > 0 {
		g.fill("wbulkadd", g.Intn(1<<20), 0, g.most(n), -1, 0)
	}
}

func (b *bmBox) key(raw, mode int) int {
	if mode >= 4 && len(b.ks.ids) > 0 {
		return b.ks.ids[abs(raw)%len(b.ks.ids)]
	}
	return abs(raw) % b.univ
}

func (b *bmBox) val(raw, mode int) int {
	if mode >= 4 && len(b.ks.ids) > 0 {
		return b.f[b.ks.ids[abs(raw)%len(b.ks.ids)]]
	}
	return abs(raw) % b.vuniv
}

func (b *bmBox) drop(k int) {
	if v, ok := b.f[k]; ok {
		delete(b.f, k)
		delete(b.r, v)
		b.ks.del(k)
	}
}

func (b *bmBox) add(t *Task, k, v int) {
	if t.Tracing() {
		t.Tracef("Add(%d, %d)", k, v)
	}
	t.Must("Add", func() { b.h.Add(k, v) })
	b.drop(k)
	if o, ok := b.r[v]; ok {
		b.drop(o)
	}
	b.f[k], b.r[v] = v, k
	b.ks.add(k)
}

func (b *bmBox) write(t *Task, op *Op) {
	k, v := b.key(op.Arg(0), op.Arg(1)), b.val(op.Arg(2), op.Arg(3))
	switch op.K {
	case "wadd":
		b.add(t, k, v)
	case "wbulkadd":
		n, m := op.Arg(2)%20, 3
		if op.Arg(3) < 0 { // the filling of a huge one
			n, m = op.Arg(2), 1
		}
		for i := 0; i < n; i++ {
			b.add(t, (op.Arg(0)+i)%b.univ, (op.Arg(2)+i*m)%b.vuniv)
		}
	case "wremf":
		t.Tracef("RemoveForward")
		t.Must("RemoveForward", func() { b.h.RemoveForward(k) })
		b.drop(k)
	case "wremr":
		t.Tracef("RemoveReverse")
		t.Must("RemoveReverse", func() { b.h.RemoveReverse(v) })
		if o, ok := b.r[v]; ok {
			b.drop(o)
		}
	case "wclear":
		t.Must("Clear", func() { b.h.Clear() })
		b.f, b.r, b.ks = map[int]int{}, map[int]int{}, newKeyset()
	}
}

func (b *bmBox) getf(t *Task, k int) {
	var v int
	var ok, has bool
	t.Must("GetForward", func() { v, ok = b.h.GetForward(k) })
	t.Must("ContainsForward", func() { has = b.h.ContainsForward(k) })
	w, had := b.f[k]
	if ok != had || ok && v != w || has != had {
		t.Fail("GetForward(%d) = (%d,%v), ContainsForward = %v, want (%d,%v)", k, v, ok, has, w, had)
	}
}

func (b *bmBox) getr(t *Task, v int) {
	var k int
	var ok, has bool
	t.Must("GetReverse", func() { k, ok = b.h.GetReverse(v) })
	t.Must("ContainsReverse", func() { has = b.h.ContainsReverse(v) })
	w, had := b.r[v]
	if ok != had || ok && k != w || has != had {
		t.Fail("GetReverse(%d) = (%d,%v), ContainsReverse = %v, want (%d,%v)", v, k, ok, has, w, had)
	}
}

func (b *bmBox) each(t *Task) {
	seen := map[int]bool{}
	abort := t.Must("Each", func() {
		b.h.Each(func(k, v int) {
			if w, ok := b.f[k]; !ok || w != v || seen[k] {
				t.Fail("Each visited (%d,%d): not a pair, or visited before", k, v)
			}
			seen[k] = true
			t.Visit()
		})
	})
	if !abort && len(seen) != len(b.f) {
		t.Fail("Each visited %d of %d pairs", len(seen), len(b.f))
	}
}

func (b *bmBox) read(t *Task, op *Op) {
	switch op.K {
	case "rgetf", "rhasf":
		b.getf(t, b.key(op.Arg(0), op.Arg(1)))
	case "rgetr", "rhasr":
		b.getr(t, b.val(op.Arg(0), op.Arg(1)))
	case "rlen":
		b.len(t)
	case "rcopy": // copying is reading
		n := b.dup(t)
		n.check(t)
		n.write(t, &Op{K: "wadd", A: op.A})
		n.write(t, &Op{K: "wremf", A: op.A})
		n.check(t)
	case "reach":
		b.each(t)
	}
}

func (b *bmBox) len(t *Task) {
	var n int
	t.Must("Len", func() { n = b.h.Len() })
	if n != len(b.f) {
		t.Fail("Len() = %d, want %d", n, len(b.f))
	}
}

func (b *bmBox) check(t *Task) {
	b.each(t)
	b.len(t)
	for k := 0; k <= b.univ; k++ {
		b.getf(t, k)
	}
	for v := 0; v <= b.vuniv; v++ {
		b.getr(t, v)
	}
}

func (b *bmBox) dup(t *Task) copyable {
	n := &bmBox{f: map[int]int{}, r: map[int]int{}, ks: b.ks.clone(), univ: b.univ, vuniv: b.vuniv}
	for k, v := range b.f {
		n.f[k], n.r[v] = v, k
	}
	t.Must("Copy", func() { n.h = b.h.Copy() })
	return n
}

func init() {
	register(&WL{Name: "bimap", Pkgs: []string{"bimap"}, Gen: func(g *Gen) {
		genBMCfg(g)
		g.ops(bmSpecs, 4, 30)
		fillBM(g)
	},
		New: func(r *engine.Run) engine.Instance { return &locked{b: newBmBox(r)} }})
	Props["C08"] = []Use{{WL: "bimap", Weight: 1, Tune: func(g *Gen) { g.MapOrd = 50 }}}
}
