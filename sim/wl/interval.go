package wl

import (
	"math"
	"sort"
	"strconv"

	"github.com/zyedidia/generic/interval"
	"golang.org/x/exp/constraints"
	"verifsim/engine"
)

type ival struct{ lo, hi, v int }

type ivh interface {
	Add(lo, hi, v int) (ival, bool)
	Put(lo, hi, v int) (ival, bool)
	Remove(lo int) (ival, bool)
	Get(lo int) (ival, bool)
	Overlaps(t *Task, op *Op, lo, hi int) []ival
	Each(fn func(lo, hi, v int))
	Size() int
	Height() int
}

type ivT[I constraints.Ordered, V any] struct {
	t   *interval.Tree[I, V]
	v   *vcodec[V]
	enc func(int) I
	dec func(I) int
}

func (h ivT[I, V]) kv(k interval.KV[I, V], ok bool) (ival, bool) {
	if !ok {
		return ival{}, false
	}
	return ival{h.dec(k.Low), h.dec(k.High), h.v.dec(k.Val)}, true
}
func (h ivT[I, V]) Add(lo, hi, v int) (ival, bool) {
	return h.kv(h.t.Add(h.enc(lo), h.enc(hi), h.v.enc(v)))
}
func (h ivT[I, V]) Put(lo, hi, v int) (ival, bool) {
	return h.kv(h.t.Put(h.enc(lo), h.enc(hi), h.v.enc(v)))
}
func (h ivT[I, V]) Remove(lo int) (ival, bool) { return h.kv(h.t.Remove(h.enc(lo))) }
func (h ivT[I, V]) Get(lo int) (ival, bool)    { return h.kv(h.t.Get(h.enc(lo))) }
func (h ivT[I, V]) Size() int                  { return h.t.Size() }
func (h ivT[I, V]) Height() int                { return h.t.Height() }
func (h ivT[I, V]) Each(fn func(lo, hi, v int)) {
	h.t.Each(func(lo, hi I, v V) { fn(h.dec(lo), h.dec(hi), h.v.dec(v)) })
}
func (h ivT[I, V]) Overlaps(t *Task, op *Op, lo, hi int) []ival {
	r := h.t.Overlaps(h.enc(lo), h.enc(hi))
	var out []ival
	for _, k := range r {
		out = append(out, ival{h.dec(k.Low), h.dec(k.High), h.v.dec(k.Val)})
	}
	if op != nil {
		keepSlice(t, op, "Overlaps", r, func(a, b interval.KV[I, V]) bool { return a.Low == b.Low && a.High == b.High && h.v.eq(a.Val, b.Val) },
			func(i int) interval.KV[I, V] {
				return interval.KV[I, V]{Low: h.enc(7), High: h.enc(3), Val: h.v.enc(-1 - i)}
			})
	}
	return out
}

type ivBox struct {
	h    ivh
	m    map[int]ival
	ks   *keyset
	univ int
	wide int // the length of long intervals
	rare int // one of so many is long
}

func newIvBox(r *engine.Run) *ivBox {
	b := &ivBox{m: map[int]ival{}, ks: newKeyset(), univ: r.Cfg("univ")}
	if b.univ < 1 {
		b.univ = 1
	}
	b.wide, b.rare = r.Cfg("wide"), max(1, r.Cfg("rare"))
	switch r.Cfg("val") {
	case 1:
		b.h = newIvT(r.Cfg("bound"), vStr)
	case 2:
		b.h = newIvT(r.Cfg("bound"), vBlob)
	case 3:
		b.h = newIvT(r.Cfg("bound"), vAny)
	default:
		b.h = newIvT(r.Cfg("bound"), vInt)
	}
	return b
}

func newIvT[V any](bound int, v *vcodec[V]) ivh {
	switch bound {
	case 0:
		return ivT[int, V]{interval.New[int, V](), v, func(i int) int { return i }, func(i int) int { return i }}
	case 1:
		return ivT[int, V]{interval.New[int, V](), v, func(i int) int { return i*3 - 1000 }, func(i int) int { return (i + 1000) / 3 }}
	case 2:
		return ivT[float64, V]{interval.New[float64, V](), v, func(i int) float64 { return float64(i)/4 - 3 }, func(f float64) int { return int((f + 3) * 4) }}
	case 5:
		return ivT[int, V]{interval.New[int, V](), v, func(i int) int { return math.MinInt + i }, func(i int) int { return i - math.MinInt }}
	case 3:
		return ivT[string, V]{interval.New[string, V](), v,
			func(i int) string { return strconv.Itoa(1_000_100 + i) },
			func(s string) int { n, _ := strconv.Atoi(s); return n - 1_000_100 }}
	}
	return ivT[uint8, V]{interval.New[uint8, V](), v, func(i int) uint8 { return uint8(i) }, func(i uint8) int { return int(i) }}
}

func argIv(g *Gen) []int {
	l := g.Pick(1, 1, 2, 3, 5, 10, 30, 1000)
	if g.pc(12) {
		l = 0
	}
	return []int{g.Intn(1 << 20), g.Intn(8), l, g.Intn(1 << 16)}
}

var ivSpecs = []Spec{
	{K: "wadd", W: 16, SW: 3, Args: argIv, NoF: true},
	{K: "wput", W: 20, SW: 3, Args: argIv, NoF: true},
	{K: "wrem", W: 20, SW: 1, Args: argIv, NoF: true},
	{K: "wbulkput", W: 3, SW: 8, Args: func(g *Gen) []int {
		m := 40
		if b := g.P.Cfg["big"]; b > 0 {
			m = b
		}
		return []int{g.Intn(1 << 20), g.Pick(1, 1, 2, 3, 5, -1), g.Log(m), g.Pick(1, 2, 3, 7, 20), g.Intn(1 << 16)}
	}, NoF: true},
	{K: "wbulkrem", W: 3, SW: 2, Args: func(g *Gen) []int {
		return []int{g.Intn(1 << 20), g.Pick(1, 1, 2, 3, -1), g.Log(60), 0, 0}
	}, NoF: true},
	{K: "wbad", W: 1, Args: argIv, NoF: true},
	{K: "rbad", W: 1, Args: argIv, NoF: true},
	{K: "rget", W: 12, Args: argIv, NoF: true},
	{K: "rover", W: 24, Args: argIv, NoF: true, Keeps: true},
	{K: "reach", W: 8, Vis: true},
	{K: "rsize", W: 5, NoF: true},
	{K: "rheight", W: 5, NoF: true},
}

func genIv(g *Gen) {
	genVal(g)
	g.set("bound", g.Pick(0, 0, 1, 2, 3, 4, 5))
	u := g.Pick(1, 2, 4, 8, 8, 16, 16, 30, 60)
	if g.pc(8) && !g.Race {
		u = 100
		g.set("big", 100)
		if b := g.P.Cfg["bound"]; b != 4 && g.pc(60) {
			u = 600
			g.set("big", 600)
		}
	}
	n := 0
	if g.P.Cfg["bound"] != 4 {
		if n = g.huge(12, 1500, 3000); n > 0 {
			n = g.giant(n, 12000, 40)
			u = n
		}
	}
	g.set("univ", u)
	if g.P.Cfg["bound"] == 4 {
		g.set("wide", g.Pick(0, 0, 50, 100))
	} else {
		g.set("wide", g.Pick(0, u/2, u, 2*u))
	}
	g.set("rare", g.Pick(3, 7, 17, 50, 211))
	g.ops(withKept(g, ivSpecs), 4, 30)
	if n > 0 {
		g.fill("wbulkput", g.Intn(1<<20), g.Pick(1, 1, 7, -1), g.most(n), g.Pick(1, 7, 20, 60), g.Intn(1<<16))
	}
}

// withKept adds the operations on retained results if the property wants them.
func withKept(g *Gen, s []Spec) []Spec {
	if g.Keep == 0 {
		return s
	}
	return append(append([]Spec{}, s...), Spec{K: "ukept", W: 40, Args: argKept, NoF: true})
}

func (b *ivBox) lo(raw, mode int) int {
	if mode >= 4 && len(b.ks.ids) > 0 {
		return b.ks.ids[abs(raw)%len(b.ks.ids)]
	}
	return abs(raw) % b.univ
}

// length of an operation's interval; in a big tree some are long.
func (b *ivBox) length(op *Op) int {
	if b.wide > 0 && op.Arg(3)%3 == 0 {
		return (op.Arg(2)*97 + op.Arg(3)) % b.wide
	}
	return op.Arg(2) % 100
}

func (b *ivBox) insert(t *Task, lo, hi, v int, replace bool) {
	var old ival
	var ok bool
	switch {
	case v%16 == 5:
		v = 0
	case v%8 == 1:
		v = b.m[lo].v // perhaps nothing changes, or only the end does
	}
	name := "Add"
	if replace {
		name = "Put"
	}
	t.Must(name, func() {
		if replace {
			old, ok = b.h.Put(lo, hi, v)
		} else {
			old, ok = b.h.Add(lo, hi, v)
		}
	})
	if t.Tracing() {
		t.Tracef("%s(%d, %d, %d) = %v, %v", name, lo, hi, v, old, ok)
	}
	want, had := b.m[lo]
	if ok != had || ok && old != want {
		t.Fail("%s(%d,%d) returned (%v,%v), want (%v,%v)", name, lo, hi, old, ok, want, had)
	}
	if replace || !had {
		b.m[lo] = ival{lo, hi, v}
		b.ks.add(lo)
	}
}

func (b *ivBox) remove(t *Task, lo int) {
	var old ival
	var ok bool
	t.Must("Remove", func() { old, ok = b.h.Remove(lo) })
	if t.Tracing() {
		t.Tracef("Remove(%d) = %v, %v", lo, old, ok)
	}
	want, had := b.m[lo]
	if ok != had || ok && old != want {
		t.Fail("Remove(%d) returned (%v,%v), want (%v,%v)", lo, old, ok, want, had)
	}
	delete(b.m, lo)
	b.ks.del(lo)
}

func (b *ivBox) write(t *Task, op *Op) {
	switch op.K {
	case "wadd", "wput":
		lo := b.lo(op.Arg(0), op.Arg(1))
		b.insert(t, lo, lo+b.length(op), op.Arg(3), op.K == "wput")
	case "wrem":
		b.remove(t, b.lo(op.Arg(0), op.Arg(1)))
	case "wbulkput":
		for i := 0; i < op.Arg(2); i++ {
			lo := abs(op.Arg(0)+i*op.Arg(1)) % b.univ
			n := (i*7 + op.Arg(3)) % (op.Arg(3) + 1)
			if (i*i*i+op.Arg(4))%b.rare == 0 && b.wide > 0 {
				n = op.Arg(3) + (i*op.Arg(4))%b.wide // a few long ones
			}
			b.insert(t, lo, lo+n, op.Arg(4)+i, i%2 == 0)
		}
	case "wbulkrem":
		for i := 0; i < op.Arg(2); i++ {
			b.remove(t, abs(op.Arg(0)+i*op.Arg(1))%b.univ)
			for j := 0; j < 4 && op.Arg(0)%2 == 0 && len(b.ks.ids) > 0; j++ {
				// a later write may hide what this one did
				w := b.m[b.ks.ids[(op.Arg(0)+i*31+j*j*17)%len(b.ks.ids)]]
				b.over(t, nil, max(w.lo, w.hi-1), w.hi)
			}
		}
	case "wbad":
		lo := b.lo(op.Arg(0), op.Arg(1))
		_, p := t.Call(func() {
			if op.Arg(3)%2 == 0 {
				b.h.Add(lo+1+op.Arg(2)%100, lo, 5)
			} else {
				b.h.Put(lo+1+op.Arg(2)%100, lo, 5)
			}
		})
		if !p {
			t.Fail("an interval with low > high was accepted")
		}
		b.check(t)
	}
}

func (b *ivBox) read(t *Task, op *Op) {
	switch op.K {
	case "rget":
		b.get(t, b.lo(op.Arg(0), op.Arg(1)))
	case "rover":
		lo := abs(op.Arg(0)) % (b.univ + 4)
		if op.Arg(3)%3 == 0 && len(b.ks.ids) > 0 {
			// the edges of a stored one
			w := b.m[b.ks.ids[op.Arg(0)%len(b.ks.ids)]]
			b.over(t, op, max(w.lo, w.hi-1), w.hi)
			b.over(t, nil, w.hi, w.hi+1)
			return
		}
		b.over(t, op, lo, lo+op.Arg(2)%100)
	case "rbad":
		lo := b.lo(op.Arg(0), op.Arg(1))
		if _, p := t.Call(func() { b.h.Overlaps(t, nil, lo+1+op.Arg(2)%100, lo) }); !p {
			t.Fail("Overlaps with low > high did not panic")
		}
	case "reach":
		b.each(t)
	case "rsize":
		b.size(t)
	case "rheight":
		b.height(t)
	}
}

func (b *ivBox) size(t *Task) {
	var n int
	t.Must("Size", func() { n = b.h.Size() })
	if n != len(b.m) {
		t.Fail("Size() = %d, want %d", n, len(b.m))
	}
}

func (b *ivBox) height(t *Task) {
	var n int
	t.Must("Height", func() { n = b.h.Height() })
	checkAVLHeight(t, n, len(b.m))
}

func (b *ivBox) get(t *Task, lo int) {
	var got ival
	var ok bool
	t.Must("Get", func() { got, ok = b.h.Get(lo) })
	want, had := b.m[lo]
	if ok != had || ok && got != want {
		t.Fail("Get(%d) = (%v,%v), want (%v,%v)", lo, got, ok, want, had)
	}
}

// over checks an overlap query. Empty intervals and empty ranges intersect nothing in
// the strict sense; whether they are reported when they lie inside is left open.
func (b *ivBox) over(t *Task, op *Op, lo, hi int) {
	var got []ival
	t.Must("Overlaps", func() { got = b.h.Overlaps(t, op, lo, hi) })
	if t.Tracing() {
		t.Tracef("Overlaps(%d, %d) = %s", lo, hi, show(got))
	}
	seen := map[int]bool{}
	for i, g := range got {
		if i > 0 && got[i-1].lo >= g.lo {
			t.Fail("Overlaps(%d,%d) is not sorted by start: %v", lo, hi, show(got))
		}
		if w, ok := b.m[g.lo]; !ok || w != g {
			t.Fail("Overlaps(%d,%d) contains %v, which is not stored", lo, hi, g)
		}
		if empty := g.lo == g.hi || lo == hi; empty && (g.lo > hi || g.hi < lo) || !empty && (g.lo >= hi || g.hi <= lo) {
			t.Fail("Overlaps(%d,%d) contains %v, which does not intersect it", lo, hi, g)
		}
		seen[g.lo] = true
	}
	if lo < hi {
		for _, k := range b.ks.ids {
			w := b.m[k]
			if w.lo < w.hi && w.lo < hi && w.hi > lo && !seen[k] {
				t.Fail("Overlaps(%d,%d) misses %v; it gave %s", lo, hi, w, show(got))
			}
		}
	}
}

func (b *ivBox) each(t *Task) {
	want := b.ks.sorted()
	i := 0
	abort := t.Must("Each", func() {
		b.h.Each(func(lo, hi, v int) {
			if i >= len(want) || b.m[want[i]] != (ival{lo, hi, v}) {
				t.Fail("Each visited (%d,%d,%d) at position %d; stored starts are %s", lo, hi, v, i, show(want))
			}
			i++
			t.Visit()
		})
	})
	if !abort && i != len(want) {
		t.Fail("Each visited %d of %d intervals", i, len(want))
	}
}

func (b *ivBox) check(t *Task) {
	b.each(t)
	b.size(t)
	b.height(t)
	for i, k := range b.ks.ids {
		if i < 60 || i%(1+len(b.ks.ids)/60) == 0 {
			b.get(t, k)
		}
	}
	n := b.univ + 2
	step := 1 + n/40
	for lo := 0; lo < n; lo += step {
		b.get(t, lo)
		b.over(t, nil, lo, lo+1+lo%7)
	}
	b.over(t, nil, 0, b.univ+99)
	b.far(t)
}

// far asks at the far ends of the longest intervals and of a sample.
func (b *ivBox) far(t *Task) {
	ids := append([]int(nil), b.ks.ids...)
	sort.Slice(ids, func(i, j int) bool {
		a, c := b.m[ids[i]], b.m[ids[j]]
		return a.hi-a.lo > c.hi-c.lo || a.hi-a.lo == c.hi-c.lo && a.lo < c.lo
	})
	for i, k := range ids {
		if w := b.m[k]; w.lo < w.hi && (i < 12 || i%(1+len(ids)/12) == 0) {
			b.over(t, nil, w.hi-1, w.hi)
			b.over(t, nil, w.lo, w.lo+1)
		}
	}
}

func init() {
	register(&WL{Name: "interval", Pkgs: []string{"interval"}, Gen: genIv, New: func(r *engine.Run) engine.Instance { return &locked{b: newIvBox(r)} }})
	Props["C06"] = []Use{{WL: "interval", Weight: 1}}
}
