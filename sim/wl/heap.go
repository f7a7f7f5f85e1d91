package wl

import "verifsim/engine"

type hitem struct{ p, id int }

type heapBox struct {
	h    heapI
	in   map[int]int // id -> priority
	ks   *keyset
	next int
	prio int
	ord  int
}

func newHeapBox(r *engine.Run) *heapBox {
	b := &heapBox{in: map[int]int{}, ks: newKeyset(), prio: r.Cfg("prio"), ord: r.Cfg("ord"), next: 1}
	if b.prio < 1 {
		b.prio = 1
	}
	n := r.Cfg("init")
	var items []hitem
	g := engine.NewRng(uint64(n*7 + b.prio))
	for i := 0; i < n; i++ {
		items = append(items, b.mk(g.Intn(b.prio)))
	}
	ctor := r.Cfg("ctor")
	switch r.Cfg("val") {
	case 1:
		b.h = newHeapT(ctor, b.ord, items, hint, hofInt)
	case 2:
		b.h = newHeapT(ctor, b.ord, items, hblob, hofBlob)
	case 3:
		b.h = newHeapT(ctor, b.ord, items, hany, hofAny)
	default:
		b.h = newHeapT(ctor, b.ord, items, hself, hself)
	}
	return b
}

func (b *heapBox) mk(p int) hitem {
	x := hitem{p, b.next}
	b.next++
	b.in[x.id] = p
	b.ks.add(x.id)
	return x
}

var heapSpecs = []Spec{
	{K: "wpush", W: 30, SW: 4, Args: argRaw},
	{K: "wpop", W: 26, SW: 1, Args: argRaw},
	{K: "wbulkpush", W: 2, SW: 8, Args: argBulk(40), Cost: 10},
	{K: "wbulkpop", W: 2, SW: 1, Args: argBulk(40), Cost: 10},
	{K: "rpeek", W: 16, Args: argRaw, NoF: true},
	{K: "rsize", W: 10, Args: argRaw, NoF: true},
}

func genHeap(g *Gen) {
	genVal(g)
	g.set("prio", g.Pick(1, 2, 3, 5, 10, 30, 200))
	g.set("ord", g.Pick(0, 0, 1, 2))
	g.set("ctor", g.Intn(3))
	g.set("init", g.Pick(0, 0, 1, 2, 3, 4, 7, 12, 30, 65))
	n := g.huge(12, 200, 700, 2000)
	n = g.giant(n, 10000, 40)
	if n > 0 {
		g.set("prio", g.Pick(5, 200, 4000))
		g.set("init", g.Pick(0, 100, n, n))
	}
	g.ops(heapSpecs, 4, 30)
	if n > 0 && g.P.Cfg["init"] < n {
		g.fill("wbulkpush", g.Intn(1<<20), g.Pick(1, 1, 7, -1, 0), g.most(n), 0)
	}
}

// took checks an item that came out.
func (b *heapBox) took(t *Task, name string, x hitem, ok bool) {
	if ok != (len(b.ks.ids) > 0) {
		t.Fail("%s() reports %v with %d items inside", name, ok, len(b.ks.ids))
	}
	if !ok {
		if x != (hitem{}) {
			t.Fail("%s() of an empty heap gives %v", name, x)
		}
		return
	}
	if p, in := b.in[x.id]; !in || p != x.p {
		t.Fail("%s() gives %v, which is not inside", name, x)
	}
	for _, id := range b.ks.ids {
		if orderOf(b.ord, b.in[id]) < orderOf(b.ord, x.p) {
			t.Fail("%s() gives priority %d while priority %d is inside", name, x.p, b.in[id])
		}
	}
}

func (b *heapBox) pop(t *Task) bool {
	var x hitem
	var ok bool
	if t.Must("Pop", func() { x, ok = b.h.Pop() }) {
		b.settle(t, hitem{}, false)
		return true
	}
	if t.Tracing() {
		t.Tracef("Pop() = %v, %v", x, ok)
	}
	b.took(t, "Pop", x, ok)
	delete(b.in, x.id)
	b.ks.del(x.id)
	return false
}

func (b *heapBox) push(t *Task, p int) bool {
	x := b.mk(p % b.prio)
	if t.Tracing() {
		t.Tracef("Push(%v)", x)
	}
	if t.Must("Push", func() { b.h.Push(x) }) {
		b.settle(t, x, true)
		return true
	}
	return false
}

// settle drains the heap after an aborted write, checks that what comes out is the
// state before or after the write, in order, and fills the heap again.
func (b *heapBox) settle(t *Task, x hitem, push bool) {
	t.Quiet()
	var n int
	t.Must("Size", func() { n = b.h.Size() })
	total := len(b.ks.ids)
	switch {
	case push && n == total-1:
		delete(b.in, x.id)
		b.ks.del(x.id)
		t.Add(engine.CAbortedBefore, 1)
	case push && n == total, !push && n == total-1:
		t.Add(engine.CAbortedAfter, 1)
	case !push && n == total:
		t.Add(engine.CAbortedBefore, 1)
	default:
		t.Fail("after an aborted write the heap has %d items, before it had %d", n, total)
	}
	if !push && n == total-1 {
		b.drainMissing(t)
		return
	}
	if x.id%4 == 1 {
		return // go on with the heap as it is
	}
	var out []hitem
	for i := 0; i < n; i++ {
		var y hitem
		var ok bool
		t.Must("Pop", func() { y, ok = b.h.Pop() })
		b.took(t, "Pop", y, ok)
		delete(b.in, y.id)
		b.ks.del(y.id)
		out = append(out, y)
	}
	for _, y := range out {
		y := y
		t.Must("Push", func() { b.h.Push(y) })
		b.in[y.id] = y.p
		b.ks.add(y.id)
	}
}

// drainMissing handles a pop that completed but lost its result to the panic: one item
// of minimal priority is gone.
func (b *heapBox) drainMissing(t *Task) {
	var out []hitem
	for {
		var y hitem
		var ok bool
		t.Must("Pop", func() { y, ok = b.h.Pop() })
		if !ok {
			break
		}
		out = append(out, y)
		if p, in := b.in[y.id]; !in || p != y.p {
			t.Fail("Pop() gives %v, which is not inside", y)
		}
		delete(b.in, y.id)
		b.ks.del(y.id)
		if len(out) > 1 && orderOf(b.ord, out[len(out)-2].p) > orderOf(b.ord, y.p) {
			t.Fail("items come out unordered after an aborted Pop: %s", show(out))
		}
	}
	if len(b.ks.ids) != 1 {
		t.Fail("after an aborted Pop %d items are lost", len(b.ks.ids))
	}
	lost := b.ks.ids[0]
	if len(out) > 0 && orderOf(b.ord, b.in[lost]) > orderOf(b.ord, out[0].p) {
		t.Fail("an aborted Pop lost an item that was not minimal")
	}
	delete(b.in, lost)
	b.ks.del(lost)
	for _, y := range out {
		y := y
		t.Must("Push", func() { b.h.Push(y) })
		b.in[y.id] = y.p
		b.ks.add(y.id)
	}
}

func (b *heapBox) write(t *Task, op *Op) {
	switch op.K {
	case "wpush":
		b.push(t, op.Arg(0))
	case "wpop":
		b.pop(t)
	case "wbulkpush":
		for i := 0; i < op.Arg(2); i++ {
			if b.push(t, abs(op.Arg(0)+i*op.Arg(1))) {
				return
			}
		}
	case "wbulkpop":
		for i := 0; i < op.Arg(2) && i <= len(b.ks.ids); i++ {
			if b.pop(t) {
				return
			}
		}
	}
}

func (b *heapBox) read(t *Task, op *Op) {
	switch op.K {
	case "rpeek":
		var x hitem
		var ok bool
		t.Must("Peek", func() { x, ok = b.h.Peek() })
		b.took(t, "Peek", x, ok)
	case "rsize":
		var n int
		t.Must("Size", func() { n = b.h.Size() })
		if n != len(b.ks.ids) {
			t.Fail("Size() = %d, want %d", n, len(b.ks.ids))
		}
	}
}

// check drains the heap.
func (b *heapBox) check(t *Task) {
	b.read(t, &Op{K: "rsize"})
	b.read(t, &Op{K: "rpeek"})
	for len(b.ks.ids) > 0 {
		b.pop(t)
	}
	b.read(t, &Op{K: "rsize"})
	b.pop(t)
}

func init() {
	register(&WL{Name: "heap", Pkgs: []string{"heap"}, Gen: genHeap, New: func(r *engine.Run) engine.Instance { return &locked{b: newHeapBox(r)} }})
	Props["C12"] = []Use{{WL: "heap", Weight: 1}}
}
