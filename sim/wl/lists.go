package wl

import (
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/ulist"
	"verifsim/engine"
)

// listBox is a linked list with its nodes in order, and nodes that were removed.
type listBox[V any] struct {
	v    *vcodec[V]
	dups int
	l    *list.List[V]
	m    []*list.Node[V]
	free []*list.Node[V]
	next int
}

func newListBox(r *engine.Run) box {
	switch r.Cfg("val") {
	case 1:
		return newListBoxOf(r, vStr)
	case 2:
		return newListBoxOf(r, vBlob)
	case 3:
		return newListBoxOf(r, vAny)
	}
	return newListBoxOf(r, vInt)
}

func newListBoxOf[V any](r *engine.Run, v *vcodec[V]) *listBox[V] {
	b := &listBox[V]{v: v, dups: r.Cfg("dups")}
	if r.Cfg("zero") > 0 {
		b.l = &list.List[V]{}
	} else {
		b.l = list.New[V]()
	}
	return b
}

func (b *listBox[V]) fresh() int { return fresh(&b.next, b.dups) }

// fresh gives the next value: another one each time, or one of a few.
func fresh(next *int, dups int) int {
	*next++
	if dups > 0 {
		return *next / 2 % dups
	}
	return *next
}

var listSpecs = []Spec{
	{K: "wpb", W: 8, SW: 6, Args: argRaw, NoF: true},
	{K: "wpf", W: 8, SW: 6, Args: argRaw, NoF: true},
	{K: "wpbn", W: 6, SW: 1, Args: argRaw, NoF: true},
	{K: "wpfn", W: 6, SW: 1, Args: argRaw, NoF: true},
	{K: "wbulk", W: 1, SW: 2, Args: argBulk(40), NoF: true},
	{K: "wia", W: 12, SW: 3, Args: argRaw, NoF: true},
	{K: "wib", W: 12, SW: 3, Args: argRaw, NoF: true},
	{K: "wrem", W: 26, SW: 2, Args: argRaw, NoF: true},
	{K: "wdrain", W: 2, SW: 1, Args: argRaw, NoF: true},
	{K: "wmove", W: 10, Args: argRaw, NoF: true},
	{K: "wset", W: 3, Args: argRaw, NoF: true},
	{K: "rends", W: 6, Args: argRaw, NoF: true},
	{K: "rlinks", W: 6, Args: argRaw, NoF: true},
	{K: "reach", W: 8, Args: argRaw, Vis: true},
	{K: "reachr", W: 8, Args: argRaw, Vis: true},
	{K: "reachn", W: 8, Args: argRaw, Vis: true},
	{K: "reachrn", W: 8, Args: argRaw, Vis: true},
}

// node gives a node to insert: a fresh one or one removed earlier.
func (b *listBox[V]) node(mode, raw int) *list.Node[V] {
	if k := len(b.free); mode >= 3 && k > 0 {
		i := raw % k
		n := b.free[i]
		b.free[i] = b.free[k-1]
		b.free = b.free[:k-1]
		return n
	}
	return &list.Node[V]{Value: b.v.enc(b.fresh())}
}

func (b *listBox[V]) insert(i int, n *list.Node[V]) {
	b.m = append(b.m, nil)
	copy(b.m[i+1:], b.m[i:])
	b.m[i] = n
}

func (b *listBox[V]) insertAt(t *Task, i, how int, n *list.Node[V]) {
	var ret *list.Node[V]
	switch {
	case len(b.m) == 0 || how == 0:
		t.Must("PushBackNode", func() { b.l.PushBackNode(n) })
		b.insert(len(b.m), n)
		return
	case how == 1:
		t.Must("PushFrontNode", func() { b.l.PushFrontNode(n) })
		b.insert(0, n)
		return
	case how == 2:
		at := b.m[i%len(b.m)]
		t.Must("InsertAfter", func() { ret = b.l.InsertAfter(at, n) })
		b.insert(i%len(b.m)+1, n)
	default:
		at := b.m[i%len(b.m)]
		t.Must("InsertBefore", func() { ret = b.l.InsertBefore(at, n) })
		b.insert(i%len(b.m), n)
	}
	if ret != n {
		t.Fail("insertion did not return the added node")
	}
}

func (b *listBox[V]) write(t *Task, op *Op) {
	a, mode := op.Arg(0), op.Arg(1)
	if t.Tracing() {
		t.Tracef("%s on %d nodes", op.K, len(b.m))
	}
	switch op.K {
	case "wpb", "wpf":
		v := b.fresh()
		var n *list.Node[V]
		if op.K == "wpb" {
			t.Must("PushBack", func() { b.l.PushBack(b.v.enc(v)) })
			n = b.l.Back
		} else {
			t.Must("PushFront", func() { b.l.PushFront(b.v.enc(v)) })
			n = b.l.Front
		}
		if n == nil || b.v.dec(n.Value) != v {
			t.Fail("%s(%d): the value is not at that end", op.K, v)
		}
		for _, o := range b.m {
			if o == n {
				t.Fail("%s(%d) added no node", op.K, v)
			}
		}
		if op.K == "wpb" {
			b.insert(len(b.m), n)
		} else {
			b.insert(0, n)
		}
	case "wbulk":
		for i := 0; i < op.Arg(2); i++ {
			if op.Arg(1) > 1 {
				b.write(t, &Op{K: "wpf", A: []int{0, 0, 1}})
			} else {
				b.write(t, &Op{K: "wpb", A: []int{0, 0, 1}})
			}
		}
	case "wpbn":
		b.insertAt(t, a, 0, b.node(mode, op.Arg(2)))
	case "wpfn":
		b.insertAt(t, a, 1, b.node(mode, op.Arg(2)))
	case "wia":
		b.insertAt(t, a, 2, b.node(mode, op.Arg(2)))
	case "wib":
		b.insertAt(t, a, 3, b.node(mode, op.Arg(2)))
	case "wrem", "wmove":
		if len(b.m) == 0 {
			return
		}
		i := a % len(b.m)
		n := b.m[i]
		v := b.v.dec(n.Value)
		t.Must("Remove", func() { b.l.Remove(n) })
		b.m = append(b.m[:i:i], b.m[i+1:]...)
		if b.v.dec(n.Value) != v {
			t.Fail("Remove changed the node's value")
		}
		if op.K == "wmove" {
			b.insertAt(t, op.Arg(2), mode%4, n)
		} else {
			b.free = append(b.free, n)
		}
	case "wdrain":
		for r := engine.NewRng(uint64(a)); len(b.m) > mode/3; {
			i := r.Intn(len(b.m))
			n := b.m[i]
			t.Must("Remove", func() { b.l.Remove(n) })
			b.m = append(b.m[:i:i], b.m[i+1:]...)
			b.free = append(b.free, n)
		}
	case "wset":
		if len(b.m) > 0 {
			b.m[a%len(b.m)].Value = b.v.enc(b.fresh())
		}
	}
	if op.Arg(2)%5 == 0 {
		b.check(t)
	}
}

func (b *listBox[V]) ends(t *Task) {
	var f, k *list.Node[V]
	if n := len(b.m); n > 0 {
		f, k = b.m[0], b.m[n-1]
	}
	if b.l.Front != f || b.l.Back != k {
		t.Fail("Front/Back do not name the first and last of %d nodes", len(b.m))
	}
}

// walk checks that the values visited are those of the nodes from i on, in direction d.
func (b *listBox[V]) walk(t *Task, name string, i, d int, nodes []*list.Node[V], vals []V, abort bool) {
	n := len(nodes)
	if nodes == nil {
		n = len(vals)
	}
	for j := 0; j < n; j++ {
		p := i + j*d
		if p < 0 || p >= len(b.m) {
			t.Fail("%s from position %d visited %d of %d nodes", name, i, n, len(b.m))
		}
		if nodes != nil && nodes[j] != b.m[p] || nodes == nil && !b.v.eq(vals[j], b.m[p].Value) {
			t.Fail("%s from position %d: visit %d is wrong", name, i, j)
		}
	}
	want := len(b.m) - i
	if d < 0 {
		want = i + 1
	}
	if !abort && n != want {
		t.Fail("%s from position %d visited %d nodes, want %d", name, i, n, want)
	}
}

func (b *listBox[V]) read(t *Task, op *Op) {
	i := 0
	var at *list.Node[V]
	if len(b.m) > 0 {
		i = op.Arg(0) % len(b.m)
		at = b.m[i]
		if op.Arg(1) == 0 {
			i, at = 0, b.l.Front
		} else if op.Arg(1) == 1 {
			i, at = len(b.m)-1, b.l.Back
		}
	} else if op.K[:3] == "rea" {
		at = b.l.Front // nil: nothing to visit
		if op.K == "reachr" || op.K == "reachrn" {
			at, i = b.l.Back, -1
		}
	}
	limit := len(b.m) + 5
	var vals []V
	var nodes []*list.Node[V]
	visit := func(v V) {
		vals = append(vals, v)
		if len(vals) > limit {
			t.Fail("%s visits more nodes than there are", op.K)
		}
		t.Visit()
	}
	visitN := func(n *list.Node[V]) {
		nodes = append(nodes, n)
		if len(nodes) > limit {
			t.Fail("%s visits more nodes than there are", op.K)
		}
		t.Visit()
	}
	switch op.K {
	case "rends":
		b.ends(t)
	case "rlinks":
		if at == nil {
			return
		}
		for j, x := 0, b.l.Front; x != nil; j, x = j+1, x.Next {
			if j >= len(b.m) || x != b.m[j] || j > 0 && x.Prev != b.m[j-1] || j == 0 && x.Prev != nil {
				t.Fail("the links at position %d of %d are wrong", j, len(b.m))
			}
			t.Visit()
		}
	case "reach":
		ab := t.Must("Each", func() { at.Each(visit) })
		b.walk(t, "Each", i, 1, nil, vals, ab)
	case "reachr":
		ab := t.Must("EachReverse", func() { at.EachReverse(visit) })
		b.walk(t, "EachReverse", i, -1, nil, vals, ab)
	case "reachn":
		nodes = []*list.Node[V]{}
		ab := t.Must("EachNode", func() { at.EachNode(visitN) })
		b.walk(t, "EachNode", i, 1, nodes, nil, ab)
	case "reachrn":
		nodes = []*list.Node[V]{}
		ab := t.Must("EachReverseNode", func() { at.EachReverseNode(visitN) })
		b.walk(t, "EachReverseNode", i, -1, nodes, nil, ab)
	}
}

var listAll = []*Op{{K: "rends"}, {K: "rlinks"}, {K: "reach"}, {K: "reachr", A: []int{0, 1}}, {K: "reachn"}, {K: "reachrn", A: []int{0, 1}}}

func (b *listBox[V]) check(t *Task) {
	for _, o := range listAll {
		b.read(t, o)
	}
}

// ulistBox is an unrolled list with its elements in order.
type ulistBox[V any] struct {
	v    *vcodec[V]
	dups int
	u    *ulist.UList[V]
	m    []int
	next int
}

func newUlistBox(r *engine.Run) box {
	switch r.Cfg("val") {
	case 1:
		return newUlistBoxOf(r, vStr)
	case 2:
		return newUlistBoxOf(r, vBlob)
	case 3:
		return newUlistBoxOf(r, vAny)
	}
	return newUlistBoxOf(r, vInt)
}

func newUlistBoxOf[V any](r *engine.Run, v *vcodec[V]) *ulistBox[V] {
	return &ulistBox[V]{v: v, dups: r.Cfg("dups"), u: ulist.New[V](max(1, r.Cfg("block")))}
}

func (b *ulistBox[V]) fresh() int { return fresh(&b.next, b.dups) }

// argSession: where to start, from which end, the seed of the steps, their number.
func argSession(g *Gen) []int {
	return []int{g.Intn(1 << 12), g.Intn(4), g.Intn(1 << 20), g.Log(14), g.Intn(6)}
}

var ulistSpecs = []Spec{
	{K: "wpb", W: 8, SW: 8, Args: argSession, NoF: true},
	{K: "wpf", W: 6, SW: 4, Args: argSession, NoF: true},
	{K: "wedit", W: 40, SW: 4, Args: argSession, NoF: true},
	{K: "wtrim", W: 4, Args: argSession, NoF: true},
	{K: "rwalk", W: 24, Args: argSession, NoF: true},
	{K: "rall", W: 8, Args: argSession, NoF: true},
	{K: "rsize", W: 6, NoF: true},
}

// cursor pairs an iterator with the position it should have: -1..len.
type cursor[V any] struct {
	it *ulist.UListIter[V]
	p  int
}

func (b *ulistBox[V]) see(t *Task, c *cursor[V], what string) {
	var ok bool
	t.Must("IsValid", func() { ok = c.it.IsValid() })
	want := c.p >= 0 && c.p < len(b.m)
	if ok != want {
		t.Fail("after %s IsValid() = %v at position %d of %d", what, ok, c.p, len(b.m))
	}
	if !ok {
		return
	}
	var v int
	t.Must("Get", func() { v = b.v.dec(c.it.Get()) })
	if v != b.m[c.p] {
		t.Fail("after %s Get() = %d at position %d of %d, want %d", what, v, c.p, len(b.m), b.m[c.p])
	}
}

func (b *ulistBox[V]) step(t *Task, c *cursor[V], d int) {
	var ok bool
	if d > 0 {
		t.Must("Next", func() { ok = c.it.Next() })
		if c.p < len(b.m) {
			c.p++
		}
	} else {
		t.Must("Prev", func() { ok = c.it.Prev() })
		if c.p >= 0 {
			c.p--
		}
	}
	if want := c.p >= 0 && c.p < len(b.m); ok != want {
		t.Fail("Next/Prev to position %d of %d reports %v", c.p, len(b.m), ok)
	}
}

// at opens a cursor on element i of a non-empty list.
func (b *ulistBox[V]) at(t *Task, i, from int) *cursor[V] {
	c := &cursor[V]{}
	if from%2 == 0 {
		t.Must("Begin", func() { c.it = b.u.Begin() })
		b.see(t, c, "Begin()")
		for c.p < i {
			b.step(t, c, 1)
		}
	} else {
		t.Must("End", func() { c.it = b.u.End() })
		c.p = len(b.m) - 1
		b.see(t, c, "End()")
		for c.p > i {
			b.step(t, c, -1)
		}
	}
	b.see(t, c, "walking there")
	return c
}

func (b *ulistBox[V]) empty(t *Task) bool {
	if len(b.m) > 0 {
		return false
	}
	var x, y bool
	t.Must("Begin", func() { x = b.u.Begin().IsValid() })
	t.Must("End", func() { y = b.u.End().IsValid() })
	if x || y {
		t.Fail("a cursor of an empty list is valid")
	}
	return true
}

func (b *ulistBox[V]) put(i, v int) {
	b.m = append(b.m, 0)
	copy(b.m[i+1:], b.m[i:])
	b.m[i] = v
}

func (b *ulistBox[V]) write(t *Task, op *Op) {
	switch op.K {
	case "wpb":
		for i := op.Arg(3); i >= 0; i-- {
			v := b.fresh()
			t.Must("PushBack", func() { b.u.PushBack(b.v.enc(v)) })
			b.put(len(b.m), v)
		}
	case "wpf":
		for i := op.Arg(3); i >= 0; i-- {
			v := b.fresh()
			t.Must("PushFront", func() { b.u.PushFront(b.v.enc(v)) })
			b.put(0, v)
		}
	case "wtrim":
		// removes everything from a position on, or the other way up to it
		if b.empty(t) {
			return
		}
		c := b.at(t, op.Arg(0)%len(b.m), op.Arg(1))
		for n := op.Arg(3) * 2; n >= 0 && c.p >= 0 && c.p < len(b.m); n-- {
			b.remove(t, c)
			if op.Arg(4) > 2 && len(b.m) > 0 {
				b.step(t, c, -1)
			}
		}
	case "wedit":
		if b.empty(t) {
			v := b.fresh()
			t.Must("PushFront", func() { b.u.PushFront(b.v.enc(v)) })
			b.put(0, v)
		}
		b.session(t, op)
	}
	if op.Arg(2)%4 == 0 {
		b.check(t)
	}
}

func (b *ulistBox[V]) remove(t *Task, c *cursor[V]) {
	if t.Tracing() {
		t.Tracef("Remove at %d of %d", c.p, len(b.m))
	}
	t.Must("Remove", func() { b.u.Remove(c.it) })
	b.m = append(b.m[:c.p:c.p], b.m[c.p+1:]...)
	b.see(t, c, "Remove")
}

func (b *ulistBox[V]) session(t *Task, op *Op) {
	c := b.at(t, op.Arg(0)%len(b.m), op.Arg(1))
	g := engine.NewRng(uint64(op.Arg(2)))
	removes := 1 + op.Arg(4)
	for n := op.Arg(3); n >= 0; n-- {
		valid := c.p >= 0 && c.p < len(b.m)
		k := g.Intn(6 + removes)
		if !valid {
			if len(b.m) == 0 {
				return
			}
			d := 1
			if c.p >= 0 {
				d = -1
			}
			if k == 0 {
				d = -d // further off: stays just outside
			}
			b.step(t, c, d)
			b.see(t, c, "coming back")
			continue
		}
		switch {
		case k < 2:
			v := b.fresh()
			if t.Tracing() {
				t.Tracef("AddAfter at %d of %d", c.p, len(b.m))
			}
			t.Must("AddAfter", func() { b.u.AddAfter(c.it, b.v.enc(v)) })
			c.p++
			b.put(c.p, v)
			b.see(t, c, "AddAfter")
		case k < 4:
			v := b.fresh()
			if t.Tracing() {
				t.Tracef("AddBefore at %d of %d", c.p, len(b.m))
			}
			t.Must("AddBefore", func() { b.u.AddBefore(c.it, b.v.enc(v)) })
			b.put(c.p, v)
			b.see(t, c, "AddBefore")
		case k == 4:
			b.step(t, c, 1)
			b.see(t, c, "Next")
		case k == 5:
			b.step(t, c, -1)
			b.see(t, c, "Prev")
		default:
			b.remove(t, c)
		}
	}
}

func (b *ulistBox[V]) read(t *Task, op *Op) {
	switch op.K {
	case "rsize":
		var n int
		t.Must("Size", func() { n = b.u.Size() })
		if n != len(b.m) {
			t.Fail("Size() = %d, want %d", n, len(b.m))
		}
	case "rwalk":
		if b.empty(t) {
			return
		}
		g := engine.NewRng(uint64(op.Arg(2)))
		c := [2]*cursor[V]{b.at(t, op.Arg(0)%len(b.m), op.Arg(1)), b.at(t, op.Arg(2)%len(b.m), op.Arg(1)/2)}
		bias := g.Intn(3)
		for n := op.Arg(3) * 2; n >= 0; n-- {
			x := c[g.Intn(2)]
			d := 1
			if g.Intn(4) < 1+bias {
				d = -1
			}
			b.step(t, x, d)
			b.see(t, x, "Next/Prev")
		}
		b.see(t, c[0], "walking")
		b.see(t, c[1], "walking")
	case "rall":
		b.check(t)
	}
}

func (b *ulistBox[V]) check(t *Task) {
	b.read(t, &Op{K: "rsize"})
	if b.empty(t) {
		return
	}
	c := b.at(t, 0, 0)
	for c.p < len(b.m) {
		b.see(t, c, "Next")
		b.step(t, c, 1)
	}
	b.see(t, c, "running off the end")
	b.step(t, c, 1)
	b.step(t, c, -1)
	b.see(t, c, "coming back from the end")
	c = b.at(t, len(b.m)-1, 1)
	for c.p >= 0 {
		b.see(t, c, "Prev")
		b.step(t, c, -1)
	}
	b.see(t, c, "running off the front")
	b.step(t, c, -1)
	b.step(t, c, 1)
	b.see(t, c, "coming back from the front")
}

func init() {
	register(&WL{Name: "list", Pkgs: []string{"list"}, Gen: func(g *Gen) {
		g.set("zero", g.Intn(2))
		genVal(g)
		g.set("dups", g.Pick(0, 0, 0, 0, 1, 2, 3))
		n := g.giant(g.huge(12, 100, 300, 1200), 10000, 40)
		g.ops(listSpecs, 4, 30)
		if n > 0 {
			g.fill("wbulk", 0, g.Intn(4), g.most(n), 1)
		}
	}, New: func(r *engine.Run) engine.Instance { return &locked{b: newListBox(r)} }})
	register(&WL{Name: "ulist", Pkgs: []string{"ulist", "list"}, Gen: func(g *Gen) {
		genVal(g)
		g.set("dups", g.Pick(0, 0, 0, 0, 1, 2, 3))
		g.set("block", g.Pick(1, 1, 2, 2, 3, 4, 5, 8, 16))
		n := g.giant(g.huge(12, 60, 150, 400), 3000, 40)
		if n > 0 {
			g.set("block", g.Pick(1, 2, 7, 16, 32, 64, 100))
		}
		g.ops(ulistSpecs, 4, 20)
		if n > 0 {
			g.fill(g.PickS("wpb", "wpf"), 0, 0, 1, g.most(n), 0)
			for _, t := range g.P.Tasks {
				for _, op := range t {
					if op.K[0] == 'w' && g.pc(30) && len(op.A) > 3 {
						op.A[3] = g.Log(n)
					}
				}
			}
		}
	}, New: func(r *engine.Run) engine.Instance { return &locked{b: newUlistBox(r)} }})
	Props["C13"] = []Use{{WL: "list", Weight: 1}, {WL: "ulist", Weight: 2}}
}
