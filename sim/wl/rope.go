package wl

import (
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/rope"
	"verifsim/engine"
)

func genRopeCfg(g *Gen) {
	g.set("split", g.Pick(1, 2, 2, 3, 4, 4, 7, 16, 256, 16384))
	g.set("join", g.Pick(0, 1, 1, 2, 2, 3, 8, 128, 8192))
	if g.pc(50) {
		g.set("join", g.P.Cfg["split"]/2)
	}
	g.set("ratio", g.Pick(50, 100, 120, 150, 150, 300, 1000))
	g.set("len", g.Pick(0, 1, 2, 5, 10, 20, 40, 100))
	if g.P.Cfg["split"] >= 256 && g.pc(50) && !g.Race {
		g.set("len", g.Pick(250, 257, 520, 600))
	}
	if n := g.huge(12, 1500, 1500, 4000, 4000, 9000, 40000); n > 0 {
		g.set("len", n)
		if g.pc(50) {
			g.set("split", g.Pick(3, 16, 256, 4096))
			g.set("join", g.P.Cfg["split"]/2)
		}
		if n > 9000 { // as configured by default
			g.set("split", 16384)
			g.set("join", 8192)
			g.set("ratio", 120)
		}
	}
	g.set("maxlen", g.Pick(20, 60, 150)+2*g.P.Cfg["len"])
}

func seqOf(from, n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = from + i
	}
	return s
}

func splice(m []int, at, del int, in []int) []int {
	r := make([]int, 0, len(m)-del+len(in))
	r = append(r, m[:at]...)
	r = append(r, in...)
	return append(r, m[at+del:]...)
}

func diff(got, want []int) int {
	for i := 0; i < len(got) || i < len(want); i++ {
		if i >= len(got) || i >= len(want) || got[i] != want[i] {
			return i
		}
	}
	return -1
}

// ropeBox is a rope (or a part of one) and the array it stands for.
type ropeBox struct {
	n    *rope.Node[int]
	m    []int
	next int
	lim  int
	big  int
}

func ropeKnobs(r *engine.Run) {
	if r.Main().ID >= 0 {
		return // a task makes a rope while others use theirs
	}
	rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = max(1, r.Cfg("split")), r.Cfg("join"), float64(r.Cfg("ratio"))/100
	prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = rope.SplitLength, rope.JoinLength, rope.RebalanceRatio
}

func newRopeBox(r *engine.Run) *ropeBox {
	ropeKnobs(r)
	n := r.Cfg("len")
	src := make([]int, n, n+4)
	copy(src, seqOf(1, n))
	return &ropeBox{n: rope.New(src), m: seqOf(1, n), next: 10_000, lim: r.Cfg("maxlen"), big: r.Cfg("big")}
}

func argRope(g *Gen) []int {
	return []int{g.Intn(1 << 12), g.Intn(8), g.Intn(1 << 12), g.Log(12), g.Intn(16)}
}

var ropeSpecs = []Spec{
	{K: "wins", W: 30, SW: 4, Args: argRope, NoF: true},
	{K: "wrem", W: 26, SW: 2, Args: argRope, NoF: true},
	{K: "wrebuild", W: 4, SW: 1, Args: argRope, NoF: true},
	{K: "wrebal", W: 8, SW: 1, Args: argRope, NoF: true},
	{K: "rval", W: 10, Args: argRope, NoF: true},
	{K: "rslice", W: 12, Args: argRope, NoF: true},
	{K: "rat", W: 10, Args: argRope, NoF: true},
	{K: "rlen", W: 5, Args: argRope, NoF: true},
	{K: "reach", W: 8, Args: argRope, Vis: true},
}

var ropeSplitSpecs = append([]Spec{
	{K: "wsplitjoin", W: 12, SW: 2, Args: argRope, NoF: true},
}, ropeSpecs...)

// rng turns arguments into a valid position or range.
func position(raw, mode, n int) int {
	switch mode {
	case 0:
		return 0
	case 1:
		return n
	case 2:
		return n / 2
	}
	return raw % (n + 1)
}

func span(op *Op, n int) (int, int) {
	a := position(op.Arg(0), op.Arg(1), n)
	z := position(op.Arg(2), op.Arg(4)%8, n)
	if op.Arg(4) >= 8 {
		z = min(n, a+op.Arg(3))
	}
	if a > z {
		a, z = z, a
	}
	return a, z
}

func (b *ropeBox) write(t *Task, op *Op) {
	switch op.K {
	case "wins":
		k := op.Arg(3)
		if op.Arg(2)%3 == 0 {
			k += k * b.big / 25
		}
		if len(b.m) > b.lim {
			k %= 2
		}
		at := position(op.Arg(0), op.Arg(1), len(b.m))
		if op.Arg(4)%5 == 2 && len(b.m) < b.lim {
			b.again(t, op, at)
			break
		}
		in := make([]int, k, k+op.Arg(4)%16)
		for i := range in {
			in[i] = b.next
			b.next++
		}
		if t.Tracing() {
			t.Tracef("Insert(%d, %d elements) into %d", at, k, len(b.m))
		}
		b.m = splice(b.m, at, 0, in)
		t.Must("Insert", func() { b.n.Insert(at, in) })
		in = in[:cap(in)]
		for i := range in {
			in[i] = -3 // the buffer is the caller's
		}
	case "wrem":
		a, z := span(op, len(b.m))
		if t.Tracing() {
			t.Tracef("Remove(%d, %d) from %d", a, z, len(b.m))
		}
		t.Must("Remove", func() { b.n.Remove(a, z) })
		b.m = splice(b.m, a, z-a, nil)
	case "wrebuild":
		t.Must("Rebuild", func() { b.n.Rebuild() })
	case "wrebal":
		t.Must("Rebalance", func() { b.n.Rebalance() })
	case "wsplitjoin":
		// splits, edits the parts and joins them again
		p, q := b.split(t, position(op.Arg(0), op.Arg(1), len(b.m)))
		parts := []*ropeBox{p, q}
		g := engine.NewRng(uint64(op.Arg(2)))
		if g.Intn(2) == 0 && len(parts[0].m) > 0 {
			p, q = parts[0].split(t, g.Intn(len(parts[0].m)+1))
			parts = []*ropeBox{p, q, parts[1]}
		}
		for i := g.Intn(4); i > 0; i-- {
			x := parts[g.Intn(len(parts))]
			o := &Op{K: []string{"wins", "wrem", "wins", "wrebal", "wrebuild"}[g.Intn(5)], A: []int{g.Intn(1 << 10), g.Intn(8), g.Intn(1 << 10), g.Intn(6), g.Intn(16)}}
			x.next = b.next
			x.write(t, o)
			b.next = x.next
		}
		for _, x := range parts {
			x.read(t, &Op{K: "rval"})
		}
		b.m = nil
		for _, x := range parts {
			b.m = append(b.m, x.m...)
		}
		if t.Tracing() {
			t.Tracef("split at %d, edited and joined %d parts", position(op.Arg(0), op.Arg(1), len(b.m)), len(parts))
		}
		t.Must("Join", func() {
			if len(parts) == 3 {
				b.n = rope.Join(parts[0].n, parts[1].n, parts[2].n)
			} else {
				b.n = rope.Join(parts[0].n, parts[1].n)
			}
		})
	}
	if op.Arg(2)%3 == 0 {
		b.read(t, &Op{K: "rval"})
	}
}

// again inserts what was read from the rope itself.
func (b *ropeBox) again(t *Task, op *Op, at int) {
	var in []int
	x := position(op.Arg(2), op.Arg(4)/2, len(b.m))
	z := min(len(b.m), x+op.Arg(3))
	if op.Arg(2)%4 == 1 {
		x, z = 0, len(b.m)
		t.Must("Value", func() { in = b.n.Value() })
	} else {
		t.Must("Slice", func() { in = b.n.Slice(x, z) })
	}
	if t.Tracing() {
		t.Tracef("Insert(%d, Slice(%d, %d)) into %d", at, x, z, len(b.m))
	}
	b.equal(t, "Slice()", in, b.m[x:z])
	b.m = splice(b.m, at, 0, b.m[x:z:z])
	t.Must("Insert", func() { b.n.Insert(at, in) })
}

func (b *ropeBox) split(t *Task, i int) (p, q *ropeBox) {
	p, q = &ropeBox{m: b.m[:i:i], next: b.next, lim: b.lim, big: b.big}, &ropeBox{m: b.m[i:], next: b.next + 100_000, lim: b.lim, big: b.big}
	t.Must("SplitAt", func() { p.n, q.n = b.n.SplitAt(i) })
	return
}

func (b *ropeBox) equal(t *Task, what string, got, want []int) {
	if i := diff(got, want); i >= 0 {
		t.Fail("%s has %d elements and differs at %d from the %d expected ones: %s, want %s", what, len(got), i, len(want), show(got), show(want))
	}
}

func (b *ropeBox) read(t *Task, op *Op) {
	switch op.K {
	case "rval":
		var got []int
		t.Must("Value", func() { got = b.n.Value() })
		b.equal(t, "Value()", got, b.m)
		b.read(t, &Op{K: "rlen"})
	case "rslice":
		a, z := span(op, len(b.m))
		var got []int
		t.Must("Slice", func() { got = b.n.Slice(a, z) })
		b.equal(t, "Slice()", got, b.m[a:z])
	case "rat":
		for k := 0; k < 4 && len(b.m) > 0; k++ {
			i := (op.Arg(0) + k) % len(b.m)
			var v int
			t.Must("At", func() { v = b.n.At(i) })
			if v != b.m[i] {
				t.Fail("At(%d) = %d, want %d", i, v, b.m[i])
			}
		}
	case "rlen":
		var n int
		t.Must("Len", func() { n = b.n.Len() })
		if n != len(b.m) {
			t.Fail("Len() = %d, want %d", n, len(b.m))
		}
	case "reach":
		at := 0
		aborted := t.Must("Each", func() {
			b.n.Each(func(l *rope.Node[int]) {
				v := l.Value()
				if len(v) != l.Len() {
					t.Fail("a leaf of %d elements reports length %d", len(v), l.Len())
				}
				if at+len(v) > len(b.m) {
					t.Fail("Each visits more than the %d elements", len(b.m))
				}
				b.equal(t, "a leaf", v, b.m[at:at+len(v)])
				at += len(v)
				t.Visit()
			})
		})
		if !aborted && at != len(b.m) {
			t.Fail("Each visits %d of %d elements", at, len(b.m))
		}
	}
}

func (b *ropeBox) check(t *Task) {
	b.read(t, &Op{K: "rval"})
	b.read(t, &Op{K: "reach"})
	for i := range b.m {
		if i < 30 || i > len(b.m)-10 {
			b.read(t, &Op{K: "rat", A: []int{i}})
		}
	}
	b.read(t, &Op{K: "rslice", A: []int{0, 2, 0, 0, 1}})
	b.read(t, &Op{K: "rslice", A: []int{0, 0, 0, 0, 2}})
}

// ropeParts: a rope is split, the tasks edit their parts without locks, and finally all
// parts are joined.
type ropeParts struct {
	r    *engine.Run
	b    *ropeBox
	own  [][]*ropeBox
	mail []*ropeBox
	ml   engine.Lock
	ids  int
}

var ropePartSpecs = append([]Spec{
	{K: "wsplit", W: 14, Args: argRope, NoF: true},
	{K: "wjoin", W: 10, Args: argRope, NoF: true},
	{K: "wsend", W: 6, Args: argRope, NoF: true},
	{K: "wtake", W: 6, Args: argRope, NoF: true},
}, ropeSpecs...)

func (w *ropeParts) Setup(t *Task, op *Op) { w.b.write(t, op) }

func (w *ropeParts) Ready(t *Task) {
	n := len(w.r.Plan.Tasks)
	g := engine.NewRng(uint64(w.r.Cfg("cuts")))
	rest := w.b
	for i := 0; i < n; i++ {
		k := 1 + g.Intn(2)
		for ; k > 0; k-- {
			p, q := rest.split(t, g.Intn(len(rest.m)+1))
			w.own[i] = append(w.own[i], p)
			rest = q
		}
	}
	w.own[0] = append(w.own[0], rest)
	for i := range w.own {
		for j, p := range w.own[i] {
			p.next = 1_000_000*(i+1) + 50_000*j
		}
	}
}

func (w *ropeParts) Exec(t *Task, op *Op) {
	own := w.own[t.ID]
	if op.K == "wtake" {
		t.Lock(&w.ml)
		var b *ropeBox
		if len(w.mail) > 0 {
			b = w.mail[0]
			w.mail = w.mail[1:]
		}
		t.Unlock(&w.ml)
		if b != nil {
			t.Tracef("takes a part")
			w.own[t.ID] = append(own, b)
		}
		return
	}
	if len(own) == 0 {
		return
	}
	i := op.Arg(4) % len(own)
	b := own[i]
	if t.Tracing() {
		t.Tracef("on part %d/%d (%d elements):", i, len(own), len(b.m))
	}
	t.SetWrite(op.K[0] == 'w')
	switch op.K {
	case "wsplit":
		p, q := b.split(t, position(op.Arg(0), op.Arg(1), len(b.m)))
		t.Tracef("SplitAt")
		own[i] = p
		w.own[t.ID] = append(own, q)
	case "wjoin":
		if len(own) < 2 {
			return
		}
		j := op.Arg(2) % len(own)
		if j == i {
			j = (i + 1) % len(own)
		}
		c := own[j]
		t.Tracef("Join")
		n := &ropeBox{next: max(b.next, c.next), lim: b.lim, big: b.big}
		n.m = splice(b.m, len(b.m), 0, c.m)
		if k := (j + 1) % len(own); op.Arg(3) > 6 && k != i && k != j {
			d := own[k]
			n.m = splice(n.m, len(n.m), 0, d.m)
			t.Must("Join", func() { n.n = rope.Join(b.n, c.n, d.n) })
			n.next = max(n.next, d.next)
			w.own[t.ID] = without(own, n, i, j, k)
		} else {
			t.Must("Join", func() { n.n = rope.Join(b.n, c.n) })
			w.own[t.ID] = without(own, n, i, j, j)
		}
		n.read(t, &Op{K: "rval"})
	case "wsend":
		if len(own) > 1 {
			own[i] = own[len(own)-1]
			w.own[t.ID] = own[:len(own)-1]
			t.Lock(&w.ml)
			w.mail = append(w.mail, b)
			t.Unlock(&w.ml)
			t.Tracef("sends the part")
		}
	default:
		if op.K[0] == 'w' {
			b.write(t, op)
		} else {
			b.read(t, op)
		}
	}
}

func without(own []*ropeBox, n *ropeBox, i, j, k int) []*ropeBox {
	r := []*ropeBox{n}
	for x, b := range own {
		if x != i && x != j && x != k {
			r = append(r, b)
		}
	}
	return r
}

func (w *ropeParts) Nested(t *Task, op *Op) {
	own := w.own[t.ID]
	own[op.Arg(4)%len(own)].read(t, op)
}

func (w *ropeParts) Final(t *Task) {
	var parts []*ropeBox
	for _, o := range w.own {
		parts = append(parts, o...)
	}
	parts = append(parts, w.mail...)
	for _, p := range parts {
		p.check(t)
	}
	acc := parts[0]
	for _, p := range parts[1:] {
		n := &ropeBox{m: splice(acc.m, len(acc.m), 0, p.m), next: 1}
		t.Must("Join", func() { n.n = rope.Join(acc.n, p.n) })
		acc = n
	}
	acc.check(t)
}

// versions: tasks derive and read versions of persistent ropes, without locks.
type version struct {
	n *prope.Node[int]
	m []int
}

type versions struct {
	r    *engine.Run
	pool []*version
	pl   engine.Lock
	bufs []poisoned
	next [10]int
	lim  int
	big  int
}

// poisoned is a buffer of which a prefix was given to a rope.
type poisoned struct {
	buf  []int
	want []int
}

var propeSpecs = []Spec{
	{K: "wins", W: 30, SW: 8, Args: argRope, NoF: true},
	{K: "wrem", W: 26, SW: 4, Args: argRope, NoF: true},
	{K: "wsplit", W: 10, SW: 2, Args: argRope, NoF: true},
	{K: "wjoin", W: 10, SW: 2, Args: argRope, NoF: true},
	{K: "wnew", W: 3, SW: 1, Args: argRope, NoF: true},
	{K: "rval", W: 12, Args: argRope, NoF: true, Keeps: true},
	{K: "rslice", W: 12, Args: argRope, NoF: true, Keeps: true},
	{K: "rat", W: 8, Args: argRope, NoF: true},
	{K: "rlen", W: 4, Args: argRope, NoF: true},
}

func newVersions(r *engine.Run) engine.Instance {
	ropeKnobs(r)
	w := &versions{r: r, lim: r.Cfg("maxlen"), big: r.Cfg("big")}
	for i := range w.next {
		w.next[i] = 100_000 * (i + 1)
	}
	w.pool = append(w.pool, w.make(nil, 0, r.Cfg("len")))
	return w
}

func (w *versions) fresh(id int, k int) []int {
	s := seqOf(w.next[id+1], k)
	w.next[id+1] += k
	return s
}

// make creates a rope from a part of a buffer.
func (w *versions) make(t *Task, lead, n int) *version {
	id := -1
	if t != nil {
		id = t.ID
	}
	buf := w.fresh(id, lead+n+5)
	v := &version{m: append([]int(nil), buf[lead:lead+n]...)}
	if t != nil {
		t.Must("New", func() { v.n = prope.New(buf[lead : lead+n]) })
	} else {
		v.n = prope.New(buf[lead : lead+n])
	}
	p := poisoned{buf, append([]int(nil), buf...)}
	if t != nil {
		t.Lock(&w.pl)
	}
	w.bufs = append(w.bufs, p)
	if t != nil {
		t.Unlock(&w.pl)
	}
	return v
}

func (w *versions) take(t *Task, raw, mode int) *version {
	t.RLock(&w.pl)
	n := len(w.pool)
	i := raw % n
	if mode > 3 {
		i = n - 1 - raw%min(n, 3)
	}
	v := w.pool[i]
	t.RUnlock(&w.pl)
	return v
}

func (w *versions) publish(t *Task, v *version, raw int) {
	t.Lock(&w.pl)
	if len(w.pool) < 24 {
		w.pool = append(w.pool, v)
	} else {
		w.pool[raw%len(w.pool)] = v
	}
	t.Unlock(&w.pl)
}

func (w *versions) Setup(t *Task, op *Op) { w.Exec(t, op) }

func (w *versions) Exec(t *Task, op *Op) {
	if op.K[0] == 'u' {
		(&locked{}).Exec(t, op)
		return
	}
	t.SetWrite(op.K[0] == 'w')
	v := w.take(t, op.Arg(0), op.Arg(4)%8)
	n := len(v.m)
	switch op.K {
	case "wins":
		k := op.Arg(3)
		if op.Arg(0)%3 == 0 {
			k += k * w.big / 25
		}
		if n > w.lim {
			k %= 2
		}
		at := position(op.Arg(2), op.Arg(1), n)
		in := append(make([]int, 0, k+op.Arg(4)%16), w.fresh(t.ID, k)...)
		x := &version{m: splice(v.m, at, 0, in)}
		if t.Tracing() {
			t.Tracef("Insert(%d, %d elements) into %d", at, k, n)
		}
		t.Must("Insert", func() { x.n = v.n.Insert(at, in) })
		in = in[:cap(in)]
		for i := range in {
			in[i] = -4 // the buffer is the caller's
		}
		w.rework(t, x, op)
	case "wrem":
		a, z := span(&Op{A: []int{op.Arg(2), op.Arg(1), op.Arg(0) >> 3, op.Arg(3), op.Arg(4)}}, n)
		x := &version{m: splice(v.m, a, z-a, nil)}
		if t.Tracing() {
			t.Tracef("Remove(%d, %d) from %d", a, z, n)
		}
		t.Must("Remove", func() { x.n = v.n.Remove(a, z) })
		w.rework(t, x, op)
	case "wsplit":
		at := position(op.Arg(2), op.Arg(1), n)
		p, q := &version{m: v.m[:at]}, &version{m: v.m[at:]}
		if t.Tracing() {
			t.Tracef("SplitAt(%d) of %d", at, n)
		}
		t.Must("SplitAt", func() { p.n, q.n = v.n.SplitAt(at) })
		w.publish(t, p, op.Arg(3))
		w.publish(t, q, op.Arg(3)+7)
	case "wjoin":
		in := []*version{v}
		for k := op.Arg(3) % 4; k > 0; k-- {
			in = append(in, w.take(t, op.Arg(2)+5*k, op.Arg(1)))
		}
		if op.Arg(1) == 7 && op.Arg(3) < 2 {
			in = nil
		}
		x := &version{}
		var nodes []*prope.Node[int]
		for _, y := range in {
			if len(x.m)+len(y.m) > 2*w.lim {
				continue
			}
			x.m = append(x.m[:len(x.m):len(x.m)], y.m...)
			nodes = append(nodes, y.n)
		}
		if t.Tracing() {
			t.Tracef("Join of %d ropes, %d elements", len(nodes), len(x.m))
		}
		args := append([]*prope.Node[int](nil), nodes...)
		t.Must("Join", func() { x.n = prope.Join(args...) })
		for k := range args { // the arguments are the caller's
			if args[k] != nodes[k] {
				t.Fail("Join changed its arguments: number %d of %d is another rope now", k, len(args))
			}
			args[k] = nil
		}
		if len(nodes) > 1 {
			w.rework(t, x, op)
		} else {
			w.publish(t, x, op.Arg(2))
		}
	case "wnew":
		w.publish(t, w.make(t, op.Arg(1), op.Arg(2)%(w.lim+1)), op.Arg(3))
	default:
		w.readV(t, v, op)
	}
}

// rework optionally rebalances a new version before it is published.
func (w *versions) rework(t *Task, x *version, op *Op) {
	switch op.Arg(0) % 6 {
	case 0:
		t.Tracef("Rebalance()")
		t.Must("Rebalance", func() { x.n.Rebalance() })
	case 1:
		t.Tracef("Rebuild()")
		t.Must("Rebuild", func() { x.n.Rebuild() })
	}
	if op.Arg(0)%4 == 0 {
		w.readV(t, x, &Op{K: "rval"})
	}
	w.publish(t, x, op.Arg(2))
}

func (w *versions) readV(t *Task, v *version, op *Op) {
	n := len(v.m)
	equal := func(what string, got, want []int) {
		if i := diff(got, want); i >= 0 {
			t.Fail("%s has %d elements and differs at %d from the %d expected ones: %s, want %s", what, len(got), i, len(want), show(got), show(want))
		}
		if keepArg(op) {
			keepSlice(t, op, what, got, eqInt, junkInt)
			return
		}
		for i := range got {
			got[i] = -6 // the result is the caller's
		}
	}
	switch op.K {
	case "rval":
		var got []int
		t.Must("Value", func() { got = v.n.Value() })
		equal("Value()", got, v.m)
	case "rslice":
		a, z := span(&Op{A: []int{op.Arg(2), op.Arg(1), op.Arg(0) >> 3, op.Arg(3), op.Arg(4)}}, n)
		var got []int
		t.Must("Slice", func() { got = v.n.Slice(a, z) })
		equal("Slice()", got, v.m[a:z])
	case "rat":
		for k := 0; k < 4 && n > 0; k++ {
			i := (op.Arg(2) + k) % n
			var x int
			t.Must("At", func() { x = v.n.At(i) })
			if x != v.m[i] {
				t.Fail("At(%d) = %d, want %d", i, x, v.m[i])
			}
		}
	case "rlen":
		var l int
		t.Must("Len", func() { l = v.n.Len() })
		if l != n {
			t.Fail("Len() = %d, want %d", l, n)
		}
	}
}

func (w *versions) Final(t *Task) {
	for _, v := range w.pool {
		w.readV(t, v, &Op{K: "rval"})
		w.readV(t, v, &Op{K: "rlen"})
		w.readV(t, v, &Op{K: "rslice", A: []int{0, 0, 0, 0, 1}})
		for i := 0; i < len(v.m) && i < 20; i += 3 {
			w.readV(t, v, &Op{K: "rat", A: []int{0, 0, i}})
		}
	}
	for _, p := range w.bufs {
		if i := diff(p.buf, p.want); i >= 0 {
			t.Fail("the buffer a rope was created from was modified at %d", i)
		}
	}
}

func init() {
	register(&WL{Name: "rope", Pkgs: []string{"rope"}, Gen: func(g *Gen) {
		genRopeCfg(g)
		g.ops(ropeSplitSpecs, 4, 24)
	}, New: func(r *engine.Run) engine.Instance { return &locked{b: newRopeBox(r)} }})
	register(&WL{Name: "ropeparts", Pkgs: []string{"rope"}, Gen: func(g *Gen) {
		genRopeCfg(g)
		g.set("cuts", g.Intn(1<<20))
		g.ops(ropePartSpecs, 4, 24)
	}, New: func(r *engine.Run) engine.Instance {
		return &ropeParts{r: r, b: newRopeBox(r), own: make([][]*ropeBox, len(r.Plan.Tasks))}
	}})
	register(&WL{Name: "prope", Pkgs: []string{"prope"}, Gen: func(g *Gen) {
		genRopeCfg(g)
		g.ops(withKept(g, propeSpecs), 4, 24)
	}, New: newVersions})
	Props["C10"] = []Use{{WL: "rope", Weight: 1}, {WL: "ropeparts", Weight: 1}}
	Props["C02"] = []Use{{WL: "prope", Weight: 1, Tune: func(g *Gen) { g.Keep = 10 }}}
}
