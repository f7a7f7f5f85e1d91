package wl

import "verifsim/engine"

// item is a queued value: a distinct number.
type queueBox struct {
	q    queueI
	m    []int
	next int
	dups int
}

func newQueueBox(r *engine.Run) *queueBox {
	b := &queueBox{next: -1, dups: r.Cfg("dups")}
	for n := r.Cfg("init"); n > 0; n-- {
		b.m = append(b.m, fresh(&b.next, b.dups))
	}
	switch r.Cfg("val") {
	case 1:
		b.q = newQueueT(vStr, b.m)
	case 2:
		b.q = newQueueT(vBlob, b.m)
	case 3:
		b.q = newQueueT(vAny, b.m)
	default:
		b.q = newQueueT(vInt, b.m)
	}
	return b
}

var queueSpecs = []Spec{
	{K: "wenq", W: 30, SW: 6, Args: argBM, NoF: true},
	{K: "wdeq", W: 22, SW: 1, Args: argBM, NoF: true},
	{K: "wdeqp", W: 6, Args: argBM, NoF: true},
	{K: "wbulkenq", W: 1, SW: 2, Args: argHBulk, NoF: true},
	{K: "wbulkdeq", W: 1, SW: 1, Args: argHBulk, NoF: true},
	{K: "wdeqall", W: 3, Args: argBM, NoF: true, Keeps: true},
	{K: "wclear", W: 2, Args: argBM, NoF: true},
	{K: "rpeek", W: 10, Args: argBM, NoF: true},
	{K: "rpeekp", W: 4, Args: argBM, NoF: true},
	{K: "rpeekall", W: 8, Args: argBM, NoF: true, Keeps: true},
	{K: "rlen", W: 6, Args: argBM, NoF: true},
	{K: "reach", W: 8, Args: argBM, Vis: true},
	{K: "rcopy", W: 3, Args: argBM, NoF: true},
}

func (b *queueBox) write(t *Task, op *Op) {
	switch op.K {
	case "wenq":
		for i := 0; i <= op.Arg(1)%3; i++ {
			v := fresh(&b.next, b.dups)
			t.Must("Enqueue", func() { b.q.Enqueue(v) })
			b.m = append(b.m, v)
		}
	case "wdeq":
		var v int
		var ok bool
		t.Must("TryDequeue", func() { v, ok = b.q.TryDequeue() })
		if t.Tracing() {
			t.Tracef("TryDequeue() = %d, %v", v, ok)
		}
		if ok != (len(b.m) > 0) || ok && v != b.m[0] || !ok && v != 0 {
			t.Fail("TryDequeue() = (%d,%v), inside were %s", v, ok, show(b.m))
		}
		if ok {
			b.m = b.m[1:]
		}
	case "wdeqp":
		var v int
		pv, p := t.Call(func() { v = b.q.Dequeue() })
		if p != (len(b.m) == 0) || !p && v != b.m[0] {
			t.Fail("Dequeue() = %d, panic %v, inside were %s", v, pv, show(b.m))
		}
		if !p {
			b.m = b.m[1:]
		}
	case "wbulkenq":
		for i := 0; i < op.Arg(2); i++ {
			b.write(t, &Op{K: "wenq"})
		}
	case "wbulkdeq":
		for i := 0; i < op.Arg(2) && i <= len(b.m); i++ {
			b.write(t, &Op{K: "wdeq"})
		}
	case "wdeqall":
		var got []int
		t.Must("DequeueAll", func() { got = b.q.DequeueAll(t, op) })
		b.same(t, "DequeueAll", got, true)
		b.m = nil
	case "wclear":
		t.Must("Clear", func() { b.q.Clear() })
		b.m = nil
	}
}

func (b *queueBox) same(t *Task, name string, got []int, complete bool) {
	bad := complete && len(got) != len(b.m)
	for i := 0; i < len(got) && !bad; i++ {
		bad = i >= len(b.m) || got[i] != b.m[i]
	}
	if bad {
		t.Fail("%s gives %s, want %s", name, show(got), show(b.m))
	}
}

func (b *queueBox) read(t *Task, op *Op) {
	switch op.K {
	case "rpeek":
		var v int
		var ok bool
		t.Must("TryPeek", func() { v, ok = b.q.TryPeek() })
		if ok != (len(b.m) > 0) || ok && v != b.m[0] || !ok && v != 0 {
			t.Fail("TryPeek() = (%d,%v), inside are %s", v, ok, show(b.m))
		}
	case "rpeekp":
		var v int
		pv, p := t.Call(func() { v = b.q.Peek() })
		if p != (len(b.m) == 0) || !p && v != b.m[0] {
			t.Fail("Peek() = %d, panic %v, inside are %s", v, pv, show(b.m))
		}
	case "rpeekall":
		var got []int
		t.Must("PeekAll", func() { got = b.q.PeekAll(t, op) })
		b.same(t, "PeekAll", got, true)
	case "rlen":
		var n int
		var e bool
		t.Must("Len", func() { n = b.q.Len() })
		t.Must("Empty", func() { e = b.q.Empty() })
		if n != len(b.m) || e != (len(b.m) == 0) {
			t.Fail("Len() = %d, Empty() = %v, want length %d", n, e, len(b.m))
		}
	case "rcopy": // copying is reading
		b.dup(t).check(t)
	case "reach":
		var got []int
		abort := t.Must("Each", func() {
			b.q.Each(func(v int) {
				got = append(got, v)
				t.Visit()
			})
		})
		b.same(t, "Each", got, !abort)
	}
}

var readAll = []*Op{{K: "rlen"}, {K: "rpeek"}, {K: "rpeekp"}, {K: "rpeekall"}, {K: "reach"}}

func (b *queueBox) check(t *Task) {
	for _, o := range readAll {
		b.read(t, o)
	}
}

func (b *queueBox) dup(t *Task) copyable {
	n := &queueBox{m: append([]int(nil), b.m...), next: b.next + 1000, dups: b.dups}
	t.Must("Copy", func() { n.q = b.q.Copy() })
	return n
}

type stackBox struct {
	s    stackI
	m    []int
	next int
	dups int
}

var stackSpecs = []Spec{
	{K: "wpush", W: 34, SW: 6, Args: argBM, NoF: true},
	{K: "wpop", W: 30, SW: 1, Args: argBM, NoF: true},
	{K: "wbulkpush", W: 1, SW: 2, Args: argHBulk, NoF: true},
	{K: "wbulkpop", W: 1, SW: 1, Args: argHBulk, NoF: true},
	{K: "wpopall", W: 1, Args: argBM, NoF: true},
	{K: "rpeek", W: 16, Args: argBM, NoF: true},
	{K: "rsize", W: 10, Args: argBM, NoF: true},
	{K: "rcopy", W: 4, Args: argBM, NoF: true},
}

func newStackBox(r *engine.Run) *stackBox {
	switch r.Cfg("val") {
	case 1:
		return &stackBox{s: newStackT(vStr), next: -1, dups: r.Cfg("dups")}
	case 2:
		return &stackBox{s: newStackT(vBlob), next: -1, dups: r.Cfg("dups")}
	case 3:
		return &stackBox{s: newStackT(vAny), next: -1, dups: r.Cfg("dups")}
	}
	return &stackBox{s: newStackT(vInt), next: -1, dups: r.Cfg("dups")}
}

func (b *stackBox) pop(t *Task) {
	var v, want int
	t.Must("Pop", func() { v = b.s.Pop() })
	if len(b.m) > 0 {
		want = b.m[len(b.m)-1]
		b.m = b.m[:len(b.m)-1]
	}
	if t.Tracing() {
		t.Tracef("Pop() = %d", v)
	}
	if v != want {
		t.Fail("Pop() = %d, want %d; below it %s", v, want, show(b.m))
	}
}

func (b *stackBox) write(t *Task, op *Op) {
	switch op.K {
	case "wpush":
		for i := 0; i <= op.Arg(1)%4; i++ {
			v := fresh(&b.next, b.dups)
			t.Must("Push", func() { b.s.Push(v) })
			b.m = append(b.m, v)
		}
	case "wpop":
		for i := 0; i <= op.Arg(1)%3; i++ {
			b.pop(t)
		}
	case "wbulkpush":
		for i := 0; i < op.Arg(2); i++ {
			b.write(t, &Op{K: "wpush"})
		}
	case "wbulkpop":
		for i := 0; i < op.Arg(2) && i <= len(b.m); i++ {
			b.pop(t)
		}
	case "wpopall":
		for len(b.m) > 0 {
			b.pop(t)
		}
	}
}

func (b *stackBox) read(t *Task, op *Op) {
	switch op.K {
	case "rpeek":
		var v, want int
		t.Must("Peek", func() { v = b.s.Peek() })
		if len(b.m) > 0 {
			want = b.m[len(b.m)-1]
		}
		if v != want {
			t.Fail("Peek() = %d, want %d", v, want)
		}
	case "rcopy": // copying is reading
		b.dup(t).check(t)
	case "rsize":
		var n int
		t.Must("Size", func() { n = b.s.Size() })
		if n != len(b.m) {
			t.Fail("Size() = %d, want %d", n, len(b.m))
		}
	}
}

// check empties the stack.
func (b *stackBox) check(t *Task) {
	b.read(t, &Op{K: "rsize"})
	b.read(t, &Op{K: "rpeek"})
	for len(b.m) > 0 {
		b.pop(t)
		b.read(t, &Op{K: "rsize"})
		b.read(t, &Op{K: "rpeek"})
	}
	b.pop(t)
}

func (b *stackBox) dup(t *Task) copyable {
	n := &stackBox{m: append([]int(nil), b.m...), next: b.next + 1000, dups: b.dups}
	t.Must("Copy", func() { n.s = b.s.Copy() })
	return n
}

func genFifoCfg(g *Gen) {
	g.set("init", g.Pick(0, 0, 1, 4))
	genVal(g)
	g.set("dups", g.Pick(0, 0, 0, 0, 0, 2, 3))
	if n := g.huge(20, 100, 300, 1100, 4000); n > 0 {
		n = g.giant(n, 70000, 40)
		if g.pc(30) {
			g.set("init", n)
		}
	}
}

func init() {
	register(&WL{Name: "queue", Pkgs: []string{"queue", "list"}, Gen: func(g *Gen) {
		genFifoCfg(g)
		g.ops(withKept(g, queueSpecs), 4, 30)
		if n := g.P.Cfg["big"]; n > 0 {
			g.fill("wbulkenq", 0, 0, g.most(n), 0)
		}
	}, New: func(r *engine.Run) engine.Instance { return &locked{b: newQueueBox(r)} }})
	register(&WL{Name: "stack", Pkgs: []string{"stack"}, Gen: func(g *Gen) {
		genFifoCfg(g)
		g.ops(stackSpecs, 4, 30)
		if n := g.P.Cfg["big"]; n > 0 {
			g.fill("wbulkpush", 0, 0, g.most(n), 0)
		}
	},
		New: func(r *engine.Run) engine.Instance { return &locked{b: newStackBox(r)} }})
	Props["C11"] = []Use{{WL: "queue", Weight: 2}, {WL: "stack", Weight: 1}}
}
