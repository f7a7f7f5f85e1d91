package wl

import (
	"strconv"
	"strings"

	"verifsim/engine"
)

// arrBox is an array with the value of every cell.
type arrBox struct {
	a     arrI
	w, h  int
	m     []int
	owner []int // nil: all cells are the user's
	mine  [][]int
	next  []int
}

func newArrBox(r *engine.Run) *arrBox {
	b := &arrBox{w: r.Cfg("w"), h: r.Cfg("h"), next: make([]int, 9)}
	b.m = make([]int, b.w*b.h)
	g := engine.NewRng(uint64(r.Cfg("jag")))
	var rows [][]int
	ctor := r.Cfg("ctor")
	switch ctor {
	case 0:
	case 1:
		for i := range b.m {
			b.m[i] = 7
		}
	default:
		for y := g.Intn(b.h + 3); y > 0; y-- {
			row := make([]int, g.Intn(b.w+3))
			for x := range row {
				row[x] = 100 + g.Intn(1000)
				if j := len(rows); x < b.w && j < b.h {
					b.m[x+j*b.w] = row[x]
				}
			}
			rows = append(rows, row)
		}
	}
	switch r.Cfg("val") {
	case 1:
		b.a = newArrT(b.w, b.h, ctor, rows, vStr, func(v int) string { return vStr.enc(v) })
	case 2:
		b.a = newArrT(b.w, b.h, ctor, rows, vBlob, showBlob)
	case 3:
		b.a = newArrT(b.w, b.h, ctor, rows, vAny, showAny)
	default:
		b.a = newArrT(b.w, b.h, ctor, rows, vInt, strconv.Itoa)
	}
	return b
}

func genArrCfg(g *Gen) {
	genVal(g)
	g.set("w", g.Pick(1, 2, 3, 4, 5, 7, 12, 1, 9))
	g.set("h", g.Pick(1, 2, 3, 4, 5, 7, 12, 1, 9))
	if g.pc(6) {
		g.set([]string{"w", "h"}[g.Intn(2)], 0)
	}
	switch g.huge(20, 1, 2, 3, 4, 5, 6, 7, 8) {
	case 1:
		g.set("w", 40)
		g.set("h", 40)
	case 2:
		g.set("w", 100)
		g.set("h", 3)
	case 3:
		g.set("w", 3)
		g.set("h", 100)
	case 4:
		g.set("w", 1500)
		g.set("h", 1)
	case 5:
		g.set("w", 17)
		g.set("h", 70)
	case 6:
		g.set("w", g.Pick(130, 300, 700, 5000))
		g.set("h", 2+g.Intn(5))
	case 7:
		g.set("w", 2+g.Intn(5))
		g.set("h", g.Pick(130, 300, 700, 5000))
	case 8:
		g.set("w", 70+g.Intn(30))
		g.set("h", 70+g.Intn(30))
	}
	g.set("ctor", g.Intn(3))
	g.set("jag", g.Intn(1<<20))
}

// value makes a value nobody else writes.
func (b *arrBox) value(t *Task) int {
	b.next[t.ID+1]++
	if b.next[t.ID+1]%8 == 3 {
		return 0
	}
	return (t.ID+2)*1_000_000 + b.next[t.ID+1]
}

func (b *arrBox) owned(t *Task, x, y int) bool {
	return b.owner == nil || t.ID < 0 || b.owner[x+y*b.w] == t.ID
}

// cell picks one of the task's cells.
func (b *arrBox) cell(t *Task, raw int) (x, y int, ok bool) {
	if b.owner == nil || t.ID < 0 {
		n := b.w * b.h
		if n == 0 {
			return 0, 0, false
		}
		return raw % n % b.w, raw % n / b.w, true
	}
	c := b.mine[t.ID]
	if len(c) == 0 {
		return 0, 0, false
	}
	k := c[raw%len(c)]
	return k % b.w, k / b.w, true
}

// region grows an owned rectangle around an owned cell.
func (b *arrBox) region(t *Task, raw, shape int) (x1, y1, x2, y2 int, ok bool) {
	x1, y1, ok = b.cell(t, raw)
	if !ok {
		return
	}
	x2, y2 = x1, y1
	g := engine.NewRng(uint64(shape))
	for n := g.Intn(12); n > 0; n-- {
		a, c, d, e := x1, y1, x2, y2
		by := 1
		if b.w*b.h > 200 {
			by = g.Pick(1, 3, 10, 100, 600, 5000)
		}
		switch g.Intn(4) {
		case 0:
			a = max(a-by, min(a-1, 0))
		case 1:
			c = max(c-by, min(c-1, 0))
		case 2:
			d = min(d+by, max(d+1, b.w-1))
		default:
			e = min(e+by, max(e+1, b.h-1))
		}
		if a < 0 || c < 0 || d >= b.w || e >= b.h {
			continue
		}
		fine := true
		for y := c; y <= e && fine; y++ {
			for x := a; x <= d && fine; x++ {
				fine = b.owned(t, x, y)
			}
		}
		if fine {
			x1, y1, x2, y2 = a, c, d, e
		}
	}
	return
}

func argArr(g *Gen) []int {
	return []int{g.Intn(1 << 15), g.Intn(1 << 12), g.Intn(1 << 15), 0, g.Intn(16)}
}

func (b *arrBox) get(t *Task, x, y int) {
	var v int
	t.Must("Get", func() { v = b.a.Get(x, y) })
	if v != b.m[x+y*b.w] {
		t.Fail("Get(%d,%d) = %d, want %d (%dx%d)", x, y, v, b.m[x+y*b.w], b.w, b.h)
	}
}

// view uses a row or span view: the task touches its own cells only.
func (b *arrBox) view(t *Task, name string, s arrView, x1, y, n int, op *Op) {
	if s.n != n {
		t.Fail("%s of row %d has %d cells, want %d", name, y, s.n, n)
	}
	g := engine.NewRng(uint64(op.Arg(1)))
	for i := 0; i < n; i++ {
		if !b.owned(t, x1+i, y) {
			continue
		}
		k := x1 + i + y*b.w
		if s.at(i) != b.m[k] {
			t.Fail("%s shows %d at (%d,%d), want %d", name, s.at(i), x1+i, y, b.m[k])
		}
		if op.K[0] == 'w' && g.Intn(2) == 0 {
			v := b.value(t)
			s.put(i, v)
			b.m[k] = v
			b.get(t, x1+i, y)
		}
	}
}

func (b *arrBox) write(t *Task, op *Op) { b.do(t, op) }
func (b *arrBox) read(t *Task, op *Op)  { b.do(t, op) }

func (b *arrBox) do(t *Task, op *Op) {
	raw := op.Arg(0)
	switch op.K {
	case "wset":
		if x, y, ok := b.cell(t, raw); ok {
			v := b.value(t)
			if t.Tracing() {
				t.Tracef("Set(%d,%d,%d) of %dx%d", x, y, v, b.w, b.h)
			}
			t.Must("Set", func() { b.a.Set(x, y, v) })
			b.m[x+y*b.w] = v
			b.get(t, x, y)
		}
	case "rget":
		if x, y, ok := b.cell(t, raw); ok {
			b.get(t, x, y)
		}
	case "wfill":
		x1, y1, x2, y2, ok := b.region(t, raw, op.Arg(1))
		if !ok {
			return
		}
		v := b.value(t)
		for y := y1; y <= y2; y++ {
			for x := x1; x <= x2; x++ {
				b.m[x+y*b.w] = v
			}
		}
		p, q := x1, y1
		if op.Arg(2)&1 > 0 {
			x1, x2 = x2, x1
		}
		if op.Arg(2)&2 > 0 {
			y1, y2 = y2, y1
		}
		if t.Tracing() {
			t.Tracef("Fill(%d,%d,%d,%d,%d) of %dx%d", x1, y1, x2, y2, v, b.w, b.h)
		}
		t.Must("Fill", func() { b.a.Fill(x1, y1, x2, y2, v) })
		x2, y2 = max(x1, x2), max(y1, y2)
		for y := q; y <= y2; y++ {
			for x := p; x <= x2; x++ {
				b.get(t, x, y)
			}
		}
	case "wrow", "rrow":
		if x, y, ok := b.cell(t, raw); ok {
			var s arrView
			t.Must("Row", func() { s = b.a.Row(y) })
			_ = x
			b.view(t, "Row", s, 0, y, b.w, op)
		}
	case "wspan", "rspan":
		if x1, y, ok := b.cell(t, raw); ok {
			x2 := op.Arg(2) % b.w
			var s arrView
			if t.Tracing() {
				t.Tracef("RowSpan(%d,%d,%d) of %dx%d", x1, x2, y, b.w, b.h)
			}
			t.Must("RowSpan", func() { s = b.a.RowSpan(x1, x2, y) })
			b.view(t, "RowSpan", s, min(x1, x2), y, abs(x2-x1)+1, op)
		}
	case "rdim":
		var w, h int
		t.Must("Width", func() { w = b.a.Width() })
		t.Must("Height", func() { h = b.a.Height() })
		if w != b.w || h != b.h {
			t.Fail("Width() = %d, Height() = %d of a %dx%d array", w, h, b.w, b.h)
		}
	case "rall":
		b.check(t)
	case "rbad":
		b.bad(t, op)
	}
}

// bad makes an access outside the array, which must panic.
func (b *arrBox) bad(t *Task, op *Op) {
	g := engine.NewRng(uint64(op.Arg(1)))
	off := func(n int) int { return g.Pick(-1, n, n+1, -n-1, n*n+1, n+b.w*b.h, 1<<40, -1<<40) }
	in := func(n int) int {
		if n == 0 {
			return 0
		}
		return g.Intn(n)
	}
	x, y, x2, y2 := in(b.w), in(b.h), in(b.w), in(b.h)
	kind := g.Intn(5)
	switch kind {
	case 0, 1: // Get, Set
		if g.Intn(2) == 0 {
			x = off(b.w)
		} else {
			y = off(b.h)
		}
	case 2:
		y = off(b.h)
	case 3:
		switch g.Intn(3) {
		case 0:
			x = off(b.w)
		case 1:
			x2 = off(b.w)
		default:
			y = off(b.h)
		}
	default:
		switch g.Intn(4) {
		case 0:
			x = off(b.w)
		case 1:
			x2 = off(b.w)
		case 2:
			y = off(b.h)
		default:
			y2 = off(b.h)
		}
	}
	name := ""
	_, p := t.Call(func() {
		switch kind {
		case 0:
			name = "Get"
			b.a.Get(x, y)
		case 1:
			name = "Set"
			b.a.Set(x, y, -77)
		case 2:
			name = "Row"
			b.a.Row(y)
		case 3:
			name = "RowSpan"
			b.a.RowSpan(x, x2, y)
		default:
			name = "Fill"
			b.a.Fill(x, y, x2, y2, -77)
		}
	})
	if !p {
		t.Fail("%s outside the %dx%d array (x %d, y %d, x2 %d, y2 %d) did not panic", name, b.w, b.h, x, y, x2, y2)
	}
}

func (b *arrBox) check(t *Task) {
	b.same(t, b.a, "the array")
}

func (b *arrBox) same(t *Task, a arrI, what string) {
	var sb strings.Builder
	sb.WriteByte('[')
	for y := 0; y < b.h; y++ {
		if y > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteByte('[')
		for x := 0; x < b.w; x++ {
			if x > 0 {
				sb.WriteByte(' ')
			}
			want := b.m[x+y*b.w]
			sb.WriteString(a.show(want))
			var v int
			t.Must("Get", func() { v = a.Get(x, y) })
			if v != want {
				t.Fail("%s (%dx%d) holds %d at (%d,%d), want %d", what, b.w, b.h, v, x, y, want)
			}
		}
		sb.WriteByte(']')
		var row arrView
		t.Must("Row", func() { row = a.Row(y) })
		for x := 0; x < row.n; x++ {
			if x >= b.w || row.at(x) != b.m[x+y*b.w] {
				t.Fail("row %d of %s (%dx%d) is wrong at %d", y, what, b.w, b.h, x)
			}
		}
	}
	sb.WriteByte(']')
	var s string
	t.Must("String", func() { s = a.String() })
	if s != sb.String() {
		t.Fail("String() of %s (%dx%d) is %s, want %s", what, b.w, b.h, s, sb.String())
	}
}

func (b *arrBox) dup(t *Task) copyable {
	n := *b
	t.Must("Copy", func() { n.a = b.a.Copy() })
	n.m = append([]int(nil), b.m...)
	n.next = append([]int(nil), b.next...)
	return &n
}

// arrShared: the tasks own disjoint cells and use them without excluding each other
// (they hold the shared side of a lock whose exclusive side waits until nobody is in).
type arrShared struct {
	b  *arrBox
	l  engine.Lock
	ro bool // nobody writes: everybody may read everything, at any time
}

var arrSpecs = []Spec{
	{K: "wset", W: 24, SW: 3, Args: argArr, NoF: true},
	{K: "wfill", W: 20, SW: 3, Args: argArr, NoF: true},
	{K: "wrow", W: 12, SW: 1, Args: argArr, NoF: true},
	{K: "wspan", W: 16, SW: 1, Args: argArr, NoF: true},
	{K: "rget", W: 10, Args: argArr, NoF: true},
	{K: "rrow", W: 5, Args: argArr, NoF: true},
	{K: "rspan", W: 5, Args: argArr, NoF: true},
	{K: "rdim", W: 3, Args: argArr, NoF: true},
	{K: "rall", W: 3, Args: argArr, NoF: true},
	{K: "rbad", W: 10, Args: argArr, NoF: true},
	{K: "qall", W: 3, Args: argArr, NoF: true},
	{K: "qcopy", W: 2, Args: argArr, NoF: true},
}

func newArrShared(r *engine.Run) engine.Instance {
	b := newArrBox(r)
	if r.Cfg("ro") > 0 {
		return &arrShared{b: b, ro: true}
	}
	n := max(1, len(r.Plan.Tasks))
	b.owner = make([]int, b.w*b.h)
	b.mine = make([][]int, n)
	g := engine.NewRng(uint64(r.Cfg("part")))
	mode, k := g.Intn(6), 1+g.Intn(3)
	for y := 0; y < b.h; y++ {
		for x := 0; x < b.w; x++ {
			o := 0
			switch mode {
			case 0:
				o = y / k
			case 1:
				o = x / k
			case 2:
				o = x/k + y/k
			case 3:
				o = x/((b.w+1)/2) + 2*(y/((b.h+1)/2))
			case 4:
				o = g.Intn(n)
			default:
				o = (x + y*b.w) / k
			}
			o %= n
			b.owner[x+y*b.w] = o
			b.mine[o] = append(b.mine[o], x+y*b.w)
		}
	}
	return &arrShared{b: b}
}

func (w *arrShared) Setup(t *Task, op *Op) { w.b.do(t, op) }

func (w *arrShared) Exec(t *Task, op *Op) {
	if w.ro {
		w.look(t, op)
		return
	}
	if op.K[0] == 'q' {
		t.SetWrite(false)
		t.Lock(&w.l)
		if op.K == "qall" {
			w.b.check(t)
		} else {
			c := w.b.dup(t).(*arrBox)
			c.owner = nil
			c.check(t)
			c.do(t, &Op{K: "wfill", A: op.A}) // must not show in the array
		}
		t.Unlock(&w.l)
		return
	}
	if op.K == "rall" { // a copy is the task's own: no lock from here on
		t.SetWrite(false)
		t.Lock(&w.l)
		c := w.b.dup(t).(*arrBox)
		t.Unlock(&w.l)
		c.owner = nil
		c.check(t)
		c.do(t, &Op{K: "wfill", A: op.A})
		c.check(t)
		return
	}
	t.SetWrite(op.K[0] == 'w')
	t.RLock(&w.l)
	w.b.do(t, op)
	t.RUnlock(&w.l)
}

// look is one of many overlapping reads of an array that nobody writes.
func (w *arrShared) look(t *Task, op *Op) {
	t.SetWrite(false)
	switch op.K {
	case "wset":
		w.b.do(t, &Op{K: "rget", A: op.A})
	case "wrow":
		w.b.do(t, &Op{K: "rrow", A: op.A})
	case "wspan":
		w.b.do(t, &Op{K: "rspan", A: op.A})
	case "wfill", "qcopy":
		c := w.b.dup(t).(*arrBox)
		c.check(t)
		c.do(t, &Op{K: "wfill", A: op.A})
		c.check(t)
	case "rall", "qall":
		w.b.check(t)
	default:
		w.b.do(t, op)
	}
}

func (w *arrShared) Final(t *Task) {
	w.b.check(t)
	c := w.b.dup(t).(*arrBox)
	c.check(t)
}

func init() {
	register(&WL{Name: "array", Pkgs: []string{"array2d"}, Gen: func(g *Gen) {
		genArrCfg(g)
		g.set("part", g.Intn(1<<20))
		if g.pc(10) {
			g.set("ro", 1)
		}
		g.ops(arrSpecs, 5, 24)
	}, New: newArrShared})
	Props["C15"] = []Use{{WL: "array", Weight: 1}}
}
