package wl

import "verifsim/engine"

// copyable is a box that can be copied together with its model.
type copyable interface {
	box
	dup(t *Task) copyable
}

// cow: every task owns some handles of copied hash maps or sets and uses them without
// any lock. Handles may be handed to another task through a locked mailbox.
type cow struct {
	r     *engine.Run
	own   [][]copyable
	boxes []copyable // handles made in the setup
	mail  []copyable
	ml    engine.Lock
}

var cowSpecs = []Spec{
	{K: "wput", W: 30, SW: 4, Args: argH},
	{K: "wrem", W: 24, SW: 2, Args: argH},
	{K: "wbulkput", W: 2, SW: 8, Args: argHBulk, Cost: 20},
	{K: "wbulkrem", W: 2, SW: 2, Args: argHBulk, Cost: 20},
	{K: "wclear", W: 5, SW: 1, Args: argH, NoF: true},
	{K: "wcopy", W: 12, SW: 8, Args: argH, NoF: true},
	{K: "wdrop", W: 1, Args: argH, NoF: true},
	{K: "wsend", W: 3, Args: argH, NoF: true},
	{K: "wtake", W: 3, Args: argH, NoF: true},
	{K: "rget", W: 20, Args: argH},
	{K: "reach", W: 10, Args: argH, Vis: true, Cost: 1},
	{K: "rsize", W: 6, Args: argH, NoF: true},
}

func argH(g *Gen) []int {
	return []int{g.Intn(1 << 20), g.Intn(8), g.Intn(1 << 16), 0, g.Intn(16)}
}

func argHBulk(g *Gen) []int {
	a := argBulk(30)(g)
	return append(a, g.Intn(16))
}

// fillIso fills the first handle of a huge run.
func fillIso(g *Gen) {
	n := g.P.Cfg["big"]
	if n == 0 {
		return
	}
	switch g.P.WL {
	case "isobimap":
		fillBM(g)
	case "isoqueue":
		g.fill("wbulkenq", 0, 0, g.most(n), 0)
	case "isostack":
		g.fill("wbulkpush", 0, 0, g.most(n), 0)
	case "cow":
		if g.P.Cfg["full"] > 0 {
			g.fill("wbulkput", g.Intn(1<<20), g.Pick(1, 1, 7, -1), g.most(n), g.Intn(1<<16))
		}
	}
}

func genCow(g *Gen) {
	genKVCfg(g, kHmap, kHmap, kHset)
	if u := g.P.Cfg["univ"]; u > 100 && g.P.Cfg["full"] == 0 && g.pc(80) {
		g.set("univ", 24)
		g.set("big", 0)
	}
	g.ops(cowSpecs, 4, 24)
	if len(g.P.Tasks) == 1 {
		g.P.Tasks = append(g.P.Tasks, nil)
	}
	g.set("copies", 1+g.Intn(2*len(g.P.Tasks)))
	fillIso(g)
}

func newCow(r *engine.Run) engine.Instance {
	return newIso(r, cfgKV(r, initKeys(r)))
}

func newIso(r *engine.Run, b copyable) *cow {
	return &cow{r: r, boxes: []copyable{b}, own: make([][]copyable, len(r.Plan.Tasks))}
}

func (b *kvBox) dup(t *Task) copyable {
	n := *b
	t.Must("Copy", func() { n.h = b.h.Copy() })
	n.m = b.m.clone()
	return &n
}

func (w *cow) Setup(t *Task, op *Op) {
	if op.K == "wcopy" {
		if len(w.boxes) < 8 {
			b := w.boxes[op.Arg(4)%len(w.boxes)]
			w.boxes = append(w.boxes, b.dup(t))
		}
		return
	}
	w.boxes[op.Arg(4)%len(w.boxes)].write(t, op)
}

// deal distributes the handles when the first task starts; it runs in the setup phase
// (the last setup step is implicit).
func (w *cow) Ready(t *Task) {
	for len(w.boxes) < w.r.Cfg("copies")+1 {
		b := w.boxes[len(w.boxes)/2]
		w.boxes = append(w.boxes, b.dup(t))
	}
	for i, b := range w.boxes {
		if len(w.own) > 0 {
			k := i % len(w.own)
			w.own[k] = append(w.own[k], b)
		}
	}
}

func (w *cow) Exec(t *Task, op *Op) {
	own := w.own[t.ID]
	switch op.K {
	case "wtake":
		t.Lock(&w.ml)
		var b copyable
		if len(w.mail) > 0 {
			b = w.mail[0]
			w.mail = w.mail[1:]
		}
		t.Unlock(&w.ml)
		if b != nil {
			t.Tracef("takes a handle")
			w.own[t.ID] = append(own, b)
		}
		return
	}
	if len(own) == 0 {
		return
	}
	i := op.Arg(4) % len(own)
	b := own[i]
	if t.Tracing() {
		t.Tracef("on handle %d/%d:", i, len(own))
	}
	switch op.K {
	case "wcopy":
		t.SetWrite(true)
		if x, ok := b.(*kvBox); ok && op.Arg(2)%64 == 0 { // many copies of which one is used
			t.Must("Copy", func() {
				for k := 245 + op.Arg(0)%16; k > 0; k-- {
					x.h.Copy()
				}
			})
		}
		if len(own) < 6 {
			w.own[t.ID] = append(own, b.dup(t))
		} else {
			own[(i+1)%len(own)] = b.dup(t)
		}
		t.Tracef("Copy()")
	case "wdrop":
		if len(own) > 1 {
			own[i] = own[len(own)-1]
			w.own[t.ID] = own[:len(own)-1]
		}
	case "wsend":
		if len(own) > 1 {
			own[i] = own[len(own)-1]
			w.own[t.ID] = own[:len(own)-1]
			t.Lock(&w.ml)
			w.mail = append(w.mail, b)
			t.Unlock(&w.ml)
			t.Tracef("sends the handle")
		}
	default:
		if op.K[0] == 'w' {
			t.SetWrite(true)
			b.write(t, op)
		} else {
			t.SetWrite(false)
			b.read(t, op)
		}
	}
}

func (w *cow) Nested(t *Task, op *Op) {
	own := w.own[t.ID]
	own[op.Arg(4)%len(own)].read(t, op)
}

func (w *cow) Final(t *Task) {
	for _, o := range w.own {
		for _, b := range o {
			b.check(t)
		}
	}
	for _, b := range w.mail {
		b.check(t)
	}
}
