package wl

import (
	"strconv"
	"strings"

	"verifsim/engine"
)

// solo gives every task a container of its own, which nothing protects: whatever two
// unrelated containers share inside the library shows up as a wrong result or a race.
type solo struct {
	in   []engine.Instance
	mk   []func(t *Task) engine.Instance
	past [][]engine.Instance // those a task has replaced by new ones
}

// soloWLs are the workloads of which a task can have an instance of its own.
var soloWLs = []string{"hash", "hash", "tree", "tree", "interval", "multimap", "bimap", "trie", "queue", "stack",
	"heap", "list", "ulist", "cache", "setalg", "rope", "prope", "solarray"}

func genSolo(g *Gen) {
	n := 2 + g.Intn(3)
	same := g.pc(50) // all tasks use the same kind of container and the same types
	base := soloWLs[g.Intn(len(soloWLs))]
	var cfg map[string]int
	top := g.P
	var names []string
	for i := 0; i < n; i++ {
		name := base
		if !same {
			name = soloWLs[g.Intn(len(soloWLs))]
			for _, x := range names {
				if x == name {
					name = "" // one of each kind: package variables configure ropes
				}
			}
			if name == "" {
				continue
			}
		}
		names = append(names, name)
		g.P = &engine.Plan{Prop: top.Prop, WL: name, Seed: top.Seed, Mode: top.Mode, Cfg: map[string]int{}}
		all[name].Gen(g)
		if same && cfg != nil {
			if n := g.P.Cfg["big"]; n > 0 {
				top.Cfg[strconv.Itoa(len(names)-1)+"/opsbig"] = n // the operations stay those of a huge run
			}
			g.P.Cfg = cfg
		}
		cfg = g.P.Cfg
		for k, v := range g.P.Cfg {
			top.Cfg[strconv.Itoa(len(names)-1)+"/"+k] = v
		}
		top.Cfg[strconv.Itoa(len(names)-1)+"/wl"] = indexOf(soloWLs, name)
		ops := append([]*Op(nil), g.P.Setup...)
		for _, t := range g.P.Tasks {
			if len(ops) < 30 {
				ops = append(ops, t...)
			}
		}
		if g.pc(60) {
			// The task makes its container itself, while the others use theirs.
			ops = g.renew(ops, g.Pick(0, 0, g.Intn(len(ops)+1)))
			for g.pc(30) {
				ops = g.renew(ops, g.Intn(len(ops)+1))
			}
		}
		for j := 0; j < 3 && g.pc(40); j++ {
			ops = insertOp(ops, g.Intn(len(ops)+1), &Op{K: "wcopyown", A: []int{g.Intn(2)}})
		}
		top.Tasks = append(top.Tasks, ops)
	}
	g.P = top
}

func (g *Gen) renew(ops []*Op, i int) []*Op { return insertOp(ops, i, &Op{K: "wctor"}) }

func insertOp(ops []*Op, i int, op *Op) []*Op {
	ops = append(ops, nil)
	copy(ops[i+1:], ops[i:])
	ops[i] = op
	return ops
}

func indexOf(a []string, s string) int {
	for i, x := range a {
		if x == s {
			return i
		}
	}
	return 0
}

func newSolo(r *engine.Run) engine.Instance {
	w := &solo{}
	whole := r.Plan.Cfg
	w.past = make([][]engine.Instance, len(r.Plan.Tasks))
	tasks := r.Plan.Tasks
	for i := range tasks {
		sub := map[string]int{}
		pre := strconv.Itoa(i) + "/"
		for k, v := range whole {
			if strings.HasPrefix(k, pre) {
				sub[k[len(pre):]] = v
			}
		}
		name := soloWLs[sub["wl"]%len(soloWLs)]
		if len(sub) == 0 {
			name = "queue"
		}
		own := r.Sub(&engine.Plan{Prop: r.Plan.Prop, WL: name, Mode: r.Plan.Mode, Cfg: sub, Tasks: [][]*Op{nil}})
		wl := all[name]
		w.in = append(w.in, wl.New(own))
		w.mk = append(w.mk, func(t *Task) engine.Instance {
			own.As(t)
			return wl.New(own)
		})
	}
	return w
}

func (w *solo) Setup(t *Task, op *Op) {}

func (w *solo) Exec(t *Task, op *Op) {
	if op.K == "wctor" {
		t.SetWrite(true)
		var x engine.Instance
		t.Must("the constructor", func() { x = w.mk[t.ID](t) })
		w.past[t.ID] = append(w.past[t.ID], w.in[t.ID])
		w.in[t.ID] = x
		return
	}
	if op.K == "wcopyown" {
		w.copyOwn(t, op)
		return
	}
	w.in[t.ID].Exec(t, op)
}

// copyOwn copies the task's container; the task goes on with one of the two.
func (w *solo) copyOwn(t *Task, op *Op) {
	l, ok := w.in[t.ID].(*locked)
	if !ok {
		return
	}
	b, ok := l.b.(copyable)
	if kv, is := l.b.(*kvBox); is && kv.kind != kHmap && kv.kind != kHset {
		ok = false // has no Copy
	}
	if !ok {
		return
	}
	t.SetWrite(true)
	n := &locked{b: b.dup(t)}
	if op.Arg(0) == 0 {
		w.past[t.ID] = append(w.past[t.ID], n)
	} else {
		w.past[t.ID] = append(w.past[t.ID], l)
		w.in[t.ID] = n
	}
}

func (w *solo) Nested(t *Task, op *Op) {
	if x, ok := w.in[t.ID].(interface{ Nested(*Task, *Op) }); ok {
		x.Nested(t, op)
	}
}
func (w *solo) Final(t *Task) {
	for i, x := range w.in {
		x.Final(t)
		for _, x := range w.past[i] {
			x.Final(t)
		}
	}
}

func init() {
	register(&WL{Name: "solarray", Pkgs: []string{"array2d"}, Gen: func(g *Gen) {
		genArrCfg(g)
		g.ops(arrSpecs, 3, 24)
	}, New: func(r *engine.Run) engine.Instance { return &locked{b: isoArr{newArrBox(r)}} }})
	register(&WL{Name: "solo", Pkgs: []string{"hashmap", "hashset", "mapset", "avl", "btree", "interval", "multimap", "bimap",
		"trie", "queue", "stack", "heap", "list", "ulist", "cache", "set", "rope", "prope", "array2d", "generic.go"}, Gen: genSolo, New: newSolo})
	Props["C20"] = []Use{{WL: "solo", Weight: 1, Tune: func(g *Gen) { g.Keep = g.Pick(0, 20); g.MapOrd = 30 }}}
}
