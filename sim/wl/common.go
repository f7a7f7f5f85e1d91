// Package wl holds the workloads: for each kind of container the operations that
// simulated tasks run, the reference model they are compared with, and the generator
// of plans.
package wl

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verifsim/engine"
)

type (
	Task = engine.Task
	Op   = engine.Op
	Rng  = engine.Rng
)

// Gen is the context of plan generation.
type Gen struct {
	*Rng
	P    *engine.Plan
	Prop string
	Race bool // built with the happens-before oracle: keep runs short
	Deep bool

	FaultR, FaultW, Nest, Keep, MapOrd int // probability in percent
}

// Spec describes one kind of operation of a box.
type Spec struct {
	K     string // w...: exclusive; r...: shared; u...: no lock
	W     int    // weight
	SW    int    // weight in the setup
	Args  func(g *Gen) []int
	Cost  int  // rough number of library calls; limits its use in big containers
	NoF   bool // invokes no callback
	Vis   bool // has a visitor
	Keeps bool // its result can be retained (argument "keep" is appended)
	Copy  bool
}

// WL is a workload.
type WL struct {
	Pkgs []string
	Name string
	Gen  func(g *Gen)
	New  func(r *engine.Run) engine.Instance
}

// Use says with which weight and emphasis a property uses a workload.
type Use struct {
	WL     string
	Weight int
	Tune   func(g *Gen)
}

var all = map[string]*WL{}

func register(w *WL) { all[w.Name] = w }

// Get finds a workload by name.
func Get(name string) *WL { return all[name] }

// Heavy divides the least number of runs of properties whose runs are long.
var Heavy = map[string]int{"C21": 5}

// Props maps a property to its workloads.
var Props = map[string][]Use{}

// Make generates the plan of a seed.
func Make(prop string, seed uint64, race, deep bool) *engine.Plan {
	g := &Gen{Rng: engine.NewRng(engine.Mix(seed, engine.HashStr(prop))), Prop: prop, Race: race, Deep: deep}
	uses := Props[prop]
	sum := 0
	for _, u := range uses {
		sum += u.Weight
	}
	k := g.Intn(sum)
	var u Use
	for _, u = range uses {
		if k < u.Weight {
			break
		}
		k -= u.Weight
	}
	mode := "plain"
	if race {
		mode = "race"
	}
	g.P = &engine.Plan{Prop: prop, WL: u.WL, Seed: seed, Mode: mode, Cfg: map[string]int{}}
	if u.Tune != nil {
		u.Tune(g)
	}
	all[u.WL].Gen(g)
	return g.P
}

func (g *Gen) set(k string, v int) { g.P.Cfg[k] = v }

// pc is true with the given percentage.
func (g *Gen) pc(n int) bool { return g.Intn(100) < n }

func (g *Gen) one(specs []Spec, setup, reads, writes bool) *Op {
	sum := 0
	w := func(s *Spec) int {
		if setup {
			return s.SW
		}
		isW := s.K[0] == 'w'
		if isW && !writes || !isW && !reads {
			return 0
		}
		return s.W
	}
	for i := range specs {
		sum += w(&specs[i])
	}
	if sum == 0 {
		return nil
	}
	k := g.Intn(sum)
	var s *Spec
	for i := range specs {
		s = &specs[i]
		if k < w(s) {
			break
		}
		k -= w(s)
	}
	op := &Op{K: s.K}
	if s.Args != nil {
		op.A = s.Args(g)
	}
	if setup {
		return op
	}
	if s.Keeps && g.pc(g.Keep) {
		op.A = append(op.A, -7) // retain the result
	}
	f := g.FaultR
	if s.K[0] == 'w' {
		f = g.FaultW
	}
	if !s.NoF && f > 0 && g.pc(f) {
		m := 12
		if s.Cost > 0 {
			m = 60 * s.Cost
		}
		op.F = g.Log(m)
		if g.P.Cfg["big"] > 0 && g.pc(30) {
			op.F = g.Log(2000)
		}
	}
	if s.Vis && g.Nest > 0 && g.pc(g.Nest) {
		op.NA = g.Log(12)
		sub := g.Nest
		g.Nest = g.Nest / 4
		op.N = nil
		for i := 0; i < 4 && op.N == nil; i++ {
			op.N = g.one(specs, false, true, false)
			if op.N != nil && op.N.K[0] == 'u' {
				op.N = nil
			}
		}
		if op.N != nil {
			op.N.F = 0
			op.N.N = nil
		}
		g.Nest = sub
	}
	if g.MapOrd > 0 && g.pc(g.MapOrd) {
		op.MO = g.U64() >> 12
	}
	return op
}

func keepArg(op *Op) bool { return len(op.A) > 0 && op.A[len(op.A)-1] == -7 }

// huge picks, for a few runs in a hundred, a size far beyond the usual ones, so that
// what depends on a size being reached is reached.
func (g *Gen) huge(permille int, sizes ...int) int {
	if g.Intn(1000) >= permille || g.Race && g.pc(85) {
		return 0
	}
	n := g.Pick(sizes...)
	if g.Race {
		n = min(n, 1500) // runs are an order of magnitude slower
	}
	g.set("big", n)
	return n
}

// giant makes a few of the huge runs larger still.
func (g *Gen) giant(n, size, oneIn int) int {
	if n > 0 && !g.Race && g.Intn(oneIn) == 0 {
		n = size
		g.set("big", n)
	}
	return n
}

// fill begins the setup of a huge run with an operation that fills the container.
func (g *Gen) fill(k string, a ...int) {
	g.P.Setup = append([]*Op{{K: k, A: a}}, g.P.Setup...)
	most := 12
	if g.P.Cfg["big"] >= 10000 {
		most = 3
	}
	for i := range g.P.Tasks {
		if n := len(g.P.Tasks[i]); n > most {
			g.P.Tasks[i] = g.P.Tasks[i][:most]
		}
	}
}

// PickS returns one of the strings.
func (g *Gen) PickS(xs ...string) string { return xs[g.Intn(len(xs))] }

// most is a number near n.
func (g *Gen) most(n int) int { return n - g.Intn(n/3+1) + g.Intn(n/10+1) }

// ops fills the plan with setup operations and task scripts.
func (g *Gen) ops(specs []Spec, maxTasks, maxOps int) {
	for n := g.Intn(4); n > 0; n-- {
		if op := g.one(specs, true, true, true); op != nil {
			g.P.Setup = append(g.P.Setup, op)
		}
	}
	if g.P.Cfg["big"] <= 1000 && g.Intn(40) == 0 {
		g.churn(specs)
	}
	nt := 1 + g.Intn(maxTasks)
	if nt == 1 && g.pc(60) {
		nt = 2
	}
	if g.Race {
		maxOps = maxOps * 2 / 3
		if nt == 1 {
			nt = 2
		}
	}
	readers := g.Race && g.P.Cfg["big"] > 0 && g.pc(40)
	for i := 0; i < nt; i++ {
		n := g.Log(maxOps)
		reads, writes := true, !readers
		switch g.Intn(8) {
		case 0:
			writes = false
		case 1:
			reads = readers || g.pc(30)
		}
		var ops []*Op
		for j := 0; j < n; j++ {
			if op := g.one(specs, false, reads, writes); op != nil {
				ops = append(ops, op)
			}
		}
		g.P.Tasks = append(g.P.Tasks, ops)
	}
}

// churn adds a long history of single writes to the setup: what depends on the number of
// operations carried out, rather than on the number of elements, is reached by it.
func (g *Gen) churn(specs []Spec) {
	n := g.Pick(150, 400, 1000, 3000)
	if g.Race {
		n = 150
	}
	var in []Spec
	for _, s := range specs {
		if s.K == "wpb" {
			n = min(n, 300) // lists grow, and are read as a whole all the time
		}
		if s.K[0] == 'w' && s.SW > 0 && !strings.Contains(s.K, "bulk") {
			s.SW = s.W
			in = append(in, s)
		}
	}
	for ; n > 0; n-- {
		if op := g.one(in, true, true, true); op != nil {
			g.P.Setup = append(g.P.Setup, op)
		}
	}
}

// box is a container together with its model; locked runs it under a simulated
// readers-writer lock.
type box interface {
	write(t *Task, op *Op)
	read(t *Task, op *Op)
	check(t *Task)
}

type locked struct {
	b box
	l engine.Lock
}

type kept struct {
	verify   func() string
	scribble func()
	name     string
}

type taskData struct{ kept []kept }

func data(t *Task) *taskData {
	if t.Data == nil {
		t.Data = &taskData{}
	}
	return t.Data.(*taskData)
}

func (w *locked) Setup(t *Task, op *Op) { w.b.write(t, op) }

func (w *locked) Exec(t *Task, op *Op) {
	switch op.K[0] {
	case 'w':
		t.SetWrite(true)
		t.Lock(&w.l)
		w.b.write(t, op)
		t.Unlock(&w.l)
	case 'r':
		t.SetWrite(false)
		t.RLock(&w.l)
		w.b.read(t, op)
		t.RUnlock(&w.l)
	case 'u':
		d := data(t)
		if len(d.kept) == 0 {
			return
		}
		k := &d.kept[op.Arg(0)%len(d.kept)]
		if op.Arg(1)%3 == 0 {
			k.scribble()
		} else if s := k.verify(); s != "" {
			t.Fail("result of %s changed after it was returned: %s", k.name, s)
		}
	}
}

func (w *locked) Nested(t *Task, op *Op) { w.b.read(t, op) }

func (w *locked) Final(t *Task) {
	w.b.check(t)
}

// keepSlice retains a returned slice.
func keepSlice[T any](t *Task, op *Op, name string, got []T, eq func(a, b T) bool, junk func(i int) T) {
	if !keepArg(op) || len(got) == 0 {
		return
	}
	want := append([]T(nil), got...)
	d := data(t)
	d.kept = append(d.kept, kept{
		name: name,
		verify: func() string {
			for i := range want {
				if !eq(want[i], got[i]) {
					return fmt.Sprintf("element %d was %v, is now %v", i, want[i], got[i])
				}
			}
			return ""
		},
		scribble: func() {
			for i := range got {
				got[i] = junk(i)
				want[i] = got[i]
			}
			// the owner may also append to it
			got = append(got, junk(7))
			want = append(want, got[len(got)-1])
		},
	})
}

func eqInt(a, b int) bool    { return a == b }
func junkInt(i int) int      { return -1000 - i }
func eqStr(a, b string) bool { return a == b }
func junkStr(i int) string   { return "junk" }
func argRaw(g *Gen) []int    { return []int{g.Intn(1 << 20), g.Intn(8), g.Intn(1 << 16)} }
func argNone(g *Gen) []int   { return nil }
func argKept(g *Gen) []int   { return []int{g.Intn(64), g.Intn(6)} }
func argBulk(n int) func(*Gen) []int {
	return func(g *Gen) []int {
		m := n
		if b := g.P.Cfg["big"]; b > 0 {
			m = b
		}
		return []int{g.Intn(1 << 20), g.Pick(1, 1, 1, 2, 3, 7, -1), g.Log(m), g.Intn(1 << 16)}
	}
}

// keyset is a set of small ids with deterministic choice of a member.
type keyset struct {
	ids []int
	pos map[int]int
}

func newKeyset() *keyset { return &keyset{pos: map[int]int{}} }

func (s *keyset) has(k int) bool { _, ok := s.pos[k]; return ok }
func (s *keyset) add(k int) {
	if s.has(k) {
		return
	}
	s.pos[k] = len(s.ids)
	s.ids = append(s.ids, k)
}
func (s *keyset) del(k int) {
	p, ok := s.pos[k]
	if !ok {
		return
	}
	last := len(s.ids) - 1
	s.ids[p] = s.ids[last]
	s.pos[s.ids[p]] = p
	s.ids = s.ids[:last]
	delete(s.pos, k)
}
func (s *keyset) clone() *keyset {
	n := newKeyset()
	for _, k := range s.ids {
		n.add(k)
	}
	return n
}
func (s *keyset) sorted() []int {
	r := append([]int(nil), s.ids...)
	sort.Ints(r)
	return r
}

// ints prints like fmt, without its pools, whose locks would hide races.
func ints(a []int) string {
	s := "["
	for i, x := range a {
		if i > 0 {
			s += " "
		}
		s += strconv.Itoa(x)
	}
	return s + "]"
}

func show(x any) string {
	s := fmt.Sprint(x)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func isqrt(n int) int {
	i := 0
	for i*i < n {
		i++
	}
	return i
}
