package wl

import (
	"math/bits"
	"runtime"
	"strconv"
	"strings"

	g "github.com/zyedidia/generic"
	"github.com/zyedidia/generic/avl"
	"github.com/zyedidia/generic/bimap"
	"github.com/zyedidia/generic/btree"
	"github.com/zyedidia/generic/cache"
	"github.com/zyedidia/generic/hashmap"
	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/heap"
	"github.com/zyedidia/generic/interval"
	"github.com/zyedidia/generic/list"
	"github.com/zyedidia/generic/multimap"
	"github.com/zyedidia/generic/prope"
	"github.com/zyedidia/generic/queue"
	"github.com/zyedidia/generic/rope"
	"github.com/zyedidia/generic/stack"
	"github.com/zyedidia/generic/trie"
	"github.com/zyedidia/generic/ulist"
	"verifsim/engine"
)

// The progress workload fills containers in adversarial orders and bounds the number
// of own steps of every call, by what the documentation promises for its size. The
// steps of other tasks running meanwhile do not count: neither the schedule nor a
// stalled task may keep an operation from finishing within its bound.

// pgDo is one operation on key or position k; it returns the size of its result.
type pgDo func(k int) int

type pgOp struct {
	name  string
	write bool
	do    pgDo
	mode  int // how the key is chosen
}

const (
	pAny = iota // any key of the universe
	pNew        // a key for an insertion
	pOld        // a key that is present, if any
)

type pgBox struct {
	kind   string
	ops    []pgOp
	size   func() int // the model's
	model  *keyset
	univ   int
	peak   int
	unit   string // "lg" or "1"
	amort  bool
	grows  bool // may keep its entries in an array, which is made anew now and then
	credit uint64
	spent  uint64
	calls  float64
	debit  uint64
	fresh  func()        // called after a write that needs maintenance
	stale  func() bool   // maintenance is overdue: no promise on the costs
	rest   func(t *Task) // a further check of an instance at rest
	full   func(t *Task) // a check while it grows or shrinks
	seen   int           // the size at which it was last made
	probe  func(t *Task) // checks of allocation at the end
	phase  int           // what a bulk of writes puts: lengths of intervals
}

var pgKinds = []string{"avl", "btree", "interval", "heap", "hashmap", "cache", "list", "queue", "stack", "bimap",
	"multimap", "trie", "rope", "prope", "ulist"}

func lg(n int) int { return bits.Len(uint(n) + 1) }

// pgSlack is how many times the cost observed on the reference tree a call may cost.
const pgSlack = 6

// pgMin is the size from which calls are judged.
const pgMin = 400

// PgStat collects the dearest calls, for calibration.
var PgStat map[string]float64

// pgCost holds the dearest call seen on the reference tree, per unit.
var pgCost = map[string]float64{
	"avl.Get": 9, "avl.Height": 3, "avl.Put": 35, "avl.Remove": 37,
	"bimap.Add": 10, "bimap.ContainsForward": 2, "bimap.ContainsReverse": 2, "bimap.GetForward": 2,
	"bimap.GetReverse": 2, "bimap.Len": 2, "bimap.RemoveForward": 3, "bimap.RemoveReverse": 3,
	"btree.Get": 32, "btree.Put": 86, "btree.Remove": 78, "btree.Size": 2,
	"cache.Capacity": 2, "cache.Get": 13, "cache.Put": 22, "cache.Remove": 7,
	"cache.Size": 2, "hashmap.Copy": 3, "hashmap.Size": 2, "hashmap.Put": 45,
	"hashmap.Get": 45, "hashmap.Remove": 45, "heap.Peek": 3, "heap.Pop": 9,
	"heap.Push": 5, "heap.Size": 2, "interval.Add": 51, "interval.Get": 5,
	"interval.Overlaps": 12, "interval.Put": 51, "interval.Remove": 62, "list.InsertAfter": 6,
	"list.InsertBefore": 6, "list.PushBackNode": 6, "list.PushFrontNode": 6, "list.Remove": 6,
	"multimap.Count": 9, "multimap.Get": 9, "multimap.Has": 9, "multimap.Put": 45,
	"multimap.Remove": 37, "multimap.Size": 2, "prope.At": 21, "prope.Insert": 10,
	"prope.Len": 1, "prope.Remove": 38, "prope.Slice": 10, "queue.Empty": 2,
	"queue.Enqueue": 9, "queue.Len": 2, "queue.TryDequeue": 10, "queue.TryPeek": 4,
	"rope.At": 25, "rope.Insert": 26, "rope.Len": 1, "rope.Remove": 75,
	"rope.Slice": 14, "stack.Peek": 3, "stack.Pop": 4, "stack.Push": 3,
	"stack.Size": 2, "trie.Contains": 31, "trie.Get": 30, "trie.KeysWithPrefix": 22,
	"cache.Resize": 35, "interval.Height": 3, "list.PushBack": 6, "list.PushFront": 6,
	"multimap.RemoveAll": 36, "prope.SplitAt": 14, "queue.Peek": 3, "rope.SplitAt": 12,
	"ulist.AddAfter": 19, "ulist.AddBefore": 26, "ulist.Begin": 3, "ulist.End": 6,
	"ulist.Move": 22, "ulist.PushBack": 8, "ulist.PushFront": 9, "ulist.Remove": 14, "ulist.Size": 2,
	"trie.LongestPrefix": 20, "trie.Put": 71, "trie.Remove": 87, "trie.Size": 2,
}

func (b *pgBox) call(t *Task, op *pgOp, k int) bool {
	n := max(b.size(), b.peak*b2i(b.kind == "btree"))
	m := 0
	s0 := t.Own()
	ab := t.Must(op.name, func() { m = op.do(k) })
	s := t.Own() - s0
	if n2 := b.size(); n2 > n {
		n = n2
	}
	key := b.kind + "." + op.name
	if b.amort && op.name != "Copy" && op.name != "Size" {
		if engine.RaceMode && !op.write {
			return ab
		}
		b.spent += s
		if PgStat != nil {
			b.calls++
			if x := float64(b.spent) / (b.calls + 500); x > PgStat[b.kind+".avg"] {
				PgStat[b.kind+".avg"] = x
			}
		}
		b.debit += uint64(pgSlack * b.costOf(key))
		if b.spent > b.debit+20_000 {
			t.Fail("%s on %d entries: the calls so far took %d steps in all, more than the %d that amortised constant cost allows", key, n, b.spent, b.debit+20_000)
		}
		return ab
	}
	if op.write {
		b.credit += pgGrow
	}
	unit := 1
	if b.unit == "lg" && op.name != "Size" && op.name != "Peek" {
		unit = lg(n)
	}
	if ab || n < pgMin && m < pgMin || b.stale != nil && b.stale() {
		return ab // too small to tell one kind of growth from another
	}
	per := float64(s) / float64(unit*(1+m))
	if PgStat != nil && per > PgStat[key] {
		PgStat[key] = per
	}
	limit := uint64(pgSlack*b.costOf(key)*float64(unit*(1+m))) + 40
	if op.write && b.grows && s > limit && s-limit <= b.credit {
		b.credit -= s - limit // an array that is made anew as it grows or shrinks
		return ab
	}
	if s > limit {
		t.Fail("%s took %d steps of its own with %d entries and a result of %d; the documented cost allows %d", key, s, n, m, limit)
	}
	return ab
}

func (b *pgBox) costOf(key string) float64 {
	if c, ok := pgCost[key]; ok {
		return c
	}
	return 1e6
}

// order gives the i-th of n keys in one of several orders.
func pgOrder(pat, i, n int) int {
	switch pat % 8 {
	case 0:
		return i
	case 1:
		return n - 1 - i
	case 2: // from outside in
		if i%2 == 0 {
			return i / 2
		}
		return n - 1 - i/2
	case 3: // from inside out
		if i%2 == 0 {
			return n/2 + i/2
		}
		return n/2 - 1 - i/2
	case 4:
		return (perm[i&4095] + i&^4095) % n
	case 5: // interleaved runs
		h := (n + 1) / 2
		return i/2 + i%2*h
	case 6:
		return i * 7 % n
	}
	return i * 61 % n
}

func (b *pgBox) key(op *pgOp, raw int) int {
	if op.mode == pOld && len(b.model.ids) > 0 {
		return b.model.ids[abs(raw)%len(b.model.ids)]
	}
	if op.mode == pAny && !op.write {
		return abs(raw) % (b.univ + b.univ/4) // some are never present
	}
	return abs(raw) % b.univ
}

var pgSpecs = []Spec{
	{K: "wbulk", W: 4, SW: 1, Args: argPg},
	{K: "wdrain", W: 3, Args: argPg},
	{K: "wsome", W: 8, Args: argPgSome},
	{K: "rsome", W: 12, Args: argPgSome},
}

func argPg(g *Gen) []int     { return []int{g.Intn(8), g.Pick(30, 60, 90, 100), g.Intn(1 << 16)} }
func argPgSome(g *Gen) []int { return []int{g.Intn(1 << 20), g.Log(60), g.Intn(1 << 16)} }

// bulk runs the named operation over a part of the universe in some order.
func (b *pgBox) bulk(t *Task, name string, pat, percent int) {
	for i := range b.ops {
		op := &b.ops[i]
		if op.name != name {
			continue
		}
		for j := 0; j < b.univ*percent/100; j++ {
			if b.call(t, op, abs(pgOrder(pat, j, b.univ))%b.univ) {
				t.Quiet()
			}
			if b.fresh != nil {
				b.fresh()
			}
			if n := b.size(); b.full != nil && n >= pgMin && n != b.seen && nearPow2(n) {
				b.seen = n
				b.full(t)
			}
		}
	}
}

// pgIns is what a call inserts into a rope: always one or two elements, or a varying number.
func pgIns(x, k int) []int {
	switch x / 3 % 4 {
	case 0:
		return []int{1}
	case 1:
		return []int{1, 2}
	}
	return []int{1, 2, 3}[:1+k%3]
}

// nearPow2 tells whether a table of a power of two places may be full.
func nearPow2(n int) bool { return n&(n+1) == 0 || n&(n-1) == 0 || (n+1)&(n+2) == 0 }

func (b *pgBox) write(t *Task, op *Op) {
	switch op.K {
	case "wbulk":
		b.phase = op.Arg(2) % 8
		b.bulk(t, b.ops[0].name, op.Arg(0), op.Arg(1))
	case "wdrain":
		b.bulk(t, b.ops[1].name, op.Arg(0), op.Arg(1))
	case "wsome":
		b.some(t, op, true)
	}
}

func (b *pgBox) some(t *Task, op *Op, writes bool) {
	r := engine.NewRng(uint64(op.Arg(0)))
	for i := 0; i < op.Arg(1); i++ {
		o := &b.ops[r.Intn(len(b.ops))]
		if o.write && !writes {
			continue
		}
		raw := r.Intn(1 << 20)
		if op.Arg(2)%3 == 0 { // stay close
			raw = op.Arg(2) + i%3
		}
		if b.call(t, o, b.key(o, raw)) {
			t.Quiet()
		}
		if writes && b.fresh != nil {
			b.fresh()
		}
	}
}

func (b *pgBox) read(t *Task, op *Op) { b.some(t, op, false) }

func (b *pgBox) check(t *Task) {
	b.some(t, &Op{A: []int{b.univ, 200, 1}}, false)
	if b.full != nil {
		b.full(t)
	}
	b.space(t)
	if b.rest != nil {
		b.rest(t)
	}
	if b.probe != nil && !engine.RaceMode && (b.stale == nil || !b.stale()) {
		b.probe(t)
	}
}

// pgGrow is what each write sets aside for an array to be made anew.
const pgGrow = 12

// pgEntry is the most that an element, or a step on the way to it, may take.
const pgEntry = 64

// space bounds the allocation of a series of writes: each may make a few nodes, all
// together may make the arrays a few times, for growth or the first write to a copy.
func (b *pgBox) space(t *Task) {
	n := max(b.size(), b.peak*b2i(b.kind == "btree" || b.kind == "hashmap"))
	if engine.RaceMode || b.kind == "prope" || n < pgMin || b.stale != nil && b.stale() {
		return
	}
	const calls = 512
	each := 1024
	if b.unit == "lg" {
		each += 32 * lg(n)
	}
	var got uint64
	left := calls
	var ops []*pgOp
	for i := range b.ops {
		if b.ops[i].write && b.ops[i].name != "Copy" {
			ops = append(ops, &b.ops[i])
		}
	}
	if b.kind == "hashmap" {
		for i := range b.ops {
			if b.ops[i].name == "Copy" {
				b.call(t, &b.ops[i], 0) // the next write has to copy the table, but only once
			}
		}
	}
	for left > 0 {
		op := ops[left/32%2]
		k := b.key(op, left*7919)
		var a, z runtime.MemStats
		runtime.ReadMemStats(&a)
		for i := 0; i < 32; i++ {
			b.call(t, op, k+i)
		}
		runtime.ReadMemStats(&z)
		got += z.TotalAlloc - a.TotalAlloc
		left -= 32
	}
	limit := uint64(calls*each + 8*pgEntry*(n+calls))
	if PgStat != nil {
		PgStat[b.kind+".space"] = max(PgStat[b.kind+".space"], float64(got)/float64(limit))
	}
	if got > limit {
		t.Fail("%d writes to %s of %d entries allocated %d bytes, more than the %d that entries and amortised growth allow", calls, b.kind, n, got, limit)
	}
}

// alloc gives the bytes allocated by f; concurrent noise is excluded by repeating.
func alloc(f func()) uint64 {
	best := ^uint64(0)
	for i := 0; i < 3; i++ {
		var a, z runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&z)
		if d := z.TotalAlloc - a.TotalAlloc; d < best {
			best = d
		}
	}
	return best
}

// degrade makes a rope deep by inserting again and again at one place (how = 1, 2) or
// in two places far apart.
func (b *pgBox) degrade(how int, size func() int, ins func(p int)) {
	for i := 0; how > 0 && i < 400; i++ {
		switch {
		case how == 1 || how == 3 && i%2 == 0:
			ins(i / 2 % 2)
		default:
			ins(size() - i/2%2)
		}
	}
}

// flat compares the cost of access to a rope just rebalanced with that of a new one of
// the same contents.
func (b *pgBox) flat(t *Task, what string, n int, at, ref func(i int)) {
	if n < pgMin {
		return
	}
	for i := 0; i < 24; i++ {
		k := (n - 1) * i / 23
		s0 := t.Own()
		t.Safe(func() { at(k) })
		s1 := t.Own()
		t.Safe(func() { ref(k) })
		s2 := t.Own()
		x, y := s1-s0, s2-s1
		if PgStat != nil {
			key := b.kind + ".flat." + what
			PgStat[key] = max(PgStat[key], float64(x)/float64(y))
		}
		if x > 3*y+60 {
			t.Fail("after %s of a rope of %d elements, At(%d) takes %d steps; in a new rope of the same contents %d", what, n, k, x, y)
		}
	}
}

func newProgress(r *engine.Run) engine.Instance {
	n := max(r.Cfg("univ"), 4)
	r.SetBudget(20_000_000)
	b := &pgBox{kind: pgKinds[r.Cfg("kind")%len(pgKinds)], univ: n, peak: n, model: newKeyset(), unit: "1"}
	b.size = func() int { return len(b.model.ids) }
	switch b.kind {
	case "queue", "stack", "heap", "cache", "bimap":
		b.grows = true
	}
	less := func(x, y int) bool { engine.CB(); return x < y }
	add, del := b.model.add, b.model.del
	switch b.kind {
	case "avl":
		b.unit = "lg"
		m := avl.New[int, int](less)
		b.ops = []pgOp{
			{"Put", true, func(k int) int { m.Put(k, k); add(k); return 0 }, pNew},
			{"Remove", true, func(k int) int { m.Remove(k); del(k); return 0 }, pOld},
			{"Get", false, func(k int) int { m.Get(k); return 0 }, pAny},
			{"Height", false, func(k int) int { m.Height(); return 0 }, pAny},
		}
	case "btree":
		b.unit = "lg"
		m := btree.New[int, int](less)
		b.ops = []pgOp{
			{"Put", true, func(k int) int { m.Put(k, k); add(k); return 0 }, pNew},
			{"Remove", true, func(k int) int { m.Remove(k); del(k); return 0 }, pOld},
			{"Get", false, func(k int) int { m.Get(k); return 0 }, pAny},
			{"Size", false, func(k int) int { m.Size(); return 0 }, pAny},
		}
	case "interval":
		b.unit = "lg"
		m := interval.New[int, int]()
		w := 1 + r.Cfg("x")%9
		b.ops = []pgOp{
			{"Put", true, func(k int) int {
				high := k + 1 + k*7%w
				switch {
				case b.phase == 5 || b.phase == 6 && k%8 == 0:
					high = k + b.univ // long
				case b.phase == 7 && k < b.univ:
					high = b.univ // all end together
				}
				m.Put(k, high, k)
				add(k)
				return 0
			}, pNew},
			{"Remove", true, func(k int) int { m.Remove(k); del(k); return 0 }, pOld},
			{"Get", false, func(k int) int { m.Get(k); return 0 }, pAny},
			{"Overlaps", false, func(k int) int { return len(m.Overlaps(k, k+1+k%5)) }, pAny},
			{"Add", true, func(k int) int { m.Add(k, k+1+k*3%w, k); add(k); return 0 }, pNew},
			{"Height", false, func(k int) int { m.Height(); return 0 }, pAny},
		}
	case "heap":
		b.unit = "lg"
		h := heap.New(less)
		c := 0
		b.size = func() int { return c }
		b.ops = []pgOp{
			{"Push", true, func(k int) int { h.Push(k); c++; return 0 }, pNew},
			{"Pop", true, func(k int) int {
				if _, ok := h.Pop(); ok {
					c--
				}
				return 0
			}, pOld},
			{"Peek", false, func(k int) int { h.Peek(); return 0 }, pAny},
			{"Size", false, func(k int) int { h.Size(); return 0 }, pAny},
		}
	case "hashmap":
		b.amort = true
		m := hashmap.New[int, int](uint64(r.Cfg("x")), func(x, y int) bool { engine.CB(); return x == y },
			func(k int) uint64 { engine.CB(); return g.HashInt(k) })
		b.ops = []pgOp{
			{"Put", true, func(k int) int { m.Put(k, k); add(k); return 0 }, pNew},
			{"Remove", true, func(k int) int { m.Remove(k); del(k); return 0 }, pOld},
			{"Get", false, func(k int) int { m.Get(k); return 0 }, pAny},
			{"Copy", true, func(k int) int { m.Copy(); b.debit += uint64(pgSlack * 4 * (len(b.model.ids) + 1)); return 0 }, pAny},
			{"Size", false, func(k int) int { m.Size(); return 0 }, pAny},
		}
		// Looking keys up changes nothing that could be paid for before or later, so
		// that any series of lookups has to be cheap, however full the table is.
		b.full = func(t *Task) {
			var s uint64
			for i := 0; i < 64; i++ {
				k := b.univ + i*i*17
				if i%2 == 0 {
					k = b.key(&b.ops[1], i*7919)
				}
				s0 := t.Own()
				t.Safe(func() { m.Get(k) })
				s += t.Own() - s0
			}
			if PgStat != nil {
				PgStat["hashmap.lookup"] = max(PgStat["hashmap.lookup"], float64(s)/64)
			}
			if s > 64*1000 {
				t.Fail("64 lookups in a hash map of %d entries took %d steps in all, which is no constant on average", len(b.model.ids), s)
			}
		}
		b.probe = func(t *Task) {
			x := alloc(func() { t.Safe(func() { m.Copy() }) })
			if x > 4096 {
				t.Fail("hashmap.Copy of %d entries allocated %d bytes before any write", len(b.model.ids), x)
			}
			hs := hashset.New(16, g.Equals[int], g.HashInt)
			for _, k := range b.model.ids {
				hs.Put(k)
			}
			if x := alloc(func() { hs.Copy().Copy() }); x > 4096 {
				t.Fail("hashset.Copy of %d elements allocated %d bytes before any write", len(b.model.ids), x)
			}
		}
	case "cache":
		c := cache.New[int, int](n/2 + r.Cfg("x")%4)
		b.ops = []pgOp{
			{"Put", true, func(k int) int { c.Put(k, k); add(k); return 0 }, pNew},
			{"Remove", true, func(k int) int { c.Remove(k); del(k); return 0 }, pOld},
			{"Get", true, func(k int) int { c.Get(k); return 0 }, pAny},
			{"Size", false, func(k int) int { c.Size(); return 0 }, pAny},
			{"Capacity", false, func(k int) int { c.Capacity(); return 0 }, pAny},
			{"Resize", true, func(k int) int { c.Resize(n/2 + k%2); return 0 }, pAny},
		}
	case "list":
		l := list.New[int]()
		var nodes []*list.Node[int]
		b.size = func() int { return len(nodes) }
		node := func(k int) *list.Node[int] { return nodes[k%len(nodes)] }
		b.ops = []pgOp{
			{"PushBackNode", true, func(k int) int {
				x := &list.Node[int]{Value: k}
				l.PushBackNode(x)
				nodes = append(nodes, x)
				return 0
			}, pNew},
			{"Remove", true, func(k int) int {
				if len(nodes) == 0 {
					return 0
				}
				x := node(k)
				nodes[k%len(nodes)] = nodes[len(nodes)-1]
				nodes = nodes[:len(nodes)-1]
				l.Remove(x)
				return 0
			}, pOld},
			{"PushBack", true, func(k int) int {
				l.PushBack(k)
				nodes = append(nodes, l.Back)
				return 0
			}, pNew},
			{"PushFront", true, func(k int) int {
				l.PushFront(k)
				nodes = append(nodes, l.Front)
				return 0
			}, pNew},
			{"PushFrontNode", true, func(k int) int {
				x := &list.Node[int]{Value: k}
				l.PushFrontNode(x)
				nodes = append(nodes, x)
				return 0
			}, pNew},
			{"InsertAfter", true, func(k int) int {
				if len(nodes) > 0 {
					x := &list.Node[int]{Value: k}
					l.InsertAfter(node(k), x)
					nodes = append(nodes, x)
				}
				return 0
			}, pNew},
			{"InsertBefore", true, func(k int) int {
				if len(nodes) > 0 {
					x := &list.Node[int]{Value: k}
					l.InsertBefore(node(k), x)
					nodes = append(nodes, x)
				}
				return 0
			}, pNew},
		}
	case "queue":
		q := queue.New[int]()
		c := 0
		b.size = func() int { return c }
		b.ops = []pgOp{
			{"Enqueue", true, func(k int) int { q.Enqueue(k); c++; return 0 }, pNew},
			{"TryDequeue", true, func(k int) int {
				if _, ok := q.TryDequeue(); ok {
					c--
				}
				return 0
			}, pOld},
			{"TryPeek", false, func(k int) int { q.TryPeek(); return 0 }, pAny},
			{"Peek", false, func(k int) int {
				if c > 0 {
					q.Peek()
				}
				return 0
			}, pAny},
			{"Len", false, func(k int) int { q.Len(); return 0 }, pAny},
			{"Empty", false, func(k int) int { q.Empty(); return 0 }, pAny},
		}
	case "stack":
		s := stack.New[int]()
		b.size = func() int { return s.Size() }
		b.ops = []pgOp{
			{"Push", true, func(k int) int { s.Push(k); return 0 }, pNew},
			{"Pop", true, func(k int) int { s.Pop(); return 0 }, pOld},
			{"Peek", false, func(k int) int { s.Peek(); return 0 }, pAny},
			{"Size", false, func(k int) int { s.Size(); return 0 }, pAny},
		}
	case "bimap":
		var m bimap.Bimap[int, int]
		b.ops = []pgOp{
			{"Add", true, func(k int) int { m.Add(k, k^1); add(k); return 0 }, pNew},
			{"RemoveForward", true, func(k int) int { m.RemoveForward(k); del(k); return 0 }, pOld},
			{"RemoveReverse", true, func(k int) int { m.RemoveReverse(k ^ 1); del(k); return 0 }, pOld},
			{"GetForward", false, func(k int) int { m.GetForward(k); return 0 }, pAny},
			{"GetReverse", false, func(k int) int { m.GetReverse(k); return 0 }, pAny},
			{"ContainsForward", false, func(k int) int { m.ContainsForward(k); return 0 }, pAny},
			{"ContainsReverse", false, func(k int) int { m.ContainsReverse(k); return 0 }, pAny},
			{"Len", false, func(k int) int { m.Len(); return 0 }, pAny},
		}
	case "multimap":
		var m multimap.MultiMap[int, int]
		b.unit = "lg"
		switch r.Cfg("x") % 4 {
		case 0:
			m = multimap.NewAvlSlice[int, int](less)
		case 1:
			m = multimap.NewAvlSet[int, int](less, less)
		case 2:
			m = multimap.NewMapSlice[int, int]()
		default:
			m = multimap.NewMapSet[int, int](less)
		}
		wide := r.Cfg("x") >= 4 && r.Cfg("x")%2 == 1 // many values under few keys: sets only
		key := func(k int) (int, int) {
			if wide {
				return k % 3, k / 3
			}
			return k, k % 3
		}
		b.ops = []pgOp{
			{"Put", true, func(k int) int {
				x, y := key(k)
				if !b.model.has(k) {
					m.Put(x, y)
				}
				add(k)
				return 0
			}, pNew},
			{"Remove", true, func(k int) int {
				x, y := key(k)
				c := m.Count(x)
				m.Remove(x, y)
				del(k)
				return c // looks at all values of the key
			}, pOld},
			{"Has", false, func(k int) int { x, _ := key(k); m.Has(x); return 0 }, pAny},
			{"Count", false, func(k int) int { x, _ := key(k); return m.Count(x) }, pAny},
			{"Get", false, func(k int) int { x, _ := key(k); return len(m.Get(x)) }, pAny},
			{"RemoveAll", true, func(k int) int {
				if wide {
					return 0
				}
				x, _ := key(k)
				m.RemoveAll(x)
				del(k)
				return 0
			}, pOld},
			{"Size", false, func(k int) int { m.Size(); return 0 }, pAny},
		}
	case "trie":
		m := trie.New[int]()
		base := []int{2, 3, 4, 10}[r.Cfg("x")%4]
		pre := []string{"", "pre", "some long common prefix/"}[r.Cfg("x")%3]
		key := func(k int) string { return pre + strconv.FormatInt(int64(k), base) }
		if r.Cfg("x") >= 9 { // each key a prefix of others
			key = func(k int) string {
				s := strings.Repeat("x", 1+k%60)
				if k >= 60 {
					s += strconv.FormatInt(int64(k/60), base)
				}
				return s
			}
		}
		b.ops = []pgOp{
			{"Put", true, func(k int) int { s := key(k); m.Put(s, k); add(k); return len(s) }, pNew},
			{"Remove", true, func(k int) int { s := key(k); m.Remove(s); del(k); return len(s) }, pOld},
			{"Get", false, func(k int) int { s := key(k); m.Get(s); return len(s) }, pAny},
			{"Contains", false, func(k int) int { s := key(k); m.Contains(s); return len(s) }, pAny},
			{"LongestPrefix", false, func(k int) int { s := key(k) + "/x"; m.LongestPrefix(s); return len(s) }, pAny},
			{"KeysWithPrefix", false, func(k int) int {
				s := key(k)
				n := len(s)
				for _, x := range m.KeysWithPrefix(s) {
					n += len(x)
				}
				return n
			}, pAny},
			{"Size", false, func(k int) int { m.Size(); return 0 }, pAny},
		}
	case "rope":
		b.unit = "lg"
		x := r.Cfg("x")
		leaf := 8 + r.Cfg("x")
		rope.SplitLength, rope.JoinLength, rope.RebalanceRatio = leaf, leaf/2, 1.2
		n := rope.New(seqOf(1, n/2))
		b.size = func() int { return n.Len() }
		edits, every := 0, []int{12, 12, 1 << 30}[r.Cfg("x")%3]
		b.stale = func() bool { return edits > 12 }
		b.fresh = func() {
			if edits++; edits >= every {
				n.Rebalance()
				edits = 0
			}
		}
		b.rest = func(t *Task) {
			for i, name := range []string{"Rebalance", "Rebuild", "Rebalance", "Rebalance"} {
				m := n
				b.degrade(i, m.Len, func(p int) { m.Insert(p, pgIns(x, p)) })
				t.Must(name, func() {
					if name == "Rebuild" {
						m.Rebuild()
					} else {
						m.Rebalance()
					}
				})
				f := rope.New(m.Value())
				b.flat(t, name, m.Len(), func(i int) { m.At(i) }, func(i int) { f.At(i) })
			}
		}
		b.ops = []pgOp{
			{"Insert", true, func(k int) int {
				if n.Len() < 2*b.univ {
					n.Insert(k%(n.Len()+1), pgIns(x, k))
				}
				return 0
			}, pNew},
			{"Remove", true, func(k int) int {
				p := k % (n.Len() + 1)
				n.Remove(p, min(p+1+k%3, n.Len()))
				return 0
			}, pOld},
			{"At", false, func(k int) int {
				if n.Len() > 0 {
					n.At(k % n.Len())
				}
				return 0
			}, pAny},
			{"Slice", false, func(k int) int {
				p := k % (n.Len() + 1)
				return len(n.Slice(p, min(p+k%50, n.Len())))
			}, pAny},
			{"Len", false, func(k int) int { n.Len(); return 0 }, pAny},
			{"SplitAt", true, func(k int) int {
				l, r := n.SplitAt(k % (n.Len() + 1))
				n = rope.Join(l, r)
				return 0
			}, pAny},
		}
	case "prope":
		b.unit = "lg"
		x := r.Cfg("x")
		leaf := 8 + r.Cfg("x")
		prope.SplitLength, prope.JoinLength, prope.RebalanceRatio = leaf, leaf/2, 1.5
		n := prope.New(seqOf(1, n))
		b.size = func() int { return n.Len() }
		edits, every := 0, []int{12, 12, 1 << 30}[r.Cfg("x")%3]
		b.stale = func() bool { return edits > 12 }
		b.fresh = func() {
			if edits++; edits >= every {
				n = n.Insert(0, nil)
				n.Rebalance()
				edits = 0
			}
		}
		b.rest = func(t *Task) {
			for i, name := range []string{"Rebalance", "Rebuild", "Rebalance", "Rebalance"} {
				m := n.Insert(0, []int{1})
				b.degrade(i, func() int { return m.Len() }, func(p int) { m = m.Insert(p, pgIns(x, p)) })
				t.Must(name, func() {
					if name == "Rebuild" {
						m.Rebuild()
					} else {
						m.Rebalance()
					}
				})
				f := prope.New(m.Value())
				b.flat(t, name, m.Len(), func(i int) { m.At(i) }, func(i int) { f.At(i) })
			}
		}
		b.ops = []pgOp{
			{"Insert", true, func(k int) int {
				if n.Len() < 2*b.univ {
					n = n.Insert(k%(n.Len()+1), pgIns(x, k))
				}
				return 0
			}, pNew},
			{"Remove", true, func(k int) int {
				p := k % (n.Len() + 1)
				n = n.Remove(p, min(p+1+k%3, n.Len()))
				return 0
			}, pOld},
			{"At", false, func(k int) int {
				if n.Len() > 0 {
					n.At(k % n.Len())
				}
				return 0
			}, pAny},
			{"Slice", false, func(k int) int {
				p := k % (n.Len() + 1)
				return len(n.Slice(p, min(p+k%50, n.Len())))
			}, pAny},
			{"Len", false, func(k int) int { n.Len(); return 0 }, pAny},
			{"SplitAt", true, func(k int) int {
				l, r := n.SplitAt(k % (n.Len() + 1))
				n = prope.Join(l, r)
				return 0
			}, pAny},
		}
		b.probe = func(t *Task) {
			if n.Len() < 1000 {
				return
			}
			for _, p := range []int{0, n.Len() / 3, n.Len() - 4} {
				lim := uint64(16*leaf+200) * 8 * uint64(lg(n.Len())) / 4
				if x := alloc(func() { n.Insert(p, []int{1, 2}) }); x > lim {
					t.Fail("prope.Insert into %d elements allocated %d bytes, more than the %d that O(lg n) space allows", n.Len(), x, lim)
				}
				if x := alloc(func() { n.Remove(p, p+2) }); x > lim {
					t.Fail("prope.Remove from %d elements allocated %d bytes, more than the %d that O(lg n) space allows", n.Len(), x, lim)
				}
			}
		}
	case "ulist":
		per := 1 + r.Cfg("x")
		l := ulist.New[int](per)
		var at *ulist.UListIter[int] // a cursor that stays
		b.size = func() int { return l.Size() }
		valid := func() bool {
			if at == nil || !at.IsValid() {
				at = l.Begin()
			}
			return at.IsValid()
		}
		b.ops = []pgOp{
			{"PushBack", true, func(k int) int { l.PushBack(k); at = nil; return per }, pNew},
			{"Remove", true, func(k int) int {
				if valid() {
					l.Remove(at)
				}
				return per
			}, pOld},
			{"PushFront", true, func(k int) int { l.PushFront(k); at = nil; return per }, pNew},
			{"AddAfter", true, func(k int) int {
				if valid() {
					l.AddAfter(at, k)
				}
				return per
			}, pNew},
			{"AddBefore", true, func(k int) int {
				if valid() {
					l.AddBefore(at, k)
				}
				return per
			}, pNew},
			{"Move", true, func(k int) int {
				if valid() && k%3 > 0 {
					at.Next()
				} else if valid() {
					at.Prev()
				}
				return 0
			}, pAny},
			{"Begin", false, func(k int) int { l.Begin(); return 0 }, pAny},
			{"End", false, func(k int) int { l.End(); return 0 }, pAny},
			{"Size", false, func(k int) int { l.Size(); return 0 }, pAny},
		}
	}
	return &locked{b: b}
}

func init() {
	register(&WL{Name: "progress", Pkgs: []string{"avl", "btree", "interval", "heap", "hashmap", "cache", "list", "queue", "stack",
		"bimap", "multimap", "trie", "rope", "prope", "ulist"}, Gen: func(g *Gen) {
		g.set("kind", g.Intn(len(pgKinds)))
		g.set("x", g.Intn(12))
		u := g.Pick(500, 1000, 2000, 4000, 511, 1024, 2047, 4096)
		if g.Deep && g.pc(20) {
			u = g.Pick(10_000, 30_000)
		}
		if g.Race {
			u = min(u, 500)
		}
		g.set("univ", u)
		g.P.Setup = []*Op{{K: "wbulk", A: argPg(g)}}
		g.ops(pgSpecs, 3, 8)
	}, New: newProgress})
	Props["C21"] = []Use{{WL: "progress", Weight: 1, Tune: func(g *Gen) { g.FaultW, g.FaultR = g.Pick(0, 0, 20), g.Pick(0, 0, 20) }}}
}
