package wl

import "verifsim/engine"

// cacheBox is an LRU cache with its entries from most to least recently used.
type cacheBox struct {
	c     cacheI
	order []int
	vals  map[int]int
	cap   int
	univ  int
	next  int
	cb    int // which callback is set; 0: none

	t       *Task
	phase   string // "put", "resize" while such a call may evict
	goal    int    // size down to which it evicts
	seed    int    // of what the callback does
	evicted int
}

func newCacheBox(r *engine.Run) *cacheBox {
	b := &cacheBox{vals: map[int]int{}, cap: r.Cfg("cap"), univ: r.Cfg("univ"), next: 100}
	if b.univ < 1 {
		b.univ = 1
	}
	switch r.Cfg("val") {
	case 1:
		b.c = newCacheT(b.cap, vStr, vInt)
	case 2:
		b.c = newCacheT(b.cap, vInt, vBlob)
	case 3:
		b.c = newCacheT(b.cap, vStr, vAny)
	default:
		b.c = newCacheT(b.cap, vInt, vInt)
	}
	b.setCB(r.Cfg("cb"))
	return b
}

func (b *cacheBox) setCB(id int) {
	b.cb = id
	if id == 0 {
		b.c.SetEvictCallback(nil)
		return
	}
	b.c.SetEvictCallback(func(k, v int) { b.evict(id, k, v) })
}

// evict is the eviction callback.
func (b *cacheBox) evict(id, k, v int) {
	t := b.t
	t.Add(engine.CEvict, 1)
	if t.Tracing() {
		t.Tracef("callback %d: evicting (%d,%d)", id, k, v)
	}
	if id != b.cb {
		t.Fail("a replaced eviction callback was called")
	}
	n := len(b.order)
	if b.phase == "" || n <= b.goal {
		t.Fail("the eviction callback was called for key %d although nothing has to be evicted", k)
	}
	if victim := b.order[n-1]; k != victim || v != b.vals[victim] {
		t.Fail("the eviction callback got (%d,%d), the least recently used entry is (%d,%d)", k, v, victim, b.vals[victim])
	}
	g := engine.NewRng(uint64(b.seed + b.evicted))
	if g.Intn(3) > 0 {
		phase := b.phase
		b.phase = ""
		for i := g.Intn(3); i >= 0; i-- {
			t.Add(engine.CNested, 1)
			switch g.Intn(6) {
			case 0:
				b.get(t, k)
			case 1, 2:
				b.get(t, b.key(g.Intn(1<<10), g.Intn(8)))
			case 3:
				b.size(t, "in the callback ")
			default:
				b.each(t, false)
			}
		}
		b.phase = phase
	}
	engine.CB()
	b.drop(k)
	b.evicted++
}

func (b *cacheBox) drop(k int) {
	for i, x := range b.order {
		if x == k {
			b.order = append(b.order[:i:i], b.order[i+1:]...)
			delete(b.vals, k)
			return
		}
	}
}

func (b *cacheBox) front(k int) {
	for i, x := range b.order {
		if x == k {
			copy(b.order[1:i+1], b.order[:i])
			b.order[0] = k
			return
		}
	}
	b.order = append([]int{k}, b.order...)
}

func (b *cacheBox) key(raw, mode int) int {
	if n := len(b.order); n > 0 {
		switch mode {
		case 4, 5:
			return b.order[raw%n]
		case 6:
			return b.order[n-1]
		case 7:
			return b.order[n-1-raw%min(n, 2)]
		}
	}
	return raw % b.univ
}

var cacheSpecs = []Spec{
	{K: "wput", W: 40, SW: 8, Args: argCache},
	{K: "wbulkput", W: 4, SW: 6, Args: argCache},
	{K: "wget", W: 24, SW: 1, Args: argCache, NoF: true},
	{K: "wrem", W: 10, SW: 1, Args: argCache, NoF: true},
	{K: "wresize", W: 10, SW: 1, Args: argCache},
	{K: "wsetcb", W: 4, Args: argCache, NoF: true},
	{K: "rsize", W: 5, Args: argCache, NoF: true},
	{K: "rcap", W: 3, Args: argCache, NoF: true},
	{K: "reach", W: 10, Args: argCache, Vis: true},
}

func argCache(g *Gen) []int {
	c := g.P.Cfg["cap"]
	return []int{g.Intn(1 << 10), g.Intn(8), g.Intn(1 << 16), g.Pick(0, 0, 1, 2, c, c, c+1, c+1, c/2, c-1, c+4, 2*c)}
}

// call runs a write that may evict; it reports an abort.
func (b *cacheBox) call(t *Task, phase, name string, goal, seed int, f func()) bool {
	b.phase, b.goal, b.seed, b.evicted, b.t = phase, goal, seed, 0, t
	aborted := t.Must(name, f)
	b.phase = ""
	if b.cb == 0 {
		// nobody told the model
		for len(b.order) > goal {
			b.drop(b.order[len(b.order)-1])
		}
	}
	return aborted
}

func (b *cacheBox) put(t *Task, k, seed int) bool {
	old, had := b.vals[k]
	b.next++
	v := b.next
	switch {
	case seed%8 == 1 && had:
		v = old // nothing changes but the order
	case seed%16 == 2:
		v = 0
	}
	if t.Tracing() {
		t.Tracef("Put(%d,%d) with %s of %d", k, v, show(b.order), b.cap)
	}
	goal := len(b.order)
	if !had && goal == b.cap && goal > 0 {
		goal--
	}
	if b.call(t, "put", "Put", goal, seed, func() { b.c.Put(k, v) }) {
		t.Quiet()
		b.check(t) // as before the call
		t.Add(engine.CAbortedBefore, 1)
		return true
	}
	if len(b.order) != goal {
		t.Fail("Put(%d) did not call the eviction callback, %d of %d entries inside", k, len(b.order), b.cap)
	}
	if b.cap > 0 {
		b.front(k)
		b.vals[k] = v
	}
	return false
}

func (b *cacheBox) write(t *Task, op *Op) {
	switch op.K {
	case "wput":
		b.put(t, b.key(op.Arg(0), op.Arg(1)), op.Arg(2))
	case "wbulkput":
		n := 1 + op.Arg(2)%8
		if op.Arg(3) < 0 { // the filling of a huge one
			n = op.Arg(2)
		}
		for i := 0; i < n; i++ {
			if b.put(t, (op.Arg(0)+i)%b.univ, op.Arg(2)+i) {
				return
			}
		}
	case "wget":
		b.get(t, b.key(op.Arg(0), op.Arg(1)))
	case "wrem":
		k := b.key(op.Arg(0), op.Arg(1))
		if t.Tracing() {
			t.Tracef("Remove(%d)", k)
		}
		t.Must("Remove", func() { b.c.Remove(k) })
		b.drop(k)
	case "wresize":
		n := max(0, op.Arg(3))
		if t.Tracing() {
			t.Tracef("Resize(%d) from %d, %d entries", n, b.cap, len(b.order))
		}
		aborted := b.call(t, "resize", "Resize", min(n, len(b.order)), op.Arg(2), func() { b.c.Resize(n) })
		if aborted {
			t.Quiet()
			var c int
			t.Must("Capacity", func() { c = b.c.Capacity() })
			if c < min(n, b.cap) || c > max(n, b.cap) || c < len(b.order) {
				t.Fail("after an aborted Resize(%d) from %d Capacity() = %d with %d entries", n, b.cap, c, len(b.order))
			}
			b.cap = c
			b.check(t)
			return
		}
		if len(b.order) > n {
			t.Fail("Resize(%d) left %d entries", n, len(b.order))
		}
		b.cap = n
	case "wsetcb":
		t.Must("SetEvictCallback", func() { b.setCB(op.Arg(2) % 4) })
	}
	if op.Arg(0)%4 == 0 {
		b.check(t)
	}
}

func (b *cacheBox) get(t *Task, k int) {
	var v int
	var ok bool
	t.Must("Get", func() { v, ok = b.c.Get(k) })
	want, had := b.vals[k]
	if t.Tracing() {
		t.Tracef("Get(%d) = %d, %v", k, v, ok)
	}
	if ok != had || v != want {
		t.Fail("Get(%d) = (%d,%v), want (%d,%v)", k, v, ok, want, had)
	}
	if had {
		b.front(k)
	}
}

func (b *cacheBox) size(t *Task, where string) {
	var n int
	t.Must("Size", func() { n = b.c.Size() })
	if n != len(b.order) {
		t.Fail("%sSize() = %d, want %d", where, n, len(b.order))
	}
}

func (b *cacheBox) each(t *Task, visit bool) {
	i := 0
	aborted := t.Must("Each", func() {
		b.c.Each(func(k, v int) {
			if i >= len(b.order) || k != b.order[i] || v != b.vals[k] {
				t.Fail("Each visits (%d,%d) at position %d; entries by recency: %s", k, v, i, show(b.order))
			}
			i++
			if visit {
				t.Visit()
			}
		})
	})
	if !aborted && i != len(b.order) {
		t.Fail("Each visited %d of %d entries", i, len(b.order))
	}
}

func (b *cacheBox) read(t *Task, op *Op) {
	switch op.K {
	case "rsize":
		b.size(t, "")
	case "rcap":
		var n int
		t.Must("Capacity", func() { n = b.c.Capacity() })
		if n != b.cap {
			t.Fail("Capacity() = %d, want %d", n, b.cap)
		}
	case "reach":
		b.each(t, true)
	}
}

func (b *cacheBox) check(t *Task) {
	b.read(t, &Op{K: "rsize"})
	b.read(t, &Op{K: "rcap"})
	b.each(t, false)
}

// Final also looks every key up and evicts everything.
func (b *cacheBox) final(t *Task) {
	b.check(t)
	for k := 0; k < min(b.univ, 12); k++ {
		b.get(t, k)
	}
	b.check(t)
	for i := 0; i < b.cap+2 && i < 30; i++ {
		b.put(t, b.univ+i, i)
	}
	b.check(t)
	b.write(t, &Op{K: "wresize", A: []int{0, 0, 0, 0}})
}

type lockedCache struct{ locked }

func (w *lockedCache) Final(t *Task) { w.b.(*cacheBox).final(t) }

func init() {
	register(&WL{Name: "cache", Pkgs: []string{"cache", "list"}, Gen: func(g *Gen) {
		c := g.Pick(0, 0, 1, 1, 2, 2, 3, 4, 5, 8, 16)
		genVal(g)
		g.set("cap", c)
		g.set("univ", g.Pick(1, 2, 3, 4, 6, c+1, c+2, 2*c+1, 30))
		g.set("cb", g.Pick(0, 1, 1, 2))
		n := g.giant(g.huge(3, 64, 300, 1000), 4000, 40)
		if n == 0 && g.pc(4) {
			n = 20 + g.Intn(50)
			if g.Race {
				n = 20
			}
			g.set("big", n)
		}
		if n > 0 {
			c = n
			g.set("cap", c)
			g.set("univ", g.Pick(c, c+1, 2*c))
		}
		g.ops(cacheSpecs, 4, 30)
		if n > 0 {
			g.fill("wbulkput", g.Intn(1<<10), 0, g.most(n), -1)
		}
	}, New: func(r *engine.Run) engine.Instance { return &lockedCache{locked{b: newCacheBox(r)}} }})
	Props["C14"] = []Use{{WL: "cache", Weight: 1, Tune: func(g *Gen) {
		if g.pc(60) {
			g.FaultW = g.Pick(5, 20, 50)
		}
		g.FaultR, g.Nest = 5, 10
	}}}
}
