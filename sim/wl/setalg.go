package wl

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/zyedidia/generic/hashset"
	"github.com/zyedidia/generic/mapset"
	"github.com/zyedidia/generic/set"
	"verifsim/engine"
)

type ids map[int]bool

func (m ids) clone() ids {
	n := ids{}
	for k := range m {
		n[k] = true
	}
	return n
}

func (m ids) sorted() []int {
	r := make([]int, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Ints(r)
	return r
}

// setBox is a family of sets over one universe with their models.
type setBox[K comparable] struct {
	c    *codec[K]
	s    []set.Set[K]
	m    []ids
	univ int
	seed int
}

func (b *setBox[K]) fresh(t *Task, kind, capacity int, in ...int) (s set.Set[K]) {
	if t != nil {
		t.Safe(func() { s = b.fresh(nil, kind, capacity, in...) })
		return
	}
	var ks []K
	for _, i := range in {
		ks = append(ks, b.c.enc(i, 0))
	}
	switch kind % 4 {
	case 0:
		s = set.NewMapset(ks...)
	case 1:
		s = set.NewHashset(uint64(capacity), b.c.equals, b.c.hash, ks...)
	case 2:
		s = set.NewSet(func() set.SetOf[K] { return hashset.New(uint64(capacity), b.c.equals, b.c.hash) }, ks...)
	default:
		s = set.NewSet(func() set.SetOf[K] { return mapset.New[K]() }, ks...)
	}
	spoil(ks, in, b.c)
	return s
}

func newSetBox[K comparable](r *engine.Run, c *codec[K]) *setBox[K] {
	b := &setBox[K]{c: c, univ: max(1, r.Cfg("univ")), seed: r.Cfg("kinds")}
	g := engine.NewRng(uint64(b.seed))
	n := 1 + g.Intn(4)
	hashOnly, mapOnly := g.Intn(4) == 0, g.Intn(6) == 0
	for i := 0; i < n; i++ {
		kind := g.Intn(4)
		if hashOnly {
			kind = 1
		} else if mapOnly {
			kind = 0
		}
		var in []int
		m := ids{}
		for k := g.Intn(2 * b.univ); k > 0; k-- {
			x := g.Intn(b.univ)
			in = append(in, x)
			m[x] = true
		}
		b.s = append(b.s, b.fresh(nil, kind, g.Pick(0, 1, 2, 3, 8, 30), in...))
		b.m = append(b.m, m)
	}
	return b
}

func mkSetBox(r *engine.Run) copyable {
	switch r.Cfg("key") {
	case 0:
		return newSetBox(r, intCodec(r.Cfg("enc"), 0, r.Cfg("hash")))
	case 1:
		return newSetBox(r, strCodec(r.Cfg("enc"), 0, r.Cfg("hash")))
	}
	return newSetBox(r, intCodec(0, 0, 0))
}

func genSetCfg(g *Gen) {
	g.set("univ", g.Pick(1, 2, 3, 4, 6, 8, 12, 20))
	g.set("kinds", g.Intn(1<<20))
	g.set("hash", g.Intn(9))
	g.set("enc", g.Intn(12))
	g.set("key", g.Pick(0, 0, 1))
	if n := g.huge(12, 100, 300, 1000); n > 0 {
		n = g.giant(n, 5000, 40)
		g.set("univ", n)
		if h := g.P.Cfg["hash"]; h == 1 || h == 2 || h == 7 || h == 4 || h == 8 {
			g.set("hash", 0)
		}
	}
}

func argSet(g *Gen) []int { return []int{g.Intn(1 << 20), g.Intn(8), g.Intn(1 << 20), 0, g.Intn(16)} }

var setSpecs = []Spec{
	{K: "wput", W: 16, SW: 6, Args: argSet},
	{K: "wrem", W: 8, SW: 1, Args: argSet},
	{K: "wclear", W: 1, Args: argSet, NoF: true},
	{K: "winter", W: 8, SW: 1, Args: argSet},
	{K: "wdiff", W: 8, SW: 1, Args: argSet},
	{K: "wunion", W: 8, SW: 1, Args: argSet},
	{K: "rinter", W: 6, Args: argSet},
	{K: "rdiff", W: 6, Args: argSet},
	{K: "runion", W: 6, Args: argSet},
	{K: "rsym", W: 9, Args: argSet},
	{K: "rconst", W: 8, Args: argSet},
	{K: "rclone", W: 3, Args: argSet},
	{K: "rtest", W: 16, Args: argSet},
	{K: "rkeys", W: 4, Args: argSet, Keeps: true},
	{K: "rmap", W: 4, Args: argSet, Keeps: true},
	{K: "rstr", W: 2, Args: argSet},
	{K: "reach", W: 4, Args: argSet, Vis: true},
	{K: "rhas", W: 6, Args: argSet},
}

// operands picks the operands of an operation on set i, in some form.
func (b *setBox[K]) operands(t *Task, g *Rng, i, n int) (ops []set.SetOf[K], ms []ids, text string) {
	for ; n > 0; n-- {
		j := g.Intn(len(b.s))
		if g.Intn(6) == 0 {
			j = i
		}
		switch g.Intn(5) {
		case 0, 1:
			ops, ms, text = append(ops, b.s[j]), append(ms, b.m[j]), text+" #"+strconv.Itoa(j)
		case 2, 3:
			ops, ms, text = append(ops, b.s[j].SetOf), append(ms, b.m[j]), text+" raw#"+strconv.Itoa(j)
		default:
			var in []int
			m := ids{}
			for k := g.Intn(2*b.univ + 1); k > 0; k-- {
				x := g.Intn(b.univ)
				in = append(in, x)
				m[x] = true
			}
			ops, ms, text = append(ops, b.fresh(t, g.Intn(4), g.Intn(9), in...)), append(ms, m), text+" new"+ints(in)
		}
	}
	return
}

func algebra(kind byte, m ids, ms []ids) ids {
	out := m.clone()
	switch kind {
	case 'i':
		for _, o := range ms {
			for k := range m {
				if !o[k] {
					delete(out, k)
				}
			}
		}
	case 'd':
		for _, o := range ms {
			for k := range o {
				delete(out, k)
			}
		}
	case 'u':
		for _, o := range ms {
			for k := range o {
				out[k] = true
			}
		}
	case 's':
		n := map[int]int{}
		for _, o := range append([]ids{m}, ms...) {
			for k := range o {
				n[k]++
			}
		}
		out = ids{}
		for k, c := range n {
			if c == 1 {
				out[k] = true
			}
		}
	}
	return out
}

// same compares a set with a model by every means.
func (b *setBox[K]) same(t *Task, what string, s set.SetOf[K], m ids) {
	if t.Fired() {
		return
	}
	seen := ids{}
	if t.Must("Each", func() {
		s.Each(func(k K) {
			i := b.c.dec(k)
			if seen[i] || !m[i] {
				t.Fail("%s: Each visits %d (visited before: %v); want %v", what, i, seen[i], m.sorted())
			}
			seen[i] = true
		})
	}) {
		return
	}
	if len(seen) != len(m) {
		t.Fail("%s holds %v, want %v", what, seen.sorted(), m.sorted())
	}
	var n int
	t.Must("Size", func() { n = s.Size() })
	if n != len(m) {
		t.Fail("%s: Size() = %d, want %d", what, n, len(m))
	}
	for i := 0; i <= b.univ; i++ {
		var ok bool
		if t.Must("Has", func() { ok = s.Has(b.c.enc(i, 0)) }) {
			return
		}
		if ok != m[i] {
			t.Fail("%s: Has(%d) = %v, want %v", what, i, ok, m[i])
		}
	}
}

func (b *setBox[K]) pick(op *Op) int { return op.Arg(1) % len(b.s) }

func (b *setBox[K]) write(t *Task, op *Op) {
	i := b.pick(op)
	g := engine.NewRng(uint64(op.Arg(2)))
	x := op.Arg(0) % b.univ
	s, m := b.s[i], b.m[i]
	switch op.K {
	case "wput", "wrem":
		put := op.K == "wput"
		if t.Tracing() {
			t.Tracef("%s(%d) on #%d %v", op.K[1:], x, i, m.sorted())
		}
		if t.Must(op.K, func() {
			if put {
				s.Put(b.c.enc(x, 0))
			} else {
				s.Remove(b.c.enc(x, 0))
			}
		}) {
			t.Quiet()
			var ok bool
			t.Must("Has", func() { ok = s.Has(b.c.enc(x, 0)) })
			if ok != m[x] && ok != put {
				t.Fail("after an aborted %s(%d) Has gives %v", op.K[1:], x, ok)
			}
			put = ok
		}
		if put {
			m[x] = true
		} else {
			delete(m, x)
		}
	case "wclear":
		t.Must("Clear", func() { s.Clear() })
		b.m[i] = ids{}
	default:
		os, ms, text := b.operands(t, g, i, g.Pick(1, 1, 1, 2, 3, 0))
		if t.Tracing() {
			t.Tracef("in-place %s of #%d %v with%s", op.K[1:], i, m.sorted(), text)
		}
		want := algebra(op.K[1], m, ms)
		var ret set.Set[K]
		var mid []ids
		if op.F > 0 {
			mid = []ids{m, want}
		}
		if t.Must(op.K, func() {
			switch op.K {
			case "winter":
				ret = s.InPlaceIntersection(os...)
			case "wdiff":
				ret = s.InPlaceDifference(os...)
			case "wunion":
				ret = s.InPlaceUnion(os...)
			}
		}) {
			// done in part: every element is as before or as after
			t.Quiet()
			now := ids{}
			for k := 0; k < b.univ; k++ {
				var ok bool
				t.Must("Has", func() { ok = s.Has(b.c.enc(k, 0)) })
				if ok != mid[0][k] && ok != mid[1][k] {
					t.Fail("after an aborted %s Has(%d) = %v, which is neither as before nor as after", op.K, k, ok)
				}
				if ok {
					now[k] = true
				}
			}
			b.m[i] = now
			b.same(t, "the set after an aborted write", s, now)
			return
		}
		b.m[i] = want
		b.same(t, "the result of the in-place "+op.K[1:], ret, want)
		if g.Intn(2) == 0 {
			b.check(t)
		}
	}
	if op.Arg(0)%3 == 0 {
		b.same(t, "the set after a write", s, b.m[i])
	}
}

// own modifies a result of a read: it belongs to the task.
func (b *setBox[K]) own(t *Task, g *Rng, what string, res set.Set[K], m ids) {
	for n := g.Intn(4); n > 0; n-- {
		x := g.Intn(b.univ)
		abort := false
		if g.Intn(2) == 0 {
			abort = t.Must("Put", func() { res.Put(b.c.enc(x, 0)) })
			m[x] = true
		} else {
			abort = t.Must("Remove", func() { res.Remove(b.c.enc(x, 0)) })
			delete(m, x)
		}
		if abort {
			return
		}
	}
	if g.Intn(8) == 0 {
		t.Must("Clear", func() { res.Clear() })
		m = ids{}
	}
	b.same(t, what+", modified", res, m)
}

func (b *setBox[K]) read(t *Task, op *Op) {
	i := b.pick(op)
	g := engine.NewRng(uint64(op.Arg(2)))
	s, m := b.s[i], b.m[i]
	switch op.K {
	case "rinter", "rdiff", "runion", "rsym":
		os, ms, text := b.operands(t, g, i, g.Pick(1, 1, 1, 2, 2, 3, 4, 0))
		want := algebra(op.K[1], m, ms)
		if t.Tracing() {
			t.Tracef("%s of #%d %v with%s", op.K[1:], i, m.sorted(), text)
		}
		var ret set.Set[K]
		if t.Must(op.K, func() {
			switch op.K {
			case "rinter":
				ret = s.Intersection(os...)
			case "rdiff":
				ret = s.Difference(os...)
			case "runion":
				ret = s.Union(os...)
			default:
				ret = s.SymmetricDifference(os...)
			}
		}) {
			break
		}
		b.same(t, "the result of "+op.K[1:]+" of "+ints(m.sorted())+" with"+text, ret, want)
		b.own(t, g, "the result of "+op.K[1:], ret, want)
		for j := range os {
			b.same(t, "an operand of "+op.K[1:], os[j], ms[j])
		}
	case "rconst":
		var in []K
		var xs []int
		cm := ids{}
		for k := g.Intn(2*b.univ + 1); k > 0; k-- {
			x := g.Intn(b.univ)
			xs = append(xs, x)
			in = append(in, b.c.enc(x, 0))
			cm[x] = true
		}
		kind := "iduS"[g.Intn(4)]
		var ret set.Set[K]
		if t.Must("Const*", func() {
			switch kind {
			case 'i':
				ret = s.ConstIntersection(in...)
			case 'd':
				ret = s.ConstDifference(in...)
			case 'u':
				ret = s.ConstUnion(in...)
			default:
				kind = 's'
				ret = s.ConstSymmetricDifference(in...)
			}
		}) {
			break
		}
		for j, x := range xs {
			if y := b.c.dec(in[j]); y != x {
				t.Fail("argument %d of a constant-operand operation %c was %d and is now %d", j, kind, x, y)
			}
		}
		spoil(in, xs, b.c)
		want := algebra(kind, m, []ids{cm})
		b.same(t, "the result of a constant-operand operation "+string(kind), ret, want)
		b.own(t, g, "the result of a constant-operand operation "+string(kind), ret, want)
	case "rclone":
		var ret set.Set[K]
		if t.Must("Clone", func() { ret = s.Clone() }) {
			break
		}
		b.same(t, "the clone", ret, m)
		b.own(t, g, "the clone", ret, m.clone())
	case "rtest":
		b.test(t, g, i)
	case "rkeys":
		var got []K
		if t.Must("Keys", func() { got = s.Keys() }) {
			break
		}
		seen := ids{}
		for _, k := range got {
			seen[b.c.dec(k)] = true
			if !m[b.c.dec(k)] {
				t.Fail("Keys() lists %v, which is not inside", k)
			}
		}
		if len(got) != len(m) || len(seen) != len(m) {
			t.Fail("Keys() lists %d elements (%d different), want %d", len(got), len(seen), len(m))
		}
		keepSlice(t, op, "Keys", got, func(a, b K) bool { return a == b }, func(i int) K { return b.c.enc(1000+i, 0) })
	case "rmap":
		var got map[K]struct{}
		if t.Must("Map", func() { got = s.Map() }) {
			break
		}
		for k := range got {
			if !m[b.c.dec(k)] {
				t.Fail("Map() holds %v, which is not inside", k)
			}
		}
		if len(got) != len(m) {
			t.Fail("Map() holds %d elements, want %d", len(got), len(m))
		}
		if keepArg(op) {
			want := m.clone()
			d := data(t)
			d.kept = append(d.kept, kept{name: "Map", verify: func() string {
				for k := range got {
					if !want[b.c.dec(k)] {
						return fmt.Sprintf("holds %v", k)
					}
				}
				if len(got) != len(want) {
					return fmt.Sprintf("holds %d elements, had %d", len(got), len(want))
				}
				return ""
			}, scribble: func() {
				got[b.c.enc(b.univ+3, 0)] = struct{}{}
				want[b.univ+3] = true
				delete(got, b.c.enc(0, 0))
				delete(want, 0)
			}})
		}
	case "rstr":
		var got string
		if t.Must("String", func() { got = s.String() }) {
			break
		}
		var parts []string
		for k := range m {
			parts = append(parts, fmt.Sprint(b.c.enc(k, 0)))
		}
		sort.Strings(parts)
		if want := "[" + strings.Join(parts, " ") + "]"; got != want {
			t.Fail("String() = %q, want %q", got, want)
		}
	case "reach":
		seen := ids{}
		aborted := t.Must("Each", func() {
			s.Each(func(k K) {
				i := b.c.dec(k)
				if seen[i] || !m[i] {
					t.Fail("Each visits %d (visited before: %v); want %v", i, seen[i], m.sorted())
				}
				seen[i] = true
				t.Visit()
			})
		})
		if !aborted && len(seen) != len(m) {
			t.Fail("Each visits %v, want %v", seen.sorted(), m.sorted())
		}
	case "rhas":
		for k := 0; k < 3; k++ {
			x := (op.Arg(0) + k) % b.univ
			var ok bool
			if t.Must("Has", func() { ok = s.Has(b.c.enc(x, 0)) }) {
				break
			}
			if ok != m[x] {
				t.Fail("Has(%d) = %v, want %v", x, ok, m[x])
			}
		}
	}
	if op.Arg(0)%4 == 0 {
		b.same(t, "the set after a read", s, m)
	}
}

func (b *setBox[K]) test(t *Task, g *Rng, i int) {
	s, m := b.s[i], b.m[i]
	os, ms, text := b.operands(t, g, i, 1)
	o, om := os[0], ms[0]
	if k := g.Intn(4); k > 0 {
		// a relative of the receiver: equal, one more or one less
		var in []int
		om = m.clone()
		x := g.Intn(b.univ)
		switch k {
		case 2:
			om[x] = true
		case 3:
			delete(om, x)
		}
		for x := range om {
			in = append(in, x)
		}
		sort.Ints(in)
		o = b.fresh(t, g.Intn(4), g.Intn(9), in...)
		text = " new" + ints(in)
	}
	sub, sup, disj := true, true, true
	for k := range m {
		if om[k] {
			disj = false
		} else {
			sub = false
		}
	}
	for k := range om {
		if !m[k] {
			sup = false
		}
	}
	eq := sub && sup
	type tc struct {
		name string
		f    func(set.SetOf[K]) bool
		want bool
	}
	tests := []tc{
		{"IsDisjoint", s.IsDisjoint, disj},
		{"IsSubset", s.IsSubset, sub},
		{"IsSuperset", s.IsSuperset, sup},
		{"Equal", s.Equal, eq},
		{"IsProperSubset", s.IsProperSubset, sub && !eq},
		{"IsProperSuperset", s.IsProperSuperset, sup && !eq},
	}
	first := g.Intn(len(tests))
	for n := 0; n < 3; n++ {
		c := tests[(first+n)%len(tests)]
		var got bool
		if t.Must(c.name, func() { got = c.f(o) }) {
			return
		}
		if got != c.want {
			t.Fail("%s = %v, want %v, for %v and%s = %v", c.name, got, c.want, m.sorted(), text, om.sorted())
		}
	}
	b.same(t, "the argument of a test", o, om)
}

func (b *setBox[K]) check(t *Task) {
	for i := range b.s {
		b.same(t, "set #"+strconv.Itoa(i), b.s[i], b.m[i])
	}
}

// dup clones the first set, or derives one equal to a known result.
func (b *setBox[K]) dup(t *Task) copyable {
	n := &setBox[K]{c: b.c, univ: b.univ, seed: b.seed + 1}
	g := engine.NewRng(uint64(n.seed))
	for i := range b.s {
		var s set.Set[K]
		m := b.m[i].clone()
		t.Must("Clone", func() {
			os, ms, _ := b.operands(t, g, i, 1+g.Intn(2))
			switch g.Intn(8) {
			case 0:
				s, m = b.s[i].Union(os...), algebra('u', m, ms)
			case 1:
				s, m = b.s[i].Intersection(os...), algebra('i', m, ms)
			case 2:
				s, m = b.s[i].Difference(os...), algebra('d', m, ms)
			case 3:
				s, m = b.s[i].SymmetricDifference(os...), algebra('s', m, ms)
			case 4:
				s = b.s[i].Union()
			default:
				s = b.s[i].Clone()
			}
		})
		n.s, n.m = append(n.s, s), append(n.m, m)
	}
	return n
}

func init() {
	register(&WL{Name: "setalg", Pkgs: []string{"set", "hashset", "mapset", "hashmap"}, Gen: func(g *Gen) {
		genSetCfg(g)
		n := 20
		if g.P.Cfg["big"] > 0 {
			n = 6
		}
		g.ops(withKept(g, setSpecs), 4, n)
	}, New: func(r *engine.Run) engine.Instance { return &locked{b: mkSetBox(r)} }})
	Props["C16"] = []Use{{WL: "setalg", Weight: 1, Tune: func(g *Gen) { g.MapOrd = 60 }}}
}
