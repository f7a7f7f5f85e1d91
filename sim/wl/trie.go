package wl

import (
	"sort"
	"strings"

	"verifsim/engine"
)

type trieBox struct {
	h    trieI
	m    map[string]int
	pool []string
	ks   *keyset // indexes into pool
}

var allBytes = func() string {
	var s []byte
	for i := 0; i < 256; i++ {
		s = append(s, byte(i*167+13))
	}
	return string(s)
}()

func newTrieBox(r *engine.Run) *trieBox {
	b := &trieBox{m: map[string]int{}, ks: newKeyset()}
	switch r.Cfg("val") {
	case 1:
		b.h = newTrieT(vStr)
	case 2:
		b.h = newTrieT(vBlob)
	case 3:
		b.h = newTrieT(vAny)
	default:
		b.h = newTrieT(vInt)
	}
	g := engine.NewRng(uint64(r.Cfg("pool")))
	alpha := []string{"a", "ab", "abc", "\x00\xffa", "\x7f\x80\xff\x00", "abcdefghijklmnop", allBytes}[r.Cfg("alpha")%7]
	n := r.Cfg("univ")
	if n < 1 {
		n = 1
	}
	maxLen := r.Cfg("len")
	if maxLen < 1 {
		maxLen = 1
	}
	seen := map[string]bool{"": true}
	for i := 0; i < 20*n && len(b.pool) < n; i++ {
		var s []byte
		if len(b.pool) > 0 && g.P(1, 2) { // extend or cut an earlier key
			p := b.pool[g.Intn(len(b.pool))]
			p = p[:min(len(p), 2000)]
			s = append(s, p[:g.Intn(len(p)+1)]...)
		}
		for k := 1 + g.Intn(maxLen); k > 0; k-- {
			s = append(s, alpha[g.Intn(len(alpha))])
		}
		if !seen[string(s)] {
			seen[string(s)] = true
			b.pool = append(b.pool, string(s))
		}
	}
	return b
}

var trieSpecs = []Spec{
	{K: "wput", W: 26, SW: 3, Args: argRaw, NoF: true},
	{K: "wrem", W: 26, SW: 1, Args: argRaw, NoF: true},
	{K: "wempty", W: 1, SW: 1, Args: argRaw, NoF: true},
	{K: "wbulkput", W: 2, SW: 8, Args: argBulk(40), NoF: true},
	{K: "wbulkrem", W: 2, SW: 2, Args: argBulk(40), NoF: true},
	{K: "rget", W: 14, Args: argRaw, NoF: true},
	{K: "rlong", W: 12, Args: argRaw, NoF: true},
	{K: "rkeys", W: 8, NoF: true, Keeps: true},
	{K: "rprefix", W: 14, Args: argRaw, NoF: true, Keeps: true},
	{K: "rsize", W: 6, NoF: true},
}

func genTrie(g *Gen) {
	genVal(g)
	g.set("pool", g.Intn(1<<30))
	g.set("alpha", g.Intn(7))
	g.set("len", g.Pick(1, 2, 3, 4, 6, 9))
	g.set("univ", g.Pick(1, 2, 3, 5, 8, 12, 20, 40, 80))
	if g.pc(5) {
		g.set("univ", 300)
		g.set("big", 300)
	}
	if g.pc(3) {
		g.set("len", g.Pick(70, 140, 300, 600, 1100)) // long keys
		g.set("univ", g.Pick(2, 4, 6))
	}
	n := g.giant(g.huge(12, 600, 1500), 12000, 40)
	if n > 0 {
		g.set("univ", n)
		g.set("len", g.Pick(3, 6, 9, 40))
	}
	g.ops(withKept(g, trieSpecs), 4, 30)
	if n > 0 {
		g.fill("wbulkput", g.Intn(1<<20), 1, g.most(n), g.Intn(1<<16))
	}
}

func (b *trieBox) idx(raw, mode int) int {
	if mode >= 4 && len(b.ks.ids) > 0 {
		return b.ks.ids[abs(raw)%len(b.ks.ids)]
	}
	return abs(raw) % len(b.pool)
}

// query derives a string from a key: the key, a part of it, or an extension.
func (b *trieBox) query(raw, mode, how int) string {
	s := b.pool[b.idx(raw, mode)]
	switch how % 6 {
	case 0:
		return s
	case 1:
		return s[:raw%(len(s)+1)]
	case 2:
		return s + b.pool[raw%len(b.pool)]
	case 3:
		return s[:len(s)-1] + string([]byte{s[len(s)-1] + 1})
	case 4:
		return s + "z"
	}
	return s[:(len(s)+1)/2]
}

func (b *trieBox) put(t *Task, i, v int) {
	k := b.pool[i]
	if v%16 == 5 {
		v = 0 // the zero value is a value
	}
	if t.Tracing() {
		t.Tracef("Put(%q, %d)", k, v)
	}
	t.Must("Put", func() { b.h.Put(k, v) })
	b.m[k] = v
	b.ks.add(i)
}

func (b *trieBox) rem(t *Task, i int) {
	k := b.pool[i]
	if t.Tracing() {
		t.Tracef("Remove(%q)", k)
	}
	t.Must("Remove", func() { b.h.Remove(k) })
	delete(b.m, k)
	b.ks.del(i)
}

func (b *trieBox) write(t *Task, op *Op) {
	switch op.K {
	case "wput":
		b.put(t, b.idx(op.Arg(0), op.Arg(1)), op.Arg(2)+1)
	case "wrem":
		if op.Arg(2)%5 == 0 {
			// a string that is no key: absent, perhaps an inner node or a longer string
			s := b.query(op.Arg(0), op.Arg(1), op.Arg(2)/5)
			if _, ok := b.m[s]; !ok {
				if t.Tracing() {
					t.Tracef("Remove(%q) of an absent key", s)
				}
				t.Must("Remove", func() { b.h.Remove(s) })
				return
			}
		}
		b.rem(t, b.idx(op.Arg(0), op.Arg(1)))
	case "wempty":
		t.Must("Put", func() { b.h.Put("", 7) })
		t.Must("Remove", func() { b.h.Remove("") })
	case "wbulkput":
		for i := 0; i < op.Arg(2); i++ {
			b.put(t, abs(op.Arg(0)+i*op.Arg(1))%len(b.pool), op.Arg(3)+i+1)
		}
	case "wbulkrem":
		for i := 0; i < op.Arg(2); i++ {
			b.rem(t, abs(op.Arg(0)+i*op.Arg(1))%len(b.pool))
		}
	}
}

func (b *trieBox) get(t *Task, k string) {
	var v int
	var ok, has bool
	t.Must("Get", func() { v, ok = b.h.Get(k) })
	t.Must("Contains", func() { has = b.h.Contains(k) })
	w, had := b.m[k]
	if ok != had || v != w || has != had {
		t.Fail("Get(%q) = (%d,%v), Contains = %v, want (%d,%v)", k, v, ok, has, w, had)
	}
}

func (b *trieBox) long(t *Task, q string) {
	var got string
	t.Must("LongestPrefix", func() { got = b.h.LongestPrefix(q) })
	want := ""
	for i := range q {
		if _, ok := b.m[q[:i]]; ok {
			want = q[:i]
		}
	}
	for i := 1; i <= len(q); i++ {
		if _, ok := b.m[q[:i]]; ok {
			want = q[:i]
		}
	}
	if got != want {
		t.Fail("LongestPrefix(%q) = %q, want %q", q, got, want)
	}
}

func (b *trieBox) prefix(t *Task, op *Op, p string, all bool) {
	var got, want []string
	name := "KeysWithPrefix"
	if all {
		name = "Keys"
		t.Must(name, func() { got = b.h.Keys() })
	} else {
		t.Must(name, func() { got = b.h.KeysWithPrefix(p) })
	}
	for _, i := range b.ks.ids {
		if strings.HasPrefix(b.pool[i], p) {
			want = append(want, b.pool[i])
		}
	}
	sort.Strings(want)
	bad := len(got) != len(want)
	for i := 0; !bad && i < len(got); i++ {
		bad = got[i] != want[i]
	}
	if bad {
		t.Fail("%s(%q) = %q, want %q", name, p, got, want)
	}
	if op != nil {
		keepSlice(t, op, name, got, eqStr, junkStr)
	}
}

func (b *trieBox) size(t *Task) {
	var n int
	t.Must("Size", func() { n = b.h.Size() })
	if n != len(b.m) {
		t.Fail("Size() = %d, want %d", n, len(b.m))
	}
}

func (b *trieBox) read(t *Task, op *Op) {
	switch op.K {
	case "rget":
		b.get(t, b.query(op.Arg(0), op.Arg(1), op.Arg(2)*(op.Arg(2)%3)))
	case "rlong":
		b.long(t, b.query(op.Arg(0), op.Arg(1), op.Arg(2)))
	case "rprefix":
		b.prefix(t, op, b.query(op.Arg(0), op.Arg(1), op.Arg(2)), false)
	case "rkeys":
		b.prefix(t, op, "", true)
	case "rsize":
		b.size(t)
	}
}

func (b *trieBox) check(t *Task) {
	b.size(t)
	b.prefix(t, nil, "", true)
	b.get(t, "")
	b.long(t, "")
	for i, k := range b.pool {
		if i > 40 && i%(1+len(b.pool)/20) > 0 {
			continue
		}
		b.get(t, k)
		b.long(t, k+"a")
		b.prefix(t, nil, k[:len(k)/2], false)
	}
}

func init() {
	register(&WL{Name: "trie", Pkgs: []string{"trie"}, Gen: genTrie, New: func(r *engine.Run) engine.Instance { return &locked{b: newTrieBox(r)} }})
	Props["C09"] = []Use{{WL: "trie", Weight: 1}}
}
