package wl

import (
	"math"
	"sort"
	"strconv"

	g "github.com/zyedidia/generic"
	"verifsim/engine"
)

// helpers calls the package's pure functions from several tasks at once, without any
// lock: the answer must depend on the arguments alone.
type helpers struct {
	ord   int
	tasks []map[string]uint64 // hashes seen by each task
	bufs  [][]byte            // a buffer of each task, which it modifies in place
}

// hv is a value of which only p takes part in comparisons.
type hv struct{ p, id int }

func newHelpers(r *engine.Run) engine.Instance {
	w := &helpers{ord: r.Cfg("ord")}
	for range r.Plan.Tasks {
		w.tasks = append(w.tasks, map[string]uint64{})
		w.bufs = append(w.bufs, make([]byte, 0, 200))
	}
	return w
}

var helperSpecs = []Spec{
	{K: "rminmax", W: 10, Args: argHelp, NoF: true},
	{K: "rclamp", W: 10, Args: argHelp, NoF: true},
	{K: "rfunc", W: 12, Args: argHelp},
	{K: "rclampf", W: 12, Args: argHelp},
	{K: "rcmp", W: 10, Args: argHelp},
	{K: "rhash", W: 20, Args: argHelp, NoF: true},
	{K: "rbuf", W: 8, Args: argHelp, NoF: true},
	{K: "rlong", W: 8, Args: argHelp, NoF: true},
	{K: "rspread", W: 2, Args: argHelp, NoF: true},
}

func argHelp(g *Gen) []int {
	n := g.Pick(2, 3, 8, 1000, 1<<20, math.MaxInt)
	v := func() int {
		x := int(g.U64()>>1) % n
		switch g.Intn(8) {
		case 0:
			x = g.Pick(0, 1, -1, math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, 127, -128, 255, 256, 65535, 65536)
		case 1:
			x = 1 << g.Intn(63)
		case 2, 3:
			x = -x
		}
		return x
	}
	return []int{v(), v(), v(), g.Intn(64)}
}

func (w *helpers) Setup(t *Task, op *Op) {}

// num checks the helpers of ordered types on three numbers.
func num[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64 | ~string
}](t *Task, a, b, c T, clamp bool) {
	lo, hi := b, c
	if hi < lo {
		lo, hi = hi, lo
	}
	if clamp {
		want := a
		if a < lo {
			want = lo
		} else if hi < a {
			want = hi
		}
		var got T
		t.Must("Clamp", func() { got = g.Clamp(a, lo, hi) })
		if got != want {
			t.Fail("Clamp(%v, %v, %v) = %v, want %v", a, lo, hi, got, want)
		}
		return
	}
	var mx, mn T
	var eq, ls bool
	t.Must("Max", func() { mx = g.Max(b, c) })
	t.Must("Min", func() { mn = g.Min(b, c) })
	if mx != hi || mn != lo {
		t.Fail("Max, Min of %v and %v are %v, %v", b, c, mx, mn)
	}
	t.Must("Equals", func() { eq = g.Equals(b, c) })
	t.Must("Less", func() { ls = g.Less(b, c) })
	if eq != (b == c) || ls != (b < c) {
		t.Fail("Equals, Less of %v and %v are %v, %v", b, c, eq, ls)
	}
	want := 0
	if b < c {
		want = -1
	} else if c < b {
		want = 1
	}
	var got int
	t.Must("Compare", func() { got = g.Compare(b, c, g.Less[T]) })
	if got != want {
		t.Fail("Compare(%v, %v) = %d, want %d", b, c, got, want)
	}
}

func (w *helpers) Exec(t *Task, op *Op) {
	t.SetWrite(false)
	a, b, c, k := op.Arg(0), op.Arg(1), op.Arg(2), op.Arg(3)
	less := func(x, y hv) bool { engine.CB(); return orderOf(w.ord, x.p) < orderOf(w.ord, y.p) }
	pure := func(x, y hv) bool { return orderOf(w.ord, x.p) < orderOf(w.ord, y.p) }
	small := func(x int) int { return abs(x%64+64) % 64 }
	x, y, z := hv{small(a), 1}, hv{small(b), 2}, hv{small(c), 3}
	switch op.K {
	case "rminmax", "rclamp":
		cl := op.K == "rclamp"
		switch k % 13 {
		case 0:
			num(t, a, b, c, cl)
		case 1:
			num(t, int8(a), int8(b), int8(c), cl)
		case 2:
			num(t, int16(a), int16(b), int16(c), cl)
		case 3:
			num(t, int32(a), int32(b), int32(c), cl)
		case 4:
			num(t, int64(a), int64(b), int64(c), cl)
		case 5:
			num(t, uint(a), uint(b), uint(c), cl)
		case 6:
			num(t, uint8(a), uint8(b), uint8(c), cl)
		case 7:
			num(t, uint16(a), uint16(b), uint16(c), cl)
		case 8:
			num(t, uint32(a), uint32(b), uint32(c), cl)
		case 9:
			num(t, uint64(a), uint64(b), uint64(c), cl)
		case 10:
			num(t, float32(a)/3, float32(b)/3, float32(c)/3, cl)
		case 11:
			fs := func(x int) float64 {
				if x == math.MaxInt {
					return math.Inf(1)
				} else if x == math.MinInt {
					return math.Inf(-1)
				}
				return float64(x) / 7
			}
			num(t, fs(a), fs(b), fs(c), cl)
		default:
			num(t, hstr(a), hstr(b), hstr(c), cl)
		}
	case "rcmp":
		var got int
		if t.Must("Compare", func() { got = g.Compare(x, y, less) }) {
			return
		}
		want := 0
		if pure(x, y) {
			want = -1
		} else if pure(y, x) {
			want = 1
		}
		if got != want {
			t.Fail("Compare of priorities %d and %d = %d, want %d", x.p, y.p, got, want)
		}
	case "rfunc":
		var mx, mn hv
		if t.Must("MaxFunc", func() { mx = g.MaxFunc(x, y, less) }) || t.Must("MinFunc", func() { mn = g.MinFunc(x, y, less) }) {
			return
		}
		if mx != x && mx != y || pure(mx, x) || pure(mx, y) {
			t.Fail("MaxFunc of priorities %d and %d = %d", x.p, y.p, mx.p)
		}
		if mn != x && mn != y || pure(x, mn) || pure(y, mn) {
			t.Fail("MinFunc of priorities %d and %d = %d", x.p, y.p, mn.p)
		}
	case "rclampf":
		lo, hi := y, z
		if pure(hi, lo) {
			lo, hi = hi, lo
		}
		want := x
		if pure(x, lo) {
			want = lo
		} else if pure(hi, x) {
			want = hi
		}
		var got hv
		if t.Must("ClampFunc", func() { got = g.ClampFunc(x, lo, hi, less) }) {
			return
		}
		if got != want {
			t.Fail("ClampFunc(%d, %d, %d) = %d (argument %d), want argument %d", x.p, lo.p, hi.p, got.p, got.id, want.id)
		}
	case "rhash":
		w.hash(t, a, k)
		w.hash(t, b, k)
		w.hash(t, c, k/2)
		w.hash(t, a, k)
	case "rbuf": // one buffer, modified in place between the calls
		var strs [4]string
		var hs [4]uint64
		for i := range strs {
			s := hstr([]int{a, a, b, b}[i])
			if i%2 == 1 && s != "" { // as long as the one before it
				m := []byte(s)
				m[uint(c)%uint(len(m))] ^= byte(1 + k)
				s = string(m)
			}
			strs[i] = s
			w.bufs[t.ID] = append(w.bufs[t.ID][:k%8], s...)
			in := w.bufs[t.ID][k%8:]
			t.Must("HashBytes", func() { hs[i] = g.HashBytes(in) })
			if string(in) != s {
				t.Fail("HashBytes changed its argument %q", s)
			}
		}
		for i, s := range strs {
			var h uint64
			t.Must("HashBytes", func() { h = g.HashBytes([]byte(s)) })
			if h != hs[i] {
				t.Fail("HashBytes(%q) is %x in a buffer used before and %x in a new one", s, hs[i], h)
			}
		}
	case "rlong":
		w.long(t, a, b, c, k)
	case "rspread":
		w.spread(t, a, k)
	}
}

// long compares the hashes of a string and of one that is nearly equal to it, at any length.
func (w *helpers) long(t *Task, a, b, c, k int) {
	n := []int{1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 700, 1024, 1025, 2100, 4097, 5000, 9000}[uint(b)%36]
	r := engine.NewRng(uint64(a))
	s := make([]byte, n)
	zero := r.Intn(3) == 0
	for i := range s {
		if !zero || r.Intn(8) == 0 {
			s[i] = byte(r.U64())
		}
	}
	m := append([]byte(nil), s...)
	i := int(uint(c) % uint(n))
	switch k % 8 {
	case 0:
		m = m[:n-1]
	case 1:
		m = append(m, 0)
	case 2:
		m = append(m[:i], m[i+1:]...)
	case 3:
		j := r.Intn(n)
		m[i], m[j] = m[j], m[i]
	case 4:
		m = append(m[i:len(m):len(m)], m[:i]...)
	default:
		m[i] ^= 1 << (k / 8)
	}
	var hs, hm, bs, bm uint64
	t.Must("HashString", func() { hs = g.HashString(string(s)) })
	t.Must("HashString", func() { hm = g.HashString(string(m)) })
	t.Must("HashBytes", func() { bs = g.HashBytes(s) })
	t.Must("HashBytes", func() { bm = g.HashBytes(m) })
	if (hs == hm) != (string(s) == string(m)) || (bs == bm) != (string(s) == string(m)) {
		t.Fail("%d bytes and a variation (kind %d, at %d, %d bytes): HashString gives %x and %x, HashBytes %x and %x", n, k%8, i, len(m), hs, hm, bs, bm)
	}
}

// hstr gives strings that differ in their length, beginning, middle or end.
func hstr(x int) string {
	s := strconv.Itoa(x)
	switch abs(x) % 5 {
	case 1:
		return s + "\x00\xff and a common ending"
	case 2:
		return "a common beginning of more than thirty-two bytes " + s
	case 3:
		return ""
	}
	return s
}

// hashes calls one of the hash functions; its name includes the value.
func hashes(x, k int) (string, uint64) {
	n := strconv.Itoa
	switch k % 12 {
	case 0:
		return "HashInt " + n(x), g.HashInt(x)
	case 1:
		return "HashInt8 " + n(int(int8(x))), g.HashInt8(int8(x))
	case 2:
		return "HashInt16 " + n(int(int16(x))), g.HashInt16(int16(x))
	case 3:
		return "HashInt32 " + n(int(int32(x))), g.HashInt32(int32(x))
	case 4:
		return "HashInt64 " + n(x), g.HashInt64(int64(x))
	case 5:
		return "HashUint " + n(x), g.HashUint(uint(x))
	case 6:
		return "HashUint8 " + n(int(uint8(x))), g.HashUint8(uint8(x))
	case 7:
		return "HashUint16 " + n(int(uint16(x))), g.HashUint16(uint16(x))
	case 8:
		return "HashUint32 " + n(int(uint32(x))), g.HashUint32(uint32(x))
	case 9:
		return "HashUint64 " + n(x), g.HashUint64(uint64(x))
	case 10:
		s := hstr(x)
		return "HashString " + s, g.HashString(s)
	}
	buf := append(make([]byte, 0, 99), hstr(x)...)
	buf = append(buf, "what follows the slice in its array"...)
	s := buf[:len(hstr(x))]
	h := g.HashBytes(s)
	if string(s) != hstr(x) {
		h = ^h
	}
	return "HashBytes " + string(s), h
}

func (w *helpers) hash(t *Task, x, k int) {
	var name string
	var h uint64
	t.Must("Hash", func() { name, h = hashes(x, k) })
	if t.Tracing() {
		t.Tracef("%s = %x", name, h)
	}
	if t.ID < 0 {
		return
	}
	m := w.tasks[t.ID]
	if old, ok := m[name]; ok && old != h {
		t.Fail("%s gives %x, earlier it gave %x", name, h, old)
	}
	m[name] = h
}

// spread looks at the low bits of the hashes of neighbouring or strided values, since
// the hash map uses nothing else.
func (w *helpers) spread(t *Task, a, k int) {
	bits := []int{3, 5, 7}[k%3]
	var buckets [128]int
	kind := k % 12
	n, stride := 1024, []int{1, 8, 64, 1000}[k%4]
	if kind == 1 || kind == 6 {
		n, stride, bits = 256, 1, 3
	} else if kind == 2 || kind == 7 {
		stride = 1 + stride%64
	}
	a %= 1 << 30
	for i := 0; i < n; i++ {
		var h uint64
		t.Must("Hash", func() {
			if kind >= 10 {
				s := "k" + strconv.Itoa(a+i*stride)
				if kind == 10 {
					h = g.HashString(s)
				} else {
					h = g.HashBytes([]byte(s))
				}
				return
			}
			_, h = hashes(a+i*stride, kind)
		})
		buckets[h&uint64(1<<bits-1)]++
	}
	for b, c := range buckets[:1<<bits] {
		if mean := n >> bits; c > 4*mean+16 {
			t.Fail("hash function %d puts %d of %d neighbouring values (from %d, stride %d) into bucket %d of %d", kind, c, n, a, stride, b, 1<<bits)
		}
	}
}

func (w *helpers) Final(t *Task) {
	seen := map[string]uint64{}
	for _, m := range w.tasks {
		for _, k := range sortedKeys(m) {
			if old, ok := seen[k]; ok && old != m[k] {
				t.Fail("%s gave %x to one task and %x to another", k, old, m[k])
			}
			seen[k] = m[k]
		}
	}
	w.strong(t, seen)
}

// strong: different 64-bit values of one function practically never share a hash.
func (w *helpers) strong(t *Task, seen map[string]uint64) {
	by := map[string]string{}
	for _, k := range sortedKeys(seen) {
		h := kindOf(k) + strconv.FormatUint(seen[k], 16)
		if old, ok := by[h]; ok && old != k {
			t.Fail("%q and %q share all 64 bits of their hash", old, k)
		}
		by[h] = k
	}
}

func kindOf(s string) string {
	for i := range s {
		if s[i] == ' ' {
			return s[:i]
		}
	}
	return s
}

func sortedKeys(m map[string]uint64) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func init() {
	register(&WL{Name: "helpers", Pkgs: []string{"generic.go"}, Gen: func(g *Gen) {
		g.set("ord", g.Intn(4))
		g.ops(helperSpecs, 4, 40)
		for i := range g.P.Tasks { // values are met again, also by other tasks
			for _, op := range g.P.Tasks[i] {
				if o := g.P.Tasks[g.Intn(len(g.P.Tasks))]; len(o) > 0 && g.pc(40) {
					op.A = append([]int(nil), o[g.Intn(len(o))].A...)
				}
			}
		}
	}, New: newHelpers})
	Props["C22"] = []Use{{WL: "helpers", Weight: 1, Tune: func(g *Gen) { g.FaultR = g.Pick(0, 10) }}}
}
