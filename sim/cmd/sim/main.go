// Command sim searches schedules and faults of a property's workloads (check), runs a
// range of seeds (worker), or replays a recorded run (replay).
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"time"

	hook "github.com/zyedidia/generic/simhookverif"
	"verifsim/engine"
	"verifsim/wl"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim check|worker|one|replay ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "one":
		one(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	default:
		os.Exit(2)
	}
}

// Replay is the replay file.
type Replay struct {
	Property  string            `json:"property"`
	Violation *engine.Violation `json:"violation"`
	Seed      uint64            `json:"seed"`
	BaseSeed  uint64            `json:"verif_seed"`
	Index     uint64            `json:"run_index"`
	Mode      string            `json:"mode"`
	Record    bool              `json:"record,omitempty"` // schedule is drawn from the seed again
	Digest    string            `json:"digest"`
	Minimised bool              `json:"minimised"`
	OrigOps   int               `json:"operations_before_minimising"`
	Ops       int               `json:"operations"`
	HowTo     string            `json:"how_to_replay"`
	Plan      *engine.Plan      `json:"plan"`
	Trace     []string          `json:"trace,omitempty"`
}

func runSeed(base uint64, prop string, idx uint64) uint64 {
	return engine.Mix(engine.Mix(base, engine.HashStr(prop)), idx+1)
}

var filters = map[string][]uint32{}

func sitesOf(w *wl.WL) []uint32 {
	if f, ok := filters[w.Name]; ok {
		return f
	}
	var f []uint32
	for i, s := range hook.Sites {
		for _, p := range w.Pkgs {
			if strings.HasPrefix(s, p+"/") || strings.HasPrefix(s, p+":") {
				f = append(f, uint32(i))
			}
		}
	}
	filters[w.Name] = f
	return f
}

func execute(p *engine.Plan, record, trace bool) *engine.Run {
	w := wl.Get(p.WL)
	engine.SiteFilter = sitesOf(w)
	return engine.Execute(p, record, trace, w.New)
}

func clone(p *engine.Plan) *engine.Plan {
	data, _ := json.Marshal(p)
	var q engine.Plan
	if err := json.Unmarshal(data, &q); err != nil {
		panic(err)
	}
	return &q
}

func countOps(p *engine.Plan) int {
	n := len(p.Setup)
	for _, t := range p.Tasks {
		n += len(t)
	}
	return n
}

func tune() {
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	debug.SetMaxStack(256 << 20)
}

func replay(args []string) {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("quiet", false, "print the outcome only")
	fs.Parse(args)
	data, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var rp Replay
	if err := json.Unmarshal(data, &rp); err != nil || rp.Plan == nil || wl.Get(rp.Plan.WL) == nil {
		fmt.Fprintln(os.Stderr, "not a replay file:", err)
		os.Exit(2)
	}
	if engine.RaceMode != (rp.Mode == "race") {
		fmt.Fprintln(os.Stderr, "this replay file needs the binary of mode "+rp.Mode)
		os.Exit(2)
	}
	tune()
	r := execute(rp.Plan, rp.Record, !engine.RaceMode && !*quiet)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.Viol == nil {
		fmt.Println("replay: no violation")
		os.Exit(0)
	}
	fmt.Printf("replay: %v\nreplay: digest %016x, recorded %s\n", r.Viol, r.Digest, rp.Digest)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, fs.Arg(0))
	os.Exit(1)
}

// one generates, records and executes a single run; used to confirm crashes.
func one(args []string) {
	fs := flag.NewFlagSet("one", flag.ExitOnError)
	plan := fs.String("plan", "", "replay file whose plan is executed with the seed's schedule")
	prop := fs.String("prop", "", "property")
	base := fs.Uint64("seed", 1, "VERIF_SEED")
	idx := fs.Uint64("index", 0, "run")
	deep := fs.Bool("deep", false, "thorough")
	trace := fs.Bool("trace", false, "print the trace")
	out := fs.String("out", "", "write the generated plan here and stop")
	fs.Parse(args)
	tune()
	var p *engine.Plan
	if *plan != "" {
		data, err := os.ReadFile(*plan)
		if err != nil {
			os.Exit(2)
		}
		var rp Replay
		if json.Unmarshal(data, &rp) != nil {
			os.Exit(2)
		}
		p = rp.Plan
	} else {
		p = wl.Make(*prop, runSeed(*base, *prop, *idx), engine.RaceMode, *deep)
	}
	if *out != "" {
		writeJSON(*out, p)
		return
	}
	r := execute(p, true, *trace)
	for _, l := range r.Trace {
		fmt.Println(l)
	}
	if r.Viol != nil {
		fmt.Println(r.Viol)
		os.Exit(1)
	}
}

func writeJSON(path string, v any) {
	data, err := json.MarshalIndent(v, "", " ")
	if err == nil {
		err = os.WriteFile(path, append(data, '\n'), 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
		os.Exit(2)
	}
}

// minimise shrinks a violating plan while the same kind of violation remains.
func minimise(p *engine.Plan, kind string, limit time.Duration, try func(*engine.Plan) bool) *engine.Plan {
	deadline := time.Now().Add(limit)
	best := clone(p)
	over := func() bool { return time.Now().After(deadline) }
	attempt := func(edit func(q *engine.Plan) bool) bool {
		if over() {
			return false
		}
		q := clone(best)
		if !edit(q) {
			return false
		}
		if try(clone(q)) {
			best = q
			return true
		}
		return false
	}
	lists := func(q *engine.Plan) []*[]*engine.Op {
		l := []*[]*engine.Op{&q.Setup}
		for i := range q.Tasks {
			l = append(l, &q.Tasks[i])
		}
		return l
	}
	for pass := 0; pass < 12 && !over(); pass++ {
		changed := false
		for li := range lists(best) {
			// chunks of operations, large to small
			for size := len(*lists(best)[li]); size >= 1; size /= 2 {
				for at := 0; at < len(*lists(best)[li]); {
					if attempt(func(q *engine.Plan) bool {
						l := lists(q)[li]
						end := at + size
						if end > len(*l) {
							end = len(*l)
						}
						*l = append((*l)[:at], (*l)[end:]...)
						return true
					}) {
						changed = true
					} else {
						at += size
					}
				}
			}
		}
		// all switches of an operation, then single ones; faults, nested queries, orders
		for li := range lists(best) {
			for oi := 0; oi < len(*lists(best)[li]); oi++ {
				op := func(q *engine.Plan) *engine.Op { return (*lists(q)[li])[oi] }
				for _, e := range []func(o *engine.Op) bool{
					func(o *engine.Op) bool { ok := len(o.Sw) > 0; o.Sw = nil; return ok },
					func(o *engine.Op) bool { ok := o.F != 0; o.F = 0; return ok },
					func(o *engine.Op) bool { ok := o.N != nil; o.N, o.NA = nil, 0; return ok },
					func(o *engine.Op) bool { ok := o.MO != 0; o.MO = 0; return ok },
				} {
					if attempt(func(q *engine.Plan) bool { return e(op(q)) }) {
						changed = true
					}
				}
				for si := 0; si < len(op(best).Sw); {
					if attempt(func(q *engine.Plan) bool {
						o := op(q)
						o.Sw = append(o.Sw[:si], o.Sw[si+1:]...)
						return true
					}) {
						changed = true
					} else {
						si++
					}
				}
				for ai := range op(best).A {
					for {
						v := op(best).A[ai]
						done := true
						for _, n := range []int{0, 1, v / 8, v / 2, v - 1} {
							if (n < v && n >= 0) && attempt(func(q *engine.Plan) bool { op(q).A[ai] = n; return true }) {
								changed, done = true, false
								break
							}
						}
						if done || over() {
							break
						}
					}
				}
			}
		}
		if !changed {
			break
		}
	}
	return best
}
