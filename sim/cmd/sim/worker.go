package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"math/bits"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	hook "github.com/zyedidia/generic/simhookverif"
	"verifsim/engine"
	"verifsim/wl"
)

// Result is what a worker reports.
type Result struct {
	Runs       uint64                   `json:"runs"`
	Steps      uint64                   `json:"steps"`
	Tasks      uint64                   `json:"tasks"`
	Count      [engine.NCounters]uint64 `json:"count"`
	ByWL       map[string]uint64        `json:"by_wl"`
	Nontrivial uint64                   `json:"nontrivial"`
	Pairs      int                      `json:"pairs"`
	Hit        []int                    `json:"hit"`
	Preempted  []int                    `json:"preempted"` // statements tasks were preempted at
	Rerun      uint64                   `json:"rerun"`
	RerunBad   uint64                   `json:"rerun_bad"`
	RerunSeeds []uint64                 `json:"rerun_seeds,omitempty"`
	Known      map[string]uint64        `json:"known,omitempty"`
	Samples    []string                 `json:"samples"`
	Wall       float64                  `json:"wall"`
	MinOps     [2]int                   `json:"minops"`
	Replay     string                   `json:"replay,omitempty"`
	Extra      map[string]uint64        `json:"extra,omitempty"`
	Violation  *engine.Violation        `json:"violation,omitempty"`
}

func loadKnown(path, prop string) (out []*regexp.Regexp) {
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		// open: property=<id> match=/<regexp>/ <what fails>
		if !strings.HasPrefix(l, "open: property="+prop+" ") {
			continue
		}
		if i, j := strings.Index(l, "match=/"), strings.LastIndex(l, "/ "); i >= 0 && j > i+7 {
			out = append(out, regexp.MustCompile(l[i+7:j]))
		}
	}
	return
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	base := fs.Uint64("seed", 1, "VERIF_SEED")
	from := fs.Uint64("from", 0, "first run")
	stride := fs.Uint64("stride", 1, "distance of runs")
	minRuns := fs.Uint64("min", 0, "runs at least")
	secs := fs.Float64("secs", 1, "seconds at least")
	capSecs := fs.Float64("cap", 60, "seconds at most")
	deep := fs.Bool("deep", false, "thorough")
	out := fs.String("out", "", "result file prefix")
	known := fs.String("known", "", "known findings")
	minSecs := fs.Float64("minimise", 20, "seconds for minimising")
	fs.Parse(args)
	tune()
	res := &Result{ByWL: map[string]uint64{}, Known: map[string]uint64{}, Extra: map[string]uint64{}}
	knownRe := loadKnown(*known, *prop)
	cur, err := os.Create(*out + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var digests bytes.Buffer
	engine.PairHit = make([]uint64, (len(hook.Sites)*len(hook.Sites)+63)/64)
	mode := "plain"
	if engine.RaceMode {
		mode = "race"
	}
	start := time.Now()
	var buf [8]byte
	flush := func() {
		res.Wall = time.Since(start).Seconds()
		for i := range hook.Sites {
			if hook.Hit[i] {
				res.Hit = append(res.Hit, i)
			}
		}
		last := -1
		for i, w := range engine.PairHit {
			for ; w != 0; w &= w - 1 {
				res.Pairs++
				if at := (i*64 + bits.TrailingZeros64(w)) / len(hook.Sites); at != last {
					res.Preempted = append(res.Preempted, at)
					last = at
				}
			}
		}
		if err := os.WriteFile(*out+".dig", digests.Bytes(), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		data, _ := json.Marshal(res)
		if err := os.WriteFile(*out+".json", data, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	for i := *from; ; i += *stride {
		el := time.Since(start).Seconds()
		if el >= *capSecs || el >= *secs && res.Runs >= *minRuns {
			break
		}
		binary.LittleEndian.PutUint64(buf[:], i)
		cur.WriteAt(buf[:], 0)
		seed := runSeed(*base, *prop, i)
		p := wl.Make(*prop, seed, engine.RaceMode, *deep)
		r := execute(p, true, false)
		res.Runs++
		steps := hook.Steps
		res.Steps += steps
		res.Tasks += uint64(len(p.Tasks))
		res.ByWL[p.WL]++
		var events uint64
		for c, n := range r.Count {
			res.Count[c] += n
			switch c {
			case engine.CSwitch, engine.CPanicRead, engine.CPanicWrite, engine.CNested, engine.CLockWait:
				events += n
			}
		}
		if events > 0 && r.Count[engine.COps] > 2 {
			res.Nontrivial++
			binary.LittleEndian.PutUint64(buf[:], r.Digest)
			digests.Write(buf[:])
		}
		if len(res.Samples) < 2 && events > 0 && countOps(p) < 14 && r.Viol == nil {
			c := clone(p)
			data, _ := json.Marshal(c)
			if len(data) < 1800 {
				res.Samples = append(res.Samples, string(data))
			}
		}
		if r.Viol != nil {
			isKnown := false
			for _, re := range knownRe {
				if re.MatchString(r.Viol.String()) {
					res.Known[re.String()]++
					isKnown = true
					break
				}
			}
			if !isKnown {
				report(res, r, p, *prop, *base, i, mode, *out, time.Duration(*minSecs*float64(time.Second)), knownRe)
				flush()
				os.Exit(10)
			}
			continue
		}
		// the simulation must be deterministic: record again, and replay the record
		if res.Runs%64 == 1 {
			res.Rerun += 2
			q := wl.Make(*prop, seed, engine.RaceMode, *deep)
			r2 := execute(q, true, false)
			s2 := hook.Steps
			r3 := execute(clone(p), false, false)
			if r2.Digest != r.Digest || s2 != steps || r3.Digest != r.Digest || hook.Steps != steps {
				res.RerunBad++
				if len(res.RerunSeeds) < 5 {
					res.RerunSeeds = append(res.RerunSeeds, i)
				}
			}
		}
	}
	flush()
}

func report(res *Result, r *engine.Run, p *engine.Plan, prop string, base, idx uint64, mode, out string, limit time.Duration, known []*regexp.Regexp) {
	kind := r.Viol.Kind
	res.Violation = r.Viol
	orig := countOps(p)
	rp := &Replay{Property: prop, Violation: r.Viol, Seed: p.Seed, BaseSeed: base, Index: idx, Mode: mode,
		Digest: fmt.Sprintf("%016x", r.Digest), Plan: clone(p), OrigOps: orig, Ops: orig,
		HowTo: "/verif/check replay <this file>   (rebuilds from /repo and executes the recorded schedule and faults)"}
	raw := filepath.Clean(out + ".raw.json")
	writeJSON(raw, rp)
	res.Replay = raw
	// does the recorded schedule reproduce it?
	try := func(q *engine.Plan) bool {
		x := execute(q, false, false)
		if x.Viol == nil || x.Viol.Kind != kind {
			return false
		}
		for _, re := range known {
			if re.MatchString(x.Viol.String()) {
				return false
			}
		}
		return true
	}
	if !try(clone(p)) {
		res.Extra["violations_not_reproduced_in_process"]++
		return
	}
	m := minimise(p, kind, limit, try)
	x := execute(clone(m), false, false)
	if x.Viol == nil {
		return
	}
	rp.Plan, rp.Violation, rp.Digest = m, x.Viol, fmt.Sprintf("%016x", x.Digest)
	rp.Minimised, rp.Ops = true, countOps(m)
	if mode == "plain" {
		rp.Trace = execute(clone(m), false, true).Trace
		if len(rp.Trace) > 400 {
			rp.Trace = append(rp.Trace[:400:400], "...")
		}
	}
	min := filepath.Clean(out + ".min.json")
	writeJSON(min, rp)
	res.Replay = min
	res.Violation = x.Viol
	res.MinOps = [2]int{orig, rp.Ops}
}
