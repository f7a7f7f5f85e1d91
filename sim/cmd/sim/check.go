package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	hook "github.com/zyedidia/generic/simhookverif"
	"verifsim/engine"
	"verifsim/wl"
)

type job struct {
	mode   string
	idx    int
	out    string
	res    *Result
	exit   int
	crash  bool
	stuck  bool
	killed bool
	stderr string
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", "quick", "quick or thorough")
	base := fs.Uint64("seed", 1, "VERIF_SEED")
	raceBin := fs.String("race-bin", "", "binary with the happens-before oracle")
	work := fs.String("work", "", "scratch directory")
	replays := fs.String("replays", "", "directory for replay files")
	evidence := fs.String("evidence", "", "evidence file")
	known := fs.String("known", "", "known findings")
	secsF := fs.Float64("secs", 0, "override the seconds")
	nPlain := fs.Int("plain", 5, "workers")
	nRace := fs.Int("race", 3, "workers with the happens-before oracle")
	fs.Parse(args)
	start := time.Now()
	if len(wl.Props[*prop]) == 0 {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	self, _ := os.Executable()
	deep := *tier == "thorough"
	secs, capS, minRuns, minS := 18.0, 150.0, 4000, 15.0
	if deep {
		secs, capS, minRuns, minS = 480, 600, 20000, 60
	}
	if d := wl.Heavy[*prop]; d > 0 {
		minRuns /= d
	}
	if *secsF > 0 {
		secs = *secsF
		capS = secs * 2
		minRuns = 0
	}
	var jobs []*job
	for i := 0; i < *nPlain; i++ {
		jobs = append(jobs, &job{mode: "plain", idx: i})
	}
	for i := 0; i < *nRace; i++ {
		jobs = append(jobs, &job{mode: "race", idx: i})
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	stop := false
	procs := map[*job]*exec.Cmd{}
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			bin, n, min := self, *nPlain, minRuns
			if j.mode == "race" {
				bin, n, min = *raceBin, *nRace, minRuns/10
			}
			j.out = filepath.Join(*work, fmt.Sprintf("w-%s-%d", j.mode, j.idx))
			a := []string{"worker", "-prop", *prop, "-seed", fmt.Sprint(*base), "-from", fmt.Sprint(j.idx), "-stride", fmt.Sprint(n),
				"-min", fmt.Sprint(min), "-secs", fmt.Sprint(secs), "-cap", fmt.Sprint(capS), "-out", j.out, "-known", *known, "-minimise", fmt.Sprint(minS)}
			if deep {
				a = append(a, "-deep")
			}
			cmd := exec.Command(bin, a...)
			ef, _ := os.Create(j.out + ".err")
			cmd.Stderr = ef
			cmd.Stdout = ef
			cmd.Env = append(os.Environ(), raceEnv...)
			cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
			mu.Lock()
			if stop {
				mu.Unlock()
				j.killed = true
				return
			}
			err := cmd.Start()
			procs[j] = cmd
			mu.Unlock()
			if err != nil {
				j.exit = -1
				j.stderr = err.Error()
				return
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			last, lastAt := uint64(1<<63), time.Now()
			for {
				select {
				case <-done:
					ef.Close()
					j.exit = cmd.ProcessState.ExitCode()
					data, _ := os.ReadFile(j.out + ".err")
					if len(data) > 1<<20 {
						data = data[:1<<20]
					}
					j.stderr = string(data)
					if rd, err := os.ReadFile(j.out + ".json"); err == nil {
						var r Result
						if json.Unmarshal(rd, &r) == nil {
							j.res = &r
						}
					}
					mu.Lock()
					if j.res == nil && !stop && !j.stuck {
						j.crash = true
					}
					if j.res == nil && stop {
						j.killed = true
					}
					if j.res != nil && j.res.Violation != nil || j.crash {
						// one violation suffices; the others stop
						stop = true
						for o, p := range procs {
							if o != j && p.Process != nil && p.ProcessState == nil {
								p.Process.Kill()
							}
						}
					}
					mu.Unlock()
					return
				case <-time.After(time.Second):
					c, ok := current(j.out)
					if ok && c != last {
						last, lastAt = c, time.Now()
					} else if time.Since(lastAt) > 150*time.Second {
						mu.Lock()
						j.stuck = true
						mu.Unlock()
						cmd.Process.Kill()
					}
				}
			}
		}()
	}
	wg.Wait()
	tot := &Result{ByWL: map[string]uint64{}, Known: map[string]uint64{}, Extra: map[string]uint64{}}
	hit, stopped := map[int]bool{}, map[int]bool{}
	digests := map[uint64]struct{}{}
	runsBy := map[string]uint64{}
	stepsBy := map[string]uint64{}
	pairs := 0
	var viol *job
	var crashed, stuck []*job
	for _, j := range jobs {
		if j.stuck {
			stuck = append(stuck, j)
		}
		if j.crash {
			crashed = append(crashed, j)
		}
		if j.res == nil {
			continue
		}
		r := j.res
		tot.Runs += r.Runs
		tot.Steps += r.Steps
		tot.Tasks += r.Tasks
		tot.Nontrivial += r.Nontrivial
		tot.Rerun += r.Rerun
		tot.RerunBad += r.RerunBad
		tot.RerunSeeds = append(tot.RerunSeeds, r.RerunSeeds...)
		runsBy[j.mode] += r.Runs
		stepsBy[j.mode] += r.Steps
		for c := range r.Count {
			tot.Count[c] += r.Count[c]
		}
		for k, n := range r.ByWL {
			tot.ByWL[k] += n
		}
		for k, n := range r.Known {
			tot.Known[k] += n
		}
		for k, n := range r.Extra {
			tot.Extra[k] += n
		}
		for _, h := range r.Hit {
			hit[h] = true
		}
		for _, h := range r.Preempted {
			stopped[h] = true
		}
		if r.Pairs > pairs {
			pairs = r.Pairs
		}
		if len(tot.Samples) < 3 && len(r.Samples) > 0 {
			tot.Samples = append(tot.Samples, r.Samples[0])
		}
		if d, err := os.ReadFile(j.out + ".dig"); err == nil {
			for ; len(d) >= 8; d = d[8:] {
				digests[binary.LittleEndian.Uint64(d)] = struct{}{}
			}
		}
		if r.Violation != nil && (viol == nil || better(r, viol.res)) {
			viol = j
		}
	}
	code := 0
	violationText := ""
	if viol == nil && len(crashed) > 0 {
		code, violationText = confirmCrash(crashed, *prop, *base, self, *raceBin, *work, *replays, deep)
	} else if viol != nil {
		code, violationText = confirm(viol, *prop, self, *raceBin, *replays)
	}
	if code == 0 && len(stuck) > 0 {
		for _, j := range stuck {
			c, _ := current(j.out)
			fmt.Fprintf(os.Stderr, "sim: worker %s made no progress in run %d; no verdict\n", filepath.Base(j.out), c)
		}
		code = 2
	}
	for _, j := range jobs {
		if j.exit != 0 && j.exit != 10 && !j.killed && !j.crash && !j.stuck {
			fmt.Fprintf(os.Stderr, "sim: worker %s failed: %s\n", filepath.Base(j.out), tail(j.stderr, 2000))
			if code == 0 {
				code = 2
			}
		}
	}
	for re, n := range tot.Known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met %d times)\n", *prop, describeKnown(*known, *prop, re), n)
	}
	if tot.RerunBad > 0 {
		fmt.Fprintf(os.Stderr, "sim: warning: %d of %d re-executions differed (runs %v): some nondeterminism of the code under test is not behind the seam\n", tot.RerunBad, tot.Rerun, tot.RerunSeeds)
	}
	wall := time.Since(start).Seconds()
	// evidence
	faults := map[string]uint64{}
	events := map[string]uint64{}
	for c, n := range tot.Count {
		switch c {
		case engine.CPanicRead, engine.CPanicWrite, engine.CStall, engine.CSwitch, engine.CMapOrder:
			faults[engine.CounterNames[c]] = n
		default:
			events[engine.CounterNames[c]] = n
		}
	}
	total, reached, preempted := 0, 0, 0
	var unreached, whole []string
	seen := map[string]bool{}
	pk := map[string]bool{}
	for _, u := range wl.Props[*prop] {
		for _, p := range wl.Get(u.WL).Pkgs {
			pk[p] = true
		}
	}
	for i, s := range hook.Sites {
		if d := strings.IndexAny(s, "/:"); d < 0 || !pk[s[:d]] {
			continue
		}
		total++
		if hit[i] {
			reached++
		} else if !seen[s] && len(unreached) < 60 {
			seen[s] = true
			unreached = append(unreached, s)
		}
		if stopped[i] {
			preempted++
		} else if hit[i] && len(whole) < 200 {
			whole = append(whole, s)
		}
	}
	var pkgs []string
	for p := range pk {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	samples := []any{}
	for _, s := range tot.Samples {
		samples = append(samples, json.RawMessage(s))
	}
	if len(samples) == 0 {
		samples = append(samples, fmt.Sprintf("runs 0..%d of VERIF_SEED=%d", tot.Runs, *base))
	}
	cov := map[string]any{
		"evaluations":         tot.Runs,
		"distinct_nontrivial": len(digests),
		"rule": "One evaluation is one simulated run: a plan of operations and faults drawn from its seed, executed task by task under the seeded scheduler. " +
			"It is non-trivial if it executed more than two operations and at least one of: a task preempted inside a library call, a task that had to wait for the lock, a callback panic that fired, or a nested query. " +
			"Runs are distinct if the digest over the executed operations (task, kind, arguments, faults) and the preemptions (statement, successor) differs.",
		"samples":                   samples,
		"runs_and_seeds_per_hour":   int(float64(tot.Runs) / wall * 3600),
		"runs_by_mode":              runsBy,
		"simulated_time_steps":      stepsBy,
		"simulated_time_unit":       "one step = one executed statement of the code under test (it has no clock or timer)",
		"tasks_simulated":           tot.Tasks,
		"runs_by_workload":          tot.ByWL,
		"faults_injected":           faults,
		"events":                    events,
		"preemption_pairs_reached":  pairs,
		"preemption_pairs_measure":  "distinct pairs (statement a task was preempted at, statement another task had been preempted at before it), largest worker",
		"statements_preempted_at":   preempted,
		"reached_never_preempted":   whole,
		"statements_in_scope":       total,
		"statements_reached":        reached,
		"statements_not_reached":    unreached,
		"deterministic_reexecution": map[string]uint64{"executed": tot.Rerun, "differing": tot.RerunBad},
		"real_code":                 "packages " + strings.Join(pkgs, ", ") + " as in /repo's working tree, compiled with a yield before every statement",
		"stubs":                     "the scheduler, the readers-writer lock around the container, the order of ranging over builtin maps, and the user's callbacks (comparison, equality, hash, visitors, eviction); nothing of the library is stubbed",
		"workers":                   map[string]int{"plain": *nPlain, "race": *nRace},
	}
	ev := map[string]any{
		"property": *prop, "tier": *tier, "seed": *base, "level": "exploration", "coverage": cov, "wall_s": wall,
	}
	if violationText != "" {
		cov["violation"] = violationText
	}
	os.MkdirAll(filepath.Dir(*evidence), 0o755)
	writeJSON(*evidence, ev)
	fmt.Printf("%s %s seed=%d: %d runs (%d plain, %d race), %d distinct non-trivial, %d steps, %d/%d statements reached, %.1f s\n",
		*prop, *tier, *base, tot.Runs, runsBy["plain"], runsBy["race"], len(digests), tot.Steps, reached, total, wall)
	if code == 0 && tot.Runs == 0 {
		code = 2
	}
	os.Exit(code)
}

var raceEnv = []string{"GORACE=halt_on_error=0 suppress_equal_stacks=0 suppress_equal_addresses=0 atexit_sleep_ms=0 exitcode=0 history_size=1"}

func better(a, b *Result) bool {
	return a.MinOps[1] > 0 && (b.MinOps[1] == 0 || a.MinOps[1] < b.MinOps[1])
}

func current(out string) (uint64, bool) {
	d, err := os.ReadFile(out + ".cur")
	if err != nil || len(d) < 8 {
		return 0, false
	}
	return binary.LittleEndian.Uint64(d), true
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func describeKnown(path, prop, re string) string {
	data, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(data), "\n") {
		if strings.HasPrefix(l, "open: property="+prop+" ") && strings.Contains(l, "match=/"+re+"/ ") {
			return l[strings.Index(l, "match=/"+re+"/ ")+len("match=/"+re+"/ "):]
		}
	}
	return re
}

func save(src, replays, prop, kind string) string {
	os.MkdirAll(replays, 0o755)
	dst := filepath.Join(replays, fmt.Sprintf("%s-%s-%d.json", prop, kind, os.Getpid()))
	data, err := os.ReadFile(src)
	if err == nil {
		err = os.WriteFile(dst, data, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "sim:", err)
	}
	return dst
}

// confirm replays the violation in a fresh process.
func confirm(j *job, prop, self, raceBin, replays string) (int, string) {
	r := j.res
	bin := self
	if j.mode == "race" {
		bin = raceBin
	}
	file := save(r.Replay, replays, prop, r.Violation.Kind)
	ok := false
	text := ""
	for i := 0; i < 3 && !ok; i++ {
		cmd := exec.Command(bin, "replay", "-quiet", file)
		cmd.Env = append(os.Environ(), raceEnv...)
		o, _ := cmd.CombinedOutput()
		text = string(o)
		ok = cmd.ProcessState != nil && cmd.ProcessState.ExitCode() == 1
	}
	fmt.Printf("violation found in mode %s: %v\n", j.mode, r.Violation)
	if r.MinOps[1] > 0 {
		fmt.Printf("minimised from %d to %d operations\n", r.MinOps[0], r.MinOps[1])
	}
	if ok {
		fmt.Println("replay in a fresh process reproduces it:")
		fmt.Println(tail(text, 6000))
	} else {
		fmt.Println("warning: the replay did not reproduce it in a fresh process (uncontrolled nondeterminism in the code under test?)")
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
	return 1, r.Violation.String()
}

// confirmCrash re-executes the run in which a worker died, alone.
func confirmCrash(crashed []*job, prop string, base uint64, self, raceBin, work, replays string, deep bool) (int, string) {
	for _, j := range crashed {
		idx, ok := current(j.out)
		bin := self
		if j.mode == "race" {
			bin = raceBin
		}
		if !ok {
			fmt.Fprintf(os.Stderr, "sim: worker %s died: %s\n", filepath.Base(j.out), tail(j.stderr, 2000))
			continue
		}
		a := []string{"one", "-prop", prop, "-seed", fmt.Sprint(base), "-index", fmt.Sprint(idx)}
		if deep {
			a = append(a, "-deep")
		}
		died := func(args ...string) (bool, string) {
			cmd := exec.Command(bin, args...)
			cmd.Env = append(os.Environ(), raceEnv...)
			t := time.AfterFunc(120*time.Second, func() { cmd.Process.Kill() })
			o, _ := cmd.CombinedOutput()
			t.Stop()
			s := string(o)
			return cmd.ProcessState.ExitCode() == 2 && strings.Contains(s, "fatal error:"), s
		}
		bad, text := died(a...)
		if !bad {
			fmt.Fprintf(os.Stderr, "sim: worker %s died in run %d, which does not die alone: %s\n", filepath.Base(j.out), idx, tail(j.stderr, 2000))
			continue
		}
		planFile := filepath.Join(work, "crash-plan.json")
		if exec.Command(bin, append(a, "-out", planFile)...).Run() != nil {
			continue
		}
		var p engine.Plan
		data, _ := os.ReadFile(planFile)
		if json.Unmarshal(data, &p) != nil {
			continue
		}
		what := "the process died"
		for _, l := range strings.Split(text, "\n") {
			if strings.HasPrefix(l, "fatal error:") {
				what = l
				break
			}
		}
		rp := &Replay{Property: prop, Violation: &engine.Violation{Kind: "fatal", What: what, Task: -1, Op: "?"}, Seed: p.Seed, BaseSeed: base, Index: idx, Mode: j.mode,
			Record: true, Plan: &p, OrigOps: countOps(&p), HowTo: "/verif/check replay <this file>"}
		f := filepath.Join(work, "crash-try.json")
		m := minimise(&p, "fatal", 30*time.Second, func(q *engine.Plan) bool {
			c := *rp
			c.Plan = q
			writeJSON(f, &c)
			bad, _ := died("one", "-plan", f)
			return bad
		})
		rp.Plan, rp.Ops, rp.Minimised = m, countOps(m), true
		writeJSON(f, rp)
		file := save(f, replays, prop, "fatal")
		fmt.Printf("the runtime aborted the process in run %d (mode %s): %s\n%s\n", idx, j.mode, what, tail(text, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, file)
		return 1, what
	}
	return 2, ""
}
