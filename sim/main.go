// Command sim runs simulations of aiq/tok under a seeded scheduler and seeded
// fault injection and decides the properties in /verif/properties.jsonl.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

func propHash(id string) uint64 {
	h := newHash()
	h.Str(id)
	return uint64(h)
}

func scenarioFor(p *Prop, seed uint64, i int, thorough bool) *Scenario {
	run := mix(mix(seed, propHash(p.ID)), uint64(i))
	r := &Rng{run}
	sc := p.Gen(r, thorough)
	sc.Prop, sc.Index, sc.Seed = p.ID, i, run
	return sc
}

func safeRunF(f func(*Scenario) *Outcome, sc *Scenario) (o *Outcome) {
	defer func() {
		if r := recover(); r != nil {
			o = newOutcome()
			busy, cur, sched = false, nil, nil
			if at := panicAt(string(debug.Stack())); strings.Contains(at, "/repo/") {
				o.fail("panic", fmt.Sprintf("the library panics outside of a Read: %v at %s", r, at))
				return
			}
			o.Why = fmt.Sprint("harness: ", r, "\n", string(debug.Stack()))
			o.Trivial = true
			o.Probes["HARNESS-PANIC"] = 1
		}
	}()
	return f(sc)
}

// panicAt is the place a stack says the panic started at.
func panicAt(stack string) string {
	l := strings.Split(stack, "\n")
	for i := len(l) - 1; i >= 0; i-- {
		if !strings.HasPrefix(l[i], "panic(") && !strings.HasPrefix(l[i], "runtime.") {
			continue
		}
		for i += 2; i+1 < len(l); i += 2 {
			if !strings.HasPrefix(l[i], "runtime.") && !strings.HasPrefix(l[i], "panic(") {
				return strings.TrimSpace(l[i+1])
			}
		}
		return ""
	}
	return ""
}

func safeRun(p *Prop, sc *Scenario) *Outcome { return safeRunF(p.Run, sc) }

// WorkerReport is what a worker process hands back.
type WorkerReport struct {
	Runs, Trivial   int
	FailIndex       int
	FailClass       string
	FailMsg         string
	Fired, Probes   map[string]int
	Max             map[string]int
	Skips           map[string]int
	Known           map[string]string
	KnownN          map[string]int
	Steps           uint64
	Switches        int
	Pairs           []uint64
	Sites           []int
	Rechecks        int
	Nondet          string
	NondetN         int
	Harness         string
	Samples         []json.RawMessage
	MaxTasks        int
	FaultyRuns      int
	FaultSequences  int
	DistinctPerRule int
}

func worker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	n := fs.Int("n", 0, "")
	w := fs.Int("w", 0, "")
	of := fs.Int("of", 1, "")
	out := fs.String("out", "", "")
	th := fs.Bool("thorough", false, "")
	secs := fs.Float64("secs", 0, "")
	known := fs.String("known", "", "")
	fs.Parse(args)
	p := props[*id]
	knownIDs := map[string]bool{}
	for _, k := range strings.Split(*known, ",") {
		knownIDs[k] = true
	}
	rep := &WorkerReport{FailIndex: -1, Max: map[string]int{}, Fired: map[string]int{}, Probes: map[string]int{}, Skips: map[string]int{},
		Known: map[string]string{}, KnownN: map[string]int{}}
	hashes := map[uint64]struct{}{}
	pairs := map[uint64]bool{}
	faultSeq := map[uint64]struct{}{}
	start := time.Now()
	// where the worker is, for the case that the process dies
	at, err := os.Create(*out + ".at")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	var where [8]byte
	for i := *w; i < *n; i += *of {
		binary.LittleEndian.PutUint64(where[:], uint64(i))
		at.WriteAt(where[:], 0)
		if *secs > 0 && time.Since(start).Seconds() > *secs {
			break
		}
		sc := scenarioFor(p, *seed, i, *th)
		o := safeRun(p, sc)
		rep.Runs++
		if o.Probes["HARNESS-PANIC"] > 0 {
			rep.Harness = fmt.Sprintf("run %d: %s", i, o.Why)
			break
		}
		if o.Known != "" {
			if knownIDs[o.Known] {
				rep.KnownN[o.Known]++
				if rep.Known[o.Known] == "" || len(o.KnownAt) < len(rep.Known[o.Known]) {
					rep.Known[o.Known] = o.KnownAt
				}
			} else if o.Class == "" {
				o.fail("unlisted "+o.Known, o.KnownAt)
			}
		}
		if o.Class != "" {
			rep.FailIndex, rep.FailClass, rep.FailMsg = i, o.Class, o.Msg
			break
		}
		for k, v := range o.Fired {
			rep.Fired[k] += v
		}
		for k, v := range o.Probes {
			rep.Probes[k] += v
		}
		for k, v := range o.Max {
			if v > rep.Max[k] {
				rep.Max[k] = v
			}
		}
		rep.Steps += o.Steps
		rep.Switches += len(o.Switch)
		for k := range o.Pairs {
			pairs[k] = true
		}
		if o.Why != "" {
			rep.Skips[o.Why]++
		}
		if len(o.Fired) > 0 {
			rep.FaultyRuns++
		}
		if o.Trivial {
			rep.Trivial++
		} else {
			hashes[uint64(o.Hash)] = struct{}{}
			if len(o.Switch) > 0 {
				h := newHash()
				for _, s := range o.Switch {
					h.Int(int(s.At))
					h.Int(s.To)
				}
				faultSeq[uint64(h)] = struct{}{}
			}
		}
		if i < 3 || i == *n-1 {
			b, _ := json.Marshal(sc)
			if len(b) < 6000 {
				rep.Samples = append(rep.Samples, b)
			}
		}
		// one run in 64 is done twice
		if (i / *of)%64 == 0 {
			sc2 := scenarioFor(p, *seed, i, *th)
			o2 := safeRun(p, sc2)
			rep.Rechecks++
			if o2.Hash != o.Hash || o2.Steps != o.Steps || len(o2.Switch) != len(o.Switch) {
				rep.Nondet = fmt.Sprintf("run %d: hash %x/%x steps %d/%d", i, o.Hash, o2.Hash, o.Steps, o2.Steps)
				rep.NondetN++
			}
		}
	}
	rep.FaultSequences = len(faultSeq)
	for k := range pairs {
		rep.Pairs = append(rep.Pairs, k)
	}
	for s, c := range siteSeen {
		if c > 0 {
			rep.Sites = append(rep.Sites, s)
		}
	}
	f, err := os.Create(*out + ".hashes")
	if err == nil {
		bw := bufio.NewWriter(f)
		for h := range hashes {
			binary.Write(bw, binary.LittleEndian, h)
		}
		bw.Flush()
		f.Close()
	}
	b, _ := json.Marshal(rep)
	if err := os.WriteFile(*out, b, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// Replay is the content of a replay file.
type Replay struct {
	Property string
	Class    string
	Message  string
	Hash     string
	BaseSeed uint64
	Shrunk   int
	Scenario *Scenario
	// Before are runs of BaseSeed that have to be made in the same process first,
	// because the code under test keeps something from one run to the next.
	Before   []int `json:",omitempty"`
	Thorough bool  `json:",omitempty"`
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "ERROR "+f+"\n", a...)
	os.Exit(3)
}

// loadKnown reads the known findings of a property.
func loadKnown(file, prop string) map[string]string {
	res := map[string]string{}
	b, err := os.ReadFile(file)
	if err != nil {
		return res
	}
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		res[f[2][3:]] = strings.Join(f[3:], " ")
	}
	return res
}

func check(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	evDir := fs.String("evidence", "", "")
	repDir := fs.String("replays", "", "")
	tmp := fs.String("tmp", "", "")
	knownFile := fs.String("known", "", "")
	sitesFile := fs.String("sites", "", "")
	workers := fs.Int("workers", runtime.NumCPU(), "")
	runs := fs.Int("runs", 0, "")
	listSites := fs.Bool("unreached", false, "list the statements that were not reached")
	fs.Parse(args)
	p := props[*id]
	if p == nil {
		fatal("unknown property %s", *id)
	}
	th := *tier == "thorough"
	n := p.Quick
	if th {
		n = p.Thorough
	}
	if *runs > 0 {
		n = *runs
	}
	known := loadKnown(*knownFile, p.ID)
	ids := []string{}
	for k := range known {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	fmt.Printf("property %s tier %s VERIF_SEED=%d runs %d workers %d\n", p.ID, *tier, *seed, n, *workers)
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	limit, secs := 700*time.Second, "420"
	if th {
		limit, secs = 6*time.Hour, "0"
	}
	type done struct {
		w   int
		err error
		out []byte
	}
	ch := make(chan done, *workers)
	files := make([]string, *workers)
	cmds := make([]*exec.Cmd, *workers)
	for w := 0; w < *workers; w++ {
		files[w] = filepath.Join(*tmp, fmt.Sprintf("w%d.json", w))
		cmd := exec.Command(self, "worker", "-prop", p.ID, "-seed", strconv.FormatUint(*seed, 10), "-n", strconv.Itoa(n),
			"-w", strconv.Itoa(w), "-of", strconv.Itoa(*workers), "-out", files[w], "-thorough="+strconv.FormatBool(th), "-known", strings.Join(ids, ","),
			"-secs", secs) // a slow machine does less, but gives an answer
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400")
		cmds[w] = cmd
		go func(w int) {
			out, err := cmd.CombinedOutput()
			ch <- done{w, err, out}
		}(w)
	}
	timeout := time.After(limit)
	died := map[int]string{}
	for i := 0; i < *workers; i++ {
		select {
		case d := <-ch:
			if d.err != nil {
				t := string(d.out)
				if len(t) > 3000 {
					t = t[:3000]
				}
				died[d.w] = fmt.Sprintf("worker %d: %v\n%s", d.w, d.err, t)
			}
		case <-timeout:
			for _, c := range cmds {
				if c.Process != nil {
					c.Process.Kill()
				}
			}
			fatal("the workers did not end within %v", limit)
		}
	}
	sum := &WorkerReport{FailIndex: -1, Max: map[string]int{}, Fired: map[string]int{}, Probes: map[string]int{}, Skips: map[string]int{}, Known: map[string]string{}, KnownN: map[string]int{}}
	distinct := map[uint64]struct{}{}
	pairs := map[uint64]bool{}
	sites := map[int]bool{}
	for w, f := range files {
		if how, ok := died[w]; ok {
			// the run that killed the process is a failed run
			b, err := os.ReadFile(f + ".at")
			if err != nil || len(b) < 8 {
				fatal("%s", how)
			}
			if i := int(binary.LittleEndian.Uint64(b)); sum.FailIndex < 0 || i < sum.FailIndex {
				sum.FailIndex, sum.FailClass, sum.FailMsg = i, diedClass, how
			}
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		r := &WorkerReport{}
		if err := json.Unmarshal(b, r); err != nil {
			fatal("%v", err)
		}
		if r.Harness != "" {
			fatal("harness: %s", r.Harness)
		}
		if r.Nondet != "" {
			// the simulator decides everything but the order of maps and the like in
			// the code itself
			fmt.Printf("NOTE two executions of one run differ: %s\n", r.Nondet)
			sum.NondetN += r.NondetN
		}
		if r.FailIndex >= 0 && (sum.FailIndex < 0 || r.FailIndex < sum.FailIndex) {
			sum.FailIndex, sum.FailClass, sum.FailMsg = r.FailIndex, r.FailClass, r.FailMsg
		}
		sum.Runs += r.Runs
		sum.Trivial += r.Trivial
		sum.Steps += r.Steps
		sum.Switches += r.Switches
		sum.Rechecks += r.Rechecks
		sum.FaultyRuns += r.FaultyRuns
		sum.FaultSequences += r.FaultSequences
		add := func(a, b map[string]int) {
			for k, v := range b {
				a[k] += v
			}
		}
		add(sum.Fired, r.Fired)
		add(sum.Probes, r.Probes)
		add(sum.Skips, r.Skips)
		add(sum.KnownN, r.KnownN)
		for k, v := range r.Max {
			if v > sum.Max[k] {
				sum.Max[k] = v
			}
		}
		for k, v := range r.Known {
			if sum.Known[k] == "" || len(v) < len(sum.Known[k]) {
				sum.Known[k] = v
			}
		}
		for _, k := range r.Pairs {
			pairs[k] = true
		}
		for _, k := range r.Sites {
			sites[k] = true
		}
		sum.Samples = append(sum.Samples, r.Samples...)
		hb, _ := os.ReadFile(f + ".hashes")
		for i := 0; i+8 <= len(hb); i += 8 {
			distinct[binary.LittleEndian.Uint64(hb[i:])] = struct{}{}
		}
	}
	simWall := time.Since(start).Seconds()
	violations := 0
	code := 0
	if sum.FailIndex >= 0 {
		violations = 1
		code = 1
		var path string
		if sum.FailClass == diedClass {
			path = reportDied(p, *seed, sum.FailIndex, *workers, th, *repDir, self, sum.FailMsg)
		} else {
			path = report(p, *seed, sum.FailIndex, *workers, th, *repDir, self, sum.FailMsg, sum.FailClass, known)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	for _, k := range ids {
		still, how := true, ""
		if demo := demos[k]; demo != nil {
			still, how = demo()
		}
		if still && code == 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", p.ID, known[k], how)
		}
	}
	total := 0
	unreached := []string{}
	if b, err := os.ReadFile(*sitesFile); err == nil {
		var l []struct {
			ID, Line int
			File     string
		}
		if json.Unmarshal(b, &l) == nil {
			total = len(l)
			for i, x := range l {
				if !sites[i] && *listSites {
					unreached = append(unreached, fmt.Sprintf("%s:%d", x.File, x.Line))
				}
			}
		}
	}
	for _, u := range unreached {
		fmt.Println("not reached", u)
	}
	wall := time.Since(start).Seconds()
	cov := map[string]interface{}{
		"evaluations":                    sum.Runs,
		"distinct_nontrivial":            len(distinct),
		"rule":                           p.Rule,
		"samples":                        sum.Samples,
		"seeds":                          sum.Runs,
		"base_seed":                      *seed,
		"runs_per_hour":                  int(float64(sum.Runs) / simWall * 3600),
		"simulated_time_in_statements":   sum.Steps,
		"faults_fired":                   sum.Fired,
		"runs_with_a_fault":              sum.FaultyRuns,
		"trivial_runs":                   sum.Trivial,
		"skipped":                        sum.Skips,
		"probes":                         sum.Probes,
		"largest_measured":               sum.Max,
		"context_switches":               sum.Switches,
		"distinct_schedules":             sum.FaultSequences,
		"distinct_preemption_site_pairs": len(pairs),
		"statements_reached":             len(sites),
		"statements_instrumented":        total,
		"determinism_rechecks":           sum.Rechecks,
		"determinism_differences":        sum.NondetN,
		"known_findings_met":             sum.KnownN,
		"components_real":                p.Real,
		"components_simulated":           p.Stub,
		"workers":                        *workers,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov,
		"wall_s": wall, "violations": violations,
		"assumptions": []string{
			"preemption, crashes and samples take place between statements of the library, not inside of one",
			"a clean batch of seeded runs is evidence, not a proof",
			"the text-position instrumentation does not change the meaning of the statements (the repository's tests pass on the instrumented tree)",
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(*evDir, 0o755)
	if err := os.WriteFile(filepath.Join(*evDir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Printf("runs %d, distinct non-trivial %d, statements %d, switches %d, %.1f s\n", sum.Runs, len(distinct), sum.Steps, sum.Switches, wall)
	keys := []string{}
	for k, v := range sum.Fired {
		keys = append(keys, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(keys)
	fmt.Println("faults fired:", strings.Join(keys, " "))
	os.Exit(code)
}

// report minimises the failing run, stores it and confirms it in a new process.
func report(p *Prop, seed uint64, i, of int, th bool, dir, self, msg, class string, known map[string]string) string {
	run := p.Run
	q := *p
	q.Run = func(sc *Scenario) *Outcome {
		o := run(sc)
		if o.Known != "" && o.Class == "" {
			if _, ok := known[o.Known]; !ok {
				o.fail("unlisted "+o.Known, o.KnownAt)
			}
		}
		return o
	}
	sc := scenarioFor(p, seed, i, th)
	o := safeRun(&q, sc.clone())
	for n := 0; n < 100 && o.Class == ""; n++ {
		o = safeRun(&q, sc.clone())
	}
	if o.Class == "" {
		return reportHistory(p, seed, i, of, th, dir, self, class, msg)
	}
	os.MkdirAll(dir, 0o755)
	small, so, n := shrink(&q, sc, o, 6000)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, seed, i))
	write := func(sc *Scenario, o *Outcome) bool {
		rp := Replay{Property: p.ID, Class: o.Class, Message: o.Msg, Hash: fmt.Sprintf("%016x", uint64(o.Hash)), BaseSeed: seed, Shrunk: n, Scenario: sc}
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
		var out []byte
		var err error
		for n := 0; n < 20; n++ {
			out, err = exec.Command(self, "replay", path).CombinedOutput()
			x, ok := err.(*exec.ExitError)
			if ok && x.ExitCode() == 1 {
				return true
			}
		}
		fmt.Printf("replay of %s did not reproduce: %v\n%s\n", path, err, out)
		return false
	}
	if so.Class == "" || !write(small, so) {
		so = o
		if !write(sc, o) {
			return reportHistory(p, seed, i, of, th, dir, self, class, msg)
		}
	}
	fmt.Printf("violation of %s in run %d of seed %d, minimised in %d steps:\n  %s: %s\n", p.ID, i, seed, n, so.Class, so.Msg)
	return path
}

const diedClass = "process died"

// reportDied stores a run that ends the whole process and confirms it.
func reportDied(p *Prop, seed uint64, i, of int, th bool, dir, self, msg string) string {
	sc := scenarioFor(p, seed, i, th)
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, seed, i))
	b, _ := json.MarshalIndent(Replay{Property: p.ID, Class: diedClass, Message: msg, BaseSeed: seed, Scenario: sc}, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
	out, err := exec.Command(self, "replay", path).CombinedOutput()
	if x, ok := err.(*exec.ExitError); !ok || x.ExitCode() != 1 {
		fmt.Printf("a worker died, but run %d alone does not end the process (%v %s)\n", i, err, out)
		return reportHistory(p, seed, i, of, th, dir, self, diedClass, msg)
	}
	fmt.Printf("run %d of seed %d ends the process: %s\n", i, seed, msg)
	return path
}

// reportHistory stores a run that fails only after other runs in the same
// process, with as few of these as possible.
func reportHistory(p *Prop, seed uint64, i, of int, th bool, dir, self, class, msg string) string {
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, seed, i))
	before := []int{}
	for j := i % of; j < i; j += of {
		before = append(before, j)
		if (j/of)%64 == 0 {
			before = append(before, j)
		}
	}
	sc := scenarioFor(p, seed, i, th)
	hash := ""
	end := time.Now().Add(120 * time.Second)
	n := 0
	fails := func(l []int) bool {
		n++
		b, _ := json.MarshalIndent(Replay{Property: p.ID, Class: class, Message: msg, Hash: hash, BaseSeed: seed, Shrunk: n, Scenario: sc, Before: l, Thorough: th}, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			fatal("%v", err)
		}
		out, err := exec.Command(self, "replay", path).CombinedOutput()
		x, ok := err.(*exec.ExitError)
		if !ok || x.ExitCode() != 1 {
			return false
		}
		if k := strings.Index(string(out), "event hash "); k >= 0 && hash == "" {
			hash = string(out)[k+11 : k+27]
		}
		return true
	}
	ok := false
	for k := 1; !ok && k < len(before) && time.Now().Before(end); k *= 8 {
		if ok = fails(before[len(before)-k:]); ok {
			before = before[len(before)-k:]
		}
	}
	ok = ok || fails(before)
	if !ok {
		// not even the same runs in the same order do it again: the code under
		// test depends on something that is not decided by the simulation
		fmt.Printf("run %d of seed %d violates %s, but not in every execution (%s):\n  %s: %s\n", i, seed, p.ID, path, class, msg)
		return path
	}
	for k := len(before) / 2; k > 0 && time.Now().Before(end); {
		hit := false
		for a := 0; a < len(before) && time.Now().Before(end); {
			z := a + k
			if z > len(before) {
				z = len(before)
			}
			hash = ""
			if c := append(append([]int{}, before[:a]...), before[z:]...); fails(c) {
				before, hit = c, true
			} else {
				a = z
			}
		}
		if !hit || k > len(before) {
			k /= 2
		}
	}
	hash = ""
	fails(before)
	fails(before) // with the hash
	fmt.Printf("violation of %s in run %d of seed %d after %d other runs in the same process, minimised in %d steps:\n  %s: %s\n", p.ID, i, seed, len(before), n, class, msg)
	return path
}

// replayDied runs the scenario in a process of its own.
func replayDied(file string, rp *Replay) {
	if os.Getenv("SIM_REPLAY_CHILD") == "" {
		self, err := os.Executable()
		if err != nil {
			fatal("%v", err)
		}
		cmd := exec.Command(self, "replay", file)
		cmd.Env = append(os.Environ(), "SIM_REPLAY_CHILD=1", "GOMAXPROCS=1", "GOGC=400")
		out, err := cmd.CombinedOutput()
		if err == nil {
			fmt.Printf("%s held\n", rp.Property)
			os.Exit(0)
		}
		if len(out) > 2000 {
			out = out[:2000]
		}
		fmt.Printf("%s: %v\n%s\nVIOLATION property=%s replay=%s\n", rp.Class, err, out, rp.Property, file)
		os.Exit(1)
	}
	rp.before()
	safeRun(props[rp.Property], rp.Scenario)
	os.Exit(0)
}

// before makes the runs that come first.
func (rp *Replay) before() {
	for _, i := range rp.Before {
		safeRun(props[rp.Property], scenarioFor(props[rp.Property], rp.BaseSeed, i, rp.Thorough))
	}
}

func replay(args []string) {
	b, err := os.ReadFile(args[0])
	if err != nil {
		fatal("%v", err)
	}
	rp := &Replay{}
	if err := json.Unmarshal(b, rp); err != nil {
		fatal("%v", err)
	}
	p := props[rp.Property]
	if p == nil {
		fatal("unknown property %s", rp.Property)
	}
	if rp.Class == diedClass {
		replayDied(args[0], rp)
	}
	rp.before()
	o := safeRun(p, rp.Scenario)
	if o.Class == "" && o.Known != "" && rp.Class == "unlisted "+o.Known {
		o.Class, o.Msg = rp.Class, o.KnownAt
	}
	if o.Class == "" {
		fmt.Printf("%s held\n", rp.Property)
		return
	}
	h := fmt.Sprintf("%016x", uint64(o.Hash))
	fmt.Printf("%s: %s\nevent hash %s, recorded %s\n", o.Class, o.Msg, h, rp.Hash)
	if rp.Hash != "" && h != rp.Hash || o.Class != rp.Class {
		fmt.Println("the replay differs from the recorded run")
		os.Exit(2)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, args[0])
	os.Exit(1)
}

// dump prints the hash of every run, to compare processes.
func dump(args []string) {
	fs := flag.NewFlagSet("dump", flag.ExitOnError)
	id := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	to := fs.Int("to", 100, "")
	verbose := fs.Bool("v", false, "")
	fs.Parse(args)
	p := props[*id]
	for i := *from; i < *to; i++ {
		sc := scenarioFor(p, *seed, i, false)
		o := safeRun(p, sc)
		fmt.Printf("%s %d %016x %d %d %s\n", p.ID, i, uint64(o.Hash), o.Steps, len(o.Switch), o.Class)
		if *verbose {
			b, _ := json.Marshal(sc)
			fmt.Println(string(b), o.Msg, o.Why)
		}
	}
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: sim check|worker|replay|dump ...")
	}
	switch os.Args[1] {
	case "check":
		check(os.Args[2:])
	case "worker":
		worker(os.Args[2:])
	case "replay":
		replay(os.Args[2:])
	case "dump":
		dump(os.Args[2:])
	case "list":
		ids := []string{}
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, "\n"))
	default:
		fatal("unknown command %s", os.Args[1])
	}
}
