package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

// finding is a genuine defect that is recorded instead of repaired.
type finding struct {
	prop, sig, replay, text string
}

// known findings: lines "open: property=<id> sig=<signature> replay=<file> <text>"
// and "fixed: property=<id> <commit> <text>"; the latter suppress nothing.
func loadFindings() ([]finding, error) {
	fh, err := os.Open(filepath.Join(verifDir, "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	defer fh.Close()
	var l []finding
	s := bufio.NewScanner(fh)
	for s.Scan() {
		f := strings.SplitN(s.Text(), " ", 5)
		if f[0] != "open:" {
			continue
		}
		if len(f) != 5 || !strings.HasPrefix(f[1], "property=") || !strings.HasPrefix(f[2], "sig=") || !strings.HasPrefix(f[3], "replay=") {
			return nil, fmt.Errorf("known_findings.txt: bad line %q", s.Text())
		}
		l = append(l, finding{f[1][9:], f[2][4:], f[3][7:], f[4]})
	}
	return l, s.Err()
}

func loadScenario(path string) (*Scenario, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	sc := &Scenario{}
	return sc, json.Unmarshal(b, sc)
}

func scratch() (string, error) {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if p, err := os.MkdirTemp(d, "gtfsverif"); err == nil {
			return p, nil
		}
	}
	return os.MkdirTemp(verifDir, "scratch")
}

func buildFor(pr *Prop, dir string) (*buildInfo, error) {
	if b := os.Getenv("GTFSVERIF_BIN"); b != "" {
		return &buildInfo{Bin: b, RaceBin: b + "race"}, nil
	}
	return buildSim(dir, pr.Race)
}

// limitMemory keeps a simulated program that allocates without end from
// taking the machine's memory; the race detector needs its address space.
func limitMemory(pr *Prop) {
	if !pr.Race {
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30})
	}
}

// check decides one property; it returns the exit status.
func check(id string) int {
	t0 := time.Now()
	pr := props[id]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "no such property:", id)
		return 2
	}
	seed := uint64(1)
	if v, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = uint64(v)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	base, err := scratch()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(base)
	info, err := buildFor(pr, filepath.Join(base, "build"))
	if err != nil {
		fmt.Fprintln(os.Stderr, "the simulated build of", repoDir, "failed:", err)
		return 2
	}
	buildS := time.Since(t0).Seconds()
	limitMemory(pr)
	rb := ""
	if pr.Race {
		rb = info.RaceBin
	}
	pl, err := newPool(info.Bin, rb, base, envInt("GTFSVERIF_WORKERS", runtime.NumCPU()))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	x := pl.ctxs[0]

	finds, err := loadFindings()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	open := map[string]bool{}
	findN := 0
	for _, f := range finds {
		if f.prop != id {
			continue
		}
		open[f.sig] = true
		sc, err := loadScenario(filepath.Join(verifDir, f.replay))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if strings.Contains(","+sigs(x.runCheck(pr, sc))+",", ","+f.sig+",") {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.text)
			findN++
		} else {
			fmt.Printf("note: the known finding %q (%s) does not show any more\n", f.sig, f.text)
		}
	}
	known := func(v Viol) bool { return open[v.Sig] }

	// the simulator itself: one seed is one exactly repeatable execution
	selfRuns := 0
	for i := 0; i < 20; i++ {
		sc := pr.scenario(newRng(seed, strSeed(pr.ID), uint64(i)), i)
		x.runCheck(pr, sc.clone())
		a := x.hashes
		la := len(x.last)
		y := pl.ctxs[len(pl.ctxs)-1]
		y.runCheck(pr, sc.clone())
		if a != y.hashes || la != len(y.last) {
			fmt.Fprintf(os.Stderr, "the simulator is not deterministic: scenario %d of %s gave two different executions\n", i, id)
			return 2
		}
		selfRuns += la
	}

	n := envInt("GTFSVERIF_N", pr.Quick)
	limit := 150 * time.Second
	if tier == "thorough" {
		n = 1 << 40
		limit = time.Duration(envInt("GTFSVERIF_THOROUGH_S", 600)) * time.Second
	}
	if s := envInt("GTFSVERIF_LIMIT_S", 0); s > 0 {
		limit = time.Duration(s) * time.Second
	}
	t1 := time.Now()
	end := t1.Add(limit)
	hits := pl.search(pr, seed, 0, n, func() bool { return time.Now().After(end) }, known, false)
	searchS := time.Since(t1).Seconds()

	status := 0
	if len(hits) > 0 {
		status = 1
		h := hits[0]
		sig := h.vs[0].Sig
		sc, tries := h.sc, 0
		if os.Getenv("GTFSVERIF_NOMIN") == "" {
			sc, tries = minimise(x, pr, h.sc, sig, 60*time.Second)
		}
		path, v, err := writeReplay(x, pr, sc, sig)
		if err != nil {
			// the minimised form lost something; fall back to the original
			sc = h.sc
			path, v, err = writeReplay(x, pr, sc, sig)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "the violation found does not replay:", h.vs[0].Msg, err)
			return 2
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		fmt.Printf("  scenario %d of seed %d, minimised in %d runs to options %q, %d fault(s), schedule %+v\n", h.sc.Index, seed, tries, sc.Flags, len(sc.Faults), sc.Sched)
		for _, w := range v {
			fmt.Printf("  [%s] %s\n", w.Sig, w.Msg)
		}
		fmt.Printf("  replay with: %s/check.sh replay %s\n", verifDir, path)
	}
	st := pl.stats()
	if err := writeEvidence(pr, tier, seed, st, info, buildS, searchS, time.Since(t0).Seconds(), status, findN, hits); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if status == 0 {
		fmt.Printf("property=%s held: %d scenarios, %d simulated runs, %d distinct executions, %d faults, %.0f runs/s\n", id, st.Scenarios, st.Runs, len(st.Hashes), total(st.Faults), float64(st.Runs)/searchS)
	}
	return status
}

func envInt(k string, d int) int {
	if v, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return v
	}
	return d
}

func total(m map[string]int) int {
	n := 0
	for _, v := range m {
		n += v
	}
	return n
}

// replayFile is what a violation is reported as.
type replayFile struct {
	*Scenario
	Violation []Viol `json:"violation"`
	Execution string `json:"execution"` // hash over all events of the run
}

func writeReplay(x *Ctx, pr *Prop, sc *Scenario, sig string) (string, []Viol, error) {
	v := x.runCheck(pr, sc)
	a := x.hashes
	if !strings.Contains(","+sigs(v)+",", ","+sig+",") {
		return "", v, fmt.Errorf("not reproduced: %s", sigs(v))
	}
	w := x.runCheck(pr, sc)
	if x.hashes != a || sigs(w) != sigs(v) {
		return "", v, fmt.Errorf("not reproduced exactly")
	}
	dir := filepath.Join(verifDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", pr.ID, a^strSeed(sig)))
	return path, v, writeJSON(path, replayFile{sc, v, fmt.Sprintf("%016x", a)})
}

// replay runs a replay file again.
func replay(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rf := replayFile{Scenario: &Scenario{}}
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	pr := props[rf.Property]
	if pr == nil {
		fmt.Fprintln(os.Stderr, "no such property:", rf.Property)
		return 2
	}
	base, err := scratch()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(base)
	info, err := buildFor(pr, filepath.Join(base, "build"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rb := ""
	if pr.Race {
		rb = info.RaceBin
	}
	pl, err := newPool(info.Bin, rb, base, 1)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	x := pl.ctxs[0]
	v := x.runCheck(pr, rf.Scenario)
	for _, r := range x.last {
		fmt.Printf("run: exit %d, %v\n%s", r.Exit, r.Stats, head(r.Stderr, 2000))
	}
	if h := fmt.Sprintf("%016x", x.hashes); rf.Execution != "" && h != rf.Execution {
		fmt.Printf("note: this is another execution than the recorded one (%s, recorded %s): the code has changed\n", h, rf.Execution)
	}
	if len(v) == 0 {
		fmt.Println("no violation")
		return 0
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", pr.ID, path)
	for _, w := range v {
		fmt.Printf("  [%s] %s\n", w.Sig, w.Msg)
	}
	return 1
}

var realComponents = []string{"gtfstidy main and all processors (from /repo, scheduling points inserted)", "gtfsparser and gtfswriter (module cache, scheduling points inserted)",
	"all other dependencies and the Go standard library", "Go runtime scheduler, channels, locks, maps, timers (run-queue choice, randomness and clock replaced)", "Linux file system calls (the fault seam sits in front of them)"}
var stubComponents = []string{"choice of the next goroutine and preemption points (seeded)", "hash seeds and runtime random numbers (seeded)", "wall clock and monotonic clock (simulated; idle time is skipped)",
	"number of CPUs (simulated)", "errors, short transfers and crashes of file operations (injected)", "garbage collector (switched off: no run is long enough to need it)"}

func writeEvidence(pr *Prop, tier string, seed uint64, st *Stats, info *buildInfo, buildS, searchS, wall float64, status, findN int, hits []hit) error {
	// samples: scenarios of this run, written out
	var samples []interface{}
	for i := 0; i < 3; i++ {
		sc := pr.scenario(newRng(seed, strSeed(pr.ID), uint64(i)), i)
		rows := map[string]int{}
		for k, f := range sc.Feeds {
			for n, t := range f {
				rows[fmt.Sprintf("%d/%s", k, n)] = len(t.Rows)
			}
		}
		var trip interface{}
		if len(sc.Feeds) > 0 && sc.Feeds[0]["trips.txt"] != nil && len(sc.Feeds[0]["trips.txt"].Rows) > 0 {
			trip = sc.Feeds[0].rows("trips.txt")[0]
		}
		samples = append(samples, map[string]interface{}{"index": i, "options": sc.Flags, "output": sc.Out, "input_zip": sc.InZip, "rows": rows, "schedule": sc.Sched, "faults": sc.Faults, "a_trip": trip})
	}
	lv := pr.Level
	if lv == "" {
		lv = "exploration"
	}
	hours := searchS / 3600
	if hours <= 0 {
		hours = 1e-9
	}
	clocks := []string{}
	for c, n := range st.Clocks {
		clocks = append(clocks, fmt.Sprintf("%s: %d", time.Unix(c, 0).UTC().Format("2006-01-02"), n))
	}
	sort.Strings(clocks)
	cov := map[string]interface{}{
		"evaluations":                       st.Runs,
		"distinct_nontrivial":               len(st.Distinct),
		"rule":                              pr.Rule + " Distinct: the hash over every scheduling decision and file operation of the scenario's runs differs.",
		"samples":                           samples,
		"scenarios":                         st.Scenarios,
		"scenarios_skipped_invalid_input":   st.Skipped,
		"scenarios_nontrivial":              st.Nontrivial,
		"simulated_runs_per_hour":           int(float64(st.Runs) / hours),
		"seeds_per_hour":                    int(float64(st.Scenarios) / hours),
		"simulated_time":                    map[string]interface{}{"scheduling_steps": st.Steps, "note": "one step per executed statement of gtfstidy, gtfsparser and gtfswriter; the program uses no timers, so simulated time is counted in steps", "start_of_clock": clocks},
		"faults_injected":                   st.Faults,
		"file_operations":                   st.Ops,
		"distinct_executions":               len(st.Hashes),
		"distinct_measure":                  "hash over all preemptions, run-queue choices and file operations of one run",
		"preemptions":                       st.Preempt,
		"scheduling_choices":                st.Choices,
		"goroutines_started":                st.Goroutines,
		"max_runnable_goroutines":           st.MaxRun,
		"exit_statuses":                     st.Exits,
		"options_exercised":                 st.Flags,
		"outcomes_reached":                  st.Marks,
		"components_real":                   realComponents,
		"components_stubbed":                append(append([]string{}, stubComponents...), pr.Stubs...),
		"instrumented_scheduling_points":    info.Yields,
		"build_s":                           buildS,
		"search_s":                          searchS,
		"known_findings_shown":              findN,
		"determinism_self_test_double_runs": 20,
	}
	ev := map[string]interface{}{"property": pr.ID, "tier": tier, "seed": seed, "level": lv, "coverage": cov, "wall_s": wall, "violations": len(hits),
		"assumptions": append([]string{"the reference model (sim/sem.go) and the strict CSV/ZIP reader of the driver are correct", "goroutine switches happen at statement boundaries and at the runtime's own blocking points; memory is sequentially consistent in the simulated build",
			"most generated feeds are small (a few dozen rows per table, some several times that, in C03 some over a thousand stops or trips); behaviour that needs larger feeds is not reached"}, pr.Assumes...)}
	dir := filepath.Join(verifDir, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return writeJSON(filepath.Join(dir, pr.ID+".json"), ev)
}

// campaign is a development aid: many scenarios, all violations.
func campaign(id string, seed uint64, n int) {
	pr := props[id]
	base, _ := scratch()
	defer os.RemoveAll(base)
	info, err := buildFor(pr, filepath.Join(base, "build"))
	if err != nil {
		fmt.Println(err)
		return
	}
	rb := ""
	if pr.Race {
		rb = info.RaceBin
	}
	pl, err := newPool(info.Bin, rb, base, envInt("GTFSVERIF_WORKERS", runtime.NumCPU()))
	if err != nil {
		fmt.Println(err)
		return
	}
	finds, _ := loadFindings()
	open := map[string]bool{}
	for _, f := range finds {
		if f.prop == id {
			open[f.sig] = true
		}
	}
	t := time.Now()
	hits := pl.search(pr, seed, envInt("GTFSVERIF_FIRST", 0), n, func() bool { return false }, func(v Viol) bool { return open[v.Sig] }, true)
	st := pl.stats()
	fmt.Printf("%s: %d scenarios (%d skipped, %d nontrivial), %d runs, %d distinct, %.0f runs/s, faults %d, exits %v\n marks %v\n", id, st.Scenarios, st.Skipped, st.Nontrivial, st.Runs, len(st.Hashes), float64(st.Runs)/time.Since(t).Seconds(), total(st.Faults), st.Exits, st.Marks)
	cnt := map[string]int{}
	ex := map[string]hit{}
	for _, h := range hits {
		for _, v := range h.vs {
			cnt[v.Sig]++
			if _, ok := ex[v.Sig]; !ok {
				ex[v.Sig] = h
			}
		}
	}
	for sig, k := range cnt {
		h := ex[sig]
		sc := h.sc
		tries := 0
		if os.Getenv("GTFSVERIF_NOMIN") == "" {
			sc, tries = minimise(pl.ctxs[0], pr, h.sc, sig, 30*time.Second)
		}
		v := pl.ctxs[0].runCheck(pr, sc)
		p := fmt.Sprintf("/tmp/ex_%s_%s.json", id, strings.Map(func(c rune) rune {
			if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c == '-' {
				return c
			}
			return '_'
		}, head(sig, 60)))
		writeJSON(p, replayFile{sc, v, ""})
		fmt.Printf("%d x %s  (#%d, minimised with %d runs: %s)\n", k, sig, h.sc.Index, tries, p)
		for _, w := range v {
			fmt.Printf("    [%s] %s\n", w.Sig, w.Msg)
		}
	}
}
