package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

// Prop is one property with the machinery that decides it: a generator of
// scenarios and the invariants every simulated run of a scenario must keep.
type Prop struct {
	ID      string
	Quick   int // scenarios of a quick run
	Race    bool
	Level   string
	Rule    string
	Gen     func(r *rng, i int) *Scenario
	Check   func(x *Ctx, sc *Scenario) []Viol
	Stubs   []string
	Assumes []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Stats is what the runs of one check covered.
type Stats struct {
	Scenarios, Runs, Skipped, Nontrivial       int
	Steps, Preempt, Choices, Goroutines, Calls uint64
	Faults                                     map[string]int
	Hashes                                     map[uint64]struct{}
	Distinct                                   map[uint64]struct{} // distinct non-trivial runs
	Ops                                        map[string]uint64
	Exits                                      map[string]int
	Flags                                      map[string]int
	Marks                                      map[string]int
	Clocks                                     map[int64]int
	MaxRun                                     uint64
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Hashes: map[uint64]struct{}{}, Distinct: map[uint64]struct{}{}, Ops: map[string]uint64{}, Exits: map[string]int{},
		Flags: map[string]int{}, Marks: map[string]int{}, Clocks: map[int64]int{}}
}

func (s *Stats) merge(o *Stats) {
	s.Scenarios += o.Scenarios
	s.Runs += o.Runs
	s.Skipped += o.Skipped
	s.Nontrivial += o.Nontrivial
	s.Steps += o.Steps
	s.Preempt += o.Preempt
	s.Choices += o.Choices
	s.Goroutines += o.Goroutines
	s.Calls += o.Calls
	if o.MaxRun > s.MaxRun {
		s.MaxRun = o.MaxRun
	}
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k := range o.Hashes {
		s.Hashes[k] = struct{}{}
	}
	for k := range o.Distinct {
		s.Distinct[k] = struct{}{}
	}
	for k, v := range o.Ops {
		s.Ops[k] += v
	}
	for k, v := range o.Exits {
		s.Exits[k] += v
	}
	for k, v := range o.Flags {
		s.Flags[k] += v
	}
	for k, v := range o.Marks {
		s.Marks[k] += v
	}
	for k, v := range o.Clocks {
		s.Clocks[k] += v
	}
}

// Ctx is where one worker runs scenarios.
type Ctx struct {
	w       *world
	race    *runner
	st      *Stats
	useLog  bool
	last    []*RunResult // the runs of the current scenario
	hashes  uint64
	nontriv bool
}

// do executes one simulated run and records what it covered.
func (x *Ctx) do(r *runner, args []string, s Sched, faults []Fault) *RunResult {
	res, err := r.run(x.w.dir, args, s, faults, x.useLog)
	o := defaultOut
	for k := 0; k+1 < len(args); k++ {
		if args[k] == "-o" {
			o = args[k+1]
		}
	}
	x.w.outs = append(x.w.outs, filepath.Clean(o))
	if err != nil {
		panic(err)
	}
	x.st.Runs++
	x.st.Steps += res.Stats["yields"]
	x.st.Preempt += res.Stats["preemptions"]
	x.st.Choices += res.Stats["choices"]
	x.st.Goroutines += res.Stats["goroutines"]
	x.st.Calls += res.Stats["syscalls"]
	if res.MaxRun > x.st.MaxRun {
		x.st.MaxRun = res.MaxRun
	}
	h := res.Hash ^ res.IOHash*0x9e3779b97f4a7c15
	x.hashes = x.hashes*0x100000001b3 ^ h
	x.st.Hashes[h] = struct{}{}
	for i, f := range faults {
		if res.Fired[i] > 0 {
			x.st.Faults[f.Class+":"+f.Kind] += int(res.Fired[i])
		}
	}
	for k, v := range res.Stats {
		if strings.HasPrefix(k, "op:") {
			x.st.Ops[k[3:]] += v
		}
	}
	x.st.Exits[fmt.Sprint(res.Exit)]++
	x.st.Clocks[s.Clock]++
	x.last = append(x.last, res)
	return res
}

func (x *Ctx) args(sc *Scenario, names []string, out string) []string {
	args := append([]string{}, sc.Flags...)
	if out != "" && out != defaultOut {
		args = append(args, "-o", out)
	}
	return append(args, names...)
}

// mark counts a noteworthy state or outcome that was reached.
func (x *Ctx) mark(s string) { x.st.Marks[s]++ }

// nontrivial notes that the current scenario exercised the property.
func (x *Ctx) nontrivial() {
	if !x.nontriv {
		x.nontriv = true
		x.st.Nontrivial++
		x.st.Distinct[x.hashes] = struct{}{}
	}
}

// prepare lays out the scenario's input files.
func (x *Ctx) prepare(sc *Scenario) []string {
	names, err := x.w.setup(sc)
	if err != nil {
		panic(err)
	}
	return names
}

// simple is the common case: one run over valid input which has to succeed;
// it returns the output feed.
func (x *Ctx) simple(sc *Scenario) (Feed, []Viol) {
	names := x.prepare(sc)
	res := x.do(x.w.r, x.args(sc, names, sc.Out), sc.Sched, sc.Faults)
	if v := crashViol(res); len(v) > 0 {
		return nil, v
	}
	if res.Exit != 0 {
		if v := filterViol(sc, res); v != nil {
			return nil, v
		}
		return nil, []Viol{viol("exit:"+msgClass(res.Stderr), "exit status %d on valid input: %s", res.Exit, head(res.Stderr, 400))}
	}
	f, err := x.w.out(sc.Out)
	if err != nil {
		return nil, []Viol{viol("unreadable", "exit status 0, but the output cannot be read: %v", err)}
	}
	return f, nil
}

func (x *Ctx) runCheck(p *Prop, sc *Scenario) (vs []Viol) {
	x.last = nil
	x.hashes = 0
	x.nontriv = false
	for i, f := range sc.Feeds {
		if len(sc.Corrupt) == 0 {
			if v := checkValid(newMod(f)); len(v) > 0 {
				x.st.Skipped++
				if os.Getenv("GTFSVERIF_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "skipped: input", i, v[0].Msg)
				}
				return nil
			}
		}
	}
	x.st.Scenarios++
	x.w.before = nil
	defer func() {
		if len(vs) == 0 {
			vs = x.w.elsewhere()
		}
	}()
	defer func() {
		// what else is in the output directory is none of the program's business
		if !x.w.foreign || len(vs) > 0 {
			return
		}
		if b, err := os.ReadFile(filepath.Join(x.w.dir, sc.Out, foreignFile)); err != nil || string(b) != foreignText {
			vs = append(vs, viol("foreign-file", "a file in the output directory which is not from a feed is gone or changed (%v)", err))
		}
	}()
	for _, f := range sc.Flags {
		if strings.HasPrefix(f, "-") {
			if k := strings.IndexByte(f, '='); k > 0 {
				f = f[:k]
			}
			x.st.Flags[f]++
		}
	}
	return p.Check(x, sc)
}

type hit struct {
	sc *Scenario
	vs []Viol
}

type pool struct {
	bin, racebin, base string
	n                  int
	ctxs               []*Ctx
}

func newPool(bin, racebin, base string, n int) (*pool, error) {
	p := &pool{bin: bin, racebin: racebin, base: base, n: n}
	for k := 0; k < n; k++ {
		dir := filepath.Join(base, fmt.Sprintf("w%d", k))
		r, err := newRunner(bin, dir)
		if err != nil {
			return nil, err
		}
		x := &Ctx{w: &world{r: r, dir: filepath.Join(dir, "work")}, st: newStats()}
		if racebin != "" {
			if x.race, err = newRunner(racebin, filepath.Join(dir, "race")); err != nil {
				return nil, err
			}
		}
		p.ctxs = append(p.ctxs, x)
	}
	return p, nil
}

func (p *pool) stats() *Stats {
	s := newStats()
	for _, x := range p.ctxs {
		s.merge(x.st)
	}
	return s
}

// each runs f for the numbers next() yields on all workers until next says
// no more.
func (p *pool) each(next func() (int, bool), f func(x *Ctx, i int)) {
	var wg sync.WaitGroup
	for _, x := range p.ctxs {
		wg.Add(1)
		go func(x *Ctx) {
			defer wg.Done()
			for {
				i, ok := next()
				if !ok {
					return
				}
				f(x, i)
			}
		}(x)
	}
	wg.Wait()
}

// search generates and runs scenarios first..first+n-1; it stops early once
// violations that are not known were found.
func (p *pool) search(pr *Prop, seed uint64, first, n int, stop func() bool, known func(v Viol) bool, all bool) []hit {
	var mu sync.Mutex
	i := first
	var hits []hit
	next := func() (int, bool) {
		mu.Lock()
		defer mu.Unlock()
		if i >= first+n || len(hits) > 0 && !all || stop() {
			return 0, false
		}
		i++
		return i - 1, true
	}
	p.each(next, func(x *Ctx, i int) {
		r := newRng(seed, strSeed(pr.ID), uint64(i))
		sc := pr.scenario(r, i)
		sc.Property = pr.ID
		sc.Index = i
		vs := x.runCheck(pr, sc)
		var bad []Viol
		for _, v := range vs {
			if known(v) {
				x.mark("known finding: " + v.Sig)
				continue
			}
			bad = append(bad, v)
		}
		if len(bad) > 0 {
			mu.Lock()
			hits = append(hits, hit{sc, bad})
			mu.Unlock()
		}
	})
	sort.Slice(hits, func(a, b int) bool { return hits[a].sc.Index < hits[b].sc.Index })
	return hits
}

// scenario is what Gen makes, within the terms of its own options: with
// --assume-clean-csv the user promises that three files need no CSV reader.
func (pr *Prop) scenario(r *rng, i int) *Scenario {
	sc := pr.Gen(r, i)
	vary(r, sc)
	if !sc.has("--assume-clean-csv") {
		return sc
	}
	for _, f := range sc.Feeds {
		for _, n := range []string{"stop_times.txt", "shapes.txt", "frequencies.txt"} {
			if f[n] == nil {
				continue
			}
			for _, row := range f[n].Rows {
				for _, v := range row {
					if strings.ContainsAny(v, "\",\n") {
						sc.drop("--assume-clean-csv")
						return sc
					}
				}
			}
		}
	}
	return sc
}

func (sc *Scenario) drop(flag string) {
	var l []string
	for _, f := range sc.Flags {
		if f != flag {
			l = append(l, f)
		}
	}
	sc.Flags = l
}
