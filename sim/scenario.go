package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// Scenario is one simulated run, completely: workload, options, schedule and
// faults.  It is also the format of a replay file.
type Scenario struct {
	Property string            `json:"property"`
	Profile  string            `json:"profile,omitempty"`
	Index    int               `json:"index"`
	Feeds    []Feed            `json:"feeds"`
	InZip    []bool            `json:"in_zip"`
	Flags    []string          `json:"flags"`
	Out      string            `json:"out"`
	Pre      Feed              `json:"pre,omitempty"` // content of the output directory before the run
	Files    map[string]string `json:"files,omitempty"`
	Sched    Sched             `json:"sched"`
	Sched2   *Sched            `json:"sched2,omitempty"` // a second run, for properties that compare runs
	Faults   []Fault           `json:"faults,omitempty"`
	Note     map[string]string `json:"note,omitempty"`
	Corrupt  []string          `json:"corrupt,omitempty"`
	Rewrite  *Rewrite          `json:"rewrite,omitempty"` // another way to write the input, for the second run

	style *Rewrite // how the input is written
}

func (s *Scenario) has(flags ...string) bool {
	for _, f := range s.Flags {
		for _, g := range flags {
			if f == g {
				return true
			}
		}
	}
	return false
}

func (s *Scenario) val(flag string) (string, bool) {
	for i, f := range s.Flags {
		if strings.HasPrefix(f, flag+"=") {
			return f[len(flag)+1:], true
		}
		if f == flag && i+1 < len(s.Flags) {
			return s.Flags[i+1], true
		}
	}
	return "", false
}

func (s *Scenario) clone() *Scenario {
	b, _ := json.Marshal(s)
	n := &Scenario{}
	json.Unmarshal(b, n)
	return n
}

// Viol is one violated invariant.
type Viol struct {
	Sig string // stable class of the violation, used for known findings
	Msg string
}

func viol(sig, format string, a ...interface{}) Viol {
	return Viol{sig, fmt.Sprintf(format, a...)}
}

// world is the scratch directory of one simulated run.
type world struct {
	r       *runner
	dir     string
	foreign bool              // there is a file in the output directory which is not from a feed
	before  map[string]string // what was there before the runs
	outs    []string          // where the runs may write
}

func (w *world) reset() error {
	w.foreign = false
	w.before, w.outs = nil, nil
	if err := os.RemoveAll(w.dir); err != nil {
		return err
	}
	return os.MkdirAll(w.dir, 0o755)
}

func (w *world) inputs(sc *Scenario) ([]string, error) {
	var names []string
	for i, f := range sc.Feeds {
		n := fmt.Sprintf("in%d", i)
		if sc.style != nil {
			if err := sc.style.write(f, filepath.Join(w.dir, n), i < len(sc.InZip) && sc.InZip[i]); err != nil {
				return nil, err
			}
			if i < len(sc.InZip) && sc.InZip[i] {
				n += ".zip"
			}
			names = append(names, n)
			continue
		}
		if i < len(sc.InZip) && sc.InZip[i] {
			n += ".zip"
			if err := f.writeZip(filepath.Join(w.dir, n), sc.Note["zipdir"]); err != nil {
				return nil, err
			}
		} else if err := f.writeDir(filepath.Join(w.dir, n)); err != nil {
			return nil, err
		}
		names = append(names, n)
	}
	for n, c := range sc.Files {
		if err := os.WriteFile(filepath.Join(w.dir, n), []byte(c), 0o644); err != nil {
			return nil, err
		}
	}
	return names, nil
}

// defaultOut is where the output goes without -o.
const defaultOut = "gtfs-out"

const foreignFile, foreignText = "notes.md", "not from a feed\n"

// setup lays out the inputs of a scenario in an empty scratch directory.
func (w *world) setup(sc *Scenario) ([]string, error) {
	if err := w.reset(); err != nil {
		return nil, err
	}
	names, err := w.inputs(sc)
	if err != nil {
		return nil, err
	}
	if sc.Pre != nil {
		if strings.HasSuffix(sc.Out, ".zip") {
			err = sc.Pre.writeZip(filepath.Join(w.dir, sc.Out), "")
		} else {
			err = sc.Pre.writeDir(filepath.Join(w.dir, sc.Out))
			if err == nil {
				err = os.WriteFile(filepath.Join(w.dir, sc.Out, foreignFile), []byte(foreignText), 0o644)
				w.foreign = true
			}
		}
	}
	if err == nil && strings.Contains(sc.Out, "/") && !noPlace(sc.Out) {
		err = os.MkdirAll(filepath.Dir(filepath.Join(w.dir, strings.TrimRight(sc.Out, "/"))), 0o755)
	}
	w.before = w.tree()
	return names, err
}

// tree is all that is in the scratch directory.
func (w *world) tree() map[string]string {
	t := map[string]string{}
	filepath.Walk(w.dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == w.dir {
			return nil
		}
		n := p[len(w.dir)+1:]
		if i.IsDir() {
			t[n] = "a directory"
			return nil
		}
		b, _ := os.ReadFile(p)
		t[n] = string(b)
		return nil
	})
	return t
}

// elsewhere tells what the runs did outside of their outputs.
func (w *world) elsewhere() []Viol {
	if w.before == nil {
		return nil
	}
	now := w.tree()
	all := map[string]bool{}
	for n := range now {
		all[n] = true
	}
	for n := range w.before {
		all[n] = true
	}
next:
	for _, n := range sortedKeys(all) {
		for _, o := range w.outs {
			if n == o || strings.HasPrefix(n, o+"/") {
				continue next
			}
		}
		a, was := w.before[n]
		b, is := now[n]
		switch {
		case !was:
			return []Viol{viol("stray-file", "the run left %s, which is not in the output", n)}
		case !is:
			return []Viol{viol("file-gone", "the run removed %s, which is not in the output", n)}
		case a != b:
			return []Viol{viol("input-changed", "the run changed %s, which is not in the output", n)}
		}
	}
	return nil
}

func (w *world) exec(sc *Scenario, names []string, out string, s Sched, faults []Fault, log bool) (*RunResult, error) {
	args := append([]string{}, sc.Flags...)
	if out != "" && out != defaultOut {
		args = append(args, "-o", out)
	}
	args = append(args, names...)
	return w.r.run(w.dir, args, s, faults, log)
}

func (w *world) out(name string) (Feed, error) { return readFeed(filepath.Join(w.dir, name)) }

// crashViol reports abnormal ends: panics, deadlocks, exceeded step budgets.
func crashViol(res *RunResult) []Viol {
	switch {
	case res.TimedOut:
		return []Viol{viol("timeout", "the run did not end within the time limit")}
	case res.Budget:
		return []Viol{viol("no-progress", "the run exceeded %d scheduling steps without ending", 1_500_000_000)}
	case strings.Contains(res.Stderr, "all goroutines are asleep"):
		return []Viol{viol("deadlock", "deadlock: %s", head(res.Stderr, 300))}
	case strings.Contains(res.Stderr, "concurrent map"):
		return []Viol{viol("concurrent-map", "%s", head(res.Stderr, 600))}
	case res.panicked():
		return []Viol{viol("panic:"+panicSite(res.Stderr), "uncaught panic: %s", head(res.Stderr, 900))}
	case strings.Contains(res.Stderr, "Error: "):
		return []Viol{viol("panic-recovered:"+head(firstLine(res.Stderr), 80), "panic reported by main: %s", head(res.Stderr, 300))}
	}
	return nil
}

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func panicSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "github.com/patrickbr/gtfs") {
			if i := strings.IndexByte(l, '('); i > 0 {
				l = l[strings.LastIndexByte(l[:i], '/')+1:]
				if j := strings.LastIndexByte(l, '('); j > 0 {
					l = l[:j]
				}
			}
			return l
		}
	}
	return firstLine(s)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func prefixed(fs []Feed, prefix func(i int) string) Feed {
	out := Feed{}
	for i, f := range fs {
		p := prefix(i)
		pf := f.clone()
		for name, t := range pf {
			for ci, h := range t.Header {
				isID := false
				switch h {
				case "agency_id", "stop_id", "route_id", "trip_id", "service_id", "shape_id", "block_id", "fare_id", "level_id", "pathway_id", "attribution_id", "zone_id",
					"parent_station", "from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id", "origin_id", "destination_id", "contains_id":
					isID = true
				}
				if !isID {
					continue
				}
				for _, r := range t.Rows {
					if ci < len(r) && r[ci] != "" {
						r[ci] = p + r[ci]
					}
				}
			}
			o := out[name]
			if o == nil {
				out[name] = t
				continue
			}
			for _, h := range t.Header {
				if o.col(h) < 0 {
					o.Header = append(o.Header, h)
					for k := range o.Rows {
						o.Rows[k] = append(o.Rows[k], "")
					}
				}
			}
			for _, r := range t.Rows {
				n := make([]string, len(o.Header))
				for ci, h := range t.Header {
					n[o.col(h)] = r[ci]
				}
				o.Rows = append(o.Rows, n)
			}
		}
	}
	return out
}

// inputModel is the reference model of all inputs of a scenario together.
func inputModel(sc *Scenario) *Mod {
	pre, _ := sc.val("--prefix")
	if len(sc.Feeds) == 1 && pre == "" {
		return newMod(sc.Feeds[0])
	}
	return newMod(prefixed(sc.Feeds, sc.prefix))
}

// prefix is what the tool puts before the IDs of the i-th feed.
func (s *Scenario) prefix(i int) string {
	pre, _ := s.val("--prefix")
	if len(s.Feeds) == 1 {
		return pre
	}
	return fmt.Sprintf("%s%d#", pre, i)
}

func genSched(r *rng) Sched {
	s := Sched{Seed: r.next(), HashSeed: r.next(), NCPU: r.pickn(1, 2, 3, 4, 4, 8, 16, 64), Mode: r.pickn(0, 0, 0, 1, 2, 3, 3), Yield: r.pickn(0, 1, 2, 5, 20, 100, 1000), Clock: int64(r.pickn(0, 1577836800, 1700000000, 4102444800))}
	return s
}

// benignFaults are faults every program has to survive unnoticed:
// interrupted calls and short transfers.
func benignFaults(r *rng) []Fault {
	if !r.p(35) {
		return nil
	}
	var fs []Fault
	for i := 0; i <= r.n(3); i++ {
		switch r.n(6) {
		case 0:
			fs = append(fs, Fault{"read-in", 1 + r.n(30), "EINTR", false, ""})
		case 1:
			fs = append(fs, Fault{"write-out", 1 + r.n(16), "EINTR", false, ""})
		case 2:
			fs = append(fs, Fault{"read-in", 1 + r.n(30), r.pick("SHORT", "ONE-BYTE"), r.p(30), ""})
		case 3:
			fs = append(fs, Fault{"write-out", 1 + r.n(16), r.pick("SHORT", "ONE-BYTE"), false, ""})
		case 4:
			fs = append(fs, Fault{"write-out", 1 + r.n(3), "SHORT", true, ""})
		case 5:
			fs = append(fs, Fault{r.pick("open-in", "open-out"), 1 + r.n(12), "EINTR", false, ""})
		}
	}
	return fs
}

// msgClass is the kind of a message: without names, numbers and places.
func msgClass(s string) string {
	if i := strings.Index(s, "feed:\n"); i >= 0 {
		s = s[i+6:]
	}
	s = firstLine(strings.TrimSpace(s))
	file := ""
	if i := strings.Index(s, " - "); i >= 0 {
		if j := strings.Index(s[:i], ".txt:"); j > 0 {
			file = s[:j]
		}
		s = s[i+3:]
	}
	if i, j := strings.Index(s, " with id "), strings.LastIndex(s, " found"); i >= 0 && j > i {
		s = file + " " + s[:i] + s[j:]
	}
	out := ""
	q := false
	for _, r := range s {
		switch {
		case r == '\'' || r == '"':
			q = !q
		case q || r >= '0' && r <= '9' || r == '#':
		case r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_':
			out += string(r)
		case !strings.HasSuffix(out, "-"):
			out += "-"
		}
	}
	return head(strings.Trim(out, "-"), 50)
}
