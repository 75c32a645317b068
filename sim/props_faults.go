package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// inputs with few, known consequences: what a run writes is the same
// whatever the schedule, up to IDs, so that two runs can be compared.
func faultScenario(r *rng) *Scenario {
	o := defaultGen()
	o.Trips = [2]int{1, r.pickn(4, 12)}
	sc := baseScenario(r, o)
	sc.Faults = nil
	if r.p(40) {
		sc.Feeds[0] = messyFeed(r, o)
	}
	if r.p(15) {
		sc.Feeds = append(sc.Feeds, genFeed(r, o))
		sc.InZip = append(sc.InZip, r.p(50))
		sameZone(sc.Feeds)
	}
	switch r.n(10) {
	case 0, 1, 2, 3:
		sc.Flags = flagSet(r, 10, formatFlags...)
	case 4, 5, 6:
		sc.Flags = subset(r, r.pickn(10, 30), exactFlags...)
	case 7, 8:
		sc.Flags = mixFlags(r)
	case 9:
		sc.Flags = []string{"--date-start=20200102", "--date-end=20200220"}
	}
	if r.p(10) {
		sc.Flags = append(sc.Flags, "--fix")
	}
	if r.p(15) {
		sc.Flags = append(sc.Flags, "-i")
	}
	return sc
}

// sameResult compares the outputs of two runs of a scenario.
func sameResult(sc *Scenario, fa, fb Feed) []Viol {
	a, b := newMod(fa), newMod(fb)
	var vs []Viol
	for _, n := range sortedKeys(fb) {
		if fa[n] == nil {
			vs = append(vs, viol("differs:files", "the output has %s, which a run without faults does not write", n))
		}
	}
	for _, n := range sortedKeys(fa) {
		if fb[n] == nil {
			vs = append(vs, viol("differs:files", "the output lacks %s", n))
		}
	}
	if len(vs) > 0 {
		return vs
	}
	if sc.does("-P") || sc.does("-I") || sc.does("-E") {
		l := levelFor(sc)
		return differ("connection", asSet(a.timetable(l, nil)), asSet(b.timetable(l, nil)))
	}
	p, q := a.factsOf(sc), b.factsOf(sc)
	for k := range q {
		if p[k] == nil {
			p[k] = nil
		}
	}
	for _, k := range sortedKeys(p) {
		vs = append(vs, differ(k, p[k], q[k])...)
	}
	if len(vs) == 0 && !sc.any(exactFlags...) && !sc.any("-d", "-i", "--compress", "--Compress", "--merge", "--Merge") {
		// nothing but the order of rows may differ
		for _, n := range sortedKeys(fa) {
			x, y := map[string]int{}, map[string]int{}
			for _, r := range fa.rows(n) {
				x[rowText(r)]++
			}
			for _, r := range fb.rows(n) {
				y[rowText(r)]++
			}
			vs = append(vs, differ("rows:"+n, x, y)...)
		}
	}
	return vs
}

func rowText(r Row) string {
	var l []string
	for k, v := range r {
		if v != "" {
			l = append(l, k+"="+v)
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// reached maps the planned faults onto calls the run really makes: the nth
// call of a class that has fewer is counted round.
func reached(fs []Fault, ref *RunResult) []Fault {
	var out []Fault
	for _, f := range fs {
		if f.Path != "" {
			out = append(out, f)
			continue
		}
		n := int(ref.Stats["op:"+f.Class])
		if n == 0 {
			continue
		}
		f.Nth = (f.Nth-1)%n + 1
		out = append(out, f)
	}
	return out
}

func hardFault(f Fault) bool {
	switch f.Kind {
	case "EINTR", "SHORT", "ONE-BYTE":
		return false
	}
	return true
}

// genFaults draws faults of the classes; the first of them is a hard one.
func genFaults(r *rng, hard [][2]string, max int) []Fault {
	var fs []Fault
	n := 1 + r.n(max)
	for i := 0; i < n; i++ {
		k := hard[r.n(len(hard))]
		kinds := strings.Fields(k[1])
		f := Fault{Class: k[0], Nth: 1 + r.n(r.pickn(6, 40, 200)), Kind: kinds[r.n(len(kinds))], Sticky: r.p(40)}
		if f.Kind == "EINTR" {
			f.Sticky = false // the standard library repeats the call until it gets through
		}
		fs = append(fs, f)
	}
	return fs
}

// honest: the runs of a scenario with faults either fail with a message or
// give the result of the run without faults.
func honest(x *Ctx, sc *Scenario, out bool, why func(sc *Scenario, res *RunResult, fs []Fault) string) []Viol {
	names := x.prepare(sc)
	ref := x.do(x.w.r, x.args(sc, names, sc.Out), sc.Sched, nil)
	if v := crashViol(ref); len(v) > 0 {
		return v
	}
	if ref.Exit != 0 {
		return []Viol{viol("exit:"+msgClass(ref.Stderr), "exit status %d on valid input: %s", ref.Exit, head(ref.Stderr, 400))}
	}
	fa, err := x.w.out(sc.Out)
	if err != nil {
		return []Viol{viol("unreadable", "exit status 0, but the output cannot be read: %v", err)}
	}
	var vs []Viol
	var bad []Fault
	seen := map[string]bool{}
	groups := [][]Fault{}
	if sc.Note["sweep"] != "" {
		groups = sweep(x, sc, ref)
	} else if sc.Note["each"] != "" {
		for _, f := range sc.Faults {
			groups = append(groups, []Fault{f})
		}
	} else {
		groups = append(groups, sc.Faults)
	}
	for _, g := range groups {
		g = reached(g, ref)
		if len(g) == 0 {
			continue
		}
		names := x.prepare(sc)
		res := x.do(x.w.r, x.args(sc, names, sc.Out), sc.Sched, g)
		if v := honestRun(x, sc, out, why, fa, res, g); len(v) > 0 {
			if sc.Note["sweep"] == "" {
				return v
			}
			if !seen[v[0].Sig] {
				seen[v[0].Sig] = true
				vs = append(vs, v...)
				bad = append(bad, g...)
			}
		}
	}
	if len(bad) > 0 {
		sc.Faults = bad
		sc.Note = map[string]string{"each": "1"}
	}
	return vs
}

// sweep is one fault for each call of a class which the program makes.
func sweep(x *Ctx, sc *Scenario, ref *RunResult) [][]Fault {
	f := sc.Faults[0]
	n := int(ref.Stats["op:"+f.Class])
	if n > 150 {
		n = 150
	} else {
		x.mark("complete sweep over all calls " + f.Class + " " + f.Kind)
	}
	var l [][]Fault
	for k := 1; k <= n; k++ {
		l = append(l, []Fault{{f.Class, k, f.Kind, f.Sticky, ""}})
	}
	return l
}

func honestRun(x *Ctx, sc *Scenario, out bool, why func(sc *Scenario, res *RunResult, fs []Fault) string, fa Feed, res *RunResult, g []Fault) []Viol {
	hard := false
	for i, f := range g {
		if res.Fired[i] > 0 && hardFault(f) {
			hard = true
			if res.Exit == 0 {
				x.mark("tolerated " + f.Class)
			} else {
				x.mark("reported " + f.Class)
			}
		}
	}
	if sideHit(sc, res, !out) {
		x.mark("fault on the other side")
		return nil
	}
	if hard {
		x.nontrivial()
	}
	if res.Exit != 0 && !hard {
		return []Viol{viol("exit:benign", "interrupted or short calls only (%v), but exit status %d: %s", g, res.Exit, head(res.Stderr, 300))}
	}
	if res.Exit != 0 && strings.HasPrefix(res.Stderr, "Error: ") {
		return nil // a message, if not a good one
	}
	if v := crashViol(res); len(v) > 0 {
		return v
	}
	if res.Exit != 0 {
		if strings.TrimSpace(res.Stderr) == "" {
			return []Viol{viol("silent", "exit status %d without a message after %v", res.Exit, g)}
		}
		return nil
	}
	at := why(sc, res, g)
	fb, err := x.w.out(sc.Out)
	if err != nil {
		return []Viol{viol("false-success:"+at, "exit status 0 after %s, but the output cannot be read: %v", faultText(res, g), err)}
	}
	if v := sameResult(sc, fa, fb); len(v) > 0 {
		return []Viol{viol("false-success:"+at, "exit status 0 after %s, but the output is not that of a run without faults (%s): %s", faultText(res, g), v[0].Sig, v[0].Msg)}
	}
	return nil
}

func faultText(res *RunResult, g []Fault) string {
	var l []string
	for i, f := range g {
		if res.Fired[i] > 0 {
			l = append(l, fmt.Sprintf("%s %s of call %d (%s) x%d", f.Class, f.Kind, f.Nth, res.FirePath[i], res.Fired[i]))
		}
	}
	return strings.Join(l, ", ")
}

// sideHit: a fault hit a call with a path that is (not) the output's.
func sideHit(sc *Scenario, res *RunResult, out bool) bool {
	for i := range res.Fired {
		p := res.FirePath[i]
		if res.Fired[i] > 0 && p != "" && (p == sc.Out || strings.HasPrefix(p, sc.Out+"/")) == out {
			return true
		}
	}
	return false
}

// fired names the kinds of faults that happened, with their place.
func fired(res *RunResult, g []Fault) []string {
	m := map[string]bool{}
	for i, f := range g {
		if res.Fired[i] > 0 && hardFault(f) {
			m[f.Class] = true
		}
	}
	return sortedKeys(m)
}

// noPlace: there is no directory for the output, and none is made.
func noPlace(out string) bool {
	return strings.HasPrefix(out, "nowhere/") || strings.HasPrefix(out, "in0.zip/")
}

const hardErr = "EIO EACCES EPERM ENOMEM EMFILE"

func init() {
	register(&Prop{ID: "C13", Quick: 12000, Level: "fault_enumeration",
		Rule: "A random feed is written without faults and then again with one or more failing calls on the output side (creating, opening, writing, removing files, directory, status calls; full disk, quota, I/O error, permission; once or from then on; interrupted and short writes as noise). Each run must fail with a message, or end with status 0 and exactly the output of the run without faults. Non-trivial: a hard fault hit a call.",
		Gen: func(r *rng, i int) *Scenario {
			sc := faultScenario(r)
			sc.Out = r.pick("out", "out.zip", "out.zip")
			if r.p(30) {
				sc.Pre = genFeed(r, defaultGen())
			}
			w := "ENOSPC EIO EDQUOT EFBIG EPERM"
			sc.Faults = genFaults(r, [][2]string{{"write-out", w}, {"write-out", w}, {"write-out", w}, {"write-out", "SHORT ONE-BYTE EINTR"}, {"open-out", "ENOSPC EROFS EDQUOT EINTR " + hardErr},
				{"mkdir", "ENOSPC EROFS EACCES EDQUOT EIO"}, {"unlink", "EROFS EACCES EIO EPERM"}, {"stat", hardErr + " ENOENT"}, {"close-out", "EIO ENOSPC EDQUOT"}, {"fsync", "EIO ENOSPC"}, {"rename", "EIO EACCES ENOSPC"}, {"truncate", "EIO"}}, 5)
			sc.Note = map[string]string{}
			if r.p(2) {
				// there is no place for the output
				sc.Out, sc.Pre, sc.Faults = r.pick("nowhere/out", "nowhere/out.zip", "nowhere/deep/out.zip"), nil, nil
				if sc.InZip[0] && r.p(50) {
					sc.Out = r.pick("in0.zip/out", "in0.zip/out.zip")
				}
				return sc
			}
			if r.p(65) {
				sc.Note["each"] = "1"
			}
			if r.p(8) {
				smallSweep(r, sc)
			}
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if noPlace(sc.Out) {
				res := x.do(x.w.r, x.args(sc, x.prepare(sc), sc.Out), sc.Sched, nil)
				if v := crashViol(res); len(v) > 0 {
					return v
				}
				x.mark("no place for the output")
				x.nontrivial()
				if res.Exit == 0 {
					return []Viol{viol("false-success:no-place", "exit status 0, but the output cannot be at %s", sc.Out)}
				}
				if strings.TrimSpace(res.Stderr) == "" {
					return []Viol{viol("silent", "exit status %d without a message, as the output cannot be at %s", res.Exit, sc.Out)}
				}
				return nil
			}
			return honest(x, sc, true, func(sc *Scenario, res *RunResult, g []Fault) string {
				kind := "dir:"
				if strings.HasSuffix(sc.Out, ".zip") {
					kind = "zip:"
				}
				for i, f := range g {
					if res.Fired[i] > 0 && f.Class == "write-out" && hardFault(f) && kind == "dir:" {
						return "dir:write-out"
					}
				}
				return kind + strings.Join(fired(res, g), "+")
			})
		}})

	register(&Prop{ID: "C14", Quick: 9000, Level: "fault_enumeration",
		Rule: "A random feed is read without faults and then again with one or more failing calls on the input side (opening, reading, listing, status calls; I/O error, permission, out of descriptors or memory; once or from then on; interrupted and short reads as noise). Each run must fail with a message, or end with status 0 and exactly the output of the run without faults. Non-trivial: a hard fault hit a call.",
		Gen: func(r *rng, i int) *Scenario {
			sc := faultScenario(r)
			if r.p(20) {
				// an area around everything
				if r.p(50) {
					sc.Files = map[string]string{"area.txt": "0,0,60,0,60,60,0,60,0,0"}
					sc.Flags = append(sc.Flags, "--polygon-file=area.txt")
				} else {
					sc.Files = map[string]string{"area.geojson": `{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[[[0,0],[60,0],[60,60],[0,60],[0,0]]]}}]}`}
					sc.Flags = append(sc.Flags, "--polygon-file=area.geojson")
				}
			}
			sc.Faults = genFaults(r, [][2]string{{"open-in", "EIO EACCES EMFILE ENOMEM EINTR"}, {"open-in", "EIO EACCES EMFILE ENOENT"}, {"read-in", "EIO ENOMEM EPERM"}, {"read-in", "EIO"}, {"read-in", "EIO EINTR SHORT ONE-BYTE"},
				{"stat", hardErr}, {"getdents", "EIO"}, {"close-in", "EIO"}}, 5)
			if r.p(40) {
				// a file nobody may read
				k := r.n(len(sc.Feeds))
				l := sc.Feeds[k].files()
				p := fmt.Sprintf("in%d.zip", k)
				if !sc.InZip[k] {
					p = fmt.Sprintf("in%d/", k) + l[r.n(len(l))]
				}
				if len(sc.Files) > 0 && r.p(40) {
					p = sortedKeys(sc.Files)[0]
				}
				sc.Faults[r.n(len(sc.Faults))] = Fault{Class: "open-in", Nth: 1, Kind: r.pick("EACCES", "EACCES", "EIO", "EMFILE"), Path: p}
			}
			sc.Note = map[string]string{}
			if r.p(65) {
				sc.Note["each"] = "1"
			}
			if r.p(8) {
				smallSweep(r, sc)
			}
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			return honest(x, sc, false, func(sc *Scenario, res *RunResult, g []Fault) string {
				var l []string
				for i, f := range g {
					if res.Fired[i] == 0 || !hardFault(f) {
						continue
					}
					p := res.FirePath[i]
					name := filepath.Base(p)
					at := f.Class
					switch {
					case f.Path != "":
						at = "persistent-" + f.Class + ":" + name
					case f.Class == "open-in" && (schema[name] == nil || requiredFiles[name]):
						at += ":" + name
					case f.Class == "open-in":
						at = "optional-open"
					case f.Class == "read-in" && sc.any("-D", "--fix"):
						at = "read-with-D"
					case f.Class == "read-in" && sc.has("--assume-clean-csv"):
						at = "assume-clean-read"
					case f.Class == "read-in" && anyTrue(sc.InZip):
						at = "zip-entry-read"
					case f.Class == "stat":
						at = "optional-stat"
					case f.Class == "close-in":
						continue
					}
					l = append(l, at)
				}
				// each of these may be all there is to it
				for _, k := range []string{"optional-open", "optional-stat", "zip-entry-read", "read-with-D", "assume-clean-read"} {
					if contains(l, k) {
						return k
					}
				}
				return strings.Join(l, "+")
			})
		}})

	register(&Prop{ID: "C15", Quick: 7500, Level: "fault_enumeration",
		Rule: "The program is killed before, in the middle of, or after any of its file-system calls (or made to fail there), possibly while writing over the output of an earlier run of another feed; then it runs again, to the same place. The input files must be byte for byte the same after each run, and the second run must give what a run in an empty place gives. Non-trivial: the first run was killed or failed.",
		Gen: func(r *rng, i int) *Scenario {
			sc := faultScenario(r)
			if r.p(45) {
				sc.Pre = genFeed(r, defaultGen())
				delete(sc.Pre, "translations.txt")
			}
			k := "CRASH CRASH CRASH-AFTER"
			switch {
			case r.p(75):
				sc.Faults = genFaults(r, [][2]string{{"write-out", k + " TORN-CRASH TORN-CRASH"}, {"write-out", k + " TORN-CRASH"}, {"open-out", k}, {"open-out", k}, {"mkdir", k}, {"unlink", k}, {"stat", k}, {"open-in", "CRASH"}, {"read-in", "CRASH"}, {"close-out", k}, {"rename", k}, {"fsync", k}}, 4)
			case r.p(60):
				sc.Faults = genFaults(r, [][2]string{{"write-out", "ENOSPC EIO"}, {"open-out", "EIO ENOSPC"}, {"unlink", "EIO"}, {"mkdir", "EIO"}, {"stat", "EIO"}, {"read-in", "EIO"}}, 3)
			}
			sc.Note = map[string]string{"each": "1"}
			if r.p(8) {
				smallSweep(r, sc)
			}
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			pre := sc.Pre
			sc.Pre = nil
			names := x.prepare(sc)
			sc.Pre = pre
			ref := x.do(x.w.r, x.args(sc, names, sc.Out), sc.Sched, nil)
			if v := crashViol(ref); len(v) > 0 {
				return v
			}
			if ref.Exit != 0 {
				return []Viol{viol("exit:"+msgClass(ref.Stderr), "exit status %d on valid input: %s", ref.Exit, head(ref.Stderr, 400))}
			}
			want, err := x.w.out(sc.Out)
			if err != nil {
				return []Viol{viol("unreadable", "exit status 0, but the output cannot be read: %v", err)}
			}
			fs := reached(sc.Faults, ref)
			if sc.Note["sweep"] != "" {
				fs = nil
				for _, g := range sweep(x, sc, ref) {
					fs = append(fs, g...)
				}
			}
			n := len(fs)
			if n == 0 {
				n = 1
			}
			for k := 0; k < n; k++ {
				var g []Fault
				if k < len(fs) {
					g = fs[k : k+1]
				}
				if v := crashThenRerun(x, sc, g, want); len(v) > 0 {
					if sc.Note["sweep"] != "" {
						sc.Faults = g
						delete(sc.Note, "sweep")
					}
					return v
				}
			}
			return nil
		}})
}

func crashThenRerun(x *Ctx, sc *Scenario, g []Fault, want Feed) []Viol {
	names := x.prepare(sc)
	before := x.inputBytes(sc, names)
	if len(g) > 0 {
		res := x.do(x.w.r, x.args(sc, names, sc.Out), sc.Sched, g)
		if res.Crash {
			x.mark("killed at " + g[0].Class)
			x.nontrivial()
		} else if res.Exit != 0 {
			x.mark("failed at " + g[0].Class)
			x.nontrivial()
		}
		if d := diffBytes(before, x.inputBytes(sc, names)); d != "" {
			return []Viol{viol("input-changed", "the run that was stopped by %v changed the input: %s", g, d)}
		}
	} else {
		x.mark("over older output")
	}
	res := x.do(x.w.r, x.args(sc, names, sc.Out), sc.Sched, nil)
	if v := crashViol(res); len(v) > 0 {
		return v
	}
	if d := diffBytes(before, x.inputBytes(sc, names)); d != "" {
		return []Viol{viol("input-changed", "the run changed the input: %s", d)}
	}
	if res.Exit != 0 {
		return []Viol{viol("rerun-fails", "after %v, a run to the same place ends with status %d: %s", g, res.Exit, head(res.Stderr, 400))}
	}
	got, err := x.w.out(sc.Out)
	if err != nil {
		return []Viol{viol("rerun-unreadable", "after %v, the output of a run to the same place cannot be read: %v", g, err)}
	}
	if v := sameResult(sc, want, got); len(v) > 0 {
		return []Viol{viol("rerun-"+v[0].Sig, "after %v, the output of a run to the same place is not that of a run in an empty place: %s", g, v[0].Msg)}
	}
	return nil
}

// smallSweep makes a scenario one that tries every call in turn.
func smallSweep(r *rng, sc *Scenario) {
	if len(sc.Faults) == 0 {
		return
	}
	for i := range sc.Faults {
		if hardFault(sc.Faults[i]) && sc.Faults[i].Path == "" {
			sc.Faults = sc.Faults[i : i+1]
			o := defaultGen()
			o.Trips = [2]int{1, 2}
			sc.Feeds = []Feed{genFeed(r, o)}
			sc.InZip = sc.InZip[:1]
			sc.Note["sweep"] = "1"
			return
		}
	}
}

// inputBytes is the content of all input files.
func (x *Ctx) inputBytes(sc *Scenario, names []string) map[string]string {
	m := map[string]string{}
	l := append([]string{}, names...)
	for n := range sc.Files {
		l = append(l, n)
	}
	for _, n := range l {
		p := filepath.Join(x.w.dir, n)
		if fi, err := os.Stat(p); err == nil && fi.IsDir() {
			for k, v := range dirBytes(p) {
				m[n+"/"+k] = v
			}
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			m[n] = "missing"
			continue
		}
		m[n] = string(b)
	}
	return m
}

func diffBytes(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		if v, ok := b[k]; !ok {
			return k + " is gone"
		} else if v != a[k] {
			return k + " has other content"
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return k + " is new"
		}
	}
	return ""
}

func anyTrue(l []bool) bool {
	for _, b := range l {
		if b {
			return true
		}
	}
	return false
}
