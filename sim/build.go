package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// The simulator is put under the unmodified program: `go build -overlay`
// replaces a handful of Go runtime and standard library files by patched
// copies (scheduler, randomness, clock, system calls) and inserts a scheduling
// point before every statement of gtfstidy, gtfsparser and gtfswriter.
// /repo itself is never written to.

var (
	repoDir  = envOr("GTFSVERIF_REPO", "/repo")
	verifDir = envOr("GTFSVERIF_DIR", "/verif")
	goRoot   = envOr("GTFSVERIF_GOROOT", "/opt/veriftools/go1.27.3")
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

type rtPatch struct {
	file     string
	from, to string
}

var rtPatches = []rtPatch{
	{"runtime/proc.go", "	randinit() // must run before mallocinit, AlgInit, mcommoninit\n", "	simInit()\n	randinit() // must run before mallocinit, AlgInit, mcommoninit\n"},
	{"runtime/proc.go", "	if procresize(procs) != nil {\n		throw(\"unknown runnable goroutine during bootstrap\")", "	if simOn {\n		procs = 1\n	}\n	if procresize(procs) != nil {\n		throw(\"unknown runnable goroutine during bootstrap\")"},
	{"runtime/proc.go", "	if haveSysmon {\n		systemstack(func() {\n			newm(sysmon, nil, -1)", "	if haveSysmon && !simOn {\n		systemstack(func() {\n			newm(sysmon, nil, -1)"},
	{"runtime/proc.go", "	lockOSThread()\n\n	if mp != &m0 {", "	if !simOn {\n		lockOSThread()\n	}\n\n	if mp != &m0 {"},
	{"runtime/proc.go", "		if needUnlock {\n			unlockOSThread()\n", "		if needUnlock && !simOn {\n			unlockOSThread()\n"},
	{"runtime/proc.go", "	needUnlock = false\n	unlockOSThread()\n", "	needUnlock = false\n	if !simOn {\n		unlockOSThread()\n	}\n"},
	{"runtime/proc.go", "func runqget(pp *p) (gp *g, inheritTime bool) {\n", "func runqget(pp *p) (gp *g, inheritTime bool) {\n	if simOn {\n		return simRunqget(pp), false\n	}\n"},
	{"runtime/proc.go", "		runqput(pp, gp, true)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)\n", "		runqput(pp, gp, true)\n	} else if simOn {\n		runqput(pp, gp, false)\n	} else {\n		lock(&sched.lock)\n		globrunqput(gp)\n"},
	{"runtime/proc.go", "	newg.goid = pp.goidcache\n", "	newg.goid = pp.goidcache\n	if simOn {\n		simW[sGo]++\n	}\n"},
	// an idle simulator jumps to the next timer instead of waiting
	{"runtime/proc.go", "		if pollUntil != 0 {\n			if now == 0 {\n", "		if simOn && pollUntil != 0 {\n			if simClk < pollUntil {\n				simClk = pollUntil\n			}\n			now = pollUntil\n		}\n		if pollUntil != 0 {\n			if now == 0 {\n"},
	// other threads (those that come back from a system call) must not draw
	// from the stream of random numbers when they wait for a runtime lock
	{"runtime/lock_spinbit.go", "	antiStarve := cheaprandn(mutexTailWakePeriod) == 0\n", "	antiStarve := !simOn && cheaprandn(mutexTailWakePeriod) == 0\n"},
	{"runtime/mprof.go", "	if cheaprandn(gTrackingPeriod) == 0 {\n		return nanotime()\n", "	if !simOn && cheaprandn(gTrackingPeriod) == 0 {\n		return nanotime()\n"},
	{"runtime/rand.go", "	globalRand.state.Init(*seed)\n", "	if simOn {\n		for i := range seed {\n			seed[i] = byte(simRand())\n		}\n	}\n	globalRand.state.Init(*seed)\n"},
	{"runtime/rand.go", "	mp := getg().m\n	c := &mp.chacha8\n", "	if simOn {\n		return simRand()\n	}\n	mp := getg().m\n	c := &mp.chacha8\n"},
	{"runtime/rand.go", "func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n	if simOn {\n		return uint32(simRand())\n	}\n"},
	{"runtime/debug.go", "	if n <= 0 {\n		unlock(&sched.lock)\n		return ret\n	}\n	// Set early", "	if simOn {\n		unlock(&sched.lock)\n		ret = int(simW[cNCPU])\n		if n > 0 {\n			simW[sGOMAXPROCSset]++\n			simW[cNCPU] = uint64(n)\n		}\n		return ret\n	}\n	if n <= 0 {\n		unlock(&sched.lock)\n		return ret\n	}\n	// Set early"},
	{"runtime/debug.go", "	return int(numCPUStartup)\n", "	if simOn {\n		return int(simW[cNCPU])\n	}\n	return int(numCPUStartup)\n"},
	{"runtime/mgc.go", "func GC() {\n", "func GC() {\n	if simOn {\n		return\n	}\n"},
	{"runtime/mgc.go", "func gcStart(trigger gcTrigger) {\n", "func gcStart(trigger gcTrigger) {\n	if simOn {\n		return\n	}\n"},
	{"runtime/time_nofake.go", "	return nanotime1()\n", "	if simOn {\n		return simNanotime()\n	}\n	return nanotime1()\n"},
	{"time/time.go", "func Now() Time {\n	sec, nsec, mono := runtimeNow()\n", "func Now() Time {\n	sec, nsec, mono := runtimeNow()\n	if s, n, m, ok := simNow(); ok {\n		sec, nsec, mono = s, n, m\n	}\n"},
	{"time/time.go", "//go:linkname runtimeNow\n", "//go:linkname simNow\nfunc simNow() (sec int64, nsec int32, mono int64, ok bool)\n\n//go:linkname runtimeNow\n"},
	{"syscall/syscall_linux.go", "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n", "func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n	if s1, s2, e, ok := simSyscall(trap, a1, a2, a3, 0, 0, 0); ok {\n		return s1, s2, Errno(e)\n	}\n"},
	{"syscall/syscall_linux.go", "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n", "func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n	if s1, s2, e, ok := simSyscall(trap, a1, a2, a3, a4, a5, a6); ok {\n		return s1, s2, Errno(e)\n	}\n"},
	{"syscall/syscall_linux.go", "func rawSyscallNoError(", "//go:linkname simSyscall\n//go:noescape\nfunc simSyscall(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2, errno uintptr, done bool)\n\nfunc rawSyscallNoError("},
}

// yieldInstrument inserts a scheduling point before every statement of a Go
// source file, on the same line, so that line numbers do not change.
func yieldInstrument(name string, src []byte) ([]byte, int, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, 0, err
	}
	var offs []int
	add := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			offs = append(offs, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch b := n.(type) {
		case *ast.BlockStmt:
			add(b.List)
		case *ast.CaseClause:
			add(b.Body)
		case *ast.CommClause:
			add(b.Body)
		}
		return true
	})
	if len(offs) == 0 {
		return src, 0, nil
	}
	sort.Ints(offs)
	pkgEnd := fset.Position(f.Name.End()).Offset
	var out []byte
	out = append(out, src[:pkgEnd]...)
	out = append(out, `; import simrt__ "runtime"`...)
	last := pkgEnd
	for _, o := range offs {
		out = append(out, src[last:o]...)
		out = append(out, "simrt__.SimYield(); "...)
		last = o
	}
	out = append(out, src[last:]...)
	return out, len(offs), nil
}

// copyInstrumented copies a package tree that is the root of a module;
// packages below it are part of the copy and report false.
func copyInstrumented(mod, src, dst string) (bool, int, error) {
	if !strings.Contains(filepath.Base(src), "@") {
		return false, 0, nil
	}
	k := 0
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if fi.Name() == "testfeeds" || fi.Name() == ".git" || fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if !(strings.HasSuffix(p, ".go") || fi.Name() == "go.mod" || fi.Name() == "go.sum") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if strings.HasSuffix(p, ".go") {
			ins, n, err := yieldInstrument(p, b)
			if err != nil {
				return err
			}
			k += n
			b = ins
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
	if _, e := os.Stat(filepath.Join(dst, "go.mod")); e != nil && err == nil {
		err = os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+mod+"\n"), 0o644)
	}
	return true, k, err
}

func goEnv(extra ...string) []string {
	drop := map[string]bool{"GOFLAGS": true, "GOWORK": true, "GOPROXY": true, "GOTOOLCHAIN": true, "GOROOT": true,
		"GOPATH": true, "GOMODCACHE": true, "GODEBUG": true, "CGO_ENABLED": true, "GOMAXPROCS": true}
	var env []string
	have := map[string]bool{}
	for _, kv := range os.Environ() {
		k := strings.SplitN(kv, "=", 2)[0]
		if drop[k] {
			continue
		}
		have[k] = true
		env = append(env, kv)
	}
	env = append(env, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOROOT="+goRoot,
		"GOPATH=/root/go", "GOMODCACHE=/root/go/pkg/mod")
	if !have["HOME"] {
		env = append(env, "HOME=/root")
	}
	return append(env, extra...)
}

type buildInfo struct {
	Bin      string
	RaceBin  string
	Yields   int
	Packages []string
}

func depDirs() ([]string, error) {
	cmd := exec.Command(goRoot+"/bin/go", "list", "-deps", "-f", "{{if not .Standard}}{{.ImportPath}}\t{{.Dir}}{{end}}", ".")
	cmd.Dir = repoDir
	cmd.Env = goEnv("CGO_ENABLED=0")
	out, err := cmd.Output()
	if err != nil {
		if ee, ok := err.(*exec.ExitError); ok {
			return nil, fmt.Errorf("go list: %v\n%s", err, ee.Stderr)
		}
		return nil, err
	}
	return strings.Split(strings.TrimSpace(string(out)), "\n"), nil
}

// buildSim builds the simulated program into dir from /repo's working tree.
func buildSim(dir string, race bool) (*buildInfo, error) {
	info := &buildInfo{}
	repl := map[string]string{}
	patched := map[string]string{}
	for _, p := range rtPatches {
		path := goRoot + "/src/" + p.file
		src, ok := patched[path]
		if !ok {
			b, err := os.ReadFile(path)
			if err != nil {
				return nil, err
			}
			src = string(b)
		}
		if strings.Count(src, p.from) != 1 {
			return nil, fmt.Errorf("runtime overlay: anchor found %d times in %s: %q", strings.Count(src, p.from), p.file, p.from)
		}
		patched[path] = strings.Replace(src, p.from, p.to, 1)
	}
	ovdir := filepath.Join(dir, "overlay")
	if err := os.MkdirAll(ovdir, 0o755); err != nil {
		return nil, err
	}
	n := 0
	put := func(path string, content []byte) error {
		n++
		f := filepath.Join(ovdir, fmt.Sprintf("%03d_%s", n, filepath.Base(path)))
		repl[path] = f
		return os.WriteFile(f, content, 0o644)
	}
	var keys []string
	for k := range patched {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if err := put(k, []byte(patched[k])); err != nil {
			return nil, err
		}
	}
	core, err := os.ReadFile(verifDir + "/sim/rt/zsim.go.txt")
	if err != nil {
		return nil, err
	}
	if err := put(goRoot+"/src/runtime/zsim.go", core); err != nil {
		return nil, err
	}
	var mods []string
	deps, err := depDirs()
	if err != nil {
		return nil, err
	}
	for _, d := range deps {
		parts := strings.SplitN(d, "\t", 2)
		if len(parts) != 2 || !strings.HasPrefix(parts[0], "github.com/patrickbr/") {
			continue
		}
		info.Packages = append(info.Packages, parts[0])
		if !strings.HasPrefix(parts[1], repoDir) {
			// a dependency from the module cache, which -overlay refuses:
			// an instrumented copy is selected with a replace directive
			c, k, err := copyInstrumented(parts[0], parts[1], filepath.Join(dir, "dep", filepath.Base(parts[0])))
			if err != nil {
				return nil, err
			}
			if c {
				mods = append(mods, "replace "+parts[0]+" => "+filepath.Join(dir, "dep", filepath.Base(parts[0])))
			}
			info.Yields += k
			continue
		}
		files, _ := filepath.Glob(parts[1] + "/*.go")
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ins, k, err := yieldInstrument(f, b)
			if err != nil {
				return nil, err
			}
			if k > 0 {
				info.Yields += k
				if err := put(f, ins); err != nil {
					return nil, err
				}
			}
		}
	}
	gm, err := os.ReadFile(repoDir + "/go.mod")
	if err != nil {
		return nil, err
	}
	gs, _ := os.ReadFile(repoDir + "/go.sum")
	modf := filepath.Join(dir, "sim.mod")
	if err := os.WriteFile(modf, []byte(string(gm)+"\n"+strings.Join(mods, "\n")+"\n"), 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(dir, "sim.sum"), gs, 0o644); err != nil {
		return nil, err
	}
	oj, _ := json.Marshal(map[string]map[string]string{"Replace": repl})
	ovf := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(ovf, oj, 0o644); err != nil {
		return nil, err
	}
	b := func(out string, args ...string) error {
		cgo := "CGO_ENABLED=0"
		for _, a := range args {
			if a == "-race" {
				cgo = "CGO_ENABLED=1"
			}
		}
		a := append([]string{"build", "-buildvcs=false", "-trimpath", "-modfile", modf, "-overlay", ovf, "-o", out}, args...)
		cmd := exec.Command(goRoot+"/bin/go", append(a, ".")...)
		cmd.Dir = repoDir
		cmd.Env = goEnv(cgo)
		o, err := cmd.CombinedOutput()
		if err != nil {
			return fmt.Errorf("go build %v: %v\n%s", args, err, o)
		}
		return nil
	}
	info.Bin = filepath.Join(dir, "gtfstidy.sim")
	if err := b(info.Bin); err != nil {
		return nil, err
	}
	if race {
		info.RaceBin = filepath.Join(dir, "gtfstidy.simrace")
		if err := b(info.RaceBin, "-race"); err != nil {
			return nil, err
		}
	}
	return info, nil
}
