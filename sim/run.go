package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"
)

// indices into the control file, see rt/zsim.go.txt
const (
	ctlMagic  = 0x314d495346544721
	ctlSize   = 1 << 20
	cSeed     = 1
	cNCPU     = 2
	cYield    = 3
	cMode     = 4
	cBudget   = 5
	cClock    = 6
	cNFault   = 7
	cLogOn    = 8
	cNPre     = 9
	cNPick    = 10
	cHashSeed = 11
	cReseed   = 13
	fBase     = 16
	fLen      = 6
	sYields   = 128
	sPreempts = 129
	sPicks    = 130
	sNZPicks  = 131
	sHash     = 132
	sLogN     = 133
	sBudget   = 134
	sMaxRun   = 135
	sSyscalls = 136
	sFaults   = 137
	sClass0   = 138
	sGo       = 154
	sCrash    = 157
	sLogOver  = 158
	sIOHash   = 159
	preBase   = 256
	maxPre    = 400
	pickBase  = preBase + maxPre
	maxPick   = 1024 - pickBase
	logBase   = 1024
)

// Fault is one planned fault: the Nth file operation of a class fails in the
// given way; if Sticky, so do all later ones.  With Path, all operations of the class
// on that path fail, and no others.
type Fault struct {
	Class  string `json:"class"`
	Nth    int    `json:"nth"`
	Kind   string `json:"kind"`
	Sticky bool   `json:"sticky,omitempty"`
	Path   string `json:"path,omitempty"`
}

var classNum = map[string]int{"open-in": 1, "read-in": 2, "open-out": 3, "write-out": 4, "close-out": 5, "mkdir": 6,
	"unlink": 7, "stat": 8, "getdents": 9, "fsync": 10, "rename": 11, "close-in": 12, "truncate": 13}
var classNames = []string{"other", "open-in", "read-in", "open-out", "write-out", "close-out", "mkdir", "unlink", "stat",
	"getdents", "fsync", "rename", "close-in", "truncate"}
var kindNum = map[string]int{"EPERM": 1, "ENOENT": 2, "EINTR": 4, "EIO": 5, "ENOMEM": 12, "EACCES": 13, "EMFILE": 24,
	"EFBIG": 27, "ENOSPC": 28, "EROFS": 30, "EDQUOT": 122, "SHORT": 1001, "CRASH": 1002, "TORN-CRASH": 1003,
	"CRASH-AFTER": 1004, "ONE-BYTE": 1005}

// Sched is the simulated schedule of one run.
type Sched struct {
	Seed     uint64   `json:"seed"`
	HashSeed uint64   `json:"hash_seed"`
	NCPU     int      `json:"ncpu"`
	Mode     int      `json:"mode"`
	Yield    int      `json:"yield_mean"`
	Clock    int64    `json:"clock"`
	Pre      []uint64 `json:"preemptions,omitempty"`
	Picks    []uint64 `json:"picks,omitempty"`
	// start the random streams again when the input is first looked at, so
	// that two command lines for the same work are run the same way
	Reseed bool `json:"reseed,omitempty"`
}

// RunResult is what one simulated execution did.
type RunResult struct {
	Exit     int
	Stdout   string
	Stderr   string
	Hash     uint64
	IOHash   uint64
	Stats    map[string]uint64
	Log      []uint64
	Fired    []uint64 // for each planned fault
	FirePath []string // and the path of its first call, if it has one
	Crash    bool
	Budget   bool
	TimedOut bool
	MaxRun   uint64
	Yields   uint64
	Picks    uint64
}

type runner struct {
	bin     string
	dir     string // private scratch directory of this worker
	ctl     *os.File
	mem     []byte
	timeout time.Duration
}

func newRunner(bin, dir string) (*runner, error) {
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	f, err := os.OpenFile(filepath.Join(dir, "ctl"), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o644)
	if err != nil {
		return nil, err
	}
	if err := f.Truncate(ctlSize); err != nil {
		return nil, err
	}
	m, err := syscall.Mmap(int(f.Fd()), 0, ctlSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &runner{bin: bin, dir: dir, ctl: f, mem: m, timeout: 60 * time.Second}, nil
}

func (r *runner) put(i int, v uint64) { binary.LittleEndian.PutUint64(r.mem[8*i:], v) }
func (r *runner) get(i int) uint64    { return binary.LittleEndian.Uint64(r.mem[8*i:]) }

func (r *runner) close() {
	syscall.Munmap(r.mem)
	r.ctl.Close()
}

// run executes the program once under the simulator, with work as its
// current directory.
func (r *runner) run(work string, args []string, s Sched, faults []Fault, log bool) (*RunResult, error) {
	n := 8 * logBase
	if k := r.get(sLogN); k > 0 {
		n += int(k) * 8
	}
	if n > ctlSize {
		n = ctlSize
	}
	for i := range r.mem[:n] {
		r.mem[i] = 0
	}
	r.put(0, ctlMagic)
	r.put(cSeed, s.Seed)
	r.put(cHashSeed, s.HashSeed)
	if s.Reseed {
		r.put(cReseed, 1)
	}
	r.put(cNCPU, uint64(s.NCPU))
	r.put(cYield, uint64(s.Yield))
	r.put(cMode, uint64(s.Mode))
	r.put(cBudget, 1_500_000_000)
	r.put(cClock, uint64(s.Clock))
	if log {
		r.put(cLogOn, 1)
	}
	for i, f := range faults {
		if i >= 16 {
			return nil, fmt.Errorf("too many faults")
		}
		c, ok1 := classNum[f.Class]
		k, ok2 := kindNum[f.Kind]
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("bad fault %v", f)
		}
		o := fBase + i*fLen
		r.put(o, uint64(c))
		r.put(o+1, uint64(f.Nth))
		r.put(o+2, uint64(k))
		if f.Sticky {
			r.put(o+4, 1)
		}
		if f.Path != "" {
			r.put(o+3, strSeed(f.Path))
			r.put(o+4, 2)
		}
	}
	r.put(cNFault, uint64(len(faults)))
	if s.Mode == 4 {
		if len(s.Pre) > maxPre || len(s.Picks) > maxPick {
			return nil, fmt.Errorf("explicit schedule too long")
		}
		r.put(cNPre, uint64(len(s.Pre)))
		r.put(cNPick, uint64(len(s.Picks)))
		for i, v := range s.Pre {
			r.put(preBase+i, v)
		}
		for i, v := range s.Picks {
			r.put(pickBase+i, v)
		}
	}
	ctx, cancel := context.WithTimeout(context.Background(), r.timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, args...)
	cmd.Dir = work
	cmd.Env = []string{"HOME=/nonexistent", "TZ=UTC", "PATH=/usr/bin:/bin", "GORACE=halt_on_error=0 exitcode=66 atexit_sleep_ms=0"}
	cmd.ExtraFiles = []*os.File{r.ctl}
	var so, se bytes.Buffer
	cmd.Stdout = &so
	cmd.Stderr = &se
	err := cmd.Run()
	res := &RunResult{Stdout: so.String(), Stderr: se.String()}
	if ctx.Err() != nil {
		res.TimedOut = true
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			return nil, err
		}
		res.Exit = ee.ExitCode()
	}
	res.Hash = r.get(sHash)
	res.IOHash = r.get(sIOHash)
	res.Crash = r.get(sCrash) != 0
	res.Budget = r.get(sBudget) != 0
	res.MaxRun = r.get(sMaxRun)
	res.Yields = r.get(sYields)
	res.Picks = r.get(sPicks)
	res.Stats = map[string]uint64{"yields": r.get(sYields), "preemptions": r.get(sPreempts), "choices": r.get(sPicks),
		"syscalls": r.get(sSyscalls), "goroutines": r.get(sGo), "faults": r.get(sFaults)}
	for i := range faults {
		res.Fired = append(res.Fired, r.get(fBase+i*fLen+5))
		res.FirePath = append(res.FirePath, pathOf(r.get(fBase+i*fLen+3)))
	}
	for i := 1; i < len(classNames); i++ {
		if v := r.get(sClass0 + i); v > 0 {
			res.Stats["op:"+classNames[i]] = v
		}
	}
	if log {
		k := int(r.get(sLogN))
		for i := 0; i < k; i++ {
			res.Log = append(res.Log, r.get(logBase+i))
		}
	}
	return res, nil
}

// pathOf finds the path with the given hash among those a run may use.
func pathOf(h uint64) string {
	pathOnce.Do(func() {
		for _, d := range []string{"in0", "in1", "in2", "out"} {
			pathHash[strSeed(d)] = d
			pathHash[strSeed(d+".zip")] = d + ".zip"
			for f := range schema {
				pathHash[strSeed(d+"/"+f)] = d + "/" + f
			}
		}
	})
	if h == 0 {
		return ""
	}
	if p := pathHash[h]; p != "" {
		return p
	}
	return "?"
}

var pathOnce sync.Once
var pathHash = map[uint64]string{}

func (r *RunResult) panicked() bool {
	return strings.Contains(r.Stderr, "goroutine ") && (strings.Contains(r.Stderr, "panic:") || strings.Contains(r.Stderr, "fatal error:"))
}
