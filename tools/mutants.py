#!/usr/bin/env python3
"""Finds gaps: runs the checks (short) against a random sample of small source changes.

mutants.py SEED COUNT [FILE...] > log     one line per mutant: killed by whom, or SURVIVED
Scratch copies live under /tmp/mutants.* and are removed at the end.
"""
import json, os, random, shutil, subprocess, sys, threading, queue, tempfile, resource, signal
ENV = dict(os.environ, PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"], GOPATH="/root/go", GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")
P = "processors/"
REL = {P+"agencyduplicateremover.go": "C04", P+"adjstoptimegrouper.go": "C19", P+"completegeotripsfilter.go": "C18", P+"frequencyminizer.go": "C07",
 P+"idminimizer.go": "C03", P+"orphanminimizer.go": "C06", P+"parentaverager.go": "C19", P+"platformcodedropper.go": "C19", P+"priorityqueue.go": "C19",
 P+"routeduplicateremover.go": "C04", P+"servicecaldatesremover.go": "C02", P+"serviceduplicateremover.go": "C02", P+"serviceminimizer.go": "C02",
 P+"servicenonoverlapper.go": "C02", P+"shapeduplicateremover.go": "C08", P+"shapeidx.go": "C08", P+"shapeminimizer.go": "C08", P+"shaperemeasurer.go": "C08",
 P+"shapesnapper.go": "C19", P+"stopclusteridx.go": "C19", P+"stopduplicateremover.go": "C05", P+"stopparentenforcer.go": "C19", P+"stopreclusterer.go": "C19",
 P+"stoptimeremeasurer.go": "C08", P+"toofasttripremover.go": "C19", P+"tripduplicateremover.go": "C09", P+"util.go": "C02 C05 C08 C19",
 P+"processor.go": "", "gtfstidy.go": "C03 C01 C16 C17 C18 C19"}
ALL = "C10 C11 C20"
N = os.environ.get("MUT_N", "3000")
PAR = int(os.environ.get("MUT_PAR", "4"))
seed, count, only = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3:]
top = tempfile.mkdtemp(prefix="mutants.", dir="/tmp")
env0 = dict(ENV)
simctl = top + "/simctl"
subprocess.check_call(["go", "build", "-o", simctl, "."], cwd="/verif/sim", env=ENV)
muts = [json.loads(l) for l in subprocess.check_output(["go", "run", "/verif/tools/mutate/main.go", "/repo"], env=ENV).decode().splitlines()]
muts = [m for m in muts if not only or any(o in m["file"] for o in only)]
by = {}
for m in muts: by.setdefault(m["file"], []).append(m)
rnd = random.Random(seed)
for l in by.values(): rnd.shuffle(l)
pick = []
while len(pick) < count and any(by.values()):   # evenly over the square root of the files' sizes
    f = rnd.choices(list(by), [len(l) ** 0.7 if l else 0 for l in by.values()])[0]
    if by[f]: pick.append(by[f].pop())
q = queue.Queue()
for i, m in enumerate(pick): q.put((i, m))
lock = threading.Lock()
tot = {}

def sh(cmd, cwd, t, env=None, mem=0):
    """Runs cmd in its own process group, which is ended as a whole after t seconds."""
    lim = (lambda: resource.setrlimit(resource.RLIMIT_AS, (mem, mem))) if mem else None
    p = subprocess.Popen(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, start_new_session=True, preexec_fn=lim)
    try:
        o, _ = p.communicate(timeout=t)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return 124, "timeout"

def one(w, i, m):
    repo = "%s/w%d/repo" % (top, w)
    subprocess.check_call(["git", "-C", repo, "checkout", "-q", "--", "."])
    p = os.path.join(repo, m["file"])
    b = open(p, "rb").read()
    open(p, "wb").write(b[:m["from"]] + m["text"].encode() + b[m["to"]:])
    rc, o = sh(["go", "build", "-buildvcs=false", "-o", "/dev/null", "."], repo, 120)
    if rc: return "nobuild", ""
    rc, o = sh(["go", "test", "-vet=off", "-count=1", "./..."], repo, 60, mem=6 << 30)
    if rc: return "tests", ""
    bin = "%s/w%d/b" % (top, w)
    shutil.rmtree(bin, ignore_errors=True)
    env = dict(ENV, GTFSVERIF_REPO=repo, GTFSVERIF_DIR="%s/w%d" % (top, w))
    rc, o = sh([simctl, "build", bin], "/verif/sim", 200, env)
    if rc: return "simbuild", o[-200:]
    env.update(GTFSVERIF_BIN=bin + "/gtfstidy.sim", GTFSVERIF_NOMIN="1", GTFSVERIF_WORKERS="2", GTFSVERIF_N=N, VERIF_SEED=str(seed), VERIF_TIER="quick", GTFSVERIF_LIMIT_S="60")
    extra = []
    for prop in (REL.get(m["file"], "") + " " + ALL).split():
        rc, o = sh([simctl, "check", prop], "%s/w%d" % (top, w), 200, env)
        if rc == 1:
            l = [x for x in o.splitlines() if x.startswith("  [")]
            return "killed", prop + " " + (l[0][:110] if l else o[-200:])
        if rc: extra.append("%s=%d %s" % (prop, rc, o[-100:].replace("\n", " ")))
    return "SURVIVED", " ".join(extra)

def worker(w):
    d = "%s/w%d" % (top, w)
    os.makedirs(d)
    subprocess.check_call(["cp", "-a", "/repo", d + "/repo"])
    for x in ("known", "known_findings.txt", "env.sh", "sim"):
        subprocess.check_call(["cp", "-a", "/verif/" + x, d + "/"])
    while True:
        try: i, m = q.get_nowait()
        except queue.Empty: return
        try: res, info = one(w, i, m)
        except Exception as e: res, info = "error", repr(e)
        with lock:
            tot[res] = tot.get(res, 0) + 1
            print("%-9s %s:%d %s: %s => %s | %s" % (res, m["file"].replace(P, ""), m["line"], m["kind"], " ".join(m["old"].split())[:120], " ".join(m["text"].split())[:120], info), flush=True)

ts = [threading.Thread(target=worker, args=(k,)) for k in range(PAR)]
[t.start() for t in ts]; [t.join() for t in ts]
print(tot)
shutil.rmtree(top)
