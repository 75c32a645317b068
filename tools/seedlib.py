# Helpers of the demonstrations (inlined into each demo.py by tools/seed.sh).
import csv, io, os, shutil, subprocess, sys, tempfile
TMP = tempfile.mkdtemp(prefix="demo")
import atexit
atexit.register(lambda: shutil.rmtree(TMP, ignore_errors=True))
ENV = dict(os.environ)
ENV.setdefault("HOME", "/root")
ENV.update(PATH="/opt/veriftools/go1.27.3/bin:" + ENV.get("PATH", "/usr/bin:/bin"), GOPATH="/root/go",
           GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build", GOTOOLCHAIN="local",
           GOPROXY="off", GOWORK="off", GOFLAGS="-mod=mod")

def build(race=False):
    exe = os.path.join(TMP, "gtfstidy" + ("-race" if race else ""))
    cmd = ["go", "build", "-buildvcs=false"] + (["-race"] if race else []) + ["-o", exe, "."]
    env = dict(ENV)
    if race:
        env["CGO_ENABLED"] = "1"
    r = subprocess.run(cmd, env=env, capture_output=True, text=True)
    if r.returncode != 0:
        print("build failed:", r.stderr)
        sys.exit(2)
    return exe

def base():
    """A small valid feed: one route, one service, trip t1 over stops A, B, C."""
    return {
        "agency.txt": "agency_id,agency_name,agency_url,agency_timezone\na1,Ag,http://x.de,Europe/Berlin\n",
        "routes.txt": "route_id,agency_id,route_short_name,route_long_name,route_type\nr1,a1,1,,3\n",
        "stops.txt": "stop_id,stop_name,stop_lat,stop_lon\nA,Alpha,48.0,7.8\nB,Beta,48.01,7.81\nC,Gamma,48.02,7.82\n",
        "calendar.txt": "service_id,monday,tuesday,wednesday,thursday,friday,saturday,sunday,start_date,end_date\ns1,1,1,1,1,1,1,1,20240101,20240131\n",
        "trips.txt": "route_id,service_id,trip_id\nr1,s1,t1\n",
        "stop_times.txt": "trip_id,arrival_time,departure_time,stop_id,stop_sequence\nt1,08:00:00,08:00:00,A,1\nt1,08:10:00,08:11:00,B,2\nt1,08:20:00,08:20:00,C,3\n",
    }

_n = [0]
def write(feed):
    _n[0] += 1
    d = os.path.join(TMP, "in%d" % _n[0])
    os.mkdir(d)
    for k, v in feed.items():
        with open(os.path.join(d, k), "w") as f:
            f.write(v)
    return d

def read(d):
    out = {}
    for k in os.listdir(d):
        if k.endswith(".txt"):
            with open(os.path.join(d, k)) as f:
                out[k[:-4]] = list(csv.DictReader(io.StringIO(f.read())))
    return out

def run(exe, feeds, *args, out=None, timeout=60, env=None):
    """Runs the program; feeds are dicts or paths. Returns (status, output tables, text)."""
    _n[0] += 1
    out = out or os.path.join(TMP, "out%d" % _n[0])
    ins = [f if isinstance(f, str) else write(f) for f in (feeds if isinstance(feeds, list) else [feeds])]
    r = subprocess.run([exe, "-o", out] + list(args) + ins, capture_output=True, text=True, timeout=timeout, cwd=TMP, env=env or ENV)
    return r.returncode, (read(out) if os.path.isdir(out) else {}), r.stdout + r.stderr

def days(tables, service):
    """The dates on which a service runs."""
    import datetime as dt
    p = lambda s: dt.date(int(s[:4]), int(s[4:6]), int(s[6:]))
    names = ["monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"]
    ret = set()
    for c in tables.get("calendar", []):
        if c["service_id"] == service:
            d = p(c["start_date"])
            while d <= p(c["end_date"]):
                if c[names[d.weekday()]] == "1":
                    ret.add(d)
                d += dt.timedelta(1)
    for c in tables.get("calendar_dates", []):
        if c["service_id"] == service:
            (ret.add if c["exception_type"] == "1" else ret.discard)(p(c["date"]))
    return ret

def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)
