package main

import (
	"fmt"
	"sort"
	"strings"
)

func baseScenario(r *rng, o GenOpt) *Scenario {
	return &Scenario{Feeds: []Feed{genFeed(r, o)}, InZip: []bool{r.p(50)}, Out: r.pick("out", "out.zip"), Sched: genSched(r), Faults: benignFaults(r)}
}

// outPlace sends the output to some other place.
func outPlace(r *rng, sc *Scenario) {
	if sc.Pre != nil {
		return
	}
	sc.Out = r.pick("gtfs-out", "sub/out", "sub/a b/out.zip", "./out.zip", "out/", "out.ZIP", "feed.v2", "in0", "in0", "in0")
	if sc.Out == "in0" && sc.InZip[0] {
		sc.Out = "in0.zip"
	}
}

func init() {
	// C01: faithful round trip
	register(&Prop{ID: "C01", Quick: 21000,
		Rule: "A random valid feed (weird text, extra columns, shuffled rows and columns, dir or zip) is copied with options that only concern the format; every row must come back. Non-trivial: the feed has trips that run and the output was compared row by row.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.WeirdText = true
			o.AddFlds = r.pickn(0, 60)
			o.Freq = r.pickn(0, 20, 60)
			o.EmptyTimes = r.pickn(0, 10)
			o.Dup = r.pickn(0, 35, 70)
			o.Orphans = 40
			o.LateTimes = r.p(30)
			sc := baseScenario(r, o)
			if r.p(50) {
				sc.Flags = append(sc.Flags, "-F")
			}
			for _, f := range []string{"--keep-col-order", "--unsorted-files", "-W", "--assume-clean-csv", "--explicit-calendar", "-e", "-D", "-z", "-n"} {
				if r.p(15) {
					sc.Flags = append(sc.Flags, f)
				}
			}
			if r.p(30) {
				sc.Flags = append(sc.Flags, fmt.Sprintf("--zip-compression-level=%d", r.n(10)))
			}
			if r.p(25) {
				// the output directory holds an older feed
				o2 := defaultGen()
				sc.Pre = genFeed(r, o2)
			}
			if r.p(12) {
				outPlace(r, sc)
			}
			if r.p(10) {
				// signs that change on the way
				st := sc.Feeds[0]["stop_times.txt"]
				if st.col("stop_headsign") < 0 {
					st.Header = append(st.Header, "stop_headsign")
					for k := range st.Rows {
						st.Rows[k] = append(st.Rows[k], "")
					}
				}
				for k := range st.Rows {
					if r.p(30) {
						st.Rows[k][st.col("stop_headsign")] = "via " + fmt.Sprint(r.n(5))
					}
				}
			}
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			vs := checkValid(out)
			if w := headsigns(in, out); len(w) > 0 {
				vs = append(vs, w...)
				in = newMod(withoutHeadsigns(sc.Feeds[0]))
			}
			vs = append(vs, sameRows(in, out, sc.has("-F"), contentTables...)...)
			for id, r := range in.fares {
				// an omitted transfer_duration means "no limit"
				if r["transfer_duration"] == "" && out.fares[id] != nil && out.fares[id]["transfer_duration"] == "0" {
					vs = append(vs, viol("fare-duration-zero", "fare %s: no transfer_duration in the input, 0 seconds in the output", id))
					break
				}
			}
			vs = append(vs, cmpFacts("calendar", in.calFacts(), out.calFacts())...)
			vs = append(vs, checkJourneys(in, out, &NFOpt{})...)
			if !sc.has("-F") {
				vs = append(vs, noExtra(f)...)
			}
			if sc.has("--keep-col-order") {
				vs = append(vs, sameColOrder(sc.Feeds[0], f)...)
			}
			if sc.has("--explicit-calendar") {
				vs = append(vs, explicitCal(out)...)
			}
			for n := range f {
				if schema[n] == nil {
					vs = append(vs, viol("stale-file", "the output has the file %s, which is not from the input", n))
				}
			}
			if len(in.usedRoutes()) > 0 {
				x.nontrivial()
			}
			return vs
		}})
}

// headsigns: each stop time of the input keeps its own sign.  Reported only
// if the sign became that of the trip; anything else shows as a changed row.
func headsigns(in, out *Mod) []Viol {
	for _, id := range sortedKeys(in.st) {
		for _, r := range in.st[id] {
			h := r["stop_headsign"]
			if h == "" || h == in.trips[id]["trip_headsign"] {
				continue
			}
			for _, w := range out.st[id] {
				if w["stop_sequence"] == r["stop_sequence"] && (w["stop_headsign"] == "" || w["stop_headsign"] == out.trips[id]["trip_headsign"]) {
					return []Viol{viol("stop-headsign-replaced", "trip %s, stop sequence %s: stop_headsign is %q in the input, and that of the trip in the output", id, r["stop_sequence"], h)}
				}
			}
		}
	}
	return nil
}

func withoutHeadsigns(f Feed) Feed {
	f = f.clone()
	if t := f["stop_times.txt"]; t != nil {
		if c := t.col("stop_headsign"); c >= 0 {
			for _, r := range t.Rows {
				r[c] = ""
			}
		}
	}
	return f
}

func noExtra(f Feed) []Viol {
	for n, t := range f {
		for _, h := range t.Header {
			if !contains(schema[n], h) {
				return []Viol{viol("extra-column", "%s has the column %s without -F", n, h)}
			}
		}
	}
	return nil
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// sameColOrder: the columns that both files have come in the input's order.
func sameColOrder(in, out Feed) []Viol {
	for n, t := range out {
		if in[n] == nil {
			continue
		}
		last := -1
		for _, h := range t.Header {
			k := in[n].col(h)
			if k < 0 {
				continue
			}
			if k < last {
				return []Viol{viol("column-order", "%s: columns of the input are %s, of the output %s", n, strings.Join(in[n].Header, ","), strings.Join(t.Header, ","))}
			}
			last = k
		}
	}
	return nil
}

func explicitCal(out *Mod) []Viol {
	var ids []string
	for id := range out.services {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		if out.cal[id] == nil {
			return []Viol{viol("no-calendar-row", "service %s has no row in calendar.txt with --explicit-calendar", id)}
		}
	}
	return nil
}
