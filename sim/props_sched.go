package main

import (
	"fmt"
	"sort"
	"strings"
)

// How much of a connection two feeds are compared by.
const (
	byStop    = iota // names of the stops
	byStation        // names of the stations
	byTime           // neither
	byMode           // neither, and only the mode of the route
)

// timetable is the set of connections a feed offers: date, route, vehicle
// journey and all its times.  with -I, trips between the same stations
// are the same connection.
func (m *Mod) timetable(level int, keep func(id string) bool) map[string]int {
	out := map[string]int{}
	for id, t := range m.trips {
		l := m.st[id]
		if len(l) == 0 || keep != nil && !keep(id) {
			continue
		}
		base, ok := secs(l[0]["departure_time"])
		if !ok {
			continue
		}
		var b strings.Builder
		r := m.routes[t["route_id"]]
		b.WriteString(motOf(r["route_type"]))
		if level != byMode {
			b.WriteString("|" + joinF("routes.txt", r, "route_short_name", "route_long_name", "route_desc", "route_url", "route_color", "route_text_color"))
			b.WriteString("|" + joinF("trips.txt", t, "trip_headsign", "trip_short_name", "wheelchair_accessible", "bikes_allowed"))
		}
		for i, s := range l {
			switch level {
			case byStop:
				b.WriteString("[" + m.stops[s["stop_id"]]["stop_name"])
			case byStation:
				b.WriteString("[" + m.stops[m.station(s["stop_id"])]["stop_name"])
			default:
				b.WriteString("[")
			}
			for _, f := range []string{"arrival_time", "departure_time"} {
				if i == 0 && f == "arrival_time" || i == len(l)-1 && f == "departure_time" {
					continue
				}
				if x, ok := secs(s[f]); ok {
					fmt.Fprintf(&b, " %d", x-base)
				} else {
					b.WriteString(" -")
				}
			}
			b.WriteString("]")
		}
		k := b.String()
		for _, s := range m.starts(id, base) {
			for d := range m.active[t["service_id"]] {
				out[d+" "+s+" "+k]++
			}
		}
	}
	return out
}

func (s *Scenario) any(flags ...string) bool { return s.has(flags...) }

// does: an option, alone or as a part of a shorthand.
func (s *Scenario) does(f string) bool {
	c, C, M := " --compress --Compress", " --Compress", " --Merge"
	short := map[string]string{"-s": c, "-S": c, "-T": C, "-E": M, "--red-trips-fuzzy": C + M, "--red-stops-fuzzy": C + M}
	for _, k := range []string{"-O", "-A", "-P", "-R", "-C", "-c", "-I"} {
		short[k] = c + " --merge" + M
	}
	if s.has(f) {
		return true
	}
	for _, g := range strings.Fields(short[f]) {
		if s.has(g) {
			return true
		}
	}
	return false
}

// facts is a normal form of a feed: everything it says, without IDs.
func (m *Mod) factsOf(sc *Scenario) map[string]map[string]int {
	o := &NFOpt{NoSort: sc.does("-R"), NoShape: sc.does("-S")}
	out := map[string]map[string]int{}
	out["journey"] = m.journeys(o)
	out["fare"] = m.fareFacts(o, nil)
	plain := func(r Row) bool { return r["from_trip_id"] == "" && r["to_trip_id"] == "" }
	out["transfer"] = m.transferFacts(o, plain)
	if !sc.does("-T") && !(sc.does("-C") && sc.does("--remove-cal-dates")) {
		out["trip-transfer"] = m.transferFacts(o, nil)
	}
	out["pathway"] = m.pathwayFacts(o)
	c := func(kind string) map[string]int {
		if out[kind] == nil {
			out[kind] = map[string]int{}
		}
		return out[kind]
	}
	for id := range m.stops {
		c("stop")[m.stopCanon(id, o)]++
	}
	for id := range m.agency {
		c("agency")[m.agencyCanon(id)]++
	}
	for id := range m.routes {
		c("route")[m.routeCanon(id, o)]++
	}
	for id := range m.levels {
		c("level")[m.levelCanon(id)]++
	}
	if !sc.does("-S") {
		for id := range m.shapes {
			c("shape")[m.shapeCanon(id)]++
		}
	}
	// which of two equivalent services remains decides into how many
	// --remove-cal-dates splits it
	if !sc.does("-T") && !(sc.does("-C") && sc.does("--remove-cal-dates")) {
		for id := range m.services {
			c("service")[dateKey(m.active[id])]++
		}
		for id, t := range m.trips {
			p, base, _ := m.tripPattern(id, o)
			st := m.starts(id, base)
			sort.Strings(st)
			c("trip")[fmt.Sprint(p, st, dateKey(m.active[t["service_id"]]))]++
			for i, r := range m.st[id] {
				if v := r["shape_dist_traveled"]; v != "" && !sc.does("-S") {
					x, _ := f32(v)
					c("measure")[fmt.Sprintf("%s %v %s %d %.4g", p, st, dateKey(m.active[t["service_id"]]), i, x)]++
				}
			}
		}
		sk := map[string]bool{"attribution_id": true, "trip_id": true, "route_id": true, "agency_id": true}
		for _, a := range m.attrs {
			p, base, _ := m.tripPattern(a["trip_id"], o)
			c("attribution")[m.rowKey("attributions.txt", schema["attributions.txt"], a, sk)+m.routeCanon(a["route_id"], o)+m.agencyCanon(a["agency_id"])+p+fmt.Sprint(base, dateKey(m.active[m.trips[a["trip_id"]]["service_id"]]))]++
		}
	}
	return out
}

// otherSched is a schedule that differs from the first in everything.
func otherSched(r *rng, s Sched) *Sched {
	t := genSched(r)
	t.Clock = s.Clock
	return &t
}

var exactFlags = []string{"-O", "-s", "-m", "-r", "-S", "-R", "-C", "-c", "-T", "-A", "--remove-cal-dates", "--explicit-calendar", "--ensure-stop-parents", "--drop-too-fast-trips",
	"--drop-shapes", "--non-overlapping-services", "--remove-fillers", "--drop-single-stop-trips", "--standard-route-types", "--google-supported-route-types"}

func second(x *Ctx, sc *Scenario) (a, b Feed, vs []Viol) {
	a, v := x.simple(sc)
	if v != nil {
		return nil, nil, v
	}
	s2 := *sc
	s2.Sched = *sc.Sched2
	s2.Faults = nil
	if b, v = x.simple(&s2); v != nil {
		return nil, nil, v
	}
	return a, b, nil
}

// sameButOrder: two outputs are equal in everything but their ids, or, where
// options pick representatives, offer the same connections.
func sameButOrder(x *Ctx, sc *Scenario, a, b *Mod) (vs []Viol) {
	if sc.does("-P") || sc.does("-I") || sc.does("-E") {
		l := levelFor(sc)
		x.mark("connections compared")
		return differ("connection", asSet(a.timetable(l, nil)), asSet(b.timetable(l, nil)))
	}
	x.mark("everything compared")
	p, q := a.factsOf(sc), b.factsOf(sc)
	for _, k := range sortedKeys(p) {
		vs = append(vs, differ(k, p[k], q[k])...)
	}
	for _, k := range sortedKeys(q) {
		if p[k] == nil {
			vs = append(vs, differ(k, nil, q[k])...)
		}
	}
	return
}

func init() {
	register(&Prop{ID: "C11", Quick: 10500,
		Rule: "A random feed with redundancy of every kind is run twice with the same options, under two schedules with different interleavings, CPU counts and map orders. Without options that pick representatives of similar stops or trips, the two outputs must be equal in everything but their IDs; with them, they must offer the same connections per date. Non-trivial: there are connections in the output.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{3, r.pickn(12, 30)}
			o.Dup = r.pickn(35, 60)
			o.DupTrips = r.pickn(25, 50)
			sc := baseScenario(r, o)
			sc.Feeds[0] = messyFeed(r, o)
			if r.p(55) {
				sc.Flags = subset(r, r.pickn(15, 30, 50), exactFlags...)
				if r.p(20) {
					sc.Flags = append(sc.Flags, filterFlags(r, 20)...)
				}
				if r.p(30) {
					sc.Flags = append(sc.Flags, r.pick("-i", "-d"))
				}
			} else {
				sc.Flags = mixFlags(r)
			}
			if r.p(20) {
				sc.Flags = append(sc.Flags, r.pick("-i", "-d"))
			}
			sc.Sched2 = otherSched(r, sc.Sched)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			fa, fb, v := second(x, sc)
			if v != nil {
				if strings.HasPrefix(v[0].Sig, "mode-filter:") {
					return nil // see C10
				}
				return v
			}
			a, b := newMod(fa), newMod(fb)
			vs := sameButOrder(x, sc, a, b)
			if len(a.trips) > 0 {
				x.nontrivial()
			}
			return vs
		}})

	register(&Prop{ID: "C12", Quick: 3750, Race: true,
		Rule: "Random feeds are processed by a binary with the race detector, under random interleavings and CPU counts, with options that use several goroutines. No run may report a race, a deadlock or a crash, and no goroutine of the program may still work when the feed is written. Non-trivial: the run had goroutines of the program's own and was preempted.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{2, r.pickn(10, 25)}
			o.Dup = r.pickn(35, 60)
			o.DupTrips = r.pickn(25, 60)
			o.Shapes = r.pickn(50, 90)
			sc := baseScenario(r, o)
			sc.Faults = nil
			sc.Feeds[0] = messyFeed(r, o)
			switch r.n(4) {
			case 0:
				sc.Flags = anyOptions(r, 1)
			case 1:
				sc.Flags = []string{r.pick("-i", "-d")}
				sc.Flags = append(sc.Flags, flagSet(r, 10, keepFlags...)...)
			default:
				sc.Flags = subset(r, r.pickn(15, 40), "-s", "-m", "-r", "-S", "-R", "-C", "-c", "-T", "-A", "-P", "-I", "-E", "--red-trips-fuzzy", "-i", "--remove-cal-dates", "--snap-stops", "--fix-far-away-parents", "--drop-too-fast-trips")
			}
			sc.Sched.NCPU = r.pickn(2, 3, 4, 8, 16, 32)
			sc.Sched.Yield = r.pickn(0, 2, 5, 20, 100)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			names := x.prepare(sc)
			run := x.race
			if run == nil {
				run = x.w.r
			}
			res := x.do(run, x.args(sc, names, sc.Out), sc.Sched, sc.Faults)
			if i := strings.Index(res.Stderr, "WARNING: DATA RACE"); i >= 0 {
				return []Viol{viol("race:"+raceSite(res.Stderr[i:]), "data race: %s", head(res.Stderr[i:], 1500))}
			}
			if v := crashViol(res); len(v) > 0 {
				return v
			}
			if res.Stats["preemptions"] > 0 || res.Stats["goroutines"] > 8 {
				x.nontrivial()
			}
			return nil
		}})

	register(&Prop{ID: "C20", Quick: 13500,
		Rule: "A random feed with redundancy of every kind is run through a random mixture of the options that are meant to lose nothing, and through the shorthands without fuzzy matching; the connections per date (route, stops or stations, times, trip attributes) of output and input are compared. Non-trivial: trips, stops, routes or services were merged or removed.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{2, r.pickn(10, 25)}
			o.Dup = r.pickn(35, 60)
			o.DupTrips = r.pickn(25, 50)
			sc := baseScenario(r, o)
			sc.Feeds[0] = messyFeed(r, o)
			if r.p(20) {
				sc.Feeds = append(sc.Feeds, messyFeed(r, o))
				sc.InZip = append(sc.InZip, r.p(30))
				sameZone(sc.Feeds)
			}
			sc.Flags = mixFlags(r)
			if r.p(25) {
				sc.Flags = append(sc.Flags, r.pick("-i", "-d"))
			}
			if r.p(15) {
				sc.Flags = append(sc.Flags, flagSet(r, 25, keepFlags...)...)
			}
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := inputModel(sc), newMod(f)
			l := levelFor(sc)
			must := in.timetable(l, func(id string) bool { return !sc.does("-O") || in.usable(id) })
			may := in.timetable(l, nil)
			got := out.timetable(l, nil)
			if sc.does("-I") {
				must, may, got = asSet(must), asSet(may), asSet(got)
			}
			var vs []Viol
			if miss, _ := diffFacts(must, got); len(miss) > 0 {
				vs = append(vs, viol("connection-lost", "%d connections of the input are missing, e.g. %s", len(miss), head(miss[0], 700)))
			}
			if _, extra := diffFacts(may, got); len(extra) > 0 {
				vs = append(vs, viol("connection-added", "%d connections are not in the input, e.g. %s", len(extra), head(extra[0], 700)))
			}
			if len(out.trips) != len(in.trips) || len(out.stops) != len(in.stops) || len(out.routes) != len(in.routes) || len(out.services) != len(in.services) {
				x.nontrivial()
			}
			return vs
		}})
}

// levelFor: what the options of a run leave comparable.
func levelFor(sc *Scenario) int {
	switch {
	case sc.does("--red-trips-fuzzy"), sc.does("--red-stops-fuzzy"):
		return byMode
	case sc.does("-E") && sc.does("-I"):
		return byTime
	case sc.does("-I"):
		return byStation
	}
	return byStop
}

// mixFlags are options which, in any mixture, keep all connections.
func mixFlags(r *rng) []string {
	all := []string{"-O", "-s", "-m", "-r", "-S", "-R", "-C", "-c", "-T", "-A", "-P", "-I", "-E", "--remove-cal-dates", "--explicit-calendar", "--ensure-stop-parents",
		"--drop-shapes", "--non-overlapping-services", "--standard-route-types", "--google-supported-route-types", "--snap-stops", "--fix-far-away-parents"}
	switch r.n(3) {
	case 0:
		return append([]string{r.pick("--compress", "--compress", "--merge", "--Compress", "--Merge")}, flagSet(r, 6, all...)...)
	case 1:
		return subset(r, 45, all...)
	}
	return subset(r, 20, all...)
}

func differ(kind string, a, b map[string]int) []Viol {
	p, q := diffFacts(a, b)
	if len(p)+len(q) == 0 {
		return nil
	}
	s := ""
	if len(p) > 0 {
		s = "only first: " + head(p[0], 500)
	}
	if len(q) > 0 {
		s += " only second: " + head(q[0], 500)
	}
	return []Viol{viol("differs:"+kind, "two runs give different results: %d facts (%s) only in the first, %d only in the second output; %s", len(p), kind, len(q), s)}
}

func raceSite(s string) string {
	var l []string
	for _, x := range strings.Split(s, "\n") {
		x = strings.TrimSpace(x)
		if strings.HasPrefix(x, "github.com/patrickbr/gtfs") && strings.Contains(x, "(") {
			x = x[strings.LastIndexByte(x[:strings.IndexByte(x, '(')], '/')+1:]
			if i := strings.LastIndexByte(x, '('); i > 0 {
				x = x[:i]
			}
			l = append(l, x)
			if len(l) == 2 {
				break
			}
		}
	}
	return head(strings.Join(l, "+"), 120)
}
