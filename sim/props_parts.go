package main

import "strings"

// C25: what is done to one part of a feed does not depend on parts it has
// nothing to do with.

// apart makes a second feed one that has nothing in common with the first: its
// agencies have other names, and its places lie elsewhere.
func apart(r *rng, f Feed) {
	if t := f["agency.txt"]; t != nil && t.col("agency_name") >= 0 {
		for _, row := range t.Rows {
			row[t.col("agency_name")] += " B"
		}
	}
	moveFeed(f, 0, 1, r.pickf(-1.3, -0.4, 0.25, 0.7), r.pickf(-0.2, 0.1, 0.3, 1))
	if r.p(40) {
		shiftFeed(f, r.pickn(-200, -30, -7, 3, 60, 365))
	}
}

// named gives each agency an ID, and each route and fare an agency.
func named(f Feed) {
	ag := f["agency.txt"]
	if ag == nil || len(ag.Rows) == 0 {
		return
	}
	if ag.col("agency_id") < 0 {
		ag.Header = append(ag.Header, "agency_id")
		for k := range ag.Rows {
			ag.Rows[k] = append(ag.Rows[k], "")
		}
	}
	first := ""
	for _, row := range ag.Rows {
		if row[ag.col("agency_id")] == "" {
			row[ag.col("agency_id")] = "the agency"
		}
		if first == "" {
			first = row[ag.col("agency_id")]
		}
	}
	for _, n := range []string{"routes.txt", "fare_attributes.txt"} {
		t := f[n]
		if t == nil {
			continue
		}
		if t.col("agency_id") < 0 {
			t.Header = append(t.Header, "agency_id")
			for k := range t.Rows {
				t.Rows[k] = append(t.Rows[k], "")
			}
		}
		for _, row := range t.Rows {
			if row[t.col("agency_id")] == "" {
				row[t.col("agency_id")] = first
			}
		}
	}
}

// partsFlags are options whose effects are local. (-E weighs the words of
// names by how often they are in the whole feed.)
func partsFlags(r *rng) []string {
	var l []string
	if r.p(55) {
		l = subset(r, r.pickn(8, 15, 30, 50), exactFlags...)
		if r.p(20) {
			l = append(l, filterFlags(r, 20)...)
		}
	} else {
		for _, f := range mixFlags(r) {
			if f == "--Merge" {
				f = "--merge"
			}
			if f != "-E" {
				l = append(l, f)
			}
		}
	}
	return l
}

func init() {
	register(&Prop{ID: "C25", Quick: 7500,
		Rule: "Two random feeds which have nothing in common (other agencies, other places, perhaps other dates) are run with the same options alone and together, as two inputs or as one feed with both. What comes out of the run with both must be what comes out of the two runs alone. Non-trivial: both parts have connections in the output.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{2, r.pickn(6, 15)}
			o.Dup = r.pickn(20, 35, 60)
			o.DupTrips = r.pickn(25, 50)
			sc := baseScenario(r, o)
			sc.Faults = nil
			sc.Feeds = []Feed{messyFeed(r, o), messyFeed(r, o)}
			if r.p(20) {
				// one like the other
				sc.Feeds[1] = sc.Feeds[0].clone()
			}
			sc.InZip = []bool{r.p(50), r.p(50)}
			apart(r, sc.Feeds[1])
			named(sc.Feeds[0])
			named(sc.Feeds[1])
			sameZone(sc.Feeds)
			sc.Flags = partsFlags(r)
			if r.p(20) {
				sc.Flags = append(sc.Flags, r.pick("-i", "-d"))
			}
			for _, f := range flagSet(r, 4, formatFlags...) {
				sc.Flags = append(sc.Flags, f)
			}
			sc.Note = map[string]string{}
			if r.p(50) {
				sc.Note["one"] = "1"
			}
			sc.Sched2 = otherSched(r, sc.Sched)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if sc.Sched2 == nil || len(sc.Feeds) != 2 || sc.does("-E") {
				return nil
			}
			for _, f := range sc.Feeds {
				m := newMod(f)
				for _, id := range sortedKeys(m.routes) {
					if m.routes[id]["agency_id"] == "" {
						return nil
					}
				}
				for _, id := range sortedKeys(m.fares) {
					if m.fares[id]["agency_id"] == "" {
						return nil
					}
				}
			}
			run := func(s Sched, fs ...Feed) (*Mod, []Viol) {
				c := *sc
				c.Sched, c.Sched2, c.Feeds = s, nil, fs
				f, v := x.simple(&c)
				if v != nil {
					return nil, v
				}
				if len(fs) > 1 {
					// (zones are no entities, they keep the prefix of the input)
					for file, cols := range map[string][]string{"stops.txt": {"zone_id"}, "fare_rules.txt": {"origin_id", "destination_id", "contains_id"}} {
						t := f[file]
						for _, c := range cols {
							if t == nil || t.col(c) < 0 {
								continue
							}
							for _, row := range t.Rows {
								if z := row[t.col(c)]; len(z) > 2 && z[1] == '#' {
									row[t.col(c)] = z[2:]
								}
							}
						}
					}
				}
				return newMod(f), nil
			}
			alone, both := sc.Feeds, sc.Feeds
			if sc.Note["one"] != "" {
				pre := func(i int) string { return []string{"p", "q"}[i] }
				alone = []Feed{prefixed(sc.Feeds[:1], pre), prefixed(sc.Feeds[1:], func(int) string { return pre(1) })}
				both = []Feed{prefixed(sc.Feeds, pre)}
				if v := checkValid(newMod(both[0])); len(v) > 0 {
					x.mark("the two parts do not make a valid feed: " + v[0].Sig)
					return nil
				}
				x.mark("as one feed")
			} else {
				x.mark("as two inputs")
			}
			var ms []*Mod
			for k, fs := range [][]Feed{alone[:1], alone[1:], both} {
				s := sc.Sched
				if k == 2 {
					s = *sc.Sched2
				}
				m, v := run(s, fs...)
				if v != nil {
					if strings.HasPrefix(v[0].Sig, "mode-filter:") || strings.HasPrefix(v[0].Sig, "area-filter:") {
						return nil // see C10
					}
					return v
				}
				ms = append(ms, m)
			}
			a, b, c := ms[0], ms[1], ms[2]
			if len(a.trips) > 0 && len(b.trips) > 0 {
				x.nontrivial()
			}
			if sc.does("-P") || sc.does("-I") {
				l := levelFor(sc)
				x.mark("connections compared")
				return parts("connection", asSet(added(a.timetable(l, nil), b.timetable(l, nil))), asSet(c.timetable(l, nil)))
			}
			x.mark("everything compared")
			var vs []Viol
			p, q, w := a.factsOf(sc), b.factsOf(sc), c.factsOf(sc)
			for _, k := range sortedKeys(w) {
				e, g := added(p[k], q[k]), w[k]
				switch {
				case sc.does("--non-overlapping-services") && (k == "service" || k == "trip" || k == "measure" || k == "attribution" || k == "trip-transfer"):
					// which dates make one service depends on the trips of all
					e, g = nil, nil
				case k == "service" && sc.does("-C"):
					// equal services of both are one
					e, g = asSet(e), asSet(g)
				}
				vs = append(vs, parts(k, e, g)...)
			}
			return vs
		}})
}

func added(a, b map[string]int) map[string]int {
	o := map[string]int{}
	for k, n := range a {
		o[k] += n
	}
	for k, n := range b {
		o[k] += n
	}
	return o
}

func parts(kind string, alone, both map[string]int) []Viol {
	p, q := diffFacts(alone, both)
	if len(p)+len(q) == 0 {
		return nil
	}
	s := ""
	if len(p) > 0 {
		s = "only alone: " + head(p[0], 500)
	}
	if len(q) > 0 {
		s += " only together: " + head(q[0], 500)
	}
	return []Viol{viol("parts:"+kind, "two feeds with nothing in common give another result together than alone: %d facts (%s) only alone, %d only together; %s", len(p), kind, len(q), s)}
}
