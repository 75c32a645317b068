package main

// C26: one pass is enough.

var againFlags = []string{"-O", "-s", "-m", "-r", "-S", "-R", "-C", "-c", "-T", "-A", "-P", "-I", "--remove-cal-dates", "--explicit-calendar", "--ensure-stop-parents", "--drop-too-fast-trips",
	"--drop-shapes", "--non-overlapping-services", "--remove-fillers", "--drop-single-stop-trips", "--standard-route-types", "--google-supported-route-types", "--group-adj-stop-times",
	"--drop-platform-for-parentless", "--snap-stops", "--fix-far-away-parents", "-i", "-d", "filter"}

// newNames: options which may give IDs anew each time.
var newNames = []string{"-i", "-d", "-T", "--remove-cal-dates", "--non-overlapping-services"}

func init() {
	register(&Prop{ID: "C26", Quick: 9000,
		Rule: "A random feed with redundancy of every kind is run with one option (and those that only modify it), and the output again with the same. The second run may not change anything: the program finds in one pass all that is to be found, and is stable on what it writes. Non-trivial: the first run changed something.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{2, r.pickn(6, 15)}
			o.Dup = r.pickn(20, 35, 60)
			o.DupTrips = r.pickn(25, 50)
			o.AddFlds = r.pickn(0, 30)
			sc := baseScenario(r, o)
			sc.Faults = nil
			sc.Feeds = []Feed{messyFeed(r, o)}
			f := r.pick(againFlags...)
			sc.Flags = []string{f}
			switch f {
			case "-P":
				sc.Flags = append(sc.Flags, flagSet(r, 40, "--red-stops-fuzzy")...)
			case "-I":
				sc.Flags = append(sc.Flags, flagSet(r, 40, "--red-trips-fuzzy", "--red-trips-aggressive")...)
			case "-i", "-d":
				sc.Flags = append(sc.Flags, flagSet(r, 20, keepFlags...)...)
			case "filter":
				sc.Flags = filterFlags(r, 30)
			}
			if r.p(40) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Sched2 = otherSched(r, sc.Sched)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if sc.Sched2 == nil {
				return nil
			}
			if sc.any("-m", "-s", "-S", "-r") && pointShape(sc.Feeds[0]) {
				return nil // (without a length, there is no unit of the measures)
			}
			one := *sc
			one.Sched2 = nil
			f, v := x.simple(&one)
			if v != nil {
				return see10(v)
			}
			if sc.any("-m", "-s", "-S", "-r") && pointShape(f) {
				return nil
			}
			two := one
			two.Sched = *sc.Sched2
			two.Feeds = []Feed{f}
			g, v := x.simple(&two)
			if v != nil {
				return see10(v)
			}
			a, b := newMod(f), newMod(g)
			for _, t := range append([]string{"calendar.txt", "calendar_dates.txt"}, contentTables...) {
				if p, q := diffFacts(newMod(sc.Feeds[0]).rowsOf(t, false), a.rowsOf(t, false)); len(p)+len(q) > 0 {
					x.nontrivial()
				}
			}
			// (of two ways to put trips into frequencies, the second run may choose
			// the other one)
			var vs []Viol
			p, q := a.factsOf(sc), b.factsOf(sc)
			for _, k := range sortedKeys(p) {
				vs = append(vs, differ(k, p[k], q[k])...)
			}
			if len(vs) > 0 {
				return vs
			}
			if sc.any(newNames...) {
				return nil
			}
			var skip []string
			for _, row := range f.rows("shapes.txt") {
				if row["shape_dist_traveled"] == "" {
					// a shape whose measures were given up is measured anew
					skip = []string{"shape_dist_traveled"}
				}
			}
			for _, t := range append([]string{"calendar.txt", "calendar_dates.txt"}, contentTables...) {
				vs = append(vs, cmpFacts("row:"+t, a.rowsOf(t, sc.has("-F"), skip...), b.rowsOf(t, sc.has("-F"), skip...))...)
			}
			return vs
		}})
}

// see10: what is a known finding of C10 is not one of another property.
func see10(vs []Viol) []Viol {
	for _, v := range vs {
		if len(v.Sig) > 12 && (v.Sig[:12] == "mode-filter:" || v.Sig[:12] == "area-filter:") {
			return nil
		}
	}
	return vs
}

// pointShape: a shape has no length.
func pointShape(f Feed) bool {
	at := map[string]string{}
	long := map[string]bool{}
	for _, row := range f.rows("shapes.txt") {
		p, id := row["shape_pt_lat"]+" "+row["shape_pt_lon"], row["shape_id"]
		if at[id] != "" && at[id] != p {
			long[id] = true
		}
		at[id] = p
	}
	return len(long) < len(at)
}
