package main

import (
	"fmt"
	"regexp"
	"strings"
)

// procFlags are all options without a value that change what is written.
var procFlags = []string{"-O", "-s", "-m", "-r", "-S", "-R", "-C", "-c", "-T", "-A", "-P", "-I", "-E", "--red-trips-fuzzy", "--red-trips-aggressive", "--red-stops-fuzzy",
	"--remove-cal-dates", "--explicit-calendar", "--ensure-stop-parents", "--drop-too-fast-trips", "--fix-far-away-parents", "--drop-shapes", "--snap-stops",
	"--drop-platform-for-parentless", "--non-overlapping-services", "--group-adj-stop-times", "--remove-fillers", "--drop-single-stop-trips",
	"--standard-route-types", "--google-supported-route-types"}

var keepFlags = []string{"--keep-ids", "--keep-station-ids", "--keep-block-ids", "--keep-fare-ids", "--keep-shape-ids", "--keep-route-ids", "--keep-trip-ids",
	"--keep-level-ids", "--keep-pathway-ids", "--keep-attribution-ids", "--keep-service-ids", "--keep-agency-ids"}

// filterFlags draws options that drop a part of the feed.
func filterFlags(r *rng, pct int) []string {
	var l []string
	if r.p(pct) {
		l = append(l, fmt.Sprintf("--date-start=2020%02d%02d", 1+r.n(3), 1+r.n(28)))
	}
	if r.p(pct) {
		l = append(l, fmt.Sprintf("--date-end=2020%02d%02d", 1+r.n(4), 1+r.n(28)))
	}
	if r.p(pct) {
		a, b := 47.495+0.01*float64(r.n(3)), 7.793+0.0137*float64(r.n(4))
		l = append(l, fmt.Sprintf("--bounding-box=%.4f,%.4f,%.4f,%.4f", a, b, a+0.01*float64(1+r.n(3)), b+0.0137*float64(1+r.n(4))))
		if r.p(40) {
			l = append(l, "--complete-filtered-trips")
		}
	}
	if r.p(pct) {
		l = append(l, r.pick("-M", "-N", "--keep-mots", "--drop-mots")+"="+r.pick("3", "0,1", "2", "3,4", "0,1,2,3,4"))
	}
	return l
}

// messyFeed is a valid feed with many kinds of redundancy and oddity.
func messyFeed(r *rng, o GenOpt) Feed {
	f := genFeed(r, o)
	if r.p(35) {
		addTripDups(r, f, r.n(6), false)
	}
	if r.p(30) {
		clusterStops(r, f, r.n(5))
		if r.p(6) {
			sameNamed(r, f)
		}
	}
	if r.p(30) {
		addPlaces(r, f, r.n(4))
	}
	if r.p(25) {
		workShapes(r, f, r.n(4))
	}
	if r.p(30) {
		addOrphans(r, f, r.n(4))
	}
	if r.p(20) {
		f.denseSeries(r)
	}
	dedupTransfers(f)
	return f
}

// sameZone gives the agencies of all feeds the time zone of the first, as the
// tool demands.
func sameZone(fs []Feed) {
	tz := ""
	for _, f := range fs {
		t := f["agency.txt"]
		if t == nil {
			continue
		}
		c := t.col("agency_timezone")
		for _, r := range t.Rows {
			if tz == "" {
				tz = r[c]
			}
			r[c] = tz
		}
	}
}

func anyOptions(r *rng, feeds int) []string {
	var fl []string
	switch r.n(10) {
	case 0, 1, 2, 3:
		fl = append(fl, r.pick("--compress", "--Compress", "--merge", "--Merge"))
		fl = append(fl, flagSet(r, 8, procFlags...)...)
	case 4, 5:
		fl = subset(r, 8, procFlags...)
	case 6, 7, 8:
		fl = subset(r, r.pickn(20, 40), procFlags...)
	case 9:
		fl = flagSet(r, 85, procFlags...)
	}
	fl = append(fl, filterFlags(r, r.pickn(0, 0, 12))...)
	if r.p(25) {
		fl = append(fl, r.pick("-i", "-d"))
	}
	if r.p(15) {
		fl = append(fl, flagSet(r, 25, keepFlags...)...)
	}
	if r.p(12) {
		fl = append(fl, "--prefix="+r.pick("p", "x-", "7"))
	}
	fl = append(fl, flagSet(r, 6, formatFlags...)...)
	if r.p(8) {
		fl = append(fl, "--fix")
	}
	if r.p(8) {
		fl = append(fl, fmt.Sprintf("--min-headway=%d", r.pickn(60, 600)))
	}
	if r.p(8) {
		fl = append(fl, fmt.Sprintf("--max-headway=%d", r.pickn(600, 3600)))
	}
	return fl
}

func init() {
	register(&Prop{ID: "C10", Quick: 18000,
		Rule: "One or two random feeds with redundancy of every kind are run through a random mixture of all options (shorthands, single options in different densities, filters, ID options, format options); the output is checked, and read again with -v. Non-trivial: the output is not the input.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{1, r.pickn(6, 12, 20)}
			o.FarDup = r.pickn(0, 20)
			o.SingleStop = r.pickn(0, 10)
			o.FastTrips = r.pickn(0, 20)
			o.OrphanLevels = true
			o.AddFlds = r.pickn(0, 0, 50)
			sc := baseScenario(r, o)
			sc.Feeds[0] = messyFeed(r, o)
			if r.p(15) {
				sc.Feeds = append(sc.Feeds, messyFeed(r, o))
				sc.InZip = append(sc.InZip, r.p(30))
				sameZone(sc.Feeds)
			}
			sc.Flags = anyOptions(r, len(sc.Feeds))
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			out := newMod(f)
			vs := checkValid(out)
			if _, area := sc.valAny("--bounding-box", "-p", "--polygon", "--polygon-file"); area {
				for i := range vs {
					if vs[i].Sig == "time-missing" {
						vs[i].Sig = "area-filter:time-missing"
					}
				}
			}
			if len(vs) > 0 {
				return vs
			}
			if len(out.trips) > 0 {
				x.mark("trips left")
			} else {
				x.mark("no trips left")
			}
			res := x.do(x.w.r, []string{"-v", sc.Out}, sc.Sched, nil)
			if v := crashViol(res); len(v) > 0 {
				return v
			}
			if res.Exit != 0 {
				msg := res.Stderr
				if i := strings.Index(msg, "feed:\n"); i >= 0 {
					msg = msg[i+6:]
				}
				return []Viol{viol("not-readable:"+msgClass(res.Stderr), "the tool rejects its own output: %s", head(msg, 300))}
			}
			x.nontrivial()
			return nil
		}})
}

// filterViol recognises the rejection of a reference to a route or trip that
// exists in the input and that the mode filter dropped, or to a station that
// the area filter dropped.
func filterViol(sc *Scenario, res *RunResult) []Viol {
	if strings.Contains(res.Stderr, "cannot use as parent station here") && len(sc.areas()) > 0 && !sc.has("--complete-filtered-trips") {
		if _, _, reject, _ := filtered(sc, inputModel(sc)); reject {
			return []Viol{viol("area-filter:parent", "with an area filter the valid feed is rejected because the station of an entrance, node or boarding area lies outside: %s", head(res.Stderr, 200))}
		}
	}
	if _, a := sc.valAny("-M", "--keep-mots"); !a {
		if _, b := sc.valAny("-N", "--drop-mots"); !b {
			return nil
		}
	}
	m := regexp.MustCompile(`(transfers|fare_rules)\.txt:\d+ - No (route|trip) with id (.*) found\.`).FindStringSubmatch(res.Stderr)
	if m == nil {
		return nil
	}
	found := false
	for _, in := range append([]Feed{prefixed(sc.Feeds, sc.prefix)}, sc.Feeds...) {
		in := newMod(in)
		found = found || in.trips[m[3]] != nil || in.routes[m[3]] != nil
	}
	if !found {
		return nil
	}
	return []Viol{viol("mode-filter:"+m[1]+"-"+m[2], "with a mode filter the valid feed is rejected because a %s of %s.txt was filtered: %s", m[2], m[1], head(res.Stderr, 200))}
}

func (s *Scenario) valAny(flags ...string) (string, bool) {
	for _, f := range flags {
		if v, ok := s.val(f); ok {
			return v, true
		}
	}
	return "", false
}
