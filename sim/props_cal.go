package main

import (
	"sort"
)

// subset draws a non-empty subset of flags.
func subset(r *rng, pct int, flags ...string) []string {
	for {
		var l []string
		for _, f := range flags {
			if r.p(pct) {
				l = append(l, f)
			}
		}
		if len(l) > 0 {
			return l
		}
	}
}

// flagSet draws a subset of flags, possibly none.
func flagSet(r *rng, pct int, flags ...string) []string {
	var l []string
	for _, f := range flags {
		if r.p(pct) {
			l = append(l, f)
		}
	}
	return l
}

var formatFlags = []string{"--keep-col-order", "--unsorted-files", "-W", "--assume-clean-csv", "-e", "-D", "-z", "-n"}

func init() {
	// C02: calendars
	register(&Prop{ID: "C02", Quick: 21000,
		Rule: "A random feed with many similar services is run through a random non-empty subset of the calendar options. Non-trivial: a calendar option changed calendar.txt or calendar_dates.txt and there are journeys.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Services = [2]int{1, 7}
			o.Trips = [2]int{2, 10}
			o.Dup = r.pickn(0, 40, 80)
			o.Aux = 30
			o.Span = [][2]int{{1, 40}, {1, 4}, {20, 120}, {60, 110}}[r.pickn(0, 0, 0, 1, 2, 3)]
			o.AddFlds = r.pickn(0, 0, 50)
			if r.p(10) {
				// many services with short numbers: those they are split into get longer ones
				o.IDStyle = 1
				o.Services = [2]int{8, 16}
				o.Trips = [2]int{12, 20}
				o.Span = [2]int{30, 110}
			}
			sc := baseScenario(r, o)
			if r.p(12) {
				shiftService(r, sc.Feeds[0])
			}
			sc.Flags = subset(r, 35, "-c", "-C", "--explicit-calendar", "--remove-cal-dates", "--non-overlapping-services")
			if o.AddFlds > 0 && r.p(50) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 5, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			vs := checkValid(out)
			vs = append(vs, checkJourneys(in, out, &NFOpt{})...)
			split := sc.has("--remove-cal-dates", "--non-overlapping-services")
			extra := sc.has("-F") && !sc.has("--non-overlapping-services")
			if !split {
				vs = append(vs, sameRows(in, out, extra, except(contentTables, "trips.txt")...)...)
				vs = append(vs, cmpFacts("row:trips.txt", in.rowsOf("trips.txt", extra, "service_id"), out.rowsOf("trips.txt", extra, "service_id"))...)
				vs = append(vs, cmpFacts("trip-dates", in.tripDates(), out.tripDates())...)
				if !sc.has("-C") {
					vs = append(vs, cmpFacts("calendar", in.calFacts(), out.calFacts())...)
				}
			} else {
				vs = append(vs, sameRows(in, out, extra, except(contentTables, "trips.txt", "stop_times.txt", "frequencies.txt", "transfers.txt", "attributions.txt")...)...)
				vs = append(vs, cmpFacts("transfer", in.plainTransfers(), out.plainTransfers())...)
				if sc.has("--remove-cal-dates") {
					all, must := in.tripContents(extra)
					got, _ := out.tripContents(extra)
					for _, k := range sortedKeys(must) {
						if !got[k] {
							vs = append(vs, viol("trip-content-lost", "no trip is left with the content of one of the input: %s", head(k, 700)))
							break
						}
					}
					for _, k := range sortedKeys(got) {
						if !all[k] {
							vs = append(vs, viol("trip-content-added", "a trip has a content that no trip of the input has: %s", head(k, 700)))
							break
						}
					}
				}
			}
			if sc.has("-C") && !split {
				vs = append(vs, sameDates(out)...)
			}
			if sc.has("--remove-cal-dates") && f["calendar_dates.txt"] != nil && len(f["calendar_dates.txt"].Rows) > 0 {
				vs = append(vs, viol("calendar-dates-left", "calendar_dates.txt has %d rows with --remove-cal-dates", len(f["calendar_dates.txt"].Rows)))
			}
			if sc.has("--explicit-calendar") {
				vs = append(vs, explicitCal(out)...)
			}
			if sc.has("--non-overlapping-services") {
				vs = append(vs, disjoint(out)...)
			}
			if in.calDump() != out.calDump() && len(in.usedRoutes()) > 0 {
				x.nontrivial()
			}
			return vs
		}})
}

// tripContents are all rows about each trip but for the IDs a split gives anew;
// must has those of trips that run at all.
func (m *Mod) tripContents(extra bool) (all, must map[string]bool) {
	all, must = map[string]bool{}, map[string]bool{}
	freqs := map[string][]string{}
	no := map[string]bool{"trip_id": true, "service_id": true}
	fc := m.cols("frequencies.txt", extra)
	for _, r := range m.feed.rows("frequencies.txt") {
		freqs[r["trip_id"]] = append(freqs[r["trip_id"]], m.rowKey("frequencies.txt", fc, r, no))
	}
	tc, sc := m.cols("trips.txt", extra), m.cols("stop_times.txt", extra)
	for _, id := range sortedKeys(m.trips) {
		k := m.rowKey("trips.txt", tc, m.trips[id], no)
		for _, st := range m.st[id] {
			k += "| " + m.rowKey("stop_times.txt", sc, st, no)
		}
		sort.Strings(freqs[id])
		for _, q := range freqs[id] {
			k += "| every " + q
		}
		all[k] = true
		if len(m.active[m.trips[id]["service_id"]]) > 0 {
			must[k] = true
		}
	}
	return
}

func (m *Mod) calDump() string {
	s := ""
	for _, t := range []string{"calendar.txt", "calendar_dates.txt"} {
		for _, k := range sortedKeys(m.rowsOf(t, false)) {
			s += k + "\n"
		}
	}
	return s
}

// plainTransfers are the transfers that do not name trips.
func (m *Mod) plainTransfers() map[string]int {
	out := map[string]int{}
	sk := map[string]bool{}
	for _, r := range m.feed.rows("transfers.txt") {
		if r["from_trip_id"] == "" && r["to_trip_id"] == "" {
			out[m.rowKey("transfers.txt", schema["transfers.txt"], r, sk)]++
		}
	}
	return out
}

func sameDates(out *Mod) []Viol {
	seen := map[string]string{}
	for _, id := range sortedKeys(out.services) {
		if len(out.active[id]) == 0 {
			continue
		}
		k := dateKey(out.active[id])
		if o, ok := seen[k]; ok {
			return []Viol{viol("equal-services-left", "services %s and %s are active on exactly the same days after -C", o, id)}
		}
		seen[k] = id
	}
	return nil
}

func disjoint(out *Mod) []Viol {
	on := map[string]string{}
	for _, id := range sortedKeys(out.services) {
		var ds []string
		for d := range out.active[id] {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			if o, ok := on[d]; ok {
				return []Viol{viol("services-overlap", "services %s and %s are both active on %s with --non-overlapping-services", o, id, d)}
			}
			on[d] = id
		}
	}
	return nil
}

// shiftService moves all dates of one service by many days, or gives some of
// the trips of one service another that runs on the same days much later.
func shiftService(r *rng, f Feed) {
	m := newMod(f)
	ids := sortedKeys(m.active)
	if len(ids) == 0 {
		return
	}
	id := ids[r.n(len(ids))]
	var dates []string
	for d := range m.active[id] {
		dates = append(dates, d)
	}
	sort.Strings(dates)
	n := r.pickn(1, 7, 8, 56, 64, 128, 256, 364, 365, 366, 512, 1024, -7, -64, -256, -365)
	for i := range dates {
		dates[i] = shiftDay(dates[i], n)
	}
	addService(r, f, "later", dates)
	t := f["trips.txt"]
	for _, row := range t.Rows {
		if row[t.col("service_id")] == id && r.p(60) {
			row[t.col("service_id")] = "later"
		}
	}
}
