package main

import (
	"sort"
	"strconv"
	"strings"
	"time"
)

// bestWeekly is the least number of exceptions with which a weekly pattern
// over whole weeks (from a Sunday to a Saturday) gives the days, none counted
// before the first or after the last of them.
func bestWeekly(days map[string]bool) int {
	var l []time.Time
	for d := range days {
		t, err := time.Parse("20060102", d)
		if err != nil {
			return 0
		}
		l = append(l, t)
	}
	if len(l) == 0 {
		return 0
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Before(l[j]) })
	first, last := l[0], l[len(l)-1]
	start := first.AddDate(0, 0, -int(first.Weekday()))
	n := int(last.Sub(start).Hours()/24+0.5)/7 + 1
	on := make([][7]bool, n)
	in := make([][7]bool, n) // between the first and the last day
	for d := first; !d.After(last); d = d.AddDate(0, 0, 1) {
		k := int(d.Sub(start).Hours()/24 + 0.5)
		in[k/7][k%7] = true
		on[k/7][k%7] = days[d.Format("20060102")]
	}
	best := len(l)
	for a := 0; a < n; a++ {
		var act, off [7]int
		for b := a; b < n; b++ {
			c := len(l)
			for w := 0; w < 7; w++ {
				if on[b][w] {
					act[w]++
				} else if in[b][w] {
					off[w]++
				}
			}
			for w := 0; w < 7; w++ {
				if act[w] > off[w] {
					c -= act[w] - off[w]
				}
			}
			if c < best {
				best = c
			}
		}
	}
	return best
}

// entries counts the rows a service needs in calendar.txt and
// calendar_dates.txt; a calendar without a weekday can be left out.
func (m *Mod) entries(id string) int {
	n := len(m.calDates[id])
	if c := m.cal[id]; c != nil {
		for _, d := range weekdays {
			if c[d] == "1" {
				return n + 1
			}
		}
	}
	return n
}

var weekdays = []string{"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"}

// encode gives service id the days again, in one of many ways.
func (f Feed) encode(r *rng, id string, days map[string]bool) {
	for _, n := range []string{"calendar.txt", "calendar_dates.txt"} {
		if t := f[n]; t != nil {
			c := t.col("service_id")
			var rows [][]string
			for _, row := range t.Rows {
				if row[c] != id {
					rows = append(rows, row)
				}
			}
			t.Rows = rows
		} else {
			f[n] = &Table{Header: append([]string{}, schema[n]...)}
		}
	}
	l := sortedKeys(days)
	var mask [7]bool
	a, b := 0, 0
	if r.p(70) {
		for w := range mask {
			mask[w] = r.p(40)
		}
		a, b = r.n(len(l)), r.n(len(l))
		if a > b {
			a, b = b, a
		}
	}
	s, _ := time.Parse("20060102", l[a])
	e, _ := time.Parse("20060102", l[b])
	cal := map[string]string{"service_id": id, "start_date": date(s), "end_date": date(e)}
	for w, d := range []string{"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"} {
		cal[d] = "0"
		if mask[w] {
			cal[d] = "1"
		}
	}
	if mask != [7]bool{} {
		f.add("calendar.txt", cal)
	}
	first, _ := time.Parse("20060102", l[0])
	last, _ := time.Parse("20060102", l[len(l)-1])
	for d := first; !d.After(last); d = d.AddDate(0, 0, 1) {
		on := !d.Before(s) && !d.After(e) && mask[d.Weekday()]
		want := days[date(d)]
		if on && !want {
			f.add("calendar_dates.txt", map[string]string{"service_id": id, "date": date(d), "exception_type": "2"})
		} else if !on && want || !on && r.p(2) {
			x := "1"
			if !want {
				x = "2"
			}
			f.add("calendar_dates.txt", map[string]string{"service_id": id, "date": date(d), "exception_type": x})
		}
	}
}

// weekly draws days which are a weekly pattern, or nearly.
func weekly(r *rng, base time.Time) map[string]bool {
	days := map[string]bool{}
	var mask [7]bool
	switch r.n(4) {
	case 0:
		mask = [7]bool{false, true, true, true, true, true, false}
	case 1:
		mask[r.n(7)] = true
	default:
		for w := range mask {
			mask[w] = r.p(50)
		}
	}
	n := r.rang(3, 120)
	lone := r.p(2)
	if lone {
		n = r.rang(3, 30)
	} else if r.p(3) {
		n = r.rang(120, 260)
	}
	for k := 0; k < n; k++ {
		d := base.AddDate(0, 0, k)
		if mask[d.Weekday()] {
			days[date(d)] = true
		}
	}
	if r.p(50) {
		for k := r.n(5); k > 0; k-- {
			d := date(base.AddDate(0, 0, r.n(n)))
			if days[d] {
				delete(days, d)
			} else {
				days[d] = true
			}
		}
	}
	if lone {
		// a single day long before or after
		days[date(base.AddDate(0, 0, r.pickn(-1, 1)*r.rang(8, 460)))] = true
	}
	if len(days) < 2 {
		days[date(base)], days[date(base.AddDate(0, 0, 1))] = true, true
	}
	return days
}

// straighten puts the points of a shape on a straight line, in order.
func (f Feed) straighten(r *rng, id string) {
	t := f["shapes.txt"]
	sh, la, lo, sq := t.col("shape_id"), t.col("shape_pt_lat"), t.col("shape_pt_lon"), t.col("shape_pt_sequence")
	var rows [][]string
	for _, row := range t.Rows {
		if row[sh] == id {
			rows = append(rows, row)
		}
	}
	sort.SliceStable(rows, func(i, j int) bool { return atoi(rows[i][sq]) < atoi(rows[j][sq]) })
	lat, lon := place(r.n(40))
	dl, dm := (r.f()-0.5)/100, (r.f()-0.5)/100
	if r.p(30) {
		dl = 0
	} else if r.p(30) {
		dm = 0
	}
	at := 0.0
	for _, row := range rows {
		row[la], row[lo] = flt(lat+at*dl), flt(lon+at*dm)
		at += 0.05 + r.f()
	}
}

// straight: all points are in order on the line from the first to the last,
// which are apart.
func straight(l []pt) bool {
	if len(l) < 3 {
		return false
	}
	a, b := l[0], l[len(l)-1]
	whole := meters(a.lat, a.lon, b.lat, b.lon)
	if whole < 20 {
		return false
	}
	at := 0.0
	for _, p := range l {
		if segDist(p, a, b) > 0.2 {
			return false
		}
		d := meters(a.lat, a.lon, p.lat, p.lon)
		if d < at-0.2 {
			return false
		}
		at = d
	}
	return true
}

// series adds copies of a trip, every h seconds.
func (f Feed) series(r *rng) {
	m := newMod(f)
	ids := sortedKeys(m.st)
	if len(ids) == 0 {
		return
	}
	src := ids[r.n(len(ids))]
	h := r.pickn(1, 30, 60, 300, 420, 600, 900, 3600)
	n := r.rang(1, 9)
	name := r.pick("s", "dup", "x_", "0")
	if r.p(40) {
		ensureCols(f["trips.txt"], "block_id")
		for _, row := range f["trips.txt"].Rows {
			if row[f["trips.txt"].col("trip_id")] == src {
				row[f["trips.txt"].col("block_id")] = "blk"
			}
		}
	}
	m = newMod(f)
	for k := 1; k <= n; k++ {
		id := src + name + strconv.Itoa(k)
		if m.trips[id] != nil {
			return
		}
		c := cp(m.trips[src])
		c["trip_id"] = id
		f.add("trips.txt", c)
		for _, s := range m.st[src] {
			d := cp(s)
			d["trip_id"] = id
			for _, t := range []string{"arrival_time", "departure_time"} {
				if x, ok := secs(s[t]); ok {
					d[t] = hms(x + k*h)
				}
			}
			f.add("stop_times.txt", d)
		}
	}
}

// readmeCal and readmeTrips put the examples of the README into a feed.
func readmeCal(f Feed, id string) {
	f.encode(newRng(1), id, map[string]bool{"20160814": true})
	t := f["calendar_dates.txt"]
	c := t.col("service_id")
	var rows [][]string
	for _, row := range t.Rows {
		if row[c] != id {
			rows = append(rows, row)
		}
	}
	t.Rows = rows
	for _, d := range []string{"20160814", "20160815", "20160816", "20160817", "20160818", "20160819", "20160820", "20160821"} {
		x := "1"
		if d == "20160815" {
			x = "2"
		}
		f.add("calendar_dates.txt", map[string]string{"service_id": id, "date": d, "exception_type": x})
	}
	cal := f["calendar.txt"]
	c = cal.col("service_id")
	rows = nil
	for _, row := range cal.Rows {
		if row[c] != id {
			rows = append(rows, row)
		}
	}
	cal.Rows = rows
}

func init() {
	register(&Prop{ID: "C23", Quick: 12000,
		Rule: "A random feed with services that are nearly weekly patterns in all kinds of representations, with series of trips at equal headways and with straight shapes is run through -c, -T, -s or a random set of minimising options. Non-trivial: a table got fewer rows, or there was a plain case to find.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Services = [2]int{1, 7}
			o.Trips = [2]int{2, 8}
			o.Dup = r.pickn(0, 40, 80)
			o.Aux = r.pickn(0, 40)
			o.EmptyTimes = r.pickn(0, 5)
			o.Span = [][2]int{{1, 40}, {1, 4}, {20, 120}, {60, 110}}[r.pickn(0, 0, 0, 1, 2, 3)]
			mode := r.n(4)
			if mode == 1 || mode == 3 {
				o.Trips = [2]int{2, 14}
				o.Regular = r.pickn(0, 30, 60)
				o.Freq = r.pickn(0, 15)
			}
			if mode == 2 {
				o.Shapes = 90
			}
			sc := baseScenario(r, o)
			f := sc.Feeds[0]
			m := newMod(f)
			if mode == 0 || mode == 3 {
				// near the other dates, as merging services far apart takes long
				base := time.Date(2019, 12, 20, 0, 0, 0, 0, time.UTC)
				for _, id := range sortedKeys(m.services) {
					if l := sortedKeys(m.active[id]); len(l) > 0 {
						base, _ = time.Parse("20060102", l[0])
						break
					}
				}
				base = base.AddDate(0, 0, r.n(20))
				for k, id := range sortedKeys(m.services) {
					switch {
					case k == 0 && mode == 0 && r.p(5):
						readmeCal(f, id)
					case r.p(40):
						f.encode(r, id, weekly(r, base))
					case r.p(50) && len(m.active[id]) > 0:
						f.encode(r, id, m.active[id])
					case r.p(20):
						// a short calendar, and a long list of dates of another kind
						days := map[string]bool{}
						for k := 0; k < 5+r.n(3); k++ {
							days[date(base.AddDate(0, 0, k))] = true
						}
						for k := 7; k < 7*(5+r.n(25)); k += 7 {
							days[date(base.AddDate(0, 0, k))] = true
						}
						f.encode(r, id, days)
					}
				}
			}
			if mode == 1 || mode == 3 && r.p(50) {
				f.series(r)
				if r.p(50) {
					f.series(r)
				}
			}
			if mode == 2 || mode == 3 && r.p(50) {
				for _, id := range sortedKeys(m.shapes) {
					if r.p(60) {
						f.straighten(r, id)
					}
				}
			}
			switch mode {
			case 0:
				sc.Flags = []string{"-c"}
			case 1:
				sc.Flags = []string{"-T"}
				if r.p(30) {
					sc.Flags = append(sc.Flags, "--min-headway="+r.pick("1", "30", "300"))
				}
				if r.p(30) {
					sc.Flags = append(sc.Flags, "--max-headway="+r.pick("600", "900", "3600"))
				}
			case 2:
				sc.Flags = []string{"-s"}
			default:
				sc.Flags = subset(r, 35, "-S", "-s", "-C", "-R", "-m", "-T", "-c", "-d", "-A", "-P", "-O", "-I", "--red-trips-aggressive", "--red-stops-fuzzy", "--red-trips-fuzzy", "-r")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 4, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			var vs []Viol
			for _, t := range contentTables {
				a, b := tableLen(in.feed, t), tableLen(f, t)
				switch t {
				case "frequencies.txt":
					if sc.has("-T") {
						continue
					}
				case "calendar.txt", "calendar_dates.txt":
					continue
				}
				if b < a {
					x.nontrivial()
				}
				if b > a {
					vs = append(vs, viol("grew:"+t, "%s had %d rows and has %d", t, a, b))
				}
			}
			if !sc.has("-I") {
				na, nb := 0, 0
				for id := range in.services {
					na += in.entries(id)
				}
				for id := range out.services {
					nb += out.entries(id)
				}
				if nb > na {
					vs = append(vs, viol("grew:calendar", "all services together needed %d entries and need %d", na, nb))
				}
				if nb < na {
					x.nontrivial()
				}
			}
			if sc.has("-c") && !sc.has("-I") && !sc.has("-d") && !sc.has("-n") {
				for _, id := range sortedKeys(in.services) {
					if !out.services[id] {
						continue
					}
					a, b := in.entries(id), out.entries(id)
					if b > a {
						vs = append(vs, viol("calendar-grew", "service %s needed %d entries and needs %d", id, a, b))
					}
					if len(in.calDates[id]) == 0 {
						continue // taken to be as good as it gets
					}
					best := bestWeekly(in.active[id])
					if b > best+1 {
						vs = append(vs, viol("not-optimal", "service %s has %d entries, but a weekly pattern over whole weeks with %d exceptions gives the same days", id, b, best))
					}
					if best == 0 && len(in.active[id]) > 1 {
						x.mark("plain weekly patterns")
						x.nontrivial()
					}
				}
			}
			lo, hi := 1, 3600*24
			simpleT := true
			for _, fl := range sc.Flags {
				if strings.HasPrefix(fl, "--min-headway=") {
					lo = atoi(fl[14:])
				} else if strings.HasPrefix(fl, "--max-headway=") {
					hi = atoi(fl[14:])
				} else if fl != "-T" && !contains(formatFlags, fl) {
					simpleT = false
				}
			}
			if sc.has("-T") && simpleT && !sc.has("-n") && !sc.has("-D") && !sc.has("-e") {
				groups := map[string][]string{}
				at := map[string]int{}
				skip := map[string]bool{}
				for _, a := range in.attrs {
					skip[a["trip_id"]] = true
				}
				for _, id := range sortedKeys(in.trips) {
					k, base, ok := in.tripKey(id, true, true)
					if !ok {
						continue
					}
					at[id] = base
					groups[k] = append(groups[k], id)
					noTime := false
					for _, s := range in.st[id] {
						noTime = noTime || s["arrival_time"] == "" || s["departure_time"] == ""
					}
					if len(in.freqs[id]) > 0 || skip[id] || noTime {
						groups[k] = append(groups[k], "")
					}
				}
				for _, k := range sortedKeys(groups) {
					g := groups[k]
					sort.Slice(g, func(i, j int) bool { return at[g[i]] < at[g[j]] })
					if len(g) < 2 {
						continue
					}
					h := at[g[1]] - at[g[0]]
					plain := h >= lo && h <= hi && h > 0 && at[g[len(g)-1]]+h < 100*3600
					for i, id := range g {
						plain = plain && id != "" && (i == 0 || at[id]-at[g[i-1]] == h)
					}
					if !plain {
						continue
					}
					x.mark("plain headways")
					x.nontrivial()
					left := 0
					for _, id := range g {
						// (the ID may be that of another trip by now)
						if j, _, ok := out.tripKey(id, true, true); out.trips[id] != nil && (!ok || j == k) {
							left++
						}
					}
					if left != 1 {
						vs = append(vs, viol("series-left", "the %d trips %v start every %d seconds, but %d of them are left", len(g), g, h, left))
						continue
					}
					for _, id := range g {
						if j, _, ok := out.tripKey(id, true, true); out.trips[id] != nil && (!ok || j == k) && (len(out.freqs[id]) != 1 || atoi(out.freqs[id][0]["headway_secs"]) != h) {
							vs = append(vs, viol("series-frequency", "the %d trips %v start every %d seconds, but their trip has the frequencies %v", len(g), g, h, out.freqs[id]))
						}
					}
				}
			}
			if sc.has("-s") && !sc.has("-S") && !sc.has("-d") && !sc.has("-n") {
				for _, id := range sortedKeys(out.shapes) {
					if l := in.shapes[id]; straight(l) {
						x.mark("straight shapes")
						x.nontrivial()
						if len(out.shapes[id]) != 2 {
							vs = append(vs, viol("straight-shape", "shape %s is a straight line of %d points, %d are left", id, len(l), len(out.shapes[id])))
						}
					}
				}
			}
			return vs
		}})
}
