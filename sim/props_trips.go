package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

// motOf maps extended route types to basic ones.
func motOf(t string) string {
	n := atoi(t)
	switch {
	case n >= 100 && n < 200:
		return "2"
	case n >= 200 && n < 300 || n >= 700 && n < 800:
		return "3"
	case n >= 900 && n < 1000:
		return "0"
	case n >= 400 && n < 500:
		return "1"
	case n >= 1000 && n < 1100:
		return "4"
	}
	return t
}

// connKey names what -I compares of a trip: route (or only its mode) and
// attributes, stations and times.
func (m *Mod) connKey(id string, fuzzy, extra bool) string {
	l, t := m.st[id], m.trips[id]
	var b strings.Builder
	if fuzzy {
		b.WriteString("mode " + motOf(m.routes[t["route_id"]]["route_type"]) + " ")
	} else {
		b.WriteString(m.rowKey("trips.txt", m.cols("trips.txt", extra), t, map[string]bool{"trip_id": true, "service_id": true, "shape_id": true, "direction_id": true}))
	}
	for i, r := range l {
		b.WriteString("[" + m.station(r["stop_id"]))
		if i > 0 {
			b.WriteString(" a" + nv("stop_times.txt", "arrival_time", r["arrival_time"]))
		}
		if i < len(l)-1 || i == 0 {
			b.WriteString(" d" + nv("stop_times.txt", "departure_time", r["departure_time"]))
		}
		b.WriteString("]")
	}
	var fr []string
	for _, q := range m.freqs[id] {
		fr = append(fr, " freq"+id+m.rowKey("frequencies.txt", m.cols("frequencies.txt", extra), q, map[string]bool{"trip_id": true}))
	}
	sort.Strings(fr)
	b.WriteString(strings.Join(fr, ""))
	return b.String()
}

// connections counts the trips per date and connection.
func (m *Mod) connections(fuzzy, extra bool) map[string]int {
	out := map[string]int{}
	for id, t := range m.trips {
		if len(m.st[id]) == 0 {
			continue
		}
		k := m.connKey(id, fuzzy, extra)
		for d := range m.active[t["service_id"]] {
			out[d+" "+k]++
		}
	}
	return out
}

// addService defines a service that runs on the given dates, in one of
// several equivalent ways.
func addService(r *rng, f Feed, id string, dates []string) {
	on := map[string]bool{}
	for _, d := range dates {
		on[d] = true
	}
	sort.Strings(dates)
	for _, n := range []string{"calendar.txt", "calendar_dates.txt"} {
		if f[n] == nil {
			f[n] = &Table{Header: append([]string(nil), schema[n]...)}
		}
		ensureCols(f[n], schema[n]...)
	}
	days := []string{"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"}
	if r.p(60) && len(dates) > 0 {
		a, _ := time.Parse("20060102", dates[0])
		b, _ := time.Parse("20060102", dates[len(dates)-1])
		if b.Sub(a) < 300*24*time.Hour {
			row := Row{"service_id": id, "start_date": date(a), "end_date": date(b)}
			cnt := map[int]int{}
			for d := a; !d.After(b); d = d.AddDate(0, 0, 1) {
				if on[date(d)] {
					cnt[int(d.Weekday())]++
				} else {
					cnt[int(d.Weekday())]--
				}
			}
			for i, n := range days {
				row[n] = "0"
				if cnt[i] > 0 {
					row[n] = "1"
				}
			}
			f.add("calendar.txt", row)
			for d := a; !d.After(b); d = d.AddDate(0, 0, 1) {
				act := row[days[int(d.Weekday())]] == "1"
				if act != on[date(d)] {
					f.add("calendar_dates.txt", Row{"service_id": id, "date": date(d), "exception_type": map[bool]string{true: "2", false: "1"}[act]})
				}
			}
			return
		}
	}
	for _, d := range dates {
		f.add("calendar_dates.txt", Row{"service_id": id, "date": d, "exception_type": "1"})
	}
	if len(dates) == 0 {
		if r.p(50) {
			f.add("calendar_dates.txt", Row{"service_id": id, "date": "20200107", "exception_type": "2"})
		} else {
			row := Row{"service_id": id, "start_date": "20200101", "end_date": "20200110"}
			for _, n := range days {
				row[n] = "0"
			}
			f.add("calendar.txt", row)
		}
	}
}

// otherDates derives a related set of dates.
func otherDates(r *rng, dates []string, far bool) []string {
	sh := func(d string, n int) string {
		t, _ := time.Parse("20060102", d)
		return date(t.AddDate(0, 0, n))
	}
	var out []string
	switch r.n(9) {
	case 0, 1: // equal
		out = append(out, dates...)
	case 2: // a part
		for _, d := range dates {
			if r.p(50) {
				out = append(out, d)
			}
		}
	case 3: // more
		out = append(out, dates...)
		if len(dates) > 0 {
			out = append(out, sh(dates[len(dates)-1], 1+r.n(9)))
		}
	case 4: // overlapping
		n := 1 + r.n(8)
		for _, d := range dates {
			out = append(out, sh(d, n))
		}
	case 5: // the weeks after
		if len(dates) > 0 {
			a, _ := time.Parse("20060102", dates[0])
			b, _ := time.Parse("20060102", dates[len(dates)-1])
			w := int(b.Sub(a).Hours()/24)/7*7 + 7
			for _, d := range dates {
				out = append(out, sh(d, w))
			}
		}
	case 6: // some days later
		n := 1 + r.n(60)
		if far && r.p(30) {
			n = r.pickn(64, 128, 256, -256, 365, 366, 512, 1024)
		}
		for _, d := range dates {
			out = append(out, sh(d, n))
		}
	case 7: // none
	case 8: // two pieces
		for i, d := range dates {
			if i%3 != 1 {
				out = append(out, d)
			}
		}
	}
	return out
}

// addTripDups adds trips that are equal, nearly equal, or equal on other days.
func addTripDups(r *rng, f Feed, n int, far bool) {
	m := newMod(f)
	ids := sortedKeys(m.st)
	if len(ids) == 0 {
		return
	}
	ensureCols(f["trips.txt"], schema["trips.txt"]...)
	ensureCols(f["stop_times.txt"], "pickup_type", "drop_off_type")
	routes := sortedKeys(m.routes)
	byStation := map[string][]string{}
	for _, s := range sortedKeys(m.stops) {
		if lt := m.stops[s]["location_type"]; (lt == "" || lt == "0") && m.stops[s]["parent_station"] != "" {
			byStation[m.station(s)] = append(byStation[m.station(s)], s)
		}
	}
	if f["attributions.txt"] != nil {
		ensureCols(f["attributions.txt"], schema["attributions.txt"]...)
	}
	if r.p(30) {
		rt := f["routes.txt"]
		for _, row := range rt.Rows {
			if c := rt.col("route_type"); r.p(50) {
				row[c] = map[string]string{"0": "901", "1": "402", "2": "109", "3": "704", "4": "1001"}[row[c]]
			}
		}
	}
	shapes := sortedKeys(m.shapes)
	src := ids[r.n(len(ids))]
	for k := 0; k < n; k++ {
		if r.p(30) {
			src = ids[r.n(len(ids))]
		}
		id := fmt.Sprintf("dup%d", k)
		c := cp(m.trips[src])
		c["trip_id"] = id
		if r.p(55) {
			var dates []string
			for d := range m.active[c["service_id"]] {
				dates = append(dates, d)
			}
			sort.Strings(dates)
			sid := fmt.Sprintf("dupserv%d", k)
			if r.p(10) {
				sid = fmt.Sprintf("merged%d", k)
			}
			addService(r, f, sid, otherDates(r, dates, far))
			c["service_id"] = sid
		}
		sd := 0
		if r.p(45) {
			switch r.n(12) {
			case 0:
				c["trip_headsign"] = r.pick("", "Elsewhere", strings.TrimSpace(c["trip_headsign"]+" Nord"))
			case 1:
				c["trip_short_name"] = r.pick("", "T99")
			case 2:
				c["wheelchair_accessible"] = r.pick("", "0", "1", "2")
			case 3:
				c["bikes_allowed"] = r.pick("", "0", "1", "2")
			case 4:
				c["block_id"] = r.pick("", "b77")
			case 5:
				c["direction_id"] = r.pick("0", "1")
			case 6:
				c["route_id"] = routes[r.n(len(routes))]
			case 7:
				c["shape_id"] = ""
				sd = 1
			case 8:
				if len(shapes) > 0 {
					c["shape_id"] = shapes[r.n(len(shapes))]
					sd = 1
				}
			default:
				for _, x := range []string{"x_note", "internal_ref"} {
					if f["trips.txt"].col(x) >= 0 {
						c[x] = "other"
					}
				}
			}
		}
		f.add("trips.txt", c)
		what := -1
		if r.p(40) {
			what = r.n(6)
		}
		l := m.st[src]
		at := r.n(len(l))
		for i, s := range l {
			d := cp(s)
			d["trip_id"] = id
			if sd > 0 {
				delete(d, "shape_dist_traveled")
			}
			bump := func(col string, by int) {
				if x, ok := secs(d[col]); ok && x+by >= 0 {
					d[col] = hms(x + by)
				}
			}
			switch {
			case what == 0 && i == 0: // waits longer at the first stop
				bump("arrival_time", -60)
			case what == 1 && i == len(l)-1:
				bump("departure_time", 90)
			case what == 2 && i == at && i > 0 && i < len(l)-1 && d["departure_time"] != "": // another departure
				a, _ := secs(d["arrival_time"])
				nx, ok := secs(l[i+1]["arrival_time"])
				if ok && nx > a {
					d["departure_time"] = hms(a + r.n(nx-a+1))
				}
			case what == 3 && i == at: // another platform
				if g := byStation[m.station(s["stop_id"])]; len(g) > 1 {
					d["stop_id"] = g[r.n(len(g))]
				}
			case what == 4 && i == at:
				d["pickup_type"] = r.pick("0", "1", "2")
			case what == 5 && i == at && i > 0 && i < len(l)-1:
				continue // one stop less
			}
			f.add("stop_times.txt", d)
		}
		for _, q := range m.freqs[src] {
			if r.p(50) {
				d := cp(q)
				d["trip_id"] = id
				f.add("frequencies.txt", d)
			}
		}
		if r.p(20) && f["attributions.txt"] != nil {
			f.add("attributions.txt", Row{"attribution_id": fmt.Sprintf("dupattr%d", k), "trip_id": id, "organization_name": fmt.Sprintf("Org %d", r.n(3)), "is_producer": "1"})
		}
	}
}

func init() {
	register(&Prop{ID: "C09", Quick: 18000,
		Rule: "A random feed with equal, nearly equal and calendar-wise equal, nested, overlapping, adjacent and disjoint copies of trips is run through -I with --red-trips-fuzzy, --red-trips-aggressive and service options. Non-trivial: trips were removed or their dates changed.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{1, 8}
			o.Routes = [2]int{1, 4}
			o.Stops = [2]int{2, 6}
			o.DupTrips = r.pickn(0, 40)
			o.Freq = r.pickn(0, 0, 20)
			o.Aux = 45
			o.Span = [2]int{1, r.pickn(5, 25, 60)}
			o.Parents = r.pickn(30, 90)
			o.AddFlds = r.pickn(0, 0, 60)
			o.SingleStop = r.pickn(0, 0, 10)
			sc := baseScenario(r, o)
			far := r.p(30)
			addTripDups(r, sc.Feeds[0], r.n(10), far)
			sc.Flags = []string{"-I"}
			sc.Flags = append(sc.Flags, flagSet(r, 35, "--red-trips-fuzzy", "--red-trips-aggressive")...)
			sc.Flags = append(sc.Flags, flagSet(r, 15, "-C")...)
			if !far && r.p(15) { // -c is slow on services of several years
				sc.Flags = append(sc.Flags, "-c")
			}
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 4, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if !sc.has("-I") {
				return nil
			}
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			extra, fuzzy := sc.has("-F"), sc.has("--red-trips-fuzzy")
			vs := checkValid(out)
			vs = append(vs, sameRows(in, out, extra, except(contentTables, "trips.txt", "stop_times.txt", "transfers.txt", "attributions.txt")...)...)
			vs = append(vs, tripMerge(in, out, extra, fuzzy, sc.has("--red-trips-aggressive"))...)
			if fmt.Sprint(in.tripDates()) != fmt.Sprint(out.tripDates()) {
				x.nontrivial()
			}
			return vs
		}})
}

func tripMerge(in, out *Mod, extra, fuzzy, aggressive bool) []Viol {
	var vs []Viol
	a, b := in.connections(fuzzy, extra), out.connections(fuzzy, extra)
	vs = append(vs, cmpFacts("connection", asSet(a), asSet(b))...)
	for _, k := range sortedKeys(b) {
		if b[k] > 1 && strings.Count(k, "[") > 1 && !strings.Contains(k, " freq") {
			vs = append(vs, viol("duplicate-left", "%d equal trips run on %s", b[k], k))
			break
		}
	}
	if aggressive {
		seen := map[string]string{}
		for _, id := range sortedKeys(out.trips) {
			if len(out.st[id]) < 2 || len(out.freqs[id]) > 0 {
				continue
			}
			k := out.connKey(id, fuzzy, extra)
			if o, ok := seen[k]; ok {
				vs = append(vs, viol("duplicate-trip-left", "trips %s and %s are equal after aggressive merging", o, id))
				break
			}
			seen[k] = id
		}
	}
	// connections of the input
	type grp struct {
		shapes map[string]bool
		trips  []string
	}
	groups := map[string]*grp{}
	for _, id := range sortedKeys(in.trips) {
		k := in.connKey(id, fuzzy, extra)
		g := groups[k]
		if g == nil {
			g = &grp{shapes: map[string]bool{}}
			groups[k] = g
		}
		g.trips = append(g.trips, id)
		if s := in.trips[id]["shape_id"]; s != "" {
			g.shapes[s] = true
		}
	}
	tc, sc := in.cols("trips.txt", extra), in.cols("stop_times.txt", extra)
	tsk := map[string]bool{"service_id": true, "shape_id": true}
	ssk := map[string]bool{"shape_dist_traveled": true}
	if fuzzy {
		for _, c := range []string{"wheelchair_accessible", "bikes_allowed", "trip_headsign", "trip_short_name"} {
			tsk[c] = true
		}
		for _, c := range in.extraCols("trips.txt") {
			tsk[c] = true
		}
		ssk["stop_headsign"] = true
	}
	for _, id := range sortedKeys(out.trips) {
		t, ok := in.trips[id]
		if !ok {
			return append(vs, viol("new-id:trip", "trip %s is not from the input", id))
		}
		if p, q := in.rowKey("trips.txt", tc, t, tsk), out.rowKey("trips.txt", tc, out.trips[id], tsk); p != q {
			return append(vs, viol("trip-changed", "trip %s was %s and is %s", id, p, q))
		}
		k := in.connKey(id, fuzzy, extra)
		s := out.trips[id]["shape_id"]
		dist := s == t["shape_id"]
		if !dist && (t["shape_id"] != "" || !groups[k].shapes[s]) {
			return append(vs, viol("trip-shape", "trip %s had shape %q and has shape %q", id, t["shape_id"], s))
		}
		if len(in.st[id]) != len(out.st[id]) {
			return append(vs, viol("trip-stops", "trip %s had %d stop times and has %d", id, len(in.st[id]), len(out.st[id])))
		}
		ssk["shape_dist_traveled"] = !dist
		if !dist {
			// it comes with the measures
			of := func(m *Mod, id string) (l []string) {
				for _, r := range m.st[id] {
					l = append(l, nv("stop_times.txt", "shape_dist_traveled", r["shape_dist_traveled"]))
				}
				return
			}
			ok := false
			for _, o := range groups[k].trips {
				ok = ok || in.trips[o]["shape_id"] == s && fmt.Sprint(of(in, o)) == fmt.Sprint(of(out, id))
			}
			if !ok {
				return append(vs, viol("trip-shape-measures", "trip %s got shape %q with the measures %v, which no equal trip with this shape has", id, s, of(out, id)))
			}
		}
		for i := range in.st[id] {
			if p, q := in.rowKey("stop_times.txt", sc, in.st[id][i], ssk), out.rowKey("stop_times.txt", sc, out.st[id][i], ssk); p != q {
				return append(vs, viol("stop-time-changed", "trip %s: stop time %s became %s", id, p, q))
			}
		}
		if len(groups[k].trips) == 1 {
			if p, q := fmt.Sprint(sortedKeys(in.active[t["service_id"]])), fmt.Sprint(sortedKeys(out.active[out.trips[id]["service_id"]])); p != q {
				return append(vs, viol("dates-changed", "trip %s has no equal one, but ran on %s and runs on %s", id, p, q))
			}
		}
		if fuzzy {
			for _, c := range []string{"trip_headsign", "trip_short_name"} {
				if v := out.trips[id][c]; v != t[c] {
					ok := t[c] == ""
					n := false
					for _, o := range groups[k].trips {
						n = n || in.trips[o][c] == v
					}
					if !ok || !n {
						return append(vs, viol("trip-changed", "trip %s: %s was %q and is %q", id, c, t[c], v))
					}
				}
			}
			for _, c := range []string{"wheelchair_accessible", "bikes_allowed"} {
				v, w := nv("trips.txt", c, out.trips[id][c]), nv("trips.txt", c, t[c])
				n := v == w
				for _, o := range groups[k].trips {
					n = n || nv("trips.txt", c, in.trips[o][c]) == v && w != "1"
				}
				if !n {
					return append(vs, viol("trip-changed", "trip %s: %s was %s and is %s", id, c, w, v))
				}
			}
		}
	}
	for k, g := range groups {
		_ = k
		if len(g.trips) == 1 && out.trips[g.trips[0]] == nil {
			vs = append(vs, viol("trip-lost", "trip %s is gone, though it has no equal one", g.trips[0]))
			break
		}
	}
	// transfers
	vs = append(vs, cmpFacts("transfer", in.plainTransfers(), out.plainTransfers())...)
	want := map[string]int{}
	cols := in.cols("transfers.txt", extra)
	for _, r := range in.feed.rows("transfers.txt") {
		gone := false
		for _, c := range []string{"from_trip_id", "to_trip_id"} {
			if r[c] != "" && out.trips[r[c]] == nil {
				gone = true
			}
		}
		if !gone {
			want[in.rowKey("transfers.txt", cols, r, nil)]++
		}
	}
	vs = append(vs, cmpFacts("row:transfers.txt", want, out.rowsOf("transfers.txt", extra))...)
	// attributions follow their trip, unless other trips took over its dates
	mixed := map[string]bool{}
	for k, g := range groups {
		for _, id := range g.trips {
			if fmt.Sprint(in.active[in.trips[id]["service_id"]]) != fmt.Sprint(in.active[in.trips[g.trips[0]]["service_id"]]) {
				mixed[k] = true
			}
		}
	}
	at := func(m *Mod) map[string]int {
		o := map[string]int{}
		for _, r := range m.attrs {
			k := ""
			if r["trip_id"] != "" {
				k = m.connKey(r["trip_id"], fuzzy, extra)
				if mixed[k] {
					continue
				}
			}
			o[m.rowKey("attributions.txt", m.cols("attributions.txt", extra), r, map[string]bool{"trip_id": true})+k]++
		}
		return o
	}
	vs = append(vs, cmpFacts("attribution", asSet(at(in)), asSet(at(out)))...)
	return vs
}
