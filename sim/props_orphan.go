package main

import (
	"fmt"
	"strconv"
)

// addOrphans adds things that nothing, or only other orphans, refer to.
func addOrphans(r *rng, f Feed, n int) {
	ensureCols(f["stops.txt"], "location_type", "parent_station", "stop_name")
	ensureCols(f["trips.txt"], "shape_id")
	ensureCols(f["stop_times.txt"], "pickup_type", "drop_off_type", "continuous_pickup", "continuous_drop_off")
	ids := func(file, col string) []string {
		var l []string
		for _, x := range f.rows(file) {
			l = append(l, x[col])
		}
		return l
	}
	one := func(l []string) string {
		if len(l) == 0 {
			return ""
		}
		return l[r.n(len(l))]
	}
	table := func(name string) {
		if f[name] == nil {
			f[name] = &Table{Header: append([]string(nil), schema[name]...)}
		} else {
			ensureCols(f[name], schema[name]...)
		}
	}
	stop := func(id, lt, par string) {
		lat, lon := place(70 + r.n(40))
		c := map[string]string{"stop_id": id, "stop_name": "Orph " + id, "location_type": lt, "parent_station": par, "stop_lat": flt(lat), "stop_lon": flt(lon)}
		f.add("stops.txt", c)
	}
	for k := 0; k < n; k++ {
		id := fmt.Sprintf("orph%d", k)
		switch r.n(12) {
		case 0: // a lone stop
			stop(id, "0", "")
		case 1: // a station with orphaned children of any kind
			stop(id, "1", "")
			for j := 0; j < r.n(3); j++ {
				stop(id+strconv.Itoa(j), r.pick("0", "0", "2", "3"), id)
				if r.p(30) {
					stop(id+"b", "4", id+strconv.Itoa(j))
					if l := f.rows("stops.txt"); l[len(l)-2]["location_type"] != "0" {
						t := f["stops.txt"]
						t.Rows = t.Rows[:len(t.Rows)-1]
					}
					break
				}
			}
		case 2: // orphaned children of an existing station
			for _, s := range f.rows("stops.txt") {
				if s["location_type"] == "1" {
					stop(id, r.pick("0", "2", "3"), s["stop_id"])
					break
				}
			}
		case 3: // a trip that nobody can board, or leave
			c := map[string]string{"trip_id": id, "route_id": one(ids("routes.txt", "route_id")), "service_id": one(ids("trips.txt", "service_id"))}
			f.add("trips.txt", c)
			stops := []string{}
			for _, s := range f.rows("stops.txt") {
				if s["location_type"] == "" || s["location_type"] == "0" {
					stops = append(stops, s["stop_id"])
				}
			}
			a, b, cp, cd := r.pick("1", "1", "", "0"), r.pick("1", "1", "", "2"), r.pick("", "", "1", "0", "2", "3"), r.pick("", "", "1", "2", "0", "3")
			for j := 0; j < r.n(4); j++ {
				f.add("stop_times.txt", map[string]string{"trip_id": id, "stop_id": one(stops), "stop_sequence": strconv.Itoa(j), "arrival_time": hms(36000 + 1200*j), "departure_time": hms(36000 + 1200*j),
					"pickup_type": a, "drop_off_type": b, "continuous_pickup": cp, "continuous_drop_off": cd})
				if r.p(30) {
					a = r.pick("0", "1")
				}
				if r.p(30) {
					b = r.pick("0", "1")
				}
			}
		case 4: // a route, with or without a fare rule
			c := map[string]string{"route_id": id, "agency_id": one(ids("agency.txt", "agency_id")), "route_short_name": id, "route_type": "3"}
			ensureCols(f["routes.txt"], "route_short_name", "agency_id")
			f.add("routes.txt", c)
			if f["fare_rules.txt"] != nil && len(ids("fare_attributes.txt", "fare_id")) > 0 && r.p(50) {
				ensureCols(f["fare_rules.txt"], "route_id")
				f.add("fare_rules.txt", map[string]string{"fare_id": one(ids("fare_attributes.txt", "fare_id")), "route_id": id})
			}
		case 5:
			table("agency.txt")
			f.add("agency.txt", map[string]string{"agency_id": id, "agency_name": "Ag " + id, "agency_url": "http://o.example.org/", "agency_timezone": f.rows("agency.txt")[0]["agency_timezone"]})
			t := f["routes.txt"]
			ensureCols(t, "agency_id")
			for _, row := range t.Rows {
				if row[t.col("agency_id")] == "" {
					row[t.col("agency_id")] = f.rows("agency.txt")[0]["agency_id"]
				}
			}
			if t := f["fare_attributes.txt"]; t != nil {
				ensureCols(t, "agency_id")
				for _, row := range t.Rows {
					if row[t.col("agency_id")] == "" {
						row[t.col("agency_id")] = f.rows("agency.txt")[0]["agency_id"]
					}
				}
			}
		case 6:
			table("calendar.txt")
			f.add("calendar.txt", map[string]string{"service_id": id, "monday": "1", "tuesday": "0", "wednesday": "0", "thursday": "1", "friday": "0", "saturday": "0", "sunday": "0", "start_date": "20200101", "end_date": "20200210"})
		case 7:
			table("shapes.txt")
			for j := 0; j < 3; j++ {
				f.add("shapes.txt", map[string]string{"shape_id": id, "shape_pt_lat": flt(48 + float64(j)*0.01), "shape_pt_lon": "8.1", "shape_pt_sequence": strconv.Itoa(j)})
			}
		case 8, 9: // transfers from, to and between anything
			table("transfers.txt")
			var l []string
			for _, s := range f.rows("stops.txt") {
				if s["location_type"] == "" || s["location_type"] == "0" || s["location_type"] == "1" {
					l = append(l, s["stop_id"])
				}
			}
			c := map[string]string{"from_stop_id": one(l), "to_stop_id": one(l), "transfer_type": "2", "min_transfer_time": strconv.Itoa(100 + k)}
			if r.p(30) {
				c["from_route_id"] = one(ids("routes.txt", "route_id"))
			}
			if r.p(30) {
				c["to_route_id"] = one(ids("routes.txt", "route_id"))
			}
			if r.p(20) {
				c["from_trip_id"] = one(ids("trips.txt", "trip_id"))
			}
			if r.p(20) {
				c["to_trip_id"] = one(ids("trips.txt", "trip_id"))
			}
			f.add("transfers.txt", c)
		case 10: // a pathway
			table("pathways.txt")
			var l []string
			for _, s := range f.rows("stops.txt") {
				if s["location_type"] != "1" {
					l = append(l, s["stop_id"])
				}
			}
			a, b := one(l), one(l)
			if a != b && a != "" && b != "" {
				f.add("pathways.txt", map[string]string{"pathway_id": id, "from_stop_id": a, "to_stop_id": b, "pathway_mode": "1", "is_bidirectional": "0"})
			}
		case 11: // attributions of orphans
			table("attributions.txt")
			c := map[string]string{"organization_name": "Org " + id, "is_producer": "1"}
			switch r.n(3) {
			case 0:
				c["route_id"] = one(ids("routes.txt", "route_id"))
			case 1:
				c["trip_id"] = one(ids("trips.txt", "trip_id"))
			case 2:
				c["agency_id"] = one(ids("agency.txt", "agency_id"))
			}
			f.add("attributions.txt", c)
		}
	}
	if t := f["attributions.txt"]; t != nil && len(t.Rows) == 0 {
		delete(f, "attributions.txt")
	}
	dedupTransfers(f)
}

func init() {
	register(&Prop{ID: "C06", Quick: 21000,
		Rule: "A random feed with orphans of all kinds (lone stops, empty stations, nodes, trips nobody can board, unused routes, agencies, services, shapes, transfers and pathways into them) is run through -O. Non-trivial: something was removed and a trip remains.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{1, 6}
			o.Stops = [2]int{2, 7}
			o.Aux = r.pickn(30, 60, 90)
			o.Orphans = 50
			o.Dup = r.pickn(0, 30)
			o.AddFlds = r.pickn(0, 0, 60)
			sc := baseScenario(r, o)
			if r.p(30) {
				addPlaces(r, sc.Feeds[0], 1+r.n(3))
			}
			addOrphans(r, sc.Feeds[0], r.n(8))
			sc.Flags = []string{"-O"}
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 4, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if !sc.has("-O") {
				return nil
			}
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			vs := checkValid(out)
			vs = append(vs, orphans(in, out, sc.has("-F"))...)
			if len(in.stops)+len(in.trips)+len(in.services)+len(in.routes)+len(in.agency)+len(in.shapes)+tableLen(in.feed, "transfers.txt") !=
				len(out.stops)+len(out.trips)+len(out.services)+len(out.routes)+len(out.agency)+len(out.shapes)+tableLen(out.feed, "transfers.txt") && len(out.trips) > 0 {
				x.nontrivial()
			}
			return vs
		}})
}

// usable trips can be boarded and left.
func (m *Mod) usable(id string) bool {
	up, off := false, false
	rt := m.routes[m.trips[id]["route_id"]]
	for _, s := range m.st[id] {
		if s["drop_off_type"] != "1" || nv("stop_times.txt", "continuous_drop_off", s["continuous_drop_off"]) != "1" || nv("routes.txt", "continuous_drop_off", rt["continuous_drop_off"]) != "1" {
			off = true
		}
		if s["pickup_type"] != "1" || nv("stop_times.txt", "continuous_pickup", s["continuous_pickup"]) != "1" || nv("routes.txt", "continuous_pickup", rt["continuous_pickup"]) != "1" {
			up = true
		}
	}
	return up && off
}

func orphans(in, out *Mod, extra bool) []Viol {
	var vs []Viol
	// what has to be left, by id
	trips, stops, routes, services, shapes, agencies := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	used := map[string]bool{} // served stops and their stations
	for id, t := range in.trips {
		if !in.usable(id) {
			continue
		}
		trips[id] = true
		routes[t["route_id"]] = true
		services[t["service_id"]] = true
		if t["shape_id"] != "" {
			shapes[t["shape_id"]] = true
		}
		for _, s := range in.st[id] {
			stops[s["stop_id"]] = true
			used[s["stop_id"]] = true
			if p := in.stops[s["stop_id"]]["parent_station"]; p != "" {
				used[p] = true
			}
		}
	}
	served := map[string]bool{}
	for id := range routes {
		served[id] = true
	}
	for _, r := range in.feed.rows("fare_rules.txt") {
		if r["route_id"] != "" {
			routes[r["route_id"]] = true
		}
	}
	for id := range routes {
		agencies[in.routes[id]["agency_id"]] = true
		if in.routes[id]["agency_id"] == "" {
			for a := range in.agency {
				agencies[a] = true
			}
		}
	}
	for _, r := range in.fares {
		if r["agency_id"] != "" {
			agencies[r["agency_id"]] = true
		} else if len(in.agency) == 1 {
			for a := range in.agency {
				agencies[a] = true
			}
		}
	}
	for id, r := range in.stops {
		if r["location_type"] == "2" {
			stops[id] = true
		}
	}
	for _, r := range in.pathways {
		stops[r["from_stop_id"]] = true
		stops[r["to_stop_id"]] = true
	}
	// transfers
	tk := func(m *Mod, drop func(Row) bool) map[string]int {
		o := map[string]int{}
		for _, r := range m.feed.rows("transfers.txt") {
			if drop == nil || !drop(r) {
				o[m.rowKey("transfers.txt", m.cols("transfers.txt", extra), r, nil)] = 1
			}
		}
		return o
	}
	all := func(r Row, f func(kind, id string) bool) bool {
		for _, d := range []string{"from", "to"} {
			for _, k := range []string{"stop", "route", "trip"} {
				if id := r[d+"_"+k+"_id"]; id != "" && !f(k, id) {
					return false
				}
			}
		}
		return true
	}
	must := tk(in, func(r Row) bool {
		return !all(r, func(k, id string) bool {
			return k == "stop" && used[id] || k == "route" && served[id] || k == "trip" && trips[id]
		})
	})
	got := tk(out, nil)
	for _, k := range sortedKeys(must) {
		if must[k] > 0 && got[k] == 0 {
			vs = append(vs, viol("transfer-lost", "a transfer between served places is missing: %s", k))
			break
		}
	}
	for _, k := range sortedKeys(got) {
		if must[k] == 0 {
			vs = append(vs, viol("transfer-added", "a transfer is not from the input, or names something without trips: %s", k))
			break
		}
	}
	for _, r := range out.feed.rows("transfers.txt") {
		for _, c := range []string{"from_stop_id", "to_stop_id"} {
			if r[c] != "" {
				stops[r[c]] = true
			}
		}
	}
	for again := true; again; {
		again = false
		for id := range stops {
			if p := in.stops[id]["parent_station"]; p != "" && !stops[p] {
				stops[p] = true
				again = true
			}
		}
	}
	cmp := func(kind string, want map[string]bool, got []string) {
		g := map[string]bool{}
		for _, id := range got {
			g[id] = true
			if !want[id] {
				vs = append(vs, viol("orphan-left:"+kind, "%s %q is left, but nothing uses it", kind, id))
				return
			}
		}
		for _, id := range sortedKeys(want) {
			if !g[id] {
				vs = append(vs, viol("lost:"+kind, "%s %q is used, but gone", kind, id))
				return
			}
		}
	}
	cmp("trip", trips, sortedKeys(out.trips))
	cmp("stop", stops, sortedKeys(out.stops))
	cmp("route", routes, sortedKeys(out.routes))
	for id := range services {
		// a service that never runs leaves no trace in a feed
		if len(in.active[id]) == 0 && !out.services[id] {
			delete(services, id)
		}
	}
	cmp("service", services, sortedKeys(out.services))
	cmp("shape", shapes, sortedKeys(out.shapes))
	cmp("agency", agencies, sortedKeys(out.agency))
	// and has its values
	keep := func(file, col string, ok map[string]bool) {
		w := map[string]int{}
		for _, r := range in.feed.rows(file) {
			if ok == nil || r[col] == "" || ok[r[col]] {
				w[in.rowKey(file, in.cols(file, extra), r, nil)]++
			}
		}
		g := out.rowsOf(file, extra)
		vs = append(vs, cmpFacts("row:"+file, w, g)...)
	}
	keep("trips.txt", "trip_id", trips)
	keep("stop_times.txt", "trip_id", trips)
	keep("frequencies.txt", "trip_id", trips)
	keep("stops.txt", "stop_id", stops)
	keep("routes.txt", "route_id", routes)
	if len(out.agency) > 1 || len(in.agency) == 1 {
		keep("fare_attributes.txt", "fare_id", nil)
	}
	keep("shapes.txt", "shape_id", shapes)
	keep("agency.txt", "agency_id", agencies)
	keep("fare_rules.txt", "fare_id", nil)
	keep("pathways.txt", "pathway_id", nil)
	keep("feed_info.txt", "feed_lang", nil)
	w := map[string]int{}
	for _, r := range in.attrs {
		if (r["trip_id"] == "" || trips[r["trip_id"]]) && (r["route_id"] == "" || routes[r["route_id"]]) && (r["agency_id"] == "" || agencies[r["agency_id"]]) {
			w[in.rowKey("attributions.txt", in.cols("attributions.txt", extra), r, nil)]++
		}
	}
	vs = append(vs, cmpFacts("row:attributions.txt", w, out.rowsOf("attributions.txt", extra))...)
	a, b := map[string]int{}, map[string]int{}
	for id := range services {
		if len(in.active[id]) > 0 {
			a[id+":"+dateKey(in.active[id])] = 1
		}
	}
	for id := range out.services {
		if len(out.active[id]) > 0 {
			b[id+":"+dateKey(out.active[id])] = 1
		}
	}
	vs = append(vs, cmpFacts("calendar", a, b)...)
	for _, id := range sortedKeys(out.levels) {
		if in.levels[id] == nil || in.rowKey("levels.txt", in.cols("levels.txt", extra), in.levels[id], nil) != out.rowKey("levels.txt", out.cols("levels.txt", extra), out.levels[id], nil) {
			vs = append(vs, viol("changed:levels.txt", "level %q is not as in the input", id))
		}
	}
	return vs
}
