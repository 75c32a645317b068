package main

import (
	"encoding/json"
	"os"
	"strconv"
	"time"
)

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

// nfFor gives how coarse a comparison the options of a run call for.
func nfFor(sc *Scenario) *NFOpt {
	o := &NFOpt{}
	if sc.has("-P", "--compress", "--Compress", "--merge", "--Merge") {
		o.RoundStop = true
	}
	if sc.has("-R", "--compress", "--Compress", "--merge", "--Merge") {
		o.NoSort = true
	}
	if sc.has("-I", "--compress", "--Compress", "--merge", "--Merge") {
		o.Set = true
		o.NoShape = true
		o.Merge = true
	}
	if sc.has("-S", "-s", "-m", "--compress", "--Compress", "--merge", "--Merge", "--drop-shapes") {
		o.NoShape = true
	}
	return o
}

// checkValid: the feed is well-formed by the GTFS reference: unique keys, no
// dangling references, legal values.
func checkValid(m *Mod) []Viol {
	var vs []Viol
	f := m.feed
	for _, n := range []string{"agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"} {
		if f[n] == nil {
			vs = append(vs, viol("missing-file:"+n, "%s is missing", n))
		}
	}
	if f["calendar.txt"] == nil && f["calendar_dates.txt"] == nil && len(m.trips) > 0 {
		vs = append(vs, viol("missing-file:calendar", "neither calendar.txt nor calendar_dates.txt"))
	}
	uniq := func(file string, cols ...string) {
		seen := map[string]bool{}
		for _, r := range f.rows(file) {
			k := ""
			for _, c := range cols {
				k += "\x00" + r[c]
			}
			if seen[k] {
				vs = append(vs, viol("duplicate-key:"+file, "%s has two entries for %q", file, k))
				return
			}
			seen[k] = true
		}
	}
	uniq("agency.txt", "agency_id")
	uniq("stops.txt", "stop_id")
	uniq("routes.txt", "route_id")
	uniq("trips.txt", "trip_id")
	uniq("calendar.txt", "service_id")
	uniq("calendar_dates.txt", "service_id", "date")
	uniq("stop_times.txt", "trip_id", "stop_sequence")
	uniq("shapes.txt", "shape_id", "shape_pt_sequence")
	uniq("levels.txt", "level_id")
	uniq("pathways.txt", "pathway_id")
	uniq("fare_attributes.txt", "fare_id")
	uniq("frequencies.txt", "trip_id", "start_time")
	uniq("transfers.txt", "from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id")
	uniq("fare_rules.txt", "fare_id", "route_id", "origin_id", "destination_id", "contains_id")
	ref := func(file, col string, opt bool, ok func(string) bool) {
		if f[file] == nil {
			return
		}
		for _, r := range f.rows(file) {
			v := r[col]
			if v == "" && opt {
				continue
			}
			if !ok(v) {
				vs = append(vs, viol("dangling:"+file+":"+col, "%s: %s %q does not exist (row %v)", file, col, v, r))
				return
			}
		}
	}
	has := func(mm map[string]Row) func(string) bool {
		return func(s string) bool { _, ok := mm[s]; return ok }
	}
	ref("routes.txt", "agency_id", len(m.agency) == 1, has(m.agency))
	ref("trips.txt", "route_id", false, has(m.routes))
	ref("trips.txt", "service_id", false, func(s string) bool { return m.services[s] })
	ref("trips.txt", "shape_id", true, func(s string) bool { return len(m.shapes[s]) > 0 })
	ref("stop_times.txt", "trip_id", false, has(m.trips))
	ref("stop_times.txt", "stop_id", false, has(m.stops))
	ref("frequencies.txt", "trip_id", false, has(m.trips))
	ref("stops.txt", "parent_station", true, has(m.stops))
	ref("stops.txt", "level_id", true, has(m.levels))
	ref("fare_attributes.txt", "agency_id", true, has(m.agency))
	ref("fare_rules.txt", "fare_id", false, has(m.fares))
	ref("fare_rules.txt", "route_id", true, has(m.routes))
	for _, c := range []string{"from", "to"} {
		ref("transfers.txt", c+"_stop_id", true, has(m.stops))
		ref("transfers.txt", c+"_route_id", true, has(m.routes))
		ref("transfers.txt", c+"_trip_id", true, has(m.trips))
		ref("pathways.txt", c+"_stop_id", false, has(m.stops))
	}
	ref("attributions.txt", "agency_id", true, has(m.agency))
	ref("attributions.txt", "route_id", true, has(m.routes))
	ref("attributions.txt", "trip_id", true, has(m.trips))
	enum := func(file, col string, lo, hi int) {
		for _, r := range f.rows(file) {
			v := r[col]
			if v == "" {
				continue
			}
			n, err := strconv.Atoi(v)
			if err != nil || n < lo || n > hi {
				vs = append(vs, viol("range:"+file+":"+col, "%s: %s is %q", file, col, v))
				return
			}
		}
	}
	enum("stops.txt", "location_type", 0, 4)
	enum("stops.txt", "wheelchair_boarding", 0, 2)
	enum("stop_times.txt", "pickup_type", 0, 3)
	enum("stop_times.txt", "drop_off_type", 0, 3)
	enum("stop_times.txt", "stop_sequence", 0, 1<<31-1)
	enum("stop_times.txt", "timepoint", 0, 1)
	enum("trips.txt", "direction_id", 0, 1)
	enum("calendar_dates.txt", "exception_type", 1, 2)
	enum("frequencies.txt", "headway_secs", 1, 1<<31-1)
	enum("frequencies.txt", "exact_times", 0, 1)
	enum("transfers.txt", "transfer_type", 0, 5)
	for _, d := range []string{"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"} {
		for _, r := range f.rows("calendar.txt") {
			if r[d] != "0" && r[d] != "1" {
				vs = append(vs, viol("range:calendar.txt", "calendar.txt: %s is %q", d, r[d]))
				break
			}
		}
	}
	dateOK := func(file, col string, opt bool) {
		for _, r := range f.rows(file) {
			if r[col] == "" && opt {
				continue
			}
			if _, err := time.Parse("20060102", r[col]); err != nil {
				vs = append(vs, viol("date:"+file+":"+col, "%s: %s is %q", file, col, r[col]))
				return
			}
		}
	}
	dateOK("calendar.txt", "start_date", false)
	dateOK("calendar.txt", "end_date", false)
	dateOK("calendar_dates.txt", "date", false)
	dateOK("feed_info.txt", "feed_start_date", true)
	for _, r := range f.rows("calendar.txt") {
		if r["end_date"] < r["start_date"] {
			vs = append(vs, viol("calendar-order", "calendar.txt: service %s ends before it starts", r["service_id"]))
			break
		}
	}
	for id, l := range m.st {
		prev := -1
		for i, r := range l {
			a, ok1 := secs(r["arrival_time"])
			d, ok2 := secs(r["departure_time"])
			if r["arrival_time"] != "" && !ok1 || r["departure_time"] != "" && !ok2 || ok1 != ok2 {
				vs = append(vs, viol("time", "trip %s: bad time %q/%q", id, r["arrival_time"], r["departure_time"]))
				break
			}
			if !ok1 {
				if i == 0 || i == len(l)-1 {
					vs = append(vs, viol("time-missing", "trip %s has no time at its first or last stop", id))
					break
				}
				continue
			}
			if a < prev || d < a {
				vs = append(vs, viol("time-order", "trip %s: times decrease at stop sequence %s", id, r["stop_sequence"]))
				break
			}
			prev = d
		}
		pd := -1.0
		for _, r := range l {
			if x, ok := f32(r["shape_dist_traveled"]); ok && r["shape_dist_traveled"] != "" {
				if x < pd {
					vs = append(vs, viol("stop-dist-order", "trip %s: shape_dist_traveled decreases to %v", id, x))
					break
				}
				pd = x
			}
		}
	}
	for id, l := range m.shapes {
		pd := -1.0
		for _, p := range l {
			if p.hasDist {
				if p.dist < pd {
					vs = append(vs, viol("shape-dist-order", "shape %s: shape_dist_traveled decreases to %v", id, p.dist))
					break
				}
				pd = p.dist
			}
		}
	}
	for id, l := range m.freqs {
		for _, r := range l {
			s, ok1 := secs(r["start_time"])
			e, ok2 := secs(r["end_time"])
			if !ok1 || !ok2 || e < s {
				vs = append(vs, viol("frequency-range", "trip %s: frequency from %s to %s", id, r["start_time"], r["end_time"]))
				break
			}
		}
	}
	for id, r := range m.stops {
		if lt := nv("stops.txt", "location_type", r["location_type"]); lt == "1" && r["parent_station"] != "" {
			vs = append(vs, viol("station-parent", "station %s has a parent", id))
		} else if p := r["parent_station"]; p != "" && m.stops[p] != nil {
			pl := nv("stops.txt", "location_type", m.stops[p]["location_type"])
			if lt == "4" && pl != "0" || lt != "4" && pl != "1" {
				vs = append(vs, viol("parent-type", "stop %s (location_type %s) has a parent of location_type %s", id, lt, pl))
			}
		}
	}
	return vs
}

func checkJourneys(in, out *Mod, o *NFOpt) []Viol {
	miss, extra := diffFacts(in.journeys(o), out.journeys(o))
	var vs []Viol
	if len(miss) > 0 {
		vs = append(vs, viol("journey-lost", "%d journeys of the input are missing, e.g. %s", len(miss), head(miss[0], 900)))
	}
	if len(extra) > 0 {
		vs = append(vs, viol("journey-added", "%d journeys are not in the input, e.g. %s", len(extra), head(extra[0], 900)))
	}
	return vs
}
