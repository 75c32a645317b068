package main

import (
	"encoding/json"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
)

// mut is one error put into a valid feed: a cell, a row, a column or a file.
type mut struct {
	File  string            `json:"f"`
	Key   map[string]string `json:"k,omitempty"` // the row, by its key columns
	Col   string            `json:"c,omitempty"`
	Val   string            `json:"v,omitempty"`
	Class string            `json:"class"`
}

func (m mut) String() string {
	b, _ := json.Marshal(m)
	return string(b)
}

// Classes of errors:
//
//	req    the row cannot be used
//	opt    an optional value; with -e the default takes its place
//	empty  a missing text; -p supplies one
//	name   a route without any name; -e gives it one
//	cur    a fare without a currency; with -e it is XXX
//	null   coordinates at (0, 0), an error only with -n
//	ref    a reference to something that does not exist
//	tz     an agency in another timezone than the first one
//	dup    the row is there twice
//	cut    the row ends before a required value
//	column a required column is missing
//	file   a required file is missing
type cellErr struct {
	file, col string
	vals      []string
	class     string
}

var cellErrs = []cellErr{
	{"agency.txt", "agency_name", []string{""}, "empty"},
	{"agency.txt", "agency_url", []string{"", "%zz"}, "req"},
	{"agency.txt", "agency_timezone", []string{"", "Nowhere/City"}, "req"},
	{"agency.txt", "agency_timezone", []string{"Asia/Tokyo"}, "tz"},
	{"agency.txt", "agency_lang", []string{"zzzzzz"}, "opt"},
	{"agency.txt", "agency_fare_url", []string{"%zz"}, "opt"},
	{"agency.txt", "agency_email", []string{"@@"}, "opt"},
	{"feed_info.txt", "feed_publisher_name", []string{""}, "empty"},
	{"feed_info.txt", "feed_publisher_url", []string{"", "%zz"}, "req"},
	{"feed_info.txt", "feed_lang", []string{""}, "empty"},
	{"feed_info.txt", "feed_start_date", []string{"2024", "20241301", "yesterday"}, "opt"},
	{"feed_info.txt", "feed_contact_email", []string{"@@"}, "opt"},
	{"levels.txt", "level_id", []string{""}, "req"},
	{"levels.txt", "level_index", []string{"x"}, "opt"},
	{"stops.txt", "stop_id", []string{""}, "req"},
	{"stops.txt", "stop_lat", []string{"", "abc", "91.5", "-90.01", "1e9"}, "req"},
	{"stops.txt", "stop_lon", []string{"", "abc", "181", "-180.5"}, "req"},
	{"stops.txt", "stop_lat", []string{"0"}, "null"},
	{"stops.txt", "stop_name", []string{""}, "empty"},
	{"stops.txt", "location_type", []string{"9", "x", "-1", "5"}, "opt"},
	{"stops.txt", "wheelchair_boarding", []string{"7", "x", "-1", "3"}, "opt"},
	{"stops.txt", "stop_timezone", []string{"Nowhere/City"}, "opt"},
	{"stops.txt", "stop_url", []string{"%zz"}, "opt"},
	{"stops.txt", "level_id", []string{"no such level"}, "ref"},
	{"stops.txt", "parent_station", []string{"no such station"}, "ref"},
	{"routes.txt", "route_id", []string{""}, "req"},
	{"routes.txt", "agency_id", []string{"no such agency"}, "ref"},
	{"routes.txt", "route_type", []string{"", "abc", "-1", "1703", "99999999999999999999"}, "req"},
	{"routes.txt", "route_color", []string{"zz", "12345G", "#FF0000"}, "opt"},
	{"routes.txt", "route_text_color", []string{"white", "12345"}, "opt"},
	{"routes.txt", "route_url", []string{"%zz"}, "opt"},
	{"routes.txt", "route_sort_order", []string{"-3", "x"}, "opt"},
	{"routes.txt", "continuous_pickup", []string{"4", "x"}, "opt"},
	{"routes.txt", "continuous_drop_off", []string{"-1", "x"}, "opt"},
	{"routes.txt", "route_short_name", []string{""}, "name"},
	{"calendar.txt", "service_id", []string{""}, "req"},
	{"calendar.txt", "monday", []string{"2", "x", ""}, "opt"},
	{"calendar.txt", "sunday", []string{"-1", "x"}, "opt"},
	{"calendar.txt", "start_date", []string{"", "2024", "20241301", "20240132", "2024011x", "21560101"}, "req"},
	{"calendar.txt", "end_date", []string{"", "2024", "18991231", "19000101", "abcdefgh"}, "req"},
	{"calendar_dates.txt", "service_id", []string{""}, "req"},
	{"calendar_dates.txt", "date", []string{"", "2024", "20240001", "20240100"}, "req"},
	{"calendar_dates.txt", "exception_type", []string{"", "0", "3", "x"}, "req"},
	{"trips.txt", "trip_id", []string{""}, "req"},
	{"trips.txt", "route_id", []string{"", "no such route"}, "ref"},
	{"trips.txt", "service_id", []string{"", "no such service"}, "ref"},
	{"trips.txt", "shape_id", []string{"no such shape"}, "ref"},
	{"trips.txt", "direction_id", []string{"2", "x", "-1"}, "opt"},
	{"trips.txt", "wheelchair_accessible", []string{"3", "x"}, "opt"},
	{"trips.txt", "bikes_allowed", []string{"3", "x"}, "opt"},
	{"stop_times.txt", "trip_id", []string{"", "no such trip"}, "ref"},
	{"stop_times.txt", "stop_id", []string{"", "no such stop"}, "ref"},
	{"stop_times.txt", "arrival_time", []string{"8:0", "abc", "12:00", "128:00:00", "1a:00:00", "127:59:59"}, "req"},
	{"stop_times.txt", "departure_time", []string{"8:0", "abc", "::", "00:00:00"}, "req"},
	{"stop_times.txt", "departure_time", []string{"08:75:00", "08:00:61"}, "range"},
	{"stop_times.txt", "stop_sequence", []string{"", "-1", "x", "2147483648"}, "req"},
	{"stop_times.txt", "pickup_type", []string{"4", "x", "-1"}, "req"},
	{"stop_times.txt", "drop_off_type", []string{"4", "x"}, "req"},
	{"stop_times.txt", "continuous_pickup", []string{"9", "x"}, "opt"},
	{"stop_times.txt", "shape_dist_traveled", []string{"x"}, "opt"},
	{"stop_times.txt", "timepoint", []string{"2", "x"}, "opt"},
	{"frequencies.txt", "trip_id", []string{"", "no such trip"}, "ref"},
	{"frequencies.txt", "headway_secs", []string{"", "-5", "x"}, "req"},
	{"frequencies.txt", "exact_times", []string{"2", "x"}, "opt"},
	{"frequencies.txt", "start_time", []string{"abc", "99:00:00"}, "req"},
	{"frequencies.txt", "end_time", []string{"abc"}, "req"},
	{"fare_attributes.txt", "fare_id", []string{""}, "req"},
	{"fare_attributes.txt", "currency_type", []string{""}, "cur"},
	{"fare_attributes.txt", "payment_method", []string{"2", "x"}, "req"},
	{"fare_attributes.txt", "transfers", []string{"3", "x"}, "opt"},
	{"fare_attributes.txt", "transfer_duration", []string{"-1", "x"}, "req"},
	{"fare_attributes.txt", "agency_id", []string{"no such agency"}, "ref"},
	{"fare_rules.txt", "fare_id", []string{"", "no such fare"}, "ref"},
	{"fare_rules.txt", "route_id", []string{"no such route"}, "ref"},
	{"shapes.txt", "shape_id", []string{""}, "req"},
	{"shapes.txt", "shape_pt_lat", []string{"", "abc", "91", "-91"}, "req"},
	{"shapes.txt", "shape_pt_lat", []string{"0"}, "null"},
	{"shapes.txt", "shape_pt_lon", []string{"", "abc", "181", "-181"}, "req"},
	{"shapes.txt", "shape_pt_sequence", []string{"", "-1", "x"}, "req"},
	{"shapes.txt", "shape_dist_traveled", []string{"x"}, "opt"},
	{"transfers.txt", "from_stop_id", []string{"no such stop"}, "ref"},
	{"transfers.txt", "to_stop_id", []string{"no such stop"}, "ref"},
	{"transfers.txt", "from_route_id", []string{"no such route"}, "ref"},
	{"transfers.txt", "to_trip_id", []string{"no such trip"}, "ref"},
	{"transfers.txt", "transfer_type", []string{"6", "x", "-1"}, "req"},
	{"transfers.txt", "min_transfer_time", []string{"-2", "x"}, "opt"},
	{"pathways.txt", "pathway_id", []string{""}, "req"},
	{"pathways.txt", "from_stop_id", []string{"", "no such stop"}, "ref"},
	{"pathways.txt", "to_stop_id", []string{"", "no such stop"}, "ref"},
	{"pathways.txt", "pathway_mode", []string{"", "0", "8", "x"}, "req"},
	{"pathways.txt", "is_bidirectional", []string{"", "2", "x"}, "opt"},
	{"pathways.txt", "length", []string{"x"}, "opt"},
	{"pathways.txt", "traversal_time", []string{"-1", "x"}, "opt"},
	{"pathways.txt", "stair_count", []string{"x"}, "opt"},
	{"pathways.txt", "min_width", []string{"-1", "x"}, "opt"},
	{"attributions.txt", "organization_name", []string{""}, "empty"},
	{"attributions.txt", "is_producer", []string{"2", "x"}, "opt"},
	{"attributions.txt", "attribution_url", []string{"%zz"}, "opt"},
	{"attributions.txt", "attribution_email", []string{"@@"}, "opt"},
	{"attributions.txt", "agency_id", []string{"no such agency"}, "ref"},
	{"attributions.txt", "route_id", []string{"no such route"}, "ref"},
	{"attributions.txt", "trip_id", []string{"no such trip"}, "ref"},
}

var keyCols = map[string][]string{"agency.txt": {"agency_id"}, "feed_info.txt": {"feed_publisher_name", "feed_version"}, "levels.txt": {"level_id"}, "stops.txt": {"stop_id"}, "routes.txt": {"route_id"},
	"calendar.txt": {"service_id"}, "calendar_dates.txt": {"service_id", "date"}, "trips.txt": {"trip_id"}, "stop_times.txt": {"trip_id", "stop_sequence"}, "frequencies.txt": {"trip_id", "start_time"},
	"fare_attributes.txt": {"fare_id"}, "fare_rules.txt": {"fare_id", "route_id", "origin_id", "destination_id", "contains_id"}, "shapes.txt": {"shape_id", "shape_pt_sequence"},
	"transfers.txt": {"from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id"}, "pathways.txt": {"pathway_id"}, "attributions.txt": {"attribution_id"}}

var requiredCols = map[string][]string{"agency.txt": {"agency_name", "agency_url", "agency_timezone"}, "stops.txt": {"stop_id", "stop_name", "stop_lat", "stop_lon"}, "routes.txt": {"route_id", "route_type"},
	"calendar.txt": {"service_id", "start_date", "end_date"}, "calendar_dates.txt": {"service_id", "date", "exception_type"}, "trips.txt": {"trip_id", "route_id", "service_id"},
	"stop_times.txt": {"trip_id", "stop_id", "stop_sequence", "arrival_time", "departure_time"}, "frequencies.txt": {"trip_id", "headway_secs", "start_time", "end_time"}, "fare_attributes.txt": {"fare_id"}, "fare_rules.txt": {"fare_id"},
	"shapes.txt": {"shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence"}, "pathways.txt": {"pathway_id", "from_stop_id", "to_stop_id", "pathway_mode"}, "attributions.txt": {"organization_name"}, "levels.txt": {"level_id"}}

// genMut picks one error that the feed can have.
func genMut(r *rng, f Feed) (mut, bool) {
	for try := 0; try < 60; try++ {
		switch {
		case r.p(3):
			return mut{File: r.pick("agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"), Class: "file"}, true
		case r.p(5):
			n := f.files()[r.n(len(f))]
			if cs := requiredCols[n]; len(cs) > 0 && len(f[n].Rows) > 0 {
				return mut{File: n, Col: cs[r.n(len(cs))], Class: "column"}, true
			}
			continue
		}
		var m mut
		if r.p(14) {
			n := f.files()[r.n(len(f))]
			if keyCols[n] == nil || n == "feed_info.txt" || n == "frequencies.txt" || n == "fare_rules.txt" {
				continue
			}
			m = mut{File: n, Class: "dup"}
		} else {
			e := cellErrs[r.n(len(cellErrs))]
			m = mut{File: e.file, Col: e.col, Val: e.vals[r.n(len(e.vals))], Class: e.class}
		}
		t := f[m.File]
		if t == nil || len(t.Rows) == 0 || m.Col != "" && t.col(m.Col) < 0 {
			continue
		}
		row := f.rows(m.File)[r.n(len(t.Rows))]
		m.Key = map[string]string{}
		for _, k := range keyCols[m.File] {
			m.Key[k] = row[k]
		}
		if !fits(m, row, f) {
			continue
		}
		return m, true
	}
	return mut{}, false
}

// alone: errors that come alone, so that what they lead to can be told apart.
func (m mut) alone() bool {
	return m.Class == "range" || m.Col == "feed_start_date" || m.Class == "dup" && (m.File == "trips.txt" || m.File == "calendar.txt" || m.File == "fare_attributes.txt")
}

// complete: the feed has all that the reader asks for.
func complete(f Feed) bool {
	for n, cs := range requiredCols {
		if t := f[n]; t != nil && len(t.Rows) > 0 {
			for _, c := range cs {
				if t.col(c) < 0 {
					return false
				}
			}
		}
	}
	for _, r := range f.rows("routes.txt") {
		if r["route_short_name"]+r["route_long_name"] == "" {
			return false
		}
	}
	for _, r := range f.rows("feed_info.txt") {
		if r["feed_publisher_name"] == "" || r["feed_publisher_url"] == "" || r["feed_lang"] == "" {
			return false
		}
	}
	for _, r := range f.rows("pathways.txt") {
		if r["is_bidirectional"] == "" {
			return false
		}
	}
	for _, r := range f.rows("fare_attributes.txt") {
		if r["currency_type"] == "" {
			return false
		}
	}
	for _, r := range f.rows("stops.txt") {
		if r["stop_name"] == "" && r["location_type"] < "3" {
			return false
		}
	}
	return true
}

// fits: putting m into the row makes it an error.
func fits(m mut, row Row, f Feed) bool {
	lt := row["location_type"]
	switch m.File + " " + m.Col {
	case "stops.txt stop_name", "stops.txt stop_lat", "stops.txt stop_lon":
		return lt != "3" && lt != "4"
	case "stops.txt parent_station":
		return lt != "1"
	case "attributions.txt agency_id", "attributions.txt route_id", "attributions.txt trip_id":
		// a second reference would be an error of its own
		return row[m.Col] != "" || row["agency_id"]+row["route_id"]+row["trip_id"] == ""
	case "calendar.txt end_date":
		return m.Val != "19000101" || row["start_date"] > m.Val
	case "stop_times.txt departure_time":
		a, ok := secs(row["arrival_time"])
		if m.Val == "00:00:00" {
			return ok && a > 0
		}
		return ok && (m.Class != "range" || a <= 8*3600)
	case "stop_times.txt arrival_time":
		d, ok := secs(row["departure_time"])
		return ok && (m.Val != "127:59:59" || d < 127*3600)
	case "frequencies.txt start_time":
		e, _ := secs(row["end_time"])
		return m.Val != "99:00:00" || e < 99*3600
	case "agency.txt agency_timezone":
		if m.Class == "tz" {
			l := f.rows("agency.txt")
			return len(l) > 1 && row["agency_timezone"] != m.Val
		}
	}
	if m.Class == "dup" && m.File == "attributions.txt" {
		return row["attribution_id"] != ""
	}
	return true
}

// errFeed is a feed with errors, and what is known about its rows.
type errFeed struct {
	f    Feed
	errs map[string]map[int][]mut // by file and row
	file bool                     // a required file is missing
	n    int
	cls  []string
}

func (s *Scenario) broken() *errFeed {
	e := &errFeed{f: s.Feeds[0].clone(), errs: map[string]map[int][]mut{}}
	for _, c := range s.Corrupt {
		var m mut
		if json.Unmarshal([]byte(c), &m) != nil {
			continue
		}
		t := e.f[m.File]
		if t == nil {
			continue
		}
		add := func(i int) {
			if e.errs[m.File] == nil {
				e.errs[m.File] = map[int][]mut{}
			}
			e.errs[m.File][i] = append(e.errs[m.File][i], m)
		}
		switch m.Class {
		case "file":
			delete(e.f, m.File)
			delete(e.errs, m.File)
			e.file = true
		case "column":
			ci := t.col(m.Col)
			if ci < 0 || len(t.Rows) == 0 {
				continue
			}
			t.Header[ci] = "x_" + m.Col
			for i := range t.Rows {
				add(i)
			}
		default:
			hit := false
			clean := s.Feeds[0].rows(m.File)
			for i, r := range clean {
				same := true
				for k, v := range m.Key {
					same = same && r[k] == v
				}
				if !same || !fits(m, r, s.Feeds[0]) || m.Class != "dup" && len(e.errs[m.File][i]) > 0 || m.Class != "dup" && t.col(m.Col) < 0 {
					continue
				}
				hit = true
				switch m.Class {
				case "dup":
					// after the first one, and with everything in it
					t.Rows = append(t.Rows, append([]string(nil), t.Rows[i]...))
					for _, x := range e.errs[m.File][i] {
						e.errs[m.File][len(t.Rows)-1] = append(e.errs[m.File][len(t.Rows)-1], x)
					}
				case "null":
					for _, c := range []string{"stop_lat", "stop_lon", "shape_pt_lat", "shape_pt_lon"} {
						if ci := t.col(c); ci >= 0 {
							t.Rows[i][ci] = "0"
						}
					}
					add(i)
				case "name":
					for _, c := range []string{"route_short_name", "route_long_name"} {
						if ci := t.col(c); ci >= 0 {
							t.Rows[i][ci] = ""
						}
					}
					add(i)
				default:
					t.Rows[i][t.col(m.Col)] = m.Val
					add(i)
				}
				break
			}
			if !hit {
				continue
			}
		}
		e.n++
		e.cls = append(e.cls, m.Class+":"+m.File+":"+m.Col)
	}
	return e
}

// expect is the reference model of reading a feed: which rows it has to
// take, with which values, and whether it has to refuse the feed.
func (e *errFeed) expect(useDef, drop, null bool, repl string) (Feed, string) {
	if e.file {
		return nil, "a required file is missing"
	}
	out := e.f.clone()
	refuse := ""
	agencies := map[string]bool{}
	ids := map[string]map[string]string{} // ids that exist: kind -> id -> location type
	has := func(kind, id string) bool { _, ok := ids[kind][id]; return ok }
	set := func(kind, id, v string) {
		if ids[kind] == nil {
			ids[kind] = map[string]string{}
		}
		ids[kind][id] = v
	}
	tz := ""
	table := func(name string, row func(r Row, set func(col, val string)) string) {
		t := out[name]
		if t == nil {
			return
		}
		seen := map[string]bool{}
		var keep [][]string
		for i := range t.Rows {
			bad := ""
			put := func(col, val string) {
				if ci := t.col(col); ci >= 0 {
					t.Rows[i][ci] = val
				}
			}
			for _, m := range e.errs[name][i] {
				why := fmt.Sprintf("%s: %s is %q", name, m.Col, m.Val)
				switch m.Class {
				case "req", "range", "column":
					bad = why
				case "opt":
					def := ""
					if name == "calendar.txt" || m.Col == "is_bidirectional" || m.Col == "level_index" {
						def = "0"
					}
					if useDef {
						put(m.Col, def)
					} else {
						bad = why
					}
				case "empty":
					if repl != "" {
						put(m.Col, repl)
					} else {
						bad = why
					}
				case "name":
					if useDef {
						put("route_short_name", "-")
					} else {
						bad = why
					}
				case "cur":
					if useDef {
						put(m.Col, "XXX")
					} else {
						bad = why
					}
				case "null":
					if null {
						bad = name + ": coordinates at (0, 0)"
					}
				}
			}
			r := Row{}
			for ci, h := range t.Header {
				r[h] = t.Rows[i][ci]
			}
			if bad == "" {
				bad = row(r, put)
			}
			if ks := keyCols[name]; bad == "" && len(ks) > 0 && name != "feed_info.txt" && name != "frequencies.txt" && name != "fare_rules.txt" && !(name == "attributions.txt" && r["attribution_id"] == "") {
				k := ""
				for _, c := range ks {
					k += "\x00" + r[c]
				}
				if seen[k] {
					bad = name + ": duplicate"
				}
				seen[k] = true
			}
			if bad != "" {
				if refuse == "" {
					refuse = bad
				}
				continue
			}
			keep = append(keep, t.Rows[i])
		}
		t.Rows = keep
	}
	table("agency.txt", func(r Row, put func(c, v string)) string {
		if agencies[r["agency_id"]] {
			return "agency.txt: duplicate"
		}
		if tz != "" && r["agency_timezone"] != tz {
			return "agency.txt: different timezones"
		}
		tz = r["agency_timezone"]
		agencies[r["agency_id"]] = true
		return ""
	})
	table("feed_info.txt", func(r Row, put func(c, v string)) string { return "" })
	table("levels.txt", func(r Row, put func(c, v string)) string { set("level", r["level_id"], ""); return "" })
	table("stops.txt", func(r Row, put func(c, v string)) string {
		if l := r["level_id"]; l != "" && !has("level", l) {
			return "stops.txt: no such level"
		}
		lt := nv("stops.txt", "location_type", r["location_type"])
		if lt == "1" && r["parent_station"] != "" {
			return "stops.txt: a station with a parent"
		}
		if lt > "1" && r["parent_station"] == "" {
			return "stops.txt: parent_station is missing"
		}
		set("stop", r["stop_id"], lt)
		return ""
	})
	// parents, until nothing changes any more
	for again := true; again; {
		again = false
		t := out["stops.txt"]
		if t == nil {
			break
		}
		var keep [][]string
		for i, r := range out.rows("stops.txt") {
			p := r["parent_station"]
			lt := nv("stops.txt", "location_type", r["location_type"])
			if p == "" {
				keep = append(keep, t.Rows[i])
				continue
			}
			plt, ok := ids["stop"][p]
			bad := !ok || lt == "4" && plt != "0" || lt != "4" && plt != "1"
			switch {
			case bad && useDef && lt == "0":
				t.Rows[i][t.col("parent_station")] = ""
				keep = append(keep, t.Rows[i])
			case bad:
				if refuse == "" {
					refuse = "stops.txt: no such parent"
				}
				delete(ids["stop"], r["stop_id"])
				again = true
			default:
				keep = append(keep, t.Rows[i])
			}
		}
		t.Rows = keep
	}
	table("shapes.txt", func(r Row, put func(c, v string)) string { set("shape", r["shape_id"], ""); return "" })
	table("routes.txt", func(r Row, put func(c, v string)) string {
		a := r["agency_id"]
		if a == "" && len(agencies) != 1 || a != "" && !agencies[a] && !(useDef && len(agencies) == 1) {
			return "routes.txt: no such agency"
		}
		if a != "" && !agencies[a] {
			for id := range agencies {
				put("agency_id", id)
			}
		}
		set("route", r["route_id"], "")
		return ""
	})
	table("calendar.txt", func(r Row, put func(c, v string)) string { set("service", r["service_id"], ""); return "" })
	table("calendar_dates.txt", func(r Row, put func(c, v string)) string { set("service", r["service_id"], ""); return "" })
	table("trips.txt", func(r Row, put func(c, v string)) string {
		switch {
		case !has("route", r["route_id"]):
			return "trips.txt: no such route"
		case !has("service", r["service_id"]):
			return "trips.txt: no such service"
		case r["shape_id"] != "" && !has("shape", r["shape_id"]):
			if !useDef {
				return "trips.txt: no such shape"
			}
			put("shape_id", "")
		}
		set("trip", r["trip_id"], "")
		return ""
	})
	table("stop_times.txt", func(r Row, put func(c, v string)) string {
		if !has("trip", r["trip_id"]) {
			return "stop_times.txt: no such trip"
		}
		if !has("stop", r["stop_id"]) || ids["stop"][r["stop_id"]] != "0" {
			return "stop_times.txt: no such stop"
		}
		return ""
	})
	table("fare_attributes.txt", func(r Row, put func(c, v string)) string {
		a := r["agency_id"]
		switch {
		case a == "" && len(agencies) > 1:
			return "fare_attributes.txt: no agency"
		case a != "" && !agencies[a]:
			if !useDef {
				return "fare_attributes.txt: no such agency"
			}
			put("agency_id", "")
		}
		set("fare", r["fare_id"], "")
		return ""
	})
	table("fare_rules.txt", func(r Row, put func(c, v string)) string {
		if !has("fare", r["fare_id"]) || r["route_id"] != "" && !has("route", r["route_id"]) {
			return "fare_rules.txt: no such fare or route"
		}
		return ""
	})
	table("frequencies.txt", func(r Row, put func(c, v string)) string {
		if !has("trip", r["trip_id"]) {
			return "frequencies.txt: no such trip"
		}
		return ""
	})
	table("transfers.txt", func(r Row, put func(c, v string)) string {
		for _, c := range []string{"from_", "to_"} {
			for _, k := range []string{"stop", "route", "trip"} {
				if v := r[c+k+"_id"]; v != "" && !has(k, v) {
					return "transfers.txt: no such " + k
				}
			}
		}
		return ""
	})
	table("pathways.txt", func(r Row, put func(c, v string)) string {
		for _, c := range []string{"from_stop_id", "to_stop_id"} {
			if lt, ok := ids["stop"][r[c]]; !ok || lt == "1" {
				return "pathways.txt: no such stop"
			}
		}
		return ""
	})
	table("attributions.txt", func(r Row, put func(c, v string)) string {
		if a := r["agency_id"]; a != "" && !agencies[a] {
			return "attributions.txt: no such agency"
		}
		if v := r["route_id"]; v != "" && !has("route", v) {
			return "attributions.txt: no such route"
		}
		if v := r["trip_id"]; v != "" && !has("trip", v) {
			return "attributions.txt: no such trip"
		}
		return ""
	})
	if refuse != "" && !drop {
		return nil, refuse
	}
	return out, ""
}

// badOptions are option values that make no sense.
var badOptions = []string{
	"--date-start=2024", "--date-start=20241301", "--date-start=20240100", "--date-start=yesterday", "--date-start=2024010a", "--date-start=202401011", "--date-start=-0240101",
	"--date-end=2024", "--date-end=20240132", "--date-end=21560101", "--date-end=18991231", "--date-end=2024-01-01", "--date-end=20240230",
	"--bounding-box=1,2,3", "--bounding-box=1,2", "--bounding-box=a,b,c,d", "--bounding-box=47.9,7.8,48.1,7.9,48.2,8", "--bounding-box=47,7,48,x", "--bounding-box=1;2;3;4",
	"--polygon=1,2,3", "--polygon=a,b,c,d,e,f", "--polygon=47,7 48,8", "--polygon=,", "--polygon-file=nosuchfile.txt", "--polygon-file=nosuchfile.geojson",
	"--polygon-file=bad.txt", "--polygon-file=bad.json", "--polygon-file=bad.geojson", "--polygon-file=empty.geojson",
	"--keep-mots=bus", "--keep-mots=3,x", "--keep-mots=65539", "--drop-mots=bus", "--drop-mots=3.5", "--drop-mots=-65533", "-M=1,,b", "-N=tram",
	"--zip-compression-level=x", "--zip-compression-level=17", "--zip-compression-level=-5", "--min-headway=x", "--max-headway=1.5", "--no-such-option", "--date-start", "--fix=maybe",
}

func init() {
	register(&Prop{ID: "C17", Quick: 13500,
		Rule: "A valid feed gets up to 4 errors out of a catalogue (values of all columns, references, duplicates, truncated rows, missing columns and files, a folder inside the archive), and is read strictly, with -e, -D, -p, -n, --fix, or with -v; or one option has a malformed value. A reference model of a reader says which rows have to survive. Non-trivial: an error was in the input.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.EmptyTimes = 0
			o.Aux = 75
			o.Freq = r.pickn(0, 20)
			o.Orphans = 30
			o.Trips = [2]int{1, 8}
			o.Stops = [2]int{2, 7}
			o.OrphanLevels = true
			sc := baseScenario(r, o)
			sc.Note = map[string]string{}
			if r.p(50) {
				sc.Pre = genFeed(r, defaultGen())
			}
			if r.p(15) {
				sc.Flags = append(sc.Flags, "-W")
			}
			if r.p(22) {
				sc.Note["option"] = badOptions[r.n(len(badOptions))]
				sc.Files = map[string]string{"bad.txt": "47,7,48", "bad.json": "{\"type\": \"FeatureColl", "bad.geojson": "not json",
					"empty.geojson": `{"type":"FeatureCollection","features":[{"type":"Feature","properties":{},"geometry":{"type":"Polygon","coordinates":[]}}]}`}
				if r.p(20) {
					sc.Flags = append(sc.Flags, "-v")
				}
				if r.p(20) {
					sc.Flags = append(sc.Flags, "--fix")
				}
				return sc
			}
			if r.p(6) {
				sc.InZip[0] = true
				sc.Note["zipdir"] = r.pick("gtfs/", "a/b/")
			}
			fl := ""
			switch r.n(7) {
			case 0, 1: // strict
			case 2:
				fl = "-e"
			case 3:
				fl = "-D"
			case 4:
				fl = "-eD"
			case 5, 6:
				fl = "--fix"
			}
			if r.p(25) {
				sc.Flags = append(sc.Flags, "-v")
			}
			switch fl {
			case "-eD":
				sc.Flags = append(sc.Flags, "-e", "-D")
			case "":
			default:
				sc.Flags = append(sc.Flags, fl)
			}
			if fl != "--fix" {
				for _, x := range []string{"-n", "-z", "--empty-str-repl=-"} {
					if r.p(20) {
						sc.Flags = append(sc.Flags, x)
					}
				}
			}
			if r.p(20) && (fl == "" || fl == "-D") {
				// the broken feed is one of several inputs
				o.AddFlds = 0
				for k := r.rang(1, 2); k > 0; k-- {
					sc.Feeds = append(sc.Feeds, genFeed(r, o))
					sc.InZip = append(sc.InZip, r.p(30))
				}
				sameZone(sc.Feeds)
				sc.Note["pos"] = strconv.Itoa(r.n(len(sc.Feeds)))
				if r.p(30) {
					// and cannot be repaired
					m := mut{File: r.pick("agency.txt", "stops.txt", "routes.txt", "trips.txt", "stop_times.txt"), Class: "file"}
					sc.Corrupt = []string{m.String()}
					return sc
				}
			}
			n := 1 + r.n(4)
			if !strings.Contains(fl, "D") && fl != "--fix" {
				n = 1 + r.n(2)
			}
			if r.p(4) {
				n = 0
			}
			for ; n > 0; n-- {
				m, ok := genMut(r, sc.Feeds[0])
				if !ok {
					continue
				}
				if m.alone() {
					sc.Corrupt = []string{m.String()}
					break
				}
				sc.Corrupt = append(sc.Corrupt, m.String())
			}
			return sc
		},
		Check: checkErrors})
}

func checkErrors(x *Ctx, sc *Scenario) []Viol {
	if len(sc.Corrupt) > 0 {
		if v := checkValid(newMod(sc.Feeds[0])); len(v) > 0 {
			x.st.Skipped++
			return nil
		}
	}
	for _, f := range sc.Feeds {
		if !complete(f) {
			x.st.Skipped++
			return nil
		}
	}
	if opt := sc.Note["option"]; opt != "" {
		c := sc.clone()
		c.Flags = append(c.Flags, opt)
		names := x.prepare(c)
		before := dirBytes(x.w.dir)
		args := x.args(c, names, c.Out)
		if opt == "--date-start" { // the last word, without a value
			args = append(append([]string{}, c.Flags[:len(c.Flags)-1]...), "-o", c.Out, names[0], opt)
		}
		res := x.do(x.w.r, args, c.Sched, c.Faults)
		if v := crashViol(res); len(v) > 0 && !strings.HasPrefix(v[0].Sig, "panic-recovered:") {
			return v
		}
		x.nontrivial()
		x.mark("malformed option")
		if res.Exit == 0 {
			return []Viol{viol("option-accepted:"+opt, "exit status 0 with %s", opt)}
		}
		if strings.TrimSpace(res.Stderr) == "" {
			return []Viol{viol("no-message", "no message for %s", opt)}
		}
		if w := sameTree(before, dirBytes(x.w.dir)); w != "" {
			return []Viol{viol("touched:"+opt, "%s: %s", opt, w)}
		}
		return nil
	}
	e := sc.broken()
	validate := sc.has("-v")
	fix := sc.has("--fix")
	useDef := (sc.has("-e") || fix) && !validate
	drop := (sc.has("-D") || fix) && !validate
	null := sc.has("-n") || fix
	repl, _ := sc.val("--empty-str-repl")
	if fix {
		repl = "-"
	}
	want, why := e.expect(useDef, drop, null, repl)
	if sc.Note["zipdir"] != "" && sc.InZip[0] && !fix && !sc.has("-z") {
		want, why = nil, "the files are in a folder of the archive"
	}
	kind := "several"
	if len(e.cls) == 0 {
		kind = "none"
	} else if len(e.cls) == 1 {
		kind = e.cls[0]
	}
	c := sc.clone()
	c.Feeds[0] = e.f
	pos, _ := strconv.Atoi(sc.Note["pos"])
	for k := 0; k < pos && k+1 < len(c.Feeds); k++ {
		c.Feeds[k], c.Feeds[k+1] = c.Feeds[k+1], c.Feeds[k]
		c.InZip[k], c.InZip[k+1] = c.InZip[k+1], c.InZip[k]
	}
	names := x.prepare(c)
	before := dirBytes(x.w.dir)
	res := x.do(x.w.r, x.args(c, names, c.Out), c.Sched, c.Faults)
	if v := crashViol(res); len(v) > 0 {
		return v
	}
	if e.n > 0 {
		x.nontrivial()
		for _, k := range e.cls {
			x.mark("error in the input: " + k)
		}
	}
	after := dirBytes(x.w.dir)
	if why != "" {
		if res.Exit == 0 {
			return []Viol{viol("accepted:"+kind, "exit status 0, although %s", why)}
		}
		if strings.TrimSpace(res.Stderr) == "" {
			return []Viol{viol("no-message", "exit status %d without a message (%s)", res.Exit, why)}
		}
		if w := sameTree(before, after); w != "" {
			return []Viol{viol("touched:"+kind, "the feed was refused (%s), but %s", why, w)}
		}
		x.mark("refused")
		return nil
	}
	if res.Exit != 0 {
		return []Viol{viol("refused:"+kind, "exit status %d, although nothing is wrong that the options do not take care of: %s", res.Exit, head(res.Stderr, 400))}
	}
	if validate {
		if w := sameTree(before, after); w != "" {
			return []Viol{viol("touched:validate", "-v: %s", w)}
		}
		x.mark("validated")
		return nil
	}
	f, err := x.w.out(sc.Out)
	if err != nil {
		return []Viol{viol("unreadable", "exit status 0, but the output cannot be read: %v", err)}
	}
	in, out := newMod(want), newMod(f)
	if len(sc.Feeds) > 1 {
		// what has to be in the output, under new ids, is a matter of C16
		x.mark("one of several inputs, repaired")
		if a, b := len(want.rows("trips.txt")), len(f.rows("trips.txt")); b < a {
			return []Viol{viol("lost:"+kind, "%d trips in one of the inputs, %d in the output", a, b)}
		}
		return nil
	}
	var vs []Viol
	for _, v := range checkValid(out) {
		if v.Sig == "time-missing" || strings.HasPrefix(v.Sig, "missing-file:calendar") {
			continue
		}
		vs = append(vs, viol("invalid:"+v.Sig+":"+kind, "%s", v.Msg))
	}
	for _, v := range append(sameRows(in, out, false, contentTables...), cmpFacts("calendar", in.calFacts(), out.calFacts())...) {
		vs = append(vs, viol(v.Sig+":"+kind, "%s", v.Msg))
	}
	if len(vs) > 0 && (kind == "opt:feed_info.txt:feed_start_date" || kind == "range:stop_times.txt:departure_time") {
		// one thing, whatever it leads to
		vs = []Viol{viol("not-repaired:"+kind, "%s", vs[0].Msg)}
	}
	if e.n > 0 {
		x.mark("repaired")
	}
	return vs
}

func sameTree(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		if c, ok := b[k]; !ok {
			return filepath.Base(k) + " was removed"
		} else if c != a[k] {
			return filepath.Base(k) + " was changed (" + strconv.Itoa(len(a[k])) + " to " + strconv.Itoa(len(c)) + " bytes)"
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return filepath.Base(k) + " was created"
		}
	}
	return ""
}
