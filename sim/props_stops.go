package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type unionFind map[string]string

func (u unionFind) find(a string) string {
	for {
		p, ok := u[a]
		if !ok || p == a {
			return a
		}
		a = p
	}
}

// union keeps the smaller id, so that classes have stable names.
func (u unionFind) union(a, b string) bool {
	a, b = u.find(a), u.find(b)
	if a == b {
		return false
	}
	if b < a {
		a, b = b, a
	}
	u[b] = a
	return true
}

func (m *Mod) extraCols(file string) []string {
	var add []string
	for _, c := range m.cols(file, true) {
		if !contains(schema[file], c) {
			add = append(add, c)
		}
	}
	return add
}

func (m *Mod) levelKey(id string, extra bool) string {
	if id == "" {
		return ""
	}
	r, ok := m.levels[id]
	if !ok {
		return "!level " + id
	}
	return "L{" + m.rowKey("levels.txt", m.cols("levels.txt", extra), r, map[string]bool{"level_id": true}) + "}"
}

// stopClasses are the largest sets of stops that a merge with the documented
// distances and properties may turn into one stop.
func (m *Mod) stopClasses(extra, fuzzy bool) unionFind {
	u := unionFind{}
	ids := sortedKeys(m.stops)
	dist := func(a, b Row) float64 {
		la, _ := f32(a["stop_lat"])
		lo, _ := f32(a["stop_lon"])
		lb, _ := f32(b["stop_lat"])
		lp, _ := f32(b["stop_lon"])
		return hav(la, lo, lb, lp) * 6378137.0 / 6371000.0
	}
	var add []string
	if extra && !fuzzy {
		add = m.extraCols("stops.txt")
	}
	eq := func(a, b Row) bool {
		for _, c := range []string{"stop_desc", "zone_id", "location_type", "stop_timezone", "wheelchair_boarding"} {
			if nv("stops.txt", c, a[c]) != nv("stops.txt", c, b[c]) {
				return false
			}
		}
		pa, pb := a["parent_station"], b["parent_station"]
		if (pa == "") != (pb == "") || u.find(pa) != u.find(pb) {
			return false
		}
		d := dist(a, b)
		lim := 5.02
		if a["location_type"] == "1" {
			lim = 50.1
		}
		if d > lim {
			return false
		}
		la, lb := m.levelKey(a["level_id"], extra && !fuzzy), m.levelKey(b["level_id"], extra && !fuzzy)
		if !fuzzy {
			for _, c := range append([]string{"stop_code", "stop_name", "stop_url", "platform_code"}, add...) {
				if a[c] != b[c] {
					return false
				}
			}
			return la == lb
		}
		near := d <= 2.52 && pa != ""
		opt := func(x, y string) bool { return x == y || x == "" || y == "" }
		return (near || opt(a["stop_code"], b["stop_code"])) && (near || a["stop_name"] == b["stop_name"]) && opt(a["stop_url"], b["stop_url"]) && opt(la, lb) &&
			(a["platform_code"] == b["platform_code"] || near && opt(a["platform_code"], b["platform_code"]))
	}
	for again := true; again; {
		again = false
		for i, a := range ids {
			for _, b := range ids[i+1:] {
				if u.find(a) != u.find(b) && eq(m.stops[a], m.stops[b]) {
					u.union(a, b)
					again = true
				}
			}
		}
	}
	return u
}

// exactStop names everything about a stop but its id.
func (m *Mod) exactStop(id string, extra bool, d int) string {
	r, ok := m.stops[id]
	if !ok {
		return id
	}
	if d > 3 || r["stop_url"] != "" {
		return "!" + id
	}
	k := m.rowKey("stops.txt", m.cols("stops.txt", extra), r, map[string]bool{"stop_id": true, "parent_station": true, "level_id": true})
	if r["parent_station"] != "" {
		k += " in{" + m.exactStop(r["parent_station"], extra, d+1) + "}"
	}
	return k + m.levelKey(r["level_id"], extra)
}

// clusterStops adds copies of stops nearby, with and without differences, and
// lets part of what refers to the original refer to the copy.
func clusterStops(r *rng, f Feed, n int) {
	t := f["stops.txt"]
	for _, c := range schema["stops.txt"] {
		if t.col(c) < 0 {
			t.Header = append(t.Header, c)
			for i := range t.Rows {
				t.Rows[i] = append(t.Rows[i], "")
			}
		}
	}
	id, lt, par := t.col("stop_id"), t.col("location_type"), t.col("parent_station")
	used := map[string]bool{}
	for _, row := range t.Rows {
		used[row[id]] = true
	}
	fresh := func(base string) string {
		for k := 0; ; k++ {
			s := r.pick(base+"-"+strconv.Itoa(r.n(20)), "de:"+base+":"+strconv.Itoa(r.n(9)), strconv.Itoa(r.n(90)+10*k), "a:b:"+strconv.Itoa(r.n(9)))
			if !used[s] {
				used[s] = true
				return s
			}
		}
	}
	lv := f["levels.txt"]
	for k := 0; k < n && len(t.Rows) > 0; k++ {
		src := t.Rows[r.n(len(t.Rows))]
		row := append([]string(nil), src...)
		old := row[id]
		nid := fresh(old)
		row[id] = nid
		m := r.pickf(0, 0, 1.5, 3, 4, 4.7, 5.4, 30, 46, 55, 300)
		ang := r.n(4)
		la, _ := strconv.ParseFloat(row[t.col("stop_lat")], 64)
		lo, _ := strconv.ParseFloat(row[t.col("stop_lon")], 64)
		switch ang {
		case 0:
			la += m / 111319.0
		case 1:
			la -= m / 111319.0
		case 2:
			lo += m / 75000.0
		case 3:
			lo -= m / 75000.0
		}
		if m > 0 {
			row[t.col("stop_lat")], row[t.col("stop_lon")] = strconv.FormatFloat(la, 'f', 7, 64), strconv.FormatFloat(lo, 'f', 7, 64)
		}
		if r.p(35) {
			c := r.pick("stop_code", "stop_name", "stop_desc", "zone_id", "stop_url", "stop_timezone", "wheelchair_boarding", "level_id", "platform_code", "x_note")
			if j := t.col(c); j >= 0 && !(c == "stop_timezone" && row[par] != "") {
				switch c {
				case "wheelchair_boarding":
					row[j] = r.pick("0", "1", "2")
				case "stop_timezone":
					row[j] = r.pick("Europe/London", "Europe/Berlin", "")
				case "level_id":
					row[j] = ""
					if lv != nil && len(lv.Rows) > 0 && r.p(70) {
						row[j] = lv.Rows[r.n(len(lv.Rows))][lv.col("level_id")]
					}
				case "stop_url":
					row[j] = r.pick("", "http://u.example.org/")
				case "stop_name":
					row[j] = "Cluster " + strconv.Itoa(r.n(3))
				default:
					row[j] = r.pick("", "q"+strconv.Itoa(r.n(3)))
				}
			}
		}
		t.Rows = append(t.Rows, row)
		isStation := row[lt] == "1"
		pct := r.pickn(30, 50, 100)
		swap := func(file string, cols ...string) {
			if f[file] == nil {
				return
			}
			for _, c := range cols {
				j := f[file].col(c)
				if j < 0 {
					continue
				}
				for _, x := range f[file].Rows {
					if x[j] == old && r.p(pct) {
						x[j] = nid
					}
				}
			}
		}
		if !isStation {
			swap("stop_times.txt", "stop_id")
		}
		swap("transfers.txt", "from_stop_id", "to_stop_id")
		swap("pathways.txt", "from_stop_id", "to_stop_id")
		for _, x := range t.Rows {
			if x[par] == old && r.p(pct) {
				x[par] = nid
			}
		}
	}
	dedupTransfers(f)
}

// mirrorStops moves the feed to the prime meridian or the equator and puts some
// of the stops from number n on to the other side of it.
func mirrorStops(r *rng, f Feed, n int) {
	t := f["stops.txt"]
	a, b := t.col("stop_lat"), t.col("stop_lon")
	if r.p(40) {
		b = a
	}
	x0 := ""
	for _, row := range t.Rows {
		if x0 == "" {
			x0 = row[b]
		}
	}
	c, err := strconv.ParseFloat(x0, 64)
	if err != nil {
		return
	}
	c -= r.pickf(0, 0.00004, 0.0001, 0.005)
	for i, row := range t.Rows {
		if x, err := strconv.ParseFloat(row[b], 64); err == nil {
			x -= c
			if i >= n && r.p(50) {
				x = -x
			}
			row[b] = strconv.FormatFloat(x, 'f', 7, 64)
		}
	}
}

// dedupTransfers drops rules with the key of an earlier one.
func dedupTransfers(f Feed) {
	t := f["transfers.txt"]
	if t == nil {
		return
	}
	seen := map[string]bool{}
	var rows [][]string
	for _, x := range t.Rows {
		k := ""
		for _, c := range []string{"from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id"} {
			if j := t.col(c); j >= 0 {
				k += x[j]
			}
			k += "\x00"
		}
		if !seen[k] {
			seen[k] = true
			rows = append(rows, x)
		}
	}
	t.Rows = rows
}

// addPlaces adds generic nodes and boarding areas to some stations and stops.
func addPlaces(r *rng, f Feed, n int) {
	t := f["stops.txt"]
	ensureCols(t, "location_type", "parent_station", "stop_name")
	var l []Row
	for _, s := range f.rows("stops.txt") {
		if s["location_type"] == "1" || (s["location_type"] == "" || s["location_type"] == "0") && s["parent_station"] != "" {
			l = append(l, s)
		}
	}
	for k := 0; k < n && len(l) > 0; k++ {
		s := l[r.n(len(l))]
		c := map[string]string{"stop_id": fmt.Sprintf("place%d", k), "parent_station": s["stop_id"], "stop_lat": s["stop_lat"], "stop_lon": s["stop_lon"], "location_type": "3"}
		if s["location_type"] != "1" {
			c["location_type"] = "4"
			if lv := f["levels.txt"]; lv != nil && len(lv.Rows) > 0 && r.p(50) {
				ensureCols(t, "level_id")
				c["level_id"] = lv.Rows[r.n(len(lv.Rows))][lv.col("level_id")]
			}
		} else if r.p(30) {
			c["location_type"] = "2"
			c["stop_name"] = "Exit"
		}
		f.add("stops.txt", c)
		if pw := f["pathways.txt"]; pw != nil && r.p(60) {
			f.add("pathways.txt", map[string]string{"pathway_id": fmt.Sprintf("pwx%d", k), "from_stop_id": c["stop_id"], "to_stop_id": f.rows("stops.txt")[r.n(len(t.Rows))]["stop_id"], "pathway_mode": "1", "is_bidirectional": "1"})
		}
	}
	// pathways must not name stations
	if pw := f["pathways.txt"]; pw != nil {
		lt := map[string]string{}
		for _, s := range f.rows("stops.txt") {
			lt[s["stop_id"]] = s["location_type"]
		}
		var rows [][]string
		for _, x := range pw.Rows {
			a, b := x[pw.col("from_stop_id")], x[pw.col("to_stop_id")]
			if lt[a] != "1" && lt[b] != "1" && a != b {
				rows = append(rows, x)
			}
		}
		pw.Rows = rows
	}
}

func ensureCols(t *Table, cols ...string) {
	for _, c := range cols {
		if t.col(c) < 0 {
			t.Header = append(t.Header, c)
			for i := range t.Rows {
				t.Rows[i] = append(t.Rows[i], "")
			}
		}
	}
}

func init() {
	// C05: duplicate stops and levels
	register(&Prop{ID: "C05", Quick: 21000,
		Rule: "A random feed with clusters of stops, stations, entrances, nodes and boarding areas at 0 to 300 m from each other, equal or different in one attribute, is run through -P, exact or fuzzy. Non-trivial: at least one stop or level was merged.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Stops = [2]int{2, 6}
			o.Dup = r.pickn(0, 20, 50)
			o.Trips = [2]int{1, 6}
			o.Parents = r.pickn(0, 40, 80)
			o.Aux = 75
			o.Shapes = 20
			o.AddFlds = r.pickn(0, 0, 60)
			sc := baseScenario(r, o)
			if r.p(40) {
				addPlaces(r, sc.Feeds[0], 1+r.n(4))
			}
			n := len(sc.Feeds[0]["stops.txt"].Rows)
			clusterStops(r, sc.Feeds[0], r.n(9))
			if r.p(8) {
				sameNamed(r, sc.Feeds[0])
			}
			if r.p(6) {
				mirrorStops(r, sc.Feeds[0], n)
			}
			sc.Flags = []string{"-P"}
			if r.p(35) {
				sc.Flags = append(sc.Flags, "--red-stops-fuzzy")
			}
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 4, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if !sc.has("-P") {
				return nil
			}
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			extra, fuzzy := sc.has("-F"), sc.has("--red-stops-fuzzy")
			vs := checkValid(out)
			vs = append(vs, sameRows(in, out, extra, except(contentTables, "stops.txt", "levels.txt", "stop_times.txt", "transfers.txt", "pathways.txt")...)...)
			vs = append(vs, cmpFacts("calendar", in.calFacts(), out.calFacts())...)
			w, merged := stopMerge(in, out, extra, fuzzy)
			vs = append(vs, w...)
			if !fuzzy {
				seen := map[string]string{}
				for _, id := range sortedKeys(out.stops) {
					k := in.exactStop(id, extra, 0)
					if strings.Contains(k, "!") {
						continue
					}
					if o, ok := seen[k]; ok {
						vs = append(vs, viol("equal-stops-left", "stops %s and %s are equal and at the same place after -P", o, id))
						break
					}
					seen[k] = id
				}
			}
			if !fuzzy {
				vs = append(vs, nearStopsLeft(in, out, extra)...)
			}
			seen := map[string]string{}
			for _, id := range sortedKeys(out.levels) {
				k := out.levelKey(id, extra && !fuzzy)
				if o, ok := seen[k]; ok {
					vs = append(vs, viol("equal-levels-left", "levels %s and %s are equal after -P", o, id))
					break
				}
				seen[k] = id
			}
			if merged > 0 {
				x.nontrivial()
			}
			return vs
		}})
}

// nearStopsLeft looks for two stops that still differ in nothing but a place
// that is nearer than the documented distance. (Long rows of such stops need
// more rounds than the program makes, so only small groups are looked at.)
func nearStopsLeft(in, out *Mod, extra bool) []Viol {
	u := in.stopClasses(extra, false)
	size := map[string]int{}
	for id := range in.stops {
		size[u.find(id)]++
	}
	ids := sortedKeys(out.stops)
	ignore := map[string]bool{"stop_id": true, "stop_lat": true, "stop_lon": true}
	for i, a := range ids {
		ra := out.stops[a]
		if ra["stop_url"] != "" || size[u.find(a)] > 4 || ra["parent_station"] != "" && size[u.find(ra["parent_station"])] > 1 {
			continue
		}
		lim := 4.9
		if ra["location_type"] == "1" {
			lim = 49
		}
		for _, b := range ids[i+1:] {
			rb := out.stops[b]
			la, e1 := f32(ra["stop_lat"])
			lo, e2 := f32(ra["stop_lon"])
			lb, e3 := f32(rb["stop_lat"])
			lp, e4 := f32(rb["stop_lon"])
			if !e1 || !e2 || !e3 || !e4 || hav(la, lo, lb, lp) > lim {
				continue
			}
			cols := out.cols("stops.txt", extra)
			if out.rowKey("stops.txt", cols, ra, ignore) == out.rowKey("stops.txt", cols, rb, ignore) {
				return []Viol{viol("near-stops-left", "stops %s and %s are equal and %.1f m from each other after -P", a, b, hav(la, lo, lb, lp))}
			}
		}
	}
	return nil
}

// stopMerge checks that out is in with stops and levels merged within their
// classes, and counts how many went.
func stopMerge(in, out *Mod, extra, fuzzy bool) ([]Viol, int) {
	var vs []Viol
	u := in.stopClasses(extra, fuzzy)
	for _, id := range sortedKeys(out.stops) {
		if in.stops[id] == nil {
			return []Viol{viol("new-id:stop", "stop %q is not from the input", id)}, 0
		}
	}
	mp := mapper{"stop_id": u.find, "from_stop_id": u.find, "to_stop_id": u.find, "parent_station": u.find}
	// every class is still there
	a, b := map[string]int{}, map[string]int{}
	for id := range in.stops {
		a[u.find(id)] = 1
	}
	for id := range out.stops {
		b[u.find(id)] = 1
	}
	vs = append(vs, cmpFacts("stop-class", a, b)...)
	for _, t := range []string{"stop_times.txt", "pathways.txt"} {
		vs = append(vs, cmpFacts("row:"+t, in.mappedRows(t, extra, mp), out.mappedRows(t, extra, mp))...)
	}
	vs = append(vs, mergedTransfers(in, out, extra, mp, mp)...)
	// the stops that stay are what they were
	lk := func(m *Mod) func(string) string {
		return func(s string) string { return m.levelKey(s, extra && !fuzzy) }
	}
	for _, id := range sortedKeys(out.stops) {
		w := in.mappedRow("stops.txt", in.cols("stops.txt", extra), in.stops[id], mapper{"parent_station": u.find, "level_id": lk(in)}, nil)
		g := out.mappedRow("stops.txt", out.cols("stops.txt", extra), out.stops[id], mapper{"parent_station": u.find, "level_id": lk(out)}, nil)
		if w != g {
			vs = append(vs, viol("changed:stops.txt", "stops.txt: %s became %s", w, g))
			break
		}
	}
	a, b = map[string]int{}, map[string]int{}
	for id := range in.levels {
		a[in.levelKey(id, extra && !fuzzy)] = 1
	}
	for id, r := range out.levels {
		b[out.levelKey(id, extra && !fuzzy)] = 1
		if in.levels[id] == nil {
			vs = append(vs, viol("new-id:level", "level %q is not from the input", id))
		} else if w, g := in.rowKey("levels.txt", in.cols("levels.txt", extra), in.levels[id], nil), out.rowKey("levels.txt", out.cols("levels.txt", extra), r, nil); w != g {
			vs = append(vs, viol("changed:levels.txt", "levels.txt: %s became %s", w, g))
		}
	}
	vs = append(vs, cmpFacts("level-class", a, b)...)
	sort.Slice(vs, func(i, j int) bool { return vs[i].Sig < vs[j].Sig })
	return vs, len(in.stops) - len(out.stops) + len(in.levels) - len(out.levels)
}

// sameNamed puts copies of one stop at several places some kilometres apart,
// with copies of their own nearby: equal in all but the place.
func sameNamed(r *rng, f Feed) {
	t := f["stops.txt"]
	id, lt, par := t.col("stop_id"), t.col("location_type"), t.col("parent_station")
	la, lo := t.col("stop_lat"), t.col("stop_lon")
	var src []string
	for _, row := range t.Rows {
		if (lt < 0 || row[lt] == "" || row[lt] == "0") && (par < 0 || row[par] == "") {
			src = row
			if r.p(50) {
				break
			}
		}
	}
	if src == nil {
		return
	}
	y, err := strconv.ParseFloat(src[la], 64)
	x, err2 := strconv.ParseFloat(src[lo], 64)
	if err != nil || err2 != nil || y > 80 || y < -80 || x > 178 || x < -178 {
		return
	}
	step := r.pickf(0.004, 0.01, 0.05)
	old := src[id]
	var ids []string
	var rows [][]string
	for k := r.rang(2, 8); k > 0; k-- {
		for c := r.rang(1, 3); c > 0; c-- {
			row := append([]string(nil), src...)
			row[id] = fmt.Sprintf("%s~%d%d", r.pick("n", "m", "z")+old, k, c)
			row[la] = strconv.FormatFloat(y+float64(k)*step+float64(r.n(3))/111319, 'f', 7, 64)
			row[lo] = strconv.FormatFloat(x+float64(k%3)*step, 'f', 7, 64)
			ids = append(ids, row[id])
			rows = append(rows, row)
		}
	}
	for _, i := range r.perm(len(rows)) {
		t.Rows = append(t.Rows, rows[i])
	}
	st := f["stop_times.txt"]
	j := st.col("stop_id")
	for _, row := range st.Rows {
		if row[j] == old && r.p(90) {
			row[j] = ids[r.n(len(ids))]
		}
	}
}
