package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

var editFlags = []string{"--ensure-stop-parents", "--drop-platform-for-parentless", "--group-adj-stop-times", "--drop-too-fast-trips", "--fix-far-away-parents", "--snap-stops", "-E", "--recluster-stops"}

// spread scales the places of all stops and shapes around the south-west.
func spread(f Feed, k float64) {
	for file, c := range map[string][2]string{"stops.txt": {"stop_lat", "stop_lon"}, "shapes.txt": {"shape_pt_lat", "shape_pt_lon"}} {
		t := f[file]
		if t == nil {
			continue
		}
		a, b := t.col(c[0]), t.col(c[1])
		for _, r := range t.Rows {
			y, e1 := strconv.ParseFloat(r[a], 64)
			x, e2 := strconv.ParseFloat(r[b], 64)
			if e1 == nil && e2 == nil {
				r[a] = strconv.FormatFloat(47.5+(y-47.5)*k, 'f', 6, 64)
				r[b] = strconv.FormatFloat(7.8+(x-7.8)*k, 'f', 6, 64)
			}
		}
	}
}

// doubleStops puts further stop times of the same stop behind some stop times.
func doubleStops(r *rng, f Feed, pct int) {
	t := f["stop_times.txt"]
	ensureCols(t, "shape_dist_traveled", "pickup_type", "drop_off_type", "continuous_pickup", "continuous_drop_off", "timepoint")
	m := newMod(f)
	sq := t.col("stop_sequence")
	for _, x := range t.Rows {
		x[sq] = strconv.Itoa(10 * atoi(x[sq]))
	}
	next := map[string]Row{}
	for _, l := range m.st {
		for i := range l {
			if i+1 < len(l) {
				next[l[i]["trip_id"]+" "+l[i]["stop_sequence"]] = l[i+1]
			}
		}
	}
	var add [][]string
	for i, row := range f.rows("stop_times.txt") {
		if !r.p(pct) {
			continue
		}
		src := t.Rows[i]
		limit := 1 << 30
		if nx := next[row["trip_id"]+" "+strconv.Itoa(atoi(row["stop_sequence"])/10)]; nx != nil {
			if a, ok := secs(nx["arrival_time"]); ok {
				limit = a
			}
		}
		dep, timed := secs(row["departure_time"])
		if timed && r.p(60) { // without dwell time
			src[t.col("departure_time")] = src[t.col("arrival_time")]
			dep, _ = secs(row["arrival_time"])
		}
		for k := 1 + r.n(2); k > 0; k-- {
			c := append([]string(nil), src...)
			if timed {
				a := dep + r.pickn(0, 60, 120)
				if a > limit {
					a = limit
				}
				d := a
				if r.p(15) && a+30 <= limit {
					d += 30
				}
				c[t.col("arrival_time")], c[t.col("departure_time")] = hms(a), hms(d)
				dep = d
			}
			c[sq] = strconv.Itoa(atoi(src[sq]) + 3 - k)
			if r.p(30) {
				c[t.col("pickup_type")] = r.pick("", "0", "1", "2")
			}
			if r.p(30) {
				c[t.col("drop_off_type")] = r.pick("", "0", "1", "3")
			}
			switch r.n(12) {
			case 0:
				c[t.col("shape_dist_traveled")] = ""
			case 1:
				c[t.col("continuous_pickup")] = r.pick("0", "1", "2", "3")
			case 2:
				c[t.col("continuous_drop_off")] = r.pick("0", "1", "2", "3")
			case 3:
				c[t.col("shape_dist_traveled")] = ""
			case 4:
				if timed {
					c[t.col("timepoint")] = r.pick("", "1")
				}
			case 5, 6:
				if timed {
					src[t.col("timepoint")] = "0"
					c[t.col("timepoint")] = r.pick("0", "1")
				}
			}
			add = append(add, c)
		}
	}
	t.Rows = append(t.Rows, add...)
}

// farParents moves some stops that have children away from them.
func farParents(r *rng, f Feed) {
	t := f["stops.txt"]
	par := map[string]bool{}
	for _, s := range f.rows("stops.txt") {
		par[s["parent_station"]] = true
	}
	a, b, id := t.col("stop_lat"), t.col("stop_lon"), t.col("stop_id")
	for _, x := range t.Rows {
		if par[x[id]] && r.p(60) || r.p(15) {
			y, _ := strconv.ParseFloat(x[a], 64)
			z, _ := strconv.ParseFloat(x[b], 64)
			m := r.pickf(30, 80, 90, 110, 150, 190, 400, 2000)
			x[a] = strconv.FormatFloat(y+m*(r.f()*2-1)/111319, 'f', 6, 64)
			x[b] = strconv.FormatFloat(z+m*(r.f()*2-1)/75000, 'f', 6, 64)
		}
	}
}

// nameStops gives the stops names that share words, or none.
func nameStops(r *rng, f Feed) {
	t := f["stops.txt"]
	ensureCols(t, "stop_name")
	n := t.col("stop_name")
	lt := t.col("location_type")
	kind := r.n(5)
	for _, x := range t.Rows {
		if !r.p(70) {
			continue
		}
		switch kind {
		case 0:
			x[n] = "Main Street"
		case 1:
			x[n] = r.pick("Main Street", "Main Street (West)", "Central Station", "Station", "Old Town, Church", "Church Old Town")
		case 2:
			x[n] = r.pick("1", "2", "Stop", "Stop 3")
		case 3:
			x[n] = r.pick("Main", "Street", "Main Street", "Street Main", "MAIN-STREET", "Hauptstraße", "HAUPTSTRASSE")
		case 4:
			if lt >= 0 && (x[lt] == "3" || x[lt] == "4") {
				x[n] = ""
			}
		}
	}
}

// stopRow adds stops of one name along a line, in tight and loose groups.
func stopRow(r *rng, f Feed) {
	m := 0.0
	name := r.pick("Long Lane", "Main Street", "Station 1")
	for k, n := 0, 4+r.n(6); k < n; k++ {
		f.add("stops.txt", map[string]string{"stop_id": fmt.Sprintf("row%d", k), "stop_name": name, "stop_lat": "47.490000",
			"stop_lon": strconv.FormatFloat(7.79+m/75200, 'f', 6, 64)})
		m += r.pickf(2, 2, 2, 15, 30, 60, 80)
	}
}

var speedLimit = map[int]float64{0: 100, 1: 150, 2: 500, 3: 150, 4: 80, 5: 30, 6: 50, 7: 50, 11: 50, 12: 150}

// fastTrips adds trips along a row of stops some kilometres apart, with speeds
// around the limit.
func fastTrips(r *rng, f Feed) {
	m := newMod(f)
	ids := sortedKeys(m.trips)
	if len(ids) == 0 {
		return
	}
	step := r.pickf(2000, 3600, 4000, 5200, 6000, 6800, 7500, 11000)
	n := r.rang(3, 6)
	for k := 0; k < n; k++ {
		f.add("stops.txt", map[string]string{"stop_id": fmt.Sprintf("fast%d", k), "stop_name": fmt.Sprintf("Fast %d", k), "stop_lat": "47.600000",
			"stop_lon": strconv.FormatFloat(7.2+float64(k)*step/74990, 'f', 6, 64)})
	}
	for k := 0; k < 1+r.n(3); k++ {
		src := m.trips[ids[r.n(len(ids))]]
		typ, _ := stdType(atoi(m.routes[src["route_id"]]["route_type"]))
		lim, ok := speedLimit[typ]
		if !ok {
			lim = 100
		}
		c := map[string]string{"trip_id": fmt.Sprintf("fastt%d", k), "route_id": src["route_id"], "service_id": src["service_id"]}
		f.add("trips.txt", c)
		v := lim * r.pickf(0.5, 0.9, 1.1, 1.1, 1.5, 3)
		t := 8 * 3600
		same := r.pickn(0, 0, 25, 50) // no time between stops
		for j := 0; j < n; j++ {
			a := t
			if r.p(20) {
				t += r.pickn(30, 60, 600)
			}
			f.add("stop_times.txt", map[string]string{"trip_id": c["trip_id"], "stop_id": fmt.Sprintf("fast%d", j), "stop_sequence": strconv.Itoa(j), "arrival_time": hms(a), "departure_time": hms(t)})
			if !r.p(same) {
				t += int(step / 1000 / v * 3600)
				if r.p(20) {
					t += r.pickn(1, 30, 59)
				}
			}
		}
	}
}

// fast tells whether a trip must be dropped, or must be kept, as too fast.
func (m *Mod) fast(trip string) (drop, keep bool) {
	typ, _ := stdType(atoi(m.routes[m.trips[trip]["route_id"]]["route_type"]))
	lim, ok := speedLimit[typ]
	if !ok {
		return false, false
	}
	l := m.st[trip]
	type tp struct{ along, arr, dep float64 }
	var ps []tp
	d := 0.0
	for i, s := range l {
		if i > 0 {
			a, b := m.stopPt(l[i-1]["stop_id"]), m.stopPt(s["stop_id"])
			d += meters(a.lat, a.lon, b.lat, b.lon)
		}
		a, ok := secs(s["arrival_time"])
		e, _ := secs(s["departure_time"])
		if ok {
			ps = append(ps, tp{d, float64(a), float64(e)})
		}
	}
	keep = true
	for i := range ps {
		for j := i + 1; j < len(ps); j++ {
			w := ps[j].along - ps[i].along
			t := ps[j].arr - ps[i].dep
			if t == 0 {
				t = 60
			}
			v := w / 1000 / (t / 3600)
			if w > 6900 && v > lim*0.98 {
				keep = false
			}
			if v > lim*1.02 && w > 10150 {
				drop = true
			}
		}
	}
	// from one stop to the next, 7 km will do; a hop that takes no time counts
	// to the next one
	for i, j := 0, 1; j < len(ps); j++ {
		w, t := ps[j].along-ps[i].along, ps[j].arr-ps[i].dep
		if t == 0 {
			t = 60
		}
		if w > 7100 && w/1000/(t/3600) > lim*1.02 {
			drop = true
		}
		if ps[j].arr != ps[i].dep {
			i = j
		}
	}
	return drop, keep
}

// grouped is the input with adjacent stop times of one place joined.
func grouped(f Feed) (Feed, int) {
	g := f.clone()
	t := g["stop_times.txt"]
	m := newMod(f)
	n := 0
	head := map[string]Row{}  // the row that takes in others
	gone := map[string]bool{} // rows that are taken in
	key := func(r Row) string { return r["trip_id"] + " " + r["stop_sequence"] }
	num := func(r Row, c string) string { return nv("stop_times.txt", c, r[c]) }
	for _, l := range m.st {
		h := l[0]
		for i := 1; i < len(l); i++ {
			a, b := l[i-1], l[i]
			same := a["stop_id"] == b["stop_id"] && (a["arrival_time"] == "") == (b["arrival_time"] == "") &&
				num(a, "arrival_time") == num(a, "departure_time") && num(b, "arrival_time") == num(b, "departure_time")
			for _, c := range []string{"shape_dist_traveled", "stop_headsign", "continuous_pickup", "continuous_drop_off"} {
				same = same && num(a, c) == num(b, c)
			}
			if !same {
				h = b
				continue
			}
			n++
			gone[key(b)] = true
			w := Row{}
			if o := head[key(h)]; o != nil {
				w = o
			}
			w["departure_time"], w["pickup_type"] = b["departure_time"], b["pickup_type"]
			head[key(h)] = w
		}
	}
	var rows [][]string
	for i, r := range f.rows("stop_times.txt") {
		if gone[key(r)] {
			continue
		}
		x := t.Rows[i]
		for c, v := range head[key(r)] {
			if k := t.col(c); k >= 0 {
				x[k] = v
			}
		}
		rows = append(rows, x)
	}
	t.Rows = rows
	return g, n
}

// nameModel weighs the words of the names of all stops.
type nameModel struct {
	n    int
	freq map[string]int
}

func words(s string) map[string]int {
	m := map[string]int{}
	for _, w := range strings.FieldsFunc(strings.ToUpper(s), func(c rune) bool { return !unicode.IsLetter(c) }) {
		m[w]++
	}
	return m
}

func newNameModel(m *Mod) *nameModel {
	q := &nameModel{n: len(m.stops), freq: map[string]int{}}
	for _, s := range m.stops {
		for w := range words(s["stop_name"]) {
			q.freq[w]++
		}
	}
	return q
}

// simi is how similar two names are, 0.5 being just enough; names without
// telling words are.
func (q *nameModel) simi(a, b string) float64 {
	const limit = 0.55
	wa, wb := words(a), words(b)
	dot, na, nb := 0.0, 0.0, 0.0
	for w, k := range wa {
		v := math.Log(float64(q.n)/float64(q.freq[w])) * float64(k)
		na += v * v
		if wb[w] > 0 {
			dot += v * math.Log(float64(q.n)/float64(q.freq[w])) * float64(wb[w])
		}
	}
	for w, k := range wb {
		v := math.Log(float64(q.n)/float64(q.freq[w])) * float64(k)
		nb += v * v
	}
	if na == 0 || nb == 0 {
		return 1
	}
	c := dot / math.Sqrt(na*nb)
	if c > limit {
		return 0.5 + (c-limit)/(2*(1-limit))
	}
	return c / (2 * limit)
}

// groupsOf: for each place the station (or itself) it belongs to.
func (m *Mod) groupOf(id string) string {
	for k := 0; k < 4; k++ {
		p := m.stops[id]["parent_station"]
		if p == "" {
			return id
		}
		id = p
	}
	return id
}

func init() {
	register(&Prop{ID: "C19", Quick: 18000,
		Rule: "A random feed with the oddity that one structural option is for (stops without a station, platform codes, repeated stop times, fast trips, stations far from their stops, stops off their shapes, close stops of similar names) is run through that option; all that changes must be what the option is for, by a reference model of each. Non-trivial: the option changed something.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{1, 9}
			o.Aux = r.pickn(20, 70)
			o.EmptyTimes = r.pickn(0, 5, 30)
			o.SingleStop = r.pickn(0, 10)
			o.AddFlds = r.pickn(0, 0, 50)
			o.Freq = r.pickn(0, 20)
			k := r.n(7)
			if k == 5 {
				o.Shapes = 90
			}
			o.Parents = r.pickn(0, 40, 80)
			sc := baseScenario(r, o)
			f := sc.Feeds[0]
			if r.p(30) {
				addPlaces(r, f, 1+r.n(4))
			}
			sc.Flags = []string{editFlags[k]}
			switch k {
			case 0:
				if r.p(30) {
					// ids that the new stations would get
					t := f["stops.txt"]
					s := f.rows("stops.txt")[r.n(len(t.Rows))]
					if s["stop_id"] != "" && !strings.Contains(s["stop_id"], "::") {
						f.add("stops.txt", map[string]string{"stop_id": "par::" + s["stop_id"], "stop_name": "Taken", "stop_lat": s["stop_lat"], "stop_lon": s["stop_lon"]})
					}
				}
			case 1:
				clusterStops(r, f, r.n(8))
				t := f["stops.txt"]
				for _, x := range t.Rows {
					if r.p(40) {
						x[t.col("platform_code")] = r.pick("", "1", "2")
					}
				}
				if r.p(30) {
					sc.Flags = append(sc.Flags, "--red-stops-fuzzy")
				}
			case 2:
				doubleStops(r, f, r.pickn(10, 40))
			case 3:
				spread(f, r.pickf(4, 8, 15, 30, 60))
				t := f["routes.txt"]
				for _, x := range t.Rows {
					x[t.col("route_type")] = r.pick("0", "1", "2", "3", "3", "4", "5", "6", "7", "11", "12")
				}
				if r.p(30) {
					for _, x := range t.Rows {
						x[t.col("route_type")] = r.pick("100", "102", "109", "200", "400", "401", "405", "700", "704", "715", "800", "900", "1000", "1200", "1300", "1400", "3", "12")
					}
				}
				if r.p(50) {
					fastTrips(r, f)
				}
				if r.p(30) {
					doubleStops(r, f, 20)
				}
			case 4:
				farParents(r, f)
			case 5:
				farParents(r, f)
				if r.p(60) {
					workShapes(r, f, 1+r.n(4))
				}
			case 6:
				clusterStops(r, f, r.n(8))
				if r.p(40) {
					spread(f, r.pickf(0.1, 0.3, 20, 60))
				}
				if r.p(50) {
					farParents(r, f)
				}
				nameStops(r, f)
				if r.p(40) {
					stopRow(r, f)
				}
			}
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 4, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			n, opt := 0, ""
			for _, f := range editFlags {
				if sc.has(f) {
					n++
					opt = f
				}
			}
			if n != 1 {
				return nil
			}
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			vs := checkValid(out)
			vs = append(vs, cmpFacts("calendar", in.calFacts(), out.calFacts())...)
			extra := sc.has("-F")
			did := false
			switch opt {
			case "--ensure-stop-parents":
				did, v = ensured(in, out, extra)
			case "--drop-platform-for-parentless":
				g := sc.Feeds[0].clone()
				t := g["stops.txt"]
				for i, s := range g.rows("stops.txt") {
					if c := t.col("platform_code"); c >= 0 && s["parent_station"] == "" && s["platform_code"] != "" {
						t.Rows[i][c] = ""
						did = true
					}
				}
				w := newMod(g)
				v = sameRows(w, out, extra, except(contentTables, "stops.txt", "levels.txt", "stop_times.txt", "transfers.txt", "pathways.txt")...)
				u, _ := stopMerge(w, out, extra, sc.has("--red-stops-fuzzy"))
				v = append(v, u...)
			case "--group-adj-stop-times":
				g, k := grouped(sc.Feeds[0])
				did = k > 0
				v = sameRows(newMod(g), out, extra, contentTables...)
			case "--drop-too-fast-trips":
				g := sc.Feeds[0].clone()
				gone := map[string]bool{}
				for _, id := range sortedKeys(in.trips) {
					drop, keep := in.fast(id)
					if _, ok := out.trips[id]; ok && drop {
						v = append(v, viol("fast-trip-left", "trip %s (route type %s) is too fast, but is still there", id, in.routes[in.trips[id]["route_id"]]["route_type"]))
					} else if !ok && keep {
						v = append(v, viol("slow-trip-dropped", "trip %s (route type %s) is not too fast, but was dropped", id, in.routes[in.trips[id]["route_id"]]["route_type"]))
					} else if !ok {
						gone[id] = true
						did = true
					}
				}
				for file, cs := range map[string][]string{"trips.txt": {"trip_id"}, "stop_times.txt": {"trip_id"}, "frequencies.txt": {"trip_id"}, "attributions.txt": {"trip_id"}, "transfers.txt": {"from_trip_id", "to_trip_id"}} {
					t := g[file]
					if t == nil {
						continue
					}
					var rows [][]string
					for i, r := range g.rows(file) {
						ok := true
						for _, c := range cs {
							ok = ok && !gone[r[c]]
						}
						if ok {
							rows = append(rows, t.Rows[i])
						}
					}
					t.Rows = rows
				}
				if len(v) == 0 {
					v = sameRows(newMod(g), out, extra, contentTables...)
				}
			case "--fix-far-away-parents":
				did, v = averaged(in, out, extra)
			case "--snap-stops":
				did, v = snapped(in, out, extra)
			default:
				did, v = reclustered(x, in, out, extra)
			}
			if did {
				x.nontrivial()
				x.mark(opt)
			}
			return append(vs, v...)
		}})
}

func ensured(in, out *Mod, extra bool) (did bool, vs []Viol) {
	vs = sameRows(in, out, extra, except(contentTables, "stops.txt")...)
	kids := map[string]int{}
	for _, s := range out.stops {
		kids[s["parent_station"]]++
	}
	cols := in.cols("stops.txt", extra)
	par := map[string]bool{"parent_station": true}
	n := 0
	for _, id := range sortedKeys(in.stops) {
		a, b := in.stops[id], out.stops[id]
		if b == nil {
			vs = append(vs, viol("stop-lost", "stop %s is gone", id))
			continue
		}
		if w, g := in.rowKey("stops.txt", cols, a, par), out.rowKey("stops.txt", cols, b, par); w != g {
			vs = append(vs, viol("changed:stops.txt", "stops.txt: %s became %s", w, g))
		}
		if nv("stops.txt", "location_type", a["location_type"]) != "0" || a["parent_station"] != "" {
			if a["parent_station"] != b["parent_station"] {
				vs = append(vs, viol("changed:parent", "the station of stop %s was %q and is %q", id, a["parent_station"], b["parent_station"]))
			}
			continue
		}
		n++
		p := out.stops[b["parent_station"]]
		if p == nil || in.stops[p["stop_id"]] != nil {
			vs = append(vs, viol("no-new-station", "stop %s had no station and has %q, which is not a new one", id, b["parent_station"]))
			continue
		}
		if p["location_type"] != "1" || kids[p["stop_id"]] != 1 {
			vs = append(vs, viol("not-own-station", "the new station %s of stop %s has location type %s and %d stops", p["stop_id"], id, p["location_type"], kids[p["stop_id"]]))
		}
		for _, c := range []string{"stop_name", "stop_lat", "stop_lon", "stop_timezone"} {
			if nv("stops.txt", c, p[c]) != nv("stops.txt", c, a[c]) {
				vs = append(vs, viol("station-differs:"+c, "the new station %s of stop %s has %s %q, not %q", p["stop_id"], id, c, p[c], a[c]))
			}
		}
	}
	if len(out.stops) != len(in.stops)+n {
		vs = append(vs, viol("station-count", "%d stops without a station, but %d new stations", n, len(out.stops)-len(in.stops)))
	}
	return n > 0, vs
}

func averaged(in, out *Mod, extra bool) (did bool, vs []Viol) {
	const D = 100
	vs = sameRows(in, out, extra, except(contentTables, "stops.txt")...)
	vs = append(vs, cmpFacts("stop-but-place", in.rowsOf("stops.txt", extra, "stop_lat", "stop_lon"), out.rowsOf("stops.txt", extra, "stop_lat", "stop_lon"))...)
	if len(vs) > 0 {
		return
	}
	kids := map[string][]string{}
	for _, id := range sortedKeys(in.stops) {
		if p := in.stops[id]["parent_station"]; p != "" {
			kids[p] = append(kids[p], id)
		}
	}
	for _, id := range sortedKeys(in.stops) {
		a, b := in.stopPt(id), out.stopPt(id)
		same := in.stops[id]["stop_lat"] != "" && a.lat == b.lat && a.lon == b.lon
		l := kids[id]
		far, near := false, len(l) > 0 // certainly far from one; certainly near to all
		lat, lon := 0.0, 0.0
		for _, k := range l {
			c := out.stopPt(k)
			d := meters(a.lat, a.lon, c.lat, c.lon)
			far = far || d > D*1.01
			near = near && d < D*0.99
			lat += c.lat / float64(len(l))
			lon += c.lon / float64(len(l))
		}
		fits, unfit := true, false
		for _, k := range l {
			c := out.stopPt(k)
			d := meters(lat, lon, c.lat, c.lon)
			fits = fits && d < D*0.99
			unfit = unfit || d > D*1.01
		}
		if !same {
			did = true
			if len(l) == 0 || near || unfit {
				vs = append(vs, viol("moved-needlessly", "stop %s was moved from %v,%v to %v,%v", id, a.lat, a.lon, b.lat, b.lon))
			} else if meters(b.lat, b.lon, lat, lon) > 2 {
				vs = append(vs, viol("not-the-average", "stop %s was moved to %v,%v, but the middle of its stops is %v,%v", id, b.lat, b.lon, lat, lon))
			}
		} else if far && fits && meters(a.lat, a.lon, lat, lon) > 2 {
			vs = append(vs, viol("far-parent-left", "stop %s at %v,%v is too far from its stops, whose middle is %v,%v", id, a.lat, a.lon, lat, lon))
		}
	}
	return
}

func snapped(in, out *Mod, extra bool) (did bool, vs []Viol) {
	const D = 100
	vs = sameRows(in, out, extra, except(contentTables, "stops.txt", "stop_times.txt")...)
	vs = append(vs, cmpFacts("stop-time-but-stop", in.rowsOf("stop_times.txt", extra, "stop_id"), out.rowsOf("stop_times.txt", extra, "stop_id"))...)
	cols := in.cols("stops.txt", extra)
	for _, id := range sortedKeys(in.stops) {
		b := out.stops[id]
		if b == nil {
			vs = append(vs, viol("stop-lost", "stop %s is gone", id))
			continue
		}
		if w, g := in.rowKey("stops.txt", cols, in.stops[id], nil), out.rowKey("stops.txt", cols, b, nil); w != g {
			vs = append(vs, viol("changed:stops.txt", "stops.txt: %s became %s", w, g))
		}
	}
	if len(vs) > 0 {
		return
	}
	used := map[string]bool{}
	place := map[string]bool{"stop_id": true, "stop_lat": true, "stop_lon": true}
	for _, id := range sortedKeys(in.st) {
		la, lb := in.st[id], out.st[id]
		line := in.shapes[in.trips[id]["shape_id"]]
		for i := range la {
			a, b := la[i]["stop_id"], lb[i]["stop_id"]
			used[b] = true
			if len(line) < 2 {
				if a != b {
					vs = append(vs, viol("moved-without-shape", "trip %s has no shape, but its stop %s became %s", id, a, b))
				}
				continue
			}
			p := in.stopPt(a)
			lo, hi := math.Inf(1), 0.0 // how far the stop is from its place
			d, hasD := f32(la[i]["shape_dist_traveled"])
			found, sure := false, false
			if hasD {
				for k := 1; k < len(line); k++ {
					u, w := line[k-1], line[k]
					if u.hasDist && w.hasDist && u.dist <= d && w.dist >= d {
						found = true
						if w.dist == u.dist {
							// any place in between
							lo, hi = math.Min(lo, segDist(p, u, w)), math.Max(hi, math.Max(meters(p.lat, p.lon, u.lat, u.lon), meters(p.lat, p.lon, w.lat, w.lon)))
							continue
						}
						sure = true
						t := (d - u.dist) / (w.dist - u.dist)
						y := meters(p.lat, p.lon, u.lat+t*(w.lat-u.lat), u.lon+t*(w.lon-u.lon))
						lo, hi = math.Min(lo, y), math.Max(hi, y)
					}
				}
			}
			if !found {
				lo = lineDist(p, line)
				hi = lo
			} else if !sure {
				// the measure says next to nothing
				lo = math.Min(lo, lineDist(p, line))
			}
			if a == b {
				if lo > D*1.01+1 {
					vs = append(vs, viol("far-stop-left", "stop %s of trip %s is %.0f m from its place on the shape, but was left there", a, id, lo))
				}
				continue
			}
			did = true
			s := out.stops[b]
			if s == nil || in.stops[b] != nil {
				vs = append(vs, viol("not-a-new-stop", "trip %s: stop %s became %s", id, a, b))
				continue
			}
			if hi < D*0.99-1 {
				vs = append(vs, viol("near-stop-moved", "stop %s of trip %s is %.0f m from its place on the shape, but was moved", a, id, hi))
			}
			q := out.stopPt(b)
			if e := lineDist(q, line); e > 2+bend(line) {
				vs = append(vs, viol("not-on-shape", "stop %s of trip %s was moved to %v,%v, %.1f m off the shape", a, id, q.lat, q.lon, e))
			}
			if e := meters(p.lat, p.lon, q.lat, q.lon); e < lo*0.99-2-bend(line) || e > hi*1.01+2+bend(line) {
				vs = append(vs, viol("wrong-place", "stop %s of trip %s was moved by %.1f m, but its place on the shape is %.1f to %.1f m away", a, id, e, lo, hi))
			}
			std := in.cols("stops.txt", extra)
			if w, g := in.rowKey("stops.txt", std, in.stops[a], place), out.rowKey("stops.txt", std, s, place); w != g {
				vs = append(vs, viol("snapped-stop-differs", "stops.txt: %s became %s", w, g))
			}
		}
	}
	for _, id := range sortedKeys(out.stops) {
		if in.stops[id] == nil && !used[id] {
			vs = append(vs, viol("unused-new-stop", "the new stop %s is not used", id))
		}
	}
	return
}

// bend is how far the longest segment of a line may be off a line that is
// straight in another projection.
func bend(l []pt) float64 {
	m := 0.0
	for i := 1; i < len(l); i++ {
		m = math.Max(m, meters(l[i-1].lat, l[i-1].lon, l[i].lat, l[i].lon))
	}
	return m * m / (4 * 6371000)
}

func reclustered(x *Ctx, in, out *Mod, extra bool) (did bool, vs []Viol) {
	vs = sameRows(in, out, extra, except(contentTables, "stops.txt", "transfers.txt", "pathways.txt")...)
	cols := in.cols("stops.txt", extra)
	par := map[string]bool{"parent_station": true}
	lt := func(m *Mod, id string) string { return nv("stops.txt", "location_type", m.stops[id]["location_type"]) }
	to := map[string]string{} // where the stops of a station that went are now
	for _, id := range sortedKeys(in.stops) {
		a, b := in.stops[id], out.stops[id]
		if b == nil {
			did = true
			if lt(in, id) != "1" {
				vs = append(vs, viol("stop-lost", "stop %s is gone", id))
			}
			continue
		}
		if w, g := in.rowKey("stops.txt", cols, a, par), out.rowKey("stops.txt", cols, b, par); w != g {
			vs = append(vs, viol("changed:stops.txt", "stops.txt: %s became %s", w, g))
		}
		if a["parent_station"] != b["parent_station"] {
			did = true
			if l := lt(in, id); l == "1" || l == "4" {
				vs = append(vs, viol("changed:parent", "the parent of %s (location type %s) was %q and is %q", id, l, a["parent_station"], b["parent_station"]))
			}
			if b["parent_station"] == "" {
				vs = append(vs, viol("station-taken", "stop %s has no station any more", id))
			}
		}
	}
	kids := map[string]int{}
	for _, id := range sortedKeys(out.stops) {
		kids[out.stops[id]["parent_station"]]++
	}
	for _, id := range sortedKeys(out.stops) {
		if in.stops[id] == nil {
			did = true
			if lt(out, id) != "1" || kids[id] < 2 {
				vs = append(vs, viol("odd-new-stop", "the new stop %s has location type %s and %d stops", id, lt(out, id), kids[id]))
			}
		}
	}
	if len(vs) > 0 {
		return
	}
	// stops that were together are together
	oldNew := map[string]string{}
	childless := false
	for _, id := range sortedKeys(in.stops) {
		if out.stops[id] == nil {
			continue
		}
		o, n := in.groupOf(id), out.groupOf(id)
		if p, ok := oldNew[o]; ok && p != n {
			vs = append(vs, viol("station-split", "the stops of station %s are now in %s and %s", o, p, n))
			break
		}
		oldNew[o] = n
	}
	for _, id := range sortedKeys(in.stops) {
		if out.stops[id] == nil {
			if to[id] = oldNew[id]; to[id] == "" {
				childless = true
			}
		}
	}
	// groups that were joined have close stops with similar names
	u := unionFind{}
	members := map[string][]string{}
	for _, id := range sortedKeys(in.stops) {
		u.union(id, in.groupOf(id))
		n := id
		if out.stops[id] == nil {
			n = oldNew[id]
		} else {
			n = out.groupOf(id)
		}
		members[n] = append(members[n], id)
	}
	// a new station has the attributes that its stops share
	for _, n := range sortedKeys(members) {
		if in.stops[n] != nil || out.stops[n] == nil {
			continue
		}
		s := out.stops[n]
		names := map[string]bool{}
		latLo, latHi, lonLo, lonHi := math.Inf(1), math.Inf(-1), math.Inf(1), math.Inf(-1)
		for _, id := range members[n] {
			names[in.stops[id]["stop_name"]] = true
			p := in.stopPt(id)
			latLo, latHi = math.Min(latLo, p.lat), math.Max(latHi, p.lat)
			lonLo, lonHi = math.Min(lonLo, p.lon), math.Max(lonHi, p.lon)
		}
		if !names[s["stop_name"]] {
			vs = append(vs, viol("station-name", "the new station %s is called %q, like none of its stops", n, s["stop_name"]))
		}
		if p := out.stopPt(n); p.lat < latLo-1e-4 || p.lat > latHi+1e-4 || p.lon < lonLo-1e-4 || p.lon > lonHi+1e-4 {
			vs = append(vs, viol("station-place", "the new station %s at %v,%v is not amidst its stops", n, p.lat, p.lon))
		}
		for _, c := range []string{"wheelchair_boarding", "stop_url", "stop_timezone"} {
			vals := map[string]int{}
			for _, id := range members[n] {
				if v := nv("stops.txt", c, in.stops[id][c]); v != "" && v != "0" || c != "stop_url" {
					vals[v]++
				}
			}
			v := nv("stops.txt", c, s[c])
			if v != "" && v != "0" && (vals[v] == 0 || len(vals) > 1) {
				vs = append(vs, viol("station-attribute:"+c, "the new station %s has %s %q, but not all its stops have", n, c, v))
			}
			if len(vals) == 1 && vals[v] == 0 {
				vs = append(vs, viol("station-attribute-lost:"+c, "all stops of the new station %s have %s %v, but it has %q", n, c, sortedKeys(vals), v))
			}
		}
		x.mark("new station")
	}
	names := newNameModel(in)
	simi := func(a, b string, k float64) float64 {
		p, q := in.stopPt(a), in.stopPt(b)
		return (0.5 - 0.5*math.Tanh((meters(p.lat, p.lon, q.lat, q.lon)*k-75)/(75*0.25))) * names.simi(in.stops[a]["stop_name"], in.stops[b]["stop_name"])
	}
	close := func(a, b string) bool { return simi(a, b, 0.985) > 0.498 }
	ids := sortedKeys(in.stops)
	for i, a := range ids {
		for _, b := range ids[i+1:] {
			if close(a, b) {
				u.union(a, b)
			}
		}
	}
	if !childless {
		for _, n := range sortedKeys(members) {
			l := members[n]
			for _, id := range l[1:] {
				if u.find(id) != u.find(l[0]) {
					vs = append(vs, viol("joined-far", "station %s has stops that are neither close nor similar: %s and %s", n, l[0], id))
					break
				}
			}
		}
	}
	// no two groups are left that are close and similar on average
	if !childless {
		gs := sortedKeys(members)
		for i, g := range gs {
			for _, h := range gs[i+1:] {
				sum := 0.0
				for _, a := range members[g] {
					for _, b := range members[h] {
						sum += simi(a, b, 1.015)
					}
				}
				if sum/float64(len(members[g])*len(members[h])) > 0.502 {
					vs = append(vs, viol("pair-left", "the stops of %s (%v) and %s (%v) have similar names and places, but no common station", g, members[g], h, members[h]))
				}
			}
		}
	}
	if childless {
		x.mark("a station without stops was joined")
		return
	}
	mp := func(s string) string {
		if t := to[s]; t != "" {
			return t
		}
		return s
	}
	mi := mapper{"from_stop_id": mp, "to_stop_id": mp}
	vs = append(vs, cmpFacts("row:pathways.txt", in.mappedRows("pathways.txt", extra, mi), out.mappedRows("pathways.txt", extra, nil))...)
	vs = append(vs, mergedTransfers(in, out, extra, mi, nil)...)
	return
}

var _ = fmt.Sprint
var _ = sort.Strings
