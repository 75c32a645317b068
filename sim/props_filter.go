package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// ring is a closed line of (lon, lat) points; area an outer ring with holes.
type ring [][2]float64
type area []ring

// inRing is the even-odd rule.
func inRing(l ring, x, y float64) bool {
	in := false
	for i, j := 0, len(l)-1; i < len(l); j, i = i, i+1 {
		a, b := l[i], l[j]
		if (a[1] > y) != (b[1] > y) && x < (b[0]-a[0])*(y-a[1])/(b[1]-a[1])+a[0] {
			in = !in
		}
	}
	return in
}

func (a area) contains(x, y float64) bool {
	if len(a) == 0 || !inRing(a[0], x, y) {
		return false
	}
	for _, h := range a[1:] {
		if inRing(h, x, y) {
			return false
		}
	}
	return true
}

// near: the point is too close to a border to say on which side it is.
func (a area) near(x, y float64) bool {
	for _, l := range a {
		for i := range l {
			p, q := l[i], l[(i+1)%len(l)]
			dx, dy := q[0]-p[0], q[1]-p[1]
			t := 0.0
			if n := dx*dx + dy*dy; n > 0 {
				t = math.Max(0, math.Min(1, ((x-p[0])*dx+(y-p[1])*dy)/n))
			}
			if math.Hypot(p[0]+t*dx-x, p[1]+t*dy-y) < 2e-5 {
				return true
			}
		}
	}
	return false
}

func parsePairs(s string) (ring, bool) {
	var l ring
	p := strings.Split(strings.TrimSpace(s), ",")
	if len(p)%2 != 0 {
		return nil, false
	}
	for i := 0; i < len(p); i += 2 {
		y, e := strconv.ParseFloat(strings.TrimSpace(p[i]), 64)
		x, e2 := strconv.ParseFloat(strings.TrimSpace(p[i+1]), 64)
		if e != nil || e2 != nil {
			return nil, false
		}
		l = append(l, [2]float64{x, y})
	}
	return l, true
}

type geoFeature struct {
	Type       string                 `json:"type"`
	Properties map[string]interface{} `json:"properties"`
	Geometry   struct {
		Type        string          `json:"type"`
		Coordinates json.RawMessage `json:"coordinates"`
	} `json:"geometry"`
}

type geoColl struct {
	Type     string       `json:"type"`
	Features []geoFeature `json:"features"`
}

// areas are the areas that the options of the scenario select.
func (s *Scenario) areas() []area {
	var out []area
	for _, f := range s.Flags {
		k := strings.IndexByte(f, '=')
		if k < 0 {
			continue
		}
		v := f[k+1:]
		switch f[:k] {
		case "--bounding-box":
			if l, ok := parsePairs(v); ok && len(l) == 2 {
				out = append(out, area{{l[0], {l[0][0], l[1][1]}, l[1], {l[1][0], l[0][1]}}})
			}
		case "--polygon":
			if l, ok := parsePairs(v); ok {
				out = append(out, area{l})
			}
		case "--polygon-file":
			c := s.Files[v]
			if !strings.HasSuffix(v, "json") {
				if l, ok := parsePairs(c); ok {
					out = append(out, area{l})
				}
				continue
			}
			var g geoColl
			if json.Unmarshal([]byte(c), &g) != nil {
				continue
			}
			for _, ft := range g.Features {
				if ft.Geometry.Type == "Polygon" {
					var a area
					json.Unmarshal(ft.Geometry.Coordinates, &a)
					out = append(out, a)
				} else if ft.Geometry.Type == "MultiPolygon" {
					var a []area
					json.Unmarshal(ft.Geometry.Coordinates, &a)
					out = append(out, a...)
				}
			}
		}
	}
	return out
}

// genRing is a simple polygon around a random place: corners at growing
// angles, at varying distances.
func genRing(r *rng, cx, cy, size float64) ring {
	n := 3 + r.n(6)
	var ang []float64
	for i := 0; i < n; i++ {
		ang = append(ang, (float64(i)+0.8*r.f())*2*math.Pi/float64(n))
	}
	sort.Float64s(ang)
	if r.p(50) {
		for i := range ang {
			ang[i] = -ang[i]
		}
	}
	var l ring
	for _, a := range ang {
		d := size * (0.4 + 0.6*r.f())
		l = append(l, [2]float64{math.Round((cx+1.4*d*math.Cos(a))*1e6) / 1e6, math.Round((cy+d*math.Sin(a))*1e6) / 1e6})
	}
	if r.p(50) {
		l = append(l, l[0])
	}
	return l
}

func pairs(r *rng, l ring) string {
	var p []string
	for _, c := range l {
		p = append(p, strconv.FormatFloat(c[1], 'f', -1, 64), strconv.FormatFloat(c[0], 'f', -1, 64))
	}
	return strings.Join(p, r.pick(",", ",", ", "))
}

// addAreas adds options that select areas around the stops of the feed.
func addAreas(r *rng, sc *Scenario) {
	stops := sc.Feeds[r.n(len(sc.Feeds))].rows("stops.txt")
	centre := func() (float64, float64) {
		s := stops[r.n(len(stops))]
		y, _ := strconv.ParseFloat(s["stop_lat"], 64)
		x, _ := strconv.ParseFloat(s["stop_lon"], 64)
		return x + 0.012*(r.f()-0.5), y + 0.008*(r.f()-0.5)
	}
	size := func() float64 { return r.pickf(0.004, 0.012, 0.012, 0.03) }
	closed := func(l ring) ring { // GeoJSON rings are closed
		if l[0] != l[len(l)-1] {
			l = append(l, l[0])
		}
		return l
	}
	poly := func() area {
		x, y := centre()
		sz := size()
		a := area{closed(genRing(r, x, y, sz))}
		if r.p(40) {
			a = append(a, closed(genRing(r, x, y, sz*0.45)))
		}
		return a
	}
	for n := 1 + r.n(2) + r.n(2); n > 0; n-- {
		x, y := centre()
		switch r.n(4) {
		case 0:
			a, b, c, d := x-size(), y-size(), x+size(), y+size()
			if r.p(30) {
				a, c = c, a
			}
			if r.p(30) {
				b, d = d, b
			}
			sc.Flags = append(sc.Flags, fmt.Sprintf("--bounding-box=%s%.5f,%.5f,%.5f,%.5f", r.pick("", "", " "), b, a, d, c))
		case 1:
			sc.Flags = append(sc.Flags, "--polygon="+pairs(r, genRing(r, x, y, size())))
		default:
			if sc.Files == nil {
				sc.Files = map[string]string{}
			}
			name := fmt.Sprintf("area%d%s", n, r.pick(".txt", "", ".json", ".geojson", ".geojson"))
			if !strings.HasSuffix(name, "json") {
				sc.Files[name] = pairs(r, genRing(r, x, y, size())) + r.pick("", "\n")
			} else {
				g := geoColl{Type: "FeatureCollection"}
				for k := 1 + r.n(2); k > 0; k-- {
					ft := geoFeature{Type: "Feature", Properties: map[string]interface{}{}}
					var c interface{}
					if r.p(60) {
						ft.Geometry.Type = "Polygon"
						c = poly()
					} else {
						ft.Geometry.Type = "MultiPolygon"
						l := []area{poly()}
						if r.p(50) {
							l = append(l, poly())
						}
						c = l
					}
					ft.Geometry.Coordinates, _ = json.Marshal(c)
					g.Features = append(g.Features, ft)
				}
				b, _ := json.Marshal(g)
				sc.Files[name] = string(b)
			}
			sc.Flags = append(sc.Flags, "--polygon-file="+name)
		}
	}
}

func modeSet(s string) map[string]bool {
	m := map[string]bool{}
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			m[x] = true
		}
	}
	return m
}

// filtered is the reference model of the filters: the feed that has to be
// left of in, with the dates on which its services run. reject is set if an
// entrance, node or boarding area loses the station it cannot be without.
func filtered(sc *Scenario, in *Mod) (want Feed, active map[string]map[string]bool, reject, unclear bool) {
	want = in.feed.clone()
	routes, trips, stops := map[string]bool{}, map[string]bool{}, map[string]bool{}
	keep, _ := sc.valAny("-M", "--keep-mots")
	drop, _ := sc.valAny("-N", "--drop-mots")
	km, dm := modeSet(keep), modeSet(drop)
	for id, r := range in.routes {
		if (len(km) == 0 || km[r["route_type"]]) && !dm[r["route_type"]] {
			routes[id] = true
		}
	}
	from, _ := sc.val("--date-start")
	to, _ := sc.val("--date-end")
	active = map[string]map[string]bool{}
	for id := range in.services {
		active[id] = map[string]bool{}
		for d := range in.active[id] {
			if (from == "" || d >= from) && (to == "" || d <= to) {
				active[id][d] = true
			}
		}
	}
	as := sc.areas()
	whole := sc.has("--complete-filtered-trips")
	inside := func(lat, lon float64) bool {
		for _, a := range as {
			unclear = unclear || a.near(lon, lat)
		}
		for _, a := range as {
			if a.contains(lon, lat) {
				return true
			}
		}
		return false
	}
	hit := map[string]bool{}
	for id, s := range in.stops {
		if len(as) == 0 {
			stops[id] = true
			continue
		}
		lat, _ := f32(s["stop_lat"])
		lon, _ := f32(s["stop_lon"])
		if inside(lat, lon) {
			hit[id] = true
			stops[id] = true
			for p := s["parent_station"]; whole && p != ""; p = in.stops[p]["parent_station"] {
				stops[p] = true
			}
		}
	}
	cut := len(as) > 0 && !whole
	for id, t := range in.trips {
		ok := routes[t["route_id"]]
		if (from != "" || to != "") && len(active[t["service_id"]]) == 0 {
			ok = false
		}
		n, touch := 0, len(as) == 0 || cut
		for _, st := range in.st[id] {
			if !cut || stops[st["stop_id"]] {
				n++
			}
			touch = touch || hit[st["stop_id"]]
		}
		if !touch || sc.has("--drop-single-stop-trips") && n < 2 {
			ok = false
		}
		if ok {
			trips[id] = true
		}
	}
	if len(as) > 0 && whole {
		for id := range trips {
			for _, st := range in.st[id] {
				stops[st["stop_id"]] = true
				if p := in.stops[st["stop_id"]]["parent_station"]; p != "" {
					stops[p] = true
				}
			}
		}
	}
	del := func(file string, ok func(r Row) bool) {
		t := want[file]
		if t == nil {
			return
		}
		var l [][]string
		for i, r := range want.rows(file) {
			if ok(r) {
				l = append(l, t.Rows[i])
			}
		}
		t.Rows = l
	}
	ref := func(set map[string]bool, id string) bool { return id == "" || set[id] }
	if cut {
		del("shapes.txt", func(r Row) bool {
			lat, _ := f32(r["shape_pt_lat"])
			lon, _ := f32(r["shape_pt_lon"])
			return inside(lat, lon)
		})
		left := map[string]bool{}
		for _, r := range want.rows("shapes.txt") {
			left[r["shape_id"]] = true
		}
		t := want["trips.txt"]
		if c := t.col("shape_id"); c >= 0 {
			for _, r := range t.Rows {
				if c < len(r) && !left[r[c]] {
					r[c] = ""
				}
			}
		}
	}
	del("routes.txt", func(r Row) bool { return routes[r["route_id"]] })
	del("trips.txt", func(r Row) bool { return trips[r["trip_id"]] })
	del("stop_times.txt", func(r Row) bool { return trips[r["trip_id"]] && (!cut || stops[r["stop_id"]]) })
	del("frequencies.txt", func(r Row) bool { return trips[r["trip_id"]] })
	if len(as) > 0 {
		del("stops.txt", func(r Row) bool { return stops[r["stop_id"]] })
		t := want["stops.txt"]
		if c := t.col("parent_station"); c >= 0 {
			for i, r := range want.rows("stops.txt") {
				if p := r["parent_station"]; p != "" && !stops[p] {
					t.Rows[i][c] = ""
					if lt := r["location_type"]; lt != "" && lt != "0" {
						reject = true
					}
				}
			}
		}
	}
	del("pathways.txt", func(r Row) bool { return stops[r["from_stop_id"]] && stops[r["to_stop_id"]] })
	del("transfers.txt", func(r Row) bool {
		for _, d := range []string{"from", "to"} {
			if !ref(stops, r[d+"_stop_id"]) || !ref(routes, r[d+"_route_id"]) || !ref(trips, r[d+"_trip_id"]) {
				return false
			}
		}
		return true
	})
	del("attributions.txt", func(r Row) bool { return ref(routes, r["route_id"]) && ref(trips, r["trip_id"]) })
	del("fare_rules.txt", func(r Row) bool { return ref(routes, r["route_id"]) })
	return
}

func init() {
	register(&Prop{ID: "C18", Quick: 18000,
		Rule: "One or two random feeds are run through a mixture of date, mode and area filters (boxes, polygons, polygon and GeoJSON files with holes, with and without complete trips) and --drop-single-stop-trips; every row has to be what a reference model of the filters leaves. Non-trivial: the filters removed something and left something.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Stops = [2]int{3, 10}
			o.Trips = [2]int{1, 9}
			o.Aux = r.pickn(20, 60)
			o.SingleStop = r.pickn(0, 10, 30)
			o.AddFlds = r.pickn(0, 0, 50)
			o.Freq = r.pickn(0, 20)
			sc := baseScenario(r, o)
			if r.p(30) {
				addPlaces(r, sc.Feeds[0], 1+r.n(3))
			}
			if r.p(25) {
				workShapes(r, sc.Feeds[0], 1+r.n(3))
			}
			if r.p(15) {
				sc.Feeds = append(sc.Feeds, genFeed(r, o))
				sc.InZip = append(sc.InZip, r.p(40))
				sameZone(sc.Feeds)
			} else if r.p(10) {
				sc.Flags = append(sc.Flags, "--prefix="+r.pick("x", "7"))
			}
			f := sc.Feeds[0]
			if r.p(50) {
				// days at the edges of what the services cover
				var ds []string
				for _, c := range f.rows("calendar.txt") {
					ds = append(ds, c["start_date"], c["end_date"])
				}
				for _, c := range f.rows("calendar_dates.txt") {
					ds = append(ds, c["date"])
				}
				day := func() string {
					if len(ds) > 0 && r.p(70) {
						return shiftDay(ds[r.n(len(ds))], r.n(3)-1)
					}
					return fmt.Sprintf("2020%02d%02d", 1+r.n(3), 1+r.n(28))
				}
				a, b := day(), day()
				if a > b && r.p(90) {
					a, b = b, a
				}
				k := r.n(4)
				if k != 0 {
					sc.Flags = append(sc.Flags, "--date-start="+a)
				}
				if k != 1 {
					sc.Flags = append(sc.Flags, "--date-end="+b)
				}
			}
			if r.p(35) {
				k := r.n(5)
				keep := r.pick("3", "0,1", "2", "3,4", "0,1,2,3,4", "1, 3", "2,,0")
				drop := r.pick("3", "0,1", "2", "1,4", " 3 ,2", "2,,0")
				if r.p(25) {
					types := []string{"0", "3", "100", "109", "700", "704", "1000", "1100", "1300", "1501", "1700"}
					for _, f := range sc.Feeds {
						t := f["routes.txt"]
						for _, x := range t.Rows {
							x[t.col("route_type")] = types[r.n(len(types))]
						}
					}
					some := func() string {
						var l []string
						for k := 1 + r.n(5); k > 0; k-- {
							l = append(l, types[r.n(len(types))])
						}
						return strings.Join(l, ",")
					}
					keep, drop = some(), some()
				}
				if k != 0 && k != 1 {
					sc.Flags = append(sc.Flags, r.pick("-M", "--keep-mots")+"="+keep)
				}
				if k != 2 && k != 3 {
					sc.Flags = append(sc.Flags, r.pick("-N", "--drop-mots")+"="+drop)
				}
				if r.p(70) {
					// references to routes and trips that go end the run, see C10
					for _, f := range sc.Feeds {
						delete(f, "transfers.txt")
						if len(sc.Feeds) > 1 || sc.prefix(0) != "" {
							delete(f, "fare_rules.txt")
						}
					}
				}
			}
			if r.p(55) {
				addAreas(r, sc)
				if r.p(45) {
					sc.Flags = append(sc.Flags, "--complete-filtered-trips")
				}
			}
			if r.p(30) {
				sc.Flags = append(sc.Flags, "--drop-single-stop-trips")
			}
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 5, "--keep-col-order", "--unsorted-files", "-W", "--assume-clean-csv", "-e", "-z", "-n", "--explicit-calendar")...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if sc.has("-D", "--fix") {
				return nil
			}
			in := inputModel(sc)
			want, active, reject, unclear := filtered(sc, in)
			if unclear {
				x.mark("a point too close to a border")
				return nil
			}
			names := x.prepare(sc)
			res := x.do(x.w.r, x.args(sc, names, sc.Out), sc.Sched, sc.Faults)
			if v := crashViol(res); len(v) > 0 {
				return v
			}
			if res.Exit != 0 {
				if reject && strings.Contains(res.Stderr, "cannot use as parent station") {
					x.mark("rejected: the station of an entrance, node or boarding area is outside")
					return nil
				}
				if filterViol(sc, res) != nil {
					x.mark("rejected: see the known findings of C10")
					return nil
				}
				return []Viol{viol("exit:"+msgClass(res.Stderr), "exit status %d on valid input: %s", res.Exit, head(res.Stderr, 400))}
			}
			f, err := x.w.out(sc.Out)
			if err != nil {
				return []Viol{viol("unreadable", "exit status 0, but the output cannot be read: %v", err)}
			}
			out, exp := newMod(f), newMod(want)
			var vs []Viol
			cut := len(sc.areas()) > 0 && !sc.has("--complete-filtered-trips")
			for _, v := range checkValid(out) {
				if !cut || v.Sig != "time-missing" { // see C10
					vs = append(vs, v)
				}
			}
			vs = append(vs, sameRows(exp, out, sc.has("-F"), contentTables...)...)
			a := map[string]int{}
			for id := range active {
				if len(active[id]) > 0 {
					a[id+":"+dateKey(active[id])] = 1
				}
			}
			vs = append(vs, cmpFacts("calendar", a, out.calFacts())...)
			less := len(exp.trips) < len(in.trips) || len(exp.stops) < len(in.stops) || len(want.rows("stop_times.txt")) < len(in.feed.rows("stop_times.txt"))
			for id := range active {
				less = less || len(active[id]) < len(in.active[id])
			}
			if less && len(out.trips) > 0 {
				x.nontrivial()
			}
			return vs
		}})
}

func shiftDay(d string, n int) string {
	t, err := time.Parse("20060102", d)
	if err != nil {
		return d
	}
	return t.AddDate(0, 0, n).Format("20060102")
}
