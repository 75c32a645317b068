package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// rng is a splitmix64 generator: every workload is a function of one seed.
type rng struct{ s uint64 }

func newRng(parts ...uint64) *rng {
	r := &rng{0x243f6a8885a308d3}
	for _, p := range parts {
		r.s ^= p + 0x9e3779b97f4a7c15 + r.s<<6 + r.s>>2
		r.next()
	}
	return r
}

func strSeed(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 0x100000001b3
	}
	return h
}

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(r.next() % uint64(k))
}
func (r *rng) rang(a, b int) int        { return a + r.n(b-a+1) }
func (r *rng) p(pct int) bool           { return r.n(100) < pct }
func (r *rng) pick(xs ...string) string { return xs[r.n(len(xs))] }
func (r *rng) f() float64               { return float64(r.next()>>11) / (1 << 53) }
func (r *rng) maybe(pct int, s string) string {
	if r.p(pct) {
		return s
	}
	return ""
}

// GenOpt are the knobs of the feed generator.
type GenOpt struct {
	Agencies, Stops, Routes, Services, Trips [2]int
	Shapes                                   int    // percent of trips with shapes
	Dup                                      int    // percent: duplicates of agencies, stops, routes, shapes, services
	DupTrips                                 int    // percent of trips that copy an earlier trip
	Regular                                  int    // percent of trips that belong to a regular series
	Freq                                     int    // percent of trips with frequencies.txt rows
	Orphans                                  int    // percent of extra unreferenced entities
	Aux                                      int    // percent: transfers, fares, pathways, levels, attributions
	AddFlds                                  int    // percent of tables with non-standard columns
	EmptyTimes                               int    // percent of inner stop times without times
	Span                                     [2]int // days covered by a service
	Blocks                                   int
	IDStyle                                  int // -1 random
	Parents                                  int // percent of stops below a station
	LateTimes                                bool
	ShapeDist                                int  // percent of shapes with shape_dist_traveled
	NoDupDist                                bool // duplicates have exactly equal coordinates
	WeirdText                                bool
	FarDup                                   int // percent of stops that look equal but are far away
	Translations                             int
	FeedInfo                                 int
	AgencyNoID                               int
	FastTrips                                int
	SingleStop                               int
	OrphanLevels                             bool
	YearCross                                int
}

func defaultGen() GenOpt {
	return GenOpt{
		Agencies: [2]int{1, 3}, Stops: [2]int{3, 9}, Routes: [2]int{1, 5}, Services: [2]int{1, 5}, Trips: [2]int{2, 16},
		Shapes: 50, Dup: 35, DupTrips: 25, Regular: 30, Freq: 10, Orphans: 20, Aux: 50, AddFlds: 0, EmptyTimes: 5,
		Span: [2]int{1, 40}, Blocks: 30, IDStyle: -1, Parents: 40, ShapeDist: 50, FeedInfo: 60, YearCross: 30,
	}
}

var schema = map[string][]string{
	"agency.txt":          {"agency_id", "agency_name", "agency_url", "agency_timezone", "agency_lang", "agency_phone", "agency_fare_url", "agency_email"},
	"stops.txt":           {"stop_id", "stop_code", "stop_name", "stop_desc", "stop_lat", "stop_lon", "zone_id", "stop_url", "location_type", "parent_station", "stop_timezone", "wheelchair_boarding", "level_id", "platform_code"},
	"routes.txt":          {"route_id", "agency_id", "route_short_name", "route_long_name", "route_desc", "route_type", "route_url", "route_color", "route_text_color", "route_sort_order", "continuous_pickup", "continuous_drop_off"},
	"trips.txt":           {"route_id", "service_id", "trip_id", "trip_headsign", "trip_short_name", "direction_id", "block_id", "shape_id", "wheelchair_accessible", "bikes_allowed"},
	"stop_times.txt":      {"trip_id", "arrival_time", "departure_time", "stop_id", "stop_sequence", "stop_headsign", "pickup_type", "drop_off_type", "continuous_pickup", "continuous_drop_off", "shape_dist_traveled", "timepoint"},
	"calendar.txt":        {"service_id", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "start_date", "end_date"},
	"calendar_dates.txt":  {"service_id", "date", "exception_type"},
	"fare_attributes.txt": {"fare_id", "price", "currency_type", "payment_method", "transfers", "agency_id", "transfer_duration"},
	"fare_rules.txt":      {"fare_id", "route_id", "origin_id", "destination_id", "contains_id"},
	"shapes.txt":          {"shape_id", "shape_pt_lat", "shape_pt_lon", "shape_pt_sequence", "shape_dist_traveled"},
	"frequencies.txt":     {"trip_id", "start_time", "end_time", "headway_secs", "exact_times"},
	"transfers.txt":       {"from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id", "transfer_type", "min_transfer_time"},
	"pathways.txt":        {"pathway_id", "from_stop_id", "to_stop_id", "pathway_mode", "is_bidirectional", "length", "traversal_time", "stair_count", "max_slope", "min_width", "signposted_as", "reversed_signposted_as"},
	"levels.txt":          {"level_id", "level_index", "level_name"},
	"feed_info.txt":       {"feed_publisher_name", "feed_publisher_url", "feed_lang", "feed_start_date", "feed_end_date", "feed_version", "feed_contact_email", "feed_contact_url"},
	"attributions.txt":    {"attribution_id", "agency_id", "route_id", "trip_id", "organization_name", "is_producer", "is_operator", "is_authority", "attribution_url", "attribution_email", "attribution_phone"},
}

type gen struct {
	r    *rng
	o    GenOpt
	f    Feed
	used map[string]map[string]bool
	ids  map[string][]string
	idst int
	base time.Time
	dom  int // how many different values additional fields have
	fill int // percent of additional fields that have one
}

func (g *gen) id(kind string, n int) string {
	u := g.used[kind]
	if u == nil {
		u = map[string]bool{}
		g.used[kind] = u
	}
	for try := 0; ; try++ {
		var s string
		st := g.idst
		if st == 4 {
			st = g.r.n(4)
		}
		switch st {
		case 0:
			s = fmt.Sprintf("%s_%d", kind, n)
		case 1: // small numbers: collide with minimised numeric ids
			s = strconv.Itoa(g.r.n(30))
		case 2: // short letters: collide with minimised character ids
			s = strconv.FormatInt(int64(g.r.n(60)), 36)
		case 3:
			s = g.r.pick("de:08111:", "x-", "Linie ", "ÄÖ", `a,"b" `) + strconv.Itoa(g.r.n(900))
		}
		if l := g.ids[kind]; g.r.p(6) {
			// what the program itself makes up: prefixes of inputs, copies
			s = g.r.pick("merged0", "merged1", "Monday", "WW1")
			if len(l) > 0 {
				x := l[g.r.n(len(l))]
				s = g.r.pick("0#"+x, "1#"+x, "0#0#"+x, "par::"+x, "par1::"+x, x+"_2", x+"_3", x+":Monday", x+"1", x+strconv.Itoa(g.r.n(30)))
			}
		}
		if !u[s] {
			u[s] = true
			g.ids[kind] = append(g.ids[kind], s)
			return s
		}
		if try > 20 {
			g.idst = 0
			n += 1000
		}
	}
}

func (g *gen) table(name string, addPct int) *Table {
	t := &Table{Header: append([]string(nil), schema[name]...)}
	g.f[name] = t
	if addPct > 0 && g.r.p(addPct) {
		k := 1 + g.r.n(2)
		for i := 0; i < k; i++ {
			t.Header = append(t.Header, []string{"x_note", "internal_ref"}[i])
		}
	}
	return t
}

func (g *gen) addTo(file string, c map[string]string) {
	t := g.f[file]
	for _, h := range []string{"x_note", "internal_ref"} {
		if t.col(h) >= 0 && c[h] == "" && g.r.p(g.fill) {
			c[h] = "v" + strconv.Itoa(g.r.n(g.dom))
			if g.dom > 2 {
				c[h] = g.r.pick("n", "ref", "v") + strconv.Itoa(g.r.n(50))
			}
		}
	}
	g.f.add(file, c)
}

func (g *gen) text(kind string, n int) string {
	if g.o.WeirdText && g.r.p(30) {
		return g.r.pick("Größe, ", "A \"quoted\" ", "Śródmieście ", "日本 ", "semi;colon ", "a/b & c ") + kind + strconv.Itoa(n)
	}
	return kind + " " + strconv.Itoa(n)
}

func date(t time.Time) string { return t.Format("20060102") }

func hms(s int) string { return fmt.Sprintf("%02d:%02d:%02d", s/3600, s/60%60, s%60) }

func flt(v float64) string {
	return strconv.FormatFloat(v, 'f', 6, 64)
}

type genStop struct {
	id, parent string
	lat, lon   float64
	lt         int
}

// place n lies on a grid with about 1 km between places, so that places are
// never near each other by accident
func place(n int) (float64, float64) {
	return 47.5 + float64(n/5)*0.01, 7.8 + float64(n%5)*0.0137
}

func cp(m map[string]string) map[string]string {
	n := map[string]string{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

type gpat struct {
	stops []string
	arr   []int
	dep   []int
	pu    []string
	do    []string
	shape string
	route string
}

// genFeed builds one valid feed.
func genFeed(r *rng, o GenOpt) Feed {
	g := &gen{r: r, o: o, f: Feed{}, used: map[string]map[string]bool{}, ids: map[string][]string{}, dom: r.pickn(1, 2, 50, 50), fill: r.pickn(25, 80, 80, 100)}
	g.idst = o.IDStyle
	if g.idst < 0 {
		g.idst = r.n(5)
	}
	f := g.f
	if r.p(3) && o.Trips[1] > 8 { // a larger one
		for _, n := range []*[2]int{&o.Stops, &o.Routes, &o.Services, &o.Trips} {
			n[1] *= 2 + r.n(6)
		}
		if r.p(30) {
			o.Routes[0], o.Services[0], o.Trips[0] = 45, 10, 100
		}
		for _, n := range []*[2]int{&o.Stops, &o.Routes, &o.Services, &o.Trips} {
			if n[1] < n[0] {
				n[1] = n[0]
			}
		}
		g.o = o
	}

	// agencies
	g.table("agency.txt", o.AddFlds)
	na := r.rang(o.Agencies[0], o.Agencies[1])
	var agencies []string
	tz := r.pick("Europe/Berlin", "Europe/Paris", "America/New_York")
	var ag []map[string]string
	for i := 0; i < na; i++ {
		var c map[string]string
		if i > 0 && r.p(o.Dup) {
			c = cp(ag[r.n(len(ag))])
			if r.p(25) {
				// a near duplicate: differs in one visible attribute
				k := r.pick("agency_name", "agency_phone", "agency_lang", "agency_email", "agency_fare_url", "agency_url")
				c[k] = map[string]string{"agency_name": "Other " + strconv.Itoa(i), "agency_phone": "+49 99", "agency_lang": "pl",
					"agency_email": "z@example.org", "agency_fare_url": "http://fares.example.org/z", "agency_url": "http://z.example.org/"}[k]
			}
		} else {
			c = map[string]string{"agency_name": g.text("Agency", i), "agency_url": fmt.Sprintf("http://a%d.example.org/", i), "agency_timezone": tz,
				"agency_lang": r.pick("", "de", "en", "fr"), "agency_phone": r.maybe(40, fmt.Sprintf("+49 76%d", i)),
				"agency_fare_url": r.maybe(30, fmt.Sprintf("http://fare.example.org/%d", i)), "agency_email": r.maybe(30, fmt.Sprintf("info%d@example.org", i))}
		}
		c["agency_id"] = g.id("agency", i)
		ag = append(ag, c)
		agencies = append(agencies, c["agency_id"])
		g.addTo("agency.txt", cp(c))
	}

	// feed info
	if r.p(o.FeedInfo) {
		g.table("feed_info.txt", 0)
		g.addTo("feed_info.txt", map[string]string{"feed_publisher_name": g.text("Publisher", r.n(9)), "feed_publisher_url": "http://pub.example.org/", "feed_lang": r.pick("de", "en"),
			"feed_start_date": r.maybe(50, "20191201"), "feed_end_date": r.maybe(50, "20201231"), "feed_version": r.maybe(50, "v"+strconv.Itoa(r.n(99)))})
	}

	// levels
	var levels []string
	if r.p(o.Aux) {
		g.table("levels.txt", o.AddFlds)
		var prev map[string]string
		for i := 0; i < 1+r.n(3); i++ {
			c := map[string]string{"level_index": strconv.Itoa(i - 1), "level_name": r.maybe(70, "Level "+strconv.Itoa(i))}
			if prev != nil && r.p(o.Dup) {
				c = cp(prev)
			}
			prev = cp(c)
			c["level_id"] = g.id("level", i)
			levels = append(levels, c["level_id"])
			g.addTo("levels.txt", c)
		}
	}

	// stops
	g.table("stops.txt", o.AddFlds)
	ns := r.rang(o.Stops[0], o.Stops[1])
	var stops []genStop // boardable
	var all []genStop
	var cells []map[string]string
	zones := []string{"", "Z1", "Z2"}
	addStop := func(c map[string]string, lat, lon float64) genStop {
		c["stop_lat"], c["stop_lon"] = flt(lat), flt(lon)
		lt, _ := strconv.Atoi(c["location_type"])
		s := genStop{id: c["stop_id"], parent: c["parent_station"], lat: lat, lon: lon, lt: lt}
		all = append(all, s)
		cells = append(cells, c)
		if lt == 0 {
			stops = append(stops, s)
		}
		g.addTo("stops.txt", cp(c))
		return s
	}
	jit := func() float64 {
		if o.NoDupDist {
			return 0
		}
		return float64(r.n(5)-2) * 1e-6 // at most 0.3 m
	}
	for i := 0; i < ns; i++ {
		if len(all) > 0 && r.p(o.Dup) {
			// an exact or near copy of an earlier stop
			k := r.n(len(all))
			c := cp(cells[k])
			src := all[k]
			c["stop_id"] = g.id("stop", i)
			lat, lon := src.lat+jit(), src.lon+jit()
			if r.p(20) {
				key := r.pick("stop_name", "stop_code", "platform_code", "zone_id", "wheelchair_boarding", "stop_desc", "stop_timezone", "stop_url", "level_id")
				switch key {
				case "stop_name":
					c[key] = "Other stop " + strconv.Itoa(i)
				case "wheelchair_boarding":
					c[key] = strconv.Itoa(r.n(3))
				case "zone_id":
					c[key] = "Z9"
				case "stop_timezone":
					if src.lt == 0 && src.parent != "" {
						break
					}
					c[key] = "Europe/London"
				case "stop_url":
					c[key] = "http://stops.example.org/" + strconv.Itoa(i)
				case "level_id":
					if len(levels) > 0 {
						c[key] = levels[r.n(len(levels))]
					}
				default:
					c[key] = "k" + strconv.Itoa(i)
				}
			} else if r.p(o.FarDup) {
				lat += 0.0011 // more than 100 m
			}
			addStop(c, lat, lon)
			continue
		}
		lat, lon := place(i)
		c := map[string]string{"stop_id": g.id("stop", i), "stop_name": g.text("Stop", i), "stop_code": r.maybe(40, "C"+strconv.Itoa(i)), "stop_desc": r.maybe(20, "desc "+strconv.Itoa(i)),
			"zone_id": zones[r.n(len(zones))], "stop_url": r.maybe(15, fmt.Sprintf("http://s.example.org/%d", i)), "location_type": r.pick("", "0"),
			"stop_timezone": r.maybe(10, tz), "wheelchair_boarding": r.pick("", "0", "1", "2"), "platform_code": r.maybe(25, strconv.Itoa(r.n(4)))}
		if len(levels) > 0 && r.p(40) {
			c["level_id"] = levels[r.n(len(levels))]
		}
		if r.p(o.Parents) {
			// a station and one or two platforms
			st := map[string]string{"stop_id": g.id("stop", i+100), "stop_name": g.text("Station", i), "location_type": "1", "zone_id": zones[r.n(len(zones))],
				"wheelchair_boarding": r.pick("", "1"), "stop_code": r.maybe(20, "SC"+strconv.Itoa(i))}
			addStop(st, lat, lon)
			for j := 0; j <= r.n(2); j++ {
				d := cp(c)
				d["stop_id"] = g.id("stop", i*10+j)
				d["parent_station"] = st["stop_id"]
				d["stop_timezone"] = ""
				if j > 0 {
					d["platform_code"] = strconv.Itoa(j + 5)
				}
				addStop(d, lat+float64(j)*0.0002, lon)
				i++
			}
			if r.p(25) {
				e := map[string]string{"stop_id": g.id("stop", i+200), "stop_name": g.text("Entrance", i), "location_type": "2", "parent_station": st["stop_id"]}
				addStop(e, lat+0.0001, lon+0.0001)
			}
			continue
		}
		addStop(c, lat, lon)
	}
	for len(stops) < 3 {
		lat, lon := place(ns + len(stops))
		addStop(map[string]string{"stop_id": g.id("stop", 500+len(stops)), "stop_name": g.text("Extra", len(stops)), "location_type": "0"}, lat, lon)
	}

	// routes
	g.table("routes.txt", o.AddFlds)
	nr := r.rang(o.Routes[0], o.Routes[1])
	var routes []string
	var rc []map[string]string
	for i := 0; i < nr; i++ {
		var c map[string]string
		if i > 0 && r.p(o.Dup) {
			c = cp(rc[r.n(len(rc))])
			if r.p(25) {
				key := r.pick("route_short_name", "route_long_name", "route_type", "route_color", "route_desc", "agency_id", "route_url", "route_text_color", "continuous_pickup")
				c[key] = map[string]string{"route_short_name": "N" + strconv.Itoa(i), "route_long_name": "LN" + strconv.Itoa(i), "route_type": "2", "route_color": "00FF0" + strconv.Itoa(i%10),
					"route_desc": "d" + strconv.Itoa(i), "agency_id": agencies[r.n(len(agencies))], "route_url": "http://r.example.org/x" + strconv.Itoa(i), "route_text_color": "0000F" + strconv.Itoa(i%10),
					"continuous_pickup": "2"}[key]
			}
		} else {
			c = map[string]string{"agency_id": agencies[r.n(len(agencies))], "route_short_name": strconv.Itoa(i + 1), "route_long_name": r.maybe(60, g.text("Line", i)), "route_desc": r.maybe(20, "route desc"),
				"route_type": r.pick("0", "1", "2", "3", "3", "3", "4"), "route_url": r.maybe(20, "http://r.example.org/"+strconv.Itoa(i)), "route_color": r.pick("", "FF0000", "00FF00", "FFFFFF"),
				"route_text_color": r.pick("", "000000", "FFFFFF"), "continuous_pickup": r.pick("", "", "1", "0"), "continuous_drop_off": r.pick("", "", "1", "3")}
		}
		c["route_id"] = g.id("route", i)
		if r.p(20) {
			c["route_sort_order"] = strconv.Itoa(r.n(5))
		}
		rc = append(rc, c)
		routes = append(routes, c["route_id"])
		g.addTo("routes.txt", cp(c))
	}

	// services
	g.table("calendar.txt", 0)
	g.table("calendar_dates.txt", 0)
	if r.p(o.YearCross) {
		g.base = time.Date(2019, 12, 20+r.n(8), 12, 0, 0, 0, time.UTC)
	} else {
		g.base = time.Date(2020, time.Month(1+r.n(3)), 1+r.n(28), 12, 0, 0, 0, time.UTC)
	}
	nsv := r.rang(o.Services[0], o.Services[1])
	var services []string
	type sv struct {
		days   [7]string
		s, e   time.Time
		hasCal bool
		ex     map[string]string
	}
	var svs []sv
	emit := func(v sv, n int) {
		id := g.id("service", n)
		services = append(services, id)
		svs = append(svs, v)
		if v.hasCal {
			c := map[string]string{"service_id": id, "start_date": date(v.s), "end_date": date(v.e)}
			for k, d := range []string{"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday"} {
				c[d] = v.days[k]
			}
			g.addTo("calendar.txt", c)
		}
		var ds []string
		for d := range v.ex {
			ds = append(ds, d)
		}
		sort.Strings(ds)
		for _, d := range ds {
			g.addTo("calendar_dates.txt", map[string]string{"service_id": id, "date": d, "exception_type": v.ex[d]})
		}
	}
	for i := 0; i < nsv; i++ {
		var v sv
		span := r.rang(o.Span[0], o.Span[1])
		if i > 0 && r.p(o.Dup) {
			src := svs[r.n(len(svs))]
			v = sv{days: src.days, s: src.s, e: src.e, hasCal: src.hasCal, ex: map[string]string{}}
			for k, x := range src.ex {
				v.ex[k] = x
			}
			switch r.n(6) {
			case 0: // the same days, written as explicit dates
				if v.hasCal {
					ex := map[string]string{}
					for d := v.s; !d.After(v.e); d = d.AddDate(0, 0, 1) {
						if v.days[(int(d.Weekday())+6)%7] == "1" && v.ex[date(d)] != "2" {
							ex[date(d)] = "1"
						}
					}
					for k, x := range v.ex {
						if x == "1" {
							ex[k] = "1"
						}
					}
					if len(ex) > 0 {
						v.hasCal = false
						v.ex = ex
					}
				}
			case 1: // one day removed
				d := date(v.s.AddDate(0, 0, r.n(7)))
				v.ex[d] = "2"
			case 2: // one day added
				d := date(v.e.AddDate(0, 0, 1+r.n(3)))
				v.ex[d] = "1"
			case 3: // the following period
				n := int(v.e.Sub(v.s).Hours()/24) + 1
				if v.hasCal {
					v.s, v.e = v.s.AddDate(0, 0, n), v.e.AddDate(0, 0, n)
					v.ex = map[string]string{}
				}
			case 4: // another weekday pattern
				k := r.n(7)
				v.days[k] = map[string]string{"0": "1", "1": "0"}[v.days[k]]
			}
		} else {
			v.s = g.base.AddDate(0, 0, r.n(14))
			v.e = v.s.AddDate(0, 0, span-1)
			v.ex = map[string]string{}
			if r.p(75) {
				v.hasCal = true
				for k := range v.days {
					v.days[k] = r.pick("0", "1", "1")
				}
				if r.p(40) {
					for k := range v.days {
						v.days[k] = map[bool]string{true: "1", false: "0"}[k < 5]
					}
				}
				for j := 0; j < r.n(4); j++ {
					v.ex[date(v.s.AddDate(0, 0, r.n(span+6)-3))] = r.pick("1", "2", "2")
				}
			} else {
				for j := 0; j <= r.n(8); j++ {
					v.ex[date(v.s.AddDate(0, 0, r.n(span)))] = r.pick("1", "1", "1", "2")
				}
			}
		}
		emit(v, i)
	}

	// shapes
	var shapeRows []map[string]string
	g.table("shapes.txt", o.AddFlds)
	type shp struct {
		id   string
		rows []map[string]string
	}
	shapeFor := map[string][]shp{}
	mkShape := func(pat []string, n int) string {
		key := strings.Join(pat, "|")
		if l := shapeFor[key]; len(l) > 0 && r.p(60) {
			s := l[r.n(len(l))]
			if !r.p(o.Dup) {
				return s.id
			}
			// the same line under another id, possibly with a small offset
			id := g.id("shape", n)
			off := 0.0
			if r.p(30) {
				off = 3e-6
			}
			for _, row := range s.rows {
				c := cp(row)
				c["shape_id"] = id
				lat, _ := strconv.ParseFloat(c["shape_pt_lat"], 64)
				c["shape_pt_lat"] = flt(lat + off)
				g.addTo("shapes.txt", c)
			}
			return id
		}
		id := g.id("shape", n)
		var rows []map[string]string
		byID := map[string]genStop{}
		for _, s := range all {
			byID[s.id] = s
		}
		withDist := r.p(o.ShapeDist)
		unit := 1.0
		if r.p(30) {
			unit = 0.001
		}
		dist := 0.0
		var plat, plon float64
		seq := r.n(3)
		put := func(lat, lon float64, first bool) {
			if !first {
				dist += hav(plat, plon, lat, lon)
			}
			plat, plon = lat, lon
			c := map[string]string{"shape_id": id, "shape_pt_lat": flt(lat), "shape_pt_lon": flt(lon), "shape_pt_sequence": strconv.Itoa(seq)}
			seq += 1 + r.n(3)
			if withDist {
				if !r.p(15) || first {
					c["shape_dist_traveled"] = strconv.FormatFloat(dist*unit, 'f', 3, 64)
				}
			}
			rows = append(rows, c)
			g.addTo("shapes.txt", c)
		}
		for i, sid := range pat {
			s := byID[sid]
			if i > 0 {
				// intermediate points: some collinear, some off the line
				a := byID[pat[i-1]]
				m := r.n(5)
				for j := 1; j <= m; j++ {
					t := float64(j) / float64(m+1)
					lat, lon := a.lat+(s.lat-a.lat)*t, a.lon+(s.lon-a.lon)*t
					if r.p(60) {
						lat += (r.f() - 0.5) * r.pickf(0.000004, 0.00002, 0.0008)
						lon += (r.f() - 0.5) * r.pickf(0.000004, 0.00002, 0.0008)
					}
					put(lat, lon, false)
				}
			}
			put(s.lat, s.lon, i == 0)
		}
		shapeFor[key] = append(shapeFor[key], shp{id, rows})
		shapeRows = append(shapeRows, rows...)
		return id
	}

	// trips
	g.table("trips.txt", o.AddFlds)
	g.table("stop_times.txt", o.AddFlds)
	g.table("frequencies.txt", o.AddFlds)
	nt := r.rang(o.Trips[0], o.Trips[1])
	var trips []string
	type tr struct {
		c             map[string]string
		p             gpat
		off           int
		freq          []map[string]string
		seq0, seqStep int
		empty         []bool
		sd            []string
	}
	var trs []tr
	emitTrip := func(t tr) {
		trs = append(trs, t)
		trips = append(trips, t.c["trip_id"])
		g.addTo("trips.txt", cp(t.c))
		for i, s := range t.p.stops {
			c := map[string]string{"trip_id": t.c["trip_id"], "stop_id": s, "stop_sequence": strconv.Itoa(t.seq0 + i*t.seqStep), "pickup_type": t.p.pu[i], "drop_off_type": t.p.do[i]}
			if i < len(t.empty) && t.empty[i] {
				c["timepoint"] = r.pick("", "0")
			} else {
				c["arrival_time"], c["departure_time"] = hms(t.p.arr[i]+t.off), hms(t.p.dep[i]+t.off)
				c["timepoint"] = ""
			}
			if t.sd != nil {
				c["shape_dist_traveled"] = t.sd[i]
			}
			g.addTo("stop_times.txt", c)
		}
		for _, fr := range t.freq {
			c := cp(fr)
			c["trip_id"] = t.c["trip_id"]
			g.addTo("frequencies.txt", c)
		}
	}
	maxH := 22
	last := 31 * 3600
	if o.LateTimes {
		maxH = r.pickn(27, 27, 60)
		last = (maxH + 4) * 3600
	}
	newPattern := func() gpat {
		var p gpat
		n := 2 + r.n(4)
		if r.p(o.SingleStop) {
			n = 1
		}
		t := 0
		start := r.n(len(stops))
		for i := 0; i < n; i++ {
			var s genStop
			for k := 0; ; k++ {
				s = stops[(start+i+r.n(2))%len(stops)]
				if k > 5 || len(p.stops) == 0 || p.stops[len(p.stops)-1] != s.id {
					break
				}
			}
			p.stops = append(p.stops, s.id)
			p.arr = append(p.arr, t)
			dw := 0
			if r.p(50) {
				dw = 60 * r.n(3)
			} else if r.p(10) {
				dw = r.n(50)
			}
			p.dep = append(p.dep, t+dw)
			t += dw + 600 + 60*r.n(10)
			if r.p(10) {
				t += r.n(60)
			}
			pu, do := "", ""
			if r.p(12) {
				pu = strconv.Itoa(r.n(4))
			}
			if r.p(12) {
				do = strconv.Itoa(r.n(4))
			}
			p.pu = append(p.pu, pu)
			p.do = append(p.do, do)
		}
		p.route = routes[r.n(len(routes))]
		if n > 1 && r.p(o.Shapes) {
			p.shape = mkShape(p.stops, len(trips))
		}
		return p
	}
	var pats []gpat
	for len(trips) < nt {
		i := len(trips)
		if len(trs) > 0 && r.p(o.DupTrips) {
			src := trs[r.n(len(trs))]
			t := src
			t.c = cp(src.c)
			t.c["trip_id"] = g.id("trip", i)
			if r.p(15) {
				t.seq0, t.seqStep = r.n(3), 1+r.n(3)
			}
			switch r.n(8) {
			case 0, 1: // identical
			case 2, 3: // another service
				t.c["service_id"] = services[r.n(len(services))]
			case 4:
				t.c["route_id"] = routes[r.n(len(routes))]
			case 5:
				t.c[r.pick("trip_headsign", "trip_short_name")] = r.pick("", "To "+strconv.Itoa(i))
			case 6:
				// one visible stop time attribute differs
				k := r.n(len(t.p.stops))
				np := t.p
				np.arr = append([]int(nil), t.p.arr...)
				np.dep = append([]int(nil), t.p.dep...)
				np.pu = append([]string(nil), t.p.pu...)
				np.do = append([]string(nil), t.p.do...)
				switch r.n(4) {
				case 0:
					np.dep[k] += 30
					for j := k + 1; j < len(np.arr); j++ {
						np.arr[j] += 30
						np.dep[j] += 30
					}
				case 1:
					np.pu[k] = strconv.Itoa(r.n(4))
				case 2:
					np.do[k] = strconv.Itoa(r.n(4))
				case 3:
					if k > 0 && np.arr[k] > np.dep[k-1]+30 {
						np.arr[k] -= 20
					}
				}
				t.p = np
			case 7:
				t.c[r.pick("wheelchair_accessible", "bikes_allowed")] = r.pick("", "1", "2")
			}
			emitTrip(t)
			continue
		}
		var p gpat
		if len(pats) == 0 || r.p(50) {
			p = newPattern()
			pats = append(pats, p)
		} else {
			p = pats[r.n(len(pats))]
		}
		t := tr{p: p, off: r.rang(4, maxH)*3600 + r.n(12)*300, seq0: r.n(3), seqStep: 1 + r.n(3)}
		if r.p(10) {
			t.off += r.n(300)
		}
		if r.p(o.FastTrips) {
			for k := range t.p.arr {
				_ = k
			}
		}
		t.c = map[string]string{"trip_id": g.id("trip", i), "route_id": p.route, "service_id": services[r.n(len(services))], "trip_headsign": r.maybe(60, "To "+strconv.Itoa(r.n(4))),
			"trip_short_name": r.maybe(20, "T"+strconv.Itoa(i)), "direction_id": r.pick("", "0", "1"), "shape_id": p.shape, "wheelchair_accessible": r.pick("", "", "1", "2"),
			"bikes_allowed": r.pick("", "", "1")}
		if r.p(o.Blocks) {
			t.c["block_id"] = "B" + strconv.Itoa(r.n(4))
			if g.idst != 0 {
				t.c["block_id"] = strconv.Itoa(r.n(12))
			}
		}
		if len(p.stops) > 2 && r.p(o.EmptyTimes*3) {
			t.empty = make([]bool, len(p.stops))
			for k := 1; k+1 < len(p.stops); k++ {
				t.empty[k] = r.p(50)
			}
		}
		if p.shape != "" && r.p(o.ShapeDist/2) {
			// distances along the shape, when the shape has them
			t.sd = shapeDists(f, p.shape, p.stops, all)
		}
		if r.p(o.Freq) {
			st := t.off
			for k := 0; k <= r.n(2); k++ {
				hw := 60 * (5 + r.n(30))
				en := st + hw*(1+r.n(6)) - r.pickn(0, 0, 1, 60)
				t.freq = append(t.freq, map[string]string{"start_time": hms(st), "end_time": hms(en), "headway_secs": strconv.Itoa(hw), "exact_times": r.pick("", "0", "1", "1")})
				st = en + 3600*r.n(2) + 1
			}
		}
		emitTrip(t)
		if t.freq == nil && r.p(o.Regular) {
			step := 60 * (5 + r.n(30))
			k := 1 + r.n(6)
			for j := 1; j <= k; j++ {
				u := t
				u.c = cp(t.c)
				u.c["trip_id"] = g.id("trip", i*100+j)
				if t.c["trip_short_name"] != "" && r.p(50) {
					u.c["trip_short_name"] = ""
				}
				u.off = t.off + j*step
				if r.p(8) {
					u.off += 60
				}
				if u.p.dep[len(u.p.dep)-1]+u.off > last {
					break
				}
				emitTrip(u)
			}
		}
	}

	// unreferenced entities
	if r.p(o.Orphans) {
		for k := 0; k < 1+r.n(2); k++ {
			switch r.n(6) {
			case 0:
				lat, lon := place(60 + k)
				addStop(map[string]string{"stop_id": g.id("stop", 700+k), "stop_name": g.text("Orphan", k), "location_type": r.pick("0", "1")}, lat, lon)
			case 1:
				g.addTo("routes.txt", map[string]string{"route_id": g.id("route", 700+k), "agency_id": agencies[0], "route_short_name": "O" + strconv.Itoa(k), "route_type": "3"})
			case 2:
				v := sv{s: g.base, e: g.base.AddDate(0, 0, 5), hasCal: true, days: [7]string{"1", "1", "1", "1", "1", "1", "1"}, ex: map[string]string{}}
				emit(v, 700+k)
			case 3:
				mkShape([]string{stops[0].id, stops[len(stops)-1].id}, 700+k)
			case 4:
				g.addTo("agency.txt", map[string]string{"agency_id": g.id("agency", 700+k), "agency_name": g.text("Orphan agency", k), "agency_url": "http://o.example.org/", "agency_timezone": tz})
			case 5:
				// a trip without stop times or without service days
				g.addTo("trips.txt", map[string]string{"trip_id": g.id("trip", 7000+k), "route_id": routes[0], "service_id": services[0]})
			}
		}
	}

	// auxiliary tables
	if r.p(o.Aux) {
		g.table("transfers.txt", o.AddFlds)
		seen := map[string]bool{}
		for k := 0; k < r.n(6); k++ {
			a, b := all[r.n(len(all))], all[r.n(len(all))]
			if a.lt > 1 || b.lt > 1 {
				continue
			}
			c := map[string]string{"from_stop_id": a.id, "to_stop_id": b.id, "transfer_type": r.pick("", "0", "1", "2", "3")}
			if c["transfer_type"] == "2" {
				c["min_transfer_time"] = strconv.Itoa(60 * (1 + r.n(5)))
			}
			if r.p(25) {
				c["from_route_id"] = routes[r.n(len(routes))]
			}
			if r.p(25) {
				c["to_route_id"] = routes[r.n(len(routes))]
			}
			if r.p(15) {
				c["from_trip_id"] = trips[r.n(len(trips))]
			}
			if r.p(15) {
				c["to_trip_id"] = trips[r.n(len(trips))]
			}
			key := c["from_stop_id"] + "|" + c["to_stop_id"] + "|" + c["from_route_id"] + "|" + c["to_route_id"] + "|" + c["from_trip_id"] + "|" + c["to_trip_id"]
			if seen[key] {
				continue
			}
			seen[key] = true
			g.addTo("transfers.txt", c)
		}
	}
	if r.p(o.Aux) {
		g.table("fare_attributes.txt", o.AddFlds)
		g.table("fare_rules.txt", 0)
		for k := 0; k < 1+r.n(3); k++ {
			c := map[string]string{"fare_id": g.id("fare", k), "price": r.pick("1.20", "2.00", "3"), "currency_type": "EUR", "payment_method": r.pick("0", "1"), "transfers": r.pick("", "0", "1", "2"),
				"agency_id": agencies[r.n(len(agencies))], "transfer_duration": r.maybe(40, "3600")}
			if len(agencies) > 1 && c["agency_id"] == "" {
				c["agency_id"] = agencies[0]
			}
			g.addTo("fare_attributes.txt", c)
			seen := map[string]bool{}
			for j := 0; j < r.n(4); j++ {
				d := map[string]string{"fare_id": c["fare_id"], "route_id": r.maybe(80, routes[r.n(len(routes))]), "origin_id": r.pick("", "", "Z1"), "destination_id": r.pick("", "", "Z2"), "contains_id": r.pick("", "", "", "Z1")}
				key := d["route_id"] + "|" + d["origin_id"] + "|" + d["destination_id"] + "|" + d["contains_id"]
				if seen[key] || key == "|||" {
					continue
				}
				seen[key] = true
				g.addTo("fare_rules.txt", d)
			}
		}
	}
	if r.p(o.Aux) {
		g.table("pathways.txt", o.AddFlds)
		for k := 0; k < r.n(4); k++ {
			a, b := all[r.n(len(all))], all[r.n(len(all))]
			if a.id == b.id || a.lt == 1 || b.lt == 1 {
				continue
			}
			g.addTo("pathways.txt", map[string]string{"pathway_id": g.id("pathway", k), "from_stop_id": a.id, "to_stop_id": b.id, "pathway_mode": strconv.Itoa(1 + r.n(5)), "is_bidirectional": r.pick("0", "1"),
				"length": r.maybe(30, "12.5"), "traversal_time": r.maybe(30, "40"), "stair_count": r.maybe(20, "7"), "min_width": r.maybe(20, "2"), "signposted_as": r.maybe(30, "Gleis "+strconv.Itoa(k))})
		}
	}
	if r.p(o.Aux) {
		g.table("attributions.txt", o.AddFlds)
		for k := 0; k < 1+r.n(3); k++ {
			c := map[string]string{"attribution_id": g.id("attribution", k), "organization_name": g.text("Org", k), "is_producer": r.pick("1", "0"), "is_operator": r.pick("1", "0"), "is_authority": "1",
				"attribution_url": r.maybe(40, "http://org.example.org/"), "attribution_email": r.maybe(40, "org@example.org"), "attribution_phone": r.maybe(30, "123")}
			switch r.n(4) {
			case 0:
				c["agency_id"] = agencies[r.n(len(agencies))]
			case 1:
				c["route_id"] = routes[r.n(len(routes))]
			case 2:
				c["trip_id"] = trips[r.n(len(trips))]
			}
			g.addTo("attributions.txt", c)
		}
	}

	g.shuffle()
	g.trim()
	return f
}

func (r *rng) pickf(xs ...float64) float64 { return xs[r.n(len(xs))] }
func (r *rng) pickn(xs ...int) int         { return xs[r.n(len(xs))] }

// shapeDists gives the measure of each stop on its shape, or nil.
func shapeDists(f Feed, shape string, pat []string, all []genStop) []string {
	type pt struct {
		lat, lon string
		d        string
	}
	var pts []pt
	for _, r := range f.rows("shapes.txt") {
		if r["shape_id"] == shape {
			pts = append(pts, pt{r["shape_pt_lat"], r["shape_pt_lon"], r["shape_dist_traveled"]})
		}
	}
	var out []string
	k := 0
	for _, sid := range pat {
		found := false
		for _, s := range all {
			if s.id != sid {
				continue
			}
			for ; k < len(pts); k++ {
				if pts[k].lat == flt(s.lat) && pts[k].lon == flt(s.lon) && pts[k].d != "" {
					out = append(out, pts[k].d)
					k++
					found = true
					break
				}
			}
		}
		if !found {
			return nil
		}
	}
	return out
}

// shuffle changes the order of rows and columns, which means nothing.
func (g *gen) shuffle() {
	for _, n := range g.f.files() {
		t := g.f[n]
		if g.r.p(50) {
			for i := len(t.Rows) - 1; i > 0; i-- {
				j := g.r.n(i + 1)
				t.Rows[i], t.Rows[j] = t.Rows[j], t.Rows[i]
			}
		}
		if g.r.p(25) {
			perm := make([]int, len(t.Header))
			for i := range perm {
				perm[i] = i
			}
			for i := len(perm) - 1; i > 0; i-- {
				j := g.r.n(i + 1)
				perm[i], perm[j] = perm[j], perm[i]
			}
			ap := func(row []string) []string {
				o := make([]string, len(row))
				for i, p := range perm {
					o[i] = row[p]
				}
				return o
			}
			t.Header = ap(t.Header)
			for i := range t.Rows {
				t.Rows[i] = ap(t.Rows[i])
			}
		}
	}
}

var requiredFiles = map[string]bool{"agency.txt": true, "stops.txt": true, "routes.txt": true, "trips.txt": true, "stop_times.txt": true}

// trim drops empty optional tables and, sometimes, empty columns.
func (g *gen) trim() {
	for _, n := range g.f.files() {
		t := g.f[n]
		if len(t.Rows) == 0 && !requiredFiles[n] && !(n == "calendar.txt") && !(n == "calendar_dates.txt") {
			delete(g.f, n)
			continue
		}
		if g.r.p(50) {
			var keep []int
			for i := range t.Header {
				for _, row := range t.Rows {
					if row[i] != "" {
						keep = append(keep, i)
						break
					}
				}
			}
			if len(t.Rows) > 0 {
				ap := func(row []string) []string {
					var o []string
					for _, k := range keep {
						o = append(o, row[k])
					}
					return o
				}
				t.Header = ap(t.Header)
				for i := range t.Rows {
					t.Rows[i] = ap(t.Rows[i])
				}
			}
		}
	}
	if c := g.f["calendar.txt"]; c != nil && len(c.Rows) == 0 {
		delete(g.f, "calendar.txt")
	}
	if c := g.f["calendar_dates.txt"]; c != nil && len(c.Rows) == 0 {
		delete(g.f, "calendar_dates.txt")
	}
}

func hav(lat1, lon1, lat2, lon2 float64) float64 {
	const R = 6371000.0
	a := math.Pi / 180
	dla, dlo := (lat2-lat1)*a, (lon2-lon1)*a
	h := math.Sin(dla/2)*math.Sin(dla/2) + math.Cos(lat1*a)*math.Cos(lat2*a)*math.Sin(dlo/2)*math.Sin(dlo/2)
	return 2 * R * math.Asin(math.Min(1, math.Sqrt(h)))
}

func (r *rng) perm(n int) []int {
	l := make([]int, n)
	for i := range l {
		j := r.n(i + 1)
		l[i] = l[j]
		l[j] = i
	}
	return l
}
