package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"
)

// The reference model: what a feed means to a passenger, computed from plain
// tables without any code of gtfstidy, gtfsparser or gtfswriter.

type pt struct {
	lat, lon float64
	dist     float64
	hasDist  bool
	seq      int
}

// Mod is the indexed form of a feed.
type Mod struct {
	feed     Feed
	agency   map[string]Row
	stops    map[string]Row
	routes   map[string]Row
	trips    map[string]Row
	levels   map[string]Row
	fares    map[string]Row
	st       map[string][]Row // by trip, in sequence order
	active   map[string]map[string]bool
	services map[string]bool // every service id that is defined
	cal      map[string]Row
	calDates map[string]map[string]string
	shapes   map[string][]pt
	freqs    map[string][]Row
	pathways map[string]Row
	attrs    []Row
}

func f32(s string) (float64, bool) {
	v, err := strconv.ParseFloat(s, 32)
	if err != nil {
		return 0, false
	}
	return float64(float32(v)), true
}

func numNorm(s string) string {
	if s == "" {
		return ""
	}
	v, err := strconv.ParseFloat(s, 32)
	if err != nil {
		return "?" + s
	}
	return strconv.FormatFloat(v, 'g', -1, 32)
}

var fieldDefault = map[string]string{
	"stops.txt/location_type": "0", "stops.txt/wheelchair_boarding": "0",
	"stop_times.txt/pickup_type": "0", "stop_times.txt/drop_off_type": "0",
	"stop_times.txt/continuous_pickup": "1", "stop_times.txt/continuous_drop_off": "1",
	"routes.txt/continuous_pickup": "1", "routes.txt/continuous_drop_off": "1",
	"routes.txt/route_color": "FFFFFF", "routes.txt/route_text_color": "000000",
	"trips.txt/wheelchair_accessible": "0", "trips.txt/bikes_allowed": "0",
	"transfers.txt/transfer_type": "0", "frequencies.txt/exact_times": "0",
	"fare_attributes.txt/payment_method": "0", "fare_attributes.txt/transfer_duration": "0",
	"attributions.txt/is_producer": "0", "attributions.txt/is_operator": "0", "attributions.txt/is_authority": "0",
}

var floatField = map[string]bool{"stops.txt/stop_lat": true, "stops.txt/stop_lon": true, "shapes.txt/shape_pt_lat": true,
	"shapes.txt/shape_pt_lon": true, "shapes.txt/shape_dist_traveled": true, "stop_times.txt/shape_dist_traveled": true,
	"levels.txt/level_index": true, "pathways.txt/length": true, "pathways.txt/max_slope": true, "pathways.txt/min_width": true}

// nv is the meaning of a cell: defaults filled in, numbers in one format.
func nv(file, field, v string) string {
	k := file + "/" + field
	if v == "" {
		return fieldDefault[k]
	}
	if floatField[k] {
		return numNorm(v)
	}
	if strings.HasSuffix(field, "_color") {
		return strings.ToUpper(v)
	}
	if strings.HasSuffix(field, "_time") && strings.Contains(v, ":") {
		if s, ok := secs(v); ok {
			return strconv.Itoa(s)
		}
	}
	return v
}

func secs(s string) (int, bool) {
	p := strings.Split(s, ":")
	if len(p) != 3 {
		return 0, false
	}
	t := 0
	for _, x := range p {
		n, err := strconv.Atoi(strings.TrimSpace(x))
		if err != nil || n < 0 {
			return 0, false
		}
		t = t*60 + n
	}
	return t, true
}

func newMod(f Feed) *Mod {
	m := &Mod{feed: f, agency: map[string]Row{}, stops: map[string]Row{}, routes: map[string]Row{}, trips: map[string]Row{}, levels: map[string]Row{}, fares: map[string]Row{},
		st: map[string][]Row{}, active: map[string]map[string]bool{}, services: map[string]bool{}, cal: map[string]Row{}, calDates: map[string]map[string]string{},
		shapes: map[string][]pt{}, freqs: map[string][]Row{}, pathways: map[string]Row{}}
	for _, r := range f.rows("agency.txt") {
		m.agency[r["agency_id"]] = r
	}
	for _, r := range f.rows("stops.txt") {
		m.stops[r["stop_id"]] = r
	}
	for _, r := range f.rows("routes.txt") {
		m.routes[r["route_id"]] = r
	}
	for _, r := range f.rows("trips.txt") {
		m.trips[r["trip_id"]] = r
	}
	for _, r := range f.rows("levels.txt") {
		m.levels[r["level_id"]] = r
	}
	for _, r := range f.rows("fare_attributes.txt") {
		m.fares[r["fare_id"]] = r
	}
	for _, r := range f.rows("pathways.txt") {
		m.pathways[r["pathway_id"]] = r
	}
	m.attrs = f.rows("attributions.txt")
	for _, r := range f.rows("frequencies.txt") {
		m.freqs[r["trip_id"]] = append(m.freqs[r["trip_id"]], r)
	}
	for _, r := range f.rows("stop_times.txt") {
		m.st[r["trip_id"]] = append(m.st[r["trip_id"]], r)
	}
	for _, l := range m.st {
		l := l
		sort.SliceStable(l, func(i, j int) bool {
			a, _ := strconv.Atoi(l[i]["stop_sequence"])
			b, _ := strconv.Atoi(l[j]["stop_sequence"])
			return a < b
		})
	}
	for _, r := range f.rows("shapes.txt") {
		var p pt
		p.lat, _ = f32(r["shape_pt_lat"])
		p.lon, _ = f32(r["shape_pt_lon"])
		p.dist, p.hasDist = f32(r["shape_dist_traveled"])
		p.seq, _ = strconv.Atoi(r["shape_pt_sequence"])
		m.shapes[r["shape_id"]] = append(m.shapes[r["shape_id"]], p)
	}
	for _, l := range m.shapes {
		l := l
		sort.SliceStable(l, func(i, j int) bool { return l[i].seq < l[j].seq })
	}
	act := func(id string) map[string]bool {
		m.services[id] = true
		if m.active[id] == nil {
			m.active[id] = map[string]bool{}
		}
		return m.active[id]
	}
	for _, r := range f.rows("calendar.txt") {
		id := r["service_id"]
		m.cal[id] = r
		a := act(id)
		s, e1 := time.Parse("20060102", r["start_date"])
		e, e2 := time.Parse("20060102", r["end_date"])
		if e1 != nil || e2 != nil || e.Sub(s) > 20*366*24*time.Hour {
			continue
		}
		for d := s; !d.After(e); d = d.AddDate(0, 0, 1) {
			day := []string{"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"}[d.Weekday()]
			if r[day] == "1" {
				a[date(d)] = true
			}
		}
	}
	for _, r := range f.rows("calendar_dates.txt") {
		id := r["service_id"]
		a := act(id)
		if m.calDates[id] == nil {
			m.calDates[id] = map[string]string{}
		}
		m.calDates[id][r["date"]] = r["exception_type"]
		if r["exception_type"] == "1" {
			a[r["date"]] = true
		} else {
			delete(a, r["date"])
		}
	}
	return m
}

// NFOpt says how coarse the comparison of two feeds has to be, given what
// the options of the run are allowed to change.
type NFOpt struct {
	RoundStop   bool // stops within a few metres may be merged
	NoSort      bool // route_sort_order is not compared
	NoShape     bool // shapes are not part of a journey
	MotOnly     bool // only the route's type is compared
	Set         bool // equal journeys count once
	NoTripVis   bool
	NoDist      bool
	ShapeCoarse bool
	NoZone      bool
	NoPlatform  bool
	DropAttr    bool
	TimeOnly    bool // journeys by stop names and times only
	Merge       bool // trips at the same stations at the same times are one
	GroupAdj    bool
}

func (m *Mod) levelCanon(id string) string {
	if id == "" {
		return ""
	}
	r, ok := m.levels[id]
	if !ok {
		return "!level"
	}
	return "L(" + nv("levels.txt", "level_index", r["level_index"]) + "," + r["level_name"] + ")"
}

func (m *Mod) agencyCanon(id string) string {
	if id == "" {
		return ""
	}
	r, ok := m.agency[id]
	if !ok {
		return "!agency"
	}
	return "A(" + joinF("agency.txt", r, "agency_name", "agency_url", "agency_timezone", "agency_lang", "agency_phone", "agency_fare_url", "agency_email") + ")"
}

func joinF(file string, r Row, fields ...string) string {
	var b strings.Builder
	for i, f := range fields {
		if i > 0 {
			b.WriteByte('|')
		}
		b.WriteString(nv(file, f, r[f]))
	}
	return b.String()
}

func coord(v string, round bool) string {
	x, ok := f32(v)
	if !ok {
		return "?" + v
	}
	if round {
		return strconv.FormatFloat(math.Round(x*1e4)/1e4, 'f', 4, 64)
	}
	return strconv.FormatFloat(x, 'g', -1, 32)
}

func (m *Mod) stopCanon(id string, o *NFOpt) string { return m.stopCanonD(id, o, 0) }

func (m *Mod) stopCanonD(id string, o *NFOpt, d int) string {
	if id == "" {
		return ""
	}
	r, ok := m.stops[id]
	if !ok {
		return "!stop"
	}
	par := ""
	if d < 4 {
		par = m.stopCanonD(r["parent_station"], o, d+1)
	} else if r["parent_station"] != "" {
		par = "!deep"
	}
	if o.TimeOnly {
		return r["stop_name"]
	}
	z := r["zone_id"]
	if o.NoZone {
		z = ""
	}
	pc := r["platform_code"]
	if o.NoPlatform {
		pc = ""
	}
	return "S(" + joinF("stops.txt", r, "stop_name", "stop_code", "stop_desc", "stop_url", "location_type", "stop_timezone", "wheelchair_boarding") + "|" + pc + "|" + z + "|" +
		coord(r["stop_lat"], o.RoundStop) + "," + coord(r["stop_lon"], o.RoundStop) + "|" + m.levelCanon(r["level_id"]) + "|" + par + ")"
}

// station is the topmost parent of a stop.
func (m *Mod) station(id string) string {
	for i := 0; i < 3; i++ {
		r, ok := m.stops[id]
		if !ok || r["parent_station"] == "" || m.stops[r["parent_station"]] == nil {
			return id
		}
		id = r["parent_station"]
	}
	return id
}

func (m *Mod) routeCanon(id string, o *NFOpt) string {
	if id == "" {
		return ""
	}
	r, ok := m.routes[id]
	if !ok {
		return "!route"
	}
	if o.MotOnly {
		return "R(" + r["route_type"] + ")"
	}
	ag := m.agencyCanon(r["agency_id"])
	if r["agency_id"] == "" && len(m.agency) == 1 {
		for id := range m.agency {
			ag = m.agencyCanon(id)
		}
	}
	s := "R(" + joinF("routes.txt", r, "route_short_name", "route_long_name", "route_desc", "route_type", "route_url", "route_color", "route_text_color", "continuous_pickup", "continuous_drop_off")
	if !o.NoSort {
		s += "|" + r["route_sort_order"]
	}
	return s + "|" + ag + ")"
}

func (m *Mod) shapeCanon(id string) string {
	if id == "" {
		return ""
	}
	l, ok := m.shapes[id]
	if !ok {
		return "!shape"
	}
	var b strings.Builder
	for _, p := range l {
		fmt.Fprintf(&b, "%v,%v;", float32(p.lat), float32(p.lon))
	}
	return b.String()
}

// tripPattern is everything a passenger sees of one trip except its dates,
// with times relative to the first departure.
func (m *Mod) tripPattern(id string, o *NFOpt) (string, int, bool) {
	l := m.st[id]
	t := m.trips[id]
	if len(l) == 0 {
		return "", 0, false
	}
	base, ok := secs(l[0]["departure_time"])
	if !ok {
		return "", 0, false
	}
	var b strings.Builder
	b.WriteString(m.routeCanon(t["route_id"], o))
	if !o.TimeOnly && !(o.Merge && o.MotOnly) {
		b.WriteString("|" + joinF("trips.txt", t, "trip_headsign", "trip_short_name", "direction_id", "wheelchair_accessible", "bikes_allowed"))
		if !o.NoShape {
			b.WriteString("|" + m.shapeCanon(t["shape_id"]))
		}
	}
	b.WriteString("::")
	rows := l
	merge := o.Merge && len(m.freqs[id]) == 0
	for i, r := range rows {
		if merge {
			b.WriteString(m.stopCanon(m.station(r["stop_id"]), o))
		} else {
			b.WriteString(m.stopCanon(r["stop_id"], o))
		}
		for _, f := range []string{"arrival_time", "departure_time"} {
			if merge && (i == 0 && f == "arrival_time" || i == len(rows)-1 && f == "departure_time") {
				continue
			}
			if s, ok := secs(r[f]); ok {
				b.WriteString("@" + strconv.Itoa(s-base))
			} else {
				b.WriteString("@-")
			}
		}
		if !o.TimeOnly && !merge {
			tp := r["timepoint"]
			if tp == "" {
				tp = map[bool]string{true: "1", false: "0"}[r["arrival_time"] != ""]
			}
			b.WriteString("," + joinF("stop_times.txt", r, "pickup_type", "drop_off_type", "continuous_pickup", "continuous_drop_off") + "," + tp)
			if h := r["stop_headsign"]; h != "" && h != t["trip_headsign"] {
				b.WriteString(",H=" + h)
			}
		}
		b.WriteString(";")
	}
	return b.String(), base, true
}

// starts lists the departures of a trip: (second of day, kind).
func (m *Mod) starts(id string, base int) []string {
	fr := m.freqs[id]
	if len(fr) == 0 {
		return []string{strconv.Itoa(base)}
	}
	var out []string
	for _, r := range fr {
		s, ok1 := secs(r["start_time"])
		e, ok2 := secs(r["end_time"])
		h, err := strconv.Atoi(r["headway_secs"])
		if !ok1 || !ok2 || err != nil || h <= 0 {
			out = append(out, "!bad")
			continue
		}
		k := ""
		if nv("frequencies.txt", "exact_times", r["exact_times"]) == "0" {
			k = "~"
		}
		for x := s; x < e; x += h {
			out = append(out, k+strconv.Itoa(x))
		}
	}
	return out
}

// journeys is the multiset of all vehicle journeys of all days.
func (m *Mod) journeys(o *NFOpt) map[string]int {
	out := map[string]int{}
	for id, t := range m.trips {
		p, base, ok := m.tripPattern(id, o)
		if !ok {
			continue
		}
		ss := m.starts(id, base)
		for d := range m.active[t["service_id"]] {
			for _, s := range ss {
				k := d + "+" + s + " " + p
				if o.Set {
					out[k] = 1
				} else {
					out[k]++
				}
			}
		}
	}
	return out
}

// usedRoutes are the routes with at least one trip that runs.
func (m *Mod) usedRoutes() map[string]bool {
	u := map[string]bool{}
	for id, t := range m.trips {
		if len(m.active[t["service_id"]]) > 0 && len(m.st[id]) > 0 {
			u[t["route_id"]] = true
		}
	}
	return u
}

// fareFacts: what each fare applies to.
func (m *Mod) fareFacts(o *NFOpt, routes map[string]bool) map[string]int {
	out := map[string]int{}
	rules := map[string][]Row{}
	for _, r := range m.feed.rows("fare_rules.txt") {
		rules[r["fare_id"]] = append(rules[r["fare_id"]], r)
	}
	for id, f := range m.fares {
		ag := m.agencyCanon(f["agency_id"])
		if f["agency_id"] == "" && len(m.agency) == 1 {
			for a := range m.agency {
				ag = m.agencyCanon(a)
			}
		}
		k := "F(" + joinF("fare_attributes.txt", f, "price", "currency_type", "payment_method", "transfers", "transfer_duration") + "|" + ag + ")"
		for _, r := range rules[id] {
			if r["route_id"] != "" && routes != nil && !routes[r["route_id"]] {
				continue
			}
			out[k+m.routeCanon(r["route_id"], o)+"|"+r["origin_id"]+"|"+r["destination_id"]+"|"+r["contains_id"]] = 1
		}
	}
	return out
}

func (m *Mod) transferFacts(o *NFOpt, keep func(Row) bool) map[string]int {
	out := map[string]int{}
	for _, r := range m.feed.rows("transfers.txt") {
		if keep != nil && !keep(r) {
			continue
		}
		ft, _, _ := m.tripPattern(r["from_trip_id"], o)
		tt, _, _ := m.tripPattern(r["to_trip_id"], o)
		if r["from_trip_id"] == "" {
			ft = ""
		}
		if r["to_trip_id"] == "" {
			tt = ""
		}
		k := m.stopCanon(r["from_stop_id"], o) + ">" + m.stopCanon(r["to_stop_id"], o) + "|" + m.routeCanon(r["from_route_id"], o) + ">" + m.routeCanon(r["to_route_id"], o) + "|" + ft + ">" + tt + "|" +
			joinF("transfers.txt", r, "transfer_type", "min_transfer_time")
		out[k] = 1
	}
	return out
}

func (m *Mod) pathwayFacts(o *NFOpt) map[string]int {
	out := map[string]int{}
	for _, r := range m.pathways {
		k := m.stopCanon(r["from_stop_id"], o) + ">" + m.stopCanon(r["to_stop_id"], o) + "|" + joinF("pathways.txt", r, "pathway_mode", "is_bidirectional", "length", "traversal_time", "stair_count", "max_slope", "min_width", "signposted_as", "reversed_signposted_as")
		out[k] = 1
	}
	return out
}

func diffFacts(want, got map[string]int) (missing, extra []string) {
	for k, n := range want {
		if got[k] < n {
			missing = append(missing, k)
		}
	}
	for k, n := range got {
		if want[k] < n {
			extra = append(extra, k)
		}
	}
	sort.Strings(missing)
	sort.Strings(extra)
	return
}
