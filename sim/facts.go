package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// rowsOf is the multiset of the rows of a table, with defaults filled in,
// numbers in one format and non-standard columns on demand.
func (m *Mod) rowsOf(file string, extra bool, skip ...string) map[string]int {
	out := map[string]int{}
	t := m.feed[file]
	if t == nil {
		return out
	}
	std := map[string]bool{}
	cols := append([]string{}, schema[file]...)
	for _, c := range cols {
		std[c] = true
	}
	if extra {
		var add []string
		for _, h := range t.Header {
			if !std[h] {
				add = append(add, h)
			}
		}
		sort.Strings(add)
		cols = append(cols, add...)
	}
	sk := map[string]bool{}
	for _, s := range skip {
		sk[s] = true
	}
	for _, r := range m.feed.rows(file) {
		out[m.rowKey(file, cols, r, sk)]++
	}
	return out
}

func (m *Mod) rowKey(file string, cols []string, r Row, sk map[string]bool) string {
	var b strings.Builder
	for _, c := range cols {
		if sk[c] {
			continue
		}
		v := nv(file, c, r[c])
		if file == "stop_times.txt" && c == "timepoint" && v == "" {
			v = "1"
			if r["arrival_time"] == "" {
				v = "0"
			}
		}
		if file == "stop_times.txt" && c == "stop_headsign" && v == "" {
			v = m.trips[r["trip_id"]]["trip_headsign"]
		}
		if c == "agency_id" && v == "" && (file == "routes.txt" || file == "fare_attributes.txt") && len(m.agency) == 1 {
			for id := range m.agency {
				v = id
			}
		}
		if v != "" {
			b.WriteString(c + "=" + v + " ")
		}
	}
	return b.String()
}

// calFacts: the active days of each service that has any.
func (m *Mod) calFacts() map[string]int {
	out := map[string]int{}
	for id := range m.services {
		if len(m.active[id]) > 0 {
			out[id+":"+dateKey(m.active[id])] = 1
		}
	}
	return out
}

func dateKey(a map[string]bool) string {
	l := make([]string, 0, len(a))
	for d := range a {
		l = append(l, d)
	}
	sort.Strings(l)
	return strings.Join(l, ",")
}

func cmpFacts(kind string, want, got map[string]int) []Viol {
	miss, extra := diffFacts(want, got)
	var vs []Viol
	if len(miss) > 0 {
		vs = append(vs, viol(kind+"-lost", "%d facts (%s) of the input are missing, e.g. %s", len(miss), kind, head(miss[0], 700)))
	}
	if len(extra) > 0 {
		vs = append(vs, viol(kind+"-added", "%d facts (%s) are not in the input, e.g. %s", len(extra), kind, head(extra[0], 700)))
	}
	return vs
}

// sameRows: the tables of both feeds have the same rows under the same ids.
func sameRows(in, out *Mod, extra bool, tables ...string) []Viol {
	var vs []Viol
	for _, f := range tables {
		vs = append(vs, cmpFacts("row:"+f, in.rowsOf(f, extra), out.rowsOf(f, extra))...)
	}
	return vs
}

var contentTables = []string{"agency.txt", "feed_info.txt", "levels.txt", "stops.txt", "routes.txt", "shapes.txt", "trips.txt", "stop_times.txt", "frequencies.txt",
	"fare_attributes.txt", "fare_rules.txt", "transfers.txt", "pathways.txt", "attributions.txt"}

func except(l []string, drop ...string) []string {
	var o []string
	for _, x := range l {
		keep := true
		for _, d := range drop {
			if x == d {
				keep = false
			}
		}
		if keep {
			o = append(o, x)
		}
	}
	return o
}

// serviceDates: what every trip runs on.
func (m *Mod) tripDates() map[string]int {
	out := map[string]int{}
	for id, t := range m.trips {
		out[id+":"+dateKey(m.active[t["service_id"]])] = 1
	}
	return out
}

func meters(lat1, lon1, lat2, lon2 float64) float64 { return hav(lat1, lon1, lat2, lon2) }

// segDist is the distance in metres of p to the segment a-b, in a local plane.
func segDist(p, a, b pt) float64 {
	k := math.Cos(p.lat * math.Pi / 180)
	const M = 6371000.0 * math.Pi / 180
	ax, ay := (a.lon-p.lon)*k*M, (a.lat-p.lat)*M
	bx, by := (b.lon-p.lon)*k*M, (b.lat-p.lat)*M
	dx, dy := bx-ax, by-ay
	l := dx*dx + dy*dy
	t := 0.0
	if l > 0 {
		t = math.Max(0, math.Min(1, -(ax*dx+ay*dy)/l))
	}
	x, y := ax+t*dx, ay+t*dy
	return math.Sqrt(x*x + y*y)
}

func lineDist(p pt, l []pt) float64 {
	if len(l) == 1 {
		return meters(p.lat, p.lon, l[0].lat, l[0].lon)
	}
	best := math.Inf(1)
	for i := 1; i < len(l); i++ {
		if d := segDist(p, l[i-1], l[i]); d < best {
			best = d
		}
	}
	return best
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

var _ = fmt.Sprint

func sortedKeys[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
