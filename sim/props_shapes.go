package main

import (
	"fmt"
	"math"
	"strconv"
)

// workShapes rewrites the shapes of a feed: holes in the measures, repeated
// points, detours, loops, copies a little or far off, copies with other
// measures, and single points.
func workShapes(r *rng, f Feed, n int) {
	t := f["shapes.txt"]
	if t == nil || len(t.Rows) == 0 {
		return
	}
	ensureCols(t, "shape_dist_traveled")
	type p struct {
		lat, lon float64
		d        string
		extra    Row
	}
	shp := map[string][]p{}
	var order []string
	m := newMod(f)
	for _, id := range sortedKeys(m.shapes) {
		order = append(order, id)
	}
	rows := map[string][]Row{}
	for _, row := range f.rows("shapes.txt") {
		rows[row["shape_id"]] = append(rows[row["shape_id"]], row)
	}
	for _, id := range order {
		l := rows[id]
		for i := range l {
			for j := i; j > 0 && atoi(l[j]["shape_pt_sequence"]) < atoi(l[j-1]["shape_pt_sequence"]); j-- {
				l[j], l[j-1] = l[j-1], l[j]
			}
		}
		for _, x := range l {
			la, _ := strconv.ParseFloat(x["shape_pt_lat"], 64)
			lo, _ := strconv.ParseFloat(x["shape_pt_lon"], 64)
			shp[id] = append(shp[id], p{la, lo, x["shape_dist_traveled"], x})
		}
	}
	trips := f["trips.txt"]
	ensureCols(trips, "shape_id")
	sc := trips.col("shape_id")
	for k := 0; k < n; k++ {
		id := order[r.n(len(order))]
		l := shp[id]
		remeasure := func(unit float64) {
			d := 0.0
			for i := range l {
				if i > 0 {
					d += hav(l[i-1].lat, l[i-1].lon, l[i].lat, l[i].lon)
				}
				l[i].d = strconv.FormatFloat(d*unit, 'f', 4, 64)
			}
		}
		switch r.n(13) {
		case 12: // a row of copies, each close to the next one
			off := r.pickf(4e-6, 6e-6, 8e-6)
			ids := []string{id}
			for j := 1; j < 3+r.n(3); j++ {
				q := append([]p{}, l...)
				for i := range q {
					q[i].lat += off * float64(j)
				}
				nid := fmt.Sprintf("row%d_%d", k, j)
				shp[nid] = q
				order = append(order, nid)
				ids = append(ids, nid)
			}
			for _, row := range trips.Rows {
				if row[sc] == id || r.p(30) {
					row[sc] = ids[r.n(len(ids))]
				}
			}
		case 0: // holes anywhere
			for i := range l {
				if r.p(40) {
					l[i].d = ""
				}
			}
		case 1: // a hole at the start
			for i := 0; i < len(l) && i <= r.n(3); i++ {
				l[i].d = ""
			}
		case 2: // a hole at the end
			for i := len(l) - 1; i > 0 && i >= len(l)-1-r.n(3); i-- {
				l[i].d = ""
			}
		case 3:
			remeasure(r.pickf(1, 0.001, 3.28, 17))
		case 4: // repeated points
			var q []p
			for _, x := range l {
				q = append(q, x)
				for r.p(25) {
					q = append(q, x)
				}
			}
			shp[id] = q
		case 5: // there and back
			if len(l) < 30 {
				q := append([]p{}, l...)
				for i := len(l) - 1; i >= 0; i-- {
					q = append(q, l[i])
				}
				l = q
				remeasure(1)
				shp[id] = l
			}
		case 6: // many points, some of them off the line
			var q []p
			for i, x := range l {
				if i > 0 {
					c := r.pickn(0, 3, 12, 40)
					amp := r.pickf(0, 0.000002, 0.00001, 0.0003)
					for j := 1; j <= c; j++ {
						w := float64(j) / float64(c+1)
						q = append(q, p{l[i-1].lat + (x.lat-l[i-1].lat)*w + amp*(r.f()-0.5), l[i-1].lon + (x.lon-l[i-1].lon)*w + amp*(r.f()-0.5), "", x.extra})
					}
				}
				q = append(q, x)
				if len(q) > 150 {
					break
				}
			}
			shp[id] = q
			if r.p(60) {
				l = q
				remeasure(r.pickf(1, 0.001))
			}
		case 7, 8, 9: // a copy of the shape
			nid := fmt.Sprintf("copy%d", k)
			q := append([]p{}, l...)
			off := r.pickf(0, 0, 3e-6, 6e-6, 9e-6, 2.5e-5, 1e-4)
			switch r.n(5) {
			case 0: // moved
				for i := range q {
					q[i].lat += off
				}
			case 1: // with a bulge
				if len(q) > 2 {
					i := 1 + r.n(len(q)-2)
					q[i].lat += off
				}
			case 2: // shorter
				if len(q) > 2 {
					q = q[:len(q)-1]
				}
			case 3: // backwards
				for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
					q[i], q[j] = q[j], q[i]
				}
				l = q
				remeasure(1)
			case 4: // other measures
				u := r.pickn(0, 1, 2)
				for i := range q {
					if u == 0 {
						q[i].d = ""
					}
				}
				if u > 0 {
					l = q
					remeasure(float64(u) * 1.5)
				}
			}
			shp[nid] = q
			order = append(order, nid)
			for _, row := range trips.Rows {
				if row[sc] == id && r.p(50) {
					row[sc] = nid
				}
			}
		case 10: // a single point
			if r.p(30) {
				shp[id] = l[:1]
			}
		case 11: // long
			if len(l) > 1 {
				for i := range l {
					l[i].lon = l[0].lon + (l[i].lon-l[0].lon)*6
					l[i].lat = l[0].lat + (l[i].lat-l[0].lat)*r.pickf(1, 1, 8)
				}
			}
		}
	}
	t.Rows = nil
	for _, id := range order {
		prev := -1.0
		seq := r.n(3)
		for _, x := range shp[id] {
			c := cp(x.extra)
			c["shape_id"], c["shape_pt_lat"], c["shape_pt_lon"], c["shape_pt_sequence"], c["shape_dist_traveled"] = id, strconv.FormatFloat(x.lat, 'f', 7, 64), strconv.FormatFloat(x.lon, 'f', 7, 64), strconv.Itoa(seq), x.d
			if d, ok := f32(x.d); ok {
				if d < prev {
					c["shape_dist_traveled"] = ""
				} else {
					prev = d
				}
			}
			if t.col("x_note") >= 0 && r.p(60) {
				c["x_note"] = fmt.Sprintf("%s/%d", id, seq)
			}
			seq += 1 + r.n(3)
			f.add("shapes.txt", c)
		}
	}
	// stop times that have measures fit their shape, mostly
	m = newMod(f)
	if r.p(30) {
		return
	}
	st := f["stop_times.txt"]
	if j := st.col("shape_dist_traveled"); j >= 0 {
		for _, row := range st.Rows {
			s := m.trips[row[st.col("trip_id")]]["shape_id"]
			d, ok := f32(row[j])
			if l := m.shapes[s]; ok && (len(l) == 0 || d > maxDist(l)) {
				row[j] = ""
			}
		}
	}
}

// offLine moves some stops away from their line, and takes one measure away
// from some trips whose stops all have one.
func offLine(r *rng, f Feed) {
	t := f["stops.txt"]
	a, b := t.col("stop_lat"), t.col("stop_lon")
	pct := r.pickn(0, 30, 80)
	for _, x := range t.Rows {
		if r.p(pct) {
			y, _ := strconv.ParseFloat(x[a], 64)
			z, _ := strconv.ParseFloat(x[b], 64)
			m := r.pickf(20, 90, 150, 170, 230)
			x[a] = strconv.FormatFloat(y+m*(r.f()*2-1)/111319, 'f', 6, 64)
			x[b] = strconv.FormatFloat(z+m*(r.f()*2-1)/75000, 'f', 6, 64)
		}
	}
	m := newMod(f)
	st := f["stop_times.txt"]
	ensureCols(st, "shape_dist_traveled")
	for _, id := range sortedKeys(m.st) {
		l := m.st[id]
		if !r.p(50) || len(l) < 2 {
			continue
		}
		have := 0
		for _, x := range l {
			if x["shape_dist_traveled"] != "" {
				have++
			}
		}
		fill := have == 0 && r.p(50)
		if have > 0 && have < len(l) {
			continue
		}
		hole := l[r.pickn(0, len(l)-1, r.n(len(l)))]["stop_sequence"]
		for i, x := range f.rows("stop_times.txt") {
			if x["trip_id"] != id {
				continue
			}
			if fill {
				st.Rows[i][st.col("shape_dist_traveled")] = strconv.Itoa(atoi(x["stop_sequence"]) * 7)
			}
			if x["stop_sequence"] == hole {
				st.Rows[i][st.col("shape_dist_traveled")] = ""
			}
		}
	}
}

func maxDist(l []pt) float64 {
	x := -1.0
	for _, p := range l {
		if p.hasDist && p.dist > x {
			x = p.dist
		}
	}
	return x
}

// mercScale is how much longer a metre is on the map the tool measures on.
func near(p pt, l []pt) float64 { return lineDist(p, l) }

// sameLine: each point of either line is within tol of the other, and the
// ends are too.
func sameLine(a, b []pt, tol float64) bool {
	if len(a) == 0 || len(b) == 0 {
		return false
	}
	d := func(p, q pt) float64 { return meters(p.lat, p.lon, q.lat, q.lon) }
	if d(a[0], b[0]) > tol || d(a[len(a)-1], b[len(b)-1]) > tol {
		return false
	}
	for _, p := range a {
		if near(p, b) > tol {
			return false
		}
	}
	for _, p := range b {
		if near(p, a) > tol {
			return false
		}
	}
	return true
}

// thinned: out is in with points left out that lie within tol of the line
// that remains.
func thinned(in, out []pt, tol float64) bool {
	if len(in) == 0 || len(out) == 0 {
		return len(in) == len(out)
	}
	eq := func(a, b pt) bool {
		return float32(a.lat) == float32(b.lat) && float32(a.lon) == float32(b.lon) && (!a.hasDist || !b.hasDist || a.dist == b.dist)
	}
	if len(in) == 1 {
		return len(out) == 1 && eq(in[0], out[0])
	}
	reach := make([]bool, len(in))
	reach[0] = eq(in[0], out[0])
	for j := 1; j < len(out); j++ {
		next := make([]bool, len(in))
		for i := range in {
			if !reach[i] {
				continue
			}
			for k := i + 1; k < len(in); k++ {
				if !eq(in[k], out[j]) {
					continue
				}
				ok := true
				for q := i + 1; q < k; q++ {
					if segDist(in[q], in[i], in[k]) > tol {
						ok = false
						break
					}
				}
				if ok {
					next[k] = true
				}
			}
		}
		reach = next
	}
	return reach[len(in)-1]
}

// atMeasure is the distance from p to the nearest point of the line that has
// the measure d.
func atMeasure(p pt, l []pt, d float64) float64 {
	best := math.Inf(1)
	eps := 1e-6 * math.Max(1, math.Abs(d))
	for i := 1; i < len(l); i++ {
		a, b := l[i-1], l[i]
		if !a.hasDist || !b.hasDist || d < a.dist-eps || d > b.dist+eps {
			continue
		}
		if b.dist-a.dist < 2*eps {
			best = math.Min(best, segDist(p, a, b))
			continue
		}
		w := math.Max(0, math.Min(1, (d-a.dist)/(b.dist-a.dist)))
		best = math.Min(best, meters(p.lat, p.lon, a.lat+(b.lat-a.lat)*w, a.lon+(b.lon-a.lon)*w))
	}
	return best
}

func (m *Mod) stopPt(id string) pt {
	var p pt
	p.lat, _ = f32(m.stops[id]["stop_lat"])
	p.lon, _ = f32(m.stops[id]["stop_lon"])
	return p
}

const shapeTol = 1.75 // one metre, and what the tool's float32 map projection loses

func init() {
	register(&Prop{ID: "C08", Quick: 18000,
		Rule: "A random feed whose shapes have holes in their measures, repeated points, loops, detours and near copies is run through a non-empty subset of -m -s -S -r --drop-shapes. Non-trivial: a shape or a stop time measure changed.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{1, 8}
			o.Shapes = 95
			o.ShapeDist = r.pickn(0, 50, 100)
			o.Aux = 15
			o.Dup = r.pickn(0, 30, 60)
			o.Stops = [2]int{2, 6}
			o.AddFlds = r.pickn(0, 0, 60)
			sc := baseScenario(r, o)
			workShapes(r, sc.Feeds[0], r.n(7))
			sc.Flags = subset(r, 35, "-m", "-s", "-S", "-r")
			if r.p(40) {
				offLine(r, sc.Feeds[0])
			}
			if r.p(5) {
				sc.Flags = append(sc.Flags, "--drop-shapes")
			}
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 4, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			extra := sc.has("-F")
			vs := checkValid(out)
			vs = append(vs, sameRows(in, out, extra, except(contentTables, "shapes.txt", "trips.txt", "stop_times.txt")...)...)
			vs = append(vs, cmpFacts("calendar", in.calFacts(), out.calFacts())...)
			drop := sc.has("--drop-shapes")
			if drop {
				vs = append(vs, cmpFacts("row:trips.txt", in.rowsOf("trips.txt", extra, "shape_id"), out.rowsOf("trips.txt", extra, "shape_id"))...)
				if len(out.shapes) > 0 {
					vs = append(vs, viol("shapes-left", "there are shapes with --drop-shapes"))
				}
				for _, id := range sortedKeys(out.trips) {
					if out.trips[id]["shape_id"] != "" {
						vs = append(vs, viol("shapes-left", "trip %s has a shape with --drop-shapes", id))
					}
				}
				vs = append(vs, cmpFacts("row:stop_times.txt", in.rowsOf("stop_times.txt", extra), out.rowsOf("stop_times.txt", extra))...)
				x.nontrivial()
				return vs
			}
			vs = append(vs, shapesOK(in, out, sc.has("-m", "-s", "-S", "-r"), sc.has("-s"), sc.has("-S"), sc.has("-r"), extra)...)
			if sc.has("-m", "-s", "-S", "-r") && (fmt.Sprint(in.rowsOf("shapes.txt", false)) != fmt.Sprint(out.rowsOf("shapes.txt", false)) || fmt.Sprint(in.rowsOf("stop_times.txt", false)) != fmt.Sprint(out.rowsOf("stop_times.txt", false))) {
				x.nontrivial()
			}
			return vs
		}})
}

func shapesOK(in, out *Mod, m, s, S, r, extra bool) []Viol {
	var vs []Viol
	if S {
		vs = append(vs, cmpFacts("row:trips.txt", in.rowsOf("trips.txt", extra, "shape_id"), out.rowsOf("trips.txt", extra, "shape_id"))...)
	} else {
		vs = append(vs, cmpFacts("row:trips.txt", in.rowsOf("trips.txt", extra), out.rowsOf("trips.txt", extra))...)
	}
	vs = append(vs, cmpFacts("row:stop_times.txt", in.rowsOf("stop_times.txt", extra, "shape_dist_traveled"), out.rowsOf("stop_times.txt", extra, "shape_dist_traveled"))...)
	for _, id := range sortedKeys(out.shapes) {
		if len(in.shapes[id]) == 0 {
			vs = append(vs, viol("new-id:shape", "shape %q is not from the input", id))
			return vs
		}
	}
	if !S {
		a, b := map[string]int{}, map[string]int{}
		for id := range in.shapes {
			a[id] = 1
		}
		for id := range out.shapes {
			b[id] = 1
		}
		vs = append(vs, cmpFacts("shape", a, b)...)
	}
	if !m {
		vs = append(vs, sameRows(in, out, extra, "shapes.txt", "stop_times.txt")...)
		return vs
	}
	if extra {
		a, b := in.rowsOf("shapes.txt", extra, "shape_dist_traveled", "shape_pt_sequence"), out.rowsOf("shapes.txt", extra, "shape_dist_traveled", "shape_pt_sequence")
		for _, k := range sortedKeys(b) {
			if b[k] > a[k] {
				vs = append(vs, viol("shape-extra", "a shape point has additional fields which are not its own: %s", k))
				break
			}
		}
	}
	for _, id := range sortedKeys(out.shapes) {
		a, b := in.shapes[id], out.shapes[id]
		// which points
		if s {
			if !thinned(a, b, shapeTol) {
				vs = append(vs, viol("shape-thinned", "shape %s: the points left out are not all within a metre of the line, or the points left are not from the input", id))
				break
			}
		} else {
			ok := len(a) == len(b)
			for i := 0; ok && i < len(a); i++ {
				ok = float32(a[i].lat) == float32(b[i].lat) && float32(a[i].lon) == float32(b[i].lon)
			}
			if !ok {
				vs = append(vs, viol("shape-points", "shape %s: the points are not those of the input", id))
				break
			}
		}
		// measures: at all points or at none
		with := 0
		for _, p := range b {
			if p.hasDist {
				with++
			}
		}
		if with != 0 && with != len(b) {
			vs = append(vs, viol("shape-measure-hole", "shape %s: %d of %d points have a measure", id, with, len(b)))
			break
		}
		known, same := 0, true
		for _, p := range a {
			if p.hasDist {
				known++
			}
		}
		lo, hi := -1.0, -1.0
		for _, p := range a {
			if p.hasDist {
				if lo < 0 {
					lo = p.dist
				}
				hi = p.dist
			}
		}
		usable := known == 0 || hi > lo || r
		if usable && with == 0 {
			// measures that are equal or at coinciding points give no scale
			scale := false
			last, d := -1, 0.0
			for i, p := range a {
				if i > 0 {
					d += meters(a[i-1].lat, a[i-1].lon, p.lat, p.lon)
				}
				if p.hasDist {
					if last >= 0 && d > 0.01 && p.dist > a[last].dist {
						scale = true
					}
					last, d = i, 0
				}
			}
			if known == 0 || scale || r {
				vs = append(vs, viol("shape-measure-missing", "shape %s has no measures", id))
				break
			}
		}
		if s || with == 0 {
			continue
		}
		for i := range a {
			if a[i].hasDist && a[i].dist != b[i].dist {
				same = false
			}
		}
		if !same {
			vs = append(vs, viol("shape-measure-changed", "shape %s: a measure of the input changed", id))
			break
		}
		if known == 0 {
			d := 0.0
			for i := 1; i < len(a); i++ {
				d += meters(a[i-1].lat, a[i-1].lon, a[i].lat, a[i].lon)
				if math.Abs(b[i].dist-d) > 0.01*d+0.1 {
					vs = append(vs, viol("shape-measure-metres", "shape %s: the measure at point %d is %v, but the line is %.1f m long up to there", id, i, b[i].dist, d))
					break
				}
			}
		}
		// holes at the ends have the unit of the rest, if that has one
		if q, ok := unitOf(a); ok {
			d := 0.0
			first, last := -1, -1
			var along []float64
			for i, p := range a {
				if i > 0 {
					d += meters(a[i-1].lat, a[i-1].lon, p.lat, p.lon)
				}
				along = append(along, d)
				if p.hasDist {
					if first < 0 {
						first = i
					}
					last = i
				}
			}
			for i := range a {
				want := b[i].dist
				if i < first {
					want = along[i] * math.Min(q, a[first].dist/along[first])
				} else if i > last {
					want = a[last].dist + (along[i]-along[last])*q
				}
				if math.Abs(want-b[i].dist) > 0.015*q*d+1e-5*math.Abs(want)+1e-4 {
					vs = append(vs, viol("shape-measure-unit", "shape %s: the measure at point %d is %v, in the unit of the others it is %v", id, i, b[i].dist, want))
					return vs
				}
			}
		}
		// holes between two known measures are filled by distance
		last := -1
		for i := range a {
			if !a[i].hasDist {
				continue
			}
			if last >= 0 && i-last > 1 {
				tot, d := 0.0, 0.0
				for k := last + 1; k <= i; k++ {
					tot += meters(a[k-1].lat, a[k-1].lon, a[k].lat, a[k].lon)
				}
				for k := last + 1; k < i && tot > 1; k++ {
					d += meters(a[k-1].lat, a[k-1].lon, a[k].lat, a[k].lon)
					want := a[last].dist + (a[i].dist-a[last].dist)*d/tot
					if math.Abs(want-b[k].dist) > 0.01*(a[i].dist-a[last].dist)+1e-5*math.Abs(a[i].dist)+1e-4 {
						vs = append(vs, viol("shape-measure-interpolated", "shape %s: the measure at point %d is %v, by its distance it is %v", id, k, b[k].dist, want))
						return vs
					}
				}
			}
			last = i
		}
	}
	if S {
		u := unionFind{}
		ids := sortedKeys(in.shapes)
		line := map[string][]pt{}
		for _, id := range ids {
			line[id] = in.shapes[id]
		}
		tol := shapeTol
		if s {
			tol += shapeTol // compared after thinning
		}
		for i, a := range ids {
			for _, b := range ids[i+1:] {
				if u.find(a) != u.find(b) && sameLine(line[a], line[b], tol) {
					u.union(a, b)
				}
			}
		}
		for _, id := range sortedKeys(in.trips) {
			a, b := in.trips[id]["shape_id"], out.trips[id]["shape_id"]
			if a == b {
				continue
			}
			if a == "" || b == "" || u.find(a) != u.find(b) {
				vs = append(vs, viol("shape-replaced", "trip %s had shape %s and has shape %s, which is another line", id, a, b))
				break
			}
		}
		// each line is still there
		have := map[string]bool{}
		for id := range out.shapes {
			have[u.find(id)] = true
		}
		for _, id := range ids {
			if !have[u.find(id)] {
				vs = append(vs, viol("shape-lost", "shape %s is gone, and nothing like it is left", id))
				break
			}
		}
		vs = append(vs, equalShapesLeft(out)...)
	}
	// stop times
	for _, id := range sortedKeys(in.st) {
		a, b := in.st[id], out.st[id]
		if len(a) != len(b) {
			continue
		}
		l := out.shapes[out.trips[id]["shape_id"]]
		end := math.Inf(1)
		if len(l) > 0 && l[len(l)-1].hasDist {
			end = l[len(l)-1].dist
		}
		hole, outside := false, false
		for i := range a {
			da, oka := f32(a[i]["shape_dist_traveled"])
			db, okb := f32(b[i]["shape_dist_traveled"])
			if !oka {
				hole = true
			}
			if okb && len(l) > 0 && db > end && (in.trips[id]["shape_id"] == out.trips[id]["shape_id"] || oka && da <= maxDist(in.shapes[in.trips[id]["shape_id"]])) {
				// (measures that did not fit their shape may not fit one like it)
				outside = true
			}
			if r && len(l) > 0 {
				continue
			}
			replaced := in.trips[id]["shape_id"] != out.trips[id]["shape_id"] && db < da && db <= end
			if oka != okb || oka && da != db && !(da > end && db == end) && !replaced {
				vs = append(vs, viol("stop-measure-changed", "trip %s: shape_dist_traveled of stop %d was %q and is %q", id, i, a[i]["shape_dist_traveled"], b[i]["shape_dist_traveled"]))
				return vs
			}
		}
		if outside {
			vs = append(vs, viol("stop-measure-outside", "trip %s has a stop beyond the end of its shape", id))
			return vs
		}
		if !r || len(l) < 2 || !hole {
			continue
		}
		// stops that lie on the line, in order, get their place on it
		// (-S comes after -r: they have to lie on the shape they had, too)
		onLine := inOrder(in, a, l) && (!S || inOrder(in, a, in.shapes[in.trips[id]["shape_id"]]))
		tol := 0.8
		if s {
			tol += shapeTol
		}
		if S {
			tol += 2 * shapeTol
		}
		n := 0
		sum := 0.0
		for i := range b {
			d, ok := f32(b[i]["shape_dist_traveled"])
			if !ok {
				continue
			}
			n++
			sum += atMeasure(in.stopPt(a[i]["stop_id"]), l, d)
			if in.trips[id]["shape_id"] != out.trips[id]["shape_id"] {
				// the measures of lines that -S takes for one may differ
				continue
			}
			w := atMeasure(in.stopPt(a[i]["stop_id"]), l, d)
			if onLine && w > tol {
				vs = append(vs, viol("stop-measure-place", "trip %s: stop %d is %.1f m away from its measure %v on the shape", id, i, w, d))
				return vs
			}
			if was, had := f32(a[i]["shape_dist_traveled"]); w > 255 && !(had && (was == d || was > d && d == end)) {
				vs = append(vs, viol("stop-measure-far", "trip %s: stop %d is %.1f m away from its measure %v on the shape", id, i, w, d))
				return vs
			}
		}
		if best, ok := bestPlaces(in, a, l, 240); ok && !S && len(a) > 0 {
			if n < len(b) {
				vs = append(vs, viol("stop-measure-missing", "trip %s: %d of %d stop times have a measure with -r, though all stops can be placed on the shape", id, n, len(b)))
				return vs
			}
			if sum > 1.05*best+float64(n) {
				vs = append(vs, viol("stop-measure-sum", "trip %s: its stops are %.1f m away from their measures in all, but there are places %.1f m away", id, sum, best))
				return vs
			}
		}
		if onLine && n < len(b) {
			vs = append(vs, viol("stop-measure-missing", "trip %s: %d of %d stop times have a measure with -r, though all stops lie on the shape", id, n, len(b)))
			return vs
		}
	}
	return vs
}

// unitOf is what a line measures per metre, if it is the same everywhere.
func unitOf(l []pt) (float64, bool) {
	lo, hi := math.Inf(1), 0.0
	last, d := -1, 0.0
	for i, p := range l {
		if i > 0 {
			d += meters(l[i-1].lat, l[i-1].lon, p.lat, p.lon)
		}
		if !p.hasDist {
			continue
		}
		if last >= 0 && d > 0 {
			if d < 5 {
				return 0, false
			}
			q := (p.dist - l[last].dist) / d
			lo, hi = math.Min(lo, q), math.Max(hi, q)
		} else if last >= 0 && p.dist != l[last].dist {
			return 0, false
		}
		last, d = i, 0
	}
	return (lo + hi) / 2, hi > 0 && hi < lo*1.01
}

// bestPlaces is the least sum of the distances of the stops to places on the
// line that are in order, with no distance above rad; ok tells whether there
// are such places.
func bestPlaces(m *Mod, l []Row, line []pt, rad float64) (best float64, ok bool) {
	type cand struct {
		seg        int
		progr, sum float64
	}
	var prev []cand
	var last pt
	for i, r := range l {
		p := m.stopPt(r["stop_id"])
		var cur []cand
		for k := 1; k < len(line); k++ {
			a, b := line[k-1], line[k]
			dx, dy := b.lon-a.lon, b.lat-a.lat
			t := 0.0
			if n := dx*dx + dy*dy; n > 0 {
				t = math.Max(0, math.Min(1, ((p.lon-a.lon)*dx+(p.lat-a.lat)*dy)/n))
			}
			d := meters(p.lat, p.lon, a.lat+t*dy, a.lon+t*dx)
			if d > rad {
				continue
			}
			c := cand{k, t, math.Inf(1)}
			if i == 0 {
				c.sum = d
			}
			for _, q := range prev {
				// (not by rounding only)
				if (q.seg < k || q.seg == k && (q.progr*meters(a.lat, a.lon, b.lat, b.lon) <= t*meters(a.lat, a.lon, b.lat, b.lon)-0.5 || p == last)) && q.sum+d < c.sum {
					c.sum = q.sum + d
				}
			}
			cur = append(cur, c)
		}
		prev, last = cur, p
	}
	best = math.Inf(1)
	for _, c := range prev {
		best = math.Min(best, c.sum)
	}
	return best, !math.IsInf(best, 1)
}

// inOrder: the stops are points of the line, in its order.
func inOrder(m *Mod, l []Row, line []pt) bool {
	k := 0
	for _, r := range l {
		p := m.stopPt(r["stop_id"])
		for ; k < len(line); k++ {
			if meters(p.lat, p.lon, line[k].lat, line[k].lon) < 0.05 {
				break
			}
		}
		if k == len(line) {
			return false
		}
	}
	return true
}

// equalShapesLeft: no two shapes are the very same simple line.
func equalShapesLeft(out *Mod) []Viol {
	seen := map[string]string{}
	for _, id := range sortedKeys(out.shapes) {
		l := out.shapes[id]
		k := ""
		simple := len(l) > 1
		for i, p := range l {
			k += fmt.Sprint(p.lat, ",", p.lon, ",", p.dist, p.hasDist, ";")
			// the search for equal lines may lose track where a line meets itself
			for j := 0; j+2 < i && simple; j++ {
				if segDist(l[i], l[j], l[j+1]) < 30 || segDist(l[j], l[i-1], l[i]) < 30 {
					simple = false
				}
			}
			if i > 0 && meters(l[i-1].lat, l[i-1].lon, p.lat, p.lon) < 1 {
				simple = false
			}
		}
		if !simple {
			continue
		}
		if o, ok := seen[k]; ok {
			return []Viol{viol("equal-shapes-left", "shapes %s and %s have the same points and measures after -S", o, id)}
		}
		seen[k] = id
	}
	return nil
}
