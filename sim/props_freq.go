package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// tripKey names everything about a trip but its id, its start time and its
// stop sequence numbers.
func (m *Mod) tripKey(id string, extra, dist bool) (string, int, bool) {
	l := m.st[id]
	if len(l) == 0 {
		return "", 0, false
	}
	base, ok := secs(l[0]["departure_time"])
	if !ok {
		return "", 0, false
	}
	var b strings.Builder
	b.WriteString(m.rowKey("trips.txt", m.cols("trips.txt", extra), m.trips[id], map[string]bool{"trip_id": true}))
	var at []string
	for _, a := range m.attrs {
		if a["trip_id"] == id {
			at = append(at, m.rowKey("attributions.txt", m.cols("attributions.txt", extra), a, map[string]bool{"trip_id": true, "attribution_id": true}))
		}
	}
	sort.Strings(at)
	fmt.Fprintf(&b, "%q ", at)
	sk := map[string]bool{"trip_id": true, "stop_sequence": true, "arrival_time": true, "departure_time": true, "shape_dist_traveled": !dist}
	cols := m.cols("stop_times.txt", extra)
	for _, r := range l {
		b.WriteString("[" + m.rowKey("stop_times.txt", cols, r, sk))
		for _, f := range []string{"arrival_time", "departure_time"} {
			if s, ok := secs(r[f]); ok {
				b.WriteString("@" + strconv.Itoa(s-base))
			} else {
				b.WriteString("@-")
			}
		}
		b.WriteString("]")
	}
	return b.String(), base, true
}

func init() {
	register(&Prop{ID: "C07", Quick: 18000,
		Rule: "A random feed with regular, interleaved and nearly regular series of equal trips, and trips that already have exact or approximate frequencies, is run through -T with random headway limits. Non-trivial: the run changed trips.txt or frequencies.txt.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{3, 22}
			o.Regular = r.pickn(30, 60, 80)
			o.DupTrips = r.pickn(0, 25, 50)
			o.Freq = r.pickn(0, 15, 40)
			o.Services = [2]int{1, 3}
			o.Routes = [2]int{1, 3}
			o.Stops = [2]int{3, 6}
			o.Span = [2]int{1, 5}
			o.Aux = r.pickn(30, 60)
			o.EmptyTimes = r.pickn(0, 10)
			o.LateTimes = r.p(40)
			o.AddFlds = r.pickn(0, 0, 60)
			sc := baseScenario(r, o)
			if r.p(35) {
				// differences only in one detail of a stop time
				st := sc.Feeds[0]["stop_times.txt"]
				c := r.pick("stop_headsign", "pickup_type", "drop_off_type", "continuous_pickup", "continuous_drop_off", "timepoint", "shape_dist_traveled")
				ensureCols(st, c, "timepoint")
				for k := 0; k < 1+r.n(4); k++ {
					row := st.Rows[r.n(len(st.Rows))]
					switch c {
					case "stop_headsign":
						// only with the sign of the trip: gtfsparser keeps no others
					case "timepoint":
						if row[st.col("arrival_time")] != "" {
							row[st.col(c)] = r.pick("0", "1")
						}
					case "shape_dist_traveled":
						st.remeasure(r, row)
					default:
						row[st.col(c)] = r.pick("0", "1", "2")
					}
				}
			}
			if r.p(35) {
				sc.Feeds[0].denseSeries(r)
			}
			if r.p(30) {
				swapTripFields(r, sc.Feeds[0], r.rang(1, 3))
			}
			sc.Flags = []string{"-T"}
			if r.p(40) {
				sc.Flags = append(sc.Flags, fmt.Sprintf("--min-headway=%d", r.pickn(1, 60, 300, 600, 1200)))
			}
			if r.p(40) {
				sc.Flags = append(sc.Flags, fmt.Sprintf("--max-headway=%d", r.pickn(300, 600, 900, 1800, 3600, 7200)))
			}
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 4, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if !sc.has("-T") {
				return nil
			}
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			extra := sc.has("-F")
			vs := checkValid(out)
			vs = append(vs, sameRows(in, out, extra, except(contentTables, "trips.txt", "stop_times.txt", "frequencies.txt", "transfers.txt", "attributions.txt")...)...)
			vs = append(vs, cmpFacts("calendar", in.calFacts(), out.calFacts())...)
			vs = append(vs, checkJourneys(in, out, &NFOpt{})...)
			// every departure of every kind of trip
			dep := func(m *Mod) (map[string]int, map[string]int, map[string][][]float64) {
				o, keys, ms := map[string]int{}, map[string]int{}, map[string][][]float64{}
				for id := range m.trips {
					k, base, ok := m.tripKey(id, extra, false)
					if !ok {
						o["no times: "+m.rowKey("trips.txt", m.cols("trips.txt", extra), m.trips[id], nil)]++
						continue
					}
					for _, s := range m.starts(id, base) {
						o[s+" "+k]++
						ms[s+" "+k] = append(ms[s+" "+k], m.measures(id))
					}
					k, _, _ = m.tripKey(id, extra, true)
					keys[k] = 1
				}
				return o, keys, ms
			}
			a, ka, ma := dep(in)
			b, kb, mb := dep(out)
			w := cmpFacts("departure", a, b)
			vs = append(vs, w...)
			if w == nil {
				vs = append(vs, sameMeasures(ma, mb)...)
			}
			for _, k := range sortedKeys(kb) {
				if ka[k] == 0 {
					vs = append(vs, viol("trip-changed", "no trip of the input is like %s", head(k, 600)))
					break
				}
			}
			at := func(m *Mod) map[string]int {
				o := map[string]int{}
				for _, r := range m.attrs {
					if r["trip_id"] == "" {
						o[m.rowKey("attributions.txt", m.cols("attributions.txt", extra), r, nil)]++
					}
				}
				return o
			}
			vs = append(vs, cmpFacts("row:attributions.txt", at(in), at(out))...)
			vs = append(vs, cmpFacts("transfer", in.plainTransfers(), out.plainTransfers())...)
			full := in.rowsOf("transfers.txt", extra)
			for k := range out.rowsOf("transfers.txt", extra) {
				if full[k] == 0 {
					vs = append(vs, viol("transfer-added", "%s is not in the input", k))
					break
				}
			}
			lo, hi := 1, 86400
			if s, ok := sc.val("--min-headway"); ok {
				lo = atoi(s)
			}
			if s, ok := sc.val("--max-headway"); ok {
				hi = atoi(s)
			}
			old := map[int]bool{}
			for _, r := range in.feed.rows("frequencies.txt") {
				old[atoi(r["headway_secs"])] = true
			}
			for _, r := range out.feed.rows("frequencies.txt") {
				h := atoi(r["headway_secs"])
				if (h < lo || h > hi) && !old[h] {
					vs = append(vs, viol("headway-limit", "a frequency has a headway of %d s, outside of the limits %d to %d", h, lo, hi))
					break
				}
			}
			if len(out.trips) > len(in.trips) {
				vs = append(vs, viol("trips-grew", "%d trips became %d", len(in.trips), len(out.trips)))
			}
			if len(out.trips) != len(in.trips) || tableLen(in.feed, "frequencies.txt") != tableLen(f, "frequencies.txt") {
				x.nontrivial()
			}
			return vs
		}})
}

// remeasure changes the measures of the trip a stop time belongs to, or only
// the one of the stop time.
func (t *Table) remeasure(r *rng, row []string) {
	id, c := t.col("trip_id"), t.col("shape_dist_traveled")
	if c < 0 {
		return
	}
	k := r.pickf(1.02, 1.5, 0.7)
	one := r.p(40)
	for _, x := range t.Rows {
		if x[id] != row[id] || one && x[t.col("stop_sequence")] != row[t.col("stop_sequence")] {
			continue
		}
		if v, err := strconv.ParseFloat(x[c], 64); err == nil {
			if one {
				v += r.pickf(0.004, 0.05, 2)
			} else {
				v *= k
			}
			x[c] = flt(v)
		}
	}
}

// measures are those of the stop times of a trip, -1 for none.
func (m *Mod) measures(id string) []float64 {
	var l []float64
	for _, r := range m.st[id] {
		v, err := strconv.ParseFloat(r["shape_dist_traveled"], 64)
		if err != nil {
			v = -1
		}
		l = append(l, v)
	}
	return l
}

// sameMeasures checks that every departure has the measures it had. (The
// program takes measures for equal that differ by less than a hundredth.)
func sameMeasures(a, b map[string][][]float64) []Viol {
	near := func(x, y []float64) bool {
		for i := range x {
			if (x[i] < 0) != (y[i] < 0) || math.Abs(x[i]-y[i]) > 0.03+1e-5*math.Abs(x[i]) {
				return false
			}
		}
		return true
	}
	for _, k := range sortedKeys(a) {
		for _, x := range a[k] {
			found := false
			for _, y := range b[k] {
				found = found || near(x, y)
			}
			if !found {
				return []Viol{viol("measures-changed", "departure %s had the measures %v, now %v", head(k, 400), x, b[k])}
			}
		}
	}
	return nil
}

// denseSeries adds copies of one trip at many regular and irregular times.
func (f Feed) denseSeries(r *rng) {
	m := newMod(f)
	ids := sortedKeys(m.st)
	if len(ids) == 0 {
		return
	}
	src := ids[r.n(len(ids))]
	if len(m.freqs[src]) > 0 {
		return
	}
	off := 0
	dist := r.p(30)
	if dist {
		ensureCols(f["stop_times.txt"], "shape_dist_traveled")
	}
	freqs := 0
	if r.p(35) {
		freqs = r.pickn(20, 50, 90)
		if f["frequencies.txt"] == nil {
			f["frequencies.txt"] = &Table{Header: []string{"trip_id", "start_time", "end_time", "headway_secs", "exact_times"}}
		}
		ensureCols(f["frequencies.txt"], "exact_times")
	}
	exact := r.pickn(0, 50, 100)
	for k := 0; k < 3+r.n(12); k++ {
		off += r.pickn(300, 600, 600, 600, 900, 0, 601)
		id := fmt.Sprintf("dense%d", k)
		c := cp(m.trips[src])
		c["trip_id"] = id
		f.add("trips.txt", c)
		jit := 0.006 * float64(r.n(3))
		for i, s := range m.st[src] {
			d := cp(s)
			d["trip_id"] = id
			if dist {
				d["shape_dist_traveled"] = strconv.FormatFloat(float64(i)+jit, 'f', 3, 64)
			}
			for _, t := range []string{"arrival_time", "departure_time"} {
				if x, ok := secs(s[t]); ok {
					d[t] = hms(x + off)
				}
			}
			f.add("stop_times.txt", d)
		}
		if r.p(freqs) {
			t, ok := secs(m.st[src][0]["departure_time"])
			if !ok {
				continue
			}
			h, n := r.pickn(300, 600, 600, 900), r.pickn(1, 1, 2, 3)
			x := "0"
			if r.p(exact) {
				x = "1"
			}
			f.add("frequencies.txt", map[string]string{"trip_id": id, "start_time": hms(t + off), "end_time": hms(t + off + h*n - r.pickn(0, 0, 1, h/2)), "headway_secs": strconv.Itoa(h), "exact_times": x})
		}
	}
}

// swapTripFields gives some trips single values of other trips, or none.
func swapTripFields(r *rng, f Feed, n int) {
	t := f["trips.txt"]
	if t == nil || len(t.Rows) == 0 {
		return
	}
	for ; n > 0; n-- {
		c := t.col(r.pick("trip_headsign", "trip_short_name", "direction_id", "block_id", "shape_id", "shape_id", "wheelchair_accessible", "bikes_allowed"))
		if c < 0 {
			continue
		}
		row := t.Rows[r.n(len(t.Rows))]
		row[c] = t.Rows[r.n(len(t.Rows))][c]
		if r.p(30) {
			row[c] = ""
		}
	}
}
