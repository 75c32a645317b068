package main

import (
	"math"
	"strconv"
	"strings"
)

// vary moves a whole scenario to other dates and another place on earth, and
// spreads its sequences, so that no property is only decided for the few weeks
// and the few square kilometres the generators begin with.
func vary(r *rng, sc *Scenario) {
	if len(sc.Corrupt) > 0 || sc.Pre != nil {
		return
	}
	area, ok := false, true
	for _, f := range sc.Flags {
		if strings.HasPrefix(f, "--bounding-box") || strings.HasPrefix(f, "--polygon") || f == "-p" {
			area = true
		}
		if i := strings.IndexByte(f, '='); i > 0 && strings.HasPrefix(f, "--date-") && !plainDate(f[i+1:]) {
			ok = false
		}
	}
	if r.p(30) && ok {
		days := r.pickn(r.rang(-7000, 9000), r.rang(-400, 1500), 7*r.rang(-60, 300))
		for _, f := range sc.Feeds {
			shiftFeed(f, days)
		}
		for i, f := range sc.Flags {
			if k := strings.IndexByte(f, '='); k > 0 && strings.HasPrefix(f, "--date-") {
				sc.Flags[i] = f[:k+1] + shiftDay(f[k+1:], days)
			}
		}
	}
	if !area && r.p(25) {
		// (the program computes distances from 32 bit numbers on a map whose
		// coordinates grow towards the east and the west: only near the
		// prime meridian they are exact to less than a metre)
		far := 1.0
		for _, f := range []string{"-s", "-m", "-S", "-P", "-E", "-I", "--snap-stops", "--fix-far-away-parents", "--drop-too-fast-trips"} {
			if sc.does(f) {
				far = 0.05
			}
		}
		lat, lon := r.pickf(-81.4, -47.5031, -20, 12*far, 0)+0.01*float64(r.n(9)), r.pickf(-7.8053, -7.83, 0, -130*far, 100*far, 140*far)
		// distances towards the east and the west stay what they were
		x0, wide := 0.0, 1.0
		for _, row := range sc.Feeds[0].rows("stops.txt") {
			if y, err := strconv.ParseFloat(row["stop_lat"], 64); err == nil && y != 0 {
				x0, _ = strconv.ParseFloat(row["stop_lon"], 64)
				wide = math.Cos(y*math.Pi/180) / math.Cos((y+lat)*math.Pi/180)
				break
			}
		}
		for _, f := range sc.Feeds {
			moveFeed(f, x0, wide, lat, lon)
		}
	}
	if r.p(15) {
		for file, col := range map[string]string{"stop_times.txt": "stop_sequence", "shapes.txt": "shape_pt_sequence"} {
			a, b := r.pickn(1, 10, 1000), r.pickn(0, 1, 250, 65530)
			for _, f := range sc.Feeds {
				if t := f[file]; t != nil && t.col(col) >= 0 {
					for _, row := range t.Rows {
						if n, err := strconv.Atoi(row[t.col(col)]); err == nil {
							row[t.col(col)] = strconv.Itoa(a*n + b)
						}
					}
				}
			}
		}
	}
}

func plainDate(s string) bool { return len(s) == 8 && shiftDay(s, 0) == s }

// fine writes a coordinate with as many digits as the one it replaces needs.
func fine(old string, v float64) string {
	if i := strings.IndexByte(old, '.'); i >= 0 && len(old)-i > 7 {
		return strconv.FormatFloat(v, 'f', 7, 64)
	}
	return flt(v)
}

// moveFeed moves all places by some degrees, and stretches them from a
// longitude on.
func moveFeed(f Feed, x0, wide, lat, lon float64) {
	for file, cols := range map[string][2]string{"stops.txt": {"stop_lat", "stop_lon"}, "shapes.txt": {"shape_pt_lat", "shape_pt_lon"}} {
		t := f[file]
		if t == nil {
			continue
		}
		a, b := t.col(cols[0]), t.col(cols[1])
		if a < 0 || b < 0 {
			continue
		}
		for _, row := range t.Rows {
			y, e1 := strconv.ParseFloat(row[a], 64)
			x, e2 := strconv.ParseFloat(row[b], 64)
			if e1 == nil && e2 == nil {
				row[a], row[b] = fine(row[a], y+lat), fine(row[b], x0+(x-x0)*wide+lon)
			}
		}
	}
}
