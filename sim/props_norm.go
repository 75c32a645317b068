package main

import (
	"fmt"
	"strconv"
)

// stdType: the standard type of an extended route type, for the groups in
// which nothing is in doubt; ok is false for other numbers.
func stdType(n int) (int, bool) {
	switch {
	case n <= 7, n == 11, n == 12:
		return n, true
	case n >= 100 && n <= 117 && n != 116, n == 300:
		return 2, true
	case n >= 200 && n <= 209, n >= 700 && n <= 716:
		return 3, true
	case n >= 400 && n <= 404, n == 500, n == 600:
		return 1, true
	case n == 405:
		return 12, true
	case n == 800:
		return 11, true
	case n >= 900 && n <= 906:
		return 0, true
	case n >= 1000 && n <= 1021, n == 1200:
		return 4, true
	case n == 1300, n == 1301:
		return 6, true
	case n == 1400, n == 116:
		return 7, true
	}
	return n, false
}

// googleType: extended types that are too special become their group.
func googleType(n int) int {
	switch {
	case n == 104, n >= 110 && n <= 117:
		return 100
	case n >= 203 && n <= 209:
		return 200
	case n == 300:
		return 109
	case n == 404:
		return 400
	case n == 703, n >= 705 && n <= 714, n == 716:
		return 700
	case n >= 901 && n <= 906:
		return 900
	}
	return n
}

var someTypes = []int{0, 1, 2, 3, 4, 5, 6, 7, 11, 12, 100, 101, 102, 103, 104, 105, 106, 107, 108, 109, 110, 111, 112, 113, 114, 115, 116, 117, 200, 201, 202, 203, 204, 205, 206, 207, 208, 209, 300,
	400, 401, 402, 403, 404, 405, 500, 600, 700, 701, 702, 703, 704, 705, 706, 707, 708, 709, 710, 711, 712, 713, 714, 715, 716, 800, 900, 901, 902, 903, 904, 905, 906, 1000, 1001, 1010, 1021, 1200, 1300, 1301, 1400}

var fillers = []string{".", "..", "...", "-", "?"}
var notFillers = []string{"....", "--", "??", ". .", "!", "*", "x", "0", ",", "-1", "—", ".-"}

func init() {
	register(&Prop{ID: "C22", Quick: 12000,
		Rule: "A random valid feed with all kinds of route types and with fill values in names and descriptions is read with --standard-route-types, --google-supported-route-types and --remove-fillers, alone, together, with mode filters and with format options, and compared with the input after a reference model of these options. Non-trivial: a value had to change.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Aux = 60
			o.Routes = [2]int{2, 8}
			o.Trips = [2]int{2, 10}
			o.Orphans = 30
			o.AddFlds = r.pickn(0, 50)
			sc := baseScenario(r, o)
			f := sc.Feeds[0]
			for _, n := range []string{"routes.txt", "stops.txt", "trips.txt", "agency.txt"} {
				t := f[n]
				for _, c := range []string{"route_short_name", "route_long_name", "route_desc", "stop_desc", "stop_code", "trip_headsign", "trip_short_name", "stop_name", "agency_phone"} {
					if contains(schema[n], c) && t.col(c) < 0 && r.p(40) {
						t.Header = append(t.Header, c)
						for k := range t.Rows {
							t.Rows[k] = append(t.Rows[k], "")
						}
					}
					ci := t.col(c)
					if ci < 0 {
						continue
					}
					for _, row := range t.Rows {
						if c == "stop_name" && row[ci] == "" {
							continue
						}
						switch {
						case r.p(20):
							row[ci] = fillers[r.n(len(fillers))]
						case r.p(8):
							row[ci] = notFillers[r.n(len(notFillers))]
						}
					}
				}
			}
			t := f["routes.txt"]
			a, b, ty := t.col("route_short_name"), t.col("route_long_name"), t.col("route_type")
			for _, row := range t.Rows {
				row[ty] = strconv.Itoa(someTypes[r.n(len(someTypes))])
				// a route needs a name
				ok := false
				for _, ci := range []int{a, b} {
					ok = ok || ci >= 0 && row[ci] != "" && !contains(fillers, row[ci])
				}
				if !ok {
					if a < 0 {
						a = b
					}
					row[a] = "N" + strconv.Itoa(r.n(90))
				}
				if a >= 0 && b >= 0 && a != b && row[a] == row[b] {
					row[b] += " Line" // the reader drops a long name which is the short one
				}
			}
			for _, x := range []string{"--standard-route-types", "--google-supported-route-types", "--remove-fillers"} {
				if r.p(45) {
					sc.Flags = append(sc.Flags, x)
				}
			}
			if r.p(50) {
				sc.Flags = append(sc.Flags, "-F")
			}
			sc.Flags = append(sc.Flags, flagSet(r, 10, "--keep-col-order", "--unsorted-files", "-W", "--assume-clean-csv", "-e", "-D", "-z", "-n", "--fix", "--empty-str-repl="+r.pick("-", "x", "."), "--drop-shapes")...)
			if r.p(20) {
				x := someTypes[r.n(len(someTypes))]
				if r.p(50) {
					x = r.pickn(0, 1, 2, 3, 4, 100, 200, 400, 700, 900)
				}
				sc.Flags = append(sc.Flags, fmt.Sprintf("%s=%d", r.pick("-M", "-N"), x))
				// see the known findings of C10
				delete(f, "transfers.txt")
				delete(f, "fare_rules.txt")
			}
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			want := sc.Feeds[0].clone()
			did := false
			if sc.has("--drop-shapes") {
				delete(want, "shapes.txt")
				if ci := want["trips.txt"].col("shape_id"); ci >= 0 {
					for _, row := range want["trips.txt"].Rows {
						row[ci] = ""
					}
				}
			}
			set := func(row []string, ci int, v string) {
				if ci >= 0 && row[ci] != v {
					row[ci] = v
					did = true
				}
			}
			if sc.has("--remove-fillers") {
				for n, cs := range map[string][]string{"routes.txt": {"route_short_name", "route_long_name", "route_desc"}, "stops.txt": {"stop_desc", "stop_code"}} {
					for _, c := range cs {
						if ci := want[n].col(c); ci >= 0 {
							for _, row := range want[n].Rows {
								if contains(fillers, row[ci]) {
									set(row, ci, "")
								}
							}
						}
					}
				}
			}
			rt := want["routes.txt"]
			if rt == nil || rt.col("route_type") < 0 {
				return nil
			}
			gone := map[string]bool{}
			var keep [][]string
			for _, row := range rt.Rows {
				ci := rt.col("route_type")
				n := atoi(row[ci])
				if sc.has("--standard-route-types") {
					m, ok := stdType(n)
					if !ok {
						x.st.Skipped++
						return nil
					}
					n = m
				}
				if sc.has("--google-supported-route-types") {
					n = googleType(n)
				}
				set(row, ci, strconv.Itoa(n))
				if v, ok := sc.val("-M"); ok && atoi(v) != n {
					gone[row[rt.col("route_id")]] = true
					continue
				}
				if v, ok := sc.val("-N"); ok && atoi(v) == n {
					gone[row[rt.col("route_id")]] = true
					continue
				}
				keep = append(keep, row)
			}
			rt.Rows = keep
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			if did {
				x.nontrivial()
			}
			extra := sc.has("-F")
			out := newMod(f)
			vs := checkValid(out)
			tables := contentTables
			if len(gone) > 0 {
				x.mark("a mode filter on mapped types")
				// what happens to the trips of the routes is C18
				tables = []string{"agency.txt", "stops.txt", "routes.txt", "levels.txt", "pathways.txt", "shapes.txt"}
				for _, t := range newMod(sc.Feeds[0]).trips {
					if o := out.trips[t["trip_id"]]; (o != nil) == gone[t["route_id"]] {
						vs = append(vs, viol("filtered-trip", "trip %s of route %s: kept is %v", t["trip_id"], t["route_id"], o != nil))
						break
					}
				}
			}
			return append(vs, sameRows(newMod(want), out, extra, tables...)...)
		}})
}
