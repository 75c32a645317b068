package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// idKind is one name space of identifiers.
type idKind struct {
	name  string
	table string // where the ids are defined
	col   string
	keep  string   // the option that preserves them
	refs  []string // table/column of every use
}

var idKinds = []idKind{
	{"agency", "agency.txt", "agency_id", "--keep-agency-ids", []string{"agency.txt/agency_id", "routes.txt/agency_id", "fare_attributes.txt/agency_id", "attributions.txt/agency_id"}},
	{"stop", "stops.txt", "stop_id", "--keep-station-ids", []string{"stops.txt/stop_id", "stops.txt/parent_station", "stop_times.txt/stop_id", "transfers.txt/from_stop_id", "transfers.txt/to_stop_id", "pathways.txt/from_stop_id", "pathways.txt/to_stop_id"}},
	{"route", "routes.txt", "route_id", "--keep-route-ids", []string{"routes.txt/route_id", "trips.txt/route_id", "fare_rules.txt/route_id", "transfers.txt/from_route_id", "transfers.txt/to_route_id", "attributions.txt/route_id"}},
	{"trip", "trips.txt", "trip_id", "--keep-trip-ids", []string{"trips.txt/trip_id", "stop_times.txt/trip_id", "frequencies.txt/trip_id", "transfers.txt/from_trip_id", "transfers.txt/to_trip_id", "attributions.txt/trip_id"}},
	{"shape", "shapes.txt", "shape_id", "--keep-shape-ids", []string{"shapes.txt/shape_id", "trips.txt/shape_id"}},
	{"fare", "fare_attributes.txt", "fare_id", "--keep-fare-ids", []string{"fare_attributes.txt/fare_id", "fare_rules.txt/fare_id"}},
	{"level", "levels.txt", "level_id", "--keep-level-ids", []string{"levels.txt/level_id", "stops.txt/level_id"}},
	{"pathway", "pathways.txt", "pathway_id", "--keep-pathway-ids", []string{"pathways.txt/pathway_id"}},
	{"service", "", "service_id", "--keep-service-ids", []string{"trips.txt/service_id", "calendar.txt/service_id", "calendar_dates.txt/service_id"}},
	{"block", "", "block_id", "--keep-block-ids", []string{"trips.txt/block_id"}},
}

// keepsIDs: --keep-ids stands for all the single options but the one for
// attributions.
func keepsIDs(sc *Scenario, k idKind) bool { return sc.has("--keep-ids") || sc.has(k.keep) }

// tagged adds a column with the entity's own id to every table that defines
// ids.  The column survives with -F and tells which entity is which.
func tagged(f Feed) Feed {
	f = f.clone()
	for _, k := range idKinds {
		t := f[k.table]
		if t == nil || t.col(k.col) < 0 || t.col("x_uid") >= 0 {
			continue
		}
		c := t.col(k.col)
		t.Header = append(t.Header, "x_uid")
		for i := range t.Rows {
			t.Rows[i] = append(t.Rows[i], "u:"+t.Rows[i][c])
		}
	}
	return f
}

// mapIDs rewrites all ids of one kind.
func mapIDs(f Feed, k idKind, m func(string) string) {
	for _, r := range k.refs {
		p := strings.SplitN(r, "/", 2)
		t := f[p[0]]
		if t == nil {
			continue
		}
		c := t.col(p[1])
		if c < 0 {
			continue
		}
		for _, row := range t.Rows {
			if row[c] != "" {
				row[c] = m(row[c])
			}
		}
	}
}

// readMapping finds out which new id stands for which old id.
func readMapping(out Feed, k idKind) (map[string]string, []Viol) {
	m := map[string]string{}
	inv := map[string]string{}
	t := out[k.table]
	if t == nil {
		return m, nil
	}
	c, u := t.col(k.col), t.col("x_uid")
	for _, r := range t.Rows {
		if c < 0 || u < 0 || !strings.HasPrefix(r[u], "u:") {
			return nil, []Viol{viol("tag-lost:"+k.name, "%s %s: the additional field x_uid is lost with -F", k.name, strings.Join(r, ","))}
		}
		o := r[u][2:]
		if p, ok := m[r[c]]; ok && p != o {
			return nil, []Viol{viol("id-clash:"+k.name, "%ss %s and %s share the new id %s", k.name, p, o, r[c])}
		}
		if p, ok := inv[o]; ok && p != r[c] {
			return nil, []Viol{viol("id-split:"+k.name, "%s %s has two new ids, %s and %s", k.name, o, p, r[c])}
		}
		m[r[c]] = o
		inv[o] = r[c]
	}
	return m, nil
}

// throughTrips finds the mapping of ids that trips.txt refers to.
func throughTrips(in, out *Mod, col, name string) (map[string]string, []Viol) {
	m := map[string]string{}
	inv := map[string]string{}
	for _, id := range sortedKeys(out.trips) {
		n := out.trips[id][col]
		i, ok := in.trips[id]
		if !ok {
			continue
		}
		o := i[col]
		if (n == "") != (o == "") {
			return nil, []Viol{viol("id-lost:"+name, "trip %s: %s %q became %q", id, name, o, n)}
		}
		if n == "" {
			continue
		}
		if p, ok := m[n]; ok && p != o {
			return nil, []Viol{viol("id-clash:"+name, "%ss %s and %s share the new id %s", name, p, o, n)}
		}
		if p, ok := inv[o]; ok && p != n {
			return nil, []Viol{viol("id-split:"+name, "%s %s has two new ids, %s and %s", name, o, p, n)}
		}
		m[n] = o
		inv[o] = n
	}
	return m, nil
}

func allIDs(f Feed, k idKind) []string {
	s := map[string]bool{}
	refs := k.refs
	if k.table != "" {
		refs = []string{k.table + "/" + k.col}
	}
	for _, r := range refs {
		p := strings.SplitN(r, "/", 2)
		if f[p[0]] == nil {
			continue
		}
		for _, row := range f.rows(p[0]) {
			if v := row[p[1]]; v != "" {
				s[v] = true
			}
		}
	}
	return sortedKeys(s)
}

// checkIDForm: new ids count up from 1 behind the prefix.
func checkIDForm(out Feed, k idKind, prefix string, base int) []Viol {
	want := []string{}
	ids := allIDs(out, k)
	for i := range ids {
		want = append(want, prefix+strconv.FormatInt(int64(i+1), base))
	}
	sort.Strings(want)
	if strings.Join(want, ",") != strings.Join(ids, ",") {
		return []Viol{viol("id-form:"+k.name, "%s ids are %s, want %s", k.name, head(strings.Join(ids, ","), 200), head(strings.Join(want, ","), 200))}
	}
	return nil
}

// checkMinimised compares input and output of a run that gave new ids; out
// is changed to carry the old ids.
func checkMinimised(sc *Scenario, inF Feed, outF Feed, extra bool) []Viol {
	outF = outF.clone()
	prefix, _ := sc.val("--prefix")
	base := 10
	if sc.has("-d") && !sc.has("-i") {
		base = 36
	}
	mini := sc.has("-i", "-d")
	var vs []Viol
	// the form of the new ids
	for _, k := range idKinds {
		keep := keepsIDs(sc, k)
		switch {
		case keep && len(sc.Feeds) == 1:
			// checked below: the rows come back with their own ids
		case mini && k.name != "block":
			if keep {
				continue
			}
			vs = append(vs, checkIDForm(outF, k, prefix, base)...)
		}
	}
	if len(vs) > 0 {
		return vs
	}
	in := newMod(inF)
	for _, k := range idKinds {
		if k.table == "" {
			continue
		}
		m, v := readMapping(outF, k)
		if v != nil {
			vs = append(vs, v...)
			continue
		}
		if keepsIDs(sc, k) && len(sc.Feeds) == 1 {
			for _, n := range sortedKeys(m) {
				if n != m[n] {
					vs = append(vs, viol("id-not-kept:"+k.name, "%s %s became %s in spite of %s", k.name, m[n], n, k.keep))
					break
				}
			}
		} else if !mini && !keepsIDs(sc, k) && len(sc.Feeds) == 1 {
			for _, n := range sortedKeys(m) {
				if n != prefix+m[n] {
					vs = append(vs, viol("id-prefix:"+k.name, "%s %s became %s with the prefix %q", k.name, m[n], n, prefix))
					break
				}
			}
		}
		vs = append(vs, joinedIDs(sc, k, m, allIDs(outF, k))...)
		mapIDs(outF, k, func(s string) string {
			if o, ok := m[s]; ok {
				return o
			}
			return "!" + s
		})
	}
	if len(vs) > 0 {
		return vs
	}
	mo := newMod(outF)
	for _, k := range idKinds {
		if k.table != "" {
			continue
		}
		m, v := throughTrips(in, mo, k.col, k.name)
		vs = append(vs, v...)
		if v != nil {
			continue
		}
		if keepsIDs(sc, k) && len(sc.Feeds) == 1 {
			for _, n := range sortedKeys(m) {
				if n != m[n] {
					vs = append(vs, viol("id-not-kept:"+k.name, "%s %s became %s in spite of %s", k.name, m[n], n, k.keep))
					break
				}
			}
		} else if (!mini || k.name == "block") && !keepsIDs(sc, k) && len(sc.Feeds) == 1 {
			for _, n := range sortedKeys(m) {
				if n != prefix+m[n] {
					vs = append(vs, viol("id-prefix:"+k.name, "%s %s became %s with the prefix %q", k.name, m[n], n, prefix))
					break
				}
			}
		}
		vs = append(vs, joinedIDs(sc, k, m, allIDs(outF, k))...)
		unused := map[string]int{}
		if k.name == "service" {
			// services without trips are told apart by their days only
			for id := range mo.services {
				if _, ok := m[id]; !ok {
					unused[dateKey(mo.active[id])]++
				}
			}
			used := map[string]bool{}
			for _, o := range m {
				used[o] = true
			}
			for id := range in.services {
				if !used[id] {
					unused[dateKey(in.active[id])]--
				}
			}
			for _, d := range sortedKeys(unused) {
				if unused[d] != 0 {
					vs = append(vs, viol("unused-service", "services without trips: %+d with the days %q", unused[d], head(d, 200)))
				}
			}
		}
		mapIDs(outF, k, func(s string) string {
			if o, ok := m[s]; ok {
				return o
			}
			return "!" + s
		})
	}
	if len(vs) > 0 {
		return vs
	}
	// zones are prefixed and never restored or minimised
	if prefix != "" && len(sc.Feeds) == 1 {
		for _, r := range []string{"stops.txt/zone_id", "fare_rules.txt/origin_id", "fare_rules.txt/destination_id", "fare_rules.txt/contains_id"} {
			p := strings.SplitN(r, "/", 2)
			if t := outF[p[0]]; t != nil && t.col(p[1]) >= 0 {
				for _, row := range t.Rows {
					if v := row[t.col(p[1])]; v != "" {
						if v == prefix {
							return append(vs, viol("zone-prefix-only", "%s: an unset %s became %q", p[0], p[1], v))
						}
						if !strings.HasPrefix(v, prefix) {
							return append(vs, viol("zone-prefix", "%s: %s %q lacks the prefix %q", p[0], p[1], v, prefix))
						}
						row[t.col(p[1])] = v[len(prefix):]
					}
				}
			}
		}
	}
	mo = newMod(outF)
	vs = append(vs, sameRows(in, mo, extra, except(contentTables, "attributions.txt")...)...)
	vs = append(vs, cmpFacts("row:attributions.txt", in.rowsOf("attributions.txt", extra, "attribution_id"), mo.rowsOf("attributions.txt", extra, "attribution_id"))...)
	ci, co := in.calFacts(), mo.calFacts()
	for _, c := range []map[string]int{ci, co} {
		for k := range c {
			if !usedService(in, k[:strings.LastIndexByte(k, ':')]) {
				delete(c, k)
			}
		}
	}
	vs = append(vs, cmpFacts("calendar", ci, co)...)
	return vs
}

// joinedIDs: the ids of several inputs are those of their feed behind its
// prefix, or with the option to keep them the original ones, where these are
// not used twice.  m maps the ids of the output to those behind a prefix.
func joinedIDs(sc *Scenario, k idKind, m map[string]string, all []string) []Viol {
	if len(sc.Feeds) < 2 {
		return nil
	}
	if !keepsIDs(sc, k) {
		if sc.has("-i", "-d") && k.name != "block" {
			return nil // see checkIDForm
		}
		for _, n := range sortedKeys(m) {
			if n != m[n] {
				return []Viol{viol("id-prefix:"+k.name, "%s %s of the joined feed is %s in the output", k.name, m[n], n)}
			}
		}
		return nil
	}
	users := map[string]int{}
	orig := map[string]string{}
	for i, f := range sc.Feeds {
		for _, id := range allIDs(f, k) {
			users[id]++
			orig[sc.prefix(i)+id] = id
		}
	}
	taken := map[string]bool{}
	for _, n := range all {
		taken[n] = true
	}
	for _, n := range sortedKeys(m) {
		o := orig[m[n]]
		switch {
		case n == o:
		case n != m[n]:
			return []Viol{viol("id-changed:"+k.name, "%s %s of the joined feed is %s in the output, in spite of %s", k.name, m[n], n, k.keep)}
		case !taken[o]:
			return []Viol{viol("id-not-restored:"+k.name, "%s %s could have its original id with %s, but is %s", k.name, o, k.keep, n)}
		}
	}
	return nil
}

func usedService(m *Mod, id string) bool {
	for _, t := range m.trips {
		if t["service_id"] == id {
			return true
		}
	}
	return false
}

// attributionForm: the ids of attributions are new, those behind a prefix, or
// the original ones, as the options say.
func attributionForm(sc *Scenario, out *Mod) []Viol {
	prefix, _ := sc.val("--prefix")
	var ids, want []string
	for _, r := range out.attrs {
		ids = append(ids, r["attribution_id"])
	}
	orig := map[string]string{}
	last := map[string]bool{}
	for i, f := range sc.Feeds {
		p := prefix
		if len(sc.Feeds) > 1 {
			p = sc.prefix(i)
		}
		for _, r := range newMod(f).attrs {
			if id := r["attribution_id"]; id != "" {
				want = append(want, p+id)
				orig[p+id] = id
				last[id] = true
			} else {
				want = append(want, "")
			}
		}
	}
	keep := sc.has("--keep-attribution-ids")
	switch {
	case sc.has("-i", "-d") && !keep:
		base := 36
		if sc.has("-i") {
			base = 10
		}
		for i := range want {
			want[i] = prefix + strconv.FormatInt(int64(i+1), base)
		}
	case keep && len(sc.Feeds) > 1:
		have := map[string]bool{}
		for _, id := range ids {
			if id != "" && have[id] {
				return []Viol{viol("id-twice:attribution", "two attributions have the id %s", id)}
			}
			have[id] = true
		}
		for _, id := range ids {
			if id == "" {
				continue
			}
			if o := orig[id]; o != "" && !have[o] {
				return []Viol{viol("id-not-restored:attribution", "attribution %s could have its original id with --keep-attribution-ids, but is %s", o, id)}
			} else if o == "" && !last[id] {
				return []Viol{viol("id-changed:attribution", "no input has the attribution %s", id)}
			}
		}
		return nil
	case keep:
		for i := range want {
			if want[i] != "" {
				want[i] = orig[want[i]]
			}
		}
	}
	sort.Strings(ids)
	sort.Strings(want)
	if strings.Join(ids, ",") != strings.Join(want, ",") {
		return []Viol{viol("id-form:attribution", "attribution ids are %v, want %v", ids, want)}
	}
	return nil
}

func init() {
	var keeps []string
	for _, k := range idKinds {
		keeps = append(keeps, k.keep)
	}
	keeps = append(keeps, "--keep-attribution-ids")
	// C03: identifiers
	register(&Prop{ID: "C03", Quick: 21000,
		Rule: "A random feed (ids that collide with the new ones are common) gets new ids with -i, -d or --prefix and random --keep options; with -F an additional column tells which entity is which. Non-trivial: ids changed and the rows were compared through the recovered mapping.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Aux = 70
			o.Orphans = 40
			o.Trips = [2]int{2, 14}
			o.AddFlds = r.pickn(0, 50)
			sc := baseScenario(r, o)
			if r.p(20) {
				addPlaces(r, sc.Feeds[0], 1+r.n(4))
			}
			if r.n(150) == 0 {
				bulk(r, sc.Feeds[0])
			}
			sc.Flags = append(sc.Flags, []string{"-i", "-d", "-i", "-d", ""}[r.n(5)])
			if sc.Flags[0] == "" {
				sc.Flags = nil
			}
			if r.p(40) || sc.Flags == nil {
				sc.Flags = append(sc.Flags, "--prefix="+r.pick("a", "1", "p_", "x", "de:"))
			}
			if r.p(50) {
				if r.p(20) {
					sc.Flags = append(sc.Flags, "--keep-ids")
				} else {
					sc.Flags = append(sc.Flags, flagSet(r, 25, keeps...)...)
				}
			}
			if r.p(70) {
				sc.Flags = append(sc.Flags, "-F")
				sc.Feeds[0] = tagged(sc.Feeds[0])
			}
			sc.Flags = append(sc.Flags, flagSet(r, 5, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			vs := checkValid(out)
			vs = append(vs, attributionForm(sc, out)...)
			if prefix, _ := sc.val("--prefix"); prefix == "" {
				vs = append(vs, checkJourneys(in, out, &NFOpt{})...)
				vs = append(vs, cmpFacts("fare", in.fareFacts(&NFOpt{}, nil), out.fareFacts(&NFOpt{}, nil))...)
				vs = append(vs, cmpFacts("transfer", in.transferFacts(&NFOpt{}, nil), out.transferFacts(&NFOpt{}, nil))...)
				vs = append(vs, cmpFacts("pathway", in.pathwayFacts(&NFOpt{}), out.pathwayFacts(&NFOpt{}))...)
			} else {
				vs = append(vs, checkJourneys(in, out, &NFOpt{NoZone: true})...)
			}
			for _, t := range contentTables {
				if a, b := tableLen(sc.Feeds[0], t), tableLen(f, t); a != b {
					vs = append(vs, viol("row-count:"+t, "%s has %d rows in the input and %d in the output", t, a, b))
				}
			}
			if sc.has("-F") && hasTag(sc.Feeds[0]) {
				vs = append(vs, checkMinimised(sc, sc.Feeds[0], f, true)...)
			}
			x.nontrivial()
			return vs
		}})
	_ = fmt.Sprint
}

func hasTag(f Feed) bool {
	for _, k := range idKinds {
		if t := f[k.table]; t != nil && len(t.Rows) > 0 && t.col("x_uid") < 0 {
			return false
		}
	}
	return true
}

func tableLen(f Feed, n string) int {
	if f[n] == nil {
		return 0
	}
	return len(f[n].Rows)
}

// bulk adds many copies of stops or trips.
func bulk(r *rng, f Feed) {
	n := r.pickn(130, 300, 1100, 1400)
	if t := f["stops.txt"]; r.p(50) {
		for k, m := 0, len(t.Rows); k < n && m > 0; k++ {
			row := append([]string(nil), t.Rows[r.n(m)]...)
			row[t.col("stop_id")] = fmt.Sprintf("bulk%d", k)
			t.Rows = append(t.Rows, row)
		}
		return
	}
	t, st := f["trips.txt"], f["stop_times.txt"]
	of := map[string][][]string{}
	for _, row := range st.Rows {
		of[row[st.col("trip_id")]] = append(of[row[st.col("trip_id")]], row)
	}
	for k, m := 0, len(t.Rows); k < n && m > 0; k++ {
		row := append([]string(nil), t.Rows[r.n(m)]...)
		for _, x := range of[row[t.col("trip_id")]] {
			y := append([]string(nil), x...)
			y[st.col("trip_id")] = fmt.Sprintf("bulk%d", k)
			st.Rows = append(st.Rows, y)
		}
		row[t.col("trip_id")] = fmt.Sprintf("bulk%d", k)
		t.Rows = append(t.Rows, row)
	}
}
