package main

import (
	"sort"
	"strings"
)

type mapper map[string]func(string) string

// mappedRows is rowsOf with some columns rewritten.
func (m *Mod) mappedRows(file string, extra bool, mp mapper, skip ...string) map[string]int {
	out := map[string]int{}
	for _, r := range m.mappedList(file, extra, mp, skip...) {
		out[r]++
	}
	return out
}

func (m *Mod) cols(file string, extra bool) []string {
	cols := append([]string{}, schema[file]...)
	if extra && m.feed[file] != nil {
		var add []string
		for _, h := range m.feed[file].Header {
			if !contains(cols, h) {
				add = append(add, h)
			}
		}
		sort.Strings(add)
		cols = append(cols, add...)
	}
	return cols
}

func (m *Mod) mappedList(file string, extra bool, mp mapper, skip ...string) []string {
	var out []string
	sk := map[string]bool{}
	for _, s := range skip {
		sk[s] = true
	}
	if m.feed[file] == nil {
		return nil
	}
	cols := m.cols(file, extra)
	for _, r := range m.feed.rows(file) {
		out = append(out, m.mappedRow(file, cols, r, mp, sk))
	}
	return out
}

func (m *Mod) mappedRow(file string, cols []string, r Row, mp mapper, sk map[string]bool) string {
	q := r
	if len(mp) > 0 {
		q = Row{}
		for k, v := range r {
			q[k] = v
		}
		for c, f := range mp {
			if q[c] != "" {
				q[c] = f(q[c])
			}
		}
	}
	return m.rowKey(file, cols, q, sk)
}

func asSet(m map[string]int) map[string]int {
	o := map[string]int{}
	for k := range m {
		o[k] = 1
	}
	return o
}

// agencyClass: everything but the id.
func (m *Mod) agencyClass(id string, extra bool) string {
	r, ok := m.agency[id]
	if !ok {
		return "!agency " + id
	}
	return "{" + m.rowKey("agency.txt", m.cols("agency.txt", extra), r, map[string]bool{"agency_id": true}) + "}"
}

// fareSig: which fare rules name the route.
func (m *Mod) fareSig(route string) string {
	var l []string
	for _, r := range m.feed.rows("fare_rules.txt") {
		if r["route_id"] == route {
			l = append(l, r["fare_id"]+"/"+r["origin_id"]+"/"+r["destination_id"]+"/"+r["contains_id"])
		}
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

type mergeClasses struct {
	m            *Mod
	extra, A, R  bool
	agency, rout map[string]string
}

func newClasses(m *Mod, extra, A, R bool) *mergeClasses {
	return &mergeClasses{m, extra, A, R, map[string]string{}, map[string]string{}}
}

func (c *mergeClasses) ag(id string) string {
	if !c.A {
		return id
	}
	if k, ok := c.agency[id]; ok {
		return k
	}
	k := c.m.agencyClass(id, c.extra)
	c.agency[id] = k
	return k
}

func (c *mergeClasses) route(id string) string {
	if !c.R {
		return id
	}
	if k, ok := c.rout[id]; ok {
		return k
	}
	k := "!route " + id
	if r, ok := c.m.routes[id]; ok {
		k = "<" + c.m.mappedRow("routes.txt", c.m.cols("routes.txt", c.extra), r, mapper{"agency_id": c.ag}, map[string]bool{"route_id": true, "route_sort_order": true}) + "|" + c.m.fareSig(id) + ">"
	}
	c.rout[id] = k
	return k
}

func init() {
	// C04: duplicate agencies, routes and services
	register(&Prop{ID: "C04", Quick: 21000,
		Rule: "A random feed with many duplicates and near duplicates (one visible attribute differs) of agencies, routes and services is run through a non-empty subset of -A, -R, -C. Non-trivial: at least one entity was merged.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Agencies = [2]int{1, 5}
			o.Routes = [2]int{1, 9}
			o.Services = [2]int{1, 7}
			o.Trips = [2]int{2, 12}
			o.Dup = r.pickn(30, 60, 85)
			o.Aux = 75
			o.Orphans = 30
			o.AddFlds = r.pickn(0, 0, 60)
			sc := baseScenario(r, o)
			sc.Flags = subset(r, 60, "-A", "-R", "-C")
			if o.AddFlds > 0 && r.p(60) {
				sc.Flags = append(sc.Flags, "-F")
			}
			if r.p(15) {
				sc.Flags = append(sc.Flags, r.pick("-c", "--explicit-calendar"))
			}
			sc.Flags = append(sc.Flags, flagSet(r, 4, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			in, out := newMod(sc.Feeds[0]), newMod(f)
			extra := sc.has("-F")
			A, R, C := sc.has("-A"), sc.has("-R"), sc.has("-C")
			vs := checkValid(out)
			vs = append(vs, checkJourneys(in, out, &NFOpt{NoSort: R})...)
			ci, co := newClasses(in, extra, A, R), newClasses(out, extra, A, R)
			mi, mo := mapper{"agency_id": ci.ag, "route_id": ci.route, "from_route_id": ci.route, "to_route_id": ci.route}, mapper{"agency_id": co.ag, "route_id": co.route, "from_route_id": co.route, "to_route_id": co.route}
			cmp := func(file string, set bool, skip ...string) {
				a, b := in.mappedRows(file, extra, mi, skip...), out.mappedRows(file, extra, mo, skip...)
				if set {
					a, b = asSet(a), asSet(b)
				}
				vs = append(vs, cmpFacts("row:"+file, a, b)...)
			}
			// untouched tables
			vs = append(vs, sameRows(in, out, extra, except(contentTables, "agency.txt", "routes.txt", "trips.txt", "fare_attributes.txt", "fare_rules.txt", "transfers.txt", "attributions.txt")...)...)
			var skip []string
			if C {
				skip = append(skip, "service_id")
			}
			cmp("trips.txt", false, skip...)
			vs = append(vs, cmpFacts("trip-dates", in.tripDates(), out.tripDates())...)
			cmp("agency.txt", A)
			if R {
				cmp("routes.txt", true, "route_id", "route_sort_order")
			} else {
				cmp("routes.txt", false)
			}
			cmp("fare_attributes.txt", false)
			cmp("fare_rules.txt", true)
			cmp("attributions.txt", false)
			if R {
				vs = append(vs, mergedTransfers(in, out, extra, mi, mo)...)
			} else {
				cmp("transfers.txt", false)
			}
			// what is left is what was there
			merged := 0
			left := func(file, id string, mpI, mpO mapper) {
				rows := map[string]string{}
				for k, r := range in.feed.rows(file) {
					_ = k
					rows[r[id]] = in.mappedRow(file, in.cols(file, extra), r, mpI, nil)
				}
				for _, r := range out.feed.rows(file) {
					w, ok := rows[r[id]]
					if !ok {
						vs = append(vs, viol("new-id:"+file, "%s: %s %q is not from the input", file, id, r[id]))
						return
					}
					if g := out.mappedRow(file, out.cols(file, extra), r, mpO, nil); g != w {
						vs = append(vs, viol("changed:"+file, "%s: %s became %s", file, w, g))
						return
					}
				}
				merged += tableLen(in.feed, file) - tableLen(out.feed, file)
			}
			left("agency.txt", "agency_id", nil, nil)
			left("routes.txt", "route_id", mapper{"agency_id": ci.ag}, mapper{"agency_id": co.ag})
			for _, id := range sortedKeys(out.services) {
				if !in.services[id] {
					vs = append(vs, viol("new-id:service", "service %s is not from the input", id))
				} else if dateKey(in.active[id]) != dateKey(out.active[id]) {
					vs = append(vs, viol("changed:service", "service %s runs on other days than before", id))
				}
			}
			days := func(m *Mod) map[string]int {
				o := map[string]int{}
				for id := range m.services {
					if len(m.active[id]) > 0 || !C {
						if C {
							o[dateKey(m.active[id])] = 1
						} else {
							o[dateKey(m.active[id])]++
						}
					}
				}
				return o
			}
			vs = append(vs, cmpFacts("service-days", days(in), days(out))...)
			merged += len(in.services) - len(out.services)
			// nothing is left to merge
			if A {
				seen := map[string]string{}
				for _, id := range sortedKeys(out.agency) {
					k := co.ag(id)
					if o, ok := seen[k]; ok {
						vs = append(vs, viol("equal-agencies-left", "agencies %s and %s are equal after -A", o, id))
						break
					}
					seen[k] = id
				}
			}
			if R {
				seen := map[string]string{}
				for _, id := range sortedKeys(out.routes) {
					k := co.route(id)
					if o, ok := seen[k]; ok {
						vs = append(vs, viol("equal-routes-left", "routes %s and %s are equal after -R", o, id))
						break
					}
					seen[k] = id
				}
			}
			if C {
				vs = append(vs, sameDates(out)...)
			}
			if merged > 0 {
				x.nontrivial()
			}
			return vs
		}})
}

// mergedTransfers: rules that name merged entities are kept for the entity
// that stands for them; where rules clash, one of them stays.
func mergedTransfers(in, out *Mod, extra bool, mi, mo mapper) []Viol {
	key := []string{"transfer_type", "min_transfer_time"}
	for _, c := range in.cols("transfers.txt", extra) {
		if !contains(schema["transfers.txt"], c) {
			key = append(key, c)
		}
	}
	a := asSet(in.mappedRows("transfers.txt", false, mi, key...))
	b := asSet(out.mappedRows("transfers.txt", false, mo, key...))
	vs := cmpFacts("transfer-key", a, b)
	full := in.mappedRows("transfers.txt", extra, mi)
	for _, k := range sortedKeys(out.mappedRows("transfers.txt", extra, mo)) {
		if full[k] == 0 {
			vs = append(vs, viol("transfer-changed", "transfers.txt: no rule of the input reads %s", k))
			break
		}
	}
	return vs
}
