package main

func init() {
	var keeps []string
	for _, k := range idKinds {
		keeps = append(keeps, k.keep)
	}
	keeps = append(keeps, "--keep-attribution-ids")
	register(&Prop{ID: "C16", Quick: 10500,
		Rule: "Two or three random feeds (equal, overlapping or disjoint IDs) are joined, with random prefixes, --keep options, new IDs and (in a part of the runs) merging options. An additional column tells which entity is which; every row of every input must come back under a proper ID, with its references going to entities of its own feed. Runs with merging options must give a valid feed with the connections of all inputs. Non-trivial: an ID was used in more than one input.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Aux = 70
			o.Orphans = 30
			o.AddFlds = r.pickn(0, 50)
			o.Trips = [2]int{1, r.pickn(4, 10)}
			sc := baseScenario(r, o)
			sc.Feeds, sc.InZip = nil, nil
			n := r.pickn(2, 2, 2, 3)
			if r.p(2) {
				// numbers of two digits
				n = r.rang(10, 13)
				o.Trips, o.Stops, o.Routes = [2]int{1, 2}, [2]int{2, 3}, [2]int{1, 2}
			}
			mode := r.n(4)
			for k := 0; k < n; k++ {
				switch {
				case k > 0 && mode == 0:
					sc.Feeds = append(sc.Feeds, sc.Feeds[0].clone())
				case k > 0 && mode == 1:
					// the same ids, as far as there are as many
					f := genFeed(r, o)
					for _, kd := range idKinds {
						a, b := allIDs(sc.Feeds[0], kd), allIDs(f, kd)
						perm := r.perm(len(a))
						m := map[string]string{}
						used := map[string]bool{}
						for j, id := range b {
							if j < len(a) {
								m[id] = a[perm[j]]
								used[a[perm[j]]] = true
							}
						}
						for _, id := range b {
							if m[id] == "" {
								m[id] = id
								for used[m[id]] {
									m[id] += "_"
								}
								used[m[id]] = true
							}
						}
						mapIDs(f, kd, func(s string) string {
							if m[s] == "" {
								return s
							}
							return m[s]
						})
					}
					sc.Feeds = append(sc.Feeds, f)
				default:
					sc.Feeds = append(sc.Feeds, genFeed(r, o))
				}
				sc.InZip = append(sc.InZip, r.p(40))
			}
			sameZone(sc.Feeds)
			if r.p(25) {
				sc.Flags = append(sc.Flags, "--prefix="+r.pick("a", "1", "p_", "x", "de:"))
			}
			if r.p(25) {
				sc.Flags = append(sc.Flags, mixFlags(r)...)
			} else {
				for k := range sc.Feeds {
					sc.Feeds[k] = taggedAs(sc.Feeds[k], sc.prefix(k))
				}
				sc.Flags = append(sc.Flags, "-F")
			}
			if r.p(20) {
				sc.Flags = append(sc.Flags, r.pick("-i", "-d"))
			}
			if r.p(60) {
				if r.p(40) {
					sc.Flags = append(sc.Flags, "--keep-ids")
				} else {
					sc.Flags = append(sc.Flags, flagSet(r, 35, keeps...)...)
				}
			}
			sc.Flags = append(sc.Flags, flagSet(r, 5, formatFlags...)...)
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			f, v := x.simple(sc)
			if v != nil {
				return v
			}
			inF := prefixed(sc.Feeds, sc.prefix)
			in, out := newMod(inF), newMod(f)
			vs := checkValid(out)
			seen := map[string]bool{}
			clash := false
			for _, g := range sc.Feeds {
				for _, k := range idKinds {
					for _, id := range allIDs(g, k) {
						clash = clash || seen[k.name+" "+id]
					}
				}
				for _, k := range idKinds {
					for _, id := range allIDs(g, k) {
						seen[k.name+" "+id] = true
					}
				}
			}
			if clash {
				x.nontrivial()
			}
			if sc.has("-F") && hasTag(inF) {
				x.mark("compared row by row")
				vs = append(vs, attributionForm(sc, out)...)
				return append(vs, checkMinimised(sc, inF, f, true)...)
			}
			l := levelFor(sc)
			must := in.timetable(l, func(id string) bool { return !sc.does("-O") || in.usable(id) })
			may, got := in.timetable(l, nil), out.timetable(l, nil)
			if sc.does("-I") {
				must, may, got = asSet(must), asSet(may), asSet(got)
			}
			x.mark("compared by connections")
			if miss, _ := diffFacts(must, got); len(miss) > 0 {
				vs = append(vs, viol("connection-lost", "%d connections of the inputs are missing, e.g. %s", len(miss), head(miss[0], 700)))
			}
			if _, extra := diffFacts(may, got); len(extra) > 0 {
				vs = append(vs, viol("connection-added", "%d connections are not in the inputs, e.g. %s", len(extra), head(extra[0], 700)))
			}
			return vs
		}})
}

// taggedAs is tagged, with the ids behind a prefix in the additional column.
func taggedAs(f Feed, prefix string) Feed {
	f = tagged(f)
	for _, k := range idKinds {
		t := f[k.table]
		if t == nil || t.col(k.col) < 0 {
			continue
		}
		c, u := t.col(k.col), t.col("x_uid")
		for _, r := range t.Rows {
			r[u] = "u:" + prefix + r[c]
		}
	}
	return f
}
