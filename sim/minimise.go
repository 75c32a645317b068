package main

import (
	"strings"
	"time"
)

// minimise shrinks a failing scenario: options, faults, schedule, entities,
// rows and columns are removed as long as a violation with the same
// signature remains.
func minimise(x *Ctx, p *Prop, sc *Scenario, sig string, limit time.Duration) (*Scenario, int) {
	end := time.Now().Add(limit)
	tries := 0
	fails := func(c *Scenario) bool {
		if time.Now().After(end) {
			return false
		}
		tries++
		for _, v := range x.runCheck(p, c) {
			if v.Sig == sig {
				return true
			}
		}
		return false
	}
	cur := sc
	try := func(f func(c *Scenario)) bool {
		c := cur.clone()
		f(c)
		if fails(c) {
			cur = c
			return true
		}
		return false
	}
	simpleSched := Sched{NCPU: 1, Mode: 1, Clock: 1577836800, Reseed: sc.Sched.Reseed}
	for round := 0; round < 4; round++ {
		before := size(cur)
		// schedule
		try(func(c *Scenario) {
			c.Sched = simpleSched
			if c.Sched2 != nil {
				c.Sched2 = &Sched{NCPU: 1, Mode: 1, Clock: 1577836800}
			}
		})
		try(func(c *Scenario) { c.Sched.Yield = 0 })
		try(func(c *Scenario) { c.Sched.Mode = 1 })
		try(func(c *Scenario) { c.Sched.NCPU = 1 })
		if cur.Sched2 != nil {
			try(func(c *Scenario) { s := c.Sched; s.HashSeed = c.Sched2.HashSeed; *c.Sched2 = s })
		}
		// faults
		for i := len(cur.Faults) - 1; i >= 0; i-- {
			i := i
			if !try(func(c *Scenario) { c.Faults = append(c.Faults[:i:i], c.Faults[i+1:]...) }) && cur.Faults[i].Sticky {
				try(func(c *Scenario) { c.Faults[i].Sticky = false })
			}
		}
		// errors in the input
		for i := len(cur.Corrupt) - 1; i >= 0 && len(cur.Corrupt) > 1; i-- {
			i := i
			try(func(c *Scenario) { c.Corrupt = append(c.Corrupt[:i:i], c.Corrupt[i+1:]...) })
		}
		// ways to write the input
		for i := 0; cur.Rewrite != nil && i < len(cur.Rewrite.Kinds) && len(cur.Rewrite.Kinds) > 1; {
			i0 := i
			if !try(func(c *Scenario) { c.Rewrite.Kinds = append(c.Rewrite.Kinds[:i0:i0], c.Rewrite.Kinds[i0+1:]...) }) {
				i++
			}
		}
		// options
		for i := len(cur.Flags) - 1; i >= 0; i-- {
			i := i
			try(func(c *Scenario) { c.Flags = append(c.Flags[:i:i], c.Flags[i+1:]...) })
		}
		// optional files
		for fi := range cur.Feeds {
			for _, n := range cur.Feeds[fi].files() {
				n, fi := n, fi
				if !requiredFiles[n] {
					try(func(c *Scenario) { delete(c.Feeds[fi], n) })
				}
			}
			shrinkRows(&cur, fi, fails)
			// columns, then cells
			for _, n := range cur.Feeds[fi].files() {
				for k := len(cur.Feeds[fi][n].Header) - 1; k >= 0; k-- {
					n, k, fi := n, k, fi
					try(func(c *Scenario) {
						t := c.Feeds[fi][n]
						t.Header = append(t.Header[:k:k], t.Header[k+1:]...)
						for i := range t.Rows {
							t.Rows[i] = append(t.Rows[i][:k:k], t.Rows[i][k+1:]...)
						}
					})
				}
			}
		}
		if len(cur.Feeds) > 1 {
			for i := len(cur.Feeds) - 1; i >= 0 && len(cur.Feeds) > 1; i-- {
				i := i
				try(func(c *Scenario) {
					c.Feeds = append(c.Feeds[:i:i], c.Feeds[i+1:]...)
					c.InZip = append(c.InZip[:i:i], c.InZip[i+1:]...)
				})
			}
		}
		try(func(c *Scenario) {
			for i := range c.InZip {
				c.InZip[i] = false
			}
		})
		if size(cur) == before || time.Now().After(end) {
			break
		}
	}
	// write the remaining schedule out as an explicit list of decisions
	if cur.Sched.Mode != 4 && cur.Sched2 == nil && len(x.last) <= 1 {
		x.useLog = true
		fails(cur)
		x.useLog = false
		if len(x.last) == 1 {
			pre, picks := explicit(x.last[0].Log)
			if len(pre) <= maxPre && len(picks) <= maxPick && len(pre)+len(picks) > 0 {
				c := cur.clone()
				c.Sched.Mode = 4
				c.Sched.Pre, c.Sched.Picks = pre, picks
				if fails(c) {
					cur = c
					cut := func(get func(c *Scenario) *[]uint64) {
						for n := len(*get(cur)); n > 0; n /= 2 {
							for i := 0; i+n <= len(*get(cur)); {
								i, n := i, n
								if !try(func(c *Scenario) { l := get(c); *l = append((*l)[:i:i], (*l)[i+n:]...) }) {
									break
								}
							}
							for i := len(*get(cur)) - n; i >= 0; i -= n {
								i, n := i, n
								if i+n <= len(*get(cur)) {
									try(func(c *Scenario) { l := get(c); *l = append((*l)[:i:i], (*l)[i+n:]...) })
								}
							}
						}
					}
					cut(func(c *Scenario) *[]uint64 { return &c.Sched.Pre })
					cut(func(c *Scenario) *[]uint64 { return &c.Sched.Picks })
				}
			}
		}
	}
	return cur, tries
}

// explicit turns the event log of a run into the list of its scheduling
// decisions.
func explicit(log []uint64) (pre, picks []uint64) {
	k := uint64(0)
	for _, e := range log {
		kind, a, b := e>>56, e>>20&0xfffffffff, e&0xfffff
		switch kind {
		case 1:
			pre = append(pre, a)
		case 2:
			k++
			if b != 0 {
				picks = append(picks, k<<16|b)
			}
		}
	}
	return
}

func size(sc *Scenario) int {
	n := len(sc.Flags) + len(sc.Faults) + len(sc.Corrupt) + len(sc.Sched.Pre) + len(sc.Sched.Picks)
	for _, f := range sc.Feeds {
		for _, t := range f {
			n += len(t.Rows)*len(t.Header) + len(t.Header)
		}
	}
	return n
}

// shrinkRows removes entities with everything that refers to them, then
// single rows.
func shrinkRows(cur **Scenario, fi int, fails func(c *Scenario) bool) {
	kinds := []struct{ file, col string }{{"trips.txt", "trip_id"}, {"routes.txt", "route_id"}, {"calendar.txt", "service_id"}, {"calendar_dates.txt", "service_id"}, {"stops.txt", "stop_id"},
		{"agency.txt", "agency_id"}, {"shapes.txt", "shape_id"}, {"fare_attributes.txt", "fare_id"}, {"levels.txt", "level_id"}}
	for _, k := range kinds {
		t := (*cur).Feeds[fi][k.file]
		if t == nil {
			continue
		}
		var ids []string
		seen := map[string]bool{}
		for _, r := range (*cur).Feeds[fi].rows(k.file) {
			if !seen[r[k.col]] {
				seen[r[k.col]] = true
				ids = append(ids, r[k.col])
			}
		}
		for n := (len(ids) + 1) / 2; n > 0; n /= 2 {
			for i := 0; i < len(ids); i += n {
				j := i + n
				if j > len(ids) {
					j = len(ids)
				}
				c := (*cur).clone()
				for _, id := range ids[i:j] {
					c.Feeds[fi].dropEntity(k.file, id)
				}
				if fails(c) {
					*cur = c
				}
			}
			if n == 1 {
				break
			}
		}
	}
	for _, name := range (*cur).Feeds[fi].files() {
		for n := (len((*cur).Feeds[fi][name].Rows) + 1) / 2; n > 0; n /= 2 {
			for i := len((*cur).Feeds[fi][name].Rows) - n; i >= 0; i -= n {
				c := (*cur).clone()
				t := c.Feeds[fi][name]
				if i+n > len(t.Rows) {
					continue
				}
				t.Rows = append(t.Rows[:i:i], t.Rows[i+n:]...)
				if fails(c) {
					*cur = c
				}
			}
			if n == 1 {
				break
			}
		}
	}
}

// dropEntity removes an entity and, in cascade, what cannot exist without it.
func (f Feed) dropEntity(file, id string) {
	drop := func(name, col string, optional bool, ids map[string]bool, cascade func(r []string, t *Table)) {
		t := f[name]
		if t == nil {
			return
		}
		ci := t.col(col)
		if ci < 0 {
			return
		}
		var keep [][]string
		for _, r := range t.Rows {
			if ids[r[ci]] && r[ci] != "" {
				if optional {
					r[ci] = ""
				} else {
					if cascade != nil {
						cascade(r, t)
					}
					continue
				}
			}
			keep = append(keep, r)
		}
		t.Rows = keep
	}
	one := map[string]bool{id: true}
	dropTrips := func(ids map[string]bool) {
		drop("trips.txt", "trip_id", false, ids, nil)
		for _, n := range []string{"stop_times.txt", "frequencies.txt", "attributions.txt"} {
			drop(n, "trip_id", false, ids, nil)
		}
		drop("transfers.txt", "from_trip_id", false, ids, nil)
		drop("transfers.txt", "to_trip_id", false, ids, nil)
	}
	trips := map[string]bool{}
	collect := func(col string) func(r []string, t *Table) {
		return func(r []string, t *Table) { trips[r[t.col(col)]] = true }
	}
	switch file {
	case "trips.txt":
		dropTrips(one)
	case "routes.txt":
		drop("routes.txt", "route_id", false, one, nil)
		drop("trips.txt", "route_id", false, one, collect("trip_id"))
		drop("fare_rules.txt", "route_id", false, one, nil)
		drop("attributions.txt", "route_id", false, one, nil)
		drop("transfers.txt", "from_route_id", false, one, nil)
		drop("transfers.txt", "to_route_id", false, one, nil)
		dropTrips(trips)
	case "calendar.txt", "calendar_dates.txt":
		drop("calendar.txt", "service_id", false, one, nil)
		drop("calendar_dates.txt", "service_id", false, one, nil)
		drop("trips.txt", "service_id", false, one, collect("trip_id"))
		dropTrips(trips)
	case "stops.txt":
		drop("stops.txt", "stop_id", false, one, nil)
		drop("stops.txt", "parent_station", true, one, nil)
		drop("stop_times.txt", "stop_id", false, one, nil)
		for _, c := range []string{"from_stop_id", "to_stop_id"} {
			drop("transfers.txt", c, false, one, nil)
			drop("pathways.txt", c, false, one, nil)
		}
	case "agency.txt":
		drop("agency.txt", "agency_id", false, one, nil)
		rt := map[string]bool{}
		drop("routes.txt", "agency_id", false, one, func(r []string, t *Table) { rt[r[t.col("route_id")]] = true })
		drop("fare_attributes.txt", "agency_id", true, one, nil)
		drop("attributions.txt", "agency_id", false, one, nil)
		for k := range rt {
			f.dropEntity("routes.txt", k)
		}
	case "shapes.txt":
		drop("shapes.txt", "shape_id", false, one, nil)
		drop("trips.txt", "shape_id", true, one, nil)
	case "fare_attributes.txt":
		drop("fare_attributes.txt", "fare_id", false, one, nil)
		drop("fare_rules.txt", "fare_id", false, one, nil)
	case "levels.txt":
		drop("levels.txt", "level_id", false, one, nil)
		drop("stops.txt", "level_id", true, one, nil)
	}
}

// sigs joins the signatures of violations.
func sigs(vs []Viol) string {
	var l []string
	for _, v := range vs {
		l = append(l, v.Sig)
	}
	return strings.Join(l, ",")
}
