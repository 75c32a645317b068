package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Rewrite is a way to write the same feed down differently.
type Rewrite struct {
	Seed  uint64   `json:"seed"`
	Kinds []string `json:"kinds"`
	Weeks int      `json:"weeks,omitempty"`
}

var rewriteKinds = []string{"rows", "columns", "ids", "swap", "defaults", "sequences", "numbers", "calendar", "weeks", "empty-columns", "other-files",
	"quotes", "crlf", "bom", "blanks", "blank-lines", "container", "no-final-newline"}

func (w *Rewrite) has(k string) bool { return w != nil && contains(w.Kinds, k) }

func (w *Rewrite) rng(k string) *rng {
	h := uint64(14695981039346656037)
	for _, c := range []byte(k) {
		h = (h ^ uint64(c)) * 1099511628211
	}
	return newRng(w.Seed, h)
}

var plainDefaults = []string{"stops.txt/location_type", "stops.txt/wheelchair_boarding", "stop_times.txt/pickup_type", "stop_times.txt/drop_off_type", "routes.txt/route_color", "routes.txt/route_text_color",
	"trips.txt/wheelchair_accessible", "trips.txt/bikes_allowed", "transfers.txt/transfer_type", "frequencies.txt/exact_times", "attributions.txt/is_producer", "attributions.txt/is_operator", "attributions.txt/is_authority"}

// apply rewrites the tables of a feed.
func (w *Rewrite) apply(f Feed) Feed {
	f = f.clone()
	if w.has("calendar") {
		recode(w.rng("calendar"), f)
	}
	files := f.files()
	if w.Weeks != 0 && w.has("weeks") {
		shiftFeed(f, 7*w.Weeks)
	}
	if w.has("swap") { // ids among themselves
		r := w.rng("swap")
		for _, k := range idKinds {
			l := allIDs(f, k)
			sort.Strings(l)
			p := r.perm(len(l))
			m := map[string]string{}
			for i, id := range l {
				m[id] = l[p[i]]
			}
			mapIDs(f, k, func(s string) string {
				if n, ok := m[s]; ok {
					return n
				}
				return s
			})
		}
	}
	if w.has("ids") {
		r := w.rng("ids")
		for _, k := range idKinds {
			l := allIDs(f, k)
			sort.Strings(l)
			m := map[string]string{}
			used := map[string]bool{}
			style := r.n(4)
			for i, id := range l {
				n := ""
				switch style {
				case 0:
					n = strconv.Itoa(len(l) - i)
				case 1:
					n = fmt.Sprintf("%s:%d", k.name, r.n(100000))
				case 2:
					n = id + "_" + strings.Repeat("9", r.n(3))
				case 3:
					n = strconv.FormatInt(int64(r.n(1<<30)), 36)
				}
				for used[n] {
					n += "-"
				}
				used[n] = true
				m[id] = n
			}
			mapIDs(f, k, func(s string) string {
				if n, ok := m[s]; ok {
					return n
				}
				return s
			})
		}
	}
	if w.has("defaults") {
		r := w.rng("defaults")
		for _, d := range plainDefaults {
			p := strings.SplitN(d, "/", 2)
			t := f[p[0]]
			if t == nil {
				continue
			}
			if t.col(p[1]) < 0 && r.p(30) {
				ensureCols(t, p[1])
			}
			c := t.col(p[1])
			if c < 0 {
				continue
			}
			for _, row := range t.Rows {
				if nv(p[0], p[1], row[c]) == fieldDefault[d] {
					row[c] = r.pick("", fieldDefault[d])
				}
			}
		}
	}
	if w.has("sequences") {
		r := w.rng("sequences")
		a, b := 1+r.n(4), r.n(9)
		for file, col := range map[string]string{"stop_times.txt": "stop_sequence", "shapes.txt": "shape_pt_sequence"} {
			if t := f[file]; t != nil && t.col(col) >= 0 {
				for _, row := range t.Rows {
					row[t.col(col)] = strconv.Itoa(a*atoi(row[t.col(col)]) + b)
				}
			}
		}
	}
	if w.has("numbers") {
		r := w.rng("numbers")
		for _, file := range files {
			t := f[file]
			for c, h := range t.Header {
				for _, row := range t.Rows {
					v := row[c]
					switch {
					case v == "":
					case floatField[file+"/"+h] && strings.Contains(v, ".") && r.p(50):
						row[c] = v + "0"
					case strings.HasSuffix(h, "_time") && strings.HasPrefix(v, "0") && strings.Count(v, ":") == 2 && r.p(50):
						row[c] = v[1:]
					case strings.HasSuffix(h, "_color") && r.p(50):
						row[c] = strings.ToLower(v)
					}
				}
			}
		}
	}
	if w.has("empty-columns") {
		r := w.rng("empty-columns")
		for _, file := range files {
			for _, c := range schema[file] {
				// (whether a trip has a direction is more than a default)
				if f[file].col(c) < 0 && r.p(20) && c != "agency_id" && c != "exception_type" {
					ensureCols(f[file], c)
				}
			}
		}
	}
	if w.has("rows") {
		r := w.rng("rows")
		for _, file := range files {
			t := f[file]
			rows := make([][]string, len(t.Rows))
			for i, k := range r.perm(len(t.Rows)) {
				rows[i] = t.Rows[k]
			}
			t.Rows = rows
		}
	}
	if w.has("columns") {
		r := w.rng("columns")
		for _, file := range files {
			t := f[file]
			p := r.perm(len(t.Header))
			order := func(l []string) []string {
				n := make([]string, len(l))
				for i, k := range p {
					n[i] = l[k]
				}
				return n
			}
			t.Header = order(t.Header)
			for i := range t.Rows {
				t.Rows[i] = order(t.Rows[i])
			}
		}
	}
	return f
}

func shiftFeed(f Feed, days int) {
	for file, cs := range map[string][]string{"calendar.txt": {"start_date", "end_date"}, "calendar_dates.txt": {"date"}, "feed_info.txt": {"feed_start_date", "feed_end_date"}} {
		t := f[file]
		if t == nil {
			continue
		}
		for _, c := range cs {
			if k := t.col(c); k >= 0 {
				for _, row := range t.Rows {
					if row[k] != "" {
						row[k] = shiftDay(row[k], days)
					}
				}
			}
		}
	}
}

// recode writes the dates of services down in another way.
func recode(r *rng, f Feed) {
	m := newMod(f)
	cal := &Table{Header: append([]string{"service_id"}, append(append([]string{}, weekdays...), "start_date", "end_date")...)}
	exc := &Table{Header: []string{"service_id", "date", "exception_type"}}
	a, b := f["calendar.txt"], f["calendar_dates.txt"]
	if a != nil {
		ensureCols(a, cal.Header...)
		cal = &Table{Header: a.Header}
	}
	if b != nil {
		ensureCols(b, exc.Header...)
		exc = &Table{Header: b.Header}
	}
	done := map[string]bool{}
	g := Feed{"calendar.txt": cal, "calendar_dates.txt": exc}
	for _, id := range sortedKeys(m.services) {
		days := sortedKeys(m.active[id])
		if len(days) == 0 || !r.p(70) {
			continue
		}
		done[id] = true
		if r.p(40) {
			for _, d := range days {
				g.add("calendar_dates.txt", Row{"service_id": id, "date": d, "exception_type": "1"})
			}
			continue
		}
		// a calendar over a part of the dates or more, with the days of most weeks
		from, to := days[r.n(len(days))], days[r.n(len(days))]
		if from > to {
			from, to = to, from
		}
		if r.p(50) {
			from, to = days[0], days[len(days)-1]
		}
		if r.p(20) {
			from = shiftDay(from, -r.n(9))
		}
		if r.p(20) {
			to = shiftDay(to, r.n(9))
		}
		c := Row{"service_id": id, "start_date": from, "end_date": to}
		count, all := map[string]int{}, map[string]int{}
		for d := from; d <= to; d = shiftDay(d, 1) {
			all[weekdayOf(d)]++
			if m.active[id][d] {
				count[weekdayOf(d)]++
			}
		}
		on := map[string]bool{}
		for _, w := range weekdays {
			c[w] = "0"
			if 2*count[w] > all[w] || r.p(10) {
				c[w] = "1"
				on[w] = true
			}
		}
		g.add("calendar.txt", c)
		for d := from; d <= to; d = shiftDay(d, 1) {
			if on[weekdayOf(d)] && !m.active[id][d] {
				g.add("calendar_dates.txt", Row{"service_id": id, "date": d, "exception_type": "2"})
			} else if !on[weekdayOf(d)] && m.active[id][d] {
				g.add("calendar_dates.txt", Row{"service_id": id, "date": d, "exception_type": "1"})
			}
		}
		for _, d := range days {
			if d < from || d > to {
				g.add("calendar_dates.txt", Row{"service_id": id, "date": d, "exception_type": "1"})
			}
		}
	}
	for _, t := range []string{"calendar.txt", "calendar_dates.txt"} {
		if f[t] == nil {
			continue
		}
		for i, row := range f.rows(t) {
			if !done[row["service_id"]] {
				g[t].Rows = append(g[t].Rows, f[t].Rows[i])
			}
		}
	}
	for t, n := range g {
		if len(n.Rows) > 0 || f[t] != nil {
			f[t] = n
		}
	}
	if len(f["calendar.txt"].rowsOrNil()) == 0 && len(f["calendar_dates.txt"].rowsOrNil()) > 0 {
		delete(f, "calendar.txt")
	}
}

func (t *Table) rowsOrNil() [][]string {
	if t == nil {
		return nil
	}
	return t.Rows
}

func weekdayOf(d string) string {
	t, err := time.Parse("20060102", d)
	if err != nil {
		return ""
	}
	return weekdays[(int(t.Weekday())+6)%7]
}

// text is a table as the bytes of a file.
func (w *Rewrite) text(r *rng, t *Table) []byte {
	var b bytes.Buffer
	nl := "\n"
	if w.has("crlf") && r.p(70) {
		nl = "\r\n"
	}
	if w.has("bom") && r.p(70) {
		b.WriteString("\xef\xbb\xbf")
	}
	quote := w.has("quotes")
	all := quote && r.p(30)
	line := func(l []string, header bool) {
		for i, v := range l {
			if i > 0 {
				b.WriteByte(',')
			}
			need := strings.ContainsAny(v, "\",\r\n") || strings.TrimSpace(v) != v
			if need || quote && !(header && i == 0) && (all || r.p(40)) {
				b.WriteString("\"" + strings.Replace(v, "\"", "\"\"", -1) + "\"")
			} else if w.has("blanks") && r.p(15) {
				b.WriteString(" " + v + " ")
			} else {
				b.WriteString(v)
			}
		}
		if len(l) == 1 && l[0] == "" {
			b.WriteString("\"\"")
		}
	}
	line(t.Header, true)
	for _, row := range t.Rows {
		b.WriteString(nl)
		if w.has("blank-lines") && r.p(10) {
			b.WriteString(nl)
		}
		line(row, false)
	}
	if !w.has("no-final-newline") {
		b.WriteString(nl)
	}
	if w.has("blank-lines") && r.p(30) {
		b.WriteString(nl + nl)
	}
	return b.Bytes()
}

// write puts a feed down in the way of w.
func (w *Rewrite) write(f Feed, path string, inZip bool) error {
	r := w.rng("text")
	content := map[string][]byte{}
	names := f.files()
	for _, n := range names {
		content[n] = w.text(r, f[n])
	}
	if w.has("other-files") {
		for _, n := range []string{"README", "notes.txt", "stops.csv", "agency.txt.bak", "vehicles.txt"} {
			if r.p(40) {
				names = append(names, n)
				content[n] = []byte("vehicle_id,note\nx,\"a, b\"\n")
			}
		}
	}
	for i, k := range r.perm(len(names)) {
		names[i], names[k] = names[k], names[i]
	}
	if inZip {
		var b bytes.Buffer
		z := zip.NewWriter(&b)
		for _, n := range names {
			h := &zip.FileHeader{Name: n, Method: zip.Deflate}
			if r.p(50) {
				h.Method = zip.Store
			}
			o, err := z.CreateHeader(h)
			if err != nil {
				return err
			}
			o.Write(content[n])
		}
		if err := z.Close(); err != nil {
			return err
		}
		return os.WriteFile(path+".zip", b.Bytes(), 0o644)
	}
	if err := os.MkdirAll(path, 0o755); err != nil {
		return err
	}
	for _, n := range names {
		if err := os.WriteFile(filepath.Join(path, n), content[n], 0o644); err != nil {
			return err
		}
	}
	return nil
}

func init() {
	register(&Prop{ID: "C24", Quick: 10500,
		Rule: "A random feed with redundancy of every kind is written down twice: in the second version rows and columns are in another order, IDs are others or swapped, defaults are written out or left out, numbers, sequences and calendars are written in another way, all dates lie some weeks later, and the files have other quotes, line ends, blanks and a byte order mark, in a directory or an archive. Both are run with the same options. The outputs must be equal in everything but their IDs (with the dates moved back), or, with options that pick representatives, offer the same connections. Non-trivial: there are connections in the output.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{2, r.pickn(8, 25)}
			o.Dup = r.pickn(20, 35, 60)
			o.DupTrips = r.pickn(25, 50)
			sc := baseScenario(r, o)
			sc.Faults = nil
			sc.Feeds[0] = messyFeed(r, o)
			if r.p(60) {
				sc.Flags = subset(r, r.pickn(8, 15, 30, 50), exactFlags...)
				if r.p(20) {
					sc.Flags = append(sc.Flags, filterFlags(r, 20)...)
				}
			} else {
				sc.Flags = mixFlags(r)
			}
			if r.p(20) {
				sc.Flags = append(sc.Flags, r.pick("-i", "-d"))
			}
			for _, f := range flagSet(r, 4, formatFlags...) {
				if f != "--assume-clean-csv" {
					sc.Flags = append(sc.Flags, f)
				}
			}
			sc.Sched2 = otherSched(r, sc.Sched)
			if r.p(50) {
				s := sc.Sched
				sc.Sched2 = &s
			}
			w := &Rewrite{Seed: r.next(), Weeks: r.pickn(1, 2, 5, 9, 52, 53)}
			pct := r.pickn(10, 25, 60)
			for _, k := range rewriteKinds {
				if r.p(pct) {
					w.Kinds = append(w.Kinds, k)
				}
			}
			if len(w.Kinds) == 0 {
				w.Kinds = []string{"rows"}
			}
			sc.Rewrite = w
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			if sc.Rewrite == nil || sc.Sched2 == nil || len(sc.Feeds) != 1 || sc.has("--assume-clean-csv") {
				return nil
			}
			w := *sc.Rewrite
			w.Kinds = nil
			for _, k := range sc.Rewrite.Kinds {
				if k == "weeks" && dated(sc) {
					continue
				}
				w.Kinds = append(w.Kinds, k)
			}
			one := *sc
			one.Sched2, one.Rewrite = nil, nil
			fa, v := x.simple(&one)
			if v != nil {
				if strings.HasPrefix(v[0].Sig, "mode-filter:") {
					return nil // see C10
				}
				return v
			}
			two := one
			two.Sched = *sc.Sched2
			two.Feeds = []Feed{w.apply(sc.Feeds[0])}
			if w.has("container") {
				two.InZip = []bool{!(len(sc.InZip) > 0 && sc.InZip[0])}
			}
			two.style = &w
			if v := checkValid(newMod(two.Feeds[0])); len(v) > 0 {
				x.mark("the rewritten feed is not valid: " + v[0].Sig)
				return nil
			}
			fb, v := x.simple(&two)
			if v != nil {
				if strings.HasPrefix(v[0].Sig, "mode-filter:") {
					return nil
				}
				return v
			}
			if w.has("weeks") {
				shiftFeed(fb, -7*w.Weeks)
			}
			for _, k := range w.Kinds {
				x.mark(k)
			}
			a, b := newMod(fa), newMod(fb)
			if len(a.trips) > 0 {
				x.nontrivial()
			}
			cmp := *sc
			if w.has("calendar") && sc.does("--remove-cal-dates") {
				// (into how many services the dates are put depends on the calendar)
				cmp.Flags = append(append([]string{}, sc.Flags...), "-I")
			}
			return sameButOrder(x, &cmp, a, b)
		}})
}

// dated: the result depends on the very dates.
func dated(sc *Scenario) bool {
	for _, f := range sc.Flags {
		if strings.HasPrefix(f, "--date-") {
			return true
		}
	}
	return sc.does("--non-overlapping-services")
}
