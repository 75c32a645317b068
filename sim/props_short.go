package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// shorthands and the options they stand for.
var shorthands = map[string][]string{
	"--fix":      {"-e", "-D", "-n", "-z", "--empty-str-repl=-"},
	"--compress": {"-O", "-s", "-S", "-R", "-C", "-c", "-I", "-A", "-P"},
	"--Compress": {"-O", "-s", "-S", "-R", "-C", "-c", "-I", "-A", "-P", "-d", "-T", "--red-stops-fuzzy", "--red-trips-fuzzy"},
	"--merge":    {"-A", "-R", "-P", "-I", "-C", "-c", "-O"},
	"--Merge":    {"-E", "-A", "-R", "-P", "-I", "-C", "-c", "-O", "--red-trips-fuzzy", "--red-stops-fuzzy"},
	"--keep-ids": {"--keep-station-ids", "--keep-fare-ids", "--keep-shape-ids", "--keep-route-ids", "--keep-trip-ids", "--keep-level-ids", "--keep-service-ids", "--keep-agency-ids", "--keep-block-ids", "--keep-pathway-ids"},
}

var longName = map[string]string{"-e": "--default-on-errs", "-D": "--drop-errs", "-n": "--check-null-coords", "-z": "--fix-zip", "-O": "--delete-orphans", "-s": "--min-shapes", "-S": "--remove-red-shapes",
	"-R": "--remove-red-routes", "-C": "--remove-red-services", "-c": "--minimize-services", "-I": "--remove-red-trips", "-A": "--remove-red-agencies", "-P": "--remove-red-stops", "-d": "--minimize-ids-char",
	"-i": "--minimize-ids-num", "-T": "--minimize-stoptimes", "-E": "--recluster-stops", "-m": "--remeasure-shapes", "-r": "--remeasure-stop-times", "-F": "--keep-additional-fields", "-W": "--show-warnings"}

// respell writes the same options differently: long and short names, short
// ones in one word, another order, some of them twice.
func respell(r *rng, flags []string) []string {
	var out []string
	cluster := ""
	for _, i := range r.perm(len(flags)) {
		f := flags[i]
		n := 1 + r.pickn(0, 0, 0, 0, 0, 1)
		for ; n > 0; n-- {
			switch l := longName[f]; {
			case l != "" && r.p(35):
				out = append(out, l)
			case l != "" && r.p(20):
				out = append(out, l+"=true")
			case l != "" && r.p(70):
				cluster += f[1:]
			default:
				out = append(out, f)
			}
		}
	}
	if cluster != "" {
		k := r.n(len(out) + 1)
		out = append(out[:k:k], append([]string{"-" + cluster}, out[k:]...)...)
	}
	return out
}

func init() {
	register(&Prop{ID: "C21", Quick: 9000,
		Rule: "A random feed (with errors in it for --fix, several inputs for --keep-ids) is run with a shorthand and with the options it stands for, in another order and spelling, under the same schedule. Both runs have to end the same way and write the same feed. Non-trivial: one of the options changed the feed.",
		Gen: func(r *rng, i int) *Scenario {
			o := defaultGen()
			o.Trips = [2]int{3, r.pickn(8, 20)}
			o.Dup = r.pickn(35, 60)
			o.DupTrips = r.pickn(25, 50)
			o.Freq = 20
			sc := baseScenario(r, o)
			sc.Faults = nil
			sc.Sched.Reseed = true
			sc.Feeds[0] = messyFeed(r, o)
			sc.Note = map[string]string{}
			short := ""
			switch r.n(8) {
			case 0, 1:
				short = "--fix"
				o.EmptyTimes = 0
				o.Orphans = 30
				o.OrphanLevels = true
				sc.Feeds[0] = genFeed(r, o)
				if r.p(25) {
					sc.InZip[0] = true
					sc.Note["zipdir"] = r.pick("gtfs/", "a/b/")
				}
				for n := r.rang(1, 4); n > 0; n-- {
					if m, ok := genMut(r, sc.Feeds[0]); ok && m.Class != "range" {
						sc.Corrupt = append(sc.Corrupt, m.String())
					}
				}
				sc.Flags = flagSet(r, r.pickn(0, 15), exactFlags...)
			case 2, 3:
				short = "--keep-ids"
				switch r.n(3) {
				case 0:
					sc.Flags = []string{r.pick("-i", "-d")}
				case 1:
					sc.Flags = []string{"--prefix=" + r.pick("a", "1", "p_")}
				default:
					sc.Feeds = append(sc.Feeds, messyFeed(r, o))
					sc.InZip = append(sc.InZip, r.p(30))
					sameZone(sc.Feeds)
				}
				sc.Flags = append(sc.Flags, flagSet(r, 10, "-i", "-d", "-O", "--keep-attribution-ids")...)
			default:
				short = r.pick("--compress", "--Compress", "--merge", "--Merge")
				sc.Flags = flagSet(r, 8, "-O", "-s", "-m", "-r", "-S", "-R", "-C", "-c", "-T", "-A", "-P", "-I", "-E", "-i", "--remove-cal-dates", "--ensure-stop-parents", "--red-stops-fuzzy", "--non-overlapping-services")
			}
			sc.Note["short"] = short
			sc.Note["spelling"] = strconv.Itoa(r.n(1 << 30))
			return sc
		},
		Check: func(x *Ctx, sc *Scenario) []Viol {
			c := sc.clone()
			if len(sc.Corrupt) > 0 {
				c.Feeds[0] = sc.broken().f
			}
			run := func(c *Scenario, flags []string) (*RunResult, Feed) {
				d := c.clone()
				d.Flags = flags
				names := x.prepare(d)
				res := x.do(x.w.r, x.args(d, names, d.Out), d.Sched, d.Faults)
				if res.Exit != 0 {
					return res, nil
				}
				f, _ := x.w.out(d.Out)
				return res, f
			}
			short := sc.Note["short"]
			spell, _ := strconv.Atoi(sc.Note["spelling"])
			long := respell(newRng(uint64(spell)), append(append([]string{}, shorthands[short]...), sc.Flags...))
			flags := append(append([]string{}, sc.Flags...), short)
			ra, a := run(c, flags)
			rb, b := run(c, long)
			if v := append(crashViol(ra), crashViol(rb)...); len(v) > 0 {
				return v
			}
			if ra.Exit != rb.Exit {
				return []Viol{viol("status:"+short, "exit status %d with %s, %d with %s: %s %s", ra.Exit, strings.Join(flags, " "), rb.Exit, strings.Join(long, " "), head(ra.Stderr, 300), head(rb.Stderr, 300))}
			}
			if ra.Exit != 0 {
				return nil
			}
			x.nontrivial()
			if wholeFeed(a) == wholeFeed(b) {
				x.mark("equal to the byte")
				return nil
			}
			// The order in which some maps are gone through depends on where
			// the command line left the heap: look at what both can lead to.
			keep := short == "--keep-ids" // nothing is merged
			dense := keep || sc.has("-i", "-d") || contains(shorthands[short], "-d")
			as, bs := map[string]bool{}, map[string]bool{}
			la, lb := "", ""
			for k := uint64(0); k < 40; k++ {
				la, lb = shortForm(a, dense, keep), shortForm(b, dense, keep)
				as[la], bs[lb] = true, true
				if as[lb] || bs[la] {
					x.mark("equal in one of several schedules")
					return nil
				}
				d := c.clone()
				d.Sched.Seed += k + 1
				d.Sched.HashSeed += k + 1
				ra, a = run(d, flags)
				rb, b = run(d, long)
				if a == nil || b == nil {
					return []Viol{viol("status:"+short, "exit status %d with %s, %d with %s: %s %s", ra.Exit, strings.Join(flags, " "), rb.Exit, strings.Join(long, " "), head(ra.Stderr, 300), head(rb.Stderr, 300))}
				}
			}
			return []Viol{viol("differs:"+short, "%s and %s: %s", strings.Join(flags, " "), strings.Join(long, " "), firstDiff(la, lb))}
		}})
}

// wholeFeed is the feed as one string.
func wholeFeed(f Feed) string {
	var b strings.Builder
	for _, n := range f.files() {
		b.WriteString(n + "\n" + strings.Join(f[n].Header, ",") + "\n")
		for _, r := range f[n].Rows {
			b.WriteString(strings.Join(r, ",") + "\n")
		}
	}
	return b.String()
}

// shortForm is what does not depend on which of several equal things was
// kept: how many rows and which columns there are, and the new ids.
func shortForm(f Feed, dense, refs bool) string {
	var b strings.Builder
	for _, n := range f.files() {
		h := append([]string{}, f[n].Header...)
		sort.Strings(h)
		fmt.Fprintln(&b, n, len(f[n].Rows), h)
		if refs {
			for _, c := range h {
				if strings.HasSuffix(c, "_id") {
					set := map[string]bool{}
					for _, r := range f.rows(n) {
						set[r[c]] = true
					}
					fmt.Fprintln(&b, c, sortedKeys(set))
				}
			}
		}
		if ks := keyCols[n]; dense && len(ks) == 1 {
			set := map[string]bool{}
			for _, r := range f.rows(n) {
				set[r[ks[0]]] = true
			}
			fmt.Fprintln(&b, sortedKeys(set))
		}
	}
	return b.String()
}

func firstDiff(a, b string) string {
	p, q := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range p {
		if i >= len(q) || p[i] != q[i] {
			o := ""
			if i < len(q) {
				o = q[i]
			}
			return head(p[i], 200) + " / " + head(o, 200)
		}
	}
	return ""
}
