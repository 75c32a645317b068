#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M, P = "gtfstidy.go", "processors/"
P_ = lambda f: P + f

props = []
def p(id, title, statement, over, text, why, files, mech, note, level="exploration", technique=None):
    assert len(title) <= 80, title
    props.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      note=note, level=level, technique=technique or "deterministic simulation of the whole program (seeded scheduler, fault injection at the syscall seam), checked against a reference model"))

INP = ["inputs", "configurations", "schedules"]
SIM = " Every run also takes a seeded goroutine schedule and benign faults (short reads and writes, interrupted calls, slow calls, clock jumps)."

p("C01", "A feed passed through without processing options keeps its content",
  "Writing a valid feed with only output-format options (zip or directory, column order, sorting, compression level, explicit calendar, additional fields) yields a feed with the same entities, references and values in every file. This holds wherever the output goes: the default place, a sub directory, an archive, or the place of the input itself. With additional fields kept, every non-standard column and value survives; without, only standard columns remain. Nothing is added except calendar entries that an explicit calendar asks for; other files in the output directory stay.",
  INP, "all valid feeds, output formats and format options" + SIM,
  "The tests never run the program end to end; they check single processors on one fixture feed each.",
  [M], [("parse, option handling and write", M)],
  "Search, not proof. Two known findings in the parser and writer libraries are listed. Text values may lose line breaks (the CSV writer replaces them).")

p("C02", "Calendar options keep every trip's service days",
  "Merging duplicate services (-C), minimising services (-c), removing calendar_dates and making services non-overlapping may rename, split or merge services, but each input trip runs, in the output, on exactly the dates it ran on before, counting all trips it was split into, exactly once per date. After --remove-cal-dates there are no date exceptions, after --non-overlapping-services no two services share a date, after -C no two services have the same set of dates and exceptions. All other tables and all other trip properties stay as they were.",
  INP, "all valid feeds and all combinations of the four calendar options" + SIM,
  "The tests compare the date sets of a handful of hand-written services; date coverage over any calendar, collisions of generated IDs and effects on transfers, frequencies and attributions are never exercised.",
  [P_("serviceminimizer.go"), P_("serviceduplicateremover.go"), P_("servicecaldatesremover.go"), P_("servicenonoverlapper.go")],
  [("service minimizer", P_("serviceminimizer.go")), ("service duplicates", P_("serviceduplicateremover.go")), ("calendar_dates remover", P_("servicecaldatesremover.go")), ("non-overlapping services", P_("servicenonoverlapper.go"))],
  "Search over generated calendars of bounded size (weeks to months).")

p("C03", "ID minimisation is a consistent one-to-one renaming",
  "With -i or -d the output is the input with its IDs replaced one-to-one, every reference in every file following, and no other value changed. The new IDs are dense numbers (-i) or base-36 strings (-d) with the given prefix, apart from the kinds that a --keep-* option preserves, whose IDs are unchanged. All this holds for every schedule of the concurrent renaming.",
  INP, "all valid feeds, -i/-d, prefixes, every subset of keep options" + SIM,
  "No test runs the ID minimiser; it works with one goroutine per kind, so a missing wait or a shared write only shows under some schedules.",
  [P_("idminimizer.go"), M], [("ID minimizer", P_("idminimizer.go")), ("keep-ids handling", M)],
  "Search. Dense means: the first n IDs of the kind, where a kept kind is exempt.")

p("C04", "Merging duplicate agencies, routes and services loses no information",
  "With -A, -R and -C, agencies, routes and services that are replaced are equal in all their properties to the one that remains; every trip, fare rule, transfer and attribution refers to the equivalent of what it referred to. Entities which differ in any property are never merged, and after merging no two equal ones remain. Everything else in the feed is unchanged.",
  INP, "all valid feeds with near-duplicates in every property, all combinations of -A -R -C and additional fields" + SIM,
  "The tests merge one pair of routes and services on a fixture; that everything referring to a merged entity follows it is never checked, nor are near-duplicates which differ in one property.",
  [P_("agencyduplicateremover.go"), P_("routeduplicateremover.go"), P_("serviceduplicateremover.go")],
  [("agency duplicates", P_("agencyduplicateremover.go")), ("route duplicates", P_("routeduplicateremover.go")), ("service duplicates", P_("serviceduplicateremover.go"))],
  "Search. Routes are compared with their fare rules.")

p("C05", "Merging duplicate stops and levels only replaces equal, close places",
  "With -P every stop time, transfer, pathway and parent reference ends up at the same stop or at one with the same properties that lies within the merge distance (5 m for stops, 50 m for stations) of it, directly or through other merged stops. Stops, transfers and pathways that remain keep all their values, and stops which differ in a relevant property are never merged. Exact duplicates do not remain.",
  INP, "all valid feeds with clusters of equal and nearly equal stops and levels, with and without fuzzy matching" + SIM,
  "One test merges a few stops of a fixture; chains of merges across stations, boarding areas, levels, transfers and pathways are not reached.",
  [P_("stopduplicateremover.go")], [("stop duplicates", P_("stopduplicateremover.go"))],
  "Search.")

p("C06", "Orphan removal deletes exactly what nothing uses",
  "With -O every trip that can be boarded and left survives unchanged, together with every stop, station, shape, service, route, agency, transfer, pathway and fare that it uses or depends on. Nothing remains that is not used: stops without stop times, pathways, kept transfers or children, routes without trips or fare rules, and agencies, services and shapes that nothing references are deleted. What remains has exactly its input values.",
  INP, "all valid feeds with orphans of every kind and chains between them, -O" + SIM,
  "There is no test of the orphan remover.",
  [P_("orphanminimizer.go")], [("orphan remover", P_("orphanminimizer.go"))],
  "Search.")

p("C07", "Frequency compression keeps every departure of every trip",
  "With -T the multiset of vehicle journeys (route, service, stops, all arrival and departure times and other properties, each departure of a frequency counted) is the same as before, exact and approximate frequencies being distinguished. Every generated frequency has a headway within --min-headway and --max-headway. Trips that differ in anything but their start time are never combined.",
  INP, "all valid feeds with regular, nearly regular and overlapping departure patterns, headway limits" + SIM,
  "One test of a helper; the search for arithmetic progressions over sets of trips is not tested at all.",
  [P_("frequencyminizer.go")], [("frequency minimizer", P_("frequencyminizer.go"))],
  "Search.")

p("C08", "Shape options keep geometry within tolerance and measures monotone",
  "-m changes no shape point and no given measure and fills the missing ones proportionally to the distance (in metres if there are none), so measures never decrease; -s keeps a subset of the points, in order, with both ends, such that no dropped point is further than about a metre from the simplified line; -S only replaces a trip's shape by one that is the same line within about a metre. With -r the measures of each trip's stop times never decrease and lie on its shape. --drop-shapes removes all shapes, and nothing else changes in any of these cases.",
  INP, "all valid feeds with shapes of every form (loops, repeated points, holes in measures, near-duplicates), combinations of -m -s -S -r --drop-shapes" + SIM,
  "Two tests on one fixture shape each; the concurrent simplification and the duplicate index are not tested.",
  [P_("shapeminimizer.go"), P_("shaperemeasurer.go"), P_("shapeduplicateremover.go"), P_("shapeidx.go"), P_("stoptimeremeasurer.go"), M],
  [("Douglas-Peucker", P_("shapeminimizer.go")), ("remeasuring", P_("shaperemeasurer.go")), ("shape duplicates", P_("shapeduplicateremover.go")), ("shape index", P_("shapeidx.go")), ("stop time measures", P_("stoptimeremeasurer.go"))],
  "Search. The distances allow for the projection error of the implementation.")

p("C09", "Removing duplicate trips keeps each connection on each date",
  "With -I the set of (date, route, stop sequence, times and the other properties that matter to a passenger) that the trips of the feed offer is the same before and after: no connection is lost on any date, none appears on a date on which it did not run, and a trip is only dropped where an equal one runs. With fuzzy matching only the mode of the routes must agree. After it, no two fully equal trips run on the same date.",
  INP, "all valid feeds with duplicate and nearly duplicate trips on equal, overlapping, nested and disjoint services; -I with fuzzy and aggressive options" + SIM,
  "There is no test of the trip duplicate remover, which works with concurrent chunks and rewrites services.",
  [P_("tripduplicateremover.go")], [("trip duplicates", P_("tripduplicateremover.go"))],
  "Search.")

p("C10", "Any option combination turns a valid feed into a valid feed",
  "Whatever options are given, a run on a valid feed ends with exit status 0 and writes a feed in which every reference resolves, required values are present, IDs are unique and stop sequences, times and measures are in order, and which the tool itself accepts again. It never ends with an internal error, never deadlocks and never runs without bound.",
  INP, "all valid feeds and all mixtures of processing options" + SIM,
  "Each test runs one processor alone; the interplay of the more than twenty processors on one shared feed is not tested.",
  [M, P_("processor.go"), P_("util.go")], [("processor pipeline", M)],
  "Search. Termination is checked as a bound on simulated steps.")

p("C11", "The result does not depend on goroutine scheduling",
  "Two runs with the same input and options describe the same timetable: the set of connections per date, stops, shapes and fares is the same up to renaming of IDs, whatever the interleaving of the program's goroutines, the number of CPUs and the iteration order of its maps.",
  ["schedules", "inputs", "configurations"], "all schedules, CPU counts and map orders of one input and option set",
  "A test samples one schedule, and the Go scheduler of a test run practically always picks the same few.",
  [P_("util.go"), P_("idminimizer.go"), P_("tripduplicateremover.go"), P_("stopduplicateremover.go")], [("concurrent chunks", P_("tripduplicateremover.go")), ("concurrent ID maps", P_("idminimizer.go"))],
  "Search. Options whose merge heuristics may legitimately pick different representatives are compared on the coarser set of connections.")

p("C12", "No data race, deadlock or internal error under any schedule",
  "Under every interleaving of its goroutines the program has no two unsynchronised conflicting accesses to the same memory, never deadlocks, never crashes and always waits for the work it started before it uses or writes the result.",
  ["schedules", "inputs", "configurations"], "all schedules of feeds large enough that every worker pool gets work, all concurrent processors",
  "The tests are not run with the race detector, and most concurrent processors are not tested at all.",
  [P_("idminimizer.go"), P_("tripduplicateremover.go"), P_("shapeminimizer.go"), P_("shapeduplicateremover.go"), P_("stoptimeremeasurer.go"), P_("shaperemeasurer.go"), P_("stopduplicateremover.go"), P_("routeduplicateremover.go"), P_("agencyduplicateremover.go"), P_("serviceminimizer.go"), P_("servicecaldatesremover.go"), P_("frequencyminizer.go")],
  [("worker pools", P_("tripduplicateremover.go"))],
  "Search with the Go race detector's happens-before tracking inside the simulator: the schedules are chosen by the simulator, the detector is the invariant. Go's own data structures are assumed correct.")

p("C13", "A write failure is reported and never passed off as success",
  "If creating, writing, flushing or closing the output fails at any point (full disk, I/O error, missing permission), the program ends with a non-zero status and a message. If it ends with status 0 the output is complete: it has exactly the content of a run without faults. Interrupted and partial writes that the system completes later do not count as failures. An output path that cannot exist is such a failure too.",
  ["fault_sequences", "inputs", "configurations"], "any file-system call on the output side as the failing one, directory and zip output",
  "No test injects an I/O error.",
  [M], [("output handling and exit status", M)],
  "Search: the failing calls are drawn at random; in a part of the scenarios every call of one class is tried in turn. Two known findings in the writer library (unreported failures of writes to the files of a directory; a stale file after a failed status call) are listed.", level="fault_enumeration")

p("C14", "A read failure is reported and never passed off as a smaller feed",
  "If opening or reading the input fails at any point, the program ends with a non-zero status and a message, or with exactly the result of a run without faults; it never writes a feed that silently lacks the data it could not read.",
  ["fault_sequences", "inputs", "configurations"], "any file-system call on the input side as the failing one, directory and zip input",
  "No test injects an I/O error.",
  [M], [("input handling and exit status", M)],
  "Search: the failing calls are drawn at random; in a part of the scenarios every call of one class is tried in turn. Five known findings in the parser library (passing failures on optional files, and lenient parsing) are listed.", level="fault_enumeration")

p("C15", "A crash never harms the input, and a rerun completes",
  "Nothing but the output is touched: no run, whether it succeeds, fails or is killed at any point, adds, changes or removes a file outside the output path, the input files least of all. After a crash or failure at any point, running the program again with the same output path succeeds and gives the same feed as if the interrupted run had never happened. The same holds for an output directory that contains files of an earlier run.",
  ["crash_points", "fault_sequences", "inputs"], "any file-system call as the point of the crash, with later calls lost, directory and zip output, stale output of other feeds",
  "No test kills the program or starts it on left-over output.",
  [M], [("output handling", M)],
  "Search: the crash points are drawn at random; in a part of the scenarios every call of one class is tried in turn. The process dies, the kernel does not: what was written is there afterwards.", level="fault_enumeration")

p("C16", "Several input feeds are joined without mixing up their entities",
  "With more than one input the output contains the entities of each, under distinct IDs, and each reference still points into its own feed; no value changes and nothing is lost. With a --keep-* option IDs of that kind are the original ones as far as they do not clash between the feeds. Adding merging options afterwards gives a valid feed with the connections of all inputs.",
  INP, "pairs and triples of feeds with disjoint, overlapping and identical IDs, every subset of keep options, prefixes" + SIM,
  "No test reads more than one feed.",
  [M], [("prefixing and restoring IDs", M)],
  "Search.")

p("C17", "Broken input is rejected, or repaired only as asked",
  "A feed with an error is rejected with a message and a non-zero status, and no output is touched, unless an option asks to repair it; with -e, -D, or --fix the output is a valid feed which contains all entities that do not depend on an erroneous value, unchanged. -v writes nothing at all and its status tells whether the feed is valid. Malformed option values end with a non-zero status before any output is written.",
  ["inputs", "configurations", "schedules"], "valid feeds with one or more mutations of a value, reference, row or file; strict, -D, -e, --fix and -v runs; malformed options",
  "No test reads an erroneous feed through the program.",
  [M], [("parse options and exit status", M)],
  "Search over a fixed set of kinds of mutation.")

p("C18", "Filters keep exactly what they select",
  "Date filters leave each trip exactly its service days within the range; mode filters keep exactly the routes of the given modes with their trips; area filters keep exactly the stops inside one of the areas with what refers to nothing else, and with complete trips exactly the trips with a stop inside, with all their stops and stations; --drop-single-stop-trips removes exactly the trips with fewer than two stops. What remains is unchanged, and everything it needs is still there.",
  INP, "all valid feeds, date ranges, mode lists, boxes and polygons (arguments and files), single-stop trips" + SIM,
  "There is no test of any filter.",
  [M, P_("completegeotripsfilter.go")], [("filter options", M), ("complete trips", P_("completegeotripsfilter.go"))],
  "Search. Points within a small distance of an area's border are not generated.")

p("C19", "Structural edits change only what they are for",
  "--ensure-stop-parents gives each stop without a station its own new one, at its place; --drop-platform-for-parentless only clears platform codes of stops without a station (and merges stops which are then equal); --group-adj-stop-times joins exactly adjacent stop times of one stop that agree in all but the times and types, keeping the first arrival and the last departure; --drop-too-fast-trips removes exactly trips faster than the limit of their mode over a long enough distance; --fix-far-away-parents moves exactly stations 100 m or more from a stop to the middle of their stops, if that is near to all; --snap-stops moves exactly stop times more than 100 m from their place on the shape to a copy of the stop there; -E only changes to which station a stop belongs, keeps the stops of a station together, joins only stops connected by close places (75 m) with common words in their names, joins two lone stops of one name and place, and gives a new station a name of its stops, a place amidst them and only attributes that all of them have. Everything else stays as it is.",
  INP, "all valid feeds, each of the options" + SIM,
  "There is no test of any of these processors.",
  [P_("stopparentenforcer.go"), P_("platformcodedropper.go"), P_("adjstoptimegrouper.go"), P_("toofasttripremover.go"), P_("parentaverager.go"), P_("shapesnapper.go"), P_("stopreclusterer.go"), P_("stopclusteridx.go")],
  [("stop parents", P_("stopparentenforcer.go")), ("platform codes", P_("platformcodedropper.go")), ("adjacent stop times", P_("adjstoptimegrouper.go")), ("too fast trips", P_("toofasttripremover.go")), ("far parents", P_("parentaverager.go")), ("snapping", P_("shapesnapper.go")), ("reclustering", P_("stopreclusterer.go"))],
  "Search.")

p("C20", "Combining options keeps the timetable",
  "Any mixture of the options that are meant to lose nothing (the minimising, merging, ID, calendar, shape and structural options, alone or through the shorthands --compress, --merge, --Compress and --Merge, in one run over one or more feeds) leaves a valid feed which offers exactly the connections of the input on every date: the same route, trip attributes, stops (or stations, with -I) and times. With -O connections of trips nobody can use may be dropped.",
  INP, "all valid feeds, mixtures of all lossless options and the shorthands" + SIM,
  "The tests run single processors on fixed feeds; the defects between processors need a feed with several kinds of redundancy at once and a particular option set.",
  [M, P_("stopduplicateremover.go"), P_("tripduplicateremover.go"), P_("frequencyminizer.go"), P_("serviceminimizer.go"), P_("orphanremover.go")], [("order of the processors", M)],
  "Search. With fuzzy matching only times and modes are compared.")

p("C21", "Shorthands do what the options they stand for do",
  "A run with --fix, --compress, --Compress, --merge, --Merge or --keep-ids ends with the same status and writes the same feed as a run with the options the help text says it stands for, in any order and spelling (long and short names, several short ones in one word, given twice), combined with any other options.",
  INP, "feeds with redundancy of all kinds, with errors for --fix, several inputs for --keep-ids; each shorthand with any other options, each spelling" + SIM,
  "No test runs the option handling; a part of a shorthand which is missing only shows on feeds which need just this option.",
  [M], [("shorthands", M), ("order of the processors", M)],
  "Search. Where map order (which depends on the heap) decides which of several equal entities is kept, row counts, columns and new IDs are compared over up to 40 seeds instead of bytes.")

p("C22", "Value normalisation changes only the values it is for",
  "--standard-route-types and --google-supported-route-types map each route type to the standard type, or to the more general type supported by Google, of the same mode, and leave types that are already such; mode filters see the mapped types. --remove-fillers empties exactly the values ., .., ..., - and ? in the names and descriptions of routes and the codes and descriptions of stops. Every other value, and every other entity, stays as it is.",
  INP, "all valid feeds, all route types, fill values and values close to them, the three options alone, together, with mode filters and format options" + SIM,
  "There is no test of these options.",
  [M], [("parse options", M)],
  "Search. Extended types in whose mapping groups there is doubt are not generated.")

p("C23", "Minimising never makes a feed larger, and finds what is plainly there",
  "With any set of minimising and duplicate-removing options, no table has more rows afterwards than before, except frequencies.txt with -T and the calendar tables with -I; all services together never need more entries in calendar.txt and calendar_dates.txt. -c never makes a single service need more entries, and a service with exceptions ends up with no more entries than the best weekly pattern over whole weeks (Sunday to Saturday) plus its exceptions would need; so a plain weekly pattern, however written down, becomes one calendar row, as in the README. -T combines trips that are equal in everything but their start times, and start at one constant headway within the limits, into one trip with one frequency, as in the README. -s leaves two points of a straight shape.",
  INP, "all valid feeds, services in all kinds of representations, series of equal trips at constant headways (in a block, with headsigns and short names, in any order), straight shapes, random sets of minimising options" + SIM,
  "The tests check one feed each, with services and trips for which the defects (wrong week offsets, unsound pruning, comparison by address, which depends on the order of the input) do not show.",
  [P + "serviceminimizer.go", P + "frequencyminizer.go", P + "shapeminimizer.go", M], [("perfectMinimize", P + "serviceminimizer.go"), ("getCover", P + "frequencyminizer.go"), ("isTimeIndependentEqual", P + "frequencyminizer.go"), ("minimizeShape", P + "shapeminimizer.go")],
  "Search. The optimum of -c is computed by brute force over all ranges of whole weeks; ranges that are not whole weeks are not compared. Services without exceptions are left as they are by design.")

p("C24", "The result depends on what the input says, not on how it is written",
  "Two inputs which say the same give the same result with any options: the order of rows and columns, the IDs, whether a default is written out or left empty, missing and empty columns, the gaps in sequences, calendars or single dates, quotes, line ends, blanks, blank lines, a byte order mark, leading zeros, other files beside, a directory or an archive, and the week in which the feed begins make no difference, except for the IDs and the order of the output. Where options pick representatives of similar stops or trips, the connections are the same.",
  INP, "all valid feeds and every way to write one down that leaves its meaning, with any options" + SIM,
  "Each test has one file written in one way; the processors iterate over maps, sort by ID, hash rows and compare neighbours, so that a result that hangs on order or ID needs the same feed twice.",
  [M, P_("tripduplicateremover.go"), P_("stopduplicateremover.go"), P_("shapeduplicateremover.go"), P_("serviceminimizer.go"), P_("servicenonoverlapper.go")],
  [("feed parsing and processor order", M), ("comparison of neighbours and hashes", P_("tripduplicateremover.go"))],
  "Search. --assume-clean-csv is left out, as what it assumes is about how the input is written.")

p("C25", "Parts of a feed with nothing in common do not affect each other",
  "If two feeds have nothing in common (no shared agency, no stops near each other), processing them together, as two inputs or as one feed that holds both, gives what processing each alone gives: the same trips, journeys, stops, shapes, fares, transfers, pathways and attributions, or, where options pick representatives of similar stops or trips, the same connections. Only what is about the feed as a whole may differ: IDs, services that are shared (-C) or cut by the trips of each date (--non-overlapping-services), and -E, which weighs words by how often they occur.",
  INP, "all pairs of unrelated valid feeds with any options but -E" + SIM,
  "Tests look at one small feed; what a grid that spans the earth, a date range over years, a list that is sorted or cut into chunks, or an entity that is first in a map does to the other entities needs the same feed with and without company.",
  [M, P_("stopclusteridx.go"), P_("shapeidx.go"), P_("tripduplicateremover.go"), P_("stopduplicateremover.go"), P_("shapeduplicateremover.go"), P_("routeduplicateremover.go"), P_("serviceminimizer.go"), P_("frequencyminizer.go"), P_("orphanminimizer.go")],
  [("spatial indexes over the whole feed", P_("shapeidx.go")), ("hash chunks over the whole feed", P_("routeduplicateremover.go")), ("common reference day of all services", P_("tripduplicateremover.go"))],
  "Search.")
p("C26", "One pass is enough",
  "A second run with the same option over the result of the first changes nothing: what -O, -A, -R, -C, -P, -I, -S, -s, -m, -r, -c, -T, the structural edits, the normalisations and the filters do, they do completely in one run, and they are stable on what they write. (-T may combine the same departures in another way, and options that give new IDs may give other ones; -E is a heuristic and left out.)",
  INP, "all valid feeds, each option alone with those that modify it" + SIM,
  "Tests run a processor once and compare a few entities; whether anything was left to do needs a second run, and depends on chains of near duplicates, on the order of maps and on values that change when they are written and read again.",
  [M, P_("stopduplicateremover.go"), P_("tripduplicateremover.go"), P_("serviceminimizer.go"), P_("shapeminimizer.go"), P_("shapeduplicateremover.go"), P_("orphanminimizer.go"), P_("routeduplicateremover.go"), P_("agencyduplicateremover.go"), P_("serviceduplicateremover.go"), P_("adjstoptimegrouper.go"), P_("stopparentenforcer.go")],
  [("repeated merging until nothing changes", P_("tripduplicateremover.go")), ("three rounds of stop merging", P_("stopduplicateremover.go")), ("repeated orphan removal", P_("orphanminimizer.go"))],
  "Search. Shapes without a length are left out of the shape options (there is no unit for their measures).")

done = sys.argv[1:] or sorted(l.strip() for l in open(root + "/tools/done.txt") if l.strip())
with open(root + "/properties.jsonl", "w") as f:
    for q in props:
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"],
            "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
            "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]],
                        "observe_at": ["exit status, standard error and output feed of the program"], "hook_needed": None}}) + "\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
    "checks": [{"property": q["id"], "quick_cmd": "./check.sh " + q["id"], "thorough_cmd": "./check.sh " + q["id"] + " thorough",
                "technique": q["technique"], "level": q["level"], "level_note": q["note"]} for q in props if q["id"] in done],
    "not_applicable": [{"property": q["id"], "reason": "not decided yet: no check built"} for q in props if q["id"] not in done],
    "notes": "No hooks in /repo: the seams (Go scheduler, select, map order, clock, random numbers, syscalls) are put in below the program, in a build overlay of the Go runtime and syscall package (sim/build.go, sim/rt)."}
json.dump(man, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
