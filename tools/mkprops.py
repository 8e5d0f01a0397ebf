#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["the files of the output feed", "exit status and stderr of the gtfstidy process"]
    if hook: a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})
G = "gtfstidy.go"
def pr(x): return "processors/" + x

p("C01", "Timetable is preserved by every lossless option combination",
  "For any valid feed and any combination of the lossless options (-O -A -P -R -C -c -I -S -s -m -T -i/-d, --remove-cal-dates, --non-overlapping-services, --ensure-stop-parents), on every calendar date the output feed offers exactly the vehicle journeys the input feed offers: same route, agency and trip attributes, same stops in the same order, same times, same pickup/drop-off rules and fares. Frequency-based trips with exact times count as the departures they stand for, journeys that are indistinguishable count once when trip deduplication is on, and no journey is lost, invented, moved to another date or shifted in time.",
  ["inputs", "configurations"],
  "all valid feeds (services by weekday pattern and exceptions, over-midnight trips, frequencies, transfers, nested stations, fares) times all subsets of the lossless options",
  "TestGtfsTidy runs a handful of flag lists over one toy feed and only checks that it does not error; processor tests look at hand-picked entity counts. Equivalence must hold for every feed and every option subset, including interactions between processors.",
  [G] + [pr(x) for x in ["frequencyminizer.go","tripduplicateremover.go","serviceminimizer.go","serviceduplicateremover.go","servicecaldatesremover.go","servicenonoverlapper.go","routeduplicateremover.go","stopduplicateremover.go","agencyduplicateremover.go","idminimizer.go","orphanminimizer.go"]],
  [("processor pipeline and order", "gtfstidy.go main"), ("each processor's reference rewriting", "processors/*.go combine*/remap code")])

p("C02", "Every output feed is self-consistent and passes validation again",
  "Whatever processing options are used on a valid feed, a run that succeeds writes a feed in which every reference (stops and parents, routes, trips, services, shapes, levels, agencies, fares, transfers, pathways, frequencies, attributions) points to an entity that is present, every identifier is unique and every row satisfies the constraints the validator enforces. Running the tool's own validation mode on that output reports no errors.",
  ["inputs", "configurations"],
  "all valid feeds times all option combinations, including multi-feed runs, prefixes and ID keeping",
  "The tests never re-read what was written; dangling references only appear for particular combinations of merged or deleted entities and side tables (transfers, pathways, fares, attributions).",
  [G] + [pr(x) for x in ["stopduplicateremover.go","stopreclusterer.go","orphanminimizer.go","tripduplicateremover.go","frequencyminizer.go","servicenonoverlapper.go","servicecaldatesremover.go","completegeotripsfilter.go","shapesnapper.go","idminimizer.go"]],
  [("reference rewriting and clean-up after deletion", "processors/*.go"), ("ID restoration", "gtfstidy.go main, 'restore ... IDs'")])

p("C03", "Valid feeds never crash the tool, and failure is always signalled",
  "Any valid feed processed with any combination of valid options terminates with exit status 0 and a written output feed. Whenever no complete output feed is written (unreadable or invalid input, unusable option values, internal failure), the process ends with a non-zero exit status and an error message.",
  ["inputs", "configurations"],
  "all valid, degenerate (empty tables, single points, no active dates, identical coordinates) and corrupted feeds times all option combinations and malformed option values",
  "Tests run one well-formed feed and one erroneous feed; degenerate entities (zero stops, one-point shapes, services without dates) and option values are not sampled.",
  [G, pr("processor.go"), pr("stopreclusterer.go"), pr("tripduplicateremover.go"), pr("idminimizer.go"), pr("shapeidx.go")],
  [("top-level error and panic handling", "gtfstidy.go main (parse error branch, deferred recover)"), ("guards for empty and degenerate entities", "processors/*.go")])

p("C04", "Without processors the feed passes through unchanged",
  "With no processing option, the output feed contains exactly the entities and field values of the input feed, up to writing default values as empty, number formatting and dropping empty files; nothing is added, lost or altered. The output packaging options (directory or ZIP, compression level, file sorting, column order, explicit calendar entries) and the packaging of the input change only the representation, never the content: --keep-col-order keeps the order of the columns, --explicit-calendar gives every service a calendar row, compression makes the ZIP file of all but tiny feeds smaller than compression level 0, and unless --unsorted-files is given the files of calls, shapes and calendars come out the same each time.",
  ["inputs", "configurations"],
  "all valid feeds (all tables, quoted and non-ASCII text, arbitrary column order and optional columns) times input and output packaging options",
  "TestGtfsTidy only checks that output can be produced; no test compares output content with input content.",
  [G], [("option wiring to parser and writer", "gtfstidy.go main, ParseOptions and gtfswriter.Writer construction"), ("output path creation", "gtfstidy.go main")])

p("C05", "Orphan deletion removes exactly the unreferenced entities",
  "With -O, the output contains precisely the trips that can transport somebody (some call at which boarding and some call at which alighting is possible, also by continuous pickup or drop-off), the routes that remaining trips or fare rules use, the agencies that remaining routes or fares use, the services and shapes that remaining trips use, and the stops that are used by stop times, pathways, as entrances or as (indirect) parents of remaining stops; transfers, frequencies, fare rules and attributions remain if and only if the entities they refer to remain in use. No referenced entity is removed and no entity that nothing references remains; a second run changes nothing.",
  ["inputs"], "all valid feeds with arbitrary reference graphs among trips, stops, parents, routes, shapes, services, agencies, transfers, pathways",
  "No test covers orphan deletion; exactness depends on the whole reference graph, including chains of parents and references from transfers and pathways.",
  [pr("orphanminimizer.go"), G], [("reference marking and deletion per entity kind", "processors/orphanminimizer.go Run and remove*Orphans")])

p("C06", "Service minimization keeps the exact set of operating dates",
  "With -c, every service in the output is active on exactly the calendar dates on which it was active in the input, for every mix of weekly pattern, date range and added or removed exceptions. The representation never grows: a service does not need more calendar rows plus exceptions than before. A service that is active at all and that used exceptions ends with at most as many rows as one weekly pattern over a range of whole weeks needs that has the fewest exceptions to it; minimizing never leaves such an encoding unused.",
  ["inputs"], "all services: any weekday pattern, any range (one day to years, across year ends and leap days), any exceptions inside or outside the range",
  "TestServiceMinimizer checks two services; the optimisation searches ranges and weekday masks and any off-by-one depends on alignment of the dates.",
  [pr("serviceminimizer.go"), pr("util.go")],
  [("coverage search and rewrite", "processors/serviceminimizer.go perfectMinimize/minimizeService/updateService")])

p("C07", "Service deduplication merges exactly the services with equal dates",
  "With -C, two services are merged if and only if they operate on the same set of dates, irrespective of how that set is written down. Every trip keeps operating on exactly its dates, and no two services in the output operate on the same non-empty set of dates.",
  ["inputs"], "all sets of services with overlapping, equal, disjoint and differently encoded date sets",
  "TestServiceDuplicateRemoval has one feed; hash and bucket logic errors show only for particular date sets.",
  [pr("serviceduplicateremover.go")], [("equality and bucketing of services", "processors/serviceduplicateremover.go"), ("trip reference update", "processors/serviceduplicateremover.go combineServices")])

p("C08", "Calendar exceptions can be removed without changing operation",
  "With --remove-cal-dates the output has no calendar exceptions at all, and still every journey operates on exactly the dates it operated on before, with all its attributes, stop times, frequencies, transfers and attributions kept for each date. Every generated trip and service has a unique identifier.",
  ["inputs"], "all feeds with services mixing calendar ranges and positive/negative exceptions, several trips per service, trips with frequencies or side-table rows",
  "No test covers this option; splitting a service into ranges depends on the positions of exceptions relative to the weekly pattern.",
  [pr("servicecaldatesremover.go"), G], [("splitting into exception-free services and copying trips", "processors/servicecaldatesremover.go")])

p("C09", "Non-overlapping services repartition dates without changing journeys",
  "With --non-overlapping-services, any two services in the output have disjoint sets of operating dates or are the same service, and every journey of the input operates on exactly its dates, keeping its attributes. Nothing is lost when date ranges span several years.",
  ["inputs"], "all feeds with services of overlapping date sets, spanning weeks, months and years",
  "No test covers this option; collisions appear only for particular calendar constellations (same weekday and week in different years).",
  [pr("servicenonoverlapper.go"), G], [("grouping of trips per day type and creation of services", "processors/servicenonoverlapper.go")])

p("C10", "Frequency compression keeps every departure",
  "With -T, expanding the exact-time frequencies of the output yields exactly the departures (trip attributes, stop sequence, times, dates) of the input, explicit trips and exact-time frequencies alike, each exactly once; non-exact frequency entries keep their service window and headway. Every frequency that is created has a headway within --min-headway and --max-headway and covers no departure twice. The number of trips never grows, and trips that differ only in their departure, nothing else referring to one of them, and follow each other at regular steps within the headway bounds do not all stay separate trips.",
  ["inputs", "configurations"],
  "all families of trips with equal or different relative stop times, arbitrary departure sets (arithmetic progressions, overlaps, duplicates, over midnight), existing frequencies, headway bounds",
  "TestFrequencyMinimizer checks a few hand-made progressions; the cover search depends on the whole set of start times.",
  [pr("frequencyminizer.go"), G], [("cover by arithmetic progressions", "processors/frequencyminizer.go getProgressionCover / CombineFreqs"), ("trip matching by attributes and relative times", "processors/frequencyminizer.go isAttrEq/hasSameRelStopTimes")])

p("C11", "ID minimization is a consistent dense renaming",
  "With -i or -d, the output equals the input up to a one-to-one renaming of identifiers applied consistently at every place that refers to them, and the new identifiers of each kind of entity are the numbers 1..n in base 10 or base 36. No two entities end up sharing an identifier and no other field changes.",
  ["inputs", "configurations", "schedules"],
  "all feeds, including ones whose identifiers already look like small numbers, times base and keep options, and all interleavings of the concurrent renaming",
  "No test looks at renamed output; collisions between old and new identifiers and races between the concurrent renamers depend on the feed and on scheduling.",
  [pr("idminimizer.go"), G], [("per-entity renaming goroutines", "processors/idminimizer.go Run and minimize*Ids")])

p("C12", "Identifiers the user asks to keep are kept",
  "With a --keep-...-ids option, the identifiers of that kind of entity in the output are the ones from the input feed, even if ID minimization is on or a prefix is added while reading; if several input feeds use the same identifier, exactly one entity keeps it and all stay distinct. All references follow, and options for one kind of entity never affect another kind.",
  ["inputs", "configurations"],
  "all feeds and feed sets with colliding and non-colliding identifiers times all subsets of the keep options, with and without -i/-d and --prefix",
  "No test uses the keep options; restoring depends on which identifiers collide between feeds.",
  [G, pr("idminimizer.go")], [("restoration of prefixed IDs", "gtfstidy.go main 'restore ... IDs'"), ("keep switches of the renaming", "processors/idminimizer.go Run")])

p("C13", "Route deduplication merges exactly interchangeable routes",
  "With -R, two routes are merged if and only if they agree in agency, names, description, type, URL, colours and continuous pickup/drop-off rules and have the same fare rules (the sort order is not compared); after the run no two such routes remain. All trips, transfers, fare rules and attributions of a merged route apply to the surviving one, and routes that differ are untouched.",
  ["inputs"], "all route tables with near-duplicates differing in exactly one attribute or fare rule",
  "TestRouteDuplicateRemoval covers one example; soundness and completeness quantify over each compared attribute and over fare rule sets.",
  [pr("routeduplicateremover.go")], [("route equality and fare rule comparison", "processors/routeduplicateremover.go"), ("reference and fare rule update", "processors/routeduplicateremover.go combineRoutes")])

p("C14", "Agency deduplication merges exactly identical agencies",
  "With -A, two agencies are merged if and only if all their descriptive fields agree; routes, fares and attributions of a merged agency belong to the surviving one afterwards, and no two identical agencies remain. Routes and fares of distinct agencies keep their agency.",
  ["inputs"], "all agency tables with near-duplicates and references from routes, fares and attributions",
  "No test covers this option.",
  [pr("agencyduplicateremover.go")], [("agency equality and reference update", "processors/agencyduplicateremover.go")])

p("C15", "Stop deduplication merges only interchangeable stops, and all of them",
  "With -P, stops are merged only if all their descriptive attributes, parent station and level agree and they lie within 5 m of each other (50 m for stations); afterwards no pair of such identical stops at the same position remains. Stop times, child stops, transfers and pathways of a merged stop refer to the surviving one, no trip loses or gains a call, and identical levels are merged likewise. With --red-stops-fuzzy more stops may be merged, but none of those pairs remains either.",
  ["inputs", "schedules"], "all stop tables with near-duplicates in each attribute and distance, references from every table, any number of worker threads",
  "TestStopDuplicateRemoval covers one example; grid cells, distances and worker chunking depend on coordinates and counts.",
  [pr("stopduplicateremover.go"), pr("stopclusteridx.go")], [("stop equality and chunked parallel search", "processors/stopduplicateremover.go"), ("spatial grid", "processors/stopclusteridx.go")])

p("C16", "Trip deduplication keeps each journey exactly once per date",
  "With -I, journeys that have the same route (same type of route in fuzzy mode), same attributes and same calls at the same times are offered exactly once on each date on which the input offered them at least once; all other journeys stay as they were. Frequency-based trips are left alone, and no journey changes its dates. Remaining trips are trips of the input; one without a shape may take over the shape of a trip merged into it together with the measures of its calls, attributions of merged trips move to the trip left, and transfers between remaining trips stay.",
  ["inputs", "configurations", "schedules"],
  "all sets of (near-)identical trips over identical, overlapping, nested and disjoint date sets, stations with several platforms, with -O/-c/-C, fuzzy and aggressive variants",
  "No test covers this option; correctness depends on how date sets of equal trips relate to each other.",
  [pr("tripduplicateremover.go"), G], [("trip equality", "processors/tripduplicateremover.go tripAttrEq/tripStEq"), ("date set merging and exclusion", "processors/tripduplicateremover.go combine*/excludeTrips")])

p("C17", "Shape deduplication stays within tolerance and is complete",
  "With -S, shapes are only merged along chains of shapes each of which is within 1 m (web mercator, plus floating point tolerance) of the next along its whole length in both directions, with alike measures, and shapes with identical points and measures are always merged. A trip that had a shape has one afterwards, either its own or one its own was merged with; a trip whose own shape remains keeps it. No trip with measured calls gets a shape measured shorter than these calls need. Remaining shapes and everything else are unchanged (apart from what -m does, which runs first).",
  ["inputs", "schedules"], "all sets of shapes: identical, perturbed within and beyond the tolerance, sub-shapes, loops, any worker count",
  "TestShapeDuplicateRemover covers one pair; tolerance and grid lookups depend on the geometry.",
  [pr("shapeduplicateremover.go"), pr("shapeidx.go"), pr("util.go")], [("distance test along measures", "processors/shapeduplicateremover.go"), ("spatial shape index", "processors/shapeidx.go")])

p("C18", "Shape minimization keeps the line within one metre",
  "With -s, the points of each shape in the output are a subsequence of its input points that keeps the first and last point and their measures, and every dropped point lies within 1.0 web mercator metres (plus floating point tolerance) of the line between its neighbours in the output. A shape that deviates less than 1 m from the line between its ends keeps only these. Nothing else changes (apart from what -m does, which runs first).",
  ["inputs", "schedules"], "all polylines: collinear, zig-zag, closed, repeated points, one- and two-point shapes, measured and unmeasured, any worker count",
  "TestShapeMinimizer compares counts on the toy feed; the tolerance must hold for every geometry.",
  [pr("shapeminimizer.go"), pr("util.go")], [("Douglas-Peucker", "processors/shapeminimizer.go minimizeShape"), ("perpendicular distance", "processors/util.go")])

p("C19", "Shape remeasurement fills gaps and keeps given measures",
  "With -m, every point of a shape whose given measures determine a scale has a measure afterwards, while all measures of shapes whose given measures determine none are dropped; shapes without any measure are measured in metres. Measures never decrease along a shape and points that had a measure keep it; gaps between measured points are interpolated proportionally to the distance, leading and trailing points extrapolated by the mean scale of the given measures, but not below 0. Calls measured beyond the end of their shape get the measure of its end. Geometry and everything else are unchanged.",
  ["inputs", "schedules"], "all shapes with arbitrary patterns of missing measures (leading, trailing, inner gaps, none measured), equal points, any worker count",
  "No test checks measures; each gap pattern takes a different path.",
  [pr("shaperemeasurer.go")], [("gap detection and interpolation", "processors/shaperemeasurer.go")])

p("C20", "Stop-time remeasurement places calls along the shape in order",
  "With -r, all calls of a trip with a shape of which at least one has no measure are placed on the shape such that measures never decrease and lie within the shape's range, no call is placed more than 250 m away from its stop, and the sum of the distances of the calls to their places is minimal (each call considered at its nearest position on every segment). If there is no such arrangement the trip is unchanged, as are trips without a shape and fully measured ones (but for measures beyond the end of the shape). Points of shapes have measures afterwards and keep given ones; nothing else changes.",
  ["inputs"], "all trips with shapes, stops on and off the line, loops, repeated stops, any prior measures",
  "No test covers this option; the projection depends on geometry and order of calls.",
  [pr("stoptimeremeasurer.go"), pr("shaperemeasurer.go"), pr("util.go")], [("snapping of calls to shape", "processors/stoptimeremeasurer.go")])

p("C21", "Stops far from the trip's shape are snapped, others are untouched",
  "With --snap-stops, the position of a call of a trip with a shape is the one its measure assigns on the shape, or the nearest one of the shape if it has none. Calls at a stop within 100 m of that position keep it; other calls are moved to a new stop at that position with all other attributes of the original one. Original stops, and times, order, number and measures of calls do not change, and no unused stop is added.",
  ["inputs"], "all trips with measured shapes and stops near, far and beyond the limit, shared by trips with different shapes",
  "No test covers this option.",
  [pr("shapesnapper.go")], [("distance test and snapped stop creation", "processors/shapesnapper.go")])

p("C22", "Error handling options yield an error-free subset of the input",
  "With --fix (or -D, -e and its companions), the output is a valid feed whose entities are all taken from the input, and every entity of the input that is free of errors and does not depend on an erroneous one is kept unchanged. Erroneous optional fields fall back to their documented defaults with -e instead of costing the entity, and without these options the same feed is rejected with a non-zero exit status.",
  ["inputs", "configurations"], "all feeds obtained from valid ones by corrupting field values, references, duplicates and orderings",
  "TestGtfsTidy accepts one erroneous feed; what is kept or dropped is never compared.",
  [G], [("wiring of error handling options", "gtfstidy.go main, ParseOptions"), ("shorthand", "gtfstidy.go main, fix")])

p("C23", "Validation mode gives the right verdict and writes nothing",
  "With -v, the tool exits with status 0 and reports no errors exactly when every given feed can be processed without error-handling options; otherwise it exits non-zero. It never creates or modifies any file, whatever other options are given.",
  ["inputs", "configurations"], "all valid and corrupted feeds, several feeds at once, times other options",
  "The test checks exit behaviour on two feeds only.",
  [G], [("validation branch", "gtfstidy.go main, onlyValidate")])

p("C24", "Shorthand options equal the documented expansion; order is irrelevant",
  "Each of --fix, --compress, --Compress, --merge and --Merge behaves exactly like the list of options documented for it in the help text (--fix: -e -D -n -z -p '-'; --compress: -O -s -S -R -C -c -I -A -P; --Compress: --compress -d -T --red-stops-fuzzy --red-trips-fuzzy; --merge: -A -R -P -I -C -c -O; --Merge: --merge -E --red-trips-fuzzy --red-stops-fuzzy), and the order of options on the command line does not influence the result.",
  ["configurations", "inputs"], "all feeds times shorthand options, alone and combined with others, in any order",
  "Tests use none of the shorthands.",
  [G], [("expansion of shorthands", "gtfstidy.go main"), ("fixed processor order", "gtfstidy.go main, minzers")])

p("C25", "Merging several feeds yields their disjoint union",
  "Given several input feeds, the output contains every entity of every input feed exactly once with all its attributes and references within its own feed, even if the feeds use equal identifiers; nothing is mixed between feeds. With --merge, duplicates across the feeds are merged so that each journey is still offered on exactly its dates.",
  ["inputs", "configurations"], "all lists of feeds with equal, overlapping and disjoint identifiers and contents, with and without merge options",
  "TestGtfsTidy merges one pair of feeds and does not look at the result.",
  [G, pr("tripduplicateremover.go"), pr("stopreclusterer.go")], [("prefixing while parsing", "gtfstidy.go main, PrefixParse"), ("merge pipeline", "gtfstidy.go main, mergeShortHand")])

p("C26", "Geographic filters keep exactly what lies inside",
  "With --bounding-box, --polygon or --polygon-file, the output contains exactly the calls at stops inside at least one of the given areas (borders aside), no stop with a position outside and no shape point outside; trips keep the calls inside in order. With --complete-filtered-trips, every trip that has a call inside is kept completely and all other trips are removed; stops remain if and only if they are inside, used by a remaining trip or an ancestor of such a stop.",
  ["inputs", "configurations"], "all feeds and all boxes and polygons (any orientation, open or closed rings, several areas, holes in GeoJSON), given as option or file",
  "Tests use no geographic filter.",
  [G, pr("completegeotripsfilter.go")], [("option parsing to polygons", "gtfstidy.go main, parseCoords/getGtfsPoly"), ("completion of trips", "processors/completegeotripsfilter.go")])

p("C27", "Date and mode filters keep exactly the requested service",
  "With --date-start/--date-end, the output offers on every date within the range (bounds included) exactly the journeys of the input and none outside it. With -M only journeys on routes of the listed modes remain and with -N exactly those of the listed modes are dropped, everything else being kept unchanged.",
  ["inputs", "configurations"], "all feeds times all date ranges (one-sided, empty intersection, single day) and mode lists, combined with lossless options",
  "Tests use neither filter.",
  [G], [("parsing and wiring of filters", "gtfstidy.go main, parseDate, motFilter")])

p("C28", "Additional fields survive with the entities they belong to",
  "With -F, every non-standard column of every input table appears in the output and each remaining entity carries its own value, also when identifiers are changed by ID minimization, prefixes or keep options and when other entities are removed or merged. Without -F no non-standard column is written.",
  ["inputs", "configurations"], "all feeds with extra columns in every table times processing options",
  "Tests use -F nowhere.",
  [G, pr("idminimizer.go"), pr("shapesnapper.go"), pr("servicecaldatesremover.go"), pr("servicenonoverlapper.go"), pr("frequencyminizer.go")],
  [("per-entity additional field maps", "processors/idminimizer.go, gtfstidy.go ID restoration, processors copying trips and stops")])

p("C29", "Grouping adjacent stop times keeps the journey",
  "With --group-adj-stop-times, runs of consecutive calls of a trip at the same stop, none of which waits and which agree in measure, continuous pickup and drop-off rules, exactness and presence of times, are combined into one call that arrives when the first arrived, leaves when the last left, has the drop-off rule of the first and the pickup rule of the last call. All other calls, and trips without such runs, are unchanged.",
  ["inputs"], "all trips with runs of equal or equivalent consecutive stops with various times and pickup/drop-off rules",
  "No test covers this option.",
  [pr("adjstoptimegrouper.go")], [("adjacent call comparison and merge", "processors/adjstoptimegrouper.go")])

p("C30", "Reclustering stops only regroups them",
  "With -E, every stop used by trips remains with its attributes and position and all trips keep their calls and times; only station membership changes: stations are merged or created, and every transfer and pathway remains, following merged stations. Places (a station or parentless stop with everything below it) are joined only if they are similar on average, similarity being closeness (0.5 at 75 m) times likeness of names; stops that no chain of stops at most 75 m apart connects are never grouped, and no two similar places are left apart. A station that is created or merged lies at the mean position of its stops and takes name, URL, time zone and accessibility from among its members.",
  ["inputs"], "all stop tables with and without stations, equal and different names, entrances, any distance",
  "No test covers this option.",
  [pr("stopreclusterer.go"), pr("stopclusteridx.go"), pr("priorityqueue.go")], [("agglomerative clustering and write-back", "processors/stopreclusterer.go")])

p("C31", "Parent station options do what they say and nothing else",
  "With --ensure-stop-parents every boarding stop has a parent station afterwards (a new one with the stop's name and position if it had none); with --fix-far-away-parents a parent stop further than 100 m from one of its children is moved to the mean position of its children if that is within 100 m of all of them, and no other stop moves; with --drop-platform-for-parentless exactly the stops without parent lose their platform code. Stop times and all other attributes are unchanged and no other stop is added or removed.",
  ["inputs", "configurations"], "all stop hierarchies, positions and platform codes",
  "No test covers these options.",
  [pr("stopparentenforcer.go"), pr("parentaverager.go"), pr("platformcodedropper.go")], [("parent creation", "processors/stopparentenforcer.go"), ("parent averaging", "processors/parentaverager.go"), ("platform code dropping", "processors/platformcodedropper.go")])

p("C32", "Too-fast-trip removal drops exactly the impossible trips",
  "With --drop-too-fast-trips, exactly those trips are removed that would have to travel faster than the limit of their mode of transport (tram, cable tram, funicular etc. each have their own) between two timed calls at least 10 km apart along the trip, or 7 km if no other timed call at another time lies in between (equal times stand for one minute); calls without times do not matter. All other trips are unchanged.",
  ["inputs"], "all trips with arbitrary distances, equal times, missing times and modes",
  "No test covers this option.",
  [pr("toofasttripremover.go")], [("speed test per mode", "processors/toofasttripremover.go")])

p("C33", "Results do not depend on scheduling and there are no data races",
  "For a given feed and options, the number of processors used, goroutine scheduling and interleavings do not influence what is output: every result obtained with several workers (exit status, files, and the rows, columns and values of every table) is one that a single worker can produce as well, the timetable after lossless processing is always that of the input, and no processor accesses shared data without synchronisation (no data race).",
  ["schedules", "inputs", "configurations"], "all feeds and options times worker counts and interleavings",
  "Tests run once on one machine; a race or a lost chunk shows for particular entity counts and worker counts only.",
  [pr(x) for x in ["shapeminimizer.go","shaperemeasurer.go","stoptimeremeasurer.go","stopduplicateremover.go","tripduplicateremover.go","shapeduplicateremover.go","routeduplicateremover.go","serviceduplicateremover.go","agencyduplicateremover.go","serviceminimizer.go","frequencyminizer.go","idminimizer.go","processor.go"]],
  [("chunking and joining of worker goroutines", "processors/*.go chunk channels and semaphores")], hook="none: built with the race detector and run under several GOMAXPROCS values")

p("C34", "Clean-up options change exactly what they name",
  "The options that clean up the input while it is read do exactly what the help text says, alone and combined, for every input feed of the run and with or without -F and --prefix: --drop-shapes removes all shapes and references to them; --drop-single-stop-trips removes exactly the trips with fewer than two calls and what belongs to them; --remove-fillers blanks optional texts that consist of a filler only; -p replaces empty required texts; --standard-route-types and --google-supported-route-types map every (extended) route type as documented, before -M/-N choose modes; --assume-clean-csv changes nothing for CSV without quotes. Everything else stays as it is, and combining such options with a processing option gives what cleaning up first and processing the result gives.",
  ["inputs", "configurations"], "all valid feeds with trips of no or one call, fillers and empty required texts in every text field, all extended route types, times all non-empty subsets of the clean-up options, with processing options",
  "No test uses these options; wiring errors between an option and the parser setting it stands for are invisible without comparing whole outputs.",
  [G], [("option to parser setting", "gtfstidy.go main, opts := gtfsparser.ParseOptions{...}, e.g. DropShapes, RemoveFillers, UseStandardRouteTypes")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
