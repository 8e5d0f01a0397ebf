COMMON = ("No proof: the property held on every generated feed and option list of the run (counts and samples in the evidence file). "
          "Trusts the harness' own GTFS reader and model, and treats gtfsparser/gtfswriter as fixed dependencies.")
TECH = {
"C01": ("random feeds x subsets of the lossless options; oracle: offer of journeys per calendar date (frequencies expanded, transitive route/agency/stop attributes) of input and output compared independently of ids", "Interchangeable journeys are compared as a set where -I is given, stops modulo a union-find of what -P may merge."),
"C02": ("random feeds x all options; oracle: own referential-integrity and value checker over the written files plus the tool's own validation of its output", ""),
"C03": ("random, degenerate and corrupted feeds x option lists (valid and malformed); oracle: exit status, stderr, presence and completeness of the output", "Non-termination is judged by a timeout of 60 s, repeated with a longer one."),
"C04": ("round trip: random feeds x input/output packaging; oracle: row-for-row equality after normalisation of defaults and numbers", ""),
"C05": ("reference model of orphan removal (fixpoint over the reference graph); whole output compared", ""),
"C06": ("random services; oracle: date sets by an independent calendar expansion, row counts, and a brute-force optimum over weekday patterns and ranges of whole weeks", ""),
"C07": ("random near-duplicate services; oracle: partition of services by date sets", ""),
"C08": ("journeys per date, plus the rows attached to each journey, before and after; own id and exception checks", ""),
"C09": ("pairwise disjointness of all services of the output, journeys per date before and after", ""),
"C10": ("departures expanded from trips and exact frequencies as a multiset per date, before and after; headway bounds; completeness for regular families of trips", "Completeness is only judged for equal trips at regular steps; the tool's cover search is a heuristic."),
"C11": ("markers in ordinary fields reveal the renaming; oracle: bijection onto 1..n and equality of the renamed input with the output", ""),
"C12": ("as C11 with several feeds, prefixes and keep options", ""),
"C13": ("reference model: partition of routes by attributes and fare rules; whole output compared", ""),
"C14": ("reference model: partition of agencies; whole output compared", ""),
"C15": ("own union-find of stops that may be merged gives an upper bound, pair search in the output the lower bound; every reference compared modulo the merge", "Distances within a small tolerance of the limits are not judged."),
"C16": ("set of journeys per date before and after, with the equivalence the option documents (fuzzy: type of route; stations)", ""),
"C17": ("chains of alike shapes by dense sampling in both directions (upper bound), identical shapes (lower bound)", "1 % tolerance on distances; measures within the neighbourhood the statement allows."),
"C18": ("subsequence, end points, distance of dropped points (own projection), collinear points", ""),
"C19": ("monotonicity, given measures kept, proportional interpolation in gaps (own distances)", ""),
"C20": ("nearest-point predicate per measured call, monotonicity, bounds", "The search of the tool is a heuristic; only what the statement promises is judged."),
"C21": ("distance of moved calls to the shape, unmoved calls, copies of shared stops", ""),
"C22": ("error injection into valid feeds; reference model of what remains for -D, -e, -p, -n; compared row by row", "Recorded parser-library defects are excluded by input signature, see known_findings.txt."),
"C23": ("error injection; oracle: verdict of the reference model, and a snapshot of the file system", ""),
"C24": ("differential: the same options spelled in different ways must give the same result", ""),
"C25": ("union model of several feeds, row for row", ""),
"C26": ("reference model with an own point-in-polygon test", "Cases with points within 1e-5 degrees of a border are not judged."),
"C27": ("reference model of date and mode filters", ""),
"C28": ("every additional value describes its row; oracle: each value is found at the row it describes, for every table", ""),
"C29": ("reference model of grouping, whole output compared", ""),
"C30": ("own similarity and distance functions; oracle: partition constraints in both directions, everything else equal", "Pairs near the thresholds are not judged."),
"C31": ("reference model of the three options alone and combined", ""),
"C32": ("reference model of the speed rule", "Trips within a tolerance of limits are not judged."),
"C33": ("race detector plus differential over GOMAXPROCS: every component of a result must be among those of runs with one processor", "The schedules are those the Go runtime produces for several processor counts; they are sampled, not enumerated."),
"C34": ("reference model of the clean-up options, and the relation: clean-up then processing = both at once", ""),
}
