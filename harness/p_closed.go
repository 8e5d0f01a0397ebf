package main

import (
	"fmt"
	"strings"
)

func init() {
	register(&Prop{ID: "C02", Quick: 2400, Thorough: 15000,
		Rule:  "random valid feeds with random combinations of all options; non-trivial: the run used at least one processing option and its output contains trips",
		Gen:   genAny("C02"),
		Check: checkC02})
	register(&Prop{ID: "C03", Quick: 3000, Thorough: 20000,
		Rule:  "random valid feeds (also degenerate ones: empty tables, no services, single stops) with random combinations of all options, plus runs that must be rejected (missing tables, dangling references, malformed values and option values, unwritable output); non-trivial: a processing option was used or the input had to be rejected",
		Gen:   genC03,
		Check: checkC03})
}

func genAny(id string) func(r *Rng, th bool) *Case {
	return func(r *Rng, th bool) *Case {
		o := swarm(r)
		c := &Case{Procs: pick(r, 1, 1, 1, 2, 3, 8)}
		c.Feeds = append(c.Feeds, genFeed(r, o))
		if r.P(.12) {
			c.Feeds = append(c.Feeds, genFeed(r, swarm(r)))
		}
		c.Args = anyOpts(r, c.Feeds[0])
		return c
	}
}

// numbers checks the numeric columns of an output.
func numbers(f *Feed) *Fail {
	for _, x := range []struct{ t, c string }{{"stops", "stop_lat"}, {"stops", "stop_lon"}, {"shapes", "shape_pt_lat"}, {"shapes", "shape_pt_lon"},
		{"shapes", "shape_dist_traveled"}, {"stop_times", "shape_dist_traveled"}, {"levels", "level_index"}, {"pathways", "length"}} {
		for _, r := range f.T[x.t] {
			y := r[x.c]
			if y == "" && (x.t == "stops" && atoi(r["location_type"], 0) < 3 || x.t == "shapes" && x.c != "shape_dist_traveled") {
				return failf("missing-number", "%s without %s: %s", x.t, x.c, rowKey(r))
			}
			if y != "" && (!okFloat(y) || strings.HasSuffix(x.c, "lat") && !okLat(y) || strings.HasSuffix(x.c, "lon") && !okLon(y)) {
				return failf("bad-number", "%s with %s %q: %s", x.t, x.c, y, rowKey(r))
			}
		}
	}
	return nil
}

// closed checks that a feed is self-consistent.
func closed(f *Feed) *Fail {
	v := NewView(f)
	if len(v.Dups) > 0 {
		return failf("duplicate-id", "identifier used twice: %v", v.Dups)
	}
	have := func(kind, id string) bool {
		switch kind {
		case "stop":
			return v.Stop[id] != nil
		case "route":
			return v.Route[id] != nil
		case "trip":
			return v.Trip[id] != nil
		case "agency":
			return v.Agency[id] != nil
		case "service":
			return v.Svc[id] != nil
		case "shape":
			return v.Shape[id] != nil
		case "level":
			return v.Level[id] != nil
		case "fare":
			return v.Fare[id] != nil
		}
		return false
	}
	required := map[string]bool{"trips.route_id": true, "trips.service_id": true, "stop_times.trip_id": true, "stop_times.stop_id": true, "fare_rules.fare_id": true,
		"frequencies.trip_id": true, "pathways.from_stop_id": true, "pathways.to_stop_id": true}
	for _, t := range tableOrder {
		for col, kind := range refs[t] {
			for _, r := range v.F.T[t] {
				id := r[col]
				if id == "" {
					if required[t+"."+col] {
						return failf("missing-ref-"+t+"."+col, "%s without %s: %s", t, col, rowKey(r))
					}
					continue
				}
				if !have(kind, id) {
					return failf("dangling-"+t+"."+col, "%s refers to missing %s %q: %s", t, kind, id, rowKey(r))
				}
			}
		}
	}
	for t, d := range defs {
		for _, r := range v.F.T[t] {
			if r[d[0]] == "" && t != "agency" {
				return failf("empty-id-"+t, "%s without id: %s", t, rowKey(r))
			}
		}
	}
	for _, s := range v.Stop {
		p := v.Stop[s["parent_station"]]
		lt := atoi(s["location_type"], 0)
		if p == nil {
			if lt > 1 {
				return failf("stop-parent", "stop %s of type %d has no parent", s["stop_id"], lt)
			}
			continue
		}
		pt := atoi(p["location_type"], 0)
		if lt == 1 || (lt == 4 && pt != 0) || (lt != 4 && pt != 1) {
			return failf("stop-parent", "stop %s of type %d has parent of type %d", s["stop_id"], lt, pt)
		}
	}
	for tid, sts := range v.ST {
		for i, s := range sts {
			if (s.Arr < 0) != (s.Dep < 0) || s.Arr < -1 || s.Dep < s.Arr {
				return failf("stop-time-times", "trip %s: bad times %q %q", tid, s.Row["arrival_time"], s.Row["departure_time"])
			}
			if lt := atoi(v.Stop[s.Stop]["location_type"], 0); lt != 0 {
				return failf("stop-time-stop", "trip %s calls at stop %s of type %d", tid, s.Stop, lt)
			}
			if i > 0 && s.Arr >= 0 && sts[i-1].Dep > s.Arr {
				return failf("stop-time-times", "trip %s: arrives at %q after leaving at %q", tid, s.Row["arrival_time"], sts[i-1].Row["departure_time"])
			}
		}
		if len(sts) > 0 && (sts[0].Arr < 0 || sts[len(sts)-1].Arr < 0) {
			// only judged if the input had times there; see callers
		}
		last := -1.0
		for _, s := range sts {
			if s.Dist == s.Dist {
				if s.Dist < last {
					return failf("stop-time-dist", "trip %s: measures decrease", tid)
				}
				last = s.Dist
			}
		}
	}
	for id, pts := range v.Shape {
		last := -1.0
		for _, p := range pts {
			if p.Dist == p.Dist {
				if p.Dist < last {
					return failf("shape-dist", "shape %s: measures decrease", id)
				}
				last = p.Dist
			}
		}
	}
	for id, rs := range v.Freq {
		for _, r := range rs {
			s, en, h := parseTime(r["start_time"]), parseTime(r["end_time"]), atoi(r["headway_secs"], 0)
			if s < 0 || en < s || h <= 0 {
				return failf("frequency", "trip %s: bad frequency %s", id, rowKey(r))
			}
		}
	}
	for _, r := range v.F.T["calendar"] {
		s, en := dayNum(r["start_date"]), dayNum(r["end_date"])
		if s < 0 || en < s {
			return failf("calendar", "bad service range: %s", rowKey(r))
		}
	}
	for _, r := range v.F.T["calendar_dates"] {
		if x := r["exception_type"]; dayNum(r["date"]) < 0 || (x != "1" && x != "2") {
			return failf("calendar", "bad exception: %s", rowKey(r))
		}
	}
	tk := map[string]bool{}
	for _, r := range v.F.T["transfers"] {
		k := rowKey(r, "transfer_type", "min_transfer_time")
		if tk[k] {
			return failf("duplicate-transfer", "transfer twice: %s", k)
		}
		tk[k] = true
		for _, s := range []string{"from", "to"} {
			if r[s+"_stop_id"] == "" && r[s+"_route_id"] == "" && r[s+"_trip_id"] == "" {
				return failf("transfer", "transfer without %s: %s", s, rowKey(r))
			}
		}
	}
	ids := map[string]bool{}
	for _, r := range v.F.T["attributions"] {
		if id := r["attribution_id"]; id != "" {
			if ids[id] {
				return failf("duplicate-id", "attribution id %q twice", id)
			}
			ids[id] = true
		}
	}
	return nil
}

// validates runs gtfstidy -v on a written feed.
func (e *Env) validates(c *Case, files map[string]string) *Fail {
	f, err := ParseTables(files)
	if err != nil {
		return failf("unreadable", "%v", err)
	}
	g := NewFeed()
	g.Raw = map[string]string{}
	for n, s := range files {
		g.Raw[n[:len(n)-4]] = s
	}
	_ = f
	out := e.Run([]*Feed{g}, []string{"-v"}, nil, RunOpt{Procs: 1, NoOut: true})
	if out.Code != 0 {
		return failf("revalidate", "the output does not pass validation: %s", out.msg())
	}
	return nil
}

func usesProcessor(args []string) bool {
	for _, a := range args {
		for _, p := range procOpts {
			if a == p {
				return true
			}
		}
		for _, p := range shortOpts {
			if a == p {
				return true
			}
		}
	}
	return false
}

func checkC02(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		if noOutput(f) {
			// judged by C03: "a run that succeeds writes ..."
			res.Invalid = true
			res.tag("no-output")
			return
		}
		res.Fail = f
		return
	}
	res.NonTrivial = usesProcessor(c.Args) && len(out.F.T["trips"]) > 0
	for _, a := range c.Args {
		if len(a) > 1 && a[0] == '-' && (a[1] < '0' || a[1] > '9') {
			res.tag(a)
		}
	}
	if res.Fail = closed(out.F); res.Fail != nil {
		return
	}
	if res.Fail = e.validates(c, out.Files); res.Fail != nil {
		return
	}
	return
}

func genC03(r *Rng, th bool) *Case {
	c := genAny("C03")(r, th)
	if r.P(.15) { // degenerate feeds
		f := c.Feeds[0]
		switch r.N(7) {
		case 0:
			f.T["stop_times"], f.T["frequencies"] = nil, nil
		case 1:
			f.T["trips"] = nil
			f.prune()
		case 2:
			f.T["routes"] = nil
			f.prune()
		case 3:
			f.T["stops"] = nil
			f.prune()
		case 4:
			f.T["calendar"], f.T["calendar_dates"] = nil, nil
			f.prune()
		case 5: // single point shapes
			seen := map[string]bool{}
			var keep []Row
			for _, p := range f.T["shapes"] {
				if !seen[p["shape_id"]] {
					seen[p["shape_id"]] = true
					keep = append(keep, p)
				}
			}
			f.T["shapes"] = keep
		case 6: // single call trips
			seen := map[string]bool{}
			var keep []Row
			for _, p := range f.T["stop_times"] {
				if !seen[p["trip_id"]] {
					seen[p["trip_id"]] = true
					keep = append(keep, p)
				}
			}
			f.T["stop_times"] = keep
		}
		return c
	}
	if r.P(.25) { // must be rejected
		breakCase(r, c)
	}
	return c
}

// breakCase makes the run one that cannot succeed.
func breakCase(r *Rng, c *Case) {
	c.Meta = map[string]string{"reject": "1"}
	c.Feeds = c.Feeds[:1]
	f := c.Feeds[0]
	// options that repair errors are taken out
	var args []string
	for _, a := range c.Args {
		switch a {
		case "-D", "-e", "--fix", "-z", "-n":
			continue
		}
		args = append(args, a)
	}
	c.Args = args
	set := func(t, col, v string) bool {
		if len(f.T[t]) == 0 {
			return false
		}
		pickS(r, f.T[t])[col] = v
		c.Meta["what"] = fmt.Sprintf("%s.%s=%q", t, col, v)
		return true
	}
	if c.has("--date-start") || c.has("--date-end") || c.has("--bounding-box") || c.has("--polygon") || c.has("-M") || c.has("-N") || c.has("--drop-shapes") || c.has("-p") {
		// filters may legitimately skip the broken row
		c.Args = subset(r, procOpts, .1)
	}
	for {
		switch pick(r, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 9, 10, 10, 11, 11, 11, 11, 12, 13, 14, 15, 16) {
		case 0:
			t := pick(r, "agency", "stops", "routes", "trips", "stop_times")
			f.Raw = map[string]string{t: "\x00absent"}
			c.Meta["what"] = "no " + t
			return
		case 1:
			if set("stop_times", "stop_id", "no-such-stop") {
				return
			}
		case 2:
			if set("trips", "route_id", "no-such-route") {
				return
			}
		case 3:
			if set("trips", "service_id", "no-such-service") {
				return
			}
		case 4:
			var l []Row
			for _, st := range f.T["stops"] {
				if atoi(st["location_type"], 0) < 3 {
					l = append(l, st)
				}
			}
			if len(l) > 0 {
				v := pick(r, "abc", "91.5", "-90.5", "")
				pickS(r, l)["stop_lat"] = v
				c.Meta["what"] = fmt.Sprintf("stop_lat=%q", v)
				return
			}
		case 5:
			if set("stop_times", "arrival_time", "12.30") {
				return
			}
		case 6:
			if set("calendar", "start_date", "2023-01-01") {
				return
			}
		case 7:
			if set("routes", "route_type", "x") {
				return
			}
		case 8:
			if len(f.T["stops"]) > 1 {
				f.T["stops"][0]["stop_id"] = f.T["stops"][1]["stop_id"]
				f.T["stops"] = append(f.T["stops"], f.T["stops"][1].clone())
				c.Meta["what"] = "duplicate stop"
				return
			}
		case 9:
			v := pick(r, "2023", "20231301", "abcdefgh", "2023-01-01", "20230132", "18991231", "21560101", "00000000", "2023010", "x0230101", "+2023101")
			switch r.N(4) {
			case 0: // a month which does not exist
				v = fmt.Sprintf("%04d%02d%02d", r.R(1990, 2050), pick(r, 0, 13, 14, 20, 99), r.R(1, 28))
			case 1: // a day which does not exist
				v = fmt.Sprintf("%04d%02d%02d", r.R(1990, 2050), r.R(1, 12), pick(r, 0, 32, 33, 40, 99))
			case 2: // one character replaced by garbage
				w := []byte(fmt.Sprintf("%04d%02d%02d", r.R(1990, 2050), r.R(1, 12), r.R(1, 28)))
				w[r.N(len(w))] = pickS(r, []byte("x-./ o"))
				if w[0] != '-' && w[0] != ' ' {
					v = string(w)
				}
			}
			c.Args = append(c.Args, pick(r, "--date-start", "--date-end"), v)
			c.Meta["what"] = "bad date"
			return
		case 10:
			var l []string
			for n := r.N(4); len(l) < n; {
				l = append(l, pick(r, "0", "1", "3", "2", "715", "", " 3"))
			}
			at := r.N(len(l) + 1)
			l = append(l[:at:at], append([]string{pick(r, "bus", "x", "3;4", "3.0", "1e1", "0x3", "3-4", "3 4", "tram", "--", "٣")}, l[at:]...)...)
			c.Args = append(c.Args, pick(r, "-M", "-N", "--keep-mots", "--drop-mots"), strings.Join(l, ","))
			c.Meta["what"] = "bad mot"
			return
		case 11:
			opt := pick(r, "--polygon", "--bounding-box")
			n := 2 * r.R(1, 8)
			if opt == "--bounding-box" && r.P(.5) {
				n = 4
			}
			var l []string
			for len(l) < n {
				l = append(l, fmt.Sprintf("%.3f", 2+float64(r.N(60000))/1000))
			}
			switch r.N(3) {
			case 0: // half a pair
				l = l[:len(l)-1]
				c.Meta["what"] = "half a coordinate"
			case 1: // something that is no number
				l[r.N(len(l))] = pick(r, "x", "1.2.3", "1;2", "--1", "4°", "1 2", "", "north")
				c.Meta["what"] = "bad coordinate"
			default:
				if opt == "--bounding-box" && n != 4 {
					c.Meta["what"] = "bounding box without two corners"
				} else {
					continue
				}
			}
			c.Args = append(c.Args, opt, strings.Join(l, ","))
			return
		case 16:
			switch r.N(3) {
			case 0:
				c.Args = append(c.Args, "--zip-compression-level", pick(r, "10", "11", "100", "nine", "9.5"))
				c.Meta["out"] = "zip"
				c.Meta["what"] = "bad zip compression level"
			case 1:
				c.Args = append(c.Args, pick(r, "--min-headway", "--max-headway"), pick(r, "x", "1h", "1.5", ""))
				c.Meta["what"] = "bad headway"
			case 2:
				c.Args = append(c.Args, pick(r, "--no-such-option", "--fixx", "--min-shape"))
				c.Meta["what"] = "unknown option"
			}
			return
		case 12:
			c.Meta["out"] = "nodir"
			c.Meta["what"] = "output in a missing directory"
			return
		case 13:
			c.Meta["in"] = "missing"
			c.Meta["what"] = "input does not exist"
			return
		case 14:
			c.Args = append(c.Args, "--polygon-file", pick(r, "@aux/none.txt", "@aux/none.json", "@aux/bad.json"))
			c.Aux = map[string]string{"bad.json": "{\"type\": \"Feature"}
			c.Meta["what"] = "bad polygon file"
			return
		case 15:
			c.Meta["in"] = "badzip"
			c.Aux = map[string]string{"bad.zip": "this is not a zip file"}
			c.Meta["what"] = "broken zip"
			return
		}
	}
}

func checkC03(e *Env, c *Case) (res Res) {
	for _, a := range c.Args {
		if len(a) > 1 && a[0] == '-' && (a[1] < '0' || a[1] > '9') {
			res.tag(a)
		}
	}
	if c.Meta["reject"] == "" {
		_, f := e.do(c, c.Args, RunOpt{})
		res.Fail = f
		if f != nil && c.Meta["known"] == "" && parserFilterDefect(c, f) {
			// recorded finding (see known_findings.txt)
			res.Fail, res.Invalid = nil, true
			res.tag("known-finding:filter")
			return
		}
		res.NonTrivial = usesProcessor(c.Args)
		return
	}
	o := RunOpt{Procs: c.Procs}
	if c.Meta["out"] == "nodir" {
		o.OutName = "no/such/dir/out"
	}
	if c.Meta["out"] == "zip" {
		o.OutName = "out.zip"
	}
	switch c.Meta["in"] {
	case "missing":
		o.InPaths = []string{e.dir + "/does-not-exist"}
	case "badzip":
		o.InPaths = []string{e.dir + "/aux/bad.zip"}
	}
	out := e.Run(c.Feeds, c.Args, c, o)
	res.NonTrivial = true
	res.tag("reject:" + c.Meta["what"])
	if out.Timeout {
		res.Fail = needOK(out)
		return
	}
	if out.Code == 0 {
		res.Fail = failf("silent-failure", "exit status 0 although the run cannot succeed (%s): args %q %s", c.Meta["what"], out.Args, out.msg())
	} else if out.Stderr == "" {
		res.Fail = failf("no-message", "failed without an error message (%s): args %q", c.Meta["what"], out.Args)
	}
	return
}

// parserFilterDefect recognises the recorded finding that the parser library rejects references to entities it has itself
// filtered out while reading.
func parserFilterDefect(c *Case, f *Fail) bool {
	if strings.Contains(f.Msg, "fare_rules.txt") || strings.Contains(f.Msg, "transfers.txt") {
		return (c.has("-M") || c.has("-N") || c.has("--keep-mots") || c.has("--drop-mots")) && (strings.Contains(f.Msg, "No route with id") || strings.Contains(f.Msg, "No trip with id"))
	}
	if strings.Contains(f.Msg, "No station with id") {
		return (c.has("--bounding-box") || c.has("--polygon") || c.has("--polygon-file")) && !c.has("--complete-filtered-trips")
	}
	return false
}
