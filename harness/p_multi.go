package main

import (
	"strings"
)

func init() {
	register(&Prop{ID: "C25", Quick: 4000, Thorough: 40000,
		Rule: "two to four (some cases: eleven to thirteen) random feeds with equal, overlapping, prefix-like and disjoint ids (also identical copies), with and without --prefix and -F; without processors the output must be exactly the disjoint union of the inputs (ids with the feed's prefix), with --merge or random lossless options the offer per date must be that of the union; non-trivial: two input feeds use a common id",
		Gen:  genC25, Check: checkC25})
}

func genC25(r *Rng, th bool) *Case {
	c := &Case{Procs: pick(r, 1, 2, 4, 8)}
	n := pick(r, 2, 2, 2, 3, 4)
	if r.P(.05) { // feed numbers with two digits
		n = r.R(11, 13)
	}
	merge := r.P(.5)
	if r.P(.15) { // identical feeds without anything that differs by the prefix
		o := swarm(r)
		o.Stops, o.Trips, o.Routes, o.Fares, o.Freq, o.EmptySvc = r.R(3, 6), r.R(1, 6), r.R(1, 3), 0, 0, 0
		f := genFeed(r, o)
		for _, x := range f.T["stops"] {
			delete(x, "zone_id")
			if x["stop_lat"] == "" { // stops without a position are never merged
				x["stop_lat"], x["stop_lon"] = f.T["stops"][0]["stop_lat"], f.T["stops"][0]["stop_lon"]
				if x["stop_lat"] == "" {
					x["stop_lat"], x["stop_lon"] = "48.0", "7.8"
				}
			}
		}
		for _, x := range f.T["trips"] {
			delete(x, "block_id")
		}
		for i := 0; i < n; i++ {
			c.Feeds = append(c.Feeds, f.Clone())
		}
		c.Args = []string{"--merge"}
		c.Meta = map[string]string{"clones": "1"}
		return c
	}
	var o0 GOpt
	for i := 0; i < n; i++ {
		o := swarm(r)
		if i > 0 && r.P(.5) {
			o = o0
		}
		o0 = o
		o.AddCols = pick(r, 0.0, 1)
		o.Stops, o.Trips, o.Routes = r.R(3, 6), r.R(1, 6), r.R(1, 3)
		if n > 10 {
			o.Stops, o.Trips, o.Routes, o.Shapes = 3, 2, 1, 0
		}
		o.LongRange, o.MaxDays = 0, pick(r, 5, 10, 30)
		var f *Feed
		switch {
		case i > 0 && r.P(.4):
			f = pickS(r, c.Feeds).Clone()
			switch r.N(4) {
			case 0: // identical
			case 1: // same ids, one route different
				if len(f.T["routes"]) > 0 {
					x := pickS(r, f.T["routes"])
					x["route_desc"] = "only in feed " + string(rune('a'+i))
				}
			case 2: // other dates
				for _, x := range f.T["calendar_dates"] {
					x["date"] = dayStr(dayNum(x["date"]) + 7)
				}
				for _, x := range f.T["calendar"] {
					x["start_date"], x["end_date"] = dayStr(dayNum(x["start_date"])+7), dayStr(dayNum(x["end_date"])+7)
				}
			case 3: // some trips only
				for _, t := range append([]Row(nil), f.T["trips"]...) {
					if r.P(.5) {
						f.dropTrip(t["trip_id"])
					}
				}
			}
		default:
			f = genFeed(r, o)
		}
		c.Feeds = append(c.Feeds, f)
	}
	if r.P(.3) {
		c.Args = append(c.Args, "--prefix", pick(r, "x", "0#", "p_", "1"))
	}
	if r.P(.4) {
		c.Args = append(c.Args, pick(r, "-F", "--keep-additional-fields"))
	}
	if merge {
		if r.P(.5) {
			c.Args = append(c.Args, "--merge")
		} else {
			c.Args = append(c.Args, subset(r, losslessOpts, pick(r, .2, .5))...)
			if r.P(.3) && !c.has("--ensure-stop-parents") {
				c.Args = append(c.Args, pick(r, "-i", "-d"))
			}
		}
	}
	if r.P(.2) {
		c.Args = append(c.Args, "-W")
	}
	return c
}

// hasAny: one of the options is used, directly or by a shorthand.
func expandShort(args []string) []string {
	exp := map[string][]string{
		"--fix":      {"-e", "-D", "-n", "-z", "-p", "-"},
		"--compress": {"-O", "-s", "-S", "-R", "-C", "-c", "-I", "-A", "-P"},
		"--Compress": {"-O", "-s", "-S", "-R", "-C", "-c", "-I", "-A", "-P", "-d", "-T", "--red-stops-fuzzy", "--red-trips-fuzzy"},
		"--merge":    {"-A", "-R", "-P", "-I", "-C", "-c", "-O"},
		"--Merge":    {"-E", "-A", "-R", "-P", "-I", "-C", "-c", "-O", "--red-trips-fuzzy", "--red-stops-fuzzy"},
	}
	var out []string
	seen := map[string]bool{}
	for i, a := range args {
		if len(a) > 2 && a[0] == '-' && a[1] != '-' && (i == 0 || !takesValue(args[i-1])) { // grouped letters
			for _, ch := range a[1:] {
				out = append(out, "-"+string(ch))
			}
			continue
		}
		x, ok := exp[a]
		if !ok {
			out = append(out, a)
			continue
		}
		for i, b := range x {
			if b == "-" || (b == "-p" && i+1 < len(x)) || !seen[b] {
				out = append(out, b)
				seen[b] = true
			}
		}
	}
	return out
}

func checkC25(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	if res.Fail = closed(out.F); res.Fail != nil {
		return
	}
	prefixes := prefixesOf(c)
	got := out.F.Norm()
	add := c.has("-F") || c.has("--keep-additional-fields")
	var ins []*Feed
	for _, x := range c.Feeds {
		if !add {
			x = stripAdd(x)
		}
		ins = append(ins, x)
	}
	want := union(ins, prefixes)
	args := expandShort(c.Args)
	proc := false
	for _, a := range args {
		for _, b := range losslessOpts {
			proc = proc || a == b
		}
	}
	for _, a := range c.Args {
		if strings.HasPrefix(a, "-") {
			res.tag(a)
		}
	}
	ids := map[string]int{}
	for i, x := range c.Feeds {
		for t, d := range defs {
			for _, row := range x.T[t] {
				k := t + "\x00" + row[d[0]]
				if j, ok := ids[k]; ok && j != i {
					res.NonTrivial = true
				}
				ids[k] = i
			}
		}
	}
	if !proc && !c.has("-i") && !c.has("-d") {
		res.tag("union")
		res.Fail = sameFeed(want, got)
		return
	}
	res.tag("merged")
	if c.Meta["clones"] != "" {
		// merging identical feeds gives what one of them alone gives
		one, f := e.doFeeds(c, c.Feeds[:1], c.Args, RunOpt{})
		if f != nil {
			res.judge(c, f)
			return
		}
		same := true
		for _, x := range c.Feeds[1:] {
			same = same && sameFeed(c.Feeds[0], x) == nil
		}
		if same {
			res.tag("clones")
			for _, t := range []string{"agency", "stops", "levels", "routes", "trips", "stop_times"} {
				a, b := len(one.F.T[t]), len(out.F.T[t])
				if t == "trips" || t == "stop_times" {
					// how partially overlapping trips are merged depends on the order of trips; the copies of a trip are equal
					if c.has("--non-overlapping-services") || c.has("--remove-cal-dates") {
						continue
					}
					if n := len(c.Feeds[0].T[t]); a < n {
						a = n
					}
					if b < a {
						continue
					}
				}
				if a != b {
					res.Fail = failf("not-merged", "%d identical feeds: %d entries of %s remain, %d if only one of them is given", len(c.Feeds), b, t, a)
					return
				}
			}
		}
	}
	r2 := losslessJudge(want, got, args)
	res.Fail, res.Invalid = r2.Fail, r2.Invalid
	return
}

// takesValue tells whether an option is followed by a value.
func takesValue(a string) bool {
	switch a {
	case "-o", "--output", "--date-start", "--date-end", "-p", "--empty-str-repl", "--prefix", "--bounding-box", "--polygon", "--polygon-file", "--min-headway", "--max-headway", "--zip-compression-level", "-M", "--keep-mots", "-N", "--drop-mots":
		return true
	}
	return false
}
