package main

import (
	"slices"
	"strconv"
	"strings"
)

// C34: options that clean up the input while it is read.

var cleanOpts = []string{"--drop-shapes", "--drop-single-stop-trips", "--remove-fillers", "--standard-route-types", "--google-supported-route-types", "--empty-str-repl", "--assume-clean-csv"}

// processors whose result depends on nothing but their input
var stableOpts = []string{"-O", "-c", "-m", "-r", "-s", "--drop-platform-for-parentless", "--fix-far-away-parents", "--drop-too-fast-trips"}

func init() {
	register(&Prop{ID: "C34", Quick: 3500, Thorough: 30000,
		Rule: "random feeds (one or two) with shapes, trips of no or one call, fillers in every text field, empty required texts and route types from all over the extended range; each non-empty subset of the clean-up options, also with a filter for modes, -F and processors; non-trivial: the options changed the feed",
		Gen: func(r *Rng, th bool) *Case {
			c := &Case{Procs: pick(r, 1, 2, 8)}
			c.Args = subset(r, cleanOpts, pick(r, .2, .4))
			if len(c.Args) == 0 {
				c.Args = []string{pickS(r, cleanOpts)}
			}
			repl := ""
			for i, a := range c.Args {
				if a == "--empty-str-repl" {
					repl = pick(r, "-", "unknown", "Ü x")
					c.Args = slices.Insert(c.Args, i+1, repl)
					if r.P(.5) {
						c.Args[i] = "-p"
					}
					break
				}
			}
			n := pick(r, 1, 1, 1, 2)
			for i := 0; i < n; i++ {
				o := swarm(r)
				o.OddText = pick(r, 0, .4)
				f := genFeed(r, o)
				f.dirt(r, repl != "", c.has("--remove-fillers"))
				if r.P(.3) {
					c.dropRefs(f)
				}
				c.Feeds = append(c.Feeds, f)
			}
			if r.P(.25) && (c.has("--standard-route-types") || c.has("--google-supported-route-types")) {
				for _, f := range c.Feeds {
					c.dropRefs(f)
				}
				c.Args = append(c.Args, pick(r, "-M", "-N"), pick(r, "3", "2,0", "700,100,109", "1,4,7", "200,900,3"))
			}
			for _, f := range c.Feeds { // clean CSV has no quotes
				for _, rows := range f.T {
					for _, x := range rows {
						for _, y := range x {
							if strings.ContainsAny(y, "\",\n\r") {
								c.Args = slices.DeleteFunc(c.Args, func(a string) bool { return a == "--assume-clean-csv" })
							}
						}
					}
				}
			}
			if r.P(.3) {
				c.Args = append(c.Args, "-F")
			}
			if r.P(.25) {
				c.Args = append(c.Args, "--prefix", "p_")
			}
			if r.P(.4) {
				c.Meta = map[string]string{"then": pickS(r, stableOpts)}
				if c.has("--drop-shapes") && r.P(.5) { // nothing is left for these
					c.Meta["then"] = pick(r, "-S", "-s", "-m", "-r", "--snap-stops")
				}
			}
			return c
		}, Check: checkC34})
}

// dropRefs removes what the parser library cannot resolve after filtering routes.
func (c *Case) dropRefs(f *Feed) {
	for t, cols := range map[string][]string{"transfers": {"from_route_id", "to_route_id", "from_trip_id", "to_trip_id"}, "fare_rules": {"route_id"}, "attributions": {"route_id", "trip_id"}} {
		var k []Row
		for _, x := range f.T[t] {
			ok := true
			for _, cc := range cols {
				ok = ok && x[cc] == ""
			}
			if ok {
				k = append(k, x)
			}
		}
		f.T[t] = k
	}
}

// dirt puts things into a feed that the clean-up options are about.
func (f *Feed) dirt(r *Rng, empties, fillersOff bool) {
	put := func(t, col string, p float64) {
		for _, x := range f.T[t] {
			if r.P(p) {
				x[col] = pickS(r, fillers)
				if !slices.Contains(f.Cols[t], col) && len(f.Cols[t]) > 0 {
					f.Cols[t] = append(f.Cols[t], col)
				}
			}
		}
	}
	if r.P(.7) {
		for _, tc := range [][2]string{{"stops", "stop_desc"}, {"stops", "stop_code"}, {"routes", "route_desc"}, {"stops", "stop_name"}, {"trips", "trip_headsign"}, {"trips", "trip_short_name"},
			{"agency", "agency_name"}, {"stops", "platform_code"}, {"stops", "zone_id"}} {
			if r.P(.5) {
				put(tc[0], tc[1], .3)
			}
		}
		for _, x := range f.T["routes"] {
			a, b := x["route_short_name"], x["route_long_name"]
			switch r.N(6) {
			case 0:
				if b != "" {
					x["route_short_name"] = pickS(r, fillers)
				}
			case 1:
				if a != "" {
					x["route_long_name"] = pickS(r, fillers)
				}
			case 2:
				if !fillersOff {
					x["route_short_name"], x["route_long_name"] = pickS(r, fillers), pickS(r, fillers)
				}
			}
			for _, col := range []string{"route_short_name", "route_long_name"} {
				if x[col] != "" && len(f.Cols["routes"]) > 0 && !slices.Contains(f.Cols["routes"], col) {
					f.Cols["routes"] = append(f.Cols["routes"], col)
				}
			}
		}
	}
	if r.P(.7) {
		for _, x := range f.T["routes"] {
			if r.P(.6) {
				x["route_type"] = strconv.Itoa(pick(r, r.N(8), 11, 12, r.R(99, 118), r.R(199, 212), r.R(299, 302), r.R(399, 407), r.R(499, 502), r.R(599, 601), r.R(699, 719), 800, 801, r.R(899, 908), r.R(999, 1023),
					r.R(1199, 1202), r.R(1299, 1309), 1400, 1401, r.R(1499, 1509), r.R(1600, 1702), r.N(1703)))
			}
		}
	}
	if r.P(.6) { // trips with one call or none
		for _, t := range f.T["trips"] {
			if !r.P(.3) {
				continue
			}
			left := pick(r, 0, 1, 1)
			var k []Row
			for _, s := range f.T["stop_times"] {
				if s["trip_id"] != t["trip_id"] {
					k = append(k, s)
				} else if left > 0 && s["arrival_time"] != "" && s["departure_time"] != "" {
					k = append(k, s)
					left--
				}
			}
			f.T["stop_times"] = k
		}
	}
	if empties {
		for _, s := range f.T["stops"] {
			if atoi(s["location_type"], 0) < 3 && r.P(.3) {
				delete(s, "stop_name")
			}
		}
		for _, s := range f.T["agency"] {
			if r.P(.2) {
				delete(s, "agency_name")
			}
		}
	}
}

// googleType: the route types Google supports.
func googleType(t int) int {
	switch {
	case t == 104, t >= 110 && t <= 117:
		return 100
	case t >= 203 && t <= 209:
		return 200
	case t == 300:
		return 109
	case t == 404:
		return 400
	case t == 703, t >= 705 && t <= 714, t == 716:
		return 700
	case t >= 901 && t <= 906:
		return 900
	case t == 1302:
		return 900
	}
	return t
}

func isFiller(s string) bool { return slices.Contains(fillers, s) }

// cleaned: what the clean-up options make of a feed.
func cleaned(c *Case, in *Feed) *Feed {
	f := in.Clone()
	single := map[string]int{}
	for _, s := range f.T["stop_times"] {
		single[s["trip_id"]]++
	}
	if c.has("--drop-single-stop-trips") {
		for _, t := range append([]Row(nil), f.T["trips"]...) {
			if single[t["trip_id"]] < 2 {
				f.dropTrip(t["trip_id"])
			}
		}
	}
	if c.has("--drop-shapes") {
		f.T["shapes"] = nil
		for _, t := range f.T["trips"] {
			delete(t, "shape_id")
		}
	}
	if c.has("--remove-fillers") {
		for t, cols := range map[string][]string{"routes": {"route_short_name", "route_long_name", "route_desc"}, "stops": {"stop_desc", "stop_code"}} {
			for _, x := range f.T[t] {
				for _, col := range cols {
					if isFiller(x[col]) {
						delete(x, col)
					}
				}
			}
		}
	}
	if p := lastArg(c, "-p", "--empty-str-repl"); p != "" {
		for _, s := range f.T["stops"] {
			if s["stop_name"] == "" && atoi(s["location_type"], 0) < 3 {
				s["stop_name"] = p
			}
		}
		for _, s := range f.T["agency"] {
			if s["agency_name"] == "" {
				s["agency_name"] = p
			}
		}
	}
	for _, x := range f.T["routes"] {
		t := atoi(x["route_type"], 0)
		if c.has("--standard-route-types") {
			t = basicType(t)
		}
		if c.has("--google-supported-route-types") {
			t = googleType(t)
		}
		x["route_type"] = strconv.Itoa(t)
	}
	if m := lastArg(c, "-M", "-N"); m != "" {
		sel := motSet(m)
		drop := map[string]bool{}
		for _, x := range f.T["routes"] {
			drop[x["route_id"]] = sel[atoi(x["route_type"], -1)] != c.has("-M")
		}
		for _, t := range append([]Row(nil), f.T["trips"]...) {
			if drop[t["route_id"]] {
				f.dropTrip(t["trip_id"])
			}
		}
		var k []Row
		for _, x := range f.T["routes"] {
			if !drop[x["route_id"]] {
				k = append(k, x)
			}
		}
		f.T["routes"] = k
	}
	return f
}

func checkC34(e *Env, c *Case) (res Res) {
	var fs []*Feed
	for _, f := range c.Feeds {
		if !c.has("-F") {
			f = stripAdd(f)
		}
		g := cleaned(c, f)
		res.NonTrivial = res.NonTrivial || sameFeed(f, g) != nil
		fs = append(fs, g)
	}
	for _, a := range c.Args {
		res.tagIf(slices.Contains(cleanOpts, a), a)
	}
	then := c.Meta["then"]
	if then == "" {
		out, f := e.do(c, c.Args, RunOpt{})
		if f != nil {
			res.judge(c, f)
			return
		}
		want := fs[0]
		if len(fs) > 1 || c.has("--prefix") {
			want = union(fs, prefixesOf(c))
		}
		res.Fail = sameFeed(want, out.F)
		return
	}
	// cleaning up first and processing afterwards is the same as both at once
	res.tag("then " + then)
	out, f := e.do(c, append(append([]string(nil), c.Args...), then), RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	first, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	args := []string{then}
	if c.has("-F") {
		args = append(args, "-F")
	}
	second, f := e.doFeeds(c, []*Feed{first.F}, args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	for _, f := range []*Feed{second.F, out.F} { // ranges of weekly patterns without any weekday mean nothing
		for _, x := range f.T["calendar"] {
			if !slices.ContainsFunc(wdNames, func(d string) bool { return x[d] == "1" }) {
				delete(x, "start_date")
				delete(x, "end_date")
			}
		}
	}
	if res.Fail = sameFeed(second.F, out.F); res.Fail != nil {
		res.Fail.Kind = "two-steps:" + res.Fail.Kind
	}
	return
}
