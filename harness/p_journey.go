package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C01", Quick: 4000, Thorough: 60000,
		Rule: "random feeds (all tables, near-duplicates of every kind, progressions of departures, frequencies) with random combinations of the lossless options; the offer per date is compared independently of identifiers; non-trivial: at least two options and one journey on one date",
		Gen:  genC01, Check: checkC01})
	register(&Prop{ID: "C08", Quick: 4500, Thorough: 40000,
		Rule: "random feeds with many mixed services (ranges plus added/removed dates), frequencies, trip transfers, trip attributions, additional columns; --remove-cal-dates; non-trivial: at least one trip had to be split over several services",
		Gen:  genSplit("--remove-cal-dates"), Check: checkSplit(true)})
	register(&Prop{ID: "C09", Quick: 4500, Thorough: 40000,
		Rule: "random feeds with many overlapping services (near-duplicates, ranges over several years); --non-overlapping-services; non-trivial: at least two services of the input overlap without being equal",
		Gen:  genSplit("--non-overlapping-services"), Check: checkSplit(false)})
	register(&Prop{ID: "C10", Quick: 4500, Thorough: 50000,
		Rule: "random feeds with arithmetic and nearly arithmetic progressions of departures (mixed patterns, dwell changes, duplicates, exact and inexact frequencies); -T with random headway bounds; non-trivial: at least one frequency was created",
		Gen:  genC10, Check: checkC10})
	register(&Prop{ID: "C16", Quick: 4500, Thorough: 50000,
		Rule: "random feeds with many duplicated trips (same or other service, one attribute, one call, other platform of the same station changed); -I, optionally fuzzy/aggressive and with -c/-C/-O; non-trivial: two input trips stand for the same journey on a common date",
		Gen:  genC16, Check: checkC16})
}

var losslessOpts = []string{"-O", "-A", "-P", "-R", "-C", "-c", "-I", "-S", "-s", "-m", "-T", "--remove-cal-dates", "--non-overlapping-services", "--ensure-stop-parents"}

func genC01(r *Rng, th bool) *Case {
	o := swarm(r)
	o.Services = r.R(1, 5)
	o.MaxDays = pick(r, 5, 10, 30)
	o.LongRange = pick(r, 0, 0, 0, .2)
	f := genFeed(r, o)
	if r.P(.5) {
		f.twins(r)
	}
	if r.P(.5) {
		f.progressions(r)
	}
	if r.P(.1) {
		f.lookalike(r)
	}
	c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 4, 8)}
	c.Args = subset(r, losslessOpts, pick(r, .15, .3, .6, .9))
	if len(c.Args) == 0 {
		c.Args = append(c.Args, pickS(r, losslessOpts))
	}
	if r.P(.4) {
		c.Args = append(c.Args, pick(r, "-i", "-d"))
		if c.has("--ensure-stop-parents") {
			c.Args = append(c.Args, "--keep-station-ids")
		}
	}
	if r.P(.2) {
		c.Args = append(c.Args, "-F")
	}
	if r.P(.1) {
		c.Args = append(c.Args, "--explicit-calendar")
	}
	r.Shuffle(len(c.Args), func(i, j int) { c.Args[i], c.Args[j] = c.Args[j], c.Args[i] })
	return c
}

// dropNewParents undoes --ensure-stop-parents: stations that are not in the input.
func sameCoord(a, b Row) bool {
	near := func(x, y string) bool {
		p, e1 := strconv.ParseFloat(x, 64)
		q, e2 := strconv.ParseFloat(y, 64)
		return e1 == nil && e2 == nil && math.Abs(p-q) < 1e-5
	}
	return near(a["stop_lat"], b["stop_lat"]) && near(a["stop_lon"], b["stop_lon"])
}

func dropNewParents(in, out *View) *View {
	f := out.F.Clone()
	made := map[string]bool{} // stations that were made for a stop, whose id may be that of an (orphaned) station of the input
	for _, s := range f.T["stops"] {
		if p, o := s["parent_station"], in.Stop[s["stop_id"]]; o != nil && o["parent_station"] == "" && strings.HasPrefix(p, "par") && strings.HasSuffix(p, "::"+s["stop_id"]) {
			made[p] = true
		}
	}
	station := func(id string) bool {
		a, b := in.Stop[id], out.Stop[id]
		return a != nil && a["location_type"] == "1" && !made[id] && b != nil && a["stop_name"] == b["stop_name"] && a["stop_code"] == b["stop_code"] && sameCoord(a, b)
	}
	var keep []Row
	for _, s := range f.T["stops"] {
		if s["location_type"] == "1" && !station(s["stop_id"]) {
			continue
		}
		if p := s["parent_station"]; p != "" && out.Stop[p]["location_type"] == "1" && !station(p) {
			delete(s, "parent_station")
		}
		keep = append(keep, s)
	}
	f.T["stops"] = keep
	return NewView(f)
}

func checkC01(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	in := c.Feeds[0]
	if !c.has("-F") {
		in = stripAdd(in)
	}
	if res.Fail = closed(out.F); res.Fail != nil {
		return
	}
	res = losslessJudge(in, out.F, c.Args)
	for _, x := range c.Args {
		res.tag(x)
	}
	return
}

// losslessJudge compares the offers of an input and an output of a run with any lossless options.
func losslessJudge(in, outF *Feed, args []string) (res Res) {
	has := (&Case{Args: args}).has
	a, b := NewView(in), NewView(outF)
	for id, s := range a.ST {
		if has("-I") && len(s) == 1 && s[0].Arr != s[0].Dep && len(a.Freq[id]) == 0 {
			res.Invalid = true
			return
		}
	}
	if has("-O") {
		a = dropUseless(a)
	}
	if has("--ensure-stop-parents") {
		b = dropNewParents(a, b)
	}
	o := JOpt{MergeStops: has("-P"), Add: has("-F"), NoAttr: has("-A") || has("-R") || has("-I"), Sets: true}
	if has("-R") {
		o.OmitRoute = append(o.OmitRoute, "route_sort_order")
	}
	if has("-A") || has("-R") || has("-P") {
		o.Add = false // merged entities have only one of the values
	}
	pl := &places{o: o}
	ca := pl.classes(a, true)
	cb := pl.classes(b, false)
	if has("-I") {
		full, got := journeys(a, ca, o), journeys(b, cb, o)
		for k := range got.days {
			if full.days[k] == nil {
				res.Fail = failf("journey-extra", "journey that is not in the input: %s", k)
				return
			}
		}
		o.Loose = true
		o.OmitTrip = []string{"direction_id"}
	}
	w, g := journeys(a, ca, o), journeys(b, cb, o)
	res.NonTrivial = w.n > 0 && len(args) > 1
	res.tagIf(len(b.Trip) != len(a.Trip), "trips-rearranged")
	res.tagIf(len(b.Stop) != len(a.Stop), "stops-merged")
	res.tagIf(len(b.Route) != len(a.Route), "routes-merged")
	res.Fail = sameOffer(w, g, has("-I"))
	return
}

func genSplit(opt string) func(r *Rng, th bool) *Case {
	return func(r *Rng, th bool) *Case {
		o := swarm(r)
		o.Stops, o.Routes, o.Trips = r.R(2, 5), r.R(1, 3), r.R(2, 10)
		o.Services = r.R(1, 6)
		o.Dup = pick(r, 0, .3, .6)
		o.MaxDays = pick(r, 5, 10, 20, 40)
		o.LongRange = pick(r, 0, 0, 0, .3)
		o.EmptySvc = pick(r, 0, 0, .3)
		o.Freq = pick(r, 0, .3)
		o.Attr, o.Transfers = pick(r, 0, 1.0), pick(r, 0, 1.0)
		f := genFeed(r, o)
		if r.P(.5) {
			f.alternate(r)
		}
		if r.P(.2) {
			f.farDate(r)
		}
		if r.P(.15) { // ids that look generated
			f.renameSome(r)
		}
		c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 4, 8), Args: []string{opt}}
		if r.P(.4) {
			c.Args = append(c.Args, "-F")
		}
		if opt == "--non-overlapping-services" && r.P(.2) {
			c.Args = append(c.Args, "-c")
		}
		if r.P(.1) {
			c.Args = append(c.Args, "--explicit-calendar")
		}
		return c
	}
}

// renameSome gives trips, services and attributions ids like the ones processors create.
func (f *Feed) renameSome(r *Rng) {
	ren := func(kind string, refs map[string][]string, names []string) {
		var ids []string
		seen := map[string]bool{}
		for _, t := range []string{"trips", "calendar", "calendar_dates"} {
			for _, c := range refs[t] {
				for _, x := range f.T[t] {
					if id := x[c]; id != "" && !seen[id] {
						seen[id] = true
						ids = append(ids, id)
					}
				}
			}
		}
		if len(ids) == 0 {
			return
		}
		base := pickS(r, ids)
		m := map[string]string{}
		for _, n := range names {
			n = strings.ReplaceAll(n, "*", base)
			old := pickS(r, ids)
			if seen[n] || old == base || m[old] != "" {
				continue
			}
			seen[n] = true
			m[old] = n
		}
		for t, cols := range refs {
			for _, row := range f.T[t] {
				for _, c := range cols {
					if n, ok := m[row[c]]; ok && row[c] != "" {
						row[c] = n
					}
				}
			}
		}
	}
	ren("trip", map[string][]string{"trips": {"trip_id"}, "stop_times": {"trip_id"}, "frequencies": {"trip_id"}, "attributions": {"trip_id"}, "transfers": {"from_trip_id", "to_trip_id"}},
		[]string{"*-0", "*-1", "*_1", "*1", "*0", "*-2", "*_0"})
	ren("service", map[string][]string{"trips": {"service_id"}, "calendar": {"service_id"}, "calendar_dates": {"service_id"}},
		[]string{"*-0", "*-1", "*_1", "merged0", "merged1", "*0", "*1"})
}

// alternate replaces trips by two trips that run on complementary halves of the dates, at different times.
func (f *Feed) alternate(r *Rng) {
	v := NewView(f)
	used := map[string]bool{}
	for _, t := range f.T["trips"] {
		used[t["trip_id"]] = true
	}
	for n, t := range append([]Row(nil), f.T["trips"]...) {
		days := []int(nil)
		if s := v.Svc[t["service_id"]]; s != nil {
			days = s.Days
		}
		if len(days) < 2 || len(days) > 40 || !r.P(.4) {
			continue
		}
		id := pick(r, "a", "", "zz", "M") + "alt" + strconv.Itoa(n)
		if used[id] {
			continue
		}
		used[id] = true
		mod := pick(r, 7, 7, 7, 1)
		s1, s2 := fmt.Sprintf("even%d", n), fmt.Sprintf("odd%d", n)
		for _, d := range days {
			s := s1
			if d/mod%2 == 1 {
				s = s2
			}
			f.T["calendar_dates"] = append(f.T["calendar_dates"], Row{"service_id": s, "date": dayStr(d), "exception_type": "1"})
		}
		has := map[string]bool{}
		for _, x := range f.T["calendar_dates"] {
			has[x["service_id"]] = true
		}
		if !has[s1] || !has[s2] {
			continue
		}
		c := t.clone()
		c["trip_id"] = id
		t["service_id"], c["service_id"] = s1, s2
		f.T["trips"] = append(f.T["trips"], c)
		sh := pick(r, 60, 3600, 0)
		for _, s := range v.ST[t["trip_id"]] {
			x := s.Row.clone()
			x["trip_id"] = id
			if s.Arr >= 0 {
				x["arrival_time"], x["departure_time"] = fmtTime(s.Arr+sh), fmtTime(s.Dep+sh)
			}
			f.T["stop_times"] = append(f.T["stop_times"], x)
		}
	}
}

// transferOffer: what the transfers of a feed say about journeys on dates.
func transferOffer(v *View, o JOpt) map[string]map[int]int {
	sig := func(trip string) string {
		w := *v
		w.Trip = map[string]Row{trip: v.Trip[trip]}
		j := journeys(&w, nil, o)
		var ks []string
		for k := range j.days {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		return strings.Join(ks, " & ")
	}
	cache := map[string]string{}
	get := func(t string) string {
		if _, ok := cache[t]; !ok {
			cache[t] = sig(t)
		}
		return cache[t]
	}
	res := map[string]map[int]int{}
	for _, r := range v.F.T["transfers"] {
		a, b := r["from_trip_id"], r["to_trip_id"]
		k := rowKey(r, "from_trip_id", "to_trip_id")
		da, db := []int{0}, []int{0}
		if a != "" {
			k += "\nfrom " + get(a)
			da = v.Svc[v.Trip[a]["service_id"]].Days
		}
		if b != "" {
			k += "\nto " + get(b)
			db = v.Svc[v.Trip[b]["service_id"]].Days
		}
		if res[k] == nil {
			res[k] = map[int]int{}
		}
		for _, x := range da {
			for _, y := range db {
				res[k][x*100000+y]++
			}
		}
	}
	return res
}

func checkSplit(calDates bool) func(e *Env, c *Case) Res {
	return func(e *Env, c *Case) (res Res) {
		out, f := e.do(c, c.Args, RunOpt{})
		if f != nil {
			res.judge(c, f)
			return
		}
		in := c.Feeds[0]
		add := c.has("-F")
		if !add {
			in = stripAdd(in)
		}
		a, b := NewView(in), NewView(out.F)
		if res.Fail = closed(out.F); res.Fail != nil {
			return
		}
		if calDates {
			if n := len(out.F.T["calendar_dates"]); n > 0 {
				res.Fail = failf("exceptions", "%d calendar exceptions remain: %s", n, rowKey(out.F.T["calendar_dates"][0]))
				return
			}
			res.NonTrivial = len(b.Trip) > len(a.Trip)
		} else {
			var ids []string
			for id := range b.Svc {
				ids = append(ids, id)
			}
			sort.Strings(ids)
			used := map[string]bool{}
			for _, t := range b.Trip {
				used[t["service_id"]] = true
			}
			seen := map[int]string{}
			for _, id := range ids {
				for _, d := range b.Svc[id].Days {
					if o, ok := seen[d]; ok {
						res.Fail = failf("overlap", "services %q and %q both operate on %s", o, id, dayStr(d))
						return
					}
					seen[d] = id
				}
			}
			for i, x := range a.Svc {
				for j, y := range a.Svc {
					if i < j {
						n := symDiff(x.Days, y.Days)
						res.NonTrivial = res.NonTrivial || (n > 0 && n < len(x.Days)+len(y.Days))
					}
				}
			}
		}
		res.tagIf(len(b.Trip) > len(a.Trip), "trips-split")
		res.tagIf(len(a.F.T["frequencies"]) > 0 && len(b.F.T["frequencies"]) > len(a.F.T["frequencies"]), "frequency-trip-split")
		res.tagIf(len(b.F.T["attributions"]) > len(a.F.T["attributions"]), "attributed-trip-split")
		res.tagIf(len(b.F.T["transfers"]) > len(a.F.T["transfers"]), "transfer-trip-split")
		o := JOpt{StopIDs: true, RouteIDs: true, ShapeIDs: true, Dist: true, Add: add}
		if res.Fail = sameOffer(journeys(a, nil, o), journeys(b, nil, o), false); res.Fail != nil {
			return
		}
		o.NoAttr = false
		ta, tb := transferOffer(a, o), transferOffer(b, o)
		for k, m := range ta {
			for d, n := range m {
				if tb[k][d] < n {
					res.Fail = failf("transfer-lost", "transfer missing for journeys on %s: %s", dayStr(d/100000), k)
					return
				}
			}
		}
		for k, m := range tb {
			for d := range m {
				if ta[k][d] == 0 {
					res.Fail = failf("transfer-extra", "transfer unexpected for journeys on %s: %s", dayStr(d/100000), k)
					return
				}
			}
		}
		res.Fail = sameFeed(in, out.F, "calendar", "calendar_dates", "trips", "stop_times", "frequencies", "attributions", "transfers")
		if res.Fail == nil { // the attributions of other entities are unchanged
			w, g := noTripAttr(a), noTripAttr(b)
			if d := diffBag(w, g); d != "" {
				res.Fail = failf("diff-attributions", "attributions differ: %s", d)
			}
		}
		return
	}
}

func noTripAttr(v *View) map[string]int {
	m := map[string]int{}
	for _, r := range v.F.T["attributions"] {
		if r["trip_id"] == "" {
			m[rowKey(r)]++
		}
	}
	return m
}

func genC10(r *Rng, th bool) *Case {
	o := swarm(r)
	o.Stops, o.Routes, o.Trips = r.R(2, 5), r.R(1, 2), r.R(2, 14)
	o.Services = r.R(1, 2)
	o.Dup = pick(r, .3, .6, .9)
	o.Freq = pick(r, 0, .15, .4)
	o.MaxDays = 10
	f := genFeed(r, o)
	f.progressions(r)
	if r.P(.2) {
		f.lookalike(r)
	}
	c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 4, 8), Args: []string{pick(r, "-T", "--minimize-stoptimes")}}
	if r.P(.3) {
		c.Args = append(c.Args, "--min-headway", strconv.Itoa(pick(r, 1, 60, 300, 301, 600, 900, 3600)))
	}
	if r.P(.3) {
		c.Args = append(c.Args, "--max-headway", strconv.Itoa(pick(r, 60, 299, 300, 600, 900, 1800, 3600)))
	}
	if r.P(.3) {
		c.Args = append(c.Args, "-F")
	}
	return c
}

// progressions adds copies of trips at regular and slightly irregular intervals.
func (f *Feed) progressions(r *Rng) {
	by := map[string][]Row{}
	for _, s := range f.T["stop_times"] {
		by[s["trip_id"]] = append(by[s["trip_id"]], s)
	}
	for _, x := range by {
		sort.SliceStable(x, func(i, j int) bool { return atoi(x[i]["stop_sequence"], 0) < atoi(x[j]["stop_sequence"], 0) })
	}
	trips := append([]Row(nil), f.T["trips"]...)
	used := map[string]bool{}
	for _, t := range trips {
		used[t["trip_id"]] = true
	}
	n := 0
	for _, t := range trips {
		if !r.P(.5) || len(f.T["trips"]) > 40 {
			continue
		}
		h := pick(r, 1, 60, 60, 300, 300, 420, 600, 900, 3600, 86400)
		k := r.R(1, 7)
		off := 0
		for i := 0; i < k; i++ {
			off += h
			if r.P(.1) {
				off += h // gap
			}
			if r.P(.08) {
				off += pick(r, 1, 30, h/2)
			}
			if r.P(.06) {
				off -= h // the same departure again
			}
			id := fmt.Sprintf("prog%d", n)
			n++
			late0 := 0
			for _, s := range by[t["trip_id"]] {
				late0 = max(late0, parseTime(s["departure_time"]))
			}
			if used[id] || late0+off > 70*3600 || off < 0 {
				continue
			}
			used[id] = true
			c := t.clone()
			c["trip_id"] = id
			f.T["trips"] = append(f.T["trips"], c)
			dw := -1
			if r.P(.08) && len(by[t["trip_id"]]) > 0 {
				dw = r.N(len(by[t["trip_id"]]))
			}
			allDw := r.P(.05)
			late := 0
			for j, s := range by[t["trip_id"]] {
				x := s.clone()
				x["trip_id"] = id
				if x["arrival_time"] != "" {
					x["arrival_time"] = fmtTime(parseTime(s["arrival_time"]) + off + late)
					if j == dw || (j == 0 && allDw) {
						if r.P(.5) {
							late += 30
						} else if parseTime(s["departure_time"])+off >= parseTime(x["arrival_time"])+30 {
							x["arrival_time"] = fmtTime(parseTime(x["arrival_time"]) + 30)
						}
					}
					x["departure_time"] = fmtTime(parseTime(s["departure_time"]) + off + late)
				}
				f.T["stop_times"] = append(f.T["stop_times"], x)
			}
			if r.P(.05) {
				c["trip_headsign"] = "Elsewhere"
			}
			if r.P(.05) {
				c["block_id"] = "pb"
			}
			if r.P(.15) {
				f.varyTrip(r, c)
			}
		}
	}
}

// varyTrip makes a trip different from its siblings in one attribute of the trip or of one of its calls.
func (f *Feed) varyTrip(r *Rng, t Row) {
	var st []Row
	for _, s := range f.T["stop_times"] {
		if s["trip_id"] == t["trip_id"] {
			st = append(st, s)
		}
	}
	if r.P(.4) || len(st) == 0 {
		m := map[string][]string{"trip_short_name": {"X1", ""}, "direction_id": {"0", "1", ""}, "wheelchair_accessible": {"0", "1", "2"}, "bikes_allowed": {"0", "1", "2"}}
		for c := range t {
			if !stdColSet["trips"][c] {
				m[c] = []string{"vary", ""}
			}
		}
		(&gen{r: r, f: f}).mutateAttr(t, m)
		return
	}
	s := pickS(r, st)
	if d := s["shape_dist_traveled"]; d != "" && r.P(.6) {
		s["shape_dist_traveled"] = ""
		return
	}
	m := map[string][]string{"pickup_type": {"0", "1", "2"}, "drop_off_type": {"0", "1", "3"}, "continuous_pickup": {"0", "1", "2"}, "continuous_drop_off": {"0", "1", "3"}}
	if s["arrival_time"] != "" {
		m["timepoint"] = []string{"0", "1"}
	}
	for c := range s {
		if !stdColSet["stop_times"][c] {
			m[c] = []string{"vary", ""}
		}
	}
	(&gen{r: r, f: f}).mutateAttr(s, m)
}

func headways(c *Case) (lo, hi int) {
	lo, hi = 1, 86400
	for i, a := range c.Args {
		if a == "--min-headway" {
			lo = atoi(c.Args[i+1], lo)
		}
		if a == "--max-headway" {
			hi = atoi(c.Args[i+1], hi)
		}
	}
	return
}

// uncombined finds trips that differ only by their departure, which is in regular steps, and were not combined.
func uncombined(v *View, lo, hi int, res *Res) *Fail {
	groups := map[string][]int{}
	ids := map[string]string{}
	ref := map[string]bool{}
	for _, x := range v.F.T["transfers"] {
		ref[x["from_trip_id"]], ref[x["to_trip_id"]] = true, true
	}
	for _, x := range v.F.T["attributions"] {
		ref[x["trip_id"]] = true
	}
	for _, id := range sortedKeys(v.Trip) {
		t, sts := v.Trip[id], v.ST[id]
		if ref[id] || len(sts) == 0 || sts[0].Dep < 0 || t["trip_headsign"] != "" || t["trip_short_name"] != "" || t["block_id"] != "" {
			continue // texts are compared by reference
		}
		k := rowKey(t, "trip_id")
		for _, s := range sts {
			k += "|" + rowKey(s.Row, "trip_id", "arrival_time", "departure_time") + "@"
			if s.Arr >= 0 {
				k += fmt.Sprint(s.Arr-sts[0].Dep, ",", s.Dep-sts[0].Dep)
			}
		}
		d := sts[0].Dep
		if len(v.Freq[id]) > 0 {
			d = -1
		}
		groups[k] = append(groups[k], d)
		ids[k] += " " + id
	}
	for _, k := range sortedKeys(groups) {
		ds := groups[k]
		sort.Ints(ds)
		if len(ds) < 2 || ds[0] < 0 {
			continue
		}
		h := ds[1] - ds[0]
		ok := h >= lo && h <= hi
		for i := 1; i < len(ds); i++ {
			ok = ok && ds[i]-ds[i-1] == h
		}
		if ok {
			return failf("uncombined", "the trips%s leave every %d s, but were not combined: %s", ids[k], h, k)
		}
	}
	return nil
}

func checkC10(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	in := c.Feeds[0]
	add := c.has("-F")
	if !add {
		in = stripAdd(in)
	}
	a, b := NewView(in), NewView(out.F)
	if res.Fail = closed(out.F); res.Fail != nil {
		return
	}
	o := JOpt{StopIDs: true, RouteIDs: true, ShapeIDs: true, Add: add, Dist: true}
	if res.Fail = sameOffer(journeys(a, nil, o), journeys(b, nil, o), false); res.Fail != nil {
		return
	}
	lo, hi := headways(c)
	for id, fr := range b.Freq {
		have := map[string]bool{}
		for _, x := range a.Freq[id] {
			have[rowKey(x)] = true
		}
		seen := map[int]bool{}
		for _, x := range fr {
			if have[rowKey(x)] {
				res.tag("frequency-kept")
				continue
			}
			h := atoi(x["headway_secs"], 0)
			res.NonTrivial = true
			res.tag("frequency-created")
			if x["exact_times"] != "1" {
				res.Fail = failf("inexact", "a non-exact frequency was created: %s", rowKey(x))
				return
			}
			if h < lo || h > hi {
				res.Fail = failf("headway", "created frequency outside the headway bounds [%d,%d]: %s", lo, hi, rowKey(x))
				return
			}
		}
		for _, x := range fr {
			if x["exact_times"] != "1" {
				continue
			}
			for d := parseTime(x["start_time"]); d < parseTime(x["end_time"]); d += atoi(x["headway_secs"], 1) {
				if seen[d] && !have[rowKey(x)] {
					res.Fail = failf("covered-twice", "trip %s: departure %s is covered twice", id, fmtTime(d))
					return
				}
				seen[d] = true
			}
		}
	}
	res.tagIf(len(b.Trip) < len(a.Trip), "trips-combined")
	if len(b.Trip) > len(a.Trip) {
		res.Fail = failf("more-trips", "%d trips became %d", len(a.Trip), len(b.Trip))
		return
	}
	if res.Fail = uncombined(b, lo, hi, &res); res.Fail != nil {
		return
	}
	res.Fail = sameFeed(in, out.F, "trips", "stop_times", "frequencies", "attributions", "transfers")
	if res.Fail == nil {
		ta, tb := transferOffer(a, o), transferOffer(b, o)
		for k, m := range ta {
			for d, n := range m {
				if tb[k][d] < n {
					res.Fail = failf("transfer-lost", "transfer missing for journeys on %s: %s", dayStr(d/100000), k)
					return
				}
			}
		}
	}
	return
}

func genC16(r *Rng, th bool) *Case {
	o := swarm(r)
	o.Stops, o.Routes, o.Trips = r.R(2, 5), r.R(1, 3), r.R(2, 14)
	o.Services = r.R(1, 6)
	o.Dup = pick(r, .5, .8, .95)
	o.MaxDays = pick(r, 5, 10, 30)
	o.Freq = pick(r, 0, 0, .3)
	o.EmptySvc = pick(r, 0, .3)
	o.LongRange = 0
	f := genFeed(r, o)
	f.twins(r)
	if r.P(.1) {
		f.lookalike(r)
	}
	if r.P(.3) {
		f.adjTwins(r)
	}
	c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 4, 8), Args: []string{pick(r, "-I", "--remove-red-trips")}}
	if r.P(.3) {
		c.Args = append(c.Args, "--red-trips-fuzzy")
	}
	if r.P(.3) {
		c.Args = append(c.Args, "--red-trips-aggressive")
	}
	c.Args = append(c.Args, subset(r, []string{"-c", "-C", "-O", "-F"}, .25)...)
	if r.P(.1) {
		c.Args = append(c.Args, "--explicit-calendar")
	}
	return c
}

// adjTwins adds copies of trips that operate right after the original, with the same weekdays, one of the two without shape and measures.
func (f *Feed) adjTwins(r *Rng) {
	for n, t := range append([]Row(nil), f.T["trips"]...) {
		if !r.P(.4) || n > 8 {
			continue
		}
		sid := fmt.Sprintf("adj%d", n)
		mask := 1 + r.N(127)
		d0 := 45000 + r.N(300)
		for k, from := 0, d0; k < 2; k++ {
			x := Row{"service_id": sid + string(rune('a'+k))}
			for i, w := range []string{"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"} {
				x[w] = strconv.Itoa(mask >> i & 1)
			}
			n := r.R(7, 21)
			x["start_date"], x["end_date"] = dayStr(from), dayStr(from+n-1)
			if r.P(.5) {
				d := from + r.R(1, n-2)
				typ := "1"
				if mask>>int(epoch.AddDate(0, 0, d).Weekday())&1 == 1 {
					typ = "2"
				}
				f.T["calendar_dates"] = append(f.T["calendar_dates"], Row{"service_id": x["service_id"], "date": dayStr(d), "exception_type": typ})
			}
			f.T["calendar"] = append(f.T["calendar"], x)
			from += n
		}
		c := t.clone()
		c["trip_id"] = "adjtwin" + strconv.Itoa(len(f.T["trips"]))
		t["service_id"], c["service_id"] = sid+"a", sid+"b"
		bare := ""
		if t["shape_id"] != "" {
			bare = pick(r, "", t["trip_id"], c["trip_id"])
		}
		if bare == t["trip_id"] {
			delete(t, "shape_id")
		} else if bare != "" {
			delete(c, "shape_id")
		}
		if r.P(.3) { // the service is used by others too
			pickS(r, f.T["trips"])["service_id"] = pick(r, sid+"a", sid+"b")
		}
		f.T["trips"] = append(f.T["trips"], c)
		var sts []Row
		for _, s := range f.T["stop_times"] {
			if s["trip_id"] == t["trip_id"] {
				sts = append(sts, s)
			}
		}
		sort.SliceStable(sts, func(i, j int) bool {
			return atoi(sts[i]["stop_sequence"], 0) < atoi(sts[j]["stop_sequence"], 0)
		})
		for i, s := range sts {
			x := s.clone()
			x["trip_id"] = c["trip_id"]
			if bare != "" {
				for _, y := range []Row{s, x} {
					y["shape_dist_traveled"] = strconv.Itoa(3 + 10*i)
					if y["trip_id"] == bare {
						delete(y, "shape_dist_traveled")
					}
				}
			}
			f.T["stop_times"] = append(f.T["stop_times"], x)
		}
	}
}

// twins adds copies of trips that use another platform of the same station, other first arrival / last departure times, another service.
func (f *Feed) twins(r *Rng) {
	kids := map[string][]string{}
	par := map[string]string{}
	for _, s := range f.T["stops"] {
		if atoi(s["location_type"], 0) == 0 && s["parent_station"] != "" {
			kids[s["parent_station"]] = append(kids[s["parent_station"]], s["stop_id"])
			par[s["stop_id"]] = s["parent_station"]
		}
	}
	by := map[string][]Row{}
	for _, s := range f.T["stop_times"] {
		by[s["trip_id"]] = append(by[s["trip_id"]], s)
	}
	for _, x := range by {
		sort.SliceStable(x, func(i, j int) bool { return atoi(x[i]["stop_sequence"], 0) < atoi(x[j]["stop_sequence"], 0) })
	}
	var svcs []string
	for _, t := range f.T["trips"] {
		svcs = append(svcs, t["service_id"])
	}
	for _, t := range append([]Row(nil), f.T["trips"]...) {
		if !r.P(.3) {
			continue
		}
		c := t.clone()
		c["trip_id"] = "twin" + strconv.Itoa(len(f.T["trips"]))
		if r.P(.6) {
			c["service_id"] = pickS(r, svcs)
		}
		if r.P(.1) {
			c["route_id"] = pickS(r, f.T["routes"])["route_id"]
		}
		noDist := false
		if r.P(.2) {
			delete(c, "shape_id")
			noDist = r.P(.7)
		}
		f.T["trips"] = append(f.T["trips"], c)
		sts := by[t["trip_id"]]
		for i, s := range sts {
			x := s.clone()
			x["trip_id"] = c["trip_id"]
			if noDist {
				delete(x, "shape_dist_traveled")
			}
			if k := kids[par[x["stop_id"]]]; len(k) > 1 && r.P(.4) {
				x["stop_id"] = pickS(r, k)
			}
			if i == 0 && x["arrival_time"] != "" && len(sts) > 1 && r.P(.2) {
				x["arrival_time"] = fmtTime(parseTime(x["arrival_time"]) - 20)
			}
			if i == len(sts)-1 && len(sts) > 1 && x["arrival_time"] != "" && r.P(.2) {
				x["departure_time"] = fmtTime(parseTime(x["departure_time"]) + 20)
			}
			if i > 0 && i < len(sts)-1 && x["arrival_time"] != "" && r.P(.05) {
				x["departure_time"] = fmtTime(parseTime(x["departure_time"]) + 1)
			}
			f.T["stop_times"] = append(f.T["stop_times"], x)
		}
	}
}

func checkC16(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	in := c.Feeds[0]
	add := c.has("-F")
	if !add {
		in = stripAdd(in)
	}
	a, b := NewView(in), NewView(out.F)
	if res.Fail = closed(out.F); res.Fail != nil {
		return
	}
	fuzzy := c.has("--red-trips-fuzzy")
	o := JOpt{Coarse: true, Fuzzy: fuzzy, Add: add}
	for id, s := range a.ST {
		if len(s) == 1 && s[0].Arr != s[0].Dep && len(a.Freq[id]) == 0 {
			res.Invalid = true // the tool's notion of equal calls is not defined for them
			return
		}
	}
	if c.has("-O") { // trips without calls (or without any possibility to board or alight) are deleted, see C05
		a = dropUseless(a)
	}
	w, g := journeys(a, nil, o), journeys(b, nil, o)
	for _, m := range w.days {
		for _, n := range m {
			if n > 1 {
				res.NonTrivial = true
			}
		}
	}
	if res.Fail = sameOffer(w, g, true); res.Fail != nil {
		return
	}
	for k, m := range g.days {
		if strings.HasPrefix(k, "frequency trip") || strings.HasPrefix(k, "trip without calls") {
			continue
		}
		for d, n := range m {
			if n > 1 {
				res.Fail = failf("not-merged", "journey still offered %d times on %s: %s", n, dayStr(d), k)
				return
			}
		}
	}
	// remaining trips are input trips, apart from their service, a shape taken over and, in fuzzy mode, merged attributes
	size := map[string]int{}
	members := map[string][]string{}
	for _, id := range sortedKeys(a.Trip) {
		k := coarseKey(a, id, o)
		size[k]++
		members[k] = append(members[k], id)
	}
	for id, t := range b.Trip {
		s := a.Trip[id]
		if s == nil {
			res.Fail = failf("trip-invented", "trip %q is new", id)
			return
		}
		alone := size[coarseKey(a, id, o)] == 1 || len(a.Freq[id]) > 0
		omit := []string{"service_id"}
		if !alone {
			omit = append(omit, "shape_id")
			if fuzzy {
				omit = append(omit, "wheelchair_accessible", "bikes_allowed", "trip_headsign", "trip_short_name")
				if add {
					s, t = stdOnly("trips", s), stdOnly("trips", t)
				}
			}
			if s["shape_id"] != "" && t["shape_id"] != s["shape_id"] {
				res.Fail = failf("shape", "trip %q had shape %q, now %q", id, s["shape_id"], t["shape_id"])
				return
			}
		}
		if rowKey(s, omit...) != rowKey(t, omit...) {
			res.Fail = failf("trip-changed", "trip %q changed from %s to %s", id, rowKey(s), rowKey(t))
			return
		}
		om := []string{}
		if s["shape_id"] != t["shape_id"] {
			om = []string{"shape_dist_traveled"}
			// taken over, with the measures that belong to it
			measures := func(v *View, id string) (m string) {
				for _, x := range v.ST[id] {
					m += x.Row["shape_dist_traveled"] + " "
				}
				return
			}
			ok, have := false, measures(b, id)
			for _, m := range members[coarseKey(a, id, o)] {
				ok = ok || (a.Trip[m]["shape_id"] == t["shape_id"] && measures(a, m) == have)
			}
			if !ok {
				res.Fail = failf("shape", "trip %q: no equal trip has shape %q with the measures %s", id, t["shape_id"], have)
				return
			}
			res.tag("shape-taken-over")
		}
		x, y := a.ST[id], b.ST[id]
		if len(x) != len(y) {
			res.Fail = failf("calls", "trip %q had %d calls, now %d", id, len(x), len(y))
			return
		}
		for i := range x {
			if rowKey(x[i].Row, om...) != rowKey(y[i].Row, om...) {
				res.Fail = failf("calls", "trip %q: call %s is now %s", id, rowKey(x[i].Row), rowKey(y[i].Row))
				return
			}
		}
		if alone && a.Svc[s["service_id"]].DaysKey() != b.Svc[t["service_id"]].DaysKey() {
			res.Fail = failf("dates", "trip %q has no duplicate but changed its dates", id)
			return
		}
		if d := diffBag(rowBag(a.Freq[id]), rowBag(b.Freq[id])); d != "" {
			res.Fail = failf("frequencies", "trip %q: %s", id, d)
			return
		}
	}
	res.tagIf(len(b.Trip) < len(a.Trip), "trips-merged")
	// attributions of merged trips move to the trip left, those of other trips stay
	attr := func(v *View) map[string]int {
		m := map[string]int{}
		for _, x := range v.F.T["attributions"] {
			if id := x["trip_id"]; id != "" {
				if a.Trip[id] == nil {
					continue
				}
				m[rowKey(x, "trip_id")+" of "+coarseKey(a, id, o)]++
			} else {
				m[rowKey(x)]++
			}
		}
		return m
	}
	if d := diffBag(attr(a), attr(b)); d != "" && !c.has("-O") {
		res.Fail = failf("attributions", "attributions differ: %s", d)
		return
	}
	if !c.has("-O") { // transfers between trips that are left are left
		had, has := map[string]bool{}, map[string]bool{}
		for _, x := range b.F.T["transfers"] {
			has[rowKey(x)] = true
		}
		for _, x := range a.F.T["transfers"] {
			k := rowKey(x)
			had[k] = true
			if (x["from_trip_id"] == "" || b.Trip[x["from_trip_id"]] != nil) && (x["to_trip_id"] == "" || b.Trip[x["to_trip_id"]] != nil) && !has[k] {
				res.Fail = failf("transfers", "transfer lost: %s", k)
				return
			}
		}
		for k := range has {
			if !had[k] {
				res.Fail = failf("transfers", "transfer is new: %s", k)
				return
			}
		}
	}
	skip := []string{"trips", "stop_times", "calendar", "calendar_dates", "transfers", "attributions"}
	if c.has("-O") {
		skip = append(skip, "stops", "routes", "agency", "shapes", "levels", "fare_attributes", "fare_rules", "pathways", "frequencies")
	}
	res.Fail = sameFeed(in, out.F, skip...)
	return
}

func stdOnly(t string, r Row) Row {
	n := Row{}
	for c, x := range r {
		if stdColSet[t][c] {
			n[c] = x
		}
	}
	return n
}

// dropUseless: a view without the trips that orphan deletion removes.
func dropUseless(v *View) *View {
	w := *v
	w.Trip = map[string]Row{}
	for id, t := range v.Trip {
		pu, do := false, false
		for _, s := range v.ST[id] {
			rt := v.Route[t["route_id"]]
			pu = pu || s.Pu != 1 || s.CPu != 1 || atoi(rt["continuous_pickup"], 1) != 1
			do = do || s.Do != 1 || s.CDo != 1 || atoi(rt["continuous_drop_off"], 1) != 1
		}
		if pu && do {
			w.Trip[id] = t
		}
	}
	return &w
}

// lookalike renames some trips so that their ids look like those the processors make up for copies of other trips.
func (f *Feed) lookalike(r *Rng) {
	used := map[string]bool{}
	for _, t := range f.T["trips"] {
		used[t["trip_id"]] = true
	}
	ren := map[string]string{}
	var bases []string
	trips := append([]Row(nil), f.T["trips"]...)
	r.Shuffle(len(trips), func(i, j int) { trips[i], trips[j] = trips[j], trips[i] })
	p := pick(r, .3, .6, .8)
	for _, t := range trips {
		id := t["trip_id"]
		if len(bases) == 0 || !r.P(p) {
			bases = append(bases, id)
			continue
		}
		b := pickS(r, bases)
		if r.P(.5) {
			b = bases[0]
		}
		n := b + pick(r, "_2", "_2", "_2", "_3", "_4", "1", "2", ":Monday", ":Tuesday", ":Sunday", ":Monday (WW1)", ":2")
		if used[n] || len(n) > 80 {
			continue
		}
		used[n] = true
		ren[id] = n
	}
	for _, x := range []struct{ tab, col string }{{"trips", "trip_id"}, {"stop_times", "trip_id"}, {"frequencies", "trip_id"}, {"attributions", "trip_id"}, {"transfers", "from_trip_id"}, {"transfers", "to_trip_id"}} {
		for _, row := range f.T[x.tab] {
			if n, ok := ren[row[x.col]]; ok {
				row[x.col] = n
			}
		}
	}
}
