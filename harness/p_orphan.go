package main

func init() {
	register(&Prop{ID: "C05", Quick: 4000, Thorough: 60000,
		Rule: "random feeds with unused trips, stops (three-level hierarchies, entrances, nodes), shapes, services, routes, agencies, transfers and pathways; -O; the whole output is compared with a reference model; in a third of the cases together with processors that merge or delete, after which nothing unreferenced may remain; non-trivial: at least one entity had to be removed and at least one trip stays",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			o.Orphans = pick(r, .3, .8)
			o.Hier = pick(r, 0, .5, .9)
			o.Trips = r.R(1, 6)
			f := genFeed(r, o)
			// make more entities useless
			v := NewView(f)
			for _, t := range append([]Row(nil), f.T["trips"]...) {
				if r.P(.2) {
					f.dropTrip(t["trip_id"])
				} else if r.P(.2) {
					col, def := "pickup_type", r.P(.3)
					if r.P(.5) {
						col = "drop_off_type"
					}
					for _, s := range f.T["stop_times"] {
						if s["trip_id"] == t["trip_id"] {
							s[col] = "1"
						}
					}
					if def && len(v.ST[t["trip_id"]]) > 0 {
						for _, s := range f.T["stop_times"] {
							if s["trip_id"] == t["trip_id"] {
								s["continuous_"+map[string]string{"pickup_type": "pickup", "drop_off_type": "drop_off"}[col]] = pick(r, "1", "", "0", "2")
								break
							}
						}
					}
				}
			}
			if r.P(.3) && len(f.T["pathways"]) > 0 {
				f.T["pathways"] = f.T["pathways"][:r.N(len(f.T["pathways"]))]
			}
			c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 4), Args: []string{pick(r, "-O", "--delete-orphans")}}
			if r.P(.3) {
				c.Args = append(c.Args, "-F")
			}
			if r.P(.3) { // processors that merge or delete things
				if r.P(.5) {
					f.twins(r)
				}
				if r.P(.4) {
					c.Feeds[0] = snapFeed(r, false)
				}
				c.Meta = map[string]string{"others": "1"}
				c.Args = append(c.Args, subset(r, []string{"--snap-stops", "-I", "-P", "-A", "-R", "-S", "-C", "-c", "-s", "-m", "-r", "-T", "--red-trips-fuzzy", "--red-stops-fuzzy", "--drop-too-fast-trips"}, .3)...)
				r.Shuffle(len(c.Args), func(i, j int) { c.Args[i], c.Args[j] = c.Args[j], c.Args[i] })
			}
			return c
		}, Check: checkC05})
}

// dropTrip deletes the calls of a trip or the whole trip.
func (f *Feed) dropTrip(id string) {
	for t, cols := range map[string][]string{"trips": {"trip_id"}, "stop_times": {"trip_id"}, "frequencies": {"trip_id"}, "attributions": {"trip_id"}, "transfers": {"from_trip_id", "to_trip_id"}} {
		var keep []Row
	row:
		for _, r := range f.T[t] {
			for _, c := range cols {
				if r[c] == id {
					continue row
				}
			}
			keep = append(keep, r)
		}
		f.T[t] = keep
	}
}

// orphanModel: what a feed looks like without its orphans.
func orphanModel(in *Feed) *Feed {
	v := NewView(in)
	w := dropUseless(v)
	out := v.F.Clone()
	filter := func(t string, ok func(r Row) bool) {
		var keep []Row
		for _, r := range out.T[t] {
			if ok(r) {
				keep = append(keep, r)
			}
		}
		out.T[t] = keep
	}
	trip := func(r Row) bool { return w.Trip[r["trip_id"]] != nil }
	filter("trips", trip)
	filter("stop_times", trip)
	filter("frequencies", trip)
	usedStop, usedRoute, usedShape, usedSvc := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	for id, t := range w.Trip {
		usedRoute[t["route_id"]] = true
		usedShape[t["shape_id"]] = true
		usedSvc[t["service_id"]] = true
		for _, s := range v.ST[id] {
			for x := s.Stop; x != ""; x = v.Stop[x]["parent_station"] {
				usedStop[x] = true
			}
		}
	}
	filter("transfers", func(r Row) bool {
		for _, s := range []string{"from", "to"} {
			if x := r[s+"_stop_id"]; x != "" && !usedStop[x] {
				return false
			}
			if x := r[s+"_route_id"]; x != "" && !usedRoute[x] {
				return false
			}
			if x := r[s+"_trip_id"]; x != "" && w.Trip[x] == nil {
				return false
			}
		}
		return true
	})
	keep := map[string]bool{}
	mark := func(id string) {
		for ; id != "" && !keep[id]; id = v.Stop[id]["parent_station"] {
			keep[id] = true
		}
	}
	for _, r := range out.T["stop_times"] {
		mark(r["stop_id"])
	}
	for _, t := range []string{"transfers", "pathways"} {
		for _, r := range out.T[t] {
			mark(r["from_stop_id"])
			mark(r["to_stop_id"])
		}
	}
	for _, r := range out.T["stops"] {
		if r["location_type"] == "2" {
			mark(r["stop_id"])
		}
	}
	filter("stops", func(r Row) bool { return keep[r["stop_id"]] })
	filter("shapes", func(r Row) bool { return usedShape[r["shape_id"]] })
	filter("calendar", func(r Row) bool { return usedSvc[r["service_id"]] })
	filter("calendar_dates", func(r Row) bool { return usedSvc[r["service_id"]] })
	ag := map[string]bool{}
	for _, r := range out.T["fare_rules"] {
		usedRoute[r["route_id"]] = true
	}
	filter("routes", func(r Row) bool { return usedRoute[r["route_id"]] })
	for _, r := range out.T["routes"] {
		ag[r["agency_id"]] = true
	}
	for _, r := range in.T["fare_attributes"] {
		if r["agency_id"] != "" {
			ag[r["agency_id"]] = true
		}
	}
	filter("agency", func(r Row) bool { return ag[r["agency_id"]] })
	for _, r := range out.T["fare_attributes"] {
		if !ag[r["agency_id"]] {
			delete(r, "agency_id")
		}
	}
	filter("attributions", func(r Row) bool {
		if x := r["trip_id"]; x != "" && w.Trip[x] == nil {
			return false
		}
		if x := r["route_id"]; x != "" && !usedRoute[x] {
			return false
		}
		if x := r["agency_id"]; x != "" && !ag[x] {
			return false
		}
		return true
	})
	return out
}

func checkC05(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	in := c.Feeds[0]
	if !c.has("-F") {
		in = stripAdd(in)
	}
	if c.Meta["others"] != "" { // nothing that is unreferenced in the end remains
		if res.Fail = closed(out.F); res.Fail != nil {
			return
		}
		want := orphanModel(out.F)
		res.tag("others")
		res.NonTrivial = len(out.F.T["trips"]) > 0 && len(out.F.T["stops"]) < len(in.T["stops"])
		res.Fail = sameFeed(want, out.F)
		return
	}
	want := orphanModel(in)
	n := in.Norm()
	for _, t := range tableOrder {
		if len(want.T[t]) < len(n.T[t]) {
			res.tag("removed-" + t)
			res.NonTrivial = len(want.T["trips"]) > 0
		}
	}
	if res.Fail = closed(out.F); res.Fail != nil {
		return
	}
	res.Fail = sameFeed(want, out.F)
	return
}
