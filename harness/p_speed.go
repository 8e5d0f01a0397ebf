package main

import (
	"math"
	"sort"
	"strconv"
)

// C32: --drop-too-fast-trips

func init() {
	register(&Prop{ID: "C32", Quick: 4500, Thorough: 40000,
		Rule: "random feeds scaled to distances of metres to hundreds of kilometres, with run times chosen around the speed limit of the mode (0.2 to 5 times), equal times, missing times and all route types; --drop-too-fast-trips alone; non-trivial: at least one trip removed and one kept",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			o.Hier, o.Pathways = 0, 0
			o.MissTimes = pick(r, 0, .2, .5)
			f := genFeed(r, o)
			speedFeed(r, f)
			return &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 2, 8), Args: []string{"--drop-too-fast-trips"}}
		}, Check: checkC32})
}

var speedLimit = map[int]float64{0: 100, 1: 150, 2: 500, 3: 150, 4: 80, 5: 30, 6: 50, 7: 50, 11: 50, 12: 150}

func speedFeed(r *Rng, f *Feed) {
	ss := f.T["stops"]
	if len(ss) == 0 {
		return
	}
	la, lo := pf(ss[0]["stop_lat"]), pf(ss[0]["stop_lon"])
	k := pick(r, 1.0, 5, 10, 10, 20, 50, 100)
	pos := map[string]Row{}
	for _, s := range ss {
		if s["stop_lat"] != "" {
			s["stop_lat"] = strconv.FormatFloat(la+(pf(s["stop_lat"])-la)*k, 'f', 6, 64)
			s["stop_lon"] = strconv.FormatFloat(lo+(pf(s["stop_lon"])-lo)*k, 'f', 6, 64)
		}
		pos[s["stop_id"]] = s
	}
	typ := map[string]int{}
	for _, x := range f.T["routes"] {
		x["route_type"] = pick(r, "0", "1", "2", "3", "3", "4", "5", "6", "7", "11", "12", "109", "200", "401", "700", "900", "1000", "1300", "1400", "1700")
		typ[x["route_id"]] = basicType(atoi(x["route_type"], 0))
	}
	by := map[string][]Row{}
	for _, s := range f.T["stop_times"] {
		by[s["trip_id"]] = append(by[s["trip_id"]], s)
	}
	for _, t := range f.T["trips"] {
		sts := by[t["trip_id"]]
		if len(sts) == 0 || r.P(.1) {
			continue
		}
		sort.SliceStable(sts, func(i, j int) bool { return atoi(sts[i]["stop_sequence"], 0) < atoi(sts[j]["stop_sequence"], 0) })
		lim := speedLimit[typ[t["route_id"]]]
		at := r.N(24 * 3600)
		base := pick(r, .3, .5, .8, .9, .95)
		peak := pick(r, 0, .1, .3)
		for i, s := range sts {
			if i > 0 {
				d, _ := stopDist(pos[sts[i-1]["stop_id"]], pos[s["stop_id"]])
				v := lim * base
				if r.P(peak) {
					v = lim * pick(r, 1.02, 1.1, 1.3, 2, 5)
				}
				dt := int(math.Round(d / 1000 / v * 3600))
				if r.P(.05) || dt > 20*3600 {
					dt = pick(r, 0, 0, 30)
				}
				at += dt
			}
			if at > 95*3600 {
				at = 95 * 3600
			}
			dep := at
			if r.P(.3) {
				dep += pick(r, 10, 60, 300)
			}
			if s["arrival_time"] != "" {
				s["arrival_time"], s["departure_time"] = fmtTime(at), fmtTime(dep)
				at = dep
			}
		}
	}
}

// tooFast: 1 yes, 0 no, -1 on the border. Between timed calls with at least 10 km in between (7 km for calls with no other
// timed call at another time in between) the speed must not exceed the limit; equal times stand for one minute.
func tooFast(v *View, id string) int {
	lim, ok := speedLimit[basicType(atoi(v.Route[v.Trip[id]["route_id"]]["route_type"], 0))]
	if !ok {
		return 0
	}
	sts := v.ST[id]
	n := len(sts)
	cum := make([]float64, n)
	for i := 1; i < n; i++ {
		d, _ := stopDist(v.Stop[sts[i-1].Stop], v.Stop[sts[i].Stop])
		cum[i] = cum[i-1] + d
	}
	res := 0
	judge := func(i, j int, least float64) {
		d, dt := cum[j]-cum[i], sts[j].Arr-sts[i].Dep
		if dt == 0 {
			dt = 60
		}
		sp := d / 1000 / (float64(dt) / 3600)
		if dt < 0 {
			res = max(res, 0)
			return
		}
		if d > least*1.005 && sp > lim*1.005 {
			res = 1
		} else if d > least*.995 && sp > lim*.995 && res == 0 {
			res = -1
		}
	}
	last := -1
	for j := range sts {
		if sts[j].Arr < 0 {
			continue
		}
		if last < 0 {
			last = j
			continue
		}
		judge(last, j, 7000)
		if sts[j].Arr != sts[last].Dep {
			last = j
		}
		for i := 0; i < j; i++ {
			if sts[i].Arr >= 0 {
				judge(i, j, 10000)
			}
		}
	}
	return res
}

func checkC32(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	a, b := NewView(stripAdd(c.Feeds[0])), NewView(out.F)
	want := a.F.Clone()
	gone, kept := 0, 0
	for _, id := range sortedKeys(a.Trip) {
		tf := tooFast(a, id)
		_, has := b.Trip[id]
		if tf == 1 && has {
			res.Fail = failf("kept", "trip %q of route type %s is too fast and was kept: %s", id, a.Route[a.Trip[id]["route_id"]]["route_type"], speeds(a, id))
			return
		}
		if tf == 0 && !has {
			res.Fail = failf("removed", "trip %q of route type %s is not too fast and was removed: %s", id, a.Route[a.Trip[id]["route_id"]]["route_type"], speeds(a, id))
			return
		}
		res.tagIf(tf < 0, "border")
		if has {
			kept++
		} else {
			gone++
			want.dropTrip(id)
		}
	}
	res.NonTrivial = gone > 0 && kept > 0
	res.Fail = sameFeed(want, b.F)
	return
}

func speeds(v *View, id string) string {
	s := ""
	for i, x := range v.ST[id] {
		if i > 0 {
			d, _ := stopDist(v.Stop[v.ST[id][i-1].Stop], v.Stop[x.Stop])
			s += " -" + strconv.Itoa(int(d)) + "m- "
		}
		s += "[" + fmtTime(x.Arr) + " " + fmtTime(x.Dep) + "]"
	}
	return s
}
