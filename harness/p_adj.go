package main

import (
	"fmt"
	"sort"
	"strconv"
)

// C29: --group-adj-stop-times

// adjRuns inserts runs of calls at the same place into trips.
func adjRuns(r *Rng, f *Feed) {
	by := map[string][]Row{}
	var ids []string
	for _, s := range f.T["stop_times"] {
		t := s["trip_id"]
		if by[t] == nil {
			ids = append(ids, t)
		}
		by[t] = append(by[t], s)
	}
	var rows []Row
	for _, t := range ids {
		sts := by[t]
		sort.SliceStable(sts, func(i, j int) bool { return atoi(sts[i]["stop_sequence"], 0) < atoi(sts[j]["stop_sequence"], 0) })
		if r.P(.2) {
			rows = append(rows, sts...)
			continue
		}
		var out []Row
		for i, s := range sts {
			out = append(out, s)
			if !r.P(.35) {
				continue
			}
			if r.P(.7) && s["departure_time"] != "" {
				s["departure_time"] = s["arrival_time"]
			}
			end := -1 // next arrival
			for _, n := range sts[i+1:] {
				if x := parseTime(n["arrival_time"]); x >= 0 {
					end = x
					break
				}
			}
			at := parseTime(s["departure_time"])
			for k := pick(r, 1, 1, 2, 3); k > 0; k-- {
				c := s.clone()
				if at >= 0 {
					step := pick(r, 0, 0, 30, 60, 120)
					if end >= 0 && at+step > end {
						step = end - at
					}
					arr := at + step
					dep := arr
					if d := pick(r, 0, 0, 0, 20); end < 0 || arr+d <= end {
						dep = arr + d
					}
					at = dep
					c["arrival_time"], c["departure_time"] = fmtTime(arr), fmtTime(dep)
					// untimed calls between timed ones
					if k > 1 && r.P(.1) {
						delete(c, "arrival_time")
						delete(c, "departure_time")
						delete(c, "timepoint")
					}
				}
				for _, col := range []string{"pickup_type", "drop_off_type"} {
					if r.P(.5) {
						c[col] = pick(r, "0", "1", "2", "3")
					}
				}
				if r.P(.12) {
					c["continuous_pickup"] = pick(r, "0", "1", "2", "3")
				}
				if r.P(.12) {
					c["continuous_drop_off"] = pick(r, "0", "1", "2", "3")
				}
				if r.P(.06) && c["arrival_time"] != "" {
					c["timepoint"] = pick(r, "0", "1")
				}
				if d := c["shape_dist_traveled"]; d != "" && r.P(.15) {
					nd := pf(d) + pick(r, .001, 1, 5)
					if i+1 < len(sts) {
						if x := sts[i+1]["shape_dist_traveled"]; x != "" && pf(x) < nd {
							nd = pf(x)
						}
					}
					c["shape_dist_traveled"] = strconv.FormatFloat(nd, 'f', -1, 64)
				} else if r.P(.05) {
					delete(c, "shape_dist_traveled")
				}
				if r.P(.1) { // another stop in between
					c["stop_id"] = pickS(r, sts)["stop_id"]
				}
				out = append(out, c)
			}
		}
		// measures never decrease
		m := -1.0
		for _, s := range out {
			if d := s["shape_dist_traveled"]; d != "" {
				if pf(d) < m {
					s["shape_dist_traveled"] = strconv.FormatFloat(m, 'f', -1, 64)
				}
				m = pf(s["shape_dist_traveled"])
			}
		}
		n := r.N(3)
		for _, s := range out {
			s["stop_sequence"] = strconv.Itoa(n)
			n += pick(r, 1, 1, 1, 3)
		}
		// the first and the last call are timed
		rows = append(rows, out...)
	}
	f.T["stop_times"] = rows
}

func init() {
	register(&Prop{ID: "C29", Quick: 4000, Thorough: 40000,
		Rule: "random feeds with runs of 2-5 consecutive calls at one stop inserted into trips, with equal and different times, waiting times, boarding and alighting rules, continuous rules, measures and missing times; --group-adj-stop-times alone; non-trivial: at least one run was combined",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			o.Pathways, o.Levels = 0, 0
			f := genFeed(r, o)
			adjRuns(r, f)
			return &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 2, 8), Args: []string{"--group-adj-stop-times"}}
		}, Check: checkC29})
}

func sameDist(a, b float64) bool { return (a != a && b != b) || float32(a) == float32(b) }

func stStr(s ST) string {
	return fmt.Sprintf("[%s arr=%s dep=%s pu=%d do=%d cpu=%d cdo=%d exact=%v dist=%v]", s.Stop, fmtTime(s.Arr), fmtTime(s.Dep), s.Pu, s.Do, s.CPu, s.CDo, s.TP, float32(s.Dist))
}

// groupCalls: the reference model of grouping.
func groupCalls(in []ST) (out []ST, grouped int) {
	same := func(a, b ST) bool {
		return a.Stop == b.Stop && a.Arr == a.Dep && b.Arr == b.Dep && (a.Arr < 0) == (b.Arr < 0) && sameDist(a.Dist, b.Dist) &&
			a.CPu == b.CPu && a.CDo == b.CDo && a.TP == b.TP
	}
	for i, s := range in {
		if i > 0 && same(in[i-1], s) {
			l := &out[len(out)-1]
			l.Dep, l.Pu = s.Dep, s.Pu
			grouped++
			continue
		}
		out = append(out, s)
	}
	return
}

func sameCall(a, b ST) bool {
	return a.Stop == b.Stop && a.Arr == b.Arr && a.Dep == b.Dep && a.Pu == b.Pu && a.Do == b.Do && a.CPu == b.CPu && a.CDo == b.CDo && a.TP == b.TP && sameDist(a.Dist, b.Dist)
}

func checkC29(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	a, b := NewView(stripAdd(c.Feeds[0])), NewView(out.F)
	for id := range a.Trip {
		want, n := groupCalls(a.ST[id])
		got := b.ST[id]
		if n > 0 {
			res.NonTrivial = true
		}
		res.tagIf(n > 2, "long-runs")
		if len(want) != len(got) {
			res.Fail = failf("calls", "trip %q has %d calls, expected %d of %d: %s", id, len(got), len(want), len(a.ST[id]), stList(a.ST[id]))
			return
		}
		for i := range want {
			if !sameCall(want[i], got[i]) {
				res.Fail = failf("call", "trip %q: call %d is %s, expected %s; input %s", id, i, stStr(got[i]), stStr(want[i]), stList(a.ST[id]))
				return
			}
			if i > 0 && got[i].Seq <= got[i-1].Seq {
				res.Fail = failf("sequence", "trip %q: sequence numbers do not increase", id)
				return
			}
		}
	}
	res.Fail = sameFeed(a.F, b.F, "stop_times")
	return
}

func stList(in []ST) string {
	s := ""
	for _, x := range in {
		s += stStr(x) + " "
	}
	return s
}
