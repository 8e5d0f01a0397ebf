package main

import (
	"fmt"
	"math"
	"slices"
	"strconv"
	"strings"
)

// svcFeed: feeds with many services and small rest.
func svcFeed(r *Rng, n int) *Feed {
	o := swarm(r)
	o.Stops, o.Routes, o.Trips = r.R(2, 4), r.R(1, 2), r.R(2, 8)
	o.Services = n
	o.Dup = pick(r, 0, .3, .6, .8)
	o.EmptySvc = pick(r, 0, .2, .4)
	o.LongRange = pick(r, 0, 0, .15)
	o.MaxDays = pick(r, 7, 14, 30, 60, 120)
	if r.P(.6) {
		o.Shapes, o.Pathways, o.Hier, o.Attr, o.Fares = 0, 0, 0, 0, 0
	}
	return genFeed(r, o)
}

// longTwins makes two services equal over a long range, but for one date of it at most.
func (f *Feed) longTwins(r *Rng) {
	cal := f.T["calendar"]
	if len(cal) < 2 {
		return
	}
	p := r.Perm(len(cal))
	x, y := cal[p[0]], cal[p[1]]
	idx, idy := x["service_id"], y["service_id"]
	d0, n := r.R(44900, 45200), pick(r, 70, 260, 300, 530, r.R(100, 1100))
	x["start_date"], x["end_date"] = dayStr(d0), dayStr(d0+n)
	for c, v := range x {
		if c != "service_id" && !strings.HasPrefix(c, "x_") {
			y[c] = v
		}
	}
	var k []Row
	for _, z := range f.T["calendar_dates"] {
		if z["service_id"] != idx && z["service_id"] != idy {
			k = append(k, z)
		}
	}
	exc := func(id string, d int) {
		k = append(k, Row{"service_id": id, "date": dayStr(d), "exception_type": pick(r, "1", "2", "2")})
	}
	if r.P(.4) { // in both
		d := d0 + r.N(n)
		exc(idx, d)
		k = append(k, k[len(k)-1].clone())
		k[len(k)-1]["service_id"] = idy
	} else if r.P(.8) {
		exc(idy, d0+n-r.N(n/2))
	} else {
		exc(idy, d0+r.N(n))
	}
	f.T["calendar_dates"] = k
	if len(f.Cols["calendar_dates"]) > 0 {
		for _, cc := range []string{"service_id", "date", "exception_type"} {
			if !slices.Contains(f.Cols["calendar_dates"], cc) {
				f.Cols["calendar_dates"] = append(f.Cols["calendar_dates"], cc)
			}
		}
	}
}

// farDate adds a date long before or after the regular dates of a service.
func (f *Feed) farDate(r *Rng) {
	if len(f.T["calendar"]) == 0 {
		return
	}
	x := pickS(r, f.T["calendar"])
	d := dayNum(x["end_date"]) + pick(r, 20, 200, 360, 370, 450, r.R(300, 900))
	if r.P(.4) {
		d = dayNum(x["start_date"]) - pick(r, 20, 200, 360, 370, 450, r.R(300, 900))
	}
	if d < 30000 || d > 70000 {
		return
	}
	if len(f.T["calendar_dates"]) == 0 {
		f.Cols["calendar_dates"] = []string{"service_id", "date", "exception_type"}
	}
	for _, y := range f.T["calendar_dates"] {
		if y["service_id"] == x["service_id"] && y["date"] == dayStr(d) {
			return
		}
	}
	f.T["calendar_dates"] = append(f.T["calendar_dates"], Row{"service_id": x["service_id"], "date": dayStr(d), "exception_type": "1"})
}

// late rewrites a service: single dates, then a regular period long after them (or before).
func (f *Feed) late(r *Rng) {
	if len(f.T["calendar_dates"]) == 0 {
		return
	}
	id := pickS(r, f.T["calendar_dates"])["service_id"]
	for _, x := range f.T["calendar"] {
		if x["service_id"] == id {
			return
		}
	}
	var k []Row
	for _, y := range f.T["calendar_dates"] {
		if y["service_id"] != id {
			k = append(k, y)
		}
	}
	d0, gap := r.R(45000, 45300), pick(r, 30, 200, r.R(360, 380), 500, r.R(600, 740))
	if r.P(.4) {
		gap = -gap
	}
	days := []int{d0}
	if r.P(.4) {
		days = append(days, d0+r.R(1, 9))
	}
	mask, from := 1+r.N(127), d0+gap
	if r.P(.3) {
		mask = 127
	}
	for d := from; d < from+7*r.R(2, 8); d++ {
		if mask>>int(epoch.AddDate(0, 0, d).Weekday())&1 == 1 && !slices.Contains(days, d) {
			days = append(days, d)
		}
	}
	for _, d := range days {
		k = append(k, Row{"service_id": id, "date": dayStr(d), "exception_type": "1"})
	}
	f.T["calendar_dates"] = k
}

// seasons rewrites services: a pattern over a short range in the calendar, other patterns before and after it by exceptions.
func (f *Feed) seasons(r *Rng) {
	wds := []string{"sunday", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday"}
	for _, x := range f.T["calendar"] {
		if !r.P(.6) {
			continue
		}
		id := x["service_id"]
		var k []Row
		for _, y := range f.T["calendar_dates"] {
			if y["service_id"] != id {
				k = append(k, y)
			}
		}
		d0 := r.R(45000, 45700)
		mask := 1 + r.N(127)
		for i, w := range wds {
			x[w] = strconv.Itoa(mask >> i & 1)
		}
		n := r.R(1, 21)
		x["start_date"], x["end_date"] = dayStr(d0), dayStr(d0+n-1)
		seen := map[int]bool{}
		exc := func(d int, on bool) {
			typ := "2"
			if on {
				typ = "1"
			}
			if !seen[d] {
				seen[d] = true
				k = append(k, Row{"service_id": id, "date": dayStr(d), "exception_type": typ})
			}
		}
		for j := r.R(1, 2); j > 0; j-- {
			m2 := 1 << r.N(7)
			if r.P(.4) {
				m2 = 1 + r.N(127)
			}
			from, wk := d0+n+r.N(8), r.R(1, 16)
			if r.P(.3) {
				from = d0 - wk*7 - r.N(8)
			}
			for d := from; d < from+wk*7; d++ {
				on := m2>>int(epoch.AddDate(0, 0, d).Weekday())&1 == 1
				if (d < d0 || d >= d0+n) && on != r.P(.05) {
					exc(d, true)
				}
			}
		}
		if r.P(.3) {
			for d := d0; d < d0+n; d++ {
				if r.P(.15) {
					exc(d, r.P(.5))
				}
			}
		}
		f.T["calendar_dates"] = k
		if len(f.Cols["calendar_dates"]) > 0 {
			for _, cc := range []string{"service_id", "date", "exception_type"} {
				if !slices.Contains(f.Cols["calendar_dates"], cc) {
					f.Cols["calendar_dates"] = append(f.Cols["calendar_dates"], cc)
				}
			}
		}
	}
}

func init() {
	register(&Prop{ID: "C06", Quick: 3500, Thorough: 30000,
		Rule: "random feeds with up to 8 services (weekly patterns, ranges up to 800 days, added/removed/redundant exceptions, exception-only, empty services); -c alone or with options that do not touch dates; non-trivial: at least one service changed its representation",
		Gen: func(r *Rng, th bool) *Case {
			c := &Case{Feeds: []*Feed{svcFeed(r, r.R(1, 8))}, Procs: pick(r, 1, 1, 2, 4, 8), Args: []string{pick(r, "-c", "--minimize-services")}}
			if r.P(.4) {
				c.Feeds[0].seasons(r)
			}
			if r.P(.08) {
				c.Feeds[0].late(r)
			}
			if r.P(.1) {
				c.Args = append(c.Args, "--explicit-calendar")
			}
			if r.P(.1) {
				c.Args = append(c.Args, "--keep-col-order")
			}
			return c
		}, Check: checkC06})
	register(&Prop{ID: "C07", Quick: 3500, Thorough: 30000,
		Rule: "random feeds with up to 8 services, many of them near-duplicates (same dates written differently, one date more or less, shifted by a week or a year); non-trivial: at least two services with equal dates, or two whose dates differ in one date",
		Gen: func(r *Rng, th bool) *Case {
			f := svcFeed(r, r.R(2, 8))
			if r.P(.25) {
				f.longTwins(r)
			}
			return &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 4, 8), Args: []string{pick(r, "-C", "--remove-red-services")}}
		}, Check: checkC07})
}

func svcRows(s *Svc) int {
	n := len(s.Exc)
	m := false
	for _, x := range s.Mask {
		m = m || x
	}
	if s.HasCal && m {
		n++
	}
	if n == 0 {
		n = 1
	}
	return n
}

// restSame: all tables except the service tables are unchanged (trips modulo service_id).
func restSame(in, out *Feed, omitTrip ...string) *Fail {
	w, g := in.Norm(), out.Norm()
	for _, t := range tableOrder {
		if t == "calendar" || t == "calendar_dates" {
			continue
		}
		var om []string
		if t == "trips" {
			om = omitTrip
		}
		if d := diffBag(rowBag(w.T[t], om...), rowBag(g.T[t], om...)); d != "" {
			return failf("diff-"+t, "%s differs: %s", t, d)
		}
	}
	return nil
}

func dayList(ds []int) string {
	s := ""
	for i, d := range ds {
		if i == 12 {
			return s + fmt.Sprintf("... (%d)", len(ds))
		}
		s += dayStr(d) + " "
	}
	return s
}

func checkC06(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	in := stripAdd(c.Feeds[0])
	a, b := NewView(in), NewView(out.F)
	if len(b.Dups) > 0 {
		res.Fail = failf("duplicate-id", "%v", b.Dups)
		return
	}
	grown := 0
	for id, s := range a.Svc {
		t := b.Svc[id]
		if t == nil {
			res.Fail = failf("service-lost", "service %q is missing in the output", id)
			return
		}
		if s.DaysKey() != t.DaysKey() {
			res.Fail = failf("dates", "service %q operated on %s before and on %s after", id, dayList(s.Days), dayList(t.Days))
			return
		}
		if svcRows(t) > svcRows(s) && !c.has("--explicit-calendar") {
			res.Fail = failf("grows", "service %q: %d rows before, %d after (dates %s)", id, svcRows(s), svcRows(t), dayList(s.Days))
			return
		}
		if n := fewestExc(s.Days); len(s.Exc) > 0 && svcRows(t) > n+1 {
			res.Fail = failf("not-optimal", "service %q: %d rows, but whole weeks need only %d exceptions (dates %s); before: %v from %s to %s and %d exceptions", id, svcRows(t), n, dayList(s.Days), s.Mask, dayStr(s.Start), dayStr(s.End), len(s.Exc))
			return
		}
		if len(s.Exc) != len(t.Exc) || s.Mask != t.Mask {
			res.NonTrivial = true
			grown++
		}
		res.tagIf(len(s.Days) == 0, "empty-service")
		res.tagIf(len(s.Days) > 0 && s.Days[len(s.Days)-1]-s.Days[0] > 250, "long-range")
		res.tagIf(!s.HasCal, "exception-only")
		res.tagIf(s.HasCal && len(s.Exc) > 0, "mixed")
	}
	for id := range b.Svc {
		if a.Svc[id] == nil {
			res.Fail = failf("service-invented", "service %q is new", id)
			return
		}
	}
	res.tagIf(grown > 0, "representation-changed")
	res.Fail = restSame(in, out.F)
	return
}

// fewestExc: the number of exceptions needed with the best non-empty weekday pattern over the best range of whole weeks (Sunday to
// Saturday, cut off at the first and last day).
func fewestExc(days []int) int {
	if len(days) == 0 {
		return 0
	}
	first, last := days[0], days[len(days)-1]
	wd := func(d int) int { return int(epoch.AddDate(0, 0, d).Weekday()) }
	s0 := first - wd(first)
	nw := (last-s0)/7 + 1
	act := map[int]bool{}
	for _, d := range days {
		act[d] = true
	}
	best := math.MaxInt
	for a := 0; a < nw; a++ {
		var on, tot [7]int
		in := 0
		for b := a; b < nw; b++ {
			for d := s0 + 7*b; d < s0+7*b+7; d++ {
				if d >= first && d <= last {
					tot[d-s0-7*b]++
					if act[d] {
						on[d-s0-7*b]++
						in++
					}
				}
			}
			n, used, least := len(days)-in, false, math.MaxInt
			for k := 0; k < 7; k++ {
				if x := tot[k] - on[k]; x < on[k] {
					n += x
					used = true
				} else {
					n += on[k]
					least = min(least, x-on[k])
				}
			}
			if !used {
				n += least
			}
			best = min(best, n)
		}
	}
	return best
}

func checkC07(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	in := stripAdd(c.Feeds[0])
	a, b := NewView(in), NewView(out.F)
	if len(b.Dups) > 0 {
		res.Fail = failf("duplicate-id", "%v", b.Dups)
		return
	}
	classes := map[string]int{}
	for _, s := range a.Svc {
		classes[s.DaysKey()]++
	}
	for k, n := range classes {
		res.tagIf(n > 1, "equal-services")
		res.tagIf(n > 1 && k == "", "equal-empty-services")
		if n > 1 {
			res.NonTrivial = true
		}
	}
	var ks []*Svc
	for _, s := range a.Svc {
		ks = append(ks, s)
	}
	for i := range ks {
		for j := 0; j < i; j++ {
			if n := symDiff(ks[i].Days, ks[j].Days); n == 1 {
				res.NonTrivial = true
				res.tag("one-date-apart")
			}
		}
	}
	seen := map[string]string{}
	for id, s := range b.Svc {
		o := a.Svc[id]
		if o == nil {
			res.Fail = failf("service-invented", "service %q is new", id)
			return
		}
		if o.DaysKey() != s.DaysKey() {
			res.Fail = failf("dates", "service %q operated on %s before and on %s after", id, dayList(o.Days), dayList(s.Days))
			return
		}
		k := s.DaysKey()
		if p, ok := seen[k]; ok && k != "" {
			res.Fail = failf("not-merged", "services %q and %q operate on the same dates %s", p, id, dayList(s.Days))
			return
		}
		seen[k] = id
		delete(classes, k)
	}
	for k := range classes {
		if k != "" {
			res.Fail = failf("service-lost", "no service operates on the dates of an input service any more (%d dates)", len(k))
			return
		}
	}
	for id, t := range a.Trip {
		u := b.Trip[id]
		if u == nil {
			res.Fail = failf("trip-lost", "trip %q is missing", id)
			return
		}
		x, y := a.Svc[t["service_id"]], b.Svc[u["service_id"]]
		if y == nil || x.DaysKey() != y.DaysKey() {
			res.Fail = failf("trip-dates", "trip %q operated on %s before, now service %q", id, dayList(x.Days), u["service_id"])
			return
		}
	}
	res.Fail = restSame(in, out.F, "service_id")
	return
}

func symDiff(a, b []int) int {
	m := map[int]int{}
	for _, d := range a {
		m[d] |= 1
	}
	for _, d := range b {
		m[d] |= 2
	}
	n := 0
	for _, x := range m {
		if x != 3 {
			n++
		}
	}
	return n
}
