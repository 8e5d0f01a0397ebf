package main

import (
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C26", Quick: 5000, Thorough: 40000,
		Rule: "random feeds with one or more bounding boxes, polygons (convex, concave, open or closed rings, either orientation), polygon text files and GeoJSON files (several features, multi polygons, holes) placed around and across the stops; the reference model (own even-odd point in polygon test) says which stops, calls and trips remain; cases with a stop or shape point within 1e-5 degrees of a border are not judged; non-trivial: some but not all calls are inside",
		Gen:  genC26, Check: checkC26})
	register(&Prop{ID: "C27", Quick: 5000, Thorough: 40000,
		Rule: "random feeds with random date ranges (also one-sided, single days, empty intersections) and/or -M/-N mode lists; the reference model restricts the dates of each service and drops the trips without dates and the routes of unwanted modes; non-trivial: something is filtered and something remains",
		Gen:  genC27, Check: checkC27})
}

type ring [][2]float64 // lat, lon

type area struct {
	outer ring
	holes []ring
}

func inRing(g ring, la, lo float64) bool {
	in := false
	for i := range g {
		a, b := g[i], g[(i+1)%len(g)]
		if (a[0] > la) != (b[0] > la) && lo < (b[1]-a[1])*(la-a[0])/(b[0]-a[0])+a[1] {
			in = !in
		}
	}
	return in
}

func (a area) contains(la, lo float64) bool {
	if !inRing(a.outer, la, lo) {
		return false
	}
	for _, h := range a.holes {
		if inRing(h, la, lo) {
			return false
		}
	}
	return true
}

// border distance in degrees
func (a area) border(la, lo float64) float64 {
	m := math.Inf(1)
	for _, g := range append([]ring{a.outer}, a.holes...) {
		for i := range g {
			p, q := g[i], g[(i+1)%len(g)]
			dx, dy := q[1]-p[1], q[0]-p[0]
			t := 0.0
			if l := dx*dx + dy*dy; l > 0 {
				t = math.Max(0, math.Min(1, ((lo-p[1])*dx+(la-p[0])*dy)/l))
			}
			m = math.Min(m, math.Hypot(lo-p[1]-t*dx, la-p[0]-t*dy))
		}
	}
	return m
}

func randRing(r *Rng, x0, y0, x1, y1 float64) ring {
	cx, cy := x0+r.Float64()*(x1-x0), y0+r.Float64()*(y1-y0)
	rx, ry := (x1-x0)*(.1+.6*r.Float64()), (y1-y0)*(.1+.6*r.Float64())
	if r.P(.2) {
		rx, ry = (x1-x0)*2, (y1-y0)*2
	}
	n := r.R(3, 9)
	var g ring
	for i := 0; i < n; i++ {
		w := 2 * math.Pi * float64(i) / float64(n)
		k := 1.0
		if r.P(.4) {
			k = .3 + .7*r.Float64() // star shaped, possibly concave
		}
		g = append(g, [2]float64{round6(cy + k*ry*math.Sin(w)), round6(cx + k*rx*math.Cos(w))})
	}
	if r.P(.5) {
		for i, j := 0, len(g)-1; i < j; i, j = i+1, j-1 {
			g[i], g[j] = g[j], g[i]
		}
	}
	return g
}

func round6(v float64) float64 {
	x, _ := strconv.ParseFloat(ff(v), 64)
	return x
}

func shrinkRing(g ring, k float64) ring {
	var cx, cy float64
	for _, p := range g {
		cy += p[0] / float64(len(g))
		cx += p[1] / float64(len(g))
	}
	var h ring
	for _, p := range g {
		h = append(h, [2]float64{round6(cy + k*(p[0]-cy)), round6(cx + k*(p[1]-cx))})
	}
	return h
}

func ringText(r *Rng, g ring, sep string) string {
	var s []string
	for _, p := range g {
		s = append(s, ff(p[0]), ff(p[1]))
	}
	if r.P(.4) {
		s = append(s, ff(g[0][0]), ff(g[0][1]))
	}
	return strings.Join(s, sep)
}

func ringJSON(g ring) [][2]float64 {
	var o [][2]float64
	for _, p := range g {
		o = append(o, [2]float64{p[1], p[0]})
	}
	return append(o, o[0])
}

func genC26(r *Rng, th bool) *Case {
	o := swarm(r)
	o.Hier = pick(r, 0, 0, .3, .6)
	o.Pathways = pick(r, 0, 0, 1.0)
	o.Stops = r.R(4, 9)
	f := genFeed(r, o)
	c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 2), Aux: map[string]string{}, Meta: map[string]string{}}
	x0, y0, x1, y1 := feedBox(f)
	x0, y0, x1, y1 = x0-.001, y0-.001, x1+.001, y1+.001
	var areas []area
	for k := pick(r, 1, 1, 1, 2, 3); k > 0; k-- {
		switch r.N(6) {
		case 0, 1: // bounding box, opposite corners in any order
			a := [2]float64{round6(y0 + r.Float64()*(y1-y0)*.6), round6(x0 + r.Float64()*(x1-x0)*.6)}
			b := [2]float64{round6(a[0] + (y1-a[0])*(.2+r.Float64())), round6(a[1] + (x1-a[1])*(.2+r.Float64()))}
			areas = append(areas, area{outer: ring{a, {a[0], b[1]}, b, {b[0], a[1]}}})
			if r.P(.3) {
				a, b = [2]float64{a[0], b[1]}, [2]float64{b[0], a[1]}
			}
			if r.P(.3) {
				a, b = b, a
			}
			c.Args = append(c.Args, "--bounding-box", ff(a[0])+","+ff(a[1])+pick(r, ",", ", ")+ff(b[0])+","+ff(b[1]))
		case 2, 3:
			g := randRing(r, x0, y0, x1, y1)
			areas = append(areas, area{outer: g})
			c.Args = append(c.Args, "--polygon", ringText(r, g, pick(r, ",", ", ")))
		case 4:
			g := randRing(r, x0, y0, x1, y1)
			areas = append(areas, area{outer: g})
			n := fmt.Sprintf("p%d.txt", len(c.Aux))
			c.Aux[n] = ringText(r, g, pick(r, ",", ",\n", ",\n\n", "\n,")) + pick(r, "", "\n")
			c.Args = append(c.Args, "--polygon-file", "@aux/"+n)
		case 5:
			var feats []any
			for i := r.R(1, 3); i > 0; i-- {
				mk := func() [][][2]float64 {
					g := randRing(r, x0, y0, x1, y1)
					a := area{outer: g}
					p := [][][2]float64{ringJSON(g)}
					if r.P(.4) {
						h := shrinkRing(g, .2+.5*r.Float64())
						a.holes = append(a.holes, h)
						p = append(p, ringJSON(h))
					} else if r.P(.6) { // several disjoint holes, around stops
						type disc struct{ la, lo, rad float64 }
						var ds []disc
						for _, s := range f.T["stops"] {
							if s["stop_lat"] == "" || len(ds) > 3 {
								continue
							}
							d := disc{pf(s["stop_lat"]), pf(s["stop_lon"]), (x1 - x0 + y1 - y0) * (.01 + .1*r.Float64())}
							n, w0, ok := r.R(3, 8), r.Float64()*6.28, a.contains(d.la, d.lo)
							for _, e := range ds {
								ok = ok && math.Hypot(d.la-e.la, d.lo-e.lo) > d.rad+e.rad
							}
							var h ring
							for i := 0; i < n; i++ {
								w := w0 + 2*math.Pi*float64(i)/float64(n)
								h = append(h, [2]float64{round6(d.la + d.rad*math.Sin(w)), round6(d.lo + d.rad*math.Cos(w))})
								ok = ok && inRing(g, h[i][0], h[i][1])
							}
							if ok {
								ds = append(ds, d)
								a.holes = append(a.holes, h)
								p = append(p, ringJSON(h))
							}
						}
						if len(ds) > 1 {
							c.Meta["holes"] = "1"
						}
					}
					areas = append(areas, a)
					return p
				}
				var geo any
				if r.P(.4) {
					var ps []any
					for j := r.R(1, 2); j > 0; j-- {
						ps = append(ps, mk())
					}
					geo = map[string]any{"type": "MultiPolygon", "coordinates": ps}
				} else {
					geo = map[string]any{"type": "Polygon", "coordinates": mk()}
				}
				feats = append(feats, map[string]any{"type": "Feature", "properties": map[string]any{}, "geometry": geo})
			}
			if r.P(.2) {
				feats = append(feats, map[string]any{"type": "Feature", "properties": map[string]any{}, "geometry": map[string]any{"type": "Point", "coordinates": []float64{x0, y0}}})
			}
			b, _ := json.Marshal(map[string]any{"type": "FeatureCollection", "features": feats})
			n := fmt.Sprintf("p%d.%s", len(c.Aux), pick(r, "json", "geojson"))
			c.Aux[n] = string(b)
			c.Args = append(c.Args, "--polygon-file", "@aux/"+n)
		}
	}
	b, _ := json.Marshal(areasJSON(areas))
	c.Meta["areas"] = string(b)
	if r.P(.5) {
		c.Args = append(c.Args, "--complete-filtered-trips")
	}
	if r.P(.4) {
		c.Args = append(c.Args, "-F")
	}
	return c
}

func areasJSON(as []area) (o [][]ring) {
	for _, a := range as {
		o = append(o, append([]ring{a.outer}, a.holes...))
	}
	return
}

func checkC26(e *Env, c *Case) (res Res) {
	var aj [][]ring
	json.Unmarshal([]byte(c.Meta["areas"]), &aj)
	var areas []area
	for _, x := range aj {
		areas = append(areas, area{x[0], x[1:]})
	}
	in := c.Feeds[0]
	if !c.has("-F") {
		in = stripAdd(in)
	}
	inside := func(t, pre string, row Row) (in, sure bool) {
		if row[pre+"lat"] == "" {
			return true, true // no position: nothing to filter by
		}
		la, lo := float64(float32(pf(row[pre+"lat"]))), float64(float32(pf(row[pre+"lon"])))
		for _, a := range areas {
			if a.border(la, lo) < 2e-5 {
				return false, false
			}
			in = in || a.contains(la, lo)
		}
		return in, true
	}
	complete := c.has("--complete-filtered-trips")
	inStop := map[string]bool{}
	for _, s := range in.T["stops"] {
		x, sure := inside("stops", "stop_", s)
		if !sure {
			res.Invalid = true
			return
		}
		inStop[s["stop_id"]] = x
	}
	want := in.Norm()
	filter := func(t string, keep func(r Row) bool) {
		var k []Row
		for _, r := range want.T[t] {
			if keep(r) {
				k = append(k, r)
			}
		}
		want.T[t] = k
	}
	v := NewView(in)
	nIn, nOut := 0, 0
	for _, s := range in.T["stop_times"] {
		if inStop[s["stop_id"]] {
			nIn++
		} else {
			nOut++
		}
	}
	nopos := map[string]bool{}
	if complete {
		keepTrip := map[string]bool{}
		for _, s := range in.T["stop_times"] {
			if inStop[s["stop_id"]] {
				keepTrip[s["trip_id"]] = true
			}
		}
		keepStop := map[string]bool{}
		up := func(id string) {
			for n := 0; id != "" && n < 5; n++ {
				keepStop[id] = true
				id = v.Stop[id]["parent_station"]
			}
		}
		for id, x := range inStop {
			if x && v.Stop[id]["stop_lat"] == "" {
				nopos[id] = true
			}
			if x {
				up(id)
			}
		}
		for _, s := range in.T["stop_times"] {
			if keepTrip[s["trip_id"]] {
				up(s["stop_id"])
			}
		}
		byTrip := func(r Row) bool { return keepTrip[r["trip_id"]] }
		filter("trips", byTrip)
		filter("stop_times", byTrip)
		filter("frequencies", byTrip)
		filter("attributions", func(r Row) bool { return r["trip_id"] == "" || keepTrip[r["trip_id"]] })
		filter("stops", func(r Row) bool { return keepStop[r["stop_id"]] })
		filter("pathways", func(r Row) bool { return keepStop[r["from_stop_id"]] && keepStop[r["to_stop_id"]] })
		filter("transfers", func(r Row) bool {
			for _, p := range []string{"from_", "to_"} {
				if s := r[p+"stop_id"]; s != "" && !keepStop[s] {
					return false
				}
				if t := r[p+"trip_id"]; t != "" && !keepTrip[t] {
					return false
				}
			}
			return true
		})
	} else {
		hasShape := map[string]bool{}
		var sure bool = true
		filter("shapes", func(r Row) bool {
			x, s := inside("shapes", "shape_pt_", r)
			sure = sure && s
			if x {
				hasShape[r["shape_id"]] = true
			}
			return x
		})
		if !sure {
			res.Invalid = true
			return
		}
		filter("stops", func(r Row) bool { return inStop[r["stop_id"]] })
		for _, s := range want.T["stops"] {
			if p := s["parent_station"]; p != "" && !inStop[p] {
				if atoi(s["location_type"], 0) > 1 {
					res.Invalid = true // rejected by the parser library, see known_findings.txt
					res.tag("known-finding:filter")
					return
				}
				delete(s, "parent_station")
			}
		}
		for _, t := range want.T["trips"] {
			if s := t["shape_id"]; s != "" && !hasShape[s] {
				delete(t, "shape_id")
			}
		}
		filter("stop_times", func(r Row) bool { return inStop[r["stop_id"]] })
		filter("pathways", func(r Row) bool { return inStop[r["from_stop_id"]] && inStop[r["to_stop_id"]] })
		filter("transfers", func(r Row) bool {
			return (r["from_stop_id"] == "" || inStop[r["from_stop_id"]]) && (r["to_stop_id"] == "" || inStop[r["to_stop_id"]])
		})
	}
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	for _, a := range c.Args {
		if strings.HasPrefix(a, "--") {
			res.tag(a)
		}
	}
	for n := range c.Aux {
		res.tagIf(strings.HasSuffix(n, "json"), "geojson")
	}
	res.tagIf(c.Meta["holes"] != "", "several-holes")
	res.tagIf(nIn == 0, "nothing-inside")
	res.tagIf(nOut == 0, "all-inside")
	res.NonTrivial = nIn > 0 && nOut > 0
	got := out.F
	res.Fail = sameFeed(want, got)
	return
}

func genC27(r *Rng, th bool) *Case {
	o := swarm(r)
	o.Services = r.R(1, 6)
	o.EmptySvc = pick(r, 0, .3)
	mot := r.P(.45)
	if mot { // the parser library rejects these, see known_findings.txt
		o.NoTripTransfers = true
		o.Transfers = pick(r, 0, 0, 1.0)
	}
	f := genFeed(r, o)
	c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 2)}
	if !mot || r.P(.3) {
		for len(c.Args) == 0 {
			c.Args = dateArgs(r, f)
			if lo, hi := feedDays(f); r.P(.2) && hi >= 0 { // bounds on dates of the feed
				a := lo + r.N(hi-lo+1)
				c.Args = []string{"--date-start", dayStr(a), "--date-end", dayStr(min(hi, a+pick(r, 0, 0, 1, 6)))}
			}
			if _, hi := feedDays(f); hi < 0 {
				break
			}
		}
	}
	if mot {
		var ms []string
		for _, x := range f.T["routes"] {
			if r.P(.5) {
				ms = append(ms, x["route_type"])
			}
		}
		ms = append(ms, pick(r, "3", "1702", "0", "2"))
		r.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
		if r.P(.25) { // empty elements and blanks mean nothing
			for k := r.R(1, 3); k > 0; k-- {
				i := r.N(len(ms) + 1)
				ms = append(ms[:i:i], append([]string{pick(r, "", " ")}, ms[i:]...)...)
			}
		}
		c.Args = append(c.Args, pick(r, "-M", "-N", "--keep-mots", "--drop-mots"), strings.Join(ms, pick(r, ",", ", ", " ,")))
		if r.P(.15) {
			c.Args = append(c.Args, pick(r, "-M", "-N"), pick(r, "3", "0,1,2"))
		}
		// references the parser library cannot resolve after filtering
		if r.P(.8) {
			drop := func(t string, cols ...string) {
				var k []Row
				for _, x := range f.T[t] {
					ok := true
					for _, cc := range cols {
						ok = ok && x[cc] == ""
					}
					if ok {
						k = append(k, x)
					}
				}
				f.T[t] = k
			}
			drop("transfers", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id")
			drop("fare_rules", "route_id")
		}
	}
	if r.P(.4) {
		c.Args = append(c.Args, "-F")
	}
	return c
}

func lastArg(c *Case, names ...string) string {
	v := ""
	for i, a := range c.Args {
		for _, n := range names {
			if a == n && i+1 < len(c.Args) {
				v = c.Args[i+1]
			}
		}
	}
	return v
}

func motSet(s string) map[int]bool {
	m := map[int]bool{}
	for _, x := range strings.Split(s, ",") {
		if x = strings.TrimSpace(x); x != "" {
			m[atoi(x, -1)] = true
		}
	}
	return m
}

func checkC27(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		if parserFilterDefect(c, f) {
			res.Invalid = true
			res.tag("known-finding:filter")
			return
		}
		res.judge(c, f)
		return
	}
	in := c.Feeds[0]
	if !c.has("-F") {
		in = stripAdd(in)
	}
	lo, hi := 0, 1<<30
	if s := lastArg(c, "--date-start"); s != "" {
		lo = dayNum(s)
	}
	if s := lastArg(c, "--date-end"); s != "" {
		hi = dayNum(s)
	}
	dates := lo > 0 || hi < 1<<30
	pos, neg := motSet(lastArg(c, "-M", "--keep-mots")), motSet(lastArg(c, "-N", "--drop-mots"))
	want := in.Norm()
	filter := func(t string, keep func(r Row) bool) {
		var k []Row
		for _, r := range want.T[t] {
			if keep(r) {
				k = append(k, r)
			}
		}
		want.T[t] = k
	}
	v := NewView(in)
	route := map[string]bool{}
	for id, r := range v.Route {
		t := atoi(r["route_type"], -1)
		route[id] = (len(pos) == 0 || pos[t]) && !neg[t]
	}
	days := map[string][]int{}
	for id, s := range v.Svc {
		for _, d := range s.Days {
			if d >= lo && d <= hi {
				days[id] = append(days[id], d)
			}
		}
	}
	trip := map[string]bool{}
	for id, t := range v.Trip {
		trip[id] = route[t["route_id"]] && (!dates || len(days[t["service_id"]]) > 0)
	}
	filter("routes", func(r Row) bool { return route[r["route_id"]] })
	byTrip := func(r Row) bool { return trip[r["trip_id"]] }
	filter("trips", byTrip)
	filter("stop_times", byTrip)
	filter("frequencies", byTrip)
	filter("fare_rules", func(r Row) bool { return r["route_id"] == "" || route[r["route_id"]] })
	ref := func(r Row, p string) bool {
		if x := r[p+"route_id"]; x != "" && !route[x] {
			return false
		}
		if x := r[p+"trip_id"]; x != "" && !trip[x] {
			return false
		}
		return true
	}
	filter("attributions", func(r Row) bool { return ref(r, "") })
	filter("transfers", func(r Row) bool { return ref(r, "from_") && ref(r, "to_") })
	if res.Fail = sameFeed(want, out.F, "calendar", "calendar_dates"); res.Fail != nil {
		return
	}
	g := NewView(out.F)
	for id := range v.Svc {
		var got []int
		if s := g.Svc[id]; s != nil {
			got = s.Days
		}
		if a, b := fmt.Sprint(days[id]), fmt.Sprint(got); a != b {
			res.Fail = failf("dates", "service %q runs on %s, expected %s", id, dayList(got), dayList(days[id]))
			return
		}
	}
	for id, s := range g.Svc {
		if v.Svc[id] == nil {
			res.Fail = failf("new-service", "service %q is not in the input", id)
			return
		}
		if dates {
			// nothing outside the range, not even a cancelled date
			for d := range s.Exc {
				if d < lo || d > hi {
					res.Fail = failf("outside", "service %q has an exception on %s, outside of the range", id, dayStr(d))
					return
				}
			}
		}
	}
	if !dates {
		if res.Fail = sameFeed(want, out.F); res.Fail != nil {
			return
		}
	}
	res.tagIf(dates, "dates")
	res.tagIf(len(pos) > 0, "keep-mots")
	res.tagIf(len(neg) > 0, "drop-mots")
	res.NonTrivial = len(want.T["trips"]) > 0 && (len(want.T["trips"]) < len(in.T["trips"]) || len(want.T["routes"]) < len(in.T["routes"]))
	if dates && !res.NonTrivial && len(want.T["trips"]) > 0 {
		for id, s := range v.Svc {
			res.NonTrivial = res.NonTrivial || len(s.Days) != len(days[id])
		}
	}
	return
}
