package main

import (
	"math"
	"regexp"
	"slices"
	"strconv"
	"strings"
)

// C30 (-E) and C31 (--ensure-stop-parents, --fix-far-away-parents, --drop-platform-for-parentless)

func init() {
	register(&Prop{ID: "C31", Quick: 4500, Thorough: 40000,
		Rule: "random feeds with stop hierarchies of up to three levels, children 1-400 m away from their parents, missing positions and platform codes, with each non-empty subset of the three options; non-trivial: a parent was created or moved or a platform code dropped",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			o.Hier = pick(r, 0.0, .3, .8, 1)
			f := genFeed(r, o)
			moveStops(r, f, .4)
			if r.P(.3) { // ids that collide with generated ones
				f.parIDs(r)
			}
			args := subset(r, []string{"--ensure-stop-parents", "--fix-far-away-parents", "--drop-platform-for-parentless"}, .4)
			if len(args) == 0 {
				args = []string{pick(r, "--ensure-stop-parents", "--fix-far-away-parents", "--drop-platform-for-parentless")}
			}
			return &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 2, 8), Args: args}
		}, Check: checkC31})
	register(&Prop{ID: "C30", Quick: 3500, Thorough: 30000,
		Rule: "random feeds with stations, parentless stops, entrances, nodes and boarding areas at distances of 0-400 m with equal, similar, different and token-free names; -E alone; non-trivial: two places of the input were grouped",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			o.Hier = pick(r, 0.0, .3, .8)
			o.Stops = r.R(2, 9)
			f := genFeed(r, o)
			moveStops(r, f, .3)
			clusterStops(r, f)
			if r.P(.4) {
				twinStations(r, f)
			}
			if r.P(.3) {
				f.parIDs(r)
			}
			return &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 2, 8), Args: []string{pick(r, "-E", "--recluster-stops")}}
		}, Check: checkC30})
}

// shift moves a stop by some metres.
func shift(s Row, dx, dy float64) {
	if s["stop_lat"] == "" {
		return
	}
	la, lo := pf(s["stop_lat"]), pf(s["stop_lon"])
	s["stop_lat"] = strconv.FormatFloat(la+dy/mPerLat, 'f', 6, 64)
	s["stop_lon"] = strconv.FormatFloat(lo+dx/(mPerLat*math.Cos(la*math.Pi/180)), 'f', 6, 64)
}

// twinStations adds copies of stations and of a stop of each next to the originals, with transfers within and between them.
func twinStations(r *Rng, f *Feed) {
	var sts []Row
	for _, s := range f.T["stops"] {
		if s["location_type"] == "1" {
			sts = append(sts, s)
		}
	}
	for i, s := range sts {
		if i > 1 || r.P(.3) {
			continue
		}
		x := s.clone()
		x["stop_id"] = freeID(f, "tw"+strconv.Itoa(i))
		shift(x, pick(r, 0.0, 1, 5, 20, 40), 0)
		ends := []string{s["stop_id"], x["stop_id"]}
		add := []Row{x}
		for _, c := range f.T["stops"] {
			if c["parent_station"] == s["stop_id"] && (c["location_type"] == "" || c["location_type"] == "0") {
				y := c.clone()
				y["stop_id"], y["parent_station"] = freeID(f, "tc"+strconv.Itoa(i)), x["stop_id"]
				shift(y, pick(r, 0.0, 1, 5, 20), 0)
				add = append(add, y)
				ends = append(ends, c["stop_id"], y["stop_id"])
				break
			}
		}
		f.T["stops"] = append(f.T["stops"], add...)
		for k := r.R(0, 4); k > 0; k-- {
			a, b := pickS(r, ends), pickS(r, ends)
			if r.P(.4) {
				a = pickS(r, ends[:2])
				b = a
			}
			have := false
			for _, t := range f.T["transfers"] {
				have = have || (t["from_stop_id"] == a && t["to_stop_id"] == b)
			}
			if !have {
				f.addRow("transfers", Row{"from_stop_id": a, "to_stop_id": b, "transfer_type": "2", "min_transfer_time": strconv.Itoa(60 * r.R(1, 9))})
			}
		}
	}
}

// freeID: an id no stop has.
func freeID(f *Feed, base string) string {
	for n := 0; ; n++ {
		id := base
		if n > 0 {
			id += "_" + strconv.Itoa(n)
		}
		used := false
		for _, s := range f.T["stops"] {
			used = used || s["stop_id"] == id
		}
		if !used {
			return id
		}
	}
}

// addRow adds a row to a table, and columns to it as needed.
func (f *Feed) addRow(t string, x Row) {
	f.T[t] = append(f.T[t], x)
	if len(f.Cols[t]) > 0 {
		for _, c := range sortedKeys(x) {
			if !slices.Contains(f.Cols[t], c) {
				f.Cols[t] = append(f.Cols[t], c)
			}
		}
	}
}

func moveStops(r *Rng, f *Feed, p float64) {
	for _, s := range f.T["stops"] {
		if r.P(p) {
			d, a := pick(r, 5.0, 40, 60, 70, 80, 90, 95, 105, 120, 180, 250, 400), r.Float64()*2*math.Pi
			shift(s, d*math.Cos(a), d*math.Sin(a))
		}
	}
}

// parIDs renames a stop so that its id is the one a created parent of another stop would get.
func (f *Feed) parIDs(r *Rng) {
	ss := f.T["stops"]
	if len(ss) < 2 {
		return
	}
	p := r.Perm(len(ss))
	old, nid := ss[p[0]]["stop_id"], "par::"+ss[p[1]]["stop_id"]
	for _, s := range ss {
		if s["stop_id"] == nid {
			return
		}
	}
	for t, rows := range f.T {
		for _, x := range rows {
			for _, c := range []string{"stop_id", "parent_station", "from_stop_id", "to_stop_id"} {
				if x[c] == old && (t == "stops" || t == "stop_times" || t == "transfers" || t == "pathways") {
					x[c] = nid
				}
			}
		}
	}
}

func stopPos(s Row) (lat, lon float64, ok bool) {
	if s["stop_lat"] == "" || s["stop_lon"] == "" {
		return 0, 0, false
	}
	return float64(float32(pf(s["stop_lat"]))), float64(float32(pf(s["stop_lon"]))), true
}

func stopDist(a, b Row) (float64, bool) {
	la, lo, ok1 := stopPos(a)
	lb, lob, ok2 := stopPos(b)
	if !ok1 || !ok2 {
		return 0, false
	}
	return havers(la, lo, lb, lob), true
}

// farParents returns, per parent with a far away child, the position it has to move to; maybe: borderline cases.
func farParents(v *View) (move map[string][2]float64, maybe map[string]bool) {
	move, maybe = map[string][2]float64{}, map[string]bool{}
	kids := map[string][]Row{}
	for _, s := range v.Stop {
		if p := s["parent_station"]; p != "" {
			kids[p] = append(kids[p], s)
		}
	}
	for p, cs := range kids {
		var la, lo, n float64
		far := -1 // 0 borderline 1 far
		for _, c := range cs {
			if x, y, ok := stopPos(c); ok {
				la, lo, n = la+x, lo+y, n+1
				if d, ok := stopDist(c, v.Stop[p]); ok && d > 99.5 {
					if d > 100.5 {
						far = 1
					} else if far < 0 {
						far = 0
					}
				}
			}
		}
		if far < 0 {
			continue
		}
		la, lo = la/n, lo/n
		fits := true
		for _, c := range cs {
			if x, y, ok := stopPos(c); ok {
				d := havers(la, lo, x, y)
				if d > 100.5 {
					fits = false
					break
				} else if d > 99.5 {
					far = 0
				}
			}
		}
		if !fits {
			continue
		}
		move[p] = [2]float64{la, lo}
		maybe[p] = far == 0
	}
	return
}

func near2(a, b float64) bool { return math.Abs(a-b) <= 3e-7*math.Max(math.Abs(a), 1)+2e-7 }

func checkC31(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	a, b := NewView(stripAdd(c.Feeds[0])), NewView(out.F)
	ensure, fix, drop := c.has("--ensure-stop-parents"), c.has("--fix-far-away-parents"), c.has("--drop-platform-for-parentless")
	if len(b.Dups) > 0 {
		res.Fail = failf("duplicate-id", "%v", b.Dups)
		return
	}
	move, maybe := map[string][2]float64{}, map[string]bool{}
	if fix {
		move, maybe = farParents(a)
	}
	for _, id := range sortedKeys(a.Stop) {
		s, t := a.Stop[id], b.Stop[id]
		if t == nil {
			res.Fail = failf("stop-lost", "stop %q is missing", id)
			return
		}
		w := s.clone()
		if drop && s["parent_station"] == "" && s["platform_code"] != "" {
			delete(w, "platform_code")
			res.NonTrivial = true
			res.tag("platform-code")
		}
		om := []string{"stop_lat", "stop_lon"}
		added := ensure && s["parent_station"] == "" && (s["location_type"] == "" || s["location_type"] == "0")
		if added {
			om = append(om, "parent_station")
			p := b.Stop[t["parent_station"]]
			if p == nil || a.Stop[t["parent_station"]] != nil {
				res.Fail = failf("no-parent", "stop %q has no new parent station: %s", id, rowKey(t))
				return
			}
			if p["location_type"] != "1" || p["parent_station"] != "" {
				res.Fail = failf("no-station", "the new parent of stop %q is not a station: %s", id, rowKey(p))
				return
			}
			for _, col := range []string{"stop_name", "stop_lat", "stop_lon"} {
				if p[col] != t[col] {
					res.Fail = failf("parent-"+col, "the new parent of stop %q has another %s: %s", id, col, rowKey(p))
					return
				}
			}
			res.NonTrivial = true
			res.tag("new-parent")
		}
		if x, y := rowKey(w, om...), rowKey(t, om...); x != y {
			res.Fail = failf("stop-changed", "stop %q is {%s}, expected {%s}", id, y, x)
			return
		}
		pos := s["stop_lat"] == t["stop_lat"] && s["stop_lon"] == t["stop_lon"]
		if m, ok := move[id]; ok {
			la, lo, has := stopPos(t)
			moved := has && near2(la, m[0]) && near2(lo, m[1])
			if !moved && !(maybe[id] && pos) {
				res.Fail = failf("not-moved", "parent %q is at %v,%v, expected the mean %v of its children", id, t["stop_lat"], t["stop_lon"], m)
				return
			}
			res.NonTrivial = true
			res.tag("moved")
		} else if !pos {
			res.Fail = failf("moved", "stop %q moved from %s,%s to %s,%s", id, s["stop_lat"], s["stop_lon"], t["stop_lat"], t["stop_lon"])
			return
		}
	}
	for _, id := range sortedKeys(b.Stop) {
		if a.Stop[id] != nil {
			continue
		}
		n := 0
		for x, t := range b.Stop {
			if t["parent_station"] == id && a.Stop[x] != nil && a.Stop[x]["parent_station"] == "" {
				n++
			}
		}
		if n == 0 || !ensure {
			res.Fail = failf("stop-invented", "stop %q is new and no parent of a stop that had none", id)
			return
		}
	}
	res.Fail = sameFeed(a.F, b.F, "stops")
	return
}

// ---- C30 ----

var clusterNames = []string{"Main St", "Main St Platform", "Main", "Oak Ave", "Oak", "St Oak Main", "12", "--", "Main St.", "MAIN ST", "Central Station North", "Central Station South"}

// clusterStops puts stops close to each other and varies names.
func clusterStops(r *Rng, f *Feed) {
	ss := f.T["stops"]
	for i, s := range ss {
		if i > 0 && r.P(.4) && s["stop_lat"] != "" {
			q := pickS(r, ss[:i])
			if q["stop_lat"] != "" {
				s["stop_lat"], s["stop_lon"] = q["stop_lat"], q["stop_lon"]
				d, a := pick(r, 0.0, 1, 10, 30, 50, 60, 65, 70, 72, 76, 80, 100, 200), r.Float64()*2*math.Pi
				shift(s, d*math.Cos(a), d*math.Sin(a))
				if r.P(.6) && q["stop_name"] != "" {
					s["stop_name"] = q["stop_name"]
				}
			}
		}
		if r.P(.25) && s["stop_name"] != "" {
			s["stop_name"] = pickS(r, clusterNames)
		}
	}
}

var nonLetter = regexp.MustCompile(`[^\pL]`)

// similarity of stops as documented: closeness (0.5 at the threshold of 75 m) times similarity of the names.
type simi struct {
	v   *View
	idf map[string]float64
	vec map[string]map[string]float64
}

func newSimi(v *View) *simi {
	s := &simi{v: v, idf: map[string]float64{}, vec: map[string]map[string]float64{}}
	for id, st := range v.Stop {
		m := map[string]float64{}
		for _, t := range nonLetter.Split(strings.ToUpper(st["stop_name"]), -1) {
			if t != "" {
				m[t]++
			}
		}
		for t := range m {
			s.idf[t]++
		}
		s.vec[id] = m
	}
	for t, n := range s.idf {
		s.idf[t] = math.Log(float64(len(v.Stop)) / n)
	}
	for _, m := range s.vec {
		for t := range m {
			m[t] *= s.idf[t]
		}
	}
	return s
}

func (s *simi) names(a, b string) float64 {
	va, vb := s.vec[a], s.vec[b]
	if len(va) == 0 || len(vb) == 0 {
		return 1
	}
	var p, x, y float64
	for t, w := range va {
		p += w * vb[t]
		x += w * w
	}
	for _, w := range vb {
		y += w * w
	}
	c := 0.0
	if x == 0 || y == 0 {
		if x == y {
			c = 1
		}
	} else {
		c = p / math.Sqrt(x*y)
	}
	if c > .55 {
		return .5 + (c-.55)/(2*(1-.55))
	}
	return c / (2 * .55)
}

func (s *simi) stops(a, b string) (float64, bool) {
	d, ok := stopDist(s.v.Stop[a], s.v.Stop[b])
	if !ok {
		return 0, false
	}
	return (.5 - .5*math.Tanh((d-75)/(75*.25))) * s.names(a, b), true
}

// reusedStations returns the stations that were merged into others and whose ids then were given to created stations: all of
// their members are somewhere else, and there are others instead.
func reusedStations(a, b *View) map[string]bool {
	ret := map[string]bool{}
	for id, s := range a.Stop {
		t := b.Stop[id]
		if t == nil || s["location_type"] != "1" || rowKey(s) == rowKey(t) {
			continue
		}
		stay, kids := false, 0
		for x := range b.Stop {
			if x != id && stationOf(b, x) == id {
				kids++
				stay = stay || a.Stop[x] == nil || stationOf(a, x) == id
			}
		}
		if !stay && kids > 1 {
			ret[id] = true
		}
	}
	return ret
}

func checkC30(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	a, b := NewView(stripAdd(c.Feeds[0])), NewView(out.F)
	if len(b.Dups) > 0 {
		res.Fail = failf("duplicate-id", "%v", b.Dups)
		return
	}
	if reused := reusedStations(a, b); len(reused) > 0 {
		f := out.F.Clone()
		for _, s := range f.T["stops"] {
			for _, k := range []string{"stop_id", "parent_station"} {
				if reused[s[k]] {
					s[k] = "new station " + s[k]
				}
			}
		}
		b = NewView(f)
		res.tag("id-reused")
	}
	// places of the input: a station or parentless stop with everything below it
	place := map[string]string{}
	members := map[string][]string{}
	for _, id := range sortedKeys(a.Stop) {
		place[id] = stationOf(a, id)
		members[place[id]] = append(members[place[id]], id)
	}
	// stations that disappeared
	gone := map[string]bool{}
	for _, id := range sortedKeys(a.Stop) {
		s, t := a.Stop[id], b.Stop[id]
		if t == nil {
			if s["location_type"] != "1" {
				res.Fail = failf("stop-lost", "stop %q is missing", id)
				return
			}
			gone[id] = true
			continue
		}
		om := []string{}
		switch s["location_type"] {
		case "", "0", "2", "3":
			om = append(om, "parent_station")
		}
		if x, y := rowKey(s, om...), rowKey(t, om...); x != y {
			res.Fail = failf("stop-changed", "stop %q is {%s}, was {%s}", id, y, x)
			return
		}
		if p := t["parent_station"]; len(om) > 0 && p != "" && b.Stop[p]["location_type"] != "1" {
			res.Fail = failf("parent-no-station", "the parent of stop %q is no station: %s", id, rowKey(b.Stop[p]))
			return
		}
		if s["parent_station"] != "" && t["parent_station"] == "" {
			res.Fail = failf("parent-lost", "stop %q lost its parent", id)
			return
		}
	}
	// new groups
	group := map[string]string{} // input place -> output place
	for _, id := range sortedKeys(a.Stop) {
		if gone[id] {
			continue
		}
		p, g := place[id], stationOf(b, id)
		if x, ok := group[p]; ok && x != g {
			res.Fail = failf("split", "the stops of place %q are at %q and at %q afterwards", p, x, g)
			return
		}
		group[p] = g
	}
	// a station without remaining members: find its place by transfers (below); it must have had no child
	sim := newSimi(a)
	// linked: pairs of places that may be grouped
	par := map[string]string{}
	var find func(string) string
	find = func(x string) string {
		if par[x] == "" || par[x] == x {
			return x
		}
		par[x] = find(par[x])
		return par[x]
	}
	ps := sortedKeys(members)
	for i, p := range ps {
		for _, q := range ps[:i] {
			for _, x := range members[p] {
				for _, y := range members[q] {
					if w, ok := sim.stops(x, y); ok && w >= .5-.02 {
						par[find(p)] = find(q)
					}
				}
			}
		}
	}
	inGroup := map[string][]string{}
	for _, p := range ps {
		if g, ok := group[p]; ok {
			inGroup[g] = append(inGroup[g], p)
		} else if len(members[p]) > 1 {
			res.Fail = failf("station-lost", "station %q with members is missing", p)
			return
		}
	}
	for g, m := range inGroup {
		for _, p := range m[1:] {
			res.NonTrivial = true
			if find(p) != find(m[0]) {
				res.Fail = failf("far-grouped", "places %q and %q were grouped at %q, but no chain of close and similarly named stops connects them", m[0], p, g)
				return
			}
		}
		if a.Stop[g] == nil { // new station
			res.tag("new-station")
			t := b.Stop[g]
			n, okName := 0, false
			var la, lo, k float64
			for x, s := range b.Stop {
				if x != g && stationOf(b, x) == g {
					n++
					okName = okName || s["stop_name"] == t["stop_name"]
					if y, z, ok := stopPos(s); ok {
						la, lo, k = la+y, lo+z, k+1
					}
				}
			}
			if t["location_type"] != "1" || n < 2 || !okName {
				res.Fail = failf("bad-station", "new station %q for %d stops: %s", g, n, rowKey(t))
				return
			}
			for _, col := range []string{"wheelchair_boarding", "stop_url", "stop_timezone"} {
				vals := map[string]bool{}
				for x, s := range b.Stop {
					if x != g && stationOf(b, x) == g {
						vals[s[col]] = true
					}
				}
				if !vals[t[col]] && (t[col] != "" || len(vals) == 1) {
					res.Fail = failf("station-attributes", "the stops of the new station %q have %s %q: %s", g, col, sortedKeys(vals), rowKey(t))
					return
				}
				res.tagIf(len(vals) == 1 && !vals[""], "common-"+col)
			}
			if y, z, ok := stopPos(t); !ok || !(havers(y, z, la/k, lo/k) <= 5) {
				res.Fail = failf("station-position", "new station %q is not at the mean position of its stops: %s", g, rowKey(t))
				return
			}
		}
	}
	for _, id := range sortedKeys(b.Stop) {
		if a.Stop[id] == nil && len(inGroup[id]) == 0 {
			res.Fail = failf("stop-invented", "stop %q is new and has no members", id)
			return
		}
	}
	// stations that were merged: a chain must lead to a remaining place
	for id := range gone {
		ok := false
		for _, p := range ps {
			ok = ok || (!gone[p] && p != id && find(p) == find(id))
		}
		if !ok && group[id] == "" {
			res.Fail = failf("station-lost", "station %q is missing without another close place", id)
			return
		}
	}
	// groups: there is an order of merging in which each step joins two clusters of sufficient similarity on average; and no two
	// clusters that are similar enough remain
	pair := map[[2]string][2]float64{}
	for i, p := range ps {
		for _, q := range ps[:i] {
			var w, n float64
			for _, x := range members[p] {
				for _, y := range members[q] {
					if z, ok := sim.stops(x, y); ok {
						w, n = w+z, n+1
					}
				}
			}
			pair[[2]string{p, q}], pair[[2]string{q, p}] = [2]float64{w, n}, [2]float64{w, n}
		}
	}
	avg := func(x, y []string) float64 {
		var w, n float64
		for _, p := range x {
			for _, q := range y {
				w, n = w+pair[[2]string{p, q}][0], n+pair[[2]string{p, q}][1]
			}
		}
		if n == 0 {
			return 0
		}
		return w / n
	}
	unknown := func(m []string) bool { // a vanished station without stops may belong to this group
		for _, p := range ps {
			if gone[p] && group[p] == "" {
				for _, q := range m {
					if find(p) == find(q) {
						return true
					}
				}
			}
		}
		return false
	}
	gs := sortedKeys(inGroup)
	for i, g := range gs {
		m := inGroup[g]
		if unknown(m) {
			continue
		}
		if len(m) > 1 && len(m) <= 8 && !mergeable(m, avg) {
			res.Fail = failf("dissimilar-grouped", "places %q were grouped at %q, but their similarity is too low in any order of merging (similarity of the first two: %.3f)", m, g, avg(m[:1], m[1:2]))
			return
		}
		for _, h := range gs[:i] {
			if !unknown(inGroup[h]) {
				if w := avg(m, inGroup[h]); w > .52 {
					res.Fail = failf("similar-apart", "groups %q and %q have similarity %.3f and were not joined", m, inGroup[h], w)
					return
				}
			}
		}
		res.tagIf(len(m) > 2, "large-group")
	}
	// isolated pairs of places are grouped if and only if they are similar
	for i, p := range ps {
		for _, q := range ps[:i] {
			if !isolatedPair(a, members, p, q) {
				continue
			}
			var w, n float64
			for _, x := range members[p] {
				for _, y := range members[q] {
					if z, ok := sim.stops(x, y); ok {
						w, n = w+z, n+1
					}
				}
			}
			if n == 0 || math.Abs(w/n-.5) < .02 {
				continue
			}
			gp, gq := group[p], group[q]
			same := gp != "" && gp == gq || gp == "" && gone[p] || gq == "" && gone[q]
			if same != (w/n >= .5) {
				res.Fail = failf("isolated-pair", "places %q and %q have similarity %.3f, grouped: %v", p, q, w/n, same)
				return
			}
			res.tagIf(same, "isolated-grouped")
			res.tagIf(!same, "isolated-apart")
		}
	}
	// transfers and pathways: ends at a merged station move to the surviving one
	ends := func(x string) map[string]bool {
		if !gone[x] {
			return map[string]bool{x: true}
		}
		m := map[string]bool{}
		if g := group[x]; g != "" {
			m[g] = true
			return m
		}
		for _, p := range ps {
			if !gone[p] && find(p) == find(x) {
				m[p] = true
			}
		}
		for g, l := range inGroup {
			for _, p := range l {
				if find(p) == find(x) {
					m[g] = true
				}
			}
		}
		return m
	}
	val := func(r Row) string { return rowKey(r, "from_stop_id", "to_stop_id") }
	match := func(r, o Row) bool {
		return ends(r["from_stop_id"])[o["from_stop_id"]] && ends(r["to_stop_id"])[o["to_stop_id"]]
	}
	tk := func(r Row) string {
		k := Row{}
		for _, c := range transferKeyCols[2:] {
			k[c] = r[c]
		}
		return rowKey(k)
	}
	for _, t := range a.F.T["transfers"] {
		ok := false
		for _, o := range b.F.T["transfers"] {
			ok = ok || (match(t, o) && tk(t) == tk(o))
		}
		if !ok {
			res.Fail = failf("transfer-lost", "transfer {%s} is missing", rowKey(t))
			return
		}
	}
	for _, o := range b.F.T["transfers"] {
		ok := false
		for _, t := range a.F.T["transfers"] {
			ok = ok || (match(t, o) && val(t) == val(o))
		}
		if !ok {
			res.Fail = failf("transfer-invented", "transfer {%s} is new", rowKey(o))
			return
		}
	}
	for id, p := range a.Path {
		q := b.Path[id]
		if q == nil || val(p) != val(q) || !match(p, q) {
			res.Fail = failf("pathway", "pathway %q is {%s}, was {%s}", id, rowKey(q), rowKey(p))
			return
		}
	}
	if len(a.Path) != len(b.Path) {
		res.Fail = failf("pathway", "%d pathways, expected %d", len(b.Path), len(a.Path))
		return
	}
	res.tagIf(len(gone) > 0, "stations-merged")
	res.Fail = sameFeed(a.F, b.F, "stops", "transfers", "pathways")
	return
}

// isolatedPair: no other place has a stop within 200 m of a stop of either place.
func isolatedPair(v *View, members map[string][]string, p, q string) bool {
	for o, ms := range members {
		if o == p || o == q {
			continue
		}
		for _, x := range ms {
			for _, y := range append(append([]string(nil), members[p]...), members[q]...) {
				if d, ok := stopDist(v.Stop[x], v.Stop[y]); ok && d < 200 {
					return false
				}
			}
		}
	}
	return true
}

// mergeable: m can be built by joining clusters of similarity at least 0.5.
func mergeable(m []string, avg func(a, b []string) float64) bool {
	n := len(m)
	ok := make([]bool, 1<<n)
	set := func(s int) (l []string) {
		for i := range m {
			if s>>i&1 == 1 {
				l = append(l, m[i])
			}
		}
		return
	}
	for s := 1; s < 1<<n; s++ {
		if s&(s-1) == 0 {
			ok[s] = true
			continue
		}
		for a := (s - 1) & s; a > 0 && !ok[s]; a = (a - 1) & s {
			if b := s ^ a; a > b && ok[a] && ok[b] && avg(set(a), set(b)) >= .48 {
				ok[s] = true
			}
		}
	}
	return ok[1<<n-1]
}
