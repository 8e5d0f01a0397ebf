package main

import (
	"fmt"
	"math"
	"sort"
	"strings"
)

// multiset of rows of a table
func rowBag(rows []Row, omit ...string) map[string]int {
	m := map[string]int{}
	for _, r := range rows {
		m[rowKey(r, omit...)]++
	}
	return m
}

// diffBag describes the first differences of two multisets ("" if equal).
func diffBag(want, got map[string]int) string {
	var miss, extra []string
	for k, n := range want {
		if got[k] < n {
			miss = append(miss, fmt.Sprintf("%dx %s", n-got[k], k))
		}
	}
	for k, n := range got {
		if want[k] < n {
			extra = append(extra, fmt.Sprintf("%dx %s", n-want[k], k))
		}
	}
	if len(miss)+len(extra) == 0 {
		return ""
	}
	sort.Strings(miss)
	sort.Strings(extra)
	lim := func(s []string) string {
		n := len(s)
		if n > 4 {
			s = s[:4]
		}
		return fmt.Sprintf("%d: %s", n, strings.Join(s, " | "))
	}
	return fmt.Sprintf("missing %s; unexpected %s", lim(miss), lim(extra))
}

// stripAdd removes all non-standard columns.
func stripAdd(f *Feed) *Feed {
	n := f.Clone()
	for t, rows := range n.T {
		for _, r := range rows {
			for c := range r {
				if !stdColSet[t][c] {
					delete(r, c)
				}
			}
		}
	}
	return n
}

func hasAdd(f *Feed) bool {
	for t, rows := range f.T {
		for _, r := range rows {
			for c := range r {
				if !stdColSet[t][c] {
					return true
				}
			}
		}
	}
	return false
}

// sameFeed compares two feeds as sets of entities; tables in skip are ignored.
func sameFeed(want, got *Feed, skip ...string) *Fail {
	w, g := want.Norm(), got.Norm()
outer:
	for _, t := range tableOrder {
		for _, s := range skip {
			if s == t {
				continue outer
			}
		}
		if d := diffBag(rowBag(w.T[t]), rowBag(g.T[t])); d != "" {
			return failf("diff-"+t, "%s differs: %s", t, d)
		}
	}
	return nil
}

// ---- journeys: what a feed offers on each date, independent of identifiers ----

type JOpt struct {
	MergeStops bool     // -P: stops within the merge distance with equal attributes are one place
	NoParent   bool     // ignore parent stations (and levels are kept)
	StopIDs    bool     // compare stop ids only (stops are known to be untouched)
	OmitTrip   []string // trip columns not compared
	OmitRoute  []string
	OmitCall   []string
	NoFares    bool
	NoAttr     bool
	Coarse     bool                      // the notion of equality of trip deduplication
	Fuzzy      bool                      // ... in fuzzy mode
	RouteOf    func(route string) string // coarse: class of a route (nil: its id)
	PlaceOf    func(stop string) string  // coarse: class of a stop (nil: the station)
	DropZone   bool
	Add        bool // include additional columns
	Dist       bool
	ShapeIDs   bool // compare shape ids
	RouteIDs   bool // compare route ids
	Sets       bool // fares and attributions as sets
	Loose      bool // with trip deduplication: stations instead of stops, no first arrival and last departure, no call attributes
}

// stopClasses maps the stops of a feed to places. Given classes of an input feed, the places of an output feed are those
// of the input stops with equal attributes and position.
type places struct {
	o     JOpt
	byKey map[string]string // attributes, position and place of the parent -> class
}

func (p *places) attrs(v *View, s Row) string {
	omit := []string{"stop_id", "parent_station", "level_id", "stop_lat", "stop_lon"}
	if p.o.DropZone {
		omit = append(omit, "zone_id")
	}
	r := s
	if !p.o.Add {
		r = Row{}
		for c, x := range s {
			if stdColSet["stops"][c] {
				r[c] = x
			}
		}
	}
	k := rowKey(r, omit...)
	if l := s["level_id"]; l != "" {
		k += "|level:" + rowKey(v.Level[l], "level_id")
	}
	return k
}

// near reports whether two stops with equal attributes may be merged.
func nearStops(a, b Row) bool {
	if a["stop_lat"] == "" || b["stop_lat"] == "" {
		return a["stop_lat"] == b["stop_lat"] && a["stop_lon"] == b["stop_lon"]
	}
	d := havers(pf(a["stop_lat"]), pf(a["stop_lon"]), pf(b["stop_lat"]), pf(b["stop_lon"]))
	if a["location_type"] == "1" {
		return d <= 51
	}
	return d <= 5.1
}

func havers(la, lo, lb, lob float64) float64 {
	const r = math.Pi / 180
	x := math.Sin((lb - la) * r / 2)
	y := math.Sin((lob - lo) * r / 2)
	h := x*x + math.Cos(la*r)*math.Cos(lb*r)*y*y
	return 2 * 6378137 * math.Asin(math.Sqrt(math.Min(1, h)))
}

// classOf returns the place of every stop. in == nil: v is the input feed and defines the places.
func (p *places) classes(v *View, define bool) map[string]string {
	if p.byKey == nil {
		p.byKey = map[string]string{}
	}
	res := map[string]string{}
	done := map[string]bool{}
	depth := func(s Row) int {
		n := 0
		for x := s; x["parent_station"] != "" && n < 5; n++ {
			x = v.Stop[x["parent_station"]]
		}
		return n
	}
	ids := make([]string, 0, len(v.Stop))
	for id := range v.Stop {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool {
		a, b := depth(v.Stop[ids[i]]), depth(v.Stop[ids[j]])
		if a != b {
			return a < b
		}
		return ids[i] < ids[j]
	})
	group := map[string][]string{}
	var order []string
	var maxd int
	for _, id := range ids {
		maxd = max(maxd, depth(v.Stop[id]))
	}
	for d := 0; d <= maxd; d++ {
		group = map[string][]string{}
		order = order[:0]
		for _, id := range ids {
			s := v.Stop[id]
			if depth(s) != d || done[id] {
				continue
			}
			done[id] = true
			k := p.attrs(v, s)
			if !p.o.NoParent && s["parent_station"] != "" {
				k += "|parent:" + res[s["parent_station"]]
			}
			if group[k] == nil {
				order = append(order, k)
			}
			group[k] = append(group[k], id)
		}
		for _, k := range order {
			g := group[k]
			pos := func(s Row) string { return k + "@" + s["stop_lat"] + "," + s["stop_lon"] }
			if !define {
				for _, id := range g {
					c, ok := p.byKey[pos(v.Stop[id])]
					if !ok {
						c = "new:" + pos(v.Stop[id])
					}
					res[id] = c
				}
				continue
			}
			// connected components
			comp := make([]int, len(g))
			for i := range comp {
				comp[i] = i
			}
			var find func(int) int
			find = func(x int) int {
				if comp[x] != x {
					comp[x] = find(comp[x])
				}
				return comp[x]
			}
			for i := range g {
				for j := range g[:i] {
					a, b := v.Stop[g[i]], v.Stop[g[j]]
					if (a["stop_lat"] == b["stop_lat"] && a["stop_lon"] == b["stop_lon"]) || (p.o.MergeStops && nearStops(a, b)) {
						comp[find(i)] = find(j)
					}
				}
			}
			for i, id := range g {
				c := pos(v.Stop[g[find(i)]])
				p.byKey[pos(v.Stop[id])] = c
				res[id] = c
			}
		}
	}
	return res
}

type offer struct {
	days map[string]map[int]int // journey -> day -> count
	n    int                    // journeys times days
}

func bagKey(rows []string) string {
	sort.Strings(rows)
	return strings.Join(rows, ";")
}

func setKey(rows []string) string {
	sort.Strings(rows)
	var u []string
	for i, r := range rows {
		if i == 0 || rows[i-1] != r {
			u = append(u, r)
		}
	}
	return strings.Join(u, ";")
}

// journeys computes what the feed offers. cls maps stops to places.
func journeys(v *View, cls map[string]string, o JOpt) *offer {
	bagKey := bagKey
	if o.Sets {
		bagKey = setKey
	}
	std := func(t string, r Row) Row {
		if o.Add {
			return r
		}
		n := Row{}
		for c, x := range r {
			if stdColSet[t][c] {
				n[c] = x
			}
		}
		return n
	}
	attr := map[string][]string{}
	if !o.NoAttr {
		for _, r := range v.F.T["attributions"] {
			k := rowKey(std("attributions", r), "attribution_id", "agency_id", "route_id", "trip_id")
			for _, c := range []string{"agency_id", "route_id", "trip_id"} {
				if r[c] != "" {
					attr[c+"="+r[c]] = append(attr[c+"="+r[c]], k)
				}
			}
		}
	}
	agSig := func(id string) string {
		if id == "" && len(v.Agency) > 1 {
			return "none"
		}
		a := v.Agency[id]
		if id == "" {
			for _, x := range v.Agency {
				a = x
			}
		}
		return rowKey(std("agency", a), "agency_id") + bagKey(attr["agency_id="+a["agency_id"]])
	}
	fares := map[string][]string{}
	if !o.NoFares {
		for _, r := range v.F.T["fare_rules"] {
			if r["route_id"] == "" {
				continue
			}
			f := v.Fare[r["fare_id"]]
			omit := []string{"fare_id", "route_id"}
			if o.DropZone {
				omit = append(omit, "origin_id", "destination_id", "contains_id")
			}
			k := rowKey(std("fare_attributes", f), "fare_id", "agency_id") + "/" + agSig(f["agency_id"]) + "/" + rowKey(std("fare_rules", r), omit...)
			fares[r["route_id"]] = append(fares[r["route_id"]], k)
		}
	}
	routeSig := map[string]string{}
	for id, r := range v.Route {
		routeSig[id] = rowKey(std("routes", r), append([]string{"route_id", "agency_id"}, o.OmitRoute...)...) + "|" + agSig(r["agency_id"]) + "|" + bagKey(fares[id]) + "|" + bagKey(attr["route_id="+id])
	}
	res := &offer{days: map[string]map[int]int{}}
	put := func(sig string, days []int) {
		m := res.days[sig]
		if m == nil {
			m = map[int]int{}
			res.days[sig] = m
		}
		for _, d := range days {
			m[d]++
			res.n++
		}
	}
	for id, t := range v.Trip {
		svc := v.Svc[t["service_id"]]
		if svc == nil || len(svc.Days) == 0 {
			continue
		}
		sts := v.ST[id]
		if o.Coarse {
			coarseTrip(v, id, svc.Days, o, put)
			continue
		}
		omit := append([]string{"trip_id", "route_id", "service_id"}, o.OmitTrip...)
		if !o.ShapeIDs {
			omit = append(omit, "shape_id")
		}
		head := "R:" + routeSig[t["route_id"]] + " T:" + rowKey(std("trips", t), omit...) + bagKey(attr["trip_id="+id])
		if o.RouteIDs {
			head = "route " + t["route_id"] + " " + head
		}
		call := func(shift int) string {
			var b strings.Builder
			for i, s := range sts {
				c := s.Stop
				if o.Loose {
					c = stationOf(v, c)
				}
				if !o.StopIDs {
					c = cls[c]
				}
				tm := func(x int) string {
					if x < 0 {
						return "-"
					}
					return fmtTime(x + shift)
				}
				if o.Loose {
					x, y := tm(s.Arr), tm(s.Dep)
					if i == 0 {
						x = ""
					}
					if i > 0 && i == len(sts)-1 {
						y = ""
					}
					fmt.Fprintf(&b, "\n  %s-%s %s", x, y, c)
					continue
				}
				r := std("stop_times", s.Row)
				om := []string{"trip_id", "stop_id", "arrival_time", "departure_time", "stop_sequence"}
				if !o.Dist {
					om = append(om, "shape_dist_traveled")
				}
				om = append(om, o.OmitCall...)
				fmt.Fprintf(&b, "\n  %s-%s %s %s", tm(s.Arr), tm(s.Dep), c, rowKey(r, om...))
			}
			return b.String()
		}
		fr := v.Freq[id]
		if len(fr) == 0 {
			put(head+call(0), svc.Days)
			continue
		}
		var inexact []string
		var deps []int
		for _, f := range fr {
			s, e, h := parseTime(f["start_time"]), parseTime(f["end_time"]), atoi(f["headway_secs"], 0)
			if f["exact_times"] != "1" {
				inexact = append(inexact, fmt.Sprintf("%s-%s/%d", fmtTime(s), fmtTime(e), h))
				continue
			}
			for x := s; x < e && h > 0; x += h {
				deps = append(deps, x)
			}
		}
		base := -1
		if len(sts) > 0 {
			base = sts[0].Dep
		}
		if len(inexact) > 0 {
			// only relative times matter
			put(head+" freq:"+bagKey(inexact)+call(-base), svc.Days)
		}
		for _, d := range deps {
			if base < 0 {
				put(head+" at "+fmtTime(d), svc.Days)
			} else {
				put(head+call(d-base), svc.Days)
			}
		}
	}
	return res
}

// sameOffer compares two offers; asSet ignores how often a journey is offered on a date.
func sameOffer(want, got *offer, asSet bool) *Fail {
	keys := map[string]bool{}
	for k := range want.days {
		keys[k] = true
	}
	for k := range got.days {
		keys[k] = true
	}
	ks := make([]string, 0, len(keys))
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		w, g := want.days[k], got.days[k]
		var miss, extra []int
		for d, n := range w {
			if g[d] == 0 || (!asSet && g[d] < n) {
				miss = append(miss, d)
			}
		}
		for d, n := range g {
			if w[d] == 0 || (!asSet && w[d] < n) {
				extra = append(extra, d)
			}
		}
		sort.Ints(miss)
		sort.Ints(extra)
		if len(miss) > 0 {
			// a similar journey that is offered instead
			hint := ""
			for _, x := range ks {
				if len(got.days[x]) > 0 && len(want.days[x]) == 0 {
					hint = "\nnot in the input: " + x
					break
				}
			}
			return failf("journey-lost", "journey missing on %s (wanted %d, got %d dates): %s%s", dayList(miss), len(w), len(g), k, hint)
		}
		if len(extra) > 0 {
			return failf("journey-extra", "journey unexpected on %s (wanted %d, got %d dates): %s", dayList(extra), len(w), len(g), k)
		}
	}
	return nil
}

func stationOf(v *View, id string) string {
	for n := 0; n < 4; n++ {
		p := v.Stop[id]["parent_station"]
		if p == "" {
			break
		}
		id = p
	}
	return id
}

// basicType maps extended route types to the basic ones.
func basicType(t int) int {
	switch {
	case t <= 7 || t == 11 || t == 12:
		return t
	case t == 116:
		return 7
	case t >= 100 && t <= 117, t == 300, t == 1503:
		return 2
	case t >= 200 && t <= 209, t >= 700 && t <= 717, t == 1500, t == 1501, t >= 1505 && t <= 1507:
		return 3
	case t >= 400 && t <= 404, t == 500, t == 600:
		return 1
	case t == 405:
		return 12
	case t == 800:
		return 11
	case t >= 900 && t <= 906:
		return 0
	case t >= 1000 && t <= 1021, t == 1200, t == 1502:
		return 4
	case t == 1302 || t == 1303 || t == 1400:
		return 7
	case t >= 1300 && t <= 1307 && t != 1305:
		return 6
	}
	return 2
}

// coarseTrip adds a trip under the notion of equality of trip deduplication: same route, trip attributes, stations and
// times (arrival at the first and departure at the last call aside). Trips with frequencies are never touched.
func coarseTrip(v *View, id string, days []int, o JOpt, put func(string, []int)) {
	t := v.Trip[id]
	if len(v.Freq[id]) > 0 {
		put("frequency trip "+id+" "+rowKey(t, "service_id"), days)
		return
	}
	put(coarseKey(v, id, o), days)
}

func coarseKey(v *View, id string, o JOpt) string {
	t := v.Trip[id]
	var b strings.Builder
	sts := v.ST[id]
	if len(sts) == 0 {
		return "trip without calls " + id
	}
	if o.Fuzzy {
		fmt.Fprintf(&b, "type %d", basicType(atoi(v.Route[t["route_id"]]["route_type"], -1)))
	} else {
		rt := t["route_id"]
		if o.RouteOf != nil {
			rt = o.RouteOf(rt)
		}
		fmt.Fprintf(&b, "route %s", rt)
		for _, c := range []string{"trip_headsign", "trip_short_name", "block_id", "wheelchair_accessible", "bikes_allowed"} {
			fmt.Fprintf(&b, " %s=%q", c, t[c])
		}
		if o.Add {
			ks := make([]string, 0)
			for c := range t {
				if !stdColSet["trips"][c] {
					ks = append(ks, c)
				}
			}
			sort.Strings(ks)
			for _, c := range ks {
				fmt.Fprintf(&b, " %s=%q", c, t[c])
			}
		}
	}
	for i, s := range sts {
		pl := stationOf(v, s.Stop)
		if o.PlaceOf != nil {
			pl = o.PlaceOf(s.Stop)
		}
		a, d := fmtTime(s.Arr), fmtTime(s.Dep)
		if i == 0 {
			a = ""
		}
		if i == len(sts)-1 && i > 0 {
			d = ""
		}
		fmt.Fprintf(&b, "\n  %s-%s %s", a, d, pl)
	}
	return b.String()
}
