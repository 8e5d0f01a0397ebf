package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
)

func init() {
	register(&Prop{ID: "C15", Quick: 4500, Thorough: 60000,
		Rule: "random feeds with copies of stops, stations (with children) and levels at distances below and above the limits, equal or different in exactly one attribute, complete copies of stations with platforms and boarding areas, used by stop times, children, transfers and pathways; -P (also fuzzy, with -F); the output is compared modulo the places that a reference model computes, and searched for remaining identical stops; non-trivial: stops or levels were merged",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			o.Hier, o.Levels = pick(r, 0, .4, .8), pick(r, 0.0, .5, 1)
			o.Dup = pick(r, 0, .5, .9)
			o.Transfers, o.Pathways = pick(r, 0.0, 1, 1), pick(r, 0.0, 1, 1)
			f := genFeed(r, o)
			if r.P(.06) {
				f.towers(r)
			} else {
				f.stopTwins(r)
			}
			c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 3, 8), Args: []string{pick(r, "-P", "--remove-red-stops")}}
			if r.P(.4) {
				c.Args = append(c.Args, "-F")
			}
			if r.P(.25) {
				c.Args = append(c.Args, "--red-stops-fuzzy")
			}
			return c
		}, Check: checkC15})
}

// moved returns a position dx, dy metres away.
func movedPos(s Row, dx, dy float64) (string, string) {
	la, lo := pf(s["stop_lat"]), pf(s["stop_lon"])
	return strconv.FormatFloat(la+dy/mPerLat, 'f', 6, 64), strconv.FormatFloat(lo+dx/(mPerLat*math.Cos(la*math.Pi/180)), 'f', 6, 64)
}

func (f *Feed) stopTwins(r *Rng) {
	g := &gen{r: r, f: f}
	if lv := f.T["levels"]; len(lv) > 0 && r.P(.7) {
		for k := r.R(1, 3); k > 0; k-- {
			n := pickS(r, lv).clone()
			n["level_id"] = f.freshID("levels", "level_id", pick(r, "lv", "", "level"))
			if r.P(.3) {
				m := map[string][]string{"level_index": {"5", "-2.5"}, "level_name": {"Mezz", ""}}
				for c := range n {
					if !stdColSet["levels"][c] {
						m[c] = []string{"other", ""}
					}
				}
				g.mutateAttr(n, m)
			}
			f.T["levels"] = append(f.T["levels"], n)
			for _, s := range f.T["stops"] {
				if s["level_id"] != "" && r.P(.3) {
					s["level_id"] = n["level_id"]
				}
			}
		}
	}
	mut := func(n Row) {
		m := map[string][]string{"stop_code": {"C9", ""}, "stop_name": {"Other Name"}, "stop_desc": {"another", ""}, "zone_id": {"Z1", "Z2", ""},
			"stop_url": {"http://stop.example/2", ""}, "stop_timezone": {"Europe/Paris", ""}, "wheelchair_boarding": {"1", "2", ""}, "platform_code": {"9", ""}}
		for _, l := range f.T["levels"] {
			m["level_id"] = append(m["level_id"], l["level_id"])
		}
		lt := atoi(n["location_type"], 0)
		if lt == 0 {
			for _, s := range f.T["stops"] {
				if s["location_type"] == "1" {
					m["parent_station"] = append(m["parent_station"], s["stop_id"])
				}
			}
			m["parent_station"] = append(m["parent_station"], "")
		}
		for c := range n {
			if !stdColSet["stops"][c] {
				m[c] = []string{"other", ""}
			}
		}
		g.mutateAttr(n, m)
		if n["stop_timezone"] != "" && n["parent_station"] != "" {
			// allowed by the parser; nothing to do
			return
		}
	}
	offs := func(lt int) float64 {
		if lt == 1 {
			return pick(r, 0.0, 0, 3, 20, 45, 56, 90)
		}
		return pick(r, 0.0, 0, 0, 2, 4.6, 5.6, 8, 30)
	}
	var copyStop func(old Row, parent string, dist float64, depth int) Row
	copyStop = func(old Row, parent string, dist float64, depth int) Row {
		n := old.clone()
		n["stop_id"] = f.freshID("stops", "stop_id", pick(r, "tw", "t:w", "de:1:2:", "", "longer-name"))
		if parent != "" {
			n["parent_station"] = parent
		}
		if old["stop_lat"] != "" {
			a := r.Float64() * 2 * math.Pi
			n["stop_lat"], n["stop_lon"] = movedPos(old, dist*math.Cos(a), dist*math.Sin(a))
			if dist == 0 {
				n["stop_lat"], n["stop_lon"] = old["stop_lat"], old["stop_lon"]
			}
		}
		if r.P(.3) {
			mut(n)
		}
		f.T["stops"] = append(f.T["stops"], n)
		oid, id := old["stop_id"], n["stop_id"]
		lt := atoi(old["location_type"], 0)
		if lt == 0 {
			for _, x := range f.T["stop_times"] {
				if x["stop_id"] == oid && r.P(.4) {
					x["stop_id"] = id
				}
			}
		}
		if lt <= 1 {
			for _, x := range f.T["transfers"] {
				for _, c := range []string{"from_stop_id", "to_stop_id"} {
					if x[c] == oid && r.P(.4) {
						x[c] = id
					}
				}
			}
			if r.P(.3) {
				t := Row{"from_stop_id": oid, "to_stop_id": id, "transfer_type": pick(r, "0", "1", "3")}
				if r.P(.5) {
					t["from_stop_id"], t["to_stop_id"] = id, oid
				}
				f.T["transfers"] = append(f.T["transfers"], t)
			}
		}
		if lt != 1 {
			for _, x := range f.T["pathways"] {
				for _, c := range []string{"from_stop_id", "to_stop_id"} {
					if x[c] == oid && r.P(.4) {
						x[c] = id
					}
				}
			}
		}
		if depth < 2 && (lt == 1 || lt == 0) {
			for _, k := range append([]Row(nil), f.T["stops"]...) {
				if k["parent_station"] == oid && k["stop_id"] != id && r.P(.5) {
					if r.P(.3) {
						k["parent_station"] = id
					} else {
						copyStop(k, id, pick(r, 0.0, 0, 0, 3), depth+1)
					}
				}
			}
		}
		return n
	}
	for k := r.R(1, 4); k > 0; k-- {
		old := pickS(r, f.T["stops"])
		copyStop(old, "", offs(atoi(old["location_type"], 0)), 0)
	}
	rows := f.T["transfers"]
	f.T["transfers"] = nil
	for _, t := range rows {
		if f.newTransfer(t) {
			f.T["transfers"] = append(f.T["transfers"], t)
		}
	}
}

// towers adds complete copies of a station, its platforms and their boarding areas.
func (f *Feed) towers(r *Rng) {
	base := pickS(r, f.T["stops"])
	add := func(typ, parent, name string) Row {
		x := Row{"stop_id": f.freshID("stops", "stop_id", pick(r, "tower", "t", "")), "stop_name": name, "location_type": typ, "parent_station": parent,
			"stop_lat": base["stop_lat"], "stop_lon": base["stop_lon"]}
		if base["stop_lat"] == "" {
			x["stop_lat"], x["stop_lon"] = "48.01", "7.85"
		}
		f.T["stops"] = append(f.T["stops"], x)
		return x
	}
	entrance, platforms, areas := r.P(.3), r.R(1, 2), r.R(1, 2)
	for k := r.R(2, 4); k > 0; k-- {
		st := add("1", "", "Tower")
		if entrance {
			add("2", st["stop_id"], "Door")
		}
		for i := 0; i < platforms; i++ {
			pl := add(pick(r, "0", ""), st["stop_id"], "Platform "+strconv.Itoa(i))
			for j := 0; j < areas; j++ {
				add("4", pl["stop_id"], "Area "+strconv.Itoa(j))
			}
			for _, x := range f.T["stop_times"] {
				if r.P(.1) {
					x["stop_id"] = pl["stop_id"]
				}
			}
		}
	}
}

func checkC15(e *Env, c *Case) (res Res) {
	fuzzy := c.has("--red-stops-fuzzy")
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	in := c.Feeds[0].Clone()
	add := c.has("-F")
	if !add {
		in = stripAdd(in)
	}
	if res.Fail = closed(out.F); res.Fail != nil {
		return
	}
	a, b := NewView(in), NewView(out.F)
	// levels
	lvKey := func(r Row) string {
		if fuzzy {
			r = stdOnly("levels", r)
		}
		return rowKey(r, "level_id")
	}
	lm, nl, f := mergeModel("levels", "level_id", a.F.T["levels"], b.F.T["levels"], lvKey)
	if f != nil {
		res.Fail = f
		return
	}
	want := a.F.Clone()
	var keep []Row
	for _, l := range want.T["levels"] {
		if lm[l["level_id"]] == l["level_id"] {
			keep = append(keep, l)
		}
	}
	want.T["levels"] = keep
	for _, s := range want.T["stops"] {
		if l := s["level_id"]; l != "" {
			s["level_id"] = lm[l]
		}
	}
	a = NewView(want)
	cls := stopPlaces(a, fuzzy)
	merged := 0
	left := map[string]bool{}
	for _, id := range sortedKeys(b.Stop) {
		if a.Stop[id] == nil {
			res.Fail = failf("new-stop", "stop %q is not in the input", id)
			return
		}
		left[cls[id]] = true
		x, y := a.Stop[id].clone(), b.Stop[id].clone()
		if (x["parent_station"] == "") != (y["parent_station"] == "") || (x["parent_station"] != "" && cls[x["parent_station"]] != cls[y["parent_station"]]) {
			res.Fail = failf("parent", "stop %q: parent %q became %q", id, x["parent_station"], y["parent_station"])
			return
		}
		if b.Stop[x["parent_station"]] != nil && y["parent_station"] != x["parent_station"] {
			res.Fail = failf("parent", "stop %q: parent %q is left but was replaced by %q", id, x["parent_station"], y["parent_station"])
			return
		}
		if p, q := rowKey(x, "parent_station"), rowKey(y, "parent_station"); p != q {
			res.Fail = failf("attributes", "stop %q changed from %s to %s", id, p, q)
			return
		}
	}
	for id, k := range cls {
		if !left[k] {
			res.Fail = failf("lost-stop", "stop %q and all stops equal to it are gone", id)
			return
		}
	}
	merged = len(a.Stop) - len(b.Stop)
	// no two identical stops are left
	ids := sortedKeys(b.Stop)
	for i, x := range ids {
		for _, y := range ids[:i] {
			p, q := b.Stop[x], b.Stop[y]
			if rowKey(p, "stop_id", "stop_lat", "stop_lon") != rowKey(q, "stop_id", "stop_lat", "stop_lon") || p["stop_lat"] == "" || q["stop_lat"] == "" {
				continue
			}
			lim := 4.9
			if p["location_type"] == "1" {
				lim = 49
			}
			if d := havers(pf(p["stop_lat"]), pf(p["stop_lon"]), pf(q["stop_lat"]), pf(q["stop_lon"])); d < lim {
				res.Fail = failf("unmerged", "identical stops %q and %q, %.1f m apart, are both left: %s", y, x, d, rowKey(p, "stop_id"))
				return
			}
		}
	}
	// references
	into := map[string]string{}
	ref := func(what, old, new string) *Fail {
		if old == new {
			return nil
		}
		if cls[old] != cls[new] || b.Stop[old] != nil {
			return failf("reference", "%s: stop %q became %q", what, old, new)
		}
		if o, ok := into[old]; ok && o != new {
			return failf("reference", "%s: merged stop %q became %q, elsewhere %q", what, old, new, o)
		}
		into[old] = new
		return nil
	}
	for id, sts := range a.ST {
		got := b.ST[id]
		if len(sts) != len(got) {
			res.Fail = failf("calls", "trip %q has %d instead of %d calls", id, len(got), len(sts))
			return
		}
		for i := range sts {
			if res.Fail = ref("trip "+id, sts[i].Stop, got[i].Stop); res.Fail != nil {
				return
			}
			if p, q := rowKey(sts[i].Row, "stop_id"), rowKey(got[i].Row, "stop_id"); p != q {
				res.Fail = failf("calls", "trip %q: call changed from %s to %s", id, p, q)
				return
			}
		}
	}
	if len(a.Path) != len(b.Path) {
		res.Fail = failf("pathways", "%d instead of %d pathways", len(b.Path), len(a.Path))
		return
	}
	for id, p := range a.Path {
		q := b.Path[id]
		if q == nil || rowKey(p, "from_stop_id", "to_stop_id") != rowKey(q, "from_stop_id", "to_stop_id") {
			res.Fail = failf("pathways", "pathway %q changed: %s", id, rowKey(q))
			return
		}
		for _, c := range []string{"from_stop_id", "to_stop_id"} {
			if res.Fail = ref("pathway "+id, p[c], q[c]); res.Fail != nil {
				return
			}
		}
	}
	tkey := func(r Row) string {
		k := rowKey(r, "from_stop_id", "to_stop_id", "transfer_type", "min_transfer_time")
		x := Row{}
		for _, c := range transferKeyCols[2:] {
			x[c] = r[c]
		}
		k = rowKey(x)
		for _, c := range transferKeyCols[:2] {
			k += fmt.Sprintf(" %s=%q", c, cls[r[c]])
		}
		return k
	}
	vals := map[string]map[string]bool{}
	for _, t := range a.F.T["transfers"] {
		k := tkey(t)
		if vals[k] == nil {
			vals[k] = map[string]bool{}
		}
		vals[k][rowKey(t, transferKeyCols...)] = true
	}
	seen := map[string]bool{}
	for _, t := range b.F.T["transfers"] {
		k := tkey(t)
		seen[k] = true
		if vals[k] == nil {
			res.Fail = failf("transfers", "transfer invented: %s", rowKey(t))
			return
		}
		if !vals[k][rowKey(t, transferKeyCols...)] {
			res.Fail = failf("transfers", "transfer changed: %s", rowKey(t))
			return
		}
	}
	for k := range vals {
		if !seen[k] {
			res.Fail = failf("transfers", "transfer lost: %s", k)
			return
		}
	}
	res.tagIf(merged > 0, "merged-stops")
	res.tagIf(nl > 0, "merged-levels")
	res.tagIf(fuzzy, "fuzzy")
	res.NonTrivial = merged+nl > 0
	res.Fail = sameFeed(a.F, b.F, "stops", "stop_times", "transfers", "pathways")
	return
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// stopPlaces groups stops that may end up as one stop.
func stopPlaces(v *View, fuzzy bool) map[string]string {
	ids := sortedKeys(v.Stop)
	cls := map[string]string{}
	depth := func(s Row) int {
		n := 0
		for x := s; x["parent_station"] != "" && n < 5; n++ {
			x = v.Stop[x["parent_station"]]
		}
		return n
	}
	key := func(s Row) string {
		omit := []string{"stop_id", "stop_lat", "stop_lon", "parent_station"}
		if fuzzy {
			omit = append(omit, "stop_code", "stop_url", "level_id", "platform_code", "stop_name")
			s = stdOnly("stops", s)
		}
		return rowKey(s, omit...) + "|" + cls[s["parent_station"]]
	}
	for d := 0; d < 4; d++ {
		var at []string
		for _, id := range ids {
			if depth(v.Stop[id]) == d {
				at = append(at, id)
			}
		}
		comp := make([]int, len(at))
		for i := range comp {
			comp[i] = i
		}
		var find func(int) int
		find = func(x int) int {
			if comp[x] != x {
				comp[x] = find(comp[x])
			}
			return comp[x]
		}
		for i := range at {
			for j := range at[:i] {
				p, q := v.Stop[at[i]], v.Stop[at[j]]
				if key(p) == key(q) && p["stop_lat"] != "" && q["stop_lat"] != "" && nearStops(p, q) && (!fuzzy || fuzzyEqual(p, q)) {
					comp[find(i)] = find(j)
				}
			}
		}
		for i, id := range at {
			cls[id] = "@" + at[find(i)]
		}
	}
	return cls
}

// fuzzyEqual: in fuzzy mode missing codes, URLs, levels count as equal, and codes, names and missing platforms do not matter
// for stops of one station within 2.5 m.
func fuzzyEqual(p, q Row) bool {
	near := havers(pf(p["stop_lat"]), pf(p["stop_lon"]), pf(q["stop_lat"]), pf(q["stop_lon"])) <= 2.55 && p["parent_station"] != ""
	opt := func(c string) bool { return p[c] == q[c] || p[c] == "" || q[c] == "" }
	return (near || opt("stop_code")) && (near || p["stop_name"] == q["stop_name"]) && opt("stop_url") && opt("level_id") &&
		(p["platform_code"] == q["platform_code"] || (near && opt("platform_code")))
}
