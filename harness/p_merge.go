package main

import (
	"fmt"
	"sort"
	"strings"
)

func init() {
	register(&Prop{ID: "C13", Quick: 5000, Thorough: 60000,
		Rule: "random feeds with copies of routes that agree completely or differ in exactly one attribute, fare rule or additional field, with trips, transfers, fare rules and attributions on the copies; -R (also with -A, -F); the whole output is compared with a reference model that groups routes by their attributes and fare rules; non-trivial: at least two routes are interchangeable",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			o.Routes, o.Fares, o.Transfers = r.R(1, 5), pick(r, 0.0, 1, 1), pick(r, 0.0, 1, 1)
			o.AddCols = pick(r, 0.0, 0, .5, 1)
			f := genFeed(r, o)
			f.routeTwins(r)
			c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 3, 8), Args: []string{pick(r, "-R", "--remove-red-routes")}}
			if r.P(.25) {
				c.Args = append(c.Args, "-A")
			}
			if r.P(.4) {
				c.Args = append(c.Args, "-F")
			}
			return c
		}, Check: checkMerge})
	register(&Prop{ID: "C14", Quick: 5000, Thorough: 60000,
		Rule: "random feeds with copies of agencies that agree completely or differ in exactly one field, with routes, fares and attributions of each; -A (also with -F); the whole output is compared with a reference model that groups agencies by their fields; non-trivial: at least two agencies are identical",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			o.MultiAgency, o.Routes, o.Fares = 1, r.R(1, 5), pick(r, 0.0, 1, 1)
			o.AddCols = pick(r, 0.0, 0, .5, 1)
			f := genFeed(r, o)
			f.agencyTwins(r)
			c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 1, 2, 3, 8), Args: []string{pick(r, "-A", "--remove-red-agencies")}}
			if r.P(.4) {
				c.Args = append(c.Args, "-F")
			}
			return c
		}, Check: checkMerge})
}

func (f *Feed) freshID(t, col, base string) string {
	have := map[string]bool{}
	for _, r := range f.T[t] {
		have[r[col]] = true
	}
	for i := 0; ; i++ {
		if id := fmt.Sprintf("%s%d", base, i); !have[id] {
			return id
		}
	}
}

// routeTwins adds copies of routes, some different in one respect, and uses them.
func (f *Feed) routeTwins(r *Rng) {
	g := &gen{r: r, f: f}
	for k := r.R(1, 4); k > 0; k-- {
		old := pickS(r, f.T["routes"])
		n := old.clone()
		n["route_id"] = f.freshID("routes", "route_id", pick(r, "tw", "longer-name", ""))
		what := r.N(4) // 0, 1: equal; 2: other attribute; 3: other fare rules
		if what == 2 {
			m := map[string][]string{"route_short_name": {"99"}, "route_long_name": {"Elsewhere Line"}, "route_desc": {"rd", ""}, "route_type": {"0", "3", "109", "2"},
				"route_url": {"http://route.example/2", ""}, "route_color": {"00FF00", ""}, "route_text_color": {"111111", ""}, "route_sort_order": {"3", ""},
				"continuous_pickup": {"0", "2", ""}, "continuous_drop_off": {"0", "3", ""}}
			for c := range n {
				if !stdColSet["routes"][c] {
					m[c] = []string{"other", ""}
				}
			}
			for _, a := range f.T["agency"] {
				if a["agency_id"] != "" && len(f.T["agency"]) > 1 {
					m["agency_id"] = append(m["agency_id"], a["agency_id"])
				}
			}
			g.mutateAttr(n, m)
			if n["route_short_name"] == n["route_long_name"] {
				continue
			}
		}
		f.T["routes"] = append(f.T["routes"], n)
		id, oid := n["route_id"], old["route_id"]
		var rules []Row
		for _, x := range f.T["fare_rules"] {
			if x["route_id"] == oid {
				c := x.clone()
				c["route_id"] = id
				rules = append(rules, c)
			}
		}
		if what == 3 && len(rules) > 0 {
			i := r.N(len(rules))
			switch r.N(4) {
			case 0:
				rules = append(rules[:i], rules[i+1:]...)
			case 1:
				rules = append(rules, rules[i].clone())
			case 2:
				rules[i]["fare_id"] = pickS(r, f.T["fare_attributes"])["fare_id"]
			case 3:
				zs := []string{""}
				for _, s := range f.T["stops"] {
					zs = append(zs, s["zone_id"])
				}
				c := pick(r, "origin_id", "destination_id", "contains_id")
				rules[i][c] = pickS(r, zs)
				if rules[i][c] == "" {
					delete(rules[i], c)
				}
			}
		}
		r.Shuffle(len(rules), func(i, j int) { rules[i], rules[j] = rules[j], rules[i] })
		f.T["fare_rules"] = append(f.T["fare_rules"], rules...)
		for _, t := range f.T["trips"] {
			if t["route_id"] == oid && r.P(.4) {
				t["route_id"] = id
			}
		}
		for _, t := range f.T["transfers"] {
			for _, c := range []string{"from_route_id", "to_route_id"} {
				if t[c] == oid && r.P(.4) {
					t[c] = id
				}
			}
		}
		for _, t := range f.T["attributions"] {
			if t["route_id"] == oid && r.P(.4) {
				t["route_id"] = id
			}
		}
		if b := f.T["stops"]; r.P(.5) {
			var tr Row
			for _, s := range b {
				if atoi(s["location_type"], 0) == 0 {
					tr = Row{"from_stop_id": s["stop_id"], "to_stop_id": s["stop_id"], pick(r, "from_route_id", "to_route_id"): id, "transfer_type": pick(r, "1", "3", "0")}
				}
			}
			if tr != nil && f.newTransfer(tr) {
				f.T["transfers"] = append(f.T["transfers"], tr)
			}
		}
	}
	// transfers must stay unique
	rows := f.T["transfers"]
	f.T["transfers"] = nil
	for _, t := range rows {
		if f.newTransfer(t) {
			f.T["transfers"] = append(f.T["transfers"], t)
		}
	}
}

var transferKeyCols = []string{"from_stop_id", "to_stop_id", "from_route_id", "to_route_id", "from_trip_id", "to_trip_id"}

func colKey(r Row, cols []string) string {
	var b strings.Builder
	for _, c := range cols {
		fmt.Fprintf(&b, "%q ", r[c])
	}
	return b.String()
}

func (f *Feed) newTransfer(t Row) bool {
	k := colKey(t, transferKeyCols)
	for _, x := range f.T["transfers"] {
		if colKey(x, transferKeyCols) == k {
			return false
		}
	}
	return true
}

func (f *Feed) agencyTwins(r *Rng) {
	g := &gen{r: r, f: f}
	if len(f.T["agency"]) == 1 && f.T["agency"][0]["agency_id"] == "" {
		return
	}
	if len(f.T["agency"]) == 1 {
		for _, t := range []string{"routes", "fare_attributes"} {
			for _, x := range f.T[t] {
				x["agency_id"] = f.T["agency"][0]["agency_id"]
			}
		}
	}
	for k := r.R(1, 4); k > 0; k-- {
		old := pickS(r, f.T["agency"])
		n := old.clone()
		n["agency_id"] = f.freshID("agency", "agency_id", pick(r, "tw", "longer-name", ""))
		if r.P(.4) {
			m := map[string][]string{"agency_name": {"AgX"}, "agency_url": {"http://x.example"}, "agency_lang": {"de", "fr", ""}, "agency_phone": {"0761", ""},
				"agency_fare_url": {"http://fare.example/x", ""}, "agency_email": {"z@example.org", ""}}
			for c := range n {
				if !stdColSet["agency"][c] {
					m[c] = []string{"other", ""}
				}
			}
			g.mutateAttr(n, m)
		}
		f.T["agency"] = append(f.T["agency"], n)
		for _, t := range []string{"routes", "fare_attributes", "attributions"} {
			for _, x := range f.T[t] {
				if x["agency_id"] == old["agency_id"] && r.P(.4) {
					x["agency_id"] = n["agency_id"]
				}
			}
		}
		if r.P(.3) {
			f.T["attributions"] = append(f.T["attributions"], Row{"organization_name": "Org T", "is_operator": "1", "agency_id": n["agency_id"]})
		}
	}
}

// mergeModel maps the members of each class of interchangeable entities to the one that is left in the output.
func mergeModel(kind, idCol string, rows, out []Row, key func(Row) string) (map[string]string, int, *Fail) {
	class := map[string][]string{}
	of := map[string]string{}
	for _, r := range rows {
		k := key(r)
		class[k] = append(class[k], r[idCol])
		of[r[idCol]] = k
	}
	left := map[string]string{}
	for _, r := range out {
		k, ok := of[r[idCol]]
		if !ok {
			return nil, 0, failf("new-"+kind, "%s %q is not in the input", kind, r[idCol])
		}
		if o, ok := left[k]; ok {
			return nil, 0, failf("unmerged-"+kind, "interchangeable %s %q and %q are both left: %s", kind, o, r[idCol], k)
		}
		left[k] = r[idCol]
	}
	m := map[string]string{}
	n := 0
	for k, ids := range class {
		l, ok := left[k]
		if !ok {
			return nil, 0, failf("lost-"+kind, "none of the %s %q is left: %s", kind, ids, k)
		}
		n += len(ids) - 1
		for _, id := range ids {
			m[id] = l
		}
	}
	return m, n, nil
}

func routeKey(f *Feed) func(Row) string {
	rules := map[string][]string{}
	for _, x := range f.T["fare_rules"] {
		if x["route_id"] != "" {
			rules[x["route_id"]] = append(rules[x["route_id"]], colKey(x, []string{"fare_id", "origin_id", "destination_id", "contains_id"}))
		}
	}
	return func(r Row) string {
		l := rules[r["route_id"]]
		sort.Strings(l)
		return rowKey(r, "route_id", "route_sort_order") + "|" + strings.Join(l, ";")
	}
}

func checkMerge(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	in := c.Feeds[0].Clone()
	if !c.has("-F") {
		in = stripAdd(in)
	}
	want := in.Norm()
	got := out.F.Norm()
	ren := func(t, col string, m map[string]string) {
		for _, x := range want.T[t] {
			if id := x[col]; id != "" {
				x[col] = m[id]
			}
		}
	}
	only := func(t, col string, m map[string]string) {
		var keep []Row
		for _, x := range want.T[t] {
			if x[col] == "" || m[x[col]] == x[col] {
				keep = append(keep, x)
			}
		}
		want.T[t] = keep
	}
	n := 0
	if c.has("-A") || c.has("--remove-red-agencies") {
		m, k, f := mergeModel("agencies", "agency_id", want.T["agency"], got.T["agency"], func(r Row) string { return rowKey(r, "agency_id") })
		if f != nil {
			res.Fail = f
			return
		}
		n += k
		only("agency", "agency_id", m)
		for _, t := range []string{"routes", "fare_attributes", "attributions"} {
			ren(t, "agency_id", m)
		}
		want = want.Norm()
	}
	if c.has("-R") || c.has("--remove-red-routes") {
		m, k, f := mergeModel("routes", "route_id", want.T["routes"], got.T["routes"], routeKey(want))
		if f != nil {
			res.Fail = f
			return
		}
		n += k
		only("routes", "route_id", m)
		only("fare_rules", "route_id", m)
		for _, t := range []string{"trips", "attributions"} {
			ren(t, "route_id", m)
		}
		moved := map[int]bool{}
		for i, x := range want.T["transfers"] {
			for _, c := range []string{"from_route_id", "to_route_id"} {
				moved[i] = moved[i] || (x[c] != "" && m[x[c]] != x[c])
			}
		}
		ren("transfers", "from_route_id", m)
		ren("transfers", "to_route_id", m)
		// of colliding transfers one is left
		have := rowBag(got.T["transfers"])
		by := map[string][]Row{}
		var keys []string
		for _, x := range want.T["transfers"] {
			k := colKey(x, transferKeyCols)
			if by[k] == nil {
				keys = append(keys, k)
			}
			by[k] = append(by[k], x)
		}
		var keep []Row
		for _, k := range keys {
			sel := by[k][0]
			for _, x := range by[k] {
				if have[rowKey(x)] > 0 {
					sel = x
				}
			}
			if len(by[k]) > 1 {
				res.tag("colliding-transfers")
			}
			keep = append(keep, sel)
		}
		want.T["transfers"] = keep
	}
	res.NonTrivial = n > 0
	res.tagIf(n > 0, "merged")
	res.tagIf(n > 1, "merged-several")
	if res.Fail = sameFeed(want, got); res.Fail != nil {
		return
	}
	res.Fail = closed(out.F)
	return
}
