package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C11", Quick: 4000, Thorough: 50000,
		Rule: "random feeds (one to three, ids also looking like small numbers in base 10 and 36, with prefixes) whose entities carry unique markers in ordinary text fields; -i or -d with keep options, -F, --prefix and any number of workers; the renaming is read off the markers, must be one-to-one onto 1..n and, applied to the input, must give exactly the output; non-trivial: at least five kinds of entities were renamed",
		Gen: func(r *Rng, th bool) *Case {
			c := genIDs(r, pick(r, 1, 1, 1, 2, 3))
			c.Args = append(c.Args, pick(r, "-i", "-d", "--minimize-ids-num", "--minimize-ids-char"))
			if r.P(.4) {
				c.Args = append(c.Args, subset(r, keepOpts[1:], pick(r, .1, .3, .7))...)
			}
			if r.P(.05) {
				c.Args = append(c.Args, "--keep-ids")
			}
			return c
		}, Check: checkIDs})
	register(&Prop{ID: "C12", Quick: 4000, Thorough: 50000,
		Rule: "one to three random feeds with equal, overlapping and prefix-like ids, marked entities, subsets of the keep options with and without -i/-d and --prefix; every kept kind must have its input ids (one entity per colliding id), every other kind prefixed or minimized ids, and the renaming applied to the input must give exactly the output; non-trivial: ids were kept although the run renames or prefixes",
		Gen: func(r *Rng, th bool) *Case {
			c := genIDs(r, pick(r, 1, 2, 2, 3))
			if r.P(.3) {
				c.Args = append(c.Args, "--keep-ids")
			} else {
				c.Args = append(c.Args, subset(r, keepOpts[1:], pick(r, .15, .5, .9))...)
			}
			if r.P(.4) {
				c.Args = append(c.Args, pick(r, "-i", "-d"))
			}
			if len(c.Feeds) == 1 && !c.has("--prefix") && r.P(.7) {
				c.Args = append(c.Args, "--prefix", pick(r, "x", "0#", "p_", "1"))
			}
			return c
		}, Check: checkIDs})
}

func genIDs(r *Rng, n int) *Case {
	c := &Case{Procs: pick(r, 1, 2, 4, 8)}
	if n > 1 && r.P(.04) { // feed numbers with two digits
		n = r.R(11, 12)
	}
	for i := 0; i < n; i++ {
		o := swarm(r)
		o.Dup = pick(r, 0, .3, .6)
		o.AddCols = pick(r, 0.0, 1)
		if n > 1 {
			o.Stops, o.Trips, o.Routes = r.R(3, 5), r.R(1, 5), r.R(1, 3)
		}
		if n > 10 {
			o.Stops, o.Trips, o.Routes, o.Shapes = 3, 2, 1, 0
		} else if n == 1 && r.P(.05) { // ids with more than one digit
			o.Stops, o.Trips, o.Routes, o.Services = r.R(15, 45), r.R(15, 60), r.R(1, 20), r.R(1, 15)
			if r.P(.06) { // three digits
				o.Stops, o.Trips = r.R(250, 1400), r.R(20, 300)
			}
		}
		var f *Feed
		if i > 0 && r.P(.25) {
			f = c.Feeds[0].Clone() // the same ids throughout
		} else {
			f = genFeed(r, o)
		}
		c.Feeds = append(c.Feeds, f)
	}
	for i, f := range c.Feeds {
		f.mark(i)
	}
	if r.P(.3) {
		c.Args = append(c.Args, "--prefix", pick(r, "x", "0#", "p_", "1"))
	}
	if r.P(.4) {
		c.Args = append(c.Args, "-F")
	}
	return c
}

var markCol = map[string]string{"agency": "agency_name", "stops": "stop_desc", "routes": "route_desc", "trips": "trip_short_name", "levels": "level_name",
	"pathways": "signposted_as", "attributions": "organization_name", "fare_attributes": "price"}

// mark gives every entity of feed number k a unique text.
func (f *Feed) mark(k int) {
	for t, c := range markCol {
		for i, r := range f.T[t] {
			if t == "fare_attributes" {
				r[c] = fmt.Sprintf("%d.%04d", k, i+1)
			} else {
				r[c] = fmt.Sprintf("mark-%d-%d", k, i)
			}
		}
	}
}

// prefixesOf returns the prefix each input feed gets.
func prefixesOf(c *Case) []string {
	p := ""
	for i, a := range c.Args {
		if a == "--prefix" && i+1 < len(c.Args) {
			p = c.Args[i+1]
		}
	}
	if len(c.Feeds) == 1 {
		return []string{p}
	}
	var ps []string
	for i := range c.Feeds {
		ps = append(ps, p+strconv.Itoa(i)+"#")
	}
	return ps
}

var zoneCols = map[string][]string{"stops": {"zone_id"}, "fare_rules": {"origin_id", "destination_id", "contains_id"}, "trips": {"block_id"}, "attributions": {"attribution_id"}}

// union is the disjoint union of the feeds with prefixed ids.
func union(feeds []*Feed, prefixes []string) *Feed {
	u := NewFeed()
	for i, f := range feeds {
		n := f.Norm()
		p := prefixes[i]
		for t, rows := range n.T {
			for _, r := range rows {
				cols := map[string]bool{}
				if d, ok := defs[t]; ok {
					cols[d[0]] = true
				}
				for c := range refs[t] {
					cols[c] = true
				}
				for _, c := range zoneCols[t] {
					cols[c] = true
				}
				for c := range cols {
					isAg := t == "agency" && c == "agency_id"
					if r[c] != "" || isAg {
						if x := p + r[c]; x != "" {
							r[c] = x
						}
					}
				}
				// a reference to the only agency, which has no id
				if (t == "routes" || t == "fare_attributes") && r["agency_id"] == "" && len(n.T["agency"]) == 1 && p != "" {
					r["agency_id"] = p
				}
			}
			u.T[t] = append(u.T[t], rows...)
		}
	}
	return u
}

func checkIDs(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	if res.Fail = closed(out.F); res.Fail != nil {
		return
	}
	prefixes := prefixesOf(c)
	got := out.F.Norm()
	var ins []*Feed
	for _, x := range c.Feeds {
		if !c.has("-F") {
			x = stripAdd(x)
		}
		ins = append(ins, x)
	}
	want := union(ins, prefixes)
	base, idPre := 0, ""
	if c.has("-i") || c.has("--minimize-ids-num") {
		base = 10
	} else if c.has("-d") || c.has("--minimize-ids-char") {
		base = 36
	}
	for i, a := range c.Args {
		if a == "--prefix" && i+1 < len(c.Args) {
			idPre = c.Args[i+1]
		}
	}
	keep := func(o string) bool {
		return c.has("--keep-"+o+"-ids") || (o != "attribution" && c.has("--keep-ids"))
	}
	kinds := 0
	kept := 0
	// the renaming of each kind
	ren := map[string]map[string]string{}
	judge := func(kind, keepName string, minimized bool, pairs map[string]string) *Fail {
		m := map[string]string{}
		back := map[string]string{}
		for _, o := range sortedKeys(pairs) {
			n := pairs[o]
			m[o] = n
			if b, ok := back[n]; ok {
				return failf("not-injective", "%s: both %q and %q became %q", kind, b, o, n)
			}
			back[n] = o
		}
		ren[kind] = m
		k := keep(keepName)
		switch {
		case minimized && base > 0 && !k:
			want := map[string]bool{}
			for i := range m {
				_ = i
				want[idPre+strconv.FormatInt(int64(len(want)+1), base)] = true
			}
			for o, n := range m {
				if !want[n] {
					return failf("not-dense", "%s: %q became %q; expected one of 1..%d in base %d with prefix %q", kind, o, n, len(m), base, idPre)
				}
			}
			if len(m) > 0 {
				kinds++
			}
		case k:
			groups := map[string][]string{}
			strip := func(x string) string {
				for _, p := range prefixes {
					if p != "" && strings.HasPrefix(x, p) {
						return strings.TrimPrefix(x, p)
					}
				}
				return x
			}
			for o, n := range m {
				s := strip(o)
				if n != o && n != s {
					return failf("not-kept", "%s: %q became %q", kind, s, n)
				}
				groups[s] = append(groups[s], o)
			}
			for s, g := range groups {
				n := 0
				for _, o := range g {
					if m[o] == s {
						n++
					}
				}
				if n == 1 {
					if prefixes[0] != "" || base > 0 {
						kept++
					}
					continue
				}
				if s == "" && kind == "agency" {
					if n == 0 && len(m) > 1 {
						continue // only a single agency may have no id
					}
				}
				if _, ok := m[s]; ok && len(prefixes) > 1 {
					continue // the id is at the same time a prefixed id of another feed
				}
				return failf("not-kept", "%s: %d entities have id %q in the output (ids with prefix: %q)", kind, n, s, g)
			}
		default:
			for o, n := range m {
				if o != n {
					return failf("renamed", "%s: id %q became %q although its kind is not affected", kind, o, n)
				}
			}
		}
		return nil
	}
	byMark := func(t, idc string) (map[string]string, *Fail) {
		mc := markCol[t]
		g := map[string]string{}
		for _, r := range got.T[t] {
			if _, ok := g[r[mc]]; ok {
				return nil, failf("duplicated", "%s: %q is in the output twice", t, r[mc])
			}
			g[r[mc]] = r[idc]
		}
		m := map[string]string{}
		for _, r := range want.T[t] {
			n, ok := g[r[mc]]
			if !ok {
				return nil, failf("lost", "%s %q (%q) is not in the output", t, r[idc], r[mc])
			}
			m[r[idc]] = n
		}
		return m, nil
	}
	for _, x := range [][4]string{{"agency", "agency_id", "agency", "agency"}, {"stops", "stop_id", "stop", "station"}, {"routes", "route_id", "route", "route"}, {"trips", "trip_id", "trip", "trip"},
		{"levels", "level_id", "level", "level"}, {"pathways", "pathway_id", "pathway", "pathway"}, {"fare_attributes", "fare_id", "fare", "fare"}} {
		m, f := byMark(x[0], x[1])
		if f == nil {
			f = judge(x[2], x[3], true, m)
		}
		if f != nil {
			res.Fail = f
			return
		}
	}
	// attributions may have no id
	{
		g := map[string]string{}
		for _, r := range got.T["attributions"] {
			g[r["organization_name"]] = r["attribution_id"]
		}
		m := map[string]string{}
		for _, r := range want.T["attributions"] {
			n, ok := g[r["organization_name"]]
			if !ok {
				res.Fail = failf("lost", "attribution %q is not in the output", r["organization_name"])
				return
			}
			o := r["attribution_id"]
			if base > 0 && !keep("attribution") {
				o = r["organization_name"] // all get an id
			} else if o == "" {
				if n != "" {
					res.Fail = failf("renamed", "attribution without id got id %q", n)
					return
				}
				continue
			}
			m[o] = n
		}
		if res.Fail = judge("attribution", "attribution", true, m); res.Fail != nil {
			return
		}
		for _, r := range want.T["attributions"] {
			r["attribution_id"] = g[r["organization_name"]]
		}
	}
	gotTrip := index(got.T["trips"], "trip_id", "trips", new([]string))
	// services, shapes and blocks via trips, the rest by content
	for _, x := range [][3]string{{"service_id", "service", "service"}, {"shape_id", "shape", "shape"}, {"block_id", "block", "block"}} {
		m := map[string]string{}
		for _, t := range want.T["trips"] {
			o, n := t[x[0]], gotTrip[ren["trip"][t["trip_id"]]][x[0]]
			if (o == "") != (n == "") {
				res.Fail = failf("reference", "trip %q: %s %q became %q", t["trip_id"], x[0], o, n)
				return
			}
			if o == "" {
				continue
			}
			if p, ok := m[o]; ok && p != n {
				res.Fail = failf("reference", "%s %q became both %q and %q", x[0], o, p, n)
				return
			}
			m[o] = n
		}
		if x[1] != "block" {
			used := map[string]bool{}
			for _, n := range m {
				used[n] = true
			}
			tabs := []string{"shapes"}
			if x[1] == "service" {
				tabs = []string{"calendar", "calendar_dates"}
			}
			content := func(f *Feed) map[string]string {
				c := map[string][]string{}
				for _, t := range tabs {
					for _, r := range f.T[t] {
						c[r[x[0]]] = append(c[r[x[0]]], t+rowKey(r, x[0]))
					}
				}
				k := map[string]string{}
				for id, l := range c {
					sort.Strings(l)
					k[id] = strings.Join(l, "\n")
				}
				return k
			}
			cw, cg := content(want), content(got)
			free := map[string][]string{}
			for _, id := range sortedKeys(cg) {
				if !used[id] {
					free[cg[id]] = append(free[cg[id]], id)
				}
			}
			// interchangeable entities: prefer the same id, then a stripped one
			for pass := 0; pass < 3; pass++ {
				for _, id := range sortedKeys(cw) {
					if _, ok := m[id]; ok {
						continue
					}
					l := free[cw[id]]
					for i, n := range l {
						if pass == 2 || n == id || (pass == 1 && strings.HasSuffix(id, n)) {
							m[id] = n
							free[cw[id]] = append(append([]string(nil), l[:i]...), l[i+1:]...)
							break
						}
					}
					if _, ok := m[id]; !ok && pass == 2 {
						res.Fail = failf("lost", "%s %q is not in the output: %s", x[1], id, cw[id])
						return
					}
				}
			}
		}
		if res.Fail = judge(x[1], x[2], x[1] != "block", m); res.Fail != nil {
			return
		}
	}
	// apply the renaming
	for t, rows := range want.T {
		for _, r := range rows {
			for col, kind := range refs[t] {
				if r[col] != "" {
					r[col] = ren[kind][r[col]]
				}
			}
			if d, ok := defs[t]; ok && t != "attributions" {
				r[d[0]] = ren[d[1]][r[d[0]]]
			}
			if t == "trips" && r["block_id"] != "" {
				r["block_id"] = ren["block"][r["block_id"]]
			}
		}
	}
	if c.Feeds[0] != nil {
		res.tagIf(len(c.Feeds) > 1, "several-feeds")
		res.tagIf(prefixes[0] != "", "prefix")
		res.tagIf(base > 0, "minimized")
		res.tagIf(kept > 0, "kept")
	}
	res.NonTrivial = kept > 0
	if len(res.Tags) > 0 && base > 0 && kinds >= 5 {
		res.NonTrivial = true
	}
	res.Fail = sameFeed(want, got)
	return
}
