package main

import (
	"fmt"
	"hash/fnv"
	"net/url"
	"strings"
)

// C28: additional fields. Each row gets a field that describes the row itself.

const tagCol = "x_tag"

var tagCols = map[string][]string{
	"agency": {"agency_name", "agency_url"}, "stops": {"stop_name", "stop_code", "stop_desc"}, "routes": {"route_short_name", "route_long_name", "route_desc"},
	"trips": {"trip_headsign", "trip_short_name", "direction_id"}, "levels": {"level_index", "level_name"}, "pathways": {"pathway_mode", "signposted_as"},
	"attributions": {"organization_name"}, "fare_attributes": {"price", "currency_type"}, "fare_rules": {}, "transfers": {"transfer_type", "min_transfer_time"},
	"frequencies": {"start_time", "end_time", "headway_secs"}, "shapes": {"shape_pt_lat", "shape_pt_lon"}, "stop_times": {"stop_sequence"}, "feed_info": {"feed_publisher_name"},
}

var tagRefs = map[string]map[string]string{
	"trips": {"route_id": "routes", "shape_id": "shapes"}, "stop_times": {"trip_id": "trips", "stop_id": "stops"}, "frequencies": {"trip_id": "trips"},
	"fare_rules": {"fare_id": "fare_attributes", "route_id": "routes"}, "routes": {"agency_id": "agency"}, "stops": {"parent_station": "stops", "level_id": "levels"},
	"transfers": {"from_stop_id": "stops", "to_stop_id": "stops", "from_trip_id": "trips", "to_trip_id": "trips", "from_route_id": "routes", "to_route_id": "routes"},
	"pathways":  {"from_stop_id": "stops", "to_stop_id": "stops"}, "attributions": {"agency_id": "agency", "route_id": "routes", "trip_id": "trips"},
}

var tagOrder = []string{"agency", "levels", "stops", "routes", "shapes", "fare_attributes", "trips", "stop_times", "frequencies", "fare_rules", "transfers", "pathways", "attributions", "feed_info"}

func init() {
	register(&Prop{ID: "C28", Quick: 2500, Thorough: 30000,
		Rule: "one or two random feeds with twins of stops, routes, agencies and trips; every row of every table carries an additional field that describes the row and names the entities it refers to, either unique (so entities differ) or shared by equal entities; in a quarter of the cases only some of the tables have such fields; arbitrary processing, id, keep, prefix and filter options with -F; non-trivial: fields of at least five tables (or of those chosen, where only some have such fields) remained and a processing option was given",
		Gen: func(r *Rng, th bool) *Case {
			c := &Case{Procs: pick(r, 1, 2, 4, 8)}
			for k := pick(r, 1, 1, 1, 2); k > 0; k-- {
				var f *Feed
				if r.P(.25) {
					f = snapFeed(r, r.P(.5))
				} else {
					o := swarm(r)
					o.Trips = r.R(1, 8)
					f = genFeed(r, o)
				}
				if r.P(.5) {
					f.twins(r)
				}
				if r.P(.4) {
					f.progressions(r)
				}
				if r.P(.3) {
					f.alternate(r)
				}
				for _, t := range []string{"stops", "routes", "agency", "levels"} {
					if r.P(.4) {
						f.entityTwins(r, t)
					}
				}
				if r.P(.2) {
					f.renameSome(r)
				}
				f.prune()
				c.Feeds = append(c.Feeds, f)
			}
			c.Meta = map[string]string{}
			if r.P(.6) {
				c.Meta["uniq"] = "1"
			}
			if r.P(.25) { // only some tables have additional fields
				c.Meta["only"] = "," + strings.Join(subset(r, tagOrder, pick(r, .1, .3, .7)), ",") + ","
			}
			c.Args = anyOpts(r, c.Feeds[0])
			if r.P(.3) {
				c.Args = append(c.Args, pick(r, "-i", "-d"))
			}
			if r.P(.92) && !c.has("-F") {
				c.Args = append(c.Args, pick(r, "-F", "--keep-additional-fields"))
			}
			return c
		}, Check: checkC28})
}

// entityTwins copies a row under a new id and lets some references point to the copy.
func (f *Feed) entityTwins(r *Rng, t string) {
	if len(f.T[t]) == 0 {
		return
	}
	col := defs[t][0]
	src := pickS(r, f.T[t])
	if src[col] == "" {
		return
	}
	cp := src.clone()
	cp[col] = src[col] + "~"
	for _, x := range f.T[t] {
		if x[col] == cp[col] {
			return
		}
	}
	f.T[t] = append(f.T[t], cp)
	if t == "agency" { // with several agencies, routes and fares must name theirs
		for _, u := range []string{"routes", "fare_attributes"} {
			for _, x := range f.T[u] {
				if x["agency_id"] == "" {
					x["agency_id"] = src[col]
				}
			}
		}
	}
	for _, u := range tableOrder {
		for c, to := range refs[u] {
			if to != t || u == "transfers" {
				continue
			}
			for _, x := range f.T[u] {
				if x[c] == src[col] && r.P(.5) {
					x[c] = cp[col]
				}
			}
		}
	}
}

func (f *Feed) tag(k int, uniq bool) {
	code := map[string]string{}
	n := 0
	for _, t := range tagOrder {
		for _, x := range f.T[t] {
			for c := range x {
				if !stdColSet[t][c] {
					delete(x, c)
				}
			}
		}
	}
	nf := f.Norm()
	for _, t := range tagOrder {
		if len(nf.T[t]) != len(f.T[t]) {
			continue
		}
		d := defs[t]
		for i, x := range f.T[t] {
			y := nf.T[t][i]
			n++
			id := ""
			if len(d) > 0 {
				id = t + "\x00" + x[d[0]]
			}
			s := ""
			for _, c := range tagCols[t] {
				s += "|" + c + "=" + url.QueryEscape(y[c])
			}
			for _, c := range sortedKeys(tagRefs[t]) {
				if x[c] != "" {
					s += "|" + c + "=" + code[tagRefs[t][c]+"\x00"+x[c]]
				}
			}
			cd := fmt.Sprintf("#%d.%d", k, n)
			if !uniq {
				h := fnv.New32a()
				h.Write([]byte(s))
				cd = fmt.Sprintf("#%x", h.Sum32())
			}
			if t == "shapes" {
				id = t + "\x00" + x["shape_id"]
				if code[id] == "" {
					code[id] = fmt.Sprintf("#%d.%d", k, n)
				}
				cd = code[id]
			}
			if id != "" {
				code[id] = cd
			}
			x[tagCol] = cd + s
		}
	}
}

func checkC28(e *Env, c *Case) (res Res) {
	c = c.Clone()
	for k, f := range c.Feeds {
		f.tag(k, c.Meta["uniq"] != "")
		if only := c.Meta["only"]; only != "" {
			for _, t := range tagOrder {
				if !strings.Contains(only, ","+t+",") {
					for _, x := range f.T[t] {
						delete(x, tagCol)
					}
				}
			}
		}
	}
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	has := map[string]bool{}
	for _, a := range expandShort(c.Args) {
		has[a] = true
	}
	if !has["-F"] && !has["--keep-additional-fields"] {
		for _, t := range tableOrder {
			for _, x := range out.F.Cols[t] {
				if !stdColSet[t][x] {
					res.Fail = failf("unasked", "%s has the column %q without -F", t, x)
					return
				}
			}
		}
		res.tag("without -F")
		return
	}
	full := map[string]bool{}
	for _, t := range append([]string{"calendar", "calendar_dates"}, tagOrder...) {
		for _, fd := range c.Feeds {
			for _, x := range fd.T[t] {
				if x[tagCol] != "" {
					full[t] = true
				}
			}
		}
		for _, fd := range c.Feeds {
			for _, x := range fd.T[t] {
				if x[tagCol] == "" {
					full[t] = false
				}
			}
		}
	}
	for _, t := range []string{"calendar", "calendar_dates"} {
		if !full[t] {
			continue
		}
		for _, x := range out.F.T[t] {
			if x[tagCol] == "" {
				res.Fail = failf("calendar-lost", "%s lost its additional field: %v", t, x)
				return
			}
		}
	}
	code := map[string]string{}
	b := out.F.Norm()
	for _, t := range tagOrder {
		if d := defs[t]; len(d) > 0 {
			for i, x := range b.T[t] {
				cd, _, _ := strings.Cut(out.F.T[t][i][tagCol], "|")
				code[t+"\x00"+x[d[0]]] = cd
			}
		}
	}
	for _, x := range b.T["shapes"] {
		cd, _, _ := strings.Cut(x[tagCol], "|")
		id := "shapes\x00" + x["shape_id"]
		if o := code[id]; full["shapes"] && o != "" && o != cd {
			res.Fail = failf("mixed", "the points of shape %q have fields of several shapes: %q", x["shape_id"], x[tagCol])
			return
		}
		code[id] = cd
	}
	shapeLeft := map[string]bool{}
	for _, x := range b.T["shapes"] {
		shapeLeft[code["shapes\x00"+x["shape_id"]]] = true
	}
	recluster, fuzzy := has["-E"], has["--red-stops-fuzzy"] || has["--red-trips-fuzzy"] || has["--red-trips-aggressive"]
	n := 0
	for _, t := range tagOrder {
		if !full[t] {
			continue
		}
		if len(b.T[t]) > 0 {
			n++
		}
		for _, x := range b.T[t] {
			bad := func(kind, f string, v ...any) {
				res.Fail = failf(t+"-"+kind, "%s: %s", fmt.Sprintf(f, v...), rowKey(x))
			}
			v := x[tagCol]
			if v == "" {
				if t == "frequencies" && has["-T"] || t == "stops" && (recluster || has["--ensure-stop-parents"]) && x["location_type"] == "1" {
					continue // new
				}
				bad("lost", "no additional field")
				return
			}
			emb := map[string]string{}
			for _, p := range strings.Split(v, "|")[1:] {
				k, w, _ := strings.Cut(p, "=")
				emb[k] = w
			}
			for _, k := range tagCols[t] {
				w, _ := url.QueryUnescape(emb[k])
				if w == x[k] {
					continue
				}
				switch {
				case t == "trips" && fuzzy && w == "":
				case t == "frequencies" && has["-T"], has["--remove-fillers"], has["-p"]:
				default:
					bad("wrong", "the additional field belongs to an entity with %s %q", k, w)
					return
				}
			}
			for k, to := range tagRefs[t] {
				w, g := emb[k], ""
				if x[k] != "" {
					g = code[to+"\x00"+x[k]]
				}
				if w == g {
					continue
				}
				switch {
				case w == "" || x[k] == "" || !full[to]: // added or dropped reference
				case to == "stops" && g == "" && has["--ensure-stop-parents"]: // a new parent
				case (to == "stops" || to == "levels") && (recluster || fuzzy):
				case to == "trips" && fuzzy, to == "routes" && fuzzy, to == "shapes" && has["-S"]:
				case to == "shapes" && has["-I"] && !shapeLeft[w]: // its own shape was removed by a filter, so it took over that of an equal trip
				default:
					bad("reference", "%s refers to the entity with code %q, the additional field says %q", k, g, w)
					return
				}
			}
		}
	}
	res.tagIf(recluster || fuzzy, "loose")
	res.NonTrivial = (n >= 5 || c.Meta["only"] != "" && n > 0) && len(c.Args) > 1
	return
}
