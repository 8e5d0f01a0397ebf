package main

import (
	"strconv"
	"strings"
)

func init() {
	register(&Prop{ID: "C04", Quick: 3000, Thorough: 12000,
		Rule: "structured random valid feeds (all 16 tables, odd ids and texts, defaults written or absent) with random packaging options; non-trivial: at least one trip with stop times plus a packaging option or an optional table present",
		Gen: func(r *Rng, th bool) *Case {
			o := swarm(r)
			c := &Case{Feeds: []*Feed{genFeed(r, o)}, Procs: pick(r, 1, 1, 2, 4), Meta: map[string]string{}}
			f := c.Feeds[0]
			if r.P(.5) {
				c.Args = append(c.Args, pick(r, "-F", "--keep-additional-fields"))
			}
			if r.P(.3) {
				c.Args = append(c.Args, "--keep-col-order")
			}
			if r.P(.3) {
				c.Args = append(c.Args, "--unsorted-files")
			}
			if r.P(.3) {
				c.Args = append(c.Args, "--explicit-calendar")
			}
			if r.P(.2) {
				c.Args = append(c.Args, "--zip-compression-level", strconv.Itoa(pick(r, 0, 0, r.N(10), r.N(10))))
			}
			if r.P(.1) {
				c.Args = append(c.Args, "-W")
			}
			clean := true
			for _, s := range f.CSV() {
				clean = clean && !strings.Contains(s, "\"")
			}
			if clean && r.P(.2) {
				c.Args = append(c.Args, "--assume-clean-csv")
			}
			c.Meta["zip"] = pick(r, "", "", "1")
			c.Meta["inzip"] = pick(r, "", "", "1")
			c.Meta["again"] = pick(r, "", "", "dir", "zip")
			c.Meta["preout"] = pick(r, "", "", "", "1")
			if r.P(.3) { // column order of the input
				for _, t := range tableOrder {
					if r.P(.5) && len(f.T[t]) > 0 {
						cols := append([]string(nil), stdCols[t]...)
						seen := map[string]bool{}
						for _, x := range f.T[t] {
							for k := range x {
								if !stdColSet[t][k] && !seen[k] {
									seen[k] = true
								}
							}
						}
						cols = f.writeCols(t)
						r.Shuffle(len(cols), func(i, j int) { cols[i], cols[j] = cols[j], cols[i] })
						f.Cols[t] = cols
					}
				}
			}
			return c
		},
		Check: checkC04})
}

func checkC04(e *Env, c *Case) (res Res) {
	o := RunOpt{Zip: c.Meta["zip"] != "", InZip: c.Meta["inzip"] != ""}
	if c.Meta["preout"] != "" && !o.Zip {
		o.PreOut = map[string]string{"shapes.txt": "shape_id,shape_pt_lat,shape_pt_lon,shape_pt_sequence\nold,1,1,1\n", "pathways.txt": "pathway_id,from_stop_id,to_stop_id,pathway_mode,is_bidirectional\nold,a,b,1,0\n", "trips.txt": "old\n"}
		res.tag("existing-output-dir")
	}
	out, f := e.do(c, c.Args, o)
	if f != nil {
		res.Fail = f
		return
	}
	in := c.Feeds[0]
	keep := c.has("-F") || c.has("--keep-additional-fields")
	want := in
	if !keep {
		want = stripAdd(in)
		if hasAdd(out.F) {
			res.Fail = failf("additional-columns", "non-standard columns written without -F")
			return
		}
	}
	got := out.F
	if c.has("--explicit-calendar") {
		if res.Fail = everyServiceHasCalendar(got); res.Fail != nil {
			return
		}
	}
	if !keep && !c.has("--keep-col-order") {
		for t, cols := range out.F.Cols {
			for _, x := range cols {
				if !stdColSet[t][x] {
					res.Fail = failf("additional-columns", "%s: non-standard column %q written without -F", t, x)
					return
				}
			}
		}
	}
	if c.has("--keep-col-order") {
		for t, cols := range out.F.Cols {
			if len(in.T[t]) == 0 {
				continue
			}
			have := map[string]bool{}
			for _, x := range cols {
				have[x] = true
			}
			icols := in.writeCols(t)
			var want, got []string
			inCol := map[string]bool{}
			for _, x := range icols {
				inCol[x] = true
				if have[x] {
					want = append(want, x)
				}
			}
			for _, x := range cols {
				if inCol[x] {
					got = append(got, x)
				}
			}
			if strings.Join(want, ",") != strings.Join(got, ",") {
				res.Fail = failf("column-order", "%s: --keep-col-order writes the columns %s in the order %s", t, strings.Join(want, ","), strings.Join(got, ","))
				return
			}
			res.tag("column-order")
		}
	}
	res.Fail = sameFeed(want, got)
	if res.Fail == nil && !c.has("--keep-col-order") {
		// no optional file without entities
		for t := range out.F.T {
			if len(out.F.T[t]) == 0 && !requiredTables[t] {
				res.tag("empty-file-" + t)
			}
		}
	}
	if res.Fail == nil && c.Meta["again"] != "" && !keep && !c.has("--unsorted-files") {
		// sorted output is the same each time (additional columns come in any order)
		o2 := o
		o2.Zip, o2.PreOut = c.Meta["again"] == "zip", nil
		first := out.Files
		again, f := e.do(c, c.Args, o2)
		if f != nil {
			res.Fail = f
			return
		}
		for n, s := range first {
			switch n {
			case "calendar.txt", "calendar_dates.txt", "shapes.txt", "stop_times.txt":
			default: // rows which are equal in the columns used for sorting may come in any order
				continue
			}
			if again.Files[n] != s {
				res.Fail = failf("not-reproducible", "%s differs between two runs on the same input although the files are sorted: args %q", n, c.Args)
				return
			}
		}
		if len(first) != len(again.Files) {
			res.Fail = failf("not-reproducible", "two runs on the same input write %d and %d files: args %q", len(first), len(again.Files), c.Args)
			return
		}
		res.tag("reproduced")
	}
	if res.Fail == nil && o.Zip && lastArg(c, "--zip-compression-level") == "0" {
		plain := out.Size
		best, f := e.do(c, stripArg(c.Args, "--zip-compression-level"), RunOpt{Zip: true, InZip: o.InZip})
		if f != nil {
			res.Fail = f
			return
		}
		if best.Size >= plain && plain > 4000 {
			res.Fail = failf("compression", "the ZIP file has %d bytes at compression level 0 and %d bytes at the default level", plain, best.Size)
			return
		}
		res.tag("compressed")
	}
	res.NonTrivial = len(in.T["stop_times"]) > 0
	for _, a := range c.Args {
		if strings.HasPrefix(a, "-") {
			res.tag(a)
		}
	}
	for _, t := range tableOrder {
		res.tagIf(len(in.T[t]) > 0, "has-"+t)
	}
	res.tagIf(o.Zip, "zip-out")
	res.tagIf(o.InZip, "zip-in")
	res.tagIf(hasAdd(in), "additional-columns")
	return
}

func everyServiceHasCalendar(f *Feed) *Fail {
	hasCal := map[string]bool{}
	for _, r := range f.T["calendar"] {
		hasCal[r["service_id"]] = true
	}
	for _, r := range f.T["calendar_dates"] {
		if !hasCal[r["service_id"]] {
			return failf("explicit-calendar", "service %q has no calendar.txt entry despite --explicit-calendar", r["service_id"])
		}
	}
	return nil
}

// stripArg: the arguments without an option and its value.
func stripArg(args []string, name string) (out []string) {
	for i := 0; i < len(args); i++ {
		if args[i] == name {
			i++
			continue
		}
		out = append(out, args[i])
	}
	return
}
