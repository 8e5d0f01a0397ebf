package main

import (
	"fmt"
	"hash/fnv"
	"sort"
	"strconv"
	"strings"
)

// C24: shorthand options and the order and spelling of options.

// optFeed: a feed on which most options have an effect.
func optFeed(r *Rng) *Feed {
	var f *Feed
	switch {
	case r.P(.35):
		f = shapeFeed(r, r.P(.5))
	case r.P(.2):
		f = snapFeed(r, r.P(.5))
	default:
		o := swarm(r)
		o.Trips = r.R(2, 8)
		f = genFeed(r, o)
	}
	if r.P(.6) {
		f.twins(r)
	}
	if r.P(.5) {
		f.progressions(r)
	}
	if r.P(.2) {
		f.alternate(r)
	}
	for _, t := range []string{"stops", "routes", "agency", "levels"} {
		if r.P(.5) {
			f.entityTwins(r, t)
		}
	}
	if r.P(.5) { // stations and stops with nearly equal names close to others
		for k := r.R(1, 3); k > 0 && len(f.T["stops"]) > 0; k-- {
			s := pickS(r, f.T["stops"])
			if s["stop_lat"] == "" || atoi(s["location_type"], 0) > 1 {
				continue
			}
			x := s.clone()
			x["stop_id"] = s["stop_id"] + "~" + strconv.Itoa(k)
			x["stop_name"] += pick(r, "", "", " 1", ".")
			x["stop_lat"] = ff(pf(s["stop_lat"]) + pick(r, 0, .00002, .0003))
			delete(x, "stop_code")
			if x["location_type"] != "1" && r.P(.5) {
				delete(x, "parent_station")
			}
			if x["location_type"] != "1" {
				for _, c := range f.T["stop_times"] {
					if c["stop_id"] == s["stop_id"] && r.P(.5) {
						c["stop_id"] = x["stop_id"]
					}
				}
			} else {
				for _, c := range f.T["stops"] {
					if c["parent_station"] == s["stop_id"] && r.P(.5) {
						c["parent_station"] = x["stop_id"]
					}
				}
			}
			f.T["stops"] = append(f.T["stops"], x)
		}
	}
	f.prune()
	return f
}

var longOf = map[string]string{
	"-v": "--validation-mode", "-e": "--default-on-errs", "-z": "--fix-zip", "-p": "--empty-str-repl", "-D": "--drop-errs", "-n": "--check-null-coords",
	"-O": "--delete-orphans", "-s": "--min-shapes", "-m": "--remeasure-shapes", "-r": "--remeasure-stop-times", "-S": "--remove-red-shapes", "-R": "--remove-red-routes",
	"-C": "--remove-red-services", "-i": "--minimize-ids-num", "-d": "--minimize-ids-char", "-c": "--minimize-services", "-T": "--minimize-stoptimes",
	"-F": "--keep-additional-fields", "-P": "--remove-red-stops", "-I": "--remove-red-trips", "-A": "--remove-red-agencies", "-E": "--recluster-stops",
	"-W": "--show-warnings", "-M": "--keep-mots", "-N": "--drop-mots",
}

// respell writes the same options differently: shorthands expanded, other order, long and short names, grouped letters.
func respell(r *Rng, args []string) []string {
	if r.P(.75) {
		args = expandShort(args)
	}
	var units [][]string
	seen := map[string]bool{}
	for i := 0; i < len(args); i++ {
		u := []string{args[i]}
		if takesValue(args[i]) && i+1 < len(args) {
			i++
			u = append(u, args[i])
		}
		k := strings.Join(u, "\x00")
		if seen[k] && !strings.HasPrefix(u[0], "--bounding") && !strings.HasPrefix(u[0], "--poly") {
			continue
		}
		seen[k] = true
		units = append(units, u)
	}
	r.Shuffle(len(units), func(i, j int) { units[i], units[j] = units[j], units[i] })
	short := map[string]string{}
	for s, l := range longOf {
		short[l] = s
	}
	var out []string
	group := ""
	flush := func() {
		if group != "" {
			out = append(out, "-"+group)
			group = ""
		}
	}
	for _, u := range units {
		o := u[0]
		if l, ok := longOf[o]; ok && r.P(.3) {
			o = l
		} else if s, ok := short[o]; ok && r.P(.5) {
			o = s
		}
		isShort := !strings.HasPrefix(o, "--")
		switch {
		case len(u) == 1 && isShort:
			group += o[1:]
			if r.P(.3) {
				flush()
			}
		case len(u) == 1:
			flush()
			if r.P(.1) {
				o += "=true"
			}
			out = append(out, o)
		case isShort:
			switch r.N(3) {
			case 0: // at the end of a group
				group += o[1:]
				flush()
				out = append(out, u[1])
			case 1:
				flush()
				out = append(out, o+u[1])
			default:
				flush()
				out = append(out, o, u[1])
			}
		default:
			flush()
			if r.P(.5) {
				out = append(out, o+"="+u[1])
			} else {
				out = append(out, o, u[1])
			}
		}
	}
	flush()
	return out
}

// fingerprint of a run: component -> value.
func fingerprint(out *Out) map[string]string {
	m := map[string]string{"status": fmt.Sprint(out.Code, out.Timeout, out.Signal, strings.TrimSpace(out.Stderr) == "", out.ParseErr == nil)}
	if out.F == nil {
		m["error"] = errClass(out.Stderr)
		return m
	}
	h := func(xs []string) string {
		w := fnv.New64a()
		for _, x := range xs {
			w.Write([]byte(x))
			w.Write([]byte{0})
		}
		return strconv.FormatUint(w.Sum64(), 36)
	}
	for _, t := range tableOrder {
		rows := out.F.T[t]
		m["rows:"+t] = strconv.Itoa(len(rows))
		cols := map[string][]string{}
		var all []string
		for _, x := range rows {
			for c, v := range x {
				if v != "" {
					cols[c] = append(cols[c], v)
				}
			}
			all = append(all, rowKey(x))
		}
		sort.Strings(all)
		m["table:"+t] = h(all)
		m["header:"+t] = strings.Join(out.F.Cols[t], ",")
		for c, v := range cols {
			sort.Strings(v)
			m["column:"+t+"."+c] = h(v)
		}
	}
	var fs []string
	for n := range out.Files {
		fs = append(fs, n)
	}
	sort.Strings(fs)
	m["files"] = strings.Join(fs, ",")
	var raw []string
	for _, n := range fs {
		raw = append(raw, out.Files[n])
	}
	m["content"] = h(raw)
	return m
}

// compare runs both variants until every component of their results took a common value.
// A component that takes few values on one side, and none of them on the other, makes them different.
func compareRuns(a, b func() map[string]string, most int) (diff string, runs int) {
	va, vb := map[string]map[string]bool{}, map[string]map[string]bool{}
	put := func(to map[string]map[string]bool, fp map[string]string) {
		for k, v := range fp {
			if to[k] == nil {
				to[k] = map[string]bool{}
			}
			to[k][v] = true
		}
	}
	all := map[string]bool{}
	for runs = 1; ; runs++ {
		fa, fb := a(), b()
		fresh := map[string]bool{}
		for _, m := range []map[string]string{fa, fb} {
			for k := range m {
				if !all[k] {
					fresh[k] = true
				}
			}
		}
		for k := range fresh {
			all[k] = true
			if runs > 1 { // so far absent on both sides
				put(va, map[string]string{k: "-"})
				put(vb, map[string]string{k: "-"})
			}
		}
		for k := range all {
			for _, m := range []map[string]string{fa, fb} {
				if _, ok := m[k]; !ok {
					m[k] = "-"
				}
			}
		}
		put(va, fa)
		put(vb, fb)
		open, worst := false, ""
		for _, k := range sortedKeys(all) {
			common := false
			for v := range va[k] {
				common = common || vb[k][v]
			}
			if common {
				continue
			}
			if min(len(va[k]), len(vb[k])) > 3 {
				continue // too random to tell
			}
			open = true
			if worst == "" || strings.HasPrefix(k, "status") || strings.HasPrefix(k, "rows") {
				worst = fmt.Sprintf("%s: %v against %v", k, sortedKeys(va[k]), sortedKeys(vb[k]))
			}
		}
		if !open {
			return "", runs
		}
		if runs >= most {
			return worst, runs
		}
	}
}

func init() {
	register(&Prop{ID: "C24", Quick: 900, Thorough: 30000,
		Rule: "random feeds (with twins of everything, redundant shapes, progressions, similar stops; for --fix also with errors, null coordinates, missing names and zip files with directories) and a shorthand and/or other options; the result is compared with that of the same options spelled differently (shorthand expanded as documented, other order, long and short names, grouped letters, options after the paths); non-trivial: leaving out one randomly chosen option of the expansion changes the number of rows of some table or the exit status",
		Gen: func(r *Rng, th bool) *Case {
			c := &Case{Procs: pick(r, 1, 1, 1, 8), Meta: map[string]string{"perm": strconv.FormatUint(r.Uint64()%1000000, 10)}}
			f := optFeed(r)
			c.Feeds = []*Feed{f}
			sh := pickS(r, shortOpts)
			switch {
			case r.P(.55):
				c.Args = []string{sh}
			case r.P(.55):
				sh2 := pickS(r, shortOpts)
				c.Args = subset(r, append(append([]string{}, procOpts...), miscOpts...), pick(r, .05, .2))
				c.Args = append(c.Args, sh)
				if sh2 != sh && r.P(.4) {
					c.Args = append(c.Args, sh2)
				}
			default:
				c.Args = anyOpts(r, f)
				sh = ""
			}
			if c.has("--fix") {
				for i := 0; i+1 < len(c.Args); i++ {
					if c.Args[i] == "-p" { // two different values
						c.Args = append(c.Args[:i:i], c.Args[i+2:]...)
					}
				}
				for k := pick(r, 0, 1, 2, 4); k > 0; k-- {
					f.corrupt(r)
				}
				if r.P(.4) && len(f.T["stops"]) > 0 {
					pickS(r, f.T["stops"])["stop_name"] = ""
				}
				if r.P(.4) && len(f.T["stops"]) > 0 {
					x := pickS(r, f.T["stops"])
					x["stop_lat"], x["stop_lon"] = "0.0", "0.0"
				}
				c.Meta["inzip"] = pick(r, "", "1", "sub")
			}
			r.Shuffle(0, nil)
			return c
		}, Check: checkC24})
}

func checkC24(e *Env, c *Case) (res Res) {
	seed, _ := strconv.ParseUint(c.Meta["perm"], 10, 64)
	r := newRng(seed, "respell", 0)
	alt := respell(r, c.Args)
	oa := RunOpt{Procs: c.Procs, InZip: c.Meta["inzip"] != ""}
	if c.Meta["inzip"] == "sub" {
		oa.ZipDir = "feed/"
	}
	ob := oa
	ob.PostArg = r.P(.3)
	ex := expandShort(c.Args)
	less := -1
	if len(ex) > 0 {
		less = r.N(len(ex))
		if less > 0 && takesValue(ex[less-1]) {
			less--
		}
	}
	var outA, outB *Out
	diff, runs := compareRuns(func() map[string]string {
		outA = e.Run(c.Feeds, c.Args, c, oa)
		return fingerprint(outA)
	}, func() map[string]string {
		outB = e.Run(c.Feeds, alt, c, ob)
		return fingerprint(outB)
	}, 24)
	for _, s := range shortOpts {
		if c.has(s) {
			res.tag(s)
		}
	}
	res.tagIf(runs > 1, "repeated")
	res.tagIf(runs > 8, "repeated often")
	if outA.Timeout || outB.Timeout {
		res.Fail = failf("hang", "gtfstidy %q did not terminate", outA.Args)
		return
	}
	if diff != "" {
		res.Fail = failf("differs", "options %q and %q have different results: %s", c.Args, outB.Args, diff)
		return
	}
	res.tagIf(outA.Code != 0, "rejected")
	if less >= 0 {
		n := less + 1
		if takesValue(ex[less]) && n < len(ex) {
			n++
		}
		var rest []string
		for i, a := range ex {
			if (i < less || i >= n) && a != ex[less] {
				rest = append(rest, a)
			}
		}
		out := e.Run(c.Feeds, rest, c, oa)
		fa, fb := fingerprint(outA), fingerprint(out)
		for k, v := range fa {
			if (k == "status" || strings.HasPrefix(k, "rows:") || k == "files") && fb[k] != v {
				res.NonTrivial = true
			}
			if strings.HasPrefix(k, "header:") && fb[k] != v {
				res.NonTrivial = true
			}
		}
		if strings.HasPrefix(ex[less], "-") {
			res.tagIf(res.NonTrivial, "effect "+ex[less])
		}
	}
	return
}
