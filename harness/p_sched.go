package main

import (
	"strconv"
	"strings"
)

// C33: scheduling.

func init() {
	register(&Prop{ID: "C33", Quick: 260, Thorough: 12000, Race: true,
		Rule: "one to five random feeds at once (10 to 500 entities per table) and arbitrary options, run with the race detector and with different numbers of processors; no data race may be reported, and every component of the result (exit status, files, rows, columns and contents of every table, dates and calls) must be possible with one processor; non-trivial: at least two processors were used, at least one parallel processing option was given and the output has at least two rows per worker in trips, stops or shapes",
		Gen: func(r *Rng, th bool) *Case {
			c := &Case{Procs: pick(r, 2, 2, 3, 4, 5, 7, 8), Meta: map[string]string{}}
			for k := pick(r, 1, 1, 2, 3, 5); k > 0; k-- {
				c.Feeds = append(c.Feeds, optFeed(r))
			}
			switch r.N(4) {
			case 0:
				c.Args = []string{pick(r, "--compress", "--Compress", "--merge", "--Merge")}
			case 1:
				c.Args = subset(r, losslessOpts, pick(r, .2, .5, .9))
				c.Meta["lossless"] = "1"
				if r.P(.3) {
					c.Args = append(c.Args, "-F")
				}
				return c
			case 2:
				if r.P(.5) { // ids of some kinds are replaced, the others are kept
					c.Args = append([]string{pick(r, "-i", "-d")}, subset(r, keepOpts, pick(r, .1, .3, .6))...)
					break
				}
				fallthrough
			default:
				c.Args = anyOpts(r, c.Feeds[0])
			}
			if r.P(.3) {
				c.Args = append(c.Args, pick(r, "-r", "-m", "--snap-stops", "-s"))
			}
			if r.P(.3) && !c.has("-F") {
				c.Args = append(c.Args, "-F")
			}
			return c
		}, Check: checkC33})
}

func checkC33(e *Env, c *Case) (res Res) {
	race := e.Run(c.Feeds, c.Args, c, RunOpt{Race: true, Procs: c.Procs})
	if race.Timeout {
		res.Fail = failf("hang", "gtfstidy %q did not terminate", race.Args)
		return
	}
	if i := strings.Index(race.Stderr, "WARNING: DATA RACE"); i >= 0 {
		res.Fail = failf("race:"+raceSite(race.Stderr[i:]), "data race: args %q, %d processors: %s", race.Args, c.Procs, strings.ReplaceAll(race.Stderr[i:min(len(race.Stderr), i+2500)], "\n", "\n    "))
		return
	}
	if race.Code == 66 {
		res.Fail = failf("race", "data race: args %q: %s", race.Args, race.msg())
		return
	}
	var one, many *Out
	first := fingerprint(race)
	diff, runs := compareRuns(func() map[string]string {
		one = e.Run(c.Feeds, c.Args, c, RunOpt{Procs: 1})
		return fingerprint(one)
	}, func() map[string]string {
		if f := first; f != nil {
			first = nil
			return f
		}
		many = e.Run(c.Feeds, c.Args, c, RunOpt{Procs: c.Procs})
		return fingerprint(many)
	}, 24)
	res.tag("procs-" + strconv.Itoa(c.Procs))
	res.tagIf(runs > 1, "repeated")
	if diff != "" {
		res.Fail = failf("differs", "results differ between one and %d processors: args %q: %s", c.Procs, c.Args, diff)
		return
	}
	if one.F == nil {
		res.tag("rejected")
		return
	}
	if c.Meta["lossless"] != "" {
		var ins []*Feed
		for _, x := range c.Feeds {
			if !c.has("-F") {
				x = stripAdd(x)
			}
			ins = append(ins, x)
		}
		want := union(ins, prefixesOf(c))
		for _, o := range []*Out{race, many} {
			if o == nil || o.F == nil {
				continue
			}
			if r2 := losslessJudge(want, o.F.Norm(), c.Args); r2.Fail != nil && !r2.Invalid {
				res.tag("offer")
				res.Fail = r2.Fail
				return
			}
			res.tag("offer")
		}
	}
	for _, o := range expandShort(c.Args) {
		switch o {
		case "-A", "-R", "-C", "-c", "-I", "-P", "-S", "-s", "-m", "-r", "-T", "-i", "-d", "--snap-stops":
			for _, t := range []string{"trips", "stops", "shapes"} {
				if len(one.F.T[t]) >= 2*c.Procs {
					res.NonTrivial = true
				}
			}
			res.tag("option " + o)
		}
	}
	return
}

// raceSite: the first function of gtfstidy in a report of the race detector.
func raceSite(s string) string {
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimSpace(l)
		if i := strings.Index(l, "processors."); i >= 0 && strings.HasSuffix(l, "()") {
			return l[i:]
		}
	}
	return "?"
}
