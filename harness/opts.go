package main

import (
	"fmt"
	"math"
	"strconv"
)

var procOpts = []string{"-O", "-A", "-P", "-R", "-C", "-c", "-I", "-S", "-s", "-m", "-r", "-T", "--remove-cal-dates", "--non-overlapping-services",
	"--group-adj-stop-times", "-E", "--ensure-stop-parents", "--fix-far-away-parents", "--drop-platform-for-parentless", "--drop-too-fast-trips",
	"--snap-stops", "--red-trips-fuzzy", "--red-stops-fuzzy", "--red-trips-aggressive", "-i", "-d"}

var keepOpts = []string{"--keep-ids", "--keep-station-ids", "--keep-block-ids", "--keep-fare-ids", "--keep-shape-ids", "--keep-route-ids", "--keep-trip-ids",
	"--keep-level-ids", "--keep-pathway-ids", "--keep-attribution-ids", "--keep-service-ids", "--keep-agency-ids"}

var shortOpts = []string{"--fix", "--compress", "--Compress", "--merge", "--Merge"}

var miscOpts = []string{"-F", "--keep-col-order", "--unsorted-files", "--explicit-calendar", "-W", "--drop-shapes", "--drop-single-stop-trips", "-D", "-e", "--standard-route-types",
	"--google-supported-route-types", "--remove-fillers", "-n", "-z"}

func feedBox(f *Feed) (x0, y0, x1, y1 float64) {
	x0, y0, x1, y1 = math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)
	for _, s := range f.T["stops"] {
		if s["stop_lat"] == "" {
			continue
		}
		la, lo := pf(s["stop_lat"]), pf(s["stop_lon"])
		x0, x1 = math.Min(x0, lo), math.Max(x1, lo)
		y0, y1 = math.Min(y0, la), math.Max(y1, la)
	}
	return
}

func ff(v float64) string { return strconv.FormatFloat(v, 'f', 6, 64) }

// subset of opts, each with probability p
func subset(r *Rng, opts []string, p float64) []string {
	var o []string
	for _, x := range opts {
		if r.P(p) {
			o = append(o, x)
		}
	}
	return o
}

func feedDays(f *Feed) (lo, hi int) {
	lo, hi = 1<<30, -1
	upd := func(d int) {
		if d >= 0 {
			lo, hi = min(lo, d), max(hi, d)
		}
	}
	for _, r := range f.T["calendar"] {
		upd(dayNum(r["start_date"]))
		upd(dayNum(r["end_date"]))
	}
	for _, r := range f.T["calendar_dates"] {
		upd(dayNum(r["date"]))
	}
	return
}

// anyOpts draws an arbitrary valid combination of options.
func anyOpts(r *Rng, f *Feed) []string {
	p := pick(r, .06, .15, .3, .6)
	args := subset(r, procOpts, p)
	if r.P(.3) {
		args = append(args, subset(r, keepOpts, pick(r, .1, .4, .9))...)
	}
	if r.P(.2) {
		args = append(args, pickS(r, shortOpts))
	}
	if r.P(.5) {
		args = append(args, subset(r, miscOpts, .15)...)
	}
	if r.P(.15) {
		args = append(args, "--prefix", pick(r, "x", "0#", "p_", "1"))
	}
	if r.P(.15) {
		args = append(args, dateArgs(r, f)...)
	}
	if r.P(.15) {
		args = append(args, geoArgs(r, f)...)
		if r.P(.4) {
			args = append(args, "--complete-filtered-trips")
		}
	}
	if r.P(.1) {
		args = append(args, pick(r, "-M", "-N"), pick(r, "3", "0,1,2", "3,109", "7"))
	}
	if r.P(.1) {
		args = append(args, "--min-headway", strconv.Itoa(r.R(1, 600)))
	}
	if r.P(.1) {
		args = append(args, "--max-headway", strconv.Itoa(r.R(100, 4000)))
	}
	if r.P(.05) {
		args = append(args, "-p", pick(r, "-", "none"))
	}
	r.Shuffle(0, func(i, j int) {})
	return args
}

func dateArgs(r *Rng, f *Feed) (args []string) {
	lo, hi := feedDays(f)
	if hi < 0 {
		return
	}
	if hi-lo > 60 && r.P(.7) {
		hi = lo + 60
	}
	a := lo - 3 + r.N(hi-lo+6)
	b := a + r.N(hi-a+6)
	if b < a {
		b = a
	}
	if r.P(.8) {
		args = append(args, "--date-start", dayStr(a))
	}
	if r.P(.8) {
		args = append(args, "--date-end", dayStr(b))
	}
	return
}

func geoArgs(r *Rng, f *Feed) (args []string) {
	x0, y0, x1, y1 := feedBox(f)
	for k := r.R(1, 2); k > 0; k-- {
		w, h := x1-x0+.002, y1-y0+.002
		ax := x0 - .001 + r.Float64()*w*.7
		bx := ax + r.Float64()*w*.9 + .0005
		ay := y0 - .001 + r.Float64()*h*.7
		by := ay + r.Float64()*h*.9 + .0005
		if r.P(.3) { // everything
			ax, ay, bx, by = x0-1, y0-1, x1+1, y1+1
		}
		if r.P(.5) {
			args = append(args, "--bounding-box", fmt.Sprintf("%s,%s,%s,%s", ff(ay), ff(ax), ff(by), ff(bx)))
		} else {
			args = append(args, "--polygon", fmt.Sprintf("%s,%s,%s,%s,%s,%s", ff(ay), ff(ax), ff(by), ff(ax), ff((ay+by)/2), ff(bx)))
		}
	}
	return
}
