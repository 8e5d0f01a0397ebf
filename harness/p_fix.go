package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// C22, C23: erroneous feeds. A reference model says what has to remain of a feed with errors.

// fixer is the reference model of the error handling: what remains of a feed with -D (drop), -e (defaults),
// -n (null coordinates are errors) and -p (replacement of empty strings).
type fixer struct {
	D, E, N  bool
	P        string
	in, out  *Feed
	rejected string // first error that cannot be handled
	amb      string // what remains is not defined, or known to be wrong
	errs     map[string]int
}

var timeRe = regexp.MustCompile(`^\d+:\d\d:\d\d$`)

func okInt(s string, lo, hi int) bool {
	n, err := strconv.Atoi(s)
	return err == nil && n >= lo && n <= hi
}

func okFloat(s string) bool {
	x, err := strconv.ParseFloat(s, 64)
	return err == nil && !math.IsNaN(x) && !math.IsInf(x, 0)
}

func okDate(s string) bool {
	if len(s) != 8 {
		return false
	}
	return okInt(s[0:4], 1900, 2155) && okInt(s[4:6], 1, 12) && okInt(s[6:8], 1, 31)
}

func okTime(s string) bool {
	return timeRe.MatchString(s) && okInt(strings.SplitN(s, ":", 2)[0], 0, 127)
}

func okColor(s string) bool {
	if len(s) != 6 {
		return false
	}
	_, err := strconv.ParseUint(s, 16, 32)
	return err == nil
}

// the generators only write these bad values
func okURL(s string) bool  { return !strings.Contains(s, "%%") }
func okMail(s string) bool { return strings.Contains(s, "@") }
func okLang(s string) bool { return s != "xx" }
func okTZ(s string) bool   { return !strings.Contains(s, "Mars") }

// row is one row under examination.
type fixRow struct {
	fx   *fixer
	t    string
	r    Row
	bad  string // the row has an error that costs it
	soft int
}

// strict: an error that cannot be replaced by a default.
func (x *fixRow) strict(ok bool, what string) {
	if !ok && x.bad == "" {
		x.bad = what
	}
}

// need: a required value.
func (x *fixRow) need(col string, ok func(string) bool) {
	v := x.r[col]
	x.strict(v != "" && (ok == nil || ok(v)), col)
}

// opt: an optional value; -e replaces an erroneous one by the default.
func (x *fixRow) opt(ok func(string) bool, cols ...string) {
	for _, col := range cols {
		if v := x.r[col]; v != "" && !ok(v) {
			if x.fx.E {
				x.soft++
				delete(x.r, col)
			} else {
				x.strict(false, col)
			}
		}
	}
}

// noDef: an optional value for which the parser library has no default (left alone by the generators when -e is given).
func (x *fixRow) noDef(ok func(string) bool, cols ...string) {
	for _, col := range cols {
		if v := x.r[col]; v != "" && !ok(v) {
			if x.fx.E {
				x.fx.ambiguous("nodefault")
				x.soft++
				delete(x.r, col)
				continue
			}
			x.strict(false, col)
		}
	}
}

// name: a required text that -p may replace.
func (x *fixRow) name(cols ...string) {
	for _, col := range cols {
		if x.r[col] == "" {
			if x.fx.P != "" {
				x.r[col] = x.fx.P
			} else {
				x.strict(false, col)
			}
		}
	}
}

// ref: a reference that costs the row if dangling.
func (x *fixRow) ref(col string, have map[string]bool, req bool) {
	v := x.r[col]
	if v == "" {
		x.strict(!req, col)
		return
	}
	x.strict(have[v], "dangling "+col)
}

func (fx *fixer) ambiguous(s string) {
	if fx.amb == "" {
		fx.amb = s
	}
}

// lose notes the loss of a row (or of the whole feed without -D) and tells whether the row remains.
func (fx *fixer) lose(t, what string) {
	fx.errs[t]++
	if !fx.D && fx.rejected == "" {
		fx.rejected = t + ": " + what
	}
}

func rng(lo, hi int) func(string) bool { return func(s string) bool { return okInt(s, lo, hi) } }

func (fx *fixer) table(t string, f func(x *fixRow)) {
	for _, r := range fx.in.T[t] {
		x := &fixRow{fx: fx, t: t, r: r.clone()}
		for k, v := range x.r {
			if v == "" {
				delete(x.r, k)
			}
		}
		f(x)
		if x.bad != "" {
			fx.lose(t, x.bad)
			continue
		}
		if x.soft > 0 {
			fx.errs["soft"] += x.soft
		}
		fx.out.T[t] = append(fx.out.T[t], x.r)
	}
}

// unique ids
func (x *fixRow) id(col string, have map[string]bool) {
	x.strict(!have[x.r[col]], "duplicate "+col)
	if x.bad == "" {
		have[x.r[col]] = true
	}
}

func (x *fixRow) null(lat, lon string) {
	if x.fx.N && math.Abs(pf(x.r[lat])) < .0001 && math.Abs(pf(x.r[lon])) < .0001 {
		x.strict(false, "null coordinates")
	}
}

func okLat(s string) bool { return okFloat(s) && math.Abs(pf(s)) <= 90 }
func okLon(s string) bool { return okFloat(s) && math.Abs(pf(s)) <= 180 }

func (fx *fixer) run(in *Feed) {
	fx.in, fx.out, fx.errs = in, NewFeed(), map[string]int{}
	fx.out.Cols = in.Cols
	agency, level, stop, shape, route, svc, trip, fare := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	bit, nat := rng(0, 1), rng(0, math.MaxInt32)
	tz := ""
	fx.table("agency", func(x *fixRow) {
		x.name("agency_name")
		x.need("agency_url", okURL)
		x.need("agency_timezone", okTZ)
		x.opt(okLang, "agency_lang")
		x.opt(okURL, "agency_fare_url")
		x.opt(okMail, "agency_email")
		x.strict(tz == "" || x.r["agency_timezone"] == tz, "timezone differs")
		x.id("agency_id", agency)
		if x.bad == "" {
			tz = x.r["agency_timezone"]
		}
	})
	fx.table("feed_info", func(x *fixRow) {
		x.name("feed_publisher_name", "feed_lang")
		x.need("feed_publisher_url", okURL)
		x.opt(okMail, "feed_contact_email")
		x.opt(okURL, "feed_contact_url")
		x.noDef(okDate, "feed_start_date", "feed_end_date")
	})
	fx.table("levels", func(x *fixRow) {
		x.need("level_id", nil)
		x.opt(okFloat, "level_index")
		x.id("level_id", level)
	})
	// stops
	fx.table("stops", func(x *fixRow) {
		x.need("stop_id", nil)
		x.opt(rng(0, 4), "location_type")
		lt := atoi(x.r["location_type"], 0)
		if lt < 3 {
			x.name("stop_name")
			x.need("stop_lat", okLat)
			x.need("stop_lon", okLon)
		} else {
			x.opt(okFloat, "stop_lat", "stop_lon")
			la, lo := x.r["stop_lat"], x.r["stop_lon"]
			if (la == "") != (lo == "") {
				if fx.E {
					x.soft++
					delete(x.r, "stop_lat")
					delete(x.r, "stop_lon")
				} else {
					x.strict(false, "half a position")
				}
			} else if la != "" {
				x.strict(okLat(la) && okLon(lo), "position")
			}
		}
		if x.r["stop_lat"] != "" && x.bad == "" {
			x.null("stop_lat", "stop_lon")
		}
		x.opt(okURL, "stop_url")
		x.opt(okTZ, "stop_timezone")
		x.opt(rng(0, 2), "wheelchair_boarding")
		if lt == 1 {
			x.strict(x.r["parent_station"] == "", "parent of a station")
		}
		if lt > 1 {
			x.need("parent_station", nil)
		}
		if l := x.r["level_id"]; l != "" && !level[l] {
			x.noDef(func(string) bool { return false }, "level_id")
		}
		x.id("stop_id", stop)
	})
	typ := map[string]int{}
	for _, s := range fx.out.T["stops"] {
		typ[s["stop_id"]] = atoi(s["location_type"], 0)
	}
	gone := map[string]bool{}
	for _, s := range fx.out.T["stops"] {
		p := s["parent_station"]
		if p == "" {
			continue
		}
		lt, pt := typ[s["stop_id"]], 1
		if lt == 4 {
			pt = 0
		}
		if stop[p] && typ[p] == pt {
			continue
		}
		if lt == 0 && fx.E {
			delete(s, "parent_station")
			fx.errs["soft"]++
		} else {
			gone[s["stop_id"]] = true
			fx.lose("stops", "parent")
		}
	}
	for again := true; again; {
		again = false
		for _, s := range fx.out.T["stops"] {
			if id := s["stop_id"]; !gone[id] && gone[s["parent_station"]] {
				// children of stops dropped because of their own parent
				fx.ambiguous("chain")
				gone[id], again = true, true
			}
		}
	}
	var keep []Row
	for _, s := range fx.out.T["stops"] {
		if gone[s["stop_id"]] {
			delete(stop, s["stop_id"])
		} else {
			keep = append(keep, s)
		}
	}
	fx.out.T["stops"] = keep
	// shapes
	pts := map[string][]Row{}
	fx.table("shapes", func(x *fixRow) {
		x.need("shape_id", nil)
		x.need("shape_pt_lat", okLat)
		x.need("shape_pt_lon", okLon)
		x.need("shape_pt_sequence", nat)
		x.opt(okFloat, "shape_dist_traveled")
		if x.bad == "" {
			x.null("shape_pt_lat", "shape_pt_lon")
		}
		if x.bad == "" {
			pts[x.r["shape_id"]] = append(pts[x.r["shape_id"]], x.r)
		}
	})
	fx.out.T["shapes"] = nil
	for _, id := range sortedKeys(pts) {
		p := pts[id]
		sort.SliceStable(p, func(i, j int) bool { return atoi(p[i]["shape_pt_sequence"], 0) < atoi(p[j]["shape_pt_sequence"], 0) })
		fx.out.T["shapes"] = append(fx.out.T["shapes"], fx.measures("shapes", p, "shape_pt_sequence")...)
		shape[id] = true
	}
	nag := len(fx.out.T["agency"])
	fx.table("routes", func(x *fixRow) {
		x.need("route_id", nil)
		switch a := x.r["agency_id"]; {
		case a != "" && agency[a]:
		case a == "" && nag == 1:
		case a != "" && fx.E && nag == 1:
			x.r["agency_id"] = fx.out.T["agency"][0]["agency_id"]
			x.soft++
		default:
			x.strict(false, "agency")
		}
		if x.r["route_short_name"] == "" && x.r["route_long_name"] == "" {
			if fx.E {
				x.r["route_short_name"] = "-"
				x.soft++
			} else {
				x.strict(false, "no name")
			}
		}
		x.need("route_type", rng(0, 1702))
		x.opt(okURL, "route_url")
		x.opt(okColor, "route_color", "route_text_color")
		x.opt(nat, "route_sort_order")
		x.opt(rng(0, 3), "continuous_pickup", "continuous_drop_off")
		x.id("route_id", route)
	})
	fx.table("calendar", func(x *fixRow) {
		x.need("service_id", nil)
		for _, d := range wdNames {
			if v := x.r[d]; v == "" || !bit(v) {
				if fx.E {
					x.r[d] = "0"
					x.soft++
				} else {
					x.strict(false, d)
				}
			}
		}
		x.need("start_date", okDate)
		x.need("end_date", okDate)
		x.strict(x.bad != "" || x.r["start_date"] <= x.r["end_date"], "ends before it starts")
		if x.bad == "" && svc[x.r["service_id"]] {
			fx.ambiguous("duplicate-service")
			x.strict(false, "duplicate service_id")
		}
		x.id("service_id", svc)
	})
	exc := map[string]bool{}
	fx.table("calendar_dates", func(x *fixRow) {
		x.need("service_id", nil)
		x.need("date", okDate)
		x.need("exception_type", rng(1, 2))
		if x.bad == "" {
			k := x.r["service_id"] + "\x00" + x.r["date"]
			x.strict(!exc[k], "exception twice")
			exc[k] = true
			svc[x.r["service_id"]] = true
		}
	})
	fx.table("trips", func(x *fixRow) {
		x.need("trip_id", nil)
		x.ref("route_id", route, true)
		x.ref("service_id", svc, true)
		x.opt(func(s string) bool { return shape[s] }, "shape_id")
		x.opt(bit, "direction_id")
		x.opt(rng(0, 2), "wheelchair_accessible", "bikes_allowed")
		if x.bad == "" && trip[x.r["trip_id"]] {
			fx.ambiguous("duplicate-trip")
		}
		x.id("trip_id", trip)
	})
	ltype := map[string]string{}
	for _, s := range fx.out.T["stops"] {
		ltype[s["stop_id"]] = s["location_type"]
	}
	calls := map[string][]Row{}
	fx.table("stop_times", func(x *fixRow) {
		x.ref("trip_id", trip, true)
		x.ref("stop_id", stop, true)
		x.strict(atoi(ltype[x.r["stop_id"]], 0) == 0, "not a stop")
		a, d := x.r["arrival_time"], x.r["departure_time"]
		x.strict((a == "" || okTime(a)) && (d == "" || okTime(d)), "time")
		if (a == "") != (d == "") {
			if fx.E {
				x.r["arrival_time"], x.r["departure_time"] = a+d, a+d
				x.soft++
			} else {
				x.strict(false, "one time missing")
			}
		} else if x.bad == "" && a != "" {
			x.strict(parseTime(a) <= parseTime(d), "departs before it arrives")
		}
		x.need("stop_sequence", nat)
		x.noDef(rng(0, 3), "pickup_type", "drop_off_type")
		x.opt(rng(0, 3), "continuous_pickup", "continuous_drop_off")
		x.opt(okFloat, "shape_dist_traveled")
		x.opt(bit, "timepoint")
		if a == "" && d == "" && x.r["timepoint"] == "1" {
			if fx.E {
				delete(x.r, "timepoint")
				x.soft++
			} else {
				if fx.D {
					fx.ambiguous("timepoint")
				}
				x.strict(false, "timepoint without time")
			}
		}
		if x.bad == "" {
			calls[x.r["trip_id"]] = append(calls[x.r["trip_id"]], x.r)
		}
	})
	fx.out.T["stop_times"] = nil
	for _, id := range sortedKeys(calls) {
		p := calls[id]
		sort.SliceStable(p, func(i, j int) bool { return atoi(p[i]["stop_sequence"], 0) < atoi(p[j]["stop_sequence"], 0) })
		fx.out.T["stop_times"] = append(fx.out.T["stop_times"], fx.measures("stop_times", p, "stop_sequence")...)
	}
	fx.table("fare_attributes", func(x *fixRow) {
		x.need("fare_id", nil)
		if x.r["currency_type"] == "" {
			if fx.E {
				x.r["currency_type"] = "XXX"
				x.soft++
			} else {
				x.strict(false, "currency_type")
			}
		}
		x.noDef(bit, "payment_method")
		x.noDef(nat, "transfer_duration")
		x.opt(rng(0, 2), "transfers")
		switch a := x.r["agency_id"]; {
		case a != "" && agency[a]:
		case a == "" && nag <= 1:
		case a != "" && fx.E:
			delete(x.r, "agency_id")
			x.soft++
			if nag > 1 {
				fx.ambiguous("fare-agency")
				x.strict(false, "agency_id")
			}
		default:
			x.strict(false, "agency_id")
		}
		if x.bad == "" && fare[x.r["fare_id"]] {
			fx.ambiguous("duplicate-fare")
		}
		x.id("fare_id", fare)
	})
	fx.table("fare_rules", func(x *fixRow) {
		x.ref("fare_id", fare, true)
		x.ref("route_id", route, false)
	})
	fx.table("frequencies", func(x *fixRow) {
		x.ref("trip_id", trip, true)
		if x.bad == "" && x.r["start_time"] == "" {
			fx.ambiguous("frequency-time")
		}
		x.need("start_time", okTime)
		x.need("end_time", okTime)
		x.need("headway_secs", nat)
		x.opt(bit, "exact_times")
		x.strict(x.bad != "" || parseTime(x.r["start_time"]) <= parseTime(x.r["end_time"]), "ends before it starts")
	})
	tr := map[string]bool{}
	fx.table("transfers", func(x *fixRow) {
		k := ""
		for _, s := range []string{"from", "to"} {
			x.ref(s+"_stop_id", stop, false)
			x.ref(s+"_route_id", route, false)
			x.ref(s+"_trip_id", trip, false)
			x.strict(x.r[s+"_stop_id"] != "" || x.r[s+"_route_id"] != "" || x.r[s+"_trip_id"] != "", "no "+s)
			k += x.r[s+"_stop_id"] + "\x00" + x.r[s+"_route_id"] + "\x00" + x.r[s+"_trip_id"] + "\x00"
		}
		x.noDef(rng(0, 5), "transfer_type")
		x.opt(nat, "min_transfer_time")
		x.strict(!tr[k], "defined twice")
		if x.bad == "" {
			tr[k] = true
		}
	})
	path := map[string]bool{}
	fx.table("pathways", func(x *fixRow) {
		x.need("pathway_id", nil)
		for _, c := range []string{"from_stop_id", "to_stop_id"} {
			x.ref(c, stop, true)
			x.strict(atoi(ltype[x.r[c]], 0) != 1, "pathway at a station")
		}
		x.need("pathway_mode", rng(1, 7))
		if v := x.r["is_bidirectional"]; v == "" || !bit(v) {
			if fx.E {
				x.r["is_bidirectional"] = "0"
				x.soft++
			} else {
				x.strict(false, "is_bidirectional")
			}
		}
		x.opt(okFloat, "length", "max_slope")
		x.opt(func(s string) bool { return okFloat(s) && pf(s) >= 0 }, "min_width")
		x.opt(nat, "traversal_time")
		x.opt(rng(math.MinInt32, math.MaxInt32), "stair_count")
		x.id("pathway_id", path)
	})
	att := map[string]bool{}
	fx.table("attributions", func(x *fixRow) {
		x.name("organization_name")
		x.opt(bit, "is_producer", "is_operator", "is_authority")
		x.opt(okURL, "attribution_url")
		x.opt(okMail, "attribution_email")
		n := 0
		for _, c := range []string{"agency_id", "route_id", "trip_id"} {
			if x.r[c] != "" {
				n++
			}
		}
		x.strict(n < 2, "several references")
		x.ref("agency_id", agency, false)
		x.ref("route_id", route, false)
		x.ref("trip_id", trip, false)
		if x.r["attribution_id"] != "" {
			x.id("attribution_id", att)
		}
	})
}

// measures checks order, times and measures along a trip or shape.
func (fx *fixer) measures(t string, rows []Row, seq string) (keep []Row) {
	max := float32(math.Inf(-1))
	for _, r := range rows {
		if n := len(keep); n > 0 {
			last := keep[n-1]
			if atoi(last[seq], -1) == atoi(r[seq], -1) {
				if rowKey(last) != rowKey(r) {
					fx.ambiguous("collision")
				}
				fx.lose(t, "sequence collision")
				continue
			}
			if last["departure_time"] != "" && r["arrival_time"] != "" && parseTime(last["departure_time"]) > parseTime(r["arrival_time"]) {
				fx.lose(t, "arrives before the previous departure")
				continue
			}
		}
		if s := r["shape_dist_traveled"]; s != "" {
			d := float32(pf(s))
			if d < max {
				if !fx.E {
					fx.lose(t, "decreasing measure")
					continue
				}
				delete(r, "shape_dist_traveled")
				fx.errs["soft"]++
			} else {
				max = d
			}
		}
		keep = append(keep, r)
	}
	return
}

func fixerFor(args []string) *fixer {
	fx := &fixer{}
	ex := expandShort(args)
	for i, a := range ex {
		switch a {
		case "-D", "--drop-errs":
			fx.D = true
		case "-e", "--default-on-errs":
			fx.E = true
		case "-n", "--check-null-coords":
			fx.N = true
		case "-p", "--empty-str-repl":
			if i+1 < len(ex) {
				fx.P = ex[i+1]
			}
		}
	}
	return fx
}

// ---- corruption ----

var badInts, badFloats = []string{"x", "-3", "999999", "1.5", "1 2"}, []string{"x", "1.2.3", "abc"}
var badURL, badMail, badTime, badDate = []string{"%%", "a%%b"}, []string{"nomail", "me at home"}, []string{"x", "ab:cd:ef", "7:5:00", "0800", "200:00:00"}, []string{"20231399", "abc", "2023", "2023-01-01", "18001231"}

var badVals = map[string]map[string][]string{
	"agency":          {"agency_name": {""}, "agency_url": {"", "%%"}, "agency_timezone": {"", "Mars/Phobos"}, "agency_lang": {"xx"}, "agency_fare_url": badURL, "agency_email": badMail},
	"feed_info":       {"feed_publisher_name": {""}, "feed_lang": {""}, "feed_publisher_url": {"", "%%"}, "feed_contact_email": badMail, "feed_contact_url": badURL, "feed_start_date": badDate, "feed_end_date": badDate},
	"levels":          {"level_id": {""}, "level_index": badFloats},
	"stops":           {"stop_id": {""}, "location_type": {"x", "5", "-1", "1", "2", "0"}, "stop_name": {""}, "stop_lat": {"", "95.5", "x"}, "stop_lon": {"", "190", "-181", "x"}, "stop_url": badURL, "stop_timezone": {"Mars/Phobos"}, "wheelchair_boarding": badInts, "parent_station": {"", "nope"}, "level_id": {"nope"}},
	"shapes":          {"shape_id": {""}, "shape_pt_lat": {"", "95", "x"}, "shape_pt_lon": {"", "x", "181"}, "shape_pt_sequence": {"", "x", "-1"}, "shape_dist_traveled": badFloats},
	"routes":          {"route_id": {""}, "agency_id": {"", "nope"}, "route_short_name": {""}, "route_long_name": {""}, "route_type": {"", "x", "-1", "1800"}, "route_url": badURL, "route_color": {"red", "GGGGGG"}, "route_text_color": {"red", "GGGGGG", "#00000"}, "route_sort_order": {"x", "-3"}, "continuous_pickup": badInts, "continuous_drop_off": badInts},
	"calendar":        {"service_id": {""}, "monday": {"", "2", "x"}, "sunday": {"", "2", "x"}, "thursday": {"", "-1"}, "start_date": {"", "20231399", "abc"}, "end_date": {"", "20231399", "abc", "19500101"}},
	"calendar_dates":  {"service_id": {""}, "date": {"", "20231399", "abc"}, "exception_type": {"", "0", "3", "x"}},
	"trips":           {"trip_id": {""}, "route_id": {"", "nope"}, "service_id": {"", "nope"}, "shape_id": {"nope"}, "direction_id": badInts, "wheelchair_accessible": badInts, "bikes_allowed": badInts},
	"stop_times":      {"trip_id": {"", "nope"}, "stop_id": {"", "nope"}, "arrival_time": append([]string{""}, badTime...), "departure_time": append([]string{""}, badTime...), "stop_sequence": {"", "x", "-1"}, "pickup_type": badInts, "drop_off_type": badInts, "continuous_pickup": badInts, "continuous_drop_off": badInts, "shape_dist_traveled": badFloats, "timepoint": badInts},
	"fare_attributes": {"fare_id": {""}, "currency_type": {""}, "payment_method": badInts, "transfers": badInts, "transfer_duration": {"x", "-3"}, "agency_id": {"", "nope"}},
	"fare_rules":      {"fare_id": {"", "nope"}, "route_id": {"nope"}},
	"frequencies":     {"trip_id": {"", "nope"}, "start_time": append([]string{""}, badTime...), "end_time": append([]string{"", "00:00:00"}, badTime...), "headway_secs": {"", "x", "-60"}, "exact_times": {"x", "2"}},
	"transfers":       {"from_stop_id": {"", "nope"}, "to_stop_id": {"", "nope"}, "from_trip_id": {"nope"}, "to_route_id": {"nope"}, "transfer_type": badInts, "min_transfer_time": {"x", "-3"}},
	"pathways":        {"pathway_id": {""}, "from_stop_id": {"", "nope"}, "to_stop_id": {"", "nope"}, "pathway_mode": {"", "0", "8", "x"}, "is_bidirectional": {"", "x", "2"}, "length": badFloats, "traversal_time": {"x", "-3"}, "stair_count": {"x", "1.5"}, "max_slope": badFloats, "min_width": {"x", "-0.5"}},
	"attributions":    {"organization_name": {""}, "is_producer": badInts, "is_operator": badInts, "is_authority": badInts, "attribution_url": badURL, "attribution_email": badMail, "agency_id": {"nope"}, "route_id": {"nope"}, "trip_id": {"nope"}},
}

// corrupt makes one error somewhere in the feed.
func (f *Feed) corrupt(r *Rng) {
	for try := 0; try < 20; try++ {
		switch {
		case r.P(.5): // a bad value
			t := pickS(r, tableOrder)
			if len(f.T[t]) == 0 {
				continue
			}
			col := pickS(r, sortedKeys(badVals[t]))
			x := pickS(r, f.T[t])
			x[col] = pickS(r, badVals[t][col])
		case r.P(.3): // a row is missing: references to it dangle
			t := pick(r, "agency", "levels", "stops", "routes", "trips", "fare_attributes", "calendar", "calendar_dates", "shapes")
			if len(f.T[t]) == 0 {
				continue
			}
			if t == "shapes" {
				id := pickS(r, f.T[t])["shape_id"]
				var keep []Row
				for _, x := range f.T[t] {
					if x["shape_id"] != id {
						keep = append(keep, x)
					}
				}
				f.T[t] = keep
				return
			}
			i := r.N(len(f.T[t]))
			f.T[t] = append(append([]Row(nil), f.T[t][:i]...), f.T[t][i+1:]...)
		case r.P(.3): // a row twice
			t := pick(r, "agency", "levels", "stops", "routes", "pathways", "attributions", "transfers", "calendar_dates", "stop_times", "shapes")
			if len(f.T[t]) == 0 {
				continue
			}
			x := pickS(r, f.T[t]).clone()
			if t == "attributions" && x["attribution_id"] == "" {
				continue
			}
			switch t {
			case "stop_times", "shapes":
			case "calendar_dates":
				x["exception_type"] = pick(r, "1", "2")
			case "transfers":
				x["transfer_type"] = pick(r, "0", "1", "3")
			default:
				if c := pickS(r, stdCols[t]); r.P(.5) && c != defs[t][0] && refs[t][c] == "" && badVals[t][c] == nil {
					x[c] = "other"
				}
			}
			i := r.N(len(f.T[t]) + 1)
			f.T[t] = append(f.T[t][:i:i], append([]Row{x}, f.T[t][i:]...)...)
		case r.P(.4): // times out of order
			if len(f.T["stop_times"]) < 2 {
				continue
			}
			x := pickS(r, f.T["stop_times"])
			a := parseTime(x["arrival_time"])
			if a < 0 {
				x["timepoint"] = "1"
				return
			}
			if d := pick(r, 30, 300, 1800); r.P(.5) && a > d {
				x["arrival_time"], x["departure_time"] = fmtTime(a-d), fmtTime(a-d)
			} else if r.P(.5) {
				x["departure_time"] = fmtTime(parseTime(x["departure_time"]) + d)
			} else {
				x["arrival_time"] = fmtTime(parseTime(x["departure_time"]) + d)
			}
		case r.P(.4): // measures out of order
			t := pick(r, "stop_times", "shapes")
			var m []Row
			for _, x := range f.T[t] {
				if x["shape_dist_traveled"] != "" {
					m = append(m, x)
				}
			}
			if len(m) == 0 {
				continue
			}
			pickS(r, m)["shape_dist_traveled"] = pick(r, "0", "0.001", "123456", "7.5")
		case r.P(.4): // null coordinates
			if t := pick(r, "stops", "shapes"); t == "stops" && len(f.T[t]) > 0 {
				x := pickS(r, f.T[t])
				x["stop_lat"], x["stop_lon"] = pick(r, "0.0", "0.00005", "0.0002"), pick(r, "0", "-0.00009")
			} else if len(f.T[t]) > 0 {
				x := pickS(r, f.T[t])
				x["shape_pt_lat"], x["shape_pt_lon"] = "0.0", "0"
			}
		case r.P(.3):
			if len(f.T["calendar"]) == 0 {
				continue
			}
			x := pickS(r, f.T["calendar"])
			x["start_date"], x["end_date"] = x["end_date"], x["start_date"]
		case r.P(.3):
			if len(f.T["routes"]) == 0 {
				continue
			}
			x := pickS(r, f.T["routes"])
			delete(x, "route_short_name")
			delete(x, "route_long_name")
		case r.P(.3):
			if len(f.T["frequencies"]) == 0 {
				continue
			}
			x := pickS(r, f.T["frequencies"])
			x["start_time"], x["end_time"] = x["end_time"], x["start_time"]
		case r.P(.3): // references to entities of the wrong type
			if len(f.T["stops"]) < 2 {
				continue
			}
			s := pickS(r, f.T["stops"])["stop_id"]
			switch t := pick(r, "stop_times", "pathways", "stops"); {
			case len(f.T[t]) == 0:
				continue
			case t == "stops":
				pickS(r, f.T[t])["parent_station"] = s
			case t == "stop_times":
				pickS(r, f.T[t])["stop_id"] = s
			default:
				pickS(r, f.T[t])[pick(r, "from_stop_id", "to_stop_id")] = s
			}
		default:
			if len(f.T["attributions"]) == 0 || len(f.T["trips"]) == 0 || len(f.T["agency"]) == 0 {
				continue
			}
			x := pickS(r, f.T["attributions"])
			x["agency_id"], x["trip_id"] = f.T["agency"][0]["agency_id"], pickS(r, f.T["trips"])["trip_id"]
		}
		return
	}
}

func fixFeed(r *Rng) *Feed {
	o := swarm(r)
	o.Trips = r.R(1, 6)
	o.MissTimes = pick(r, 0.0, .3)
	f := genFeed(r, o)
	if r.P(.3) {
		f = shapeFeed(r, true)
	}
	return f
}

func fixArgs(r *Rng) (a []string) {
	switch r.N(9) {
	case 0:
		a = []string{"--fix"}
	case 1:
		a = []string{"-D"}
	case 2:
		a = []string{"--drop-errs", "--check-null-coords"}
	case 3:
		a = []string{"-e"}
	case 4:
		a = []string{"-D", "-e"}
	case 5:
		a = []string{"-eDnz", "-p", pick(r, "-", "unknown", "?")}
	case 6:
		a = []string{"--default-on-errs", "--drop-errs", "-n"}
	case 7:
		a = []string{"--drop-errs", "--empty-str-repl", pick(r, "-", "unnamed")}
	case 8:
		a = []string{"-e", "-n"}
	}
	return
}

func init() {
	register(&Prop{ID: "C22", Quick: 5000, Thorough: 60000,
		Rule: "random valid feeds (all tables) with one to six random errors (bad, missing and dangling values of every column, rows missing or doubled, times, sequences and measures out of order, wrong types, null coordinates) and error handling options, compared with a reference model of what has to remain; non-trivial: the model dropped a row or replaced a value, or the feed had to be rejected",
		Gen: func(r *Rng, th bool) *Case {
			f := fixFeed(r)
			for k := pick(r, 1, 1, 2, 3, 6); k > 0; k-- {
				f.corrupt(r)
			}
			c := &Case{Feeds: []*Feed{f}, Procs: pick(r, 1, 4), Meta: map[string]string{}}
			if r.P(.9) {
				c.Args = fixArgs(r)
			}
			if r.P(.15) { // several feeds, errors in any of them
				for k := pick(r, 1, 1, 2); k > 0; k-- {
					g := fixFeed(r)
					for j := pick(r, 0, 1, 2, 4); j > 0; j-- {
						g.corrupt(r)
					}
					c.Feeds = append(c.Feeds, g)
				}
				r.Shuffle(len(c.Feeds), func(i, j int) { c.Feeds[i], c.Feeds[j] = c.Feeds[j], c.Feeds[i] })
			}
			if r.P(.2) {
				c.Args = append(c.Args, pick(r, "-W", "--unsorted-files", "--explicit-calendar", "--keep-col-order", "-F"))
			}
			c.Meta["inzip"] = pick(r, "", "", "1", "sub")
			return c
		}, Check: checkC22})
	register(&Prop{ID: "C23", Quick: 5000, Thorough: 40000,
		Rule: "one to three random feeds, each valid or with random errors, and -v with any other options (processing, output, error handling, prefixes, date filters); the verdict is compared with the reference model and the scratch directory with its state before; non-trivial: any feed has errors, or options besides -v were given",
		Gen: func(r *Rng, th bool) *Case {
			c := &Case{Procs: pick(r, 1, 4), Meta: map[string]string{}}
			k := pick(r, 1, 1, 1, 2, 3)
			bad := r.P(.5)
			for i := 0; i < k; i++ {
				f := fixFeed(r)
				if bad && r.P(.6) {
					for j := pick(r, 1, 1, 2); j > 0; j-- {
						f.corrupt(r)
					}
				}
				c.Feeds = append(c.Feeds, f)
			}
			c.Args = []string{pick(r, "-v", "--validation-mode")}
			if r.P(.5) {
				c.Args = append(c.Args, subset(r, []string{"-D", "-e", "-z", "-W", "-F", "--keep-col-order", "--explicit-calendar", "--unsorted-files"}, .3)...)
			}
			if r.P(.4) {
				c.Args = append(c.Args, subset(r, procOpts, .2)...)
				c.Args = append(c.Args, subset(r, shortOpts, .1)...)
			}
			if r.P(.2) {
				c.Args = append(c.Args, "--prefix", "p")
			}
			if !bad && r.P(.4) {
				c.Args = append(c.Args, dateArgs(r, c.Feeds[0])...)
			}
			if !bad && r.P(.15) {
				c.Args = append(c.Args, "--fix")
			}
			c.Meta["out"] = pick(r, "", "dir", "zip", "existing", "none")
			c.Meta["inzip"] = pick(r, "", "", "1")
			return c
		}, Check: checkC23})
}

func checkC22(e *Env, c *Case) (res Res) {
	o := RunOpt{Procs: c.Procs, InZip: c.Meta["inzip"] != ""}
	ex := map[string]bool{}
	for _, a := range expandShort(c.Args) {
		ex[a] = true
	}
	fx := fixerFor(c.Args)
	fx.run(c.Feeds[0])
	if len(c.Feeds) > 1 { // every feed is cleaned on its own
		res.tag("several-feeds")
		outs := []*Feed{fx.out}
		for _, f := range c.Feeds[1:] {
			y := fixerFor(c.Args)
			y.run(f)
			outs = append(outs, y.out)
			if fx.amb == "" {
				fx.amb = y.amb
			}
			if fx.rejected == "" {
				fx.rejected = y.rejected
			}
			for t, n := range y.errs {
				fx.errs[t] += n
			}
		}
		for i, f := range c.Feeds { // which agency is the default is only defined for a single feed
			ag := map[string]bool{"": true}
			for _, a := range outs[i].T["agency"] {
				ag[a["agency_id"]] = true
			}
			for _, t := range []string{"routes", "fare_attributes"} {
				for _, x := range f.T[t] {
					if !ag[x["agency_id"]] || len(outs[i].T["agency"]) != len(f.T["agency"]) || (x["agency_id"] == "" && len(outs[i].T["agency"]) != 1) {
						fx.ambiguous("default-agency")
					}
				}
			}
		}
		fx.out = union(outs, prefixesOf(c))
	}
	if fx.amb != "" && c.Meta["finding"] == "" {
		res.Invalid = true
		res.tag("undefined-" + fx.amb)
		return
	}
	rejected := fx.rejected
	if c.Meta["inzip"] == "sub" {
		o.ZipDir = "feed/"
		if !ex["-z"] && !ex["--fix-zip"] {
			rejected = "files in a directory of the zip file"
		}
	}
	for t, n := range fx.errs {
		if n > 0 {
			res.NonTrivial = true
			res.tag("errors-" + t)
		}
	}
	kind := func(f *Fail) *Fail {
		if f != nil && fx.amb != "" {
			f.Kind = fx.amb
		}
		return f
	}
	if rejected != "" {
		res.NonTrivial = true
		res.tag("rejected")
		out := e.Run(c.Feeds, c.Args, c, o)
		switch {
		case out.Timeout:
			res.Fail = kind(failf("hang", "gtfstidy %q did not terminate", out.Args))
		case out.Code == 0:
			res.Fail = kind(failf("accepted", "a feed with an unhandled error (%s) was accepted: args %q", rejected, out.Args))
		case strings.Contains(out.Stderr, "goroutine ") || out.Signal:
			res.Fail = kind(failf("crash", "crash instead of an error message (%s): %s", rejected, out.msg()))
		case strings.TrimSpace(out.Stderr) == "":
			res.Fail = kind(failf("silent", "exit status %d without an error message (%s)", out.Code, rejected))
		case out.HasOut:
			res.Fail = kind(failf("output", "output written although the feed was rejected (%s): args %q", rejected, out.Args))
		}
		return
	}
	res.tagIf(fx.D && fx.E, "-D -e")
	res.tagIf(fx.D && !fx.E, "-D only")
	res.tagIf(!fx.D && fx.E, "-e only")
	out, f := e.do(c, c.Args, o)
	if f != nil {
		res.Fail = kind(f)
		return
	}
	want := fx.out
	if !ex["-F"] {
		want = stripAdd(want)
	}
	if f := sameFeed(want, out.F); f != nil {
		res.Fail = kind(f)
		return
	}
	if f := closed(out.F); f != nil && fx.errs["soft"]+len(fx.errs) > 0 {
		res.Fail = kind(failf("invalid", "the output is not valid: %s", f.Msg))
		return
	}
	res.Fail = kind(e.validates(c, out.Files))
	return
}

func checkC23(e *Env, c *Case) (res Res) {
	o := RunOpt{Procs: c.Procs, InZip: c.Meta["inzip"] != ""}
	switch c.Meta["out"] {
	case "zip":
		o.Zip = true
	case "none":
		o.NoOut = true
	case "existing":
		o.PreOut = map[string]string{"agency.txt": "old\n", "shapes.txt": "old\n", "notes.txt": "keep\n"}
	}
	ex := map[string]bool{}
	for _, a := range expandShort(c.Args) {
		ex[a] = true
	}
	bad := ""
	for i, f := range c.Feeds {
		fx := &fixer{N: ex["-n"]}
		fx.run(f)
		if fx.amb != "" && c.Meta["finding"] == "" {
			res.Invalid = true
			res.tag("undefined-" + fx.amb)
			return
		}
		if fx.amb != "" {
			c.Meta["finding"] = fx.amb
		}
		if fx.rejected != "" && bad == "" {
			bad = fmt.Sprintf("feed %d: %s", i, fx.rejected)
		}
	}
	if bad != "" && (ex["--date-start"] || ex["--date-end"] || ex["--fix"] || ex["-p"] || ex["-n"]) {
		res.Invalid = true
		return
	}
	kind := func(f *Fail) *Fail {
		if f != nil && c.Meta["finding"] != "" {
			f.Kind = c.Meta["finding"]
		}
		return f
	}
	diff := ""
	o.Watch = &diff
	out := e.Run(c.Feeds, c.Args, c, o)
	res.tagIf(bad != "", "erroneous")
	res.tagIf(bad == "", "valid")
	res.tag("out-" + c.Meta["out"])
	res.NonTrivial = bad != "" || len(c.Args) > 1
	switch {
	case out.Timeout:
		res.Fail = failf("hang", "gtfstidy %q did not terminate", out.Args)
	case diff != "":
		res.Fail = failf("wrote", "-v changed files: %s: args %q", diff, out.Args)
	case strings.Contains(out.Stderr, "goroutine ") || out.Signal:
		res.Fail = kind(failf("crash", "crash in validation mode: %s", out.msg()))
	case bad != "" && out.Code == 0:
		res.Fail = kind(failf("missed", "validation accepts an erroneous feed (%s): args %q", bad, out.Args))
	case bad != "" && strings.TrimSpace(out.Stderr) == "":
		res.Fail = kind(failf("silent", "no error message for an erroneous feed (%s): args %q", bad, out.Args))
	case bad != "" && strings.Contains(out.Stdout, "No errors"):
		res.Fail = kind(failf("missed", "validation says \"No errors\" for an erroneous feed (%s): args %q", bad, out.Args))
	case bad == "" && (out.Code != 0 || strings.TrimSpace(out.Stderr) != ""):
		res.Fail = kind(failf("false", "validation rejects a valid feed: args %q: %s", out.Args, out.msg()))
	case bad == "" && !strings.Contains(out.Stdout, "No errors"):
		res.Fail = kind(failf("verdict", "validation of a valid feed does not report that there are no errors: args %q: %q", out.Args, out.Stdout))
	}
	return
}
