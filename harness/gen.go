package main

// Structured generator of valid GTFS feeds.

import (
	"fmt"
	"math"
	"math/rand/v2"
	"slices"
	"sort"
	"strconv"
	"strings"
)

type Rng struct{ *rand.Rand }

func newRng(seed uint64, stream string, idx uint64) *Rng {
	h := uint64(14695981039346656037)
	for i := 0; i < len(stream); i++ {
		h ^= uint64(stream[i])
		h *= 1099511628211
	}
	return &Rng{rand.New(rand.NewPCG(seed*0x9E3779B97F4A7C15+h, idx*0xD1B54A32D192ED03+h))}
}

func (r *Rng) P(p float64) bool { return r.Float64() < p }
func (r *Rng) N(n int) int {
	if n <= 0 {
		return 0
	}
	return r.IntN(n)
}
func (r *Rng) R(a, b int) int { return a + r.N(b-a+1) }
func pick[T any](r *Rng, xs ...T) T {
	return xs[r.N(len(xs))]
}
func pickS[T any](r *Rng, xs []T) T { return xs[r.N(len(xs))] }

// GOpt: feature probabilities for one feed; the zero value of a pointer means "swarm".
type GOpt struct {
	Stops, Routes, Services, Trips int // upper bounds
	Freq, Shapes, Hier, Fares      float64
	Transfers, Pathways, Attr      float64
	AddCols, OddText, Levels       float64
	FeedInfo, Dup, Orphans         float64
	MissTimes, Cont, Dist          float64
	LongRange                      float64 // services over several years
	MultiAgency                    float64
	MaxDays                        int
	EmptySvc                       float64
	BigIDs                         bool
	NoTripTransfers                bool
	ExactOnly                      bool // only exact frequencies
	DistinctDup                    bool
	NoCollinear                    bool
}

// swarm draws a random feature selection.
func swarm(r *Rng) GOpt {
	on := func(p, q float64) float64 {
		if r.P(p) {
			return q
		}
		return 0
	}
	o := GOpt{
		Stops: r.R(3, 9), Routes: r.R(1, 4), Services: r.R(1, 5), Trips: r.R(1, 12),
		Freq: on(.4, .3), Shapes: on(.7, .8), Hier: on(.6, .5), Fares: on(.5, 1), Transfers: on(.5, 1), Pathways: on(.4, 1),
		Attr: on(.4, 1), AddCols: on(.3, 1), OddText: on(.4, .4), Levels: on(.4, 1), FeedInfo: on(.5, 1), Dup: on(.8, .5),
		Orphans: on(.5, .6), MissTimes: on(.4, .3), Cont: on(.3, .4), Dist: on(.5, .8), LongRange: on(.15, .3), MultiAgency: on(.5, 1),
		MaxDays: pick(r, 10, 30, 60), EmptySvc: on(.3, .3),
	}
	return o
}

type gen struct {
	r      *Rng
	o      GOpt
	f      *Feed
	idSty  int
	ctr    map[string]int
	perm   map[string][]int
	stops  []Row // all
	board  []Row // location_type 0
	lat0   float64
	lon0   float64
	texts  []string
	feed   int
	shapes map[string][][3]float64
	day0   int
	usedID map[string]bool
	ids    map[string][]string
}

var oddTexts = []string{"a,b", `say "hi"`, "Zürich HB", "東京", "x;y", "'q'", "A  B", "ø", "=1+1", "#7", "0#1", "back\\slash", "Ω-Platz, Süd \"Tor\""}

var fillers = []string{"-", ".", "..", "...", "?"}

func (g *gen) text(base string) string {
	if base != "" && g.o.OddText > 0 && g.r.P(g.o.OddText) {
		if g.r.P(.15) { // texts that some feeds use for "nothing"
			return pickS(g.r, fillers)
		}
		return base + " " + pickS(g.r, oddTexts)
	}
	return base
}

// name is like text, but never one of the fillers (a route needs a name even if they are removed).
func (g *gen) name(base string) string {
	for {
		s := g.text(base)
		if !slices.Contains(fillers, s) {
			return s
		}
	}
}

// id creates a fresh identifier for a kind of entity.
func (g *gen) id(kind string) string {
	n := g.ctr[kind]
	g.ctr[kind]++
	for try := 0; ; try++ {
		var s string
		switch g.idSty {
		case 0:
			s = kind + "_" + strconv.Itoa(n)
		case 1: // small integers, shuffled: collide with minimized ids
			p := g.perm[kind]
			if p == nil {
				p = g.r.Perm(40)
				g.perm[kind] = p
			}
			if n < len(p) {
				s = strconv.Itoa(p[n])
			} else {
				s = strconv.Itoa(n + 1)
			}
		case 2: // base 36 look-alikes
			p := g.perm[kind]
			if p == nil {
				p = g.r.Perm(60)
				g.perm[kind] = p
			}
			if n < len(p) {
				s = strconv.FormatInt(int64(p[n]), 36)
			} else {
				s = strconv.FormatInt(int64(n+100), 36)
			}
		case 3: // odd but legal ids
			s = pickS(g.r, []string{"0#", "1#", "p", "", "0#0#", "Ü,", "x y ", "a\"b", "-"}) + kind[:1] + strconv.Itoa(n)
		case 5: // ids like those the processors make up for new entities
			e := string(rune('a' + g.r.N(4)))
			if l := g.ids[kind]; len(l) > 0 && g.r.P(.9) {
				e = pickS(g.r, l)
			}
			s = e
			switch {
			case kind == "stop" && g.r.P(.6):
				s = pick(g.r, "par::", "par::", "par1::", "1#", "1#", "2#") + e
			case kind == "trip" && g.r.P(.7):
				s = e + pick(g.r, "_2", "_2", "_3", "1", "2", "3", ":Monday", ":Friday", ":Sunday", ":Monday (WW1)")
			case kind == "service" && g.r.P(.7):
				s = pick(g.r, "merged0", "merged1", "merged2", e+"1", e+"2", e+"3", "Monday", "Tuesday", "Friday", "Sunday", "Monday (WW1)")
			case kind == "attribution" && g.r.P(.5):
				s = e + ":2"
			default:
				s = string(rune('a'+g.r.N(26))) + pick(g.r, "", strconv.Itoa(n))
			}
			if len(s) > 60 {
				s = kind + strconv.Itoa(n)
			}
		default:
			s = pickS(g.r, []string{"0#", "1#", "", "", "-", "p"}) + strconv.Itoa(g.r.N(30))
		}
		if try > 200 { // all ids of this style are in use
			s += "." + strconv.Itoa(try)
		}
		if !g.usedID[kind+"\x00"+s] {
			g.usedID[kind+"\x00"+s] = true
			g.ids[kind] = append(g.ids[kind], s)
			return s
		}
		if g.idSty == 1 || g.idSty == 2 || g.idSty == 0 {
			n = g.ctr[kind] + 100
			g.ctr[kind]++
		}
	}
}

const mPerLat = 111320.0

func (g *gen) at(dx, dy float64) (string, string) {
	lat := g.lat0 + dy/mPerLat
	lon := g.lon0 + dx/(mPerLat*math.Cos(g.lat0*math.Pi/180))
	return strconv.FormatFloat(lat, 'f', 6, 64), strconv.FormatFloat(lon, 'f', 6, 64)
}

func (g *gen) add(t string, r Row) Row {
	for k, v := range r {
		if v == "" {
			delete(r, k)
		}
	}
	g.f.T[t] = append(g.f.T[t], r)
	return r
}

func genFeed(r *Rng, o GOpt) *Feed {
	g := &gen{r: r, o: o, f: NewFeed(), ctr: map[string]int{}, perm: map[string][]int{}, usedID: map[string]bool{}, shapes: map[string][][3]float64{}, ids: map[string][]string{}}
	g.idSty = pick(r, 0, 0, 1, 1, 2, 3, 4, 5)
	ll := pick(r, [2]float64{47.99, 7.85}, [2]float64{-33.86, 151.2}, [2]float64{0.3, -0.4}, [2]float64{52.37, 4.9}, [2]float64{40.7, -74})
	g.lat0, g.lon0 = ll[0], ll[1]
	g.day0 = dayNum(pick(r, "20230102", "20231218", "20240226", "20241230", "20250601"))
	g.agencies()
	g.levels()
	g.genStops()
	g.routes()
	g.services()
	g.patternsTrips()
	g.transfers()
	g.pathways()
	g.fares()
	g.attributions()
	g.feedInfo()
	g.addCols()
	g.shuffle()
	return g.f
}

func (g *gen) agencies() {
	n := 1
	if g.r.P(g.o.MultiAgency) {
		n = g.r.R(1, 3)
	}
	var rows []Row
	for i := 0; i < n; i++ {
		if i > 0 && g.r.P(g.o.Dup) {
			c := pickS(g.r, rows).clone()
			c["agency_id"] = g.id("agency")
			if g.r.P(.5) {
				g.mutateAttr(c, map[string][]string{"agency_name": {"AgX"}, "agency_url": {"http://x.example"},
					"agency_lang": {"de", "fr", ""}, "agency_phone": {"0761", ""}, "agency_fare_url": {"http://fare.example/x", ""}, "agency_email": {"z@example.org", ""}})
			}
			rows = append(rows, g.add("agency", c))
			continue
		}
		a := Row{"agency_id": g.id("agency"), "agency_name": g.text("Agency " + pick(g.r, "A", "B")), "agency_url": pick(g.r, "http://a.example/x?b=1", "https://b.example"), "agency_timezone": "Europe/Berlin"}
		if g.r.P(.4) {
			a["agency_lang"] = pick(g.r, "de", "en", "fr")
		}
		if g.r.P(.3) {
			a["agency_phone"] = "+49 761 1"
		}
		if g.r.P(.3) {
			a["agency_fare_url"] = "http://fare.example/"
		}
		if g.r.P(.3) {
			a["agency_email"] = "me@example.org"
		}
		rows = append(rows, g.add("agency", a))
	}
	if n == 1 && g.r.P(.15) {
		delete(rows[0], "agency_id")
	}
}

// mutateAttr changes exactly one attribute of a row.
func (g *gen) mutateAttr(c Row, opts map[string][]string) {
	ks := make([]string, 0, len(opts))
	for k := range opts {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for try := 0; try < 10; try++ {
		k := pickS(g.r, ks)
		v := pickS(g.r, opts[k])
		if c[k] != "" && g.r.P(.3) {
			v = subtle(g.r, k, c[k], v)
		}
		if c[k] == v {
			continue
		}
		if v == "" {
			delete(c, k)
		} else {
			c[k] = v
		}
		return
	}
}

// subtle gives a value that is only slightly different from v, or def if there is none for the column.
func subtle(r *Rng, col, v, def string) string {
	switch {
	case strings.HasSuffix(col, "_url"):
		switch r.N(4) {
		case 0:
			if strings.HasPrefix(v, "http://") {
				return "https" + v[4:]
			}
		case 1:
			return strings.Replace(v, "://", "://www.", 1)
		case 2:
			if !strings.ContainsAny(v, "?#") {
				return v + "?lang=de"
			}
		}
		if strings.Contains(v, "?") {
			return v + "2"
		}
		return strings.TrimSuffix(v, "/") + "/sub"
	case strings.HasSuffix(col, "_email"):
		return "a" + v
	case strings.HasSuffix(col, "_name"), strings.HasSuffix(col, "_desc"), strings.HasSuffix(col, "_phone"), strings.HasSuffix(col, "_code"), col == "zone_id":
		x := v + "x"
		switch r.N(4) {
		case 0:
			x = strings.ToUpper(v)
		case 1:
			x = strings.ToLower(v)
		case 2:
			q := []rune(v)
			x = strings.TrimSpace(string(q[:len(q)-1]))
		}
		if x == "" || x == v {
			x = v + "x"
		}
		return x
	}
	return def
}

func (g *gen) levels() {
	if !g.r.P(g.o.Levels) {
		return
	}
	n := g.r.R(1, 3)
	for i := 0; i < n; i++ {
		if i > 0 && g.r.P(g.o.Dup) {
			c := pickS(g.r, g.f.T["levels"]).clone()
			c["level_id"] = g.id("level")
			if g.r.P(.4) {
				g.mutateAttr(c, map[string][]string{"level_index": {"5", "-2.5"}, "level_name": {"Mezz", ""}})
			}
			g.add("levels", c)
			continue
		}
		g.add("levels", Row{"level_id": g.id("level"), "level_index": pick(g.r, "0", "1", "-1", "0.5"), "level_name": g.text(pick(g.r, "Ground", "Upper", ""))})
	}
}

func (g *gen) levelRef() string {
	if l := g.f.T["levels"]; len(l) > 0 && g.r.P(.5) {
		return pickS(g.r, l)["level_id"]
	}
	return ""
}

func (g *gen) agencyRef() string {
	a := g.f.T["agency"]
	if len(a) == 1 && g.r.P(.5) {
		return ""
	}
	return pickS(g.r, a)["agency_id"]
}

type spot struct{ x, y float64 }

func (g *gen) genStops() {
	n := g.r.R(2, max(2, g.o.Stops))
	names := []string{"Main St", "Oak Ave", "Central", "Airport", "Park", "University", "Harbour", "Museum"}
	ang := g.r.Float64() * 6.28
	mk := func(name string, x, y float64) Row {
		la, lo := g.at(x, y)
		s := Row{"stop_id": g.id("stop"), "stop_name": name, "stop_lat": la, "stop_lon": lo}
		if g.r.P(.3) {
			s["stop_code"] = "C" + strconv.Itoa(g.r.N(5))
			if g.r.P(g.o.OddText) {
				s["stop_code"] = pickS(g.r, fillers)
			}
		}
		if g.r.P(.2) {
			s["stop_desc"] = g.text("desc")
		}
		if g.r.P(.3) {
			s["zone_id"] = pick(g.r, "Z1", "Z2")
		}
		if g.r.P(.15) {
			s["stop_url"] = "http://stop.example/1"
		}
		if g.r.P(.15) {
			s["stop_timezone"] = "Europe/Berlin"
		}
		if g.r.P(.3) {
			s["wheelchair_boarding"] = pick(g.r, "0", "1", "2")
		}
		if l := g.levelRef(); l != "" {
			s["level_id"] = l
		}
		if g.r.P(.3) {
			s["platform_code"] = pick(g.r, "1", "2", "a")
		}
		return s
	}
	stopMut := map[string][]string{"stop_code": {"C9", ""}, "stop_name": {"Other Name"}, "stop_desc": {"another", ""}, "zone_id": {"Z3", ""},
		"stop_url": {"http://stop.example/2", ""}, "stop_timezone": {"Europe/Paris", ""}, "wheelchair_boarding": {"1", "2", ""}, "platform_code": {"9", ""}}
	place := func(i int) spot {
		d := float64(i) * (350 + g.r.Float64()*300)
		return spot{d*math.Cos(ang) + g.r.Float64()*120 - 60, d*math.Sin(ang) + g.r.Float64()*120 - 60}
	}
	for i := 0; i < n; i++ {
		p := place(i)
		name := g.text(names[i%len(names)])
		var st Row
		if g.r.P(g.o.Hier) {
			st = mk(name, p.x, p.y)
			st["location_type"] = "1"
			if g.r.P(.8) {
				delete(st, "platform_code")
			}
			g.add("stops", st)
			if g.r.P(.15) { // childless station
				continue
			}
		}
		k := 1
		if st != nil {
			k = g.r.R(1, 3)
		}
		for j := 0; j < k; j++ {
			dx, dy := g.r.Float64()*40-20, g.r.Float64()*40-20
			if g.r.P(.1) {
				dx += 150
			}
			s := mk(name, p.x+dx, p.y+dy)
			if g.r.P(.2) {
				s["location_type"] = "0"
			}
			if st != nil {
				s["parent_station"] = st["stop_id"]
			}
			g.add("stops", s)
			if st != nil && g.r.P(.1) { // boarding area
				b := mk(name, p.x+dx, p.y+dy+1)
				b["location_type"] = "4"
				b["parent_station"] = s["stop_id"]
				if g.r.P(.5) {
					delete(b, "stop_lat")
					delete(b, "stop_lon")
				}
				g.add("stops", b)
			}
			// near duplicate
			if g.r.P(g.o.Dup * .7) {
				c := s.clone()
				c["stop_id"] = g.id("stop")
				switch g.r.N(5) {
				case 0: // exact copy
				case 1: // tiny offset
					c["stop_lat"], c["stop_lon"] = g.at(p.x+dx+1.5, p.y+dy)
				case 2:
					c["stop_lat"], c["stop_lon"] = g.at(p.x+dx+20, p.y+dy)
				default:
					g.mutateAttr(c, stopMut)
				}
				g.add("stops", c)
			}
		}
		if st != nil {
			if g.r.P(.4) {
				e := mk(name+" E", p.x+15, p.y)
				e["location_type"] = "2"
				e["parent_station"] = st["stop_id"]
				g.add("stops", e)
			}
			if g.r.P(.3) {
				e := mk(name+" N", p.x+5, p.y)
				e["location_type"] = "3"
				e["parent_station"] = st["stop_id"]
				if g.r.P(.5) {
					delete(e, "stop_lat")
					delete(e, "stop_lon")
				}
				g.add("stops", e)
			}
			if g.r.P(g.o.Dup * .5) { // duplicate station, with a child
				c := st.clone()
				c["stop_id"] = g.id("stop")
				off := pick(g.r, 0.0, 3, 20, 120)
				c["stop_lat"], c["stop_lon"] = g.at(p.x+off, p.y)
				if g.r.P(.3) {
					g.mutateAttr(c, stopMut)
				}
				g.add("stops", c)
				ch := mk(name, p.x, p.y)
				if g.r.P(.5) {
					for _, s := range g.f.T["stops"] {
						if s["parent_station"] == st["stop_id"] && atoi(s["location_type"], 0) == 0 {
							id := ch["stop_id"]
							ch = s.clone()
							ch["stop_id"] = id
							break
						}
					}
				}
				ch["parent_station"] = c["stop_id"]
				g.add("stops", ch)
			}
		}
	}
	for _, s := range g.f.T["stops"] {
		if atoi(s["location_type"], 0) == 0 {
			g.board = append(g.board, s)
		}
	}
	for len(g.board) < 2 {
		p := place(n + len(g.board))
		g.board = append(g.board, g.add("stops", mk(g.text("Extra"), p.x, p.y)))
	}
}

func (g *gen) routes() {
	n := g.r.R(1, max(1, g.o.Routes))
	for i := 0; i < n; i++ {
		if i > 0 && g.r.P(g.o.Dup) {
			c := pickS(g.r, g.f.T["routes"]).clone()
			c["route_id"] = g.id("route")
			if g.r.P(.6) {
				ag := []string{}
				for _, a := range g.f.T["agency"] {
					if a["agency_id"] != "" {
						ag = append(ag, a["agency_id"])
					}
				}
				m := map[string][]string{"route_short_name": {"99"}, "route_long_name": {"Elsewhere Line"}, "route_desc": {"rd", ""}, "route_type": {"0", "3", "109", "2"},
					"route_url": {"http://route.example/2", ""}, "route_color": {"00FF00", ""}, "route_text_color": {"111111", ""}, "route_sort_order": {"3", ""},
					"continuous_pickup": {"0", "2", ""}, "continuous_drop_off": {"0", "3", ""}}
				if len(ag) > 1 {
					m["agency_id"] = ag
				}
				g.mutateAttr(c, m)
			}
			g.add("routes", c)
			continue
		}
		r := Row{"route_id": g.id("route"), "agency_id": g.agencyRef(), "route_type": pick(g.r, "0", "1", "2", "3", "3", "3", "4", "5", "6", "7", "11", "12", "100", "109", "700", "900")}
		switch g.r.N(3) {
		case 0:
			r["route_short_name"] = strconv.Itoa(g.r.R(1, 20))
		case 1:
			r["route_long_name"] = g.name("Line to " + pick(g.r, "A", "B", "C"))
		default:
			r["route_short_name"] = strconv.Itoa(g.r.R(1, 20))
			r["route_long_name"] = g.name("Line to " + pick(g.r, "A", "B", "C"))
		}
		if g.r.P(.2) {
			r["route_desc"] = g.text("rdesc")
		}
		if g.r.P(.2) {
			r["route_url"] = "http://route.example/1"
		}
		if g.r.P(.3) {
			r["route_color"] = pick(g.r, "FF0000", "FFFFFF", "00ff7f")
		}
		if g.r.P(.3) {
			r["route_text_color"] = pick(g.r, "000000", "0000FF", "abcdef")
		}
		if g.r.P(.2) {
			r["route_sort_order"] = strconv.Itoa(g.r.N(4))
		}
		if g.r.P(g.o.Cont) {
			r["continuous_pickup"] = strconv.Itoa(g.r.N(4))
		}
		if g.r.P(g.o.Cont) {
			r["continuous_drop_off"] = strconv.Itoa(g.r.N(4))
		}
		g.add("routes", r)
	}
}

func (g *gen) addSvc(id string, mask [7]bool, hasCal bool, s, e int, exc map[int]int) {
	if hasCal {
		row := Row{"service_id": id, "start_date": dayStr(s), "end_date": dayStr(e)}
		for i, n := range wdNames {
			row[n] = "0"
			if mask[i] {
				row[n] = "1"
			}
		}
		g.add("calendar", row)
	}
	ds := make([]int, 0, len(exc))
	for d := range exc {
		ds = append(ds, d)
	}
	sort.Ints(ds)
	for _, d := range ds {
		g.add("calendar_dates", Row{"service_id": id, "date": dayStr(d), "exception_type": strconv.Itoa(exc[d])})
	}
}

func (g *gen) randMask() [7]bool {
	var m [7]bool
	switch g.r.N(6) {
	case 0:
		for i := 0; i < 5; i++ {
			m[i] = true
		}
	case 1:
		m[5], m[6] = true, true
	case 2:
		for i := range m {
			m[i] = true
		}
	case 3:
		m[g.r.N(7)] = true
	default:
		for i := range m {
			m[i] = g.r.P(.5)
		}
	}
	return m
}

func (g *gen) services() {
	n := g.r.R(1, max(1, g.o.Services))
	type sv struct {
		mask   [7]bool
		hasCal bool
		s, e   int
		exc    map[int]int
	}
	var all []sv
	days := func(v sv) []int {
		x := &Svc{HasCal: v.hasCal, Mask: v.mask, Start: v.s, End: v.e, Exc: v.exc}
		x.calcDays()
		return x.Days
	}
	for i := 0; i < n; i++ {
		var v sv
		switch {
		case i > 0 && g.r.P(g.o.Dup):
			o := pickS(g.r, all)
			v = sv{o.mask, o.hasCal, o.s, o.e, map[int]int{}}
			for k, x := range o.exc {
				v.exc[k] = x
			}
			switch g.r.N(6) {
			case 0: // same dates written as exceptions only
				v = sv{exc: map[int]int{}}
				for _, d := range days(o) {
					v.exc[d] = 1
				}
				if len(v.exc) == 0 || len(v.exc) > 120 {
					v = sv{mask: o.mask, hasCal: true, s: g.day0, e: g.day0 + 3, exc: map[int]int{}}
				}
			case 1: // one more / less date
				if ds := days(o); len(ds) > 0 {
					d := pickS(g.r, ds)
					if g.r.P(.3) {
						d = ds[len(ds)-1]
					} else if g.r.P(.4) {
						d = ds[0]
					}
					if v.exc[d] == 1 {
						delete(v.exc, d)
					} else {
						v.exc[d] = 2
					}
				} else {
					v.exc[g.day0+g.r.N(9)] = 1
				}
			case 2: // range extended without effect or with
				if v.hasCal {
					v.e += g.r.R(1, 7)
				}
			case 3: // shifted by a week or year
				sh := pick(g.r, 7, 14, 1, 364, 371, 365, 366, 31, 28, 731)
				if sh%7 != 0 && g.r.P(.6) { // keep the days relative to the start
					var m [7]bool
					for i, x := range v.mask {
						m[(i+sh)%7] = x
					}
					v.mask = m
				}
				v.s += sh
				v.e += sh
				ne := map[int]int{}
				for k, x := range v.exc {
					ne[k+sh] = x
				}
				v.exc = ne
			case 4: // adjacent continuation
				if v.hasCal {
					l := v.e - v.s
					v.s = v.e + 1
					v.e = v.s + l
					v.exc = map[int]int{}
				}
			}
		case g.r.P(g.o.EmptySvc * .6): // a service that never runs
			v = sv{hasCal: true, s: g.day0, e: g.day0 + 6, exc: map[int]int{}}
			if g.r.P(.5) {
				v.mask[2] = true
				v.exc[func() int {
					for d := v.s; ; d++ {
						if dayWd(d) == 2 {
							return d
						}
					}
				}()] = 2
			}
		case g.r.P(.25): // exceptions only
			v = sv{exc: map[int]int{}}
			k := g.r.R(1, 12)
			span := max(2, g.o.MaxDays)
			st := g.r.N(10)
			if g.r.P(.5) { // regular weekdays
				wd := g.r.N(7)
				for d := g.day0; d < g.day0+span; d++ {
					if dayWd(d) == wd && g.r.P(.9) {
						v.exc[d] = 1
					}
				}
			} else {
				for j := 0; j < k; j++ {
					v.exc[g.day0+st+g.r.N(span)] = 1
				}
			}
			if g.r.P(.1) {
				v.exc[g.day0+g.r.N(span)] = 2
			}
			if len(v.exc) == 0 {
				v.exc[g.day0] = 1
			}
		default:
			v = sv{mask: g.randMask(), hasCal: true, exc: map[int]int{}}
			l := g.r.N(max(1, g.o.MaxDays))
			if g.r.P(g.o.LongRange) {
				l = g.r.R(300, 800)
			}
			v.s = g.day0 + g.r.N(10)
			v.e = v.s + l
			if g.r.P(.5) {
				for j := g.r.N(6); j > 0; j-- {
					v.exc[v.s-4+g.r.N(l+8)] = g.r.R(1, 2)
				}
			}
			if g.r.P(.08) { // exception on first / last day
				v.exc[v.s] = 2
				v.exc[v.e] = 2
			}
		}
		all = append(all, v)
		g.addSvc(g.id("service"), v.mask, v.hasCal, v.s, v.e, v.exc)
	}
}

func (g *gen) svcIDs() []string {
	seen := map[string]bool{}
	var ids []string
	for _, t := range []string{"calendar", "calendar_dates"} {
		for _, r := range g.f.T[t] {
			if !seen[r["service_id"]] {
				seen[r["service_id"]] = true
				ids = append(ids, r["service_id"])
			}
		}
	}
	return ids
}

type pattern struct {
	route string
	seq   []Row
	shape string
	run   []int // run time to stop i (seconds)
	dwell []int
	pd    [][4]string // pu do cpu cdo
	head  string
	tp    []string
	miss  []bool
	seqNo []int
	dist  []float64
	hasD  bool
}

func (g *gen) pt(s Row) (float64, float64) {
	la, lo := pf(s["stop_lat"]), pf(s["stop_lon"])
	return (lo - g.lon0) * mPerLat * math.Cos(g.lat0*math.Pi/180), (la - g.lat0) * mPerLat
}

// shape through stops; returns id and cumulative distances of the stops along it
func (g *gen) makeShape(seq []Row) (string, []float64) {
	id := g.id("shape")
	type p struct{ x, y float64 }
	var pts []p
	idx := make([]int, len(seq))
	far := g.r.P(.08)
	for i, s := range seq {
		x, y := g.pt(s)
		if i > 0 {
			px, py := g.pt(seq[i-1])
			k := g.r.N(4)
			for j := 1; j <= k; j++ {
				t := float64(j) / float64(k+1)
				var ox, oy float64
				switch g.r.N(4) {
				case 0:
					ox, oy = g.r.Float64()*1.2-.6, g.r.Float64()*1.2-.6
				case 1:
					ox, oy = g.r.Float64()*6-3, g.r.Float64()*6-3
				case 2:
					ox, oy = g.r.Float64()*80-40, g.r.Float64()*80-40
				}
				pts = append(pts, p{px + (x-px)*t + ox, py + (y-py)*t + oy})
			}
			if g.r.P(.05) { // repeated point
				pts = append(pts, p{px, py})
			}
		}
		ox, oy := g.r.Float64()*10-5, g.r.Float64()*10-5
		if far && g.r.P(.5) {
			ox += 300
		} else if g.r.P(.1) {
			ox += pick(g.r, 40.0, 90, 110, 150)
		}
		pts = append(pts, p{x + ox, y + oy})
		idx[i] = len(pts) - 1
	}
	d := make([]float64, len(pts))
	for i := 1; i < len(pts); i++ {
		d[i] = d[i-1] + math.Hypot(pts[i].x-pts[i-1].x, pts[i].y-pts[i-1].y)
	}
	scale := pick(g.r, 1.0, .001, 1)
	mode := g.r.N(4) // 0 none 1 all 2 gaps 3 leading/trailing gaps
	if g.o.Dist == 0 {
		mode = 0
	}
	var nums []int
	sq := g.r.N(3)
	for range pts {
		nums = append(nums, sq)
		sq += pick(g.r, 1, 1, 1, 2, 10)
	}
	for i, q := range pts {
		la, lo := g.at(q.x, q.y)
		row := Row{"shape_id": id, "shape_pt_lat": la, "shape_pt_lon": lo, "shape_pt_sequence": strconv.Itoa(nums[i])}
		has := mode == 1 || (mode == 2 && g.r.P(.6)) || (mode == 3 && i > 0 && i < len(pts)-1)
		if has {
			row["shape_dist_traveled"] = strconv.FormatFloat(d[i]*scale, 'f', 2, 64)
		}
		g.add("shapes", row)
	}
	res := make([]float64, len(seq))
	for i := range seq {
		res[i] = d[idx[i]] * scale
	}
	if mode != 1 {
		return id, nil
	}
	return id, res
}

func (g *gen) dupShape(id string) string {
	nid := g.id("shape")
	mode := g.r.N(4)
	var rows []Row
	for _, r := range g.f.T["shapes"] {
		if r["shape_id"] == id {
			rows = append(rows, r)
		}
	}
	drop := -1
	if mode == 3 && len(rows) > 2 {
		drop = g.r.R(1, len(rows)-2)
	}
	mv := g.r.N(len(rows))
	for i, r := range rows {
		if i == drop {
			continue
		}
		c := r.clone()
		c["shape_id"] = nid
		la, lo := pf(c["shape_pt_lat"]), pf(c["shape_pt_lon"])
		switch {
		case mode == 1 && i == mv:
			c["shape_pt_lat"] = strconv.FormatFloat(la+.3/mPerLat, 'f', 6, 64)
			c["shape_pt_lon"] = strconv.FormatFloat(lo, 'f', 6, 64)
		case mode == 2 && i == mv:
			c["shape_pt_lat"] = strconv.FormatFloat(la+pick(g.r, 2.0, 5, 30)/mPerLat, 'f', 6, 64)
		}
		g.add("shapes", c)
	}
	return nid
}

func (g *gen) patternsTrips() {
	np := g.r.R(1, 4)
	var pats []*pattern
	svcs := g.svcIDs()
	for i := 0; i < np; i++ {
		var p *pattern
		if i > 0 && g.r.P(g.o.Dup) {
			q := *pickS(g.r, pats)
			p = &q
			p.seq = append([]Row(nil), p.seq...)
			p.run = append([]int(nil), p.run...)
			p.dwell = append([]int(nil), p.dwell...)
			p.pd = append([][4]string(nil), p.pd...)
			p.tp = append([]string(nil), p.tp...)
			p.miss = append([]bool(nil), p.miss...)
			switch g.r.N(7) {
			case 0:
				p.seq[g.r.N(len(p.seq))] = pickS(g.r, g.board)
			case 1:
				p.run[len(p.run)-1] += 60
			case 2:
				p.pd[g.r.N(len(p.pd))][g.r.N(2)] = pick(g.r, "1", "2", "3")
			case 3:
				p.route = pickS(g.r, g.f.T["routes"])["route_id"]
			case 4:
				if p.shape != "" {
					p.shape = g.dupShape(p.shape)
				}
			case 5:
				p.dwell[g.r.N(len(p.dwell))] += 30
			case 6:
				p.head = g.text("Elsewhere")
			}
			pats = append(pats, p)
			continue
		}
		k := g.r.R(2, 6)
		p = &pattern{route: pickS(g.r, g.f.T["routes"])["route_id"]}
		st := g.r.N(len(g.board))
		dir := pick(g.r, 1, -1)
		for j := 0; j < k; j++ {
			x := ((st+dir*j)%len(g.board) + len(g.board)) % len(g.board)
			if g.r.P(.15) {
				x = g.r.N(len(g.board))
			}
			p.seq = append(p.seq, g.board[x])
			if g.r.P(.08) { // repeated call
				p.seq = append(p.seq, g.board[x])
			}
		}
		k = len(p.seq)
		sq := g.r.N(3)
		t := 0
		for j := 0; j < k; j++ {
			p.seqNo = append(p.seqNo, sq)
			sq += pick(g.r, 1, 1, 1, 2, 10)
			p.run = append(p.run, t)
			dw := pick(g.r, 0, 0, 30, 60)
			p.dwell = append(p.dwell, dw)
			t += dw + g.r.R(1, 10)*60
			var pd [4]string
			if g.r.P(.12) {
				pd[0] = pick(g.r, "0", "1", "2", "3")
			}
			if g.r.P(.12) {
				pd[1] = pick(g.r, "0", "1", "2", "3")
			}
			if g.r.P(g.o.Cont * .4) {
				pd[2] = pick(g.r, "0", "1", "2", "3")
			}
			if g.r.P(g.o.Cont * .4) {
				pd[3] = pick(g.r, "0", "1", "2", "3")
			}
			p.pd = append(p.pd, pd)
			p.tp = append(p.tp, pick(g.r, "", "", "", "1", "0"))
			p.miss = append(p.miss, j > 0 && j < k-1 && g.r.P(g.o.MissTimes))
		}
		p.head = g.text(pick(g.r, "", "Downtown", "Uptown"))
		if p.head == "" || strings.HasPrefix(p.head, " ") {
			p.head = ""
		}
		if g.r.P(g.o.Shapes) {
			var d []float64
			p.shape, d = g.makeShape(p.seq)
			if d != nil && g.r.P(.7) {
				p.dist, p.hasD = d, true
			}
		} else if g.r.P(g.o.Dist * .2) {
			p.hasD = true
			for j := 0; j < k; j++ {
				p.dist = append(p.dist, float64(j)*400)
			}
		}
		pats = append(pats, p)
	}
	nt := g.r.R(1, max(1, g.o.Trips))
	type tripSpec struct {
		row Row
		sts []Row
		frq []Row
	}
	var specs []tripSpec
	base := g.r.R(4, 9) * 3600
	hw := pick(g.r, 300, 600, 900, 1200)
	for i := 0; i < nt; i++ {
		if i > 0 && g.r.P(g.o.Dup*.8) {
			o := pickS(g.r, specs)
			c := tripSpec{row: o.row.clone()}
			c.row["trip_id"] = g.id("trip")
			for _, s := range o.sts {
				x := s.clone()
				x["trip_id"] = c.row["trip_id"]
				c.sts = append(c.sts, x)
			}
			for _, s := range o.frq {
				x := s.clone()
				x["trip_id"] = c.row["trip_id"]
				c.frq = append(c.frq, x)
			}
			switch g.r.N(9) {
			case 0: // identical
			case 1, 2, 3: // other service
				c.row["service_id"] = pickS(g.r, svcs)
			case 4, 5: // later departure
				sh := hw * g.r.R(1, 5)
				for _, s := range c.sts {
					for _, k := range []string{"arrival_time", "departure_time"} {
						if s[k] != "" {
							s[k] = fmtTime(parseTime(s[k]) + sh)
						}
					}
				}
			case 6:
				g.mutateAttr(c.row, map[string][]string{"trip_headsign": {"Mutated", ""}, "trip_short_name": {"S9", ""}, "direction_id": {"0", "1", ""},
					"block_id": {"b9", ""}, "wheelchair_accessible": {"1", "2", ""}, "bikes_allowed": {"1", "2", ""}})
			case 7:
				if c.row["shape_id"] != "" {
					delete(c.row, "shape_id")
					for _, s := range c.sts {
						_ = s
					}
				}
			case 8: // one attribute of one call
				s := pickS(g.r, c.sts)
				g.mutateAttr(s, map[string][]string{"pickup_type": {"1", "2", "3", ""}, "drop_off_type": {"1", "2", "3", ""}, "continuous_pickup": {"0", "2", ""}, "continuous_drop_off": {"0", "3", ""}})
			}
			specs = append(specs, c)
			continue
		}
		p := pickS(g.r, pats)
		id := g.id("trip")
		row := Row{"route_id": p.route, "service_id": pickS(g.r, svcs), "trip_id": id, "trip_headsign": p.head, "shape_id": p.shape}
		if g.r.P(.2) {
			row["trip_short_name"] = "S" + strconv.Itoa(g.r.N(3))
		}
		if g.r.P(.4) {
			row["direction_id"] = pick(g.r, "0", "1")
		}
		if g.r.P(.2) {
			row["block_id"] = pick(g.r, "b1", "b2", "1", "2")
		}
		if g.r.P(.2) {
			row["wheelchair_accessible"] = pick(g.r, "0", "1", "2")
		}
		if g.r.P(.2) {
			row["bikes_allowed"] = pick(g.r, "0", "1", "2")
		}
		for k, v := range row {
			if v == "" {
				delete(row, k)
			}
		}
		start := base + hw*g.r.N(24)
		if g.r.P(.1) {
			start += 24 * 3600
		}
		if g.r.P(.1) {
			start += g.r.N(500)
		}
		sp := tripSpec{row: row}
		for j := range p.seq {
			s := Row{"trip_id": id, "stop_id": p.seq[j]["stop_id"], "stop_sequence": strconv.Itoa(p.seqNo[j])}
			if !p.miss[j] {
				s["arrival_time"] = fmtTime(start + p.run[j])
				s["departure_time"] = fmtTime(start + p.run[j] + p.dwell[j])
				if p.tp[j] != "" {
					s["timepoint"] = p.tp[j]
				}
			}
			for k, n := range []string{"pickup_type", "drop_off_type", "continuous_pickup", "continuous_drop_off"} {
				if p.pd[j][k] != "" {
					s[n] = p.pd[j][k]
				}
			}
			if p.hasD {
				s["shape_dist_traveled"] = strconv.FormatFloat(p.dist[j], 'f', 2, 64)
			}
			sp.sts = append(sp.sts, s)
		}
		if g.r.P(g.o.Freq) {
			t := start
			ex := pick(g.r, "", "0", "1", "1")
			if g.o.ExactOnly {
				ex = "1"
			}
			for k := g.r.R(1, 2); k > 0; k-- {
				h := pick(g.r, hw, 60, 420)
				e := t + h*g.r.R(1, 6) - g.r.N(2)*(h/2)
				fr := Row{"trip_id": id, "start_time": fmtTime(t), "end_time": fmtTime(e), "headway_secs": strconv.Itoa(h)}
				if ex != "" {
					fr["exact_times"] = ex
				}
				sp.frq = append(sp.frq, fr)
				t = e + h*g.r.R(1, 3)
			}
		}
		specs = append(specs, sp)
	}
	for _, s := range specs {
		g.add("trips", s.row)
		for _, x := range s.sts {
			g.add("stop_times", x)
		}
		for _, x := range s.frq {
			g.add("frequencies", x)
		}
	}
	// orphan shape, trip without stop times
	if g.r.P(g.o.Orphans * .5) {
		g.makeShape([]Row{pickS(g.r, g.board), pickS(g.r, g.board)})
	}
	if g.r.P(g.o.Orphans * .3) {
		g.add("trips", Row{"route_id": pickS(g.r, g.f.T["routes"])["route_id"], "service_id": pickS(g.r, svcs), "trip_id": g.id("trip")})
	}
	if g.r.P(g.o.Orphans * .3) {
		id := g.id("trip")
		g.add("trips", Row{"route_id": pickS(g.r, g.f.T["routes"])["route_id"], "service_id": pickS(g.r, svcs), "trip_id": id})
		t := base
		g.add("stop_times", Row{"trip_id": id, "stop_id": pickS(g.r, g.board)["stop_id"], "stop_sequence": "1", "arrival_time": fmtTime(t), "departure_time": fmtTime(t)})
	}
}

func (g *gen) transfers() {
	if !g.r.P(g.o.Transfers) {
		return
	}
	seen := map[string]bool{}
	for k := g.r.R(1, 6); k > 0; k-- {
		t := Row{"transfer_type": pick(g.r, "0", "1", "2", "3", "")}
		for _, side := range []string{"from", "to"} {
			x := g.r.N(10)
			if x < 9 {
				t[side+"_stop_id"] = g.stopOrStation()["stop_id"]
			}
			if x >= 8 || g.r.P(.2) {
				t[side+"_route_id"] = pickS(g.r, g.f.T["routes"])["route_id"]
			}
			if !g.o.NoTripTransfers && g.r.P(.15) {
				tr := pickS(g.r, g.f.T["trips"])
				t[side+"_trip_id"] = tr["trip_id"]
				delete(t, side+"_route_id")
				if t[side+"_stop_id"] == "" {
					t[side+"_stop_id"] = g.stopOrStation()["stop_id"]
				}
			}
		}
		if t["transfer_type"] == "2" {
			t["min_transfer_time"] = pick(g.r, "60", "180")
		}
		key := rowKey(t, "transfer_type", "min_transfer_time")
		if seen[key] {
			continue
		}
		seen[key] = true
		g.add("transfers", t)
	}
}

func (g *gen) stopOrStation() Row {
	if g.r.P(.7) {
		return pickS(g.r, g.board)
	}
	var c []Row
	for _, s := range g.f.T["stops"] {
		if lt := atoi(s["location_type"], 0); lt == 0 || lt == 1 {
			c = append(c, s)
		}
	}
	return pickS(g.r, c)
}

func (g *gen) pathways() {
	if !g.r.P(g.o.Pathways) {
		return
	}
	by := map[string][]Row{}
	var keys []string
	for _, s := range g.f.T["stops"] {
		if atoi(s["location_type"], 0) != 1 && s["parent_station"] != "" {
			if by[s["parent_station"]] == nil {
				keys = append(keys, s["parent_station"])
			}
			by[s["parent_station"]] = append(by[s["parent_station"]], s)
		}
	}
	for _, k := range keys {
		if len(by[k]) < 2 {
			continue
		}
		for n := g.r.N(3); n > 0; n-- {
			a, b := pickS(g.r, by[k]), pickS(g.r, by[k])
			p := Row{"pathway_id": g.id("pathway"), "from_stop_id": a["stop_id"], "to_stop_id": b["stop_id"], "pathway_mode": strconv.Itoa(g.r.R(1, 7)), "is_bidirectional": pick(g.r, "0", "1")}
			if g.r.P(.3) {
				p["length"] = pick(g.r, "12.5", "0", "100")
			}
			if g.r.P(.3) {
				p["traversal_time"] = "42"
			}
			if g.r.P(.2) {
				p["stair_count"] = pick(g.r, "-5", "12")
			}
			if g.r.P(.2) {
				p["max_slope"] = "0.1"
			}
			if g.r.P(.2) {
				p["min_width"] = "1.25"
			}
			if g.r.P(.2) {
				p["signposted_as"] = g.text("Exit")
			}
			if g.r.P(.2) {
				p["reversed_signposted_as"] = g.text("Platform")
			}
			g.add("pathways", p)
		}
	}
}

func (g *gen) fares() {
	if !g.r.P(g.o.Fares) {
		return
	}
	zones := []string{}
	zs := map[string]bool{}
	for _, s := range g.f.T["stops"] {
		if z := s["zone_id"]; z != "" && !zs[z] {
			zs[z] = true
			zones = append(zones, z)
		}
	}
	for n := g.r.R(1, 3); n > 0; n-- {
		f := Row{"fare_id": g.id("fare"), "price": pick(g.r, "1.50", "2.00", "3"), "currency_type": "EUR", "payment_method": pick(g.r, "0", "1"), "transfers": pick(g.r, "", "0", "1", "2"),
			"agency_id": g.agencyRef()}
		if g.r.P(.3) {
			f["transfer_duration"] = "3600"
		}
		g.add("fare_attributes", f)
		seen := map[string]bool{}
		for k := g.r.N(4); k > 0; k-- {
			r := Row{"fare_id": f["fare_id"]}
			if g.r.P(.7) {
				r["route_id"] = pickS(g.r, g.f.T["routes"])["route_id"]
			}
			if len(zones) > 0 {
				if g.r.P(.4) {
					r["origin_id"] = pickS(g.r, zones)
				}
				if g.r.P(.4) {
					r["destination_id"] = pickS(g.r, zones)
				}
				if g.r.P(.2) {
					r["contains_id"] = pickS(g.r, zones)
				}
			}
			if k := rowKey(r); !seen[k] && len(r) > 1 {
				seen[k] = true
				g.add("fare_rules", r)
			}
		}
	}
	// equal fare rules for several routes
	if rt := g.f.T["routes"]; len(rt) > 1 && g.r.P(g.o.Dup) {
		f := pickS(g.r, g.f.T["fare_attributes"])["fare_id"]
		have := map[string]bool{}
		for _, x := range g.f.T["fare_rules"] {
			have[rowKey(x)] = true
		}
		for _, r := range rt {
			if g.r.P(.8) {
				x := Row{"fare_id": f, "route_id": r["route_id"]}
				if !have[rowKey(x)] {
					g.add("fare_rules", x)
				}
			}
		}
	}
}

func (g *gen) attributions() {
	if !g.r.P(g.o.Attr) {
		return
	}
	add := func(ref, id string) {
		a := Row{"organization_name": g.text(pick(g.r, "Org A", "Org B"))}
		if g.r.P(.6) {
			a["attribution_id"] = g.id("attribution")
		}
		if ref != "" {
			a[ref] = id
		}
		a[pick(g.r, "is_producer", "is_operator", "is_authority")] = "1"
		if g.r.P(.2) {
			a["attribution_url"] = "http://attr.example/"
		}
		if g.r.P(.2) {
			a["attribution_email"] = "attr@example.org"
		}
		if g.r.P(.2) {
			a["attribution_phone"] = "123"
		}
		g.add("attributions", a)
	}
	for n := g.r.R(1, 4); n > 0; n-- {
		switch g.r.N(4) {
		case 0:
			add("", "")
		case 1:
			if id := pickS(g.r, g.f.T["agency"])["agency_id"]; id != "" {
				add("agency_id", id)
			}
		case 2:
			add("route_id", pickS(g.r, g.f.T["routes"])["route_id"])
		case 3:
			add("trip_id", pickS(g.r, g.f.T["trips"])["trip_id"])
		}
	}
}

func (g *gen) feedInfo() {
	if !g.r.P(g.o.FeedInfo) {
		return
	}
	fi := Row{"feed_publisher_name": g.text("Pub"), "feed_publisher_url": "http://pub.example/", "feed_lang": pick(g.r, "de", "en")}
	if g.r.P(.5) {
		fi["feed_start_date"] = dayStr(g.day0)
		fi["feed_end_date"] = dayStr(g.day0 + 30)
	}
	if g.r.P(.5) {
		fi["feed_version"] = "v1"
	}
	if g.r.P(.3) {
		fi["feed_contact_email"] = "c@example.org"
	}
	if g.r.P(.3) {
		fi["feed_contact_url"] = "http://contact.example/"
	}
	g.add("feed_info", fi)
}

func (g *gen) addCols() {
	if !g.r.P(g.o.AddCols) {
		return
	}
	n := 0
	for _, t := range tableOrder {
		if !g.r.P(.6) || t == "calendar" || t == "calendar_dates" {
			continue // the parser library has no place for them (see C28's known finding)
		}
		for k := g.r.R(1, 2); k > 0; k-- {
			c := pick(g.r, "x_a", "ext_"+t, "tts_"+t)
			for _, r := range g.f.T[t] {
				if g.r.P(.85) {
					n++
					r[c] = "v" + strconv.Itoa(n)
					if g.r.P(.2) {
						r[c] = "v"
					}
				}
			}
		}
	}
}

func (g *gen) shuffle() {
	for _, t := range tableOrder {
		rows := g.f.T[t]
		if g.r.P(.4) {
			g.r.Shuffle(len(rows), func(i, j int) { rows[i], rows[j] = rows[j], rows[i] })
		}
	}
}

func describeFeed(f *Feed) string {
	var b strings.Builder
	for _, t := range tableOrder {
		if n := len(f.T[t]); n > 0 {
			fmt.Fprintf(&b, "%s=%d ", t, n)
		}
	}
	return strings.TrimSpace(b.String())
}
