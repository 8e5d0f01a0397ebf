package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
)

// C17 (-S), C18 (-s), C19 (-m), C20 (-r), C21 (--snap-stops)

type spt struct {
	la, lo, m float64 // m: NaN without measure
}

// translate moves a feed close to (0,0), where float32 coordinates are precise, or elsewhere.
func translate(f *Feed, la, lo float64) {
	var a0, o0 float64
	found := false
	for _, s := range f.T["stops"] {
		if s["stop_lat"] != "" {
			a0, o0, found = pf(s["stop_lat"]), pf(s["stop_lon"]), true
			break
		}
	}
	if !found {
		return
	}
	mv := func(r Row, x, y string) {
		if r[x] != "" {
			r[x] = strconv.FormatFloat(pf(r[x])-a0+la, 'f', 7, 64)
			r[y] = strconv.FormatFloat(pf(r[y])-o0+lo, 'f', 7, 64)
		}
	}
	for _, s := range f.T["stops"] {
		mv(s, "stop_lat", "stop_lon")
	}
	for _, s := range f.T["shapes"] {
		mv(s, "shape_pt_lat", "shape_pt_lon")
	}
}

func shapePts(rows []Row) (p []spt) {
	sort.SliceStable(rows, func(i, j int) bool {
		return atoi(rows[i]["shape_pt_sequence"], 0) < atoi(rows[j]["shape_pt_sequence"], 0)
	})
	for _, r := range rows {
		m := math.NaN()
		if r["shape_dist_traveled"] != "" {
			m = pf(r["shape_dist_traveled"])
		}
		p = append(p, spt{pf(r["shape_pt_lat"]), pf(r["shape_pt_lon"]), m})
	}
	return
}

func (f *Feed) shapeMap() map[string][]spt {
	by := map[string][]Row{}
	for _, r := range f.T["shapes"] {
		by[r["shape_id"]] = append(by[r["shape_id"]], r)
	}
	m := map[string][]spt{}
	for id, rows := range by {
		m[id] = shapePts(rows)
	}
	return m
}

func (f *Feed) addShape(r *Rng, id string, p []spt) {
	n := r.N(3)
	for _, x := range p {
		row := Row{"shape_id": id, "shape_pt_lat": strconv.FormatFloat(x.la, 'f', 7, 64), "shape_pt_lon": strconv.FormatFloat(x.lo, 'f', 7, 64), "shape_pt_sequence": strconv.Itoa(n)}
		if x.m == x.m {
			row["shape_dist_traveled"] = strconv.FormatFloat(x.m, 'f', -1, 64)
		}
		f.T["shapes"] = append(f.T["shapes"], row)
		n += pick(r, 1, 1, 1, 2, 7)
	}
}

func off(p spt, dx, dy float64) spt {
	p.la += dy / mPerLat
	p.lo += dx / (mPerLat * math.Cos(p.la*math.Pi/180))
	return p
}

// measure (re)assigns measures following a random pattern.
func measure(r *Rng, p []spt, pattern int) {
	d, scale := 0.0, pick(r, 1.0, 1, .001, .1, 2.5)
	if pattern == 6 {
		d = 500
	}
	for i := range p {
		if i > 0 {
			d += havers(p[i-1].la, p[i-1].lo, p[i].la, p[i].lo)
		}
		x := math.Round(d*scale*100) / 100
		switch pattern {
		case 0:
			x = math.NaN()
		case 1, 6:
		case 2: // gaps
			if r.P(.4) {
				x = math.NaN()
			}
		case 3: // leading and trailing gaps
			if i < len(p)/3 || i > 2*len(p)/3 {
				x = math.NaN()
			}
		case 4: // one measure
			if i != len(p)/2 {
				x = math.NaN()
			}
		case 5: // constant
			x = 7
			if r.P(.5) {
				x = math.NaN()
			}
		case 7: // plateaus
			x = math.Floor(d*scale/50) * 50
		case 8: // only first and last
			if i > 0 && i < len(p)-1 {
				x = math.NaN()
			}
		}
		p[i].m = x
	}
}

// densify returns the same line with additional points; the measures between two measured points are linear or bent.
func densify(r *Rng, p []spt) (q []spt) {
	bend := pick(r, 1.0, 1, 1.05, .7, 3, .2, 8)
	step := pick(r, 4.0, 15, 40, 90)
	for i := range p {
		if i > 0 {
			a, b := p[i-1], p[i]
			n := min(40, int(havers(a.la, a.lo, b.la, b.lo)/step))
			for j := 1; j <= n; j++ {
				u := float64(j) / float64(n+1)
				q = append(q, spt{a.la + u*(b.la-a.la), a.lo + u*(b.lo-a.lo), a.m + math.Pow(u, bend)*(b.m-a.m)})
			}
		}
		q = append(q, p[i])
	}
	return
}

// shapeFeed: a random feed with many shapes, most of them used by trips.
func shapeFeed(r *Rng, pair bool) *Feed {
	o := swarm(r)
	o.Shapes = 1
	o.Trips = r.R(2, 8)
	o.Dist = pick(r, 0, .8)
	f := genFeed(r, o)
	switch r.N(4) {
	case 0, 1:
		translate(f, .3, -.4)
	case 2:
		translate(f, 0.001, 0.001)
	}
	have := f.shapeMap()
	base := sortedKeys(have)
	nid := 0
	used := map[string]bool{}
	for _, id := range base {
		used[id] = true
	}
	newID := func() string {
		for {
			nid++
			if id := pick(r, "n", "x", "") + strconv.Itoa(nid); !used[id] {
				used[id] = true
				return id
			}
		}
	}
	lat, lon := .3, -.4
	for _, s := range f.T["stops"] {
		if s["stop_lat"] != "" {
			lat, lon = pf(s["stop_lat"]), pf(s["stop_lon"])
			break
		}
	}
	random := func() (p []spt) {
		n := pick(r, 1, 2, 2, 3, 5, 8, 20, 60, 60, 130)
		if r.P(.06) {
			n = r.R(200, 1300)
		}
		q := off(spt{la: lat, lo: lon}, r.Float64()*2000-1000, r.Float64()*2000-1000)
		if r.P(.1) {
			q = off(q, pick(r, 20000.0, -12000), pick(r, 0.0, 7000))
		}
		kind := r.N(7)
		ang := r.Float64() * 6.28
		step := pick(r, 3.0, 30, 200)
		if n > 100 { // stay away from 0,0
			step = pick(r, 2.0, 10)
		}
		if kind == 3 {
			ang = pick(r, 0.0, math.Pi/2, math.Pi)
		}
		for i := 0; i < n; i++ {
			p = append(p, q)
			switch kind {
			case 0: // random walk
				ang += r.Float64()*2 - 1
			case 1: // zig-zag
				ang = pick(r, 0.0, 1.57, 3.14, 4.71)
			case 2: // nearly straight
				e := pick(r, 0, 0, .2, .4, .8, 1.1, 1.5, 3)
				p[i] = off(q, e*math.Cos(ang+1.57), e*math.Sin(ang+1.57))
			case 6: // straight with a few deviating points
				if r.P(2 / float64(n)) {
					e := pick(r, -30, -3, 1.5, 8, 30)
					p[i] = off(q, e*math.Cos(ang+1.57), e*math.Sin(ang+1.57))
				}
			case 4: // circle
				ang += .5
			case 5: // back and forth
				ang += pick(r, 0, 0, math.Pi)
			}
			if r.P(.07) {
				continue // repeated point
			}
			s := step * (.3 + r.Float64())
			q = off(q, s*math.Cos(ang), s*math.Sin(ang))
		}
		if len(p) > 2 && r.P(.15) {
			if r.P(.4) { // closed
				p[len(p)-1] = p[0]
			} else { // there and back
				p = p[:min(len(p), r.R(2, 6))]
				for j := len(p) - 2; j >= 0; j-- {
					p = append(p, p[j])
				}
			}
		}
		return
	}
	var ids []string
	ids = append(ids, base...)
	for k := r.R(1, 5); k > 0; k-- {
		var p []spt
		if len(ids) > 0 && pair && r.P(.7) { // near-duplicate
			src := append([]spt(nil), have[pickS(r, ids)]...)
			if len(src) == 0 {
				continue
			}
			i := r.N(len(src))
			switch r.N(12) {
			case 10, 11: // the same line with more points, measures alike or bent
				src = densify(r, src)
			case 0, 1: // identical
			case 2: // one point moved
				d := pick(r, .3, .7, .9, 1.1, 1.3, 2, 4, 10, 50)
				a := r.Float64() * 6.28
				src[i] = off(src[i], d*math.Cos(a), d*math.Sin(a))
			case 3: // all moved
				d := pick(r, .3, .7, .9, 1.1, 1.3, 2, 4, 10, 50)
				a := r.Float64() * 6.28
				for j := range src {
					src[j] = off(src[j], d*math.Cos(a), d*math.Sin(a))
				}
			case 4: // additional point, on the line or beside
				if i > 0 {
					q := spt{(src[i].la + src[i-1].la) / 2, (src[i].lo + src[i-1].lo) / 2, (src[i].m + src[i-1].m) / 2}
					q = off(q, pick(r, 0, 0, .5, 2, 20), 0)
					src = append(src[:i], append([]spt{q}, src[i:]...)...)
				}
			case 5: // without one point
				if len(src) > 2 {
					src = append(src[:i], src[i+1:]...)
				}
			case 6: // reversed
				for a, b := 0, len(src)-1; a < b; a, b = a+1, b-1 {
					src[a].la, src[a].lo, src[b].la, src[b].lo = src[b].la, src[b].lo, src[a].la, src[a].lo
				}
			case 7: // part
				src = src[:i+1]
			case 8: // there and back again
				for j := len(src) - 2; j >= 0; j-- {
					q := src[j]
					if l := src[len(src)-1]; l.m == l.m {
						q.m = l.m + havers(l.la, l.lo, q.la, q.lo)
					}
					src = append(src, q)
				}
			case 9: // other measures
				if r.P(.5) {
					for j := range src {
						src[j].m *= pick(r, 1000, .001)
						if j > 0 && src[j].m < src[j-1].m {
							src[j].m = src[j-1].m
						}
					}
					m := -1.0
					for j := range src {
						if src[j].m == src[j].m {
							src[j].m = math.Max(m, src[j].m)
							m = src[j].m
						}
					}
				} else {
					measure(r, src, r.N(9))
				}
			}
			p = src
		} else {
			p = random()
			measure(r, p, r.N(9))
		}
		if len(p) == 0 {
			continue
		}
		ladder := [][]spt{p}
		if pair && r.P(.15) { // further lines beside it, each close to the one before only
			d, a := pick(r, .4, .6, .7, .9), r.Float64()*6.28
			e := pick(r, -1, -.1, 0, .05, .5)
			for n := r.R(2, 4); n > 0; n-- {
				p = append([]spt(nil), p...)
				for j := range p {
					p[j] = off(p[j], d*math.Cos(a), d*math.Sin(a))
				}
				if l := len(p) - 1; l > 0 && p[l].m+e >= p[l-1].m && p[l].m+e >= 0 {
					p[l].m += e
				}
				ladder = append(ladder, p)
			}
		}
		for _, p := range ladder {
			id := newID()
			have[id] = p
			ids = append(ids, id)
			f.addShape(r, id, p)
			if ts := f.T["trips"]; len(ts) > 0 && r.P(.85) {
				t := pickS(r, ts)
				if len(ladder) < 3 && r.P(.5) || t["shape_id"] == "" {
					t["shape_id"] = id
				} else { // copy of the trip with the new shape
					c := t.clone()
					c["trip_id"] = "T" + id
					c["shape_id"] = id
					f.T["trips"] = append(f.T["trips"], c)
					var add []Row
					for _, s := range f.T["stop_times"] {
						if s["trip_id"] == t["trip_id"] {
							x := s.clone()
							x["trip_id"] = c["trip_id"]
							add = append(add, x)
						}
					}
					f.T["stop_times"] = append(f.T["stop_times"], add...)
				}
			}
		}
	}
	return f
}

const earthR = 6378137.0

func merc(la, lo float64) (x, y float64) {
	la, lo = float64(float32(la)), float64(float32(lo))
	s := math.Sin(la * math.Pi / 180)
	return earthR * lo * math.Pi / 180, earthR / 2 * math.Log((1+s)/(1-s))
}

// mercErr bounds the error of a coordinate projected in single precision.
func mercErr(la, lo float64) float64 {
	x, y := merc(la, lo)
	const u = 1.2e-7
	return u*math.Abs(x)*1.5 + u*math.Abs(y) + u*earthR*math.Abs(la)*math.Pi/180/math.Cos(la*math.Pi/180) + 1e-3
}

// segDist: distance of p from the segment ab and the position on it.
func segDist(px, py, ax, ay, bx, by float64) (d, t float64) {
	l := (bx-ax)*(bx-ax) + (by-ay)*(by-ay)
	if l > 0 {
		t = math.Max(0, math.Min(1, ((px-ax)*(bx-ax)+(py-ay)*(by-ay))/l))
	}
	return math.Hypot(px-ax-t*(bx-ax), py-ay-t*(by-ay)), t
}

func vPts(p []Pt) (q []spt) {
	for _, x := range p {
		q = append(q, spt{float64(float32(x.Lat)), float64(float32(x.Lon)), x.Dist})
	}
	return
}

func ptsStr(p []spt) string {
	s := ""
	for i, x := range p {
		if i == 40 {
			return s + "..."
		}
		s += fmt.Sprintf("(%v,%v m=%v) ", x.la, x.lo, float32(x.m))
	}
	return s
}

func samePt(a, b spt) bool {
	return float32(a.la) == float32(b.la) && float32(a.lo) == float32(b.lo) && sameDist(a.m, b.m)
}

func samePts(a, b []spt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !samePt(a[i], b[i]) {
			return false
		}
	}
	return true
}

// remeasured runs -m on the input of a case: the shapes as the other shape processors see them.
func remeasured(e *Env, c *Case) (*View, *Fail) {
	o, f := e.do(c, []string{"-m"}, RunOpt{})
	if f != nil {
		return nil, f
	}
	return NewView(o.F), nil
}

func init() {
	register(&Prop{ID: "C18", Quick: 2400, Thorough: 25000,
		Rule: "random feeds with shapes of 1-1300 points (random walks, zig-zags, nearly straight lines, circles, lines running back on themselves, repeated points, zero extent) with all patterns of measures; -s alone; non-trivial: a point was dropped and another inner point kept",
		Gen: func(r *Rng, th bool) *Case {
			return &Case{Feeds: []*Feed{shapeFeed(r, false)}, Procs: pick(r, 1, 1, 2, 3, 8), Args: []string{pick(r, "-s", "--min-shapes")}}
		}, Check: checkC18})
	register(&Prop{ID: "C17", Quick: 2200, Thorough: 20000,
		Rule: "random feeds with families of shapes: identical ones, with one or all points moved by 0.3-50 m, with additional or missing points, reversed, partial, doubled, with other measures; -S alone; non-trivial: shapes were merged",
		Gen: func(r *Rng, th bool) *Case {
			return &Case{Feeds: []*Feed{shapeFeed(r, true)}, Procs: pick(r, 1, 1, 2, 3, 8), Args: []string{pick(r, "-S", "--remove-red-shapes")}}
		}, Check: checkC17})
	register(&Prop{ID: "C19", Quick: 3000, Thorough: 25000,
		Rule: "random feeds with shapes whose measures are missing, complete, have gaps at the start, end or inside, are constant, contain plateaus or a single value; -m alone; non-trivial: a gap was filled",
		Gen: func(r *Rng, th bool) *Case {
			return &Case{Feeds: []*Feed{shapeFeed(r, r.P(.3))}, Procs: pick(r, 1, 1, 2, 3, 8), Args: []string{pick(r, "-m", "--remeasure-shapes")}}
		}, Check: checkC19})
}

func checkC18(e *Env, c *Case) (res Res) {
	ref, f := remeasured(e, c)
	if f != nil {
		res.Fail = f
		return
	}
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	b := NewView(out.F)
	in := NewView(stripAdd(c.Feeds[0]))
	for _, id := range sortedKeys(in.Shape) {
		if !sameGeom(vPts(in.Shape[id]), vPts(ref.Shape[id])) {
			res.Invalid = true // judged by C19
			return
		}
	}
	if len(b.Dups) > 0 {
		res.Fail = failf("sequence", "%v", b.Dups)
		return
	}
	for _, id := range sortedKeys(ref.Shape) {
		p, q := vPts(ref.Shape[id]), vPts(b.Shape[id])
		n, m := len(p), len(q)
		if m == 0 || m > n || !samePt(p[0], q[0]) || !samePt(p[n-1], q[m-1]) {
			res.Fail = failf("ends", "shape %q: %s became %s", id, ptsStr(p), ptsStr(q))
			return
		}
		x, y := make([]float64, n), make([]float64, n)
		tol := 0.0
		for i := range p {
			x[i], y[i] = merc(p[i].la, p[i].lo)
			tol = math.Max(tol, mercErr(p[i].la, p[i].lo))
		}
		tol = 1 + 4*tol
		dev := func(a, b int) float64 { // largest distance of a point between a and b from the segment ab
			w := 0.0
			for i := a + 1; i < b; i++ {
				d, _ := segDist(x[i], y[i], x[a], y[a], x[b], y[b])
				w = math.Max(w, d)
			}
			return w
		}
		// can the output points be matched to input points such that everything in between is within the tolerance?
		ok := make([]bool, n)
		ok[0] = true
		anySub := make([]bool, n)
		anySub[0] = true
		for j := 1; j < m; j++ {
			nk, ns := make([]bool, n), make([]bool, n)
			for i := 1; i < n; i++ {
				if !samePt(p[i], q[j]) {
					continue
				}
				for a := 0; a < i; a++ {
					ns[i] = ns[i] || anySub[a]
					nk[i] = nk[i] || (ok[a] && dev(a, i) <= tol)
				}
			}
			ok, anySub = nk, ns
		}
		if n > 1 && m > 1 || n == 1 && m == 1 {
			if !anySub[n-1] {
				res.Fail = failf("subsequence", "shape %q is not a subsequence of its points: %s became %s", id, ptsStr(p), ptsStr(q))
				return
			}
			if !ok[n-1] {
				res.Fail = failf("tolerance", "shape %q: a dropped point is further than 1 m from the line: %s became %s", id, ptsStr(p), ptsStr(q))
				return
			}
		} else {
			res.Fail = failf("count", "shape %q of %d points has %d points: %s became %s", id, n, m, ptsStr(p), ptsStr(q))
			return
		}
		if n > 2 && m > 2 && dev(0, n-1)+tol-1 < 1 {
			res.Fail = failf("straight", "shape %q is a straight line and keeps %d of %d points: %s", id, m, n, ptsStr(q))
			return
		}
		if m < n && m > 2 {
			res.NonTrivial = true
		}
		res.tagIf(n > 2 && m == 2, "straight")
		res.tagIf(n == 1, "one-point")
	}
	if len(b.Shape) != len(ref.Shape) {
		res.Fail = failf("shapes", "%d shapes became %d", len(ref.Shape), len(b.Shape))
		return
	}
	res.Fail = sameFeed(ref.F, b.F, "shapes")
	return
}

func sameGeom(a, b []spt) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if float32(a[i].la) != float32(b[i].la) || float32(a[i].lo) != float32(b[i].lo) {
			return false
		}
	}
	return true
}

// mayMerge: every vertex of each shape and every tenth metre between them lies within the tolerance of the other one, at a place with alike measures.
func mayMerge(p, q []spt) bool {
	one := func(p, q []spt) bool {
		tol := 0.0
		for _, x := range p {
			tol = math.Max(tol, mercErr(x.la, x.lo))
		}
		slack := 4 * tol // segments are that much longer or shorter in the tool's projection
		tol = 1 + slack
		ax, ay := merc(p[0].la, p[0].lo)
		bx, by := merc(q[0].la, q[0].lo)
		if math.Hypot(ax-bx, ay-by) > tol {
			return false
		}
		ax, ay = merc(p[len(p)-1].la, p[len(p)-1].lo)
		bx, by = merc(q[len(q)-1].la, q[len(q)-1].lo)
		if math.Hypot(ax-bx, ay-by) > tol {
			return false
		}
		qx, qy := make([]float64, len(q)), make([]float64, len(q))
		for j := range q {
			qx[j], qy[j] = merc(q[j].la, q[j].lo)
		}
		on := func(x, y, m, e float64) bool {
			e += .01 + 1e-6*math.Abs(m)
			for j := 0; j+1 < len(q); j++ {
				if hi, lo := q[min(len(q)-1, j+2)].m, q[max(0, j-1)].m; m > hi+e || m < lo-e {
					continue
				}
				if d, _ := segDist(x, y, qx[j], qy[j], qx[j+1], qy[j+1]); d <= tol {
					return true
				}
			}
			return false
		}
		for i := 0; i < len(p)-1; i++ {
			x, y := merc(p[i].la, p[i].lo)
			nx, ny := merc(p[i+1].la, p[i+1].lo)
			if !on(x, y, p[i].m, 0) {
				return false
			}
			l, dm := math.Hypot(nx-x, ny-y), p[i+1].m-p[i].m
			for d := 10.0; d < l-slack; d += 10 {
				if u := d / l; !on(x+u*(nx-x), y+u*(ny-y), p[i].m+u*dm, slack*math.Abs(dm)/l) {
					return false
				}
			}
		}
		return true
	}
	return one(p, q) && one(q, p)
}

func checkC17(e *Env, c *Case) (res Res) {
	ref, f := remeasured(e, c)
	if f != nil {
		res.Fail = f
		return
	}
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	b := NewView(out.F)
	in := NewView(stripAdd(c.Feeds[0]))
	ids := sortedKeys(ref.Shape)
	pts := map[string][]spt{}
	for _, id := range ids {
		pts[id] = vPts(ref.Shape[id])
		if !sameGeom(vPts(in.Shape[id]), pts[id]) {
			res.Invalid = true // judged by C19
			return
		}
	}
	par := map[string]string{}
	var find func(string) string
	find = func(x string) string {
		if par[x] == "" || par[x] == x {
			return x
		}
		par[x] = find(par[x])
		return par[x]
	}
	for i, p := range ids {
		for _, q := range ids[:i] {
			if mayMerge(pts[p], pts[q]) {
				par[find(p)] = find(q)
			}
		}
	}
	for _, id := range sortedKeys(b.Shape) {
		p := pts[id]
		if p == nil || !samePts(p, vPts(b.Shape[id])) {
			res.Fail = failf("shape-changed", "shape %q is %s, was %s", id, ptsStr(vPts(b.Shape[id])), ptsStr(p))
			return
		}
	}
	for _, id := range ids {
		if b.Shape[id] != nil {
			continue
		}
		res.NonTrivial = true
		ok := false
		for o := range b.Shape {
			ok = ok || find(o) == find(id)
		}
		if !ok {
			res.Fail = failf("shape-lost", "shape %q is missing and no similar one remains: %s", id, ptsStr(pts[id]))
			return
		}
	}
	for _, t := range sortedKeys(in.Trip) {
		s, g := in.Trip[t]["shape_id"], b.Trip[t]["shape_id"]
		if b.Trip[t] == nil {
			continue
		}
		if (s == "") != (g == "") || (s != "" && (b.Shape[g] == nil || find(s) != find(g))) {
			res.Fail = failf("trip-shape", "trip %q: shape %q became %q, which is not within the tolerance: %s became %s", t, s, g, ptsStr(pts[s]), ptsStr(pts[g]))
			return
		}
		if s != "" && s != g && b.Shape[s] != nil {
			res.Fail = failf("trip-shape", "trip %q: shape %q is still there, but replaced by %q", t, s, g)
			return
		}
	}
	// a trip is not moved to a shape whose measures end before those of its own
	for _, t := range sortedKeys(in.Trip) {
		if b.Trip[t] == nil {
			continue
		}
		p, q := pts[in.Trip[t]["shape_id"]], pts[b.Trip[t]["shape_id"]]
		if len(p) == 0 || len(q) == 0 {
			continue
		}
		if x, y := p[len(p)-1].m, q[len(q)-1].m; x == x && !(float32(y) >= float32(x)) {
			res.Fail = failf("shorter", "trip %q was moved to a shape that is measured to %v, its own was to %v: %s became %s", t, y, x, ptsStr(p), ptsStr(q))
			return
		}
	}
	left := sortedKeys(b.Shape)
	for i, p := range left {
		for _, q := range left[:i] {
			if samePts(pts[p], pts[q]) && len(pts[p]) > 1 {
				res.Fail = failf("duplicates-left", "shapes %q and %q are identical: %s", p, q, ptsStr(pts[p]))
				return
			}
		}
	}
	want := ref.F.Clone()
	for _, t := range want.T["trips"] {
		delete(t, "shape_id")
	}
	got := b.F.Clone()
	for _, t := range got.T["trips"] {
		delete(t, "shape_id")
	}
	res.Fail = sameFeed(want, got, "shapes")
	return
}

func checkC19(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.Fail = f
		return
	}
	a, b := NewView(stripAdd(c.Feeds[0])), NewView(out.F)
	if len(b.Dups) > 0 {
		res.Fail = failf("sequence", "%v", b.Dups)
		return
	}
	for _, id := range sortedKeys(a.Shape) {
		p, q := vPts(a.Shape[id]), vPts(b.Shape[id])
		bad := func(kind, f string, x ...any) {
			res.Fail = failf(kind, "shape %q: %s; %s became %s", id, fmt.Sprintf(f, x...), ptsStr(p), ptsStr(q))
		}
		if !sameGeom(p, q) {
			bad("geometry", "the points changed")
			return
		}
		n := len(p)
		cum := make([]float64, n)
		var meas []int
		for i := range p {
			if i > 0 {
				cum[i] = cum[i-1] + havers(p[i-1].la, p[i-1].lo, p[i].la, p[i].lo)
			}
			if p[i].m == p[i].m {
				meas = append(meas, i)
			}
		}
		near := func(x, y, span float64) bool {
			return math.Abs(x-y) <= 1e-4*math.Abs(span)+4e-7*math.Max(math.Abs(x), math.Abs(y))+1e-6
		}
		// the scale of the given measures
		scale, k := 0.0, 0
		for i := 1; i < len(meas); i++ {
			s, t := meas[i-1], meas[i]
			if d := cum[t] - cum[s]; d > 0 {
				scale += (float64(float32(p[t].m)) - float64(float32(p[s].m))) / d
				k++
			}
		}
		if k > 0 {
			scale /= float64(k)
		}
		if len(meas) > 0 && scale == 0 {
			for i := range q {
				if q[i].m == q[i].m {
					bad("not-dropped", "the measures give no scale and were not dropped")
					return
				}
			}
			res.tag("no-scale")
			continue
		}
		for i := range q {
			if q[i].m != q[i].m {
				bad("missing", "point %d has no measure", i)
				return
			}
			if i > 0 && q[i].m < q[i-1].m {
				bad("decreasing", "the measure of point %d decreases", i)
				return
			}
			if p[i].m == p[i].m && !sameDist(p[i].m, q[i].m) {
				bad("given", "the given measure of point %d changed", i)
				return
			}
			if p[i].m != p[i].m {
				res.NonTrivial = true
			}
		}
		if len(meas) == 0 {
			for i := range q {
				if !near(q[i].m, cum[i], cum[i]) {
					bad("meters", "point %d is %.3f m along the shape", i, cum[i])
					return
				}
			}
			res.tag("unmeasured")
			continue
		}
		for i := 1; i < len(meas); i++ {
			s, t := meas[i-1], meas[i]
			for j := s + 1; j < t; j++ {
				w := q[s].m
				if cum[t] > cum[s] {
					w += (q[t].m - q[s].m) * (cum[j] - cum[s]) / (cum[t] - cum[s])
				}
				if !near(q[j].m, w, q[t].m-q[s].m) {
					bad("interpolation", "point %d has measure %v, expected %v", j, q[j].m, w)
					return
				}
				res.tag("gap")
			}
		}
		if l := meas[len(meas)-1]; l < n-1 {
			for j := l + 1; j < n; j++ {
				if w := q[l].m + scale*(cum[j]-cum[l]); !near(q[j].m, w, w-q[l].m) {
					bad("trailing", "point %d has measure %v, expected %v", j, q[j].m, w)
					return
				}
			}
			res.tag("trailing")
		}
		if l := meas[0]; l > 0 {
			if q[0].m < 0 {
				bad("negative", "the first measure is negative")
				return
			}
			span := q[l].m - q[0].m
			for j := 1; j < l; j++ { // proportional to the distance
				w := q[0].m
				if cum[l] > 0 {
					w += span * cum[j] / cum[l]
				}
				if !near(q[j].m, w, span) {
					bad("leading", "point %d has measure %v, expected %v", j, q[j].m, w)
					return
				}
			}
			if w := math.Max(0, q[l].m-scale*cum[l]); !near(q[0].m, w, scale*cum[l]) {
				bad("leading", "the first point has measure %v, expected %v", q[0].m, w)
				return
			}
			res.tag("leading")
		}
	}
	if len(a.Shape) != len(b.Shape) {
		res.Fail = failf("shapes", "%d shapes became %d", len(a.Shape), len(b.Shape))
		return
	}
	// measures of calls beyond the end of the shape
	want := a.F.Clone()
	for _, s := range want.T["stop_times"] {
		sh := b.Shape[a.Trip[s["trip_id"]]["shape_id"]]
		if d := s["shape_dist_traveled"]; d != "" && len(sh) > 0 {
			if l := sh[len(sh)-1].Row["shape_dist_traveled"]; l != "" && float32(pf(d)) > float32(pf(l)) {
				s["shape_dist_traveled"] = l
				res.tag("clamped")
			}
		}
	}
	res.Fail = sameFeed(want, b.F, "shapes")
	return
}
