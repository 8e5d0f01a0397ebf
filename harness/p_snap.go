package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
)

// C20 (-r), C21 (--snap-stops)

func init() {
	register(&Prop{ID: "C20", Quick: 3000, Thorough: 25000,
		Rule: "random feeds with shapes leading past the stops of their trips at 0-300 m, with detours, loops, repeated and reversed parts, all patterns of measures, trips with none, some or all calls measured; -r alone; non-trivial: a trip with at least two calls was measured",
		Gen: func(r *Rng, th bool) *Case {
			return &Case{Feeds: []*Feed{snapFeed(r, true)}, Procs: pick(r, 1, 1, 2, 3, 8), Args: []string{pick(r, "-r", "--remeasure-stop-times")}}
		}, Check: checkC20})
	register(&Prop{ID: "C21", Quick: 3000, Thorough: 25000,
		Rule: "random feeds with shapes leading past the stops of their trips at 0-300 m, calls with fitting, wrong, missing and out-of-range measures, stops shared by several trips and shapes; --snap-stops alone; non-trivial: a call was moved and another one kept",
		Gen: func(r *Rng, th bool) *Case {
			return &Case{Feeds: []*Feed{snapFeed(r, false)}, Procs: pick(r, 1, 1, 2, 8), Args: []string{"--snap-stops"}}
		}, Check: checkC21})
}

// snapFeed: shapes passing the stops of their trips.
func snapFeed(r *Rng, clear bool) *Feed {
	f := shapeFeed(r, false)
	pos := map[string]Row{}
	for _, s := range f.T["stops"] {
		pos[s["stop_id"]] = s
	}
	by := map[string][]Row{}
	for _, s := range f.T["stop_times"] {
		by[s["trip_id"]] = append(by[s["trip_id"]], s)
	}
	have := f.shapeMap()
	nid := 0
	for _, t := range f.T["trips"] {
		sts := by[t["trip_id"]]
		sort.SliceStable(sts, func(i, j int) bool { return atoi(sts[i]["stop_sequence"], 0) < atoi(sts[j]["stop_sequence"], 0) })
		if len(sts) == 0 || r.P(.15) {
			continue
		}
		if r.P(.3) && len(sts) > 2 { // call at the same stop twice
			i, j := r.N(len(sts)), r.N(len(sts))
			sts[i]["stop_id"] = sts[j]["stop_id"]
		}
		var vert []int // shape point of each call
		var p []spt
		if r.P(.85) {
			far := pick(r, 0, .1, .3)
			for i, s := range sts {
				x := pos[s["stop_id"]]
				q := spt{la: pf(x["stop_lat"]), lo: pf(x["stop_lon"])}
				d, a := pick(r, 0.0, 5, 30, 80), r.Float64()*6.28
				if r.P(far) {
					d = pick(r, 95, 99, 101, 105, 150, 240.0, 248, 252, 300, 1000)
				}
				q = off(q, d*math.Cos(a), d*math.Sin(a))
				if i > 0 {
					l := p[len(p)-1]
					n := r.N(4)
					if r.P(.1) && len(p) > 1 { // there and back again
						for j := len(p) - 2; j >= 0 && j >= len(p)-6; j-- {
							p = append(p, p[j])
						}
					}
					for j := 1; j <= n; j++ {
						m := spt{la: l.la + (q.la-l.la)*float64(j)/float64(n+1), lo: l.lo + (q.lo-l.lo)*float64(j)/float64(n+1)}
						d, a := pick(r, 0.0, 0, 50, 400), r.Float64()*6.28
						p = append(p, off(m, d*math.Cos(a), d*math.Sin(a)))
					}
				}
				if r.P(.9) || len(p) == 0 {
					p = append(p, q)
				}
				vert = append(vert, len(p)-1)
				if r.P(.05) {
					p = append(p, q)
				}
			}
			if r.P(.1) {
				for a, b := 0, len(p)-1; a < b; a, b = a+1, b-1 {
					p[a], p[b] = p[b], p[a]
				}
			}
			if r.P(.05) {
				p = p[:1]
				for i := range vert {
					vert[i] = 0
				}
			}
			measure(r, p, pick(r, 0, 0, 1, 1, 2, 3, 5, 6, 7, 8))
			nid++
			id := fmt.Sprintf("_%d", nid)
			f.addShape(r, id, p)
			have[id] = p
			t["shape_id"] = id
		} else if p = have[t["shape_id"]]; len(p) == 0 {
			continue
		} else {
			for i := range sts {
				vert = append(vert, i*len(p)/len(sts))
			}
		}
		// measures of the calls
		mode := r.N(6)
		last, scale := 0.0, pick(r, 1.0, 1, 1, .5, 2)
		for i, s := range sts {
			v := p[vert[i]].m
			if v != v {
				v = last
			}
			switch mode {
			case 0: // none
				s["shape_dist_traveled"] = ""
				continue
			case 1: // fitting
			case 2: // some missing
				if r.P(.4) {
					s["shape_dist_traveled"] = ""
					continue
				}
			case 3: // shifted
				v = v*scale + pick(r, 0.0, 20, 200)
			case 4: // only ends
				if i > 0 && i < len(sts)-1 {
					s["shape_dist_traveled"] = ""
					continue
				}
			case 5: // random
				v = last + r.Float64()*pick(r, 1.0, 100, 2000)
			}
			if v < last {
				v = last
			}
			if clear && i == len(sts)-1 && r.P(.7) {
				s["shape_dist_traveled"] = ""
				continue
			}
			last = v
			s["shape_dist_traveled"] = strconv.FormatFloat(v, 'f', -1, 64)
		}
	}
	return f
}

// snapCand: the nearest position to a stop on a segment of a shape.
type snapCand struct {
	seg         int
	progr, dist float64
	lo, hi      float64 // bounds of progr, which is subject to rounding
	at          [2]float64
}

// planar: (unbounded) nearest position on segment [a,b] restricted to [t0,t1], in degrees.
func planar(la, lo float64, a, b spt, t0, t1 float64) (t, d float64) {
	ax, ay, bx, by := a.lo, a.la, b.lo, b.la
	l := (bx-ax)*(bx-ax) + (by-ay)*(by-ay)
	if l > 0 {
		t = ((lo-ax)*(bx-ax) + (la-ay)*(by-ay)) / l
	}
	u := math.Max(t0, math.Min(t1, t))
	return t, havers(la, lo, ay+u*(by-ay), ax+u*(bx-ax))
}

func snapCands(la, lo float64, p []spt, maxD float64) (c []snapCand) {
	for k := 0; k+1 < len(p); k++ {
		if t, d := planar(la, lo, p[k], p[k+1], 0, 1); d <= maxD {
			cl := func(x float64) float64 { return math.Max(0, math.Min(1, x)) }
			c = append(c, snapCand{k, cl(t), d, cl(t - 1e-9), cl(t + 1e-9), [2]float64{la, lo}})
		}
	}
	return
}

// arrange: smallest sum of distances of an arrangement that never goes back, +Inf without any.
func arrange(c [][]snapCand, strict bool) float64 {
	var cost []float64
	for i, cs := range c {
		nx := make([]float64, len(cs))
		for k, y := range cs {
			best := math.Inf(1)
			if i == 0 {
				best = 0
			} else {
				for j, x := range c[i-1] {
					if x.seg < y.seg || x.seg == y.seg && (x.hi <= y.lo || x.at == y.at || !strict && x.lo <= y.hi) {
						best = math.Min(best, cost[j])
					}
				}
			}
			nx[k] = best + y.dist
		}
		cost = nx
	}
	best := math.Inf(1)
	for _, x := range cost {
		best = math.Min(best, x)
	}
	return best
}

func checkC20(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	a, b := NewView(stripAdd(c.Feeds[0])), NewView(out.F)
	want, got := a.F.Clone(), b.F.Clone()
	for _, t := range []*Feed{want, got} {
		for _, s := range t.T["shapes"] {
			delete(s, "shape_dist_traveled")
		}
		for _, s := range t.T["stop_times"] {
			delete(s, "shape_dist_traveled")
		}
	}
	if f := sameFeed(want, got); f != nil {
		res.Fail = f
		return
	}
	for _, id := range sortedKeys(a.Shape) {
		p, q := vPts(a.Shape[id]), vPts(b.Shape[id])
		for i := range q {
			if q[i].m != q[i].m || i > 0 && q[i].m < q[i-1].m {
				res.Fail = failf("shape", "shape %q: the measure of point %d is missing or decreases: %s became %s", id, i, ptsStr(p), ptsStr(q))
				return
			}
			if p[i].m == p[i].m && !sameDist(p[i].m, q[i].m) {
				res.Fail = failf("shape", "shape %q: the given measure of point %d changed: %s became %s", id, i, ptsStr(p), ptsStr(q))
				return
			}
		}
	}
	for _, id := range sortedKeys(a.Trip) {
		sh := a.Trip[id]["shape_id"]
		x, y := a.ST[id], b.ST[id]
		if len(x) != len(y) {
			res.Fail = failf("calls", "trip %q has %d calls instead of %d", id, len(y), len(x))
			return
		}
		p := vPts(b.Shape[sh])
		missing := false
		for i := range x {
			missing = missing || x[i].Dist != x[i].Dist
		}
		bad := func(kind, f string, v ...any) {
			res.Fail = failf(kind, "trip %q on shape %q: %s; calls %s became %s; shape %s", id, sh, fmt.Sprintf(f, v...), callStr(a, x), callStr(b, y), ptsStr(p))
		}
		unchanged := func() bool {
			for i := range x {
				if w := x[i].Dist; !sameDist(w, y[i].Dist) && !(len(p) > 0 && w > p[len(p)-1].m && sameDist(p[len(p)-1].m, y[i].Dist)) {
					return false
				}
			}
			return true
		}
		if sh == "" || !missing || len(x) == 0 {
			if !unchanged() {
				bad("unasked", "the trip has no shape or all measures, but they changed")
				return
			}
			res.tag("untouched")
			continue
		}
		lo, hi := make([][]snapCand, len(x)), make([][]snapCand, len(x))
		for i := range x {
			s := a.Stop[x[i].Stop]
			la, ln := float64(float32(pf(s["stop_lat"]))), float64(float32(pf(s["stop_lon"])))
			lo[i], hi[i] = snapCands(la, ln, p, 248), snapCands(la, ln, p, 252)
		}
		optLo, optHi := arrange(lo, true), arrange(hi, false)
		same := unchanged()
		if math.IsInf(optHi, 1) {
			res.tag("none")
			if !same {
				bad("impossible", "the calls cannot be placed in order within 250 m, but the measures changed")
				return
			}
			continue
		}
		if same {
			if !math.IsInf(optLo, 1) {
				bad("unmeasured", "the calls can be placed in order within 250 m, but were not")
				return
			}
			res.tag("border")
			continue
		}
		sum := 0.0
		for i := range y {
			m := y[i].Dist
			if m != m {
				bad("missing", "call %d has no measure", i)
				return
			}
			if i > 0 && m < y[i-1].Dist {
				bad("decreasing", "the measure of call %d decreases", i)
				return
			}
			eps := 4e-7*math.Abs(m) + 1e-6
			if m < p[0].m || m > p[len(p)-1].m {
				bad("range", "call %d is not on the shape", i)
				return
			}
			s := a.Stop[x[i].Stop]
			la, ln := float64(float32(pf(s["stop_lat"]))), float64(float32(pf(s["stop_lon"])))
			best := math.Inf(1)
			for k := 0; k+1 < len(p); k++ {
				m0, m1 := p[k].m, p[k+1].m
				if m < m0-eps || m > m1+eps {
					continue
				}
				t0, t1 := 0.0, 1.0
				if m1 > m0 {
					t0 = math.Max(0, math.Min(1, (m-eps-m0)/(m1-m0)))
					t1 = math.Max(0, math.Min(1, (m+eps-m0)/(m1-m0)))
				}
				_, d := planar(la, ln, p[k], p[k+1], t0, t1)
				best = math.Min(best, d)
			}
			if best > 252 {
				bad("far", "call %d is placed %.1f m away from its stop", i, best)
				return
			}
			sum += best
		}
		if tol := .05*float64(len(y)) + 1e-4*optLo; sum > optLo+tol {
			bad("not-nearest", "the calls are %.2f m from their stops in total, but could be %.2f m", sum, optLo)
			return
		}
		res.NonTrivial = res.NonTrivial || len(y) > 1
		res.tag("measured")
	}
	return
}

func callStr(v *View, st []ST) string {
	var s []string
	for _, x := range st {
		r := v.Stop[x.Stop]
		s = append(s, fmt.Sprintf("%s(%s,%s m=%v)", x.Stop, r["stop_lat"], r["stop_lon"], float32(x.Dist)))
	}
	return strings.Join(s, " ")
}

// snapPos: all positions on the shape a call at measure m may be meant to be at, within floating point accuracy.
func snapPos(la, lo, m float64, p []spt) (c [][2]float64, tol float64, nearest bool) {
	for _, x := range p {
		tol = math.Max(tol, mercErr(x.la, x.lo))
	}
	tol = 3 * math.Max(tol, mercErr(la, lo))
	add := func(x, y float64) { c = append(c, [2]float64{x, y}) }
	m32 := float64(float32(m))
	if m == m {
		for k := 0; k+1 < len(p); k++ {
			m0, m1 := float64(float32(p[k].m)), float64(float32(p[k+1].m))
			if m0 <= m32 && m1 >= m32 {
				t := 0.0
				if m1 > m0 {
					t = (m32 - m0) / (m1 - m0)
				}
				ax, ay := merc(p[k].la, p[k].lo)
				bx, by := merc(p[k+1].la, p[k+1].lo)
				add(ax+t*(bx-ax), ay+t*(by-ay))
				tol += 1e-6 * math.Hypot(bx-ax, by-ay)
				return
			}
		}
	}
	if len(p) == 1 {
		x, y := merc(p[0].la, p[0].lo)
		add(x, y)
		return
	}
	nearest = true
	px, py := merc(la, lo)
	best := math.Inf(1)
	for k := 0; k+1 < len(p); k++ {
		ax, ay := merc(p[k].la, p[k].lo)
		bx, by := merc(p[k+1].la, p[k+1].lo)
		d, _ := segDist(px, py, ax, ay, bx, by)
		best = math.Min(best, d)
	}
	for k := 0; k+1 < len(p); k++ {
		ax, ay := merc(p[k].la, p[k].lo)
		bx, by := merc(p[k+1].la, p[k+1].lo)
		if d, t := segDist(px, py, ax, ay, bx, by); d <= best+tol {
			add(ax+t*(bx-ax), ay+t*(by-ay))
		}
	}
	return
}

func checkC21(e *Env, c *Case) (res Res) {
	out, f := e.do(c, c.Args, RunOpt{})
	if f != nil {
		res.judge(c, f)
		return
	}
	a, b := NewView(stripAdd(c.Feeds[0])), NewView(out.F)
	want, got := a.F.Clone(), b.F.Clone()
	var ns []Row
	for _, s := range got.T["stops"] {
		if a.Stop[s["stop_id"]] != nil {
			ns = append(ns, s)
		}
	}
	got.T["stops"] = ns
	for _, t := range []*Feed{want, got} {
		for _, s := range t.T["stop_times"] {
			delete(s, "stop_id")
		}
	}
	if f := sameFeed(want, got); f != nil {
		res.Fail = f
		return
	}
	used := map[string]int{}
	moved, kept := 0, 0
	for _, id := range sortedKeys(a.Trip) {
		sh := a.Trip[id]["shape_id"]
		x, y := a.ST[id], b.ST[id]
		if len(x) != len(y) {
			res.Fail = failf("calls", "trip %q has %d calls instead of %d", id, len(y), len(x))
			return
		}
		p := vPts(a.Shape[sh])
		for i := range x {
			bad := func(kind, f string, v ...any) {
				res.Fail = failf(kind, "trip %q on shape %q: %s; calls %s became %s; shape %s", id, sh, fmt.Sprintf(f, v...), callStr(a, x), callStr(b, y), ptsStr(p))
			}
			o, n := a.Stop[x[i].Stop], b.Stop[y[i].Stop]
			used[y[i].Stop]++
			same := x[i].Stop == y[i].Stop
			if len(p) == 0 {
				if !same {
					bad("unasked", "call %d of a trip without shape moved", i)
					return
				}
				continue
			}
			la, lo := float64(float32(pf(o["stop_lat"]))), float64(float32(pf(o["stop_lon"])))
			cand, tol, nearest := snapPos(la, lo, x[i].Dist, p)
			near, far := false, false
			for _, q := range cand {
				qla, qlo := unmerc(q[0], q[1])
				d := havers(la, lo, qla, qlo)
				t := tol + 1e-4*d
				near = near || d <= 100+t
				far = far || d >= 100-t
			}
			if same && !near {
				bad("too-far", "call %d is more than 100 m away from its position on the shape", i)
				return
			}
			if same {
				kept++
				res.tagIf(far, "border")
				continue
			}
			if !far {
				bad("moved", "call %d is within 100 m of its position on the shape, but was moved", i)
				return
			}
			moved++
			if a.Stop[y[i].Stop] != nil {
				bad("existing", "call %d was moved to the existing stop %q", i, y[i].Stop)
				return
			}
			for _, k := range sortedKeys(n) {
				if k != "stop_id" && k != "stop_lat" && k != "stop_lon" && n[k] != o[k] {
					bad("attribute", "the stop of call %d has %s %q instead of %q", i, k, n[k], o[k])
					return
				}
			}
			for _, k := range sortedKeys(o) {
				if k != "stop_id" && k != "stop_lat" && k != "stop_lon" && n[k] != o[k] {
					bad("attribute", "the stop of call %d has %s %q instead of %q", i, k, n[k], o[k])
					return
				}
			}
			ok := false
			nx, ny := merc(pf(n["stop_lat"]), pf(n["stop_lon"]))
			if nearest { // on the shape and as near as possible
				ox, oy := merc(la, lo)
				best, on := math.Inf(1), math.Inf(1)
				for k := 0; k+1 < len(p); k++ {
					ax, ay := merc(p[k].la, p[k].lo)
					bx, by := merc(p[k+1].la, p[k+1].lo)
					d, _ := segDist(ox, oy, ax, ay, bx, by)
					best = math.Min(best, d)
					d, _ = segDist(nx, ny, ax, ay, bx, by)
					on = math.Min(on, d)
				}
				ok = on <= tol && math.Hypot(nx-ox, ny-oy) <= best+2*tol
			}
			for _, q := range cand {
				ok = ok || math.Hypot(nx-q[0], ny-q[1]) <= 2*tol
			}
			if !ok {
				bad("position", "call %d is not at its position on the shape", i)
				return
			}
		}
	}
	for _, id := range sortedKeys(b.Stop) {
		if a.Stop[id] == nil && used[id] == 0 {
			res.Fail = failf("unused", "the new stop %q is not used", id)
			return
		}
	}
	res.NonTrivial = moved > 0 && kept > 0
	res.tagIf(moved > 0, "moved")
	return
}

func unmerc(x, y float64) (la, lo float64) {
	return (math.Pi/2 - 2*math.Atan(math.Exp(-y/earthR))) * 180 / math.Pi, x / earthR * 180 / math.Pi
}
