package main

// Row-level minimisation of failing cases.

import (
	"sort"
	"sync"
	"time"
)

// refs: table -> column -> referenced kind
var refs = map[string]map[string]string{
	"stops":           {"parent_station": "stop", "level_id": "level"},
	"routes":          {"agency_id": "agency"},
	"trips":           {"route_id": "route", "service_id": "service", "shape_id": "shape"},
	"stop_times":      {"trip_id": "trip", "stop_id": "stop"},
	"fare_attributes": {"agency_id": "agency"},
	"fare_rules":      {"fare_id": "fare", "route_id": "route"},
	"frequencies":     {"trip_id": "trip"},
	"transfers":       {"from_stop_id": "stop", "to_stop_id": "stop", "from_route_id": "route", "to_route_id": "route", "from_trip_id": "trip", "to_trip_id": "trip"},
	"pathways":        {"from_stop_id": "stop", "to_stop_id": "stop"},
	"attributions":    {"agency_id": "agency", "route_id": "route", "trip_id": "trip"},
}

// ids: table -> column that defines an entity of kind
var defs = map[string][2]string{
	"agency": {"agency_id", "agency"}, "stops": {"stop_id", "stop"}, "routes": {"route_id", "route"}, "trips": {"trip_id", "trip"},
	"calendar": {"service_id", "service"}, "calendar_dates": {"service_id", "service"}, "shapes": {"shape_id", "shape"},
	"fare_attributes": {"fare_id", "fare"}, "levels": {"level_id", "level"}, "pathways": {"pathway_id", "pathway"},
}

// prune removes rows with dangling references (cascading) and normalises.
func (f *Feed) prune() {
	for {
		have := map[string]map[string]bool{}
		for t, d := range defs {
			if have[d[1]] == nil {
				have[d[1]] = map[string]bool{}
			}
			for _, r := range f.T[t] {
				have[d[1]][r[d[0]]] = true
			}
		}
		changed := false
		for t, cols := range refs {
			var keep []Row
			for _, r := range f.T[t] {
				ok := true
				for c, k := range cols {
					if v := r[c]; v != "" && !have[k][v] {
						ok = false
					}
				}
				if ok {
					keep = append(keep, r)
				} else {
					changed = true
				}
			}
			f.T[t] = keep
		}
		if !changed {
			return
		}
	}
}

func shrink(p *Prop, eng *Engine, c0 *Case, f0 *Fail, budget time.Duration) (*Case, *Fail) {
	deadline := time.Now().Add(budget)
	best, bestF := c0, f0
	// how reliable is the failure?
	tries := 1
	{
		e := eng.env(0)
		k := 0
		for i := 0; i < 5; i++ {
			if r := safeCheck(p, e, best); r.Fail != nil && r.Fail.Kind == f0.Kind {
				k++
			}
		}
		if k < 5 {
			tries = 3
		}
		if k == 0 {
			tries = 8
		}
	}
	envs := make(chan *Env, 8)
	for i := 0; i < 8; i++ {
		envs <- eng.env(i)
	}
	test := func(c *Case) *Fail {
		e := <-envs
		defer func() { envs <- e }()
		if noOutput(f0) { // must stay a valid feed
			for _, fd := range c.Feeds {
				if o := e.Run([]*Feed{fd}, []string{"-v"}, nil, RunOpt{NoOut: true}); o.Code != 0 {
					return nil
				}
			}
		}
		for i := 0; i < tries; i++ {
			r := safeCheck(p, e, c)
			if r.Fail != nil && r.Fail.Kind == f0.Kind && !r.Invalid {
				return r.Fail
			}
		}
		return nil
	}
	// try a batch of candidates in parallel; take the first (in order) that fails
	batch := func(cands []*Case) bool {
		if time.Now().After(deadline) {
			return false
		}
		for i := 0; i < len(cands); i += 8 {
			if time.Now().After(deadline) {
				return false
			}
			end := min(i+8, len(cands))
			res := make([]*Fail, end-i)
			var wg sync.WaitGroup
			for j := i; j < end; j++ {
				wg.Add(1)
				go func(j int) { defer wg.Done(); res[j-i] = test(cands[j]) }(j)
			}
			wg.Wait()
			for j, f := range res {
				if f != nil {
					best, bestF = cands[i+j], f
					return true
				}
			}
		}
		return false
	}
	for round := 0; round < 60 && time.Now().Before(deadline); round++ {
		progress := false
		// options
		if !p.KeepArgs {
			for {
				var cands []*Case
				for i, a := range best.Args {
					if len(a) == 0 || a[0] != '-' {
						continue
					}
					n := best.Clone()
					j := i + 1
					for j < len(n.Args) && (len(n.Args[j]) == 0 || n.Args[j][0] != '-') {
						j++
					}
					n.Args = append(append([]string(nil), n.Args[:i]...), n.Args[j:]...)
					cands = append(cands, n)
				}
				if !batch(cands) {
					break
				}
				progress = true
			}
		}
		// rows, in chunks
		for fi := range best.Feeds {
			ts := append([]string(nil), tableOrder...)
			sort.SliceStable(ts, func(a, b int) bool { return len(best.Feeds[fi].T[ts[a]]) < len(best.Feeds[fi].T[ts[b]]) })
			for _, t := range tableOrder {
				for size := max(1, len(best.Feeds[fi].T[t])); size >= 1; size /= 2 {
					for {
						var cands []*Case
						rows := best.Feeds[fi].T[t]
						for i := 0; i < len(rows); i += size {
							n := best.Clone()
							r := n.Feeds[fi].T[t]
							n.Feeds[fi].T[t] = append(append([]Row(nil), r[:i]...), r[min(len(r), i+size):]...)
							n.Feeds[fi].prune()
							cands = append(cands, n)
						}
						if !batch(cands) {
							break
						}
						progress = true
					}
					if time.Now().After(deadline) {
						break
					}
				}
			}
			// columns
			for _, t := range tableOrder {
				cols := map[string]bool{}
				for _, r := range best.Feeds[fi].T[t] {
					for k := range r {
						cols[k] = true
					}
				}
				var cs []string
				for k := range cols {
					if !reqCols[t][k] || (t == "stops" && k == "parent_station") {
						cs = append(cs, k)
					}
				}
				sort.Strings(cs)
				for _, k := range cs {
					n := best.Clone()
					for _, r := range n.Feeds[fi].T[t] {
						delete(r, k)
					}
					delete(n.Feeds[fi].Cols, t)
					if batch([]*Case{n}) {
						progress = true
						continue
					}
				}
			}
		}
		if best.Procs > 1 {
			n := best.Clone()
			n.Procs = 1
			if batch([]*Case{n}) {
				progress = true
			}
		}
		if !progress {
			break
		}
	}
	return best, bestF
}
