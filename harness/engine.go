package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Fail struct {
	Kind string
	Msg  string
}

func failf(kind, f string, a ...any) *Fail {
	m := fmt.Sprintf(f, a...)
	if len(m) > 3000 {
		m = m[:3000] + "..."
	}
	return &Fail{kind, m}
}

// Res is what a check says about one case.
type Res struct {
	Fail       *Fail
	NonTrivial bool
	Tags       []string
	Invalid    bool // the case is outside the property's domain
}

func (r *Res) tag(t string) { r.Tags = append(r.Tags, t) }

func (r *Res) tagIf(b bool, t string) {
	if b {
		r.Tags = append(r.Tags, t)
	}
}

type Prop struct {
	ID       string
	Quick    int
	Thorough int
	Rule     string
	Assume   []string
	Gen      func(r *Rng, thorough bool) *Case
	Check    func(e *Env, c *Case) Res
	Race     bool
	KeepArgs bool // shrinking must not drop options
	NoShrink bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

type Engine struct {
	root, scratch, bin, raceBin string
}

var theScratch string

func harnessDie(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "HARNESS ERROR: "+f+"\n", a...)
	if theScratch != "" {
		os.RemoveAll(theScratch)
	}
	os.Exit(2)
}

func mkScratch() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		p, err := os.MkdirTemp(d, "gtfsv-")
		if err == nil {
			return p
		}
	}
	harnessDie("no scratch directory")
	return ""
}

const goBin = "/opt/veriftools/go1.27.3/bin/go"

func repoDir() string {
	if d := os.Getenv("GTFSTIDY_REPO"); d != "" {
		return d
	}
	return "/repo"
}

func build(out string, race bool) {
	g := goBin
	if _, err := os.Stat(g); err != nil {
		g = "go"
	}
	args := []string{"build", "-buildvcs=false", "-trimpath", "-o", out}
	if race {
		args = append(args, "-race")
	}
	args = append(args, ".")
	cmd := exec.Command(g, args...)
	cmd.Dir = repoDir()
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off")
	b, err := cmd.CombinedOutput()
	if err != nil {
		harnessDie("building gtfstidy failed: %v\n%s", err, b)
	}
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness <property>|replay <dir>|list|survey <property> <n>")
		os.Exit(2)
	}
	runtime.GOMAXPROCS(8)
	switch os.Args[1] {
	case "list":
		var ids []string
		for id := range props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println(strings.Join(ids, " "))
		return
	case "replay":
		replay(os.Args[2])
		return
	case "survey":
		n, _ := strconv.Atoi(os.Args[3])
		survey(os.Args[2], n)
		return
	case "dump": // dump <prop> <case> <dir>: write the case as a replay directory
		n, _ := strconv.Atoi(os.Args[3])
		p := props[os.Args[2]]
		c := p.gen(newRng(seed(), p.ID, uint64(n)), false)
		for i, f := range c.Feeds {
			f.WriteDir(filepath.Join(os.Args[4], strconv.Itoa(i)))
		}
		fmt.Printf("%q procs=%d meta=%v\n", c.Args, c.Procs, c.Meta)
		return
	case "gen":
		n, _ := strconv.Atoi(os.Args[3])
		p := props[os.Args[2]]
		c := p.gen(newRng(seed(), p.ID, uint64(n)), false)
		fmt.Println(c.Args, c.Meta)
		for i, f := range c.Feeds {
			for k, s := range f.CSV() {
				fmt.Printf("--- %d %s\n%s", i, k, s)
			}
		}
		return
	}
	runProp(os.Args[1])
}

func seed() uint64 {
	s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		s = 1
	}
	return uint64(s)
}

func verifRoot() string {
	if d := os.Getenv("VERIF_ROOT"); d != "" {
		return d
	}
	return "/verif"
}

func setup(p *Prop) *Engine {
	eng := &Engine{root: verifRoot(), scratch: mkScratch()}
	theScratch = eng.scratch
	eng.bin = filepath.Join(eng.scratch, "gtfstidy")
	build(eng.bin, false)
	if p.Race {
		eng.raceBin = filepath.Join(eng.scratch, "gtfstidy-race")
		build(eng.raceBin, true)
	}
	return eng
}

func (eng *Engine) env(i int) *Env {
	d := filepath.Join(eng.scratch, "w"+strconv.Itoa(i))
	os.MkdirAll(d, 0o755)
	return &Env{bin: eng.bin, dir: d, ctx: eng}
}

// safeCheck: a check that trips over the tool's output reports that output as malformed.
func safeCheck(p *Prop, e *Env, c *Case) (r Res) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 2000)
			buf = buf[:runtime.Stack(buf, false)]
			r = Res{Fail: failf("malformed", "output could not be interpreted: %v\n%s", x, buf)}
		}
	}()
	return p.Check(e, c)
}

type hit struct {
	idx int
	c   *Case
	f   *Fail
}

func runProp(id string) {
	p := props[id]
	if p == nil {
		harnessDie("unknown property %s", id)
	}
	t0 := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 2 {
		tier = os.Args[2]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	n := p.Quick
	budget := 300 * time.Second
	if tier == "thorough" {
		n = p.Thorough
		budget = 1500 * time.Second
	}
	if s := os.Getenv("VERIF_CASES"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	eng := setup(p)
	defer os.RemoveAll(eng.scratch)

	runKnown(eng, p)

	var next atomic.Int64
	var stop atomic.Bool
	var mu sync.Mutex
	var hits []hit
	tags := map[string]int{}
	seen := map[[32]byte]bool{}
	evals, nontriv, invalid := 0, 0, 0
	var samples []any
	var wg sync.WaitGroup
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	if workers < 2 {
		workers = 2
	}
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		workers, _ = strconv.Atoi(s)
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			e := eng.env(w)
			for !stop.Load() {
				i := int(next.Add(1) - 1)
				if i >= n || time.Since(t0) > budget {
					return
				}
				c := p.gen(newRng(seed(), p.ID, uint64(i)), tier == "thorough")
				r := safeCheck(p, e, c)
				h := sha256.Sum256(c.encode())
				mu.Lock()
				evals++
				if r.Invalid {
					invalid++
				}
				for _, t := range r.Tags {
					tags[t]++
				}
				if r.NonTrivial && !seen[h] {
					seen[h] = true
					nontriv++
					if len(samples) < 4 || (len(samples) < 6 && nontriv%97 == 0) {
						samples = append(samples, sample(c, i, r))
					}
				}
				if r.Fail != nil {
					hits = append(hits, hit{i, c, r.Fail})
					stop.Store(true)
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	nviol := 0
	var vline string
	if len(hits) > 0 {
		sort.Slice(hits, func(a, b int) bool { return hits[a].idx < hits[b].idx })
		h := hits[0]
		nviol = 1
		c, f := h.c, h.f
		if !p.NoShrink && os.Getenv("VERIF_NOSHRINK") == "" && c.Meta["reject"] == "" && f.Kind != "hang" {
			c, f = shrink(p, eng, h.c, h.f, 60*time.Second)
		}
		dir := writeReplay(eng, p, c, f, h.idx, tier)
		vline = fmt.Sprintf("VIOLATION property=%s replay=%s", p.ID, dir)
		fmt.Printf("case %d: %s: %s\n", h.idx, f.Kind, f.Msg)
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": int64(seed()), "level": "exploration", "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": append([]string{"the harness' own CSV reader and GTFS model", "generated feeds are valid GTFS as accepted by the tool's own parser"}, p.Assume...),
		"coverage": map[string]any{
			"evaluations": evals, "distinct_nontrivial": nontriv, "rule": p.Rule, "samples": samples,
			"outside_domain": invalid, "planned_cases": n, "tool_runs": totalRuns.Load(), "classes": tags,
		},
	}
	if len(samples) == 0 {
		ev["coverage"].(map[string]any)["samples"] = []any{"none"}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(eng.root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(eng.root, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		harnessDie("evidence: %v", err)
	}
	fmt.Printf("%s %s: %d cases, %d non-trivial, %d outside the domain, %d tool runs, %.1f s\n", p.ID, tier, evals, nontriv, invalid, totalRuns.Load(), time.Since(t0).Seconds())
	if vline != "" {
		os.RemoveAll(eng.scratch)
		fmt.Println(vline)
		os.Exit(1)
	}
	if nontriv == 0 {
		harnessDie("no non-trivial case was generated")
	}
}

func sample(c *Case, idx int, r Res) any {
	m := map[string]any{"case": idx, "args": c.Args, "tags": r.Tags}
	var fs []any
	for _, f := range c.Feeds {
		d := map[string]any{"tables": describeFeed(f)}
		csv := f.CSV()
		for _, t := range []string{"calendar", "calendar_dates", "trips"} {
			if s := csv[t+".txt"]; s != "" {
				if len(s) > 500 {
					s = s[:500] + "..."
				}
				d[t] = s
			}
		}
		fs = append(fs, d)
	}
	m["feeds"] = fs
	if len(c.Meta) > 0 {
		m["meta"] = c.Meta
	}
	return m
}

func writeReplay(eng *Engine, p *Prop, c *Case, f *Fail, idx int, tier string) string {
	h := sha256.Sum256(c.encode())
	dir := filepath.Join(eng.root, "replays", p.ID, hex.EncodeToString(h[:6]))
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(map[string]any{"property": p.ID, "kind": f.Kind, "msg": f.Msg, "index": idx, "seed": seed(), "tier": tier, "case": c}, "", " ")
	os.WriteFile(filepath.Join(dir, "case.json"), b, 0o644)
	for i, fd := range c.Feeds {
		fd.WriteDir(filepath.Join(dir, "feed"+strconv.Itoa(i)))
	}
	os.WriteFile(filepath.Join(dir, "README"), []byte(fmt.Sprintf("property %s violated: %s\n%s\n\noptions: %q GOMAXPROCS=%d\nreplay: cd /verif && bash run.sh replay %s\n", p.ID, f.Kind, f.Msg, c.Args, c.Procs, dir)), 0o644)
	return dir
}

type replayFile struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Msg      string `json:"msg"`
	Case     *Case  `json:"case"`
}

func loadReplay(dir string) (*replayFile, error) {
	b, err := os.ReadFile(filepath.Join(dir, "case.json"))
	if err != nil {
		return nil, err
	}
	var r replayFile
	if err := json.Unmarshal(b, &r); err != nil {
		return nil, err
	}
	for _, f := range r.Case.Feeds {
		if f.T == nil {
			f.T = map[string][]Row{}
		}
		if f.Cols == nil {
			f.Cols = map[string][]string{}
		}
	}
	return &r, nil
}

func replay(dir string) {
	r, err := loadReplay(dir)
	if err != nil {
		harnessDie("%v", err)
	}
	p := props[r.Property]
	eng := setup(p)
	defer os.RemoveAll(eng.scratch)
	for k := 0; k < 10; k++ {
		res := safeCheck(p, eng.env(0), r.Case)
		if res.Fail != nil {
			fmt.Printf("%s: %s\n", res.Fail.Kind, res.Fail.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, dir)
			os.RemoveAll(eng.scratch)
			os.Exit(1)
		}
	}
	fmt.Println("replay passes")
}

// ---- known findings ----

// known_findings.txt: lines
//
//	finding: property=<id> case=<dir> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// A finding is identified by its stored input; it is replayed and reported while it fails.
func runKnown(eng *Engine, p *Prop) {
	b, err := os.ReadFile(filepath.Join(eng.root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: property="+p.ID+" ") {
			continue
		}
		fs := strings.Fields(l)
		dir := strings.TrimPrefix(fs[2], "case=")
		r, err := loadReplay(filepath.Join(eng.root, dir))
		if err != nil {
			harnessDie("known finding %s: %v", dir, err)
		}
		for i := 0; i < 5; i++ {
			res := safeCheck(p, eng.env(0), r.Case)
			if res.Fail != nil && res.Fail.Kind == r.Kind {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, strings.Join(fs[3:], " "))
				break
			}
		}
	}
}

// survey runs n cases and prints all kinds of failures.
func survey(id string, n int) {
	p := props[id]
	if p == nil {
		harnessDie("unknown property %s", id)
	}
	eng := setup(p)
	defer os.RemoveAll(eng.scratch)
	t0 := time.Now()
	var mu sync.Mutex
	kinds := map[string][]hit{}
	tags := map[string]int{}
	nontriv, invalid := 0, 0
	var wg sync.WaitGroup
	var next atomic.Int64
	for w := 0; w < 8; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			e := eng.env(w)
			for {
				i := int(next.Add(1) - 1)
				if i >= n {
					return
				}
				c := p.gen(newRng(seed(), p.ID, uint64(i)), false)
				r := safeCheck(p, e, c)
				mu.Lock()
				for _, t := range r.Tags {
					tags[t]++
				}
				if r.NonTrivial {
					nontriv++
				}
				if r.Invalid {
					invalid++
				}
				if r.Fail != nil {
					kinds[r.Fail.Kind] = append(kinds[r.Fail.Kind], hit{i, c, r.Fail})
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	fmt.Printf("%s: %d cases %.1fs nontrivial=%d invalid=%d runs=%d\n", id, n, time.Since(t0).Seconds(), nontriv, invalid, totalRuns.Load())
	var ts []string
	for t, k := range tags {
		ts = append(ts, fmt.Sprintf("%s=%d", t, k))
	}
	sort.Strings(ts)
	fmt.Println("tags:", strings.Join(ts, " "))
	only := os.Getenv("KIND")
	for k, hs := range kinds {
		fmt.Printf("=== %s: %d failures\n", k, len(hs))
		sort.Slice(hs, func(a, b int) bool { return hs[a].c.size() < hs[b].c.size() })
		fmt.Printf("  smallest case %d: %s\n", hs[0].idx, hs[0].f.Msg)
		if os.Getenv("SHRINK") != "" && (only == "" || only == k) {
			c, f := hs[0].c, hs[0].f
			if c.Meta["reject"] == "" && k != "hang" {
				c, f = shrink(p, eng, c, f, 40*time.Second)
			}
			d := writeReplay(eng, p, c, f, hs[0].idx, "survey")
			fmt.Printf("  shrunk: args=%q procs=%d meta=%v %s\n", c.Args, c.Procs, c.Meta, f.Msg)
			for i, fd := range c.Feeds {
				csv := fd.CSV()
				for _, t := range tableOrder {
					if s, ok := csv[t+".txt"]; ok {
						fmt.Printf("  [%d] %s:\n%s", i, t, indent(s))
					}
				}
			}
			fmt.Println("  replay:", d)
		}
	}
}

func indent(s string) string {
	var b strings.Builder
	for _, l := range strings.Split(strings.TrimRight(s, "\n"), "\n") {
		b.WriteString("      " + l + "\n")
	}
	return b.String()
}

// gen generates a case. -n does not fit feeds that come close to (0, 0).
func (p *Prop) gen(r *Rng, th bool) *Case {
	c := p.Gen(r, th)
	if r.P(.25) {
		c.Args = append(c.Args, bystanders(r, p.ID, c)...)
	}
	if p.ID == "C22" || p.ID == "C23" || p.ID == "C24" || !(c.has("-n") || c.has("--check-null-coords")) {
		return c
	}
	for _, f := range c.Feeds {
		for t, col := range map[string]string{"stops": "stop_", "shapes": "shape_pt_"} {
			for _, x := range f.T[t] {
				if la, lo := x[col+"lat"], x[col+"lon"]; la != "" && math.Abs(pf(la)) < .001 && math.Abs(pf(lo)) < .001 {
					c.Args = slices.DeleteFunc(c.Args, func(a string) bool { return a == "-n" || a == "--check-null-coords" })
					return c
				}
			}
		}
	}
	return c
}
