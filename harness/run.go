package main

// Running the built gtfstidy binary on generated cases.

import (
	"archive/zip"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Case is one generated input; it must contain everything a check needs.
type Case struct {
	Feeds []*Feed           `json:"feeds"`
	Args  []string          `json:"args"`
	Procs int               `json:"procs"`
	Aux   map[string]string `json:"aux,omitempty"`  // auxiliary files, referenced in args as @aux/<name>
	Meta  map[string]string `json:"meta,omitempty"` // anything else the check drew
}

func (c *Case) Clone() *Case {
	n := &Case{Args: append([]string(nil), c.Args...), Procs: c.Procs}
	for _, f := range c.Feeds {
		n.Feeds = append(n.Feeds, f.Clone())
	}
	if c.Aux != nil {
		n.Aux = map[string]string{}
		for k, v := range c.Aux {
			n.Aux[k] = v
		}
	}
	if c.Meta != nil {
		n.Meta = map[string]string{}
		for k, v := range c.Meta {
			n.Meta[k] = v
		}
	}
	return n
}

func (c *Case) has(arg string) bool {
	for _, a := range c.Args {
		if a == arg {
			return true
		}
	}
	return false
}

func (c *Case) size() int {
	s := 5 * len(c.Args)
	for _, f := range c.Feeds {
		s += f.Size()
	}
	return s
}

func (c *Case) encode() []byte {
	b, _ := json.Marshal(c)
	return b
}

type Out struct {
	Code     int
	Signal   bool
	Timeout  bool
	Stdout   string
	Stderr   string
	HasOut   bool // output path exists
	Files    map[string]string
	F        *Feed
	ParseErr error
	Args     []string
	Size     int64 // of the output file
}

func (o *Out) msg() string {
	s := strings.TrimSpace(o.Stderr)
	if len(s) > 600 {
		s = s[:300] + " ... " + s[len(s)-300:]
	}
	return fmt.Sprintf("exit=%d stderr=%q", o.Code, s)
}

type Env struct {
	bin string
	dir string // private scratch directory of this worker
	ctx *Engine
	n   int
}

type RunOpt struct {
	Procs   int
	Zip     bool // write the output as zip
	InZip   bool // give the input as zip
	NoOut   bool // do not pass -o
	InPaths []string
	PreOut  map[string]string // files present in the output directory before
	KeepOut bool              // keep the output of the previous run in place
	OutName string
	Stdin   string
	Cwd     string
	PostArg bool // options after the paths
	OptDash bool
	ZipDir  string  // directory of the files inside the input zip
	Race    bool    // use the build with the race detector
	Watch   *string // receives the changes of files during the run
}

func writeZip(path string, files map[string]string, prefix string) error {
	var b bytes.Buffer
	w := zip.NewWriter(&b)
	for _, t := range tableOrder {
		n := t + ".txt"
		s, ok := files[n]
		if !ok {
			continue
		}
		f, err := w.Create(prefix + n)
		if err != nil {
			return err
		}
		io.WriteString(f, s)
	}
	if err := w.Close(); err != nil {
		return err
	}
	return os.WriteFile(path, b.Bytes(), 0o644)
}

func readZip(path string) (map[string]string, error) {
	r, err := zip.OpenReader(path)
	if err != nil {
		return nil, err
	}
	defer r.Close()
	m := map[string]string{}
	for _, f := range r.File {
		rc, err := f.Open()
		if err != nil {
			return nil, err
		}
		b, err := io.ReadAll(rc)
		rc.Close()
		if err != nil {
			return nil, err
		}
		if _, ok := m[f.Name]; ok {
			return nil, fmt.Errorf("zip entry %s twice", f.Name)
		}
		m[f.Name] = string(b)
	}
	return m, nil
}

var totalRuns atomic.Int64

// Run executes gtfstidy on the feeds with the given args.
func (e *Env) Run(feeds []*Feed, args []string, c *Case, o RunOpt) *Out {
	e.n++
	inRoot := filepath.Join(e.dir, "in")
	os.RemoveAll(inRoot)
	os.MkdirAll(inRoot, 0o755)
	var ins []string
	if o.InPaths != nil {
		ins = o.InPaths
	} else {
		for i, f := range feeds {
			p := filepath.Join(inRoot, strconv.Itoa(i))
			if o.InZip {
				p += ".zip"
				if err := writeZip(p, f.CSV(), o.ZipDir); err != nil {
					harnessDie("write zip: %v", err)
				}
			} else if err := f.WriteDir(p); err != nil {
				harnessDie("write feed: %v", err)
			}
			ins = append(ins, p)
		}
	}
	auxRoot := filepath.Join(e.dir, "aux")
	os.RemoveAll(auxRoot)
	if c != nil && len(c.Aux) > 0 {
		os.MkdirAll(auxRoot, 0o755)
		for n, s := range c.Aux {
			if err := os.WriteFile(filepath.Join(auxRoot, n), []byte(s), 0o644); err != nil {
				harnessDie("aux: %v", err)
			}
		}
	}
	outPath := filepath.Join(e.dir, "out")
	if o.Zip {
		outPath += ".zip"
	}
	if o.OutName != "" {
		outPath = filepath.Join(e.dir, o.OutName)
	}
	if !o.KeepOut {
		os.RemoveAll(filepath.Join(e.dir, "out"))
		os.RemoveAll(filepath.Join(e.dir, "out.zip"))
		if o.OutName != "" {
			os.RemoveAll(outPath)
		}
	}
	if o.PreOut != nil {
		os.MkdirAll(outPath, 0o755)
		for n, s := range o.PreOut {
			os.WriteFile(filepath.Join(outPath, n), []byte(s), 0o644)
		}
	}
	var full []string
	for _, a := range args {
		full = append(full, strings.ReplaceAll(a, "@aux", auxRoot))
	}
	var av []string
	if o.PostArg {
		av = append(av, ins...)
		av = append(av, full...)
	} else {
		av = append(av, full...)
	}
	if !o.NoOut {
		av = append(av, "-o", outPath)
	}
	if !o.PostArg {
		if o.OptDash {
			av = append(av, "--")
		}
		av = append(av, ins...)
	}
	var before map[string]string
	if o.Watch != nil {
		os.RemoveAll(filepath.Join(e.dir, "gtfs-out")) // the default output
		before = dirState(e.dir)
	}
	out := e.exec(av, o, 60*time.Second)
	if o.Watch != nil {
		*o.Watch = symDiffState(before, dirState(e.dir))
		os.RemoveAll(filepath.Join(e.dir, "gtfs-out"))
	}
	if out.Timeout {
		os.RemoveAll(filepath.Join(e.dir, "out"))
		out = e.exec(av, o, 120*time.Second)
	}
	out.Args = av
	st, err := os.Stat(outPath)
	out.HasOut = err == nil
	if err == nil {
		out.Size = st.Size()
	}
	if out.Code == 0 && !out.Timeout && err == nil && !o.NoOut {
		if o.Zip || (!st.IsDir() && strings.HasSuffix(outPath, ".zip")) {
			out.Files, out.ParseErr = readZip(outPath)
		} else if st.IsDir() {
			out.Files, out.ParseErr = ReadDir(outPath)
		} else {
			out.ParseErr = errors.New("output is neither directory nor zip")
		}
		if out.ParseErr == nil {
			out.F, out.ParseErr = ParseTables(out.Files)
		}
	}
	return out
}

// dirState describes all files below a directory.
func dirState(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		d := fmt.Sprint(i.Mode(), " ")
		if !i.IsDir() {
			b, _ := os.ReadFile(p)
			d += fmt.Sprint(i.ModTime().UnixNano(), " ", len(b), " ", crc32.ChecksumIEEE(b))
		}
		m[p[len(dir)+1:]] = d
		return nil
	})
	return m
}

func symDiffState(a, b map[string]string) string {
	var d []string
	for p, s := range a {
		if t, ok := b[p]; !ok {
			d = append(d, p+" removed")
		} else if s != t {
			d = append(d, p+" changed")
		}
	}
	for p := range b {
		if _, ok := a[p]; !ok {
			d = append(d, p+" created")
		}
	}
	sort.Strings(d)
	return strings.Join(d, ", ")
}

// capBuf keeps the first megabytes of what is written to it.
type capBuf struct{ bytes.Buffer }

func (b *capBuf) Write(p []byte) (int, error) {
	if b.Len() < 4<<20 {
		b.Buffer.Write(p)
	}
	return len(p), nil
}

func (e *Env) exec(av []string, o RunOpt, tmo time.Duration) *Out {
	ctx, cancel := context.WithTimeout(context.Background(), tmo)
	defer cancel()
	bin := e.bin
	if o.Race {
		bin = e.ctx.raceBin
	}
	cmd := exec.CommandContext(ctx, bin, av...)
	procs := o.Procs
	if procs == 0 {
		procs = 1
	}
	cmd.Env = []string{"GOMAXPROCS=" + strconv.Itoa(procs), "PATH=/usr/bin:/bin", "HOME=" + e.dir, "TMPDIR=" + e.dir, "GOTRACEBACK=single", "GORACE=halt_on_error=0 exitcode=66"}
	cmd.Dir = e.dir
	if o.Cwd != "" {
		cmd.Dir = o.Cwd
	}
	var so, se capBuf
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Start()
	if err == nil {
		if !o.Race { // endless allocation must not take the machine down (the race detector needs address space)
			lim := syscall.Rlimit{Cur: 4 << 30, Max: 4 << 30}
			syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(cmd.Process.Pid), syscall.RLIMIT_AS, uintptr(unsafe.Pointer(&lim)), 0, 0, 0)
		}
		err = cmd.Wait()
	}
	totalRuns.Add(1)
	r := &Out{Stdout: so.String(), Stderr: se.String()}
	if ctx.Err() != nil {
		r.Timeout = true
		r.Code = -1
		return r
	}
	if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			r.Code = ee.ExitCode()
			if r.Code < 0 {
				r.Signal = true
				if strings.Contains(ee.String(), "killed") {
					harnessDie("gtfstidy was killed (memory?)")
				}
			}
		} else {
			harnessDie("cannot run gtfstidy: %v", err)
		}
	}
	return r
}

// do runs the case's own feeds and args and requires a successful, readable output.
func (e *Env) do(c *Case, args []string, o RunOpt) (*Out, *Fail) {
	return e.doFeeds(c, c.Feeds, args, o)
}

func (e *Env) doFeeds(c *Case, feeds []*Feed, args []string, o RunOpt) (*Out, *Fail) {
	if o.Procs == 0 {
		o.Procs = c.Procs
	}
	out := e.Run(feeds, args, c, o)
	return out, needOK(out)
}

func needOK(out *Out) *Fail {
	switch {
	case out.Timeout:
		return failf("hang", "gtfstidy %s did not terminate within 120 s", strings.Join(out.Args, " "))
	case out.Code != 0:
		k := "fails"
		if strings.Contains(out.Stderr, "goroutine ") || strings.Contains(out.Stderr, "panic") || strings.Contains(out.Stderr, "runtime error") || out.Signal {
			k = "crash"
		}
		k += ":" + errClass(out.Stderr)
		return failf(k, "no output for a valid feed: args %q: %s", out.Args, out.msg())
	case strings.Contains(out.Stderr, "Error"):
		k := "fails"
		if strings.Contains(out.Stderr, "runtime error") || strings.Contains(out.Stderr, "panic") {
			k = "crash"
		}
		k += ":" + errClass(out.Stderr)
		return failf(k, "error message although the exit status is 0: args %q: %s", out.Args, out.msg())
	case out.ParseErr != nil:
		return failf("unreadable", "unreadable output: args %q: %v", out.Args, out.ParseErr)
	case out.F == nil:
		return failf("no-output", "no output: args %q: %s", out.Args, out.msg())
	}
	return numbers(out.F)
}

var quoted = regexp.MustCompile(`'[^']*'|"[^"]*"|\[[^\]]*\]`)
var idWord = regexp.MustCompile(`\b(id|Id|ID|trip|stop|route) \S+`)
var frame = regexp.MustCompile(`(?m)^main\.\S*|processors\.\S*`)

// errClass normalises an error message so that equal errors have equal classes.
func errClass(s string) string {
	loc := ""
	if i := strings.Index(s, "goroutine "); i >= 0 {
		if m := frame.FindString(s[i:]); m != "" {
			loc = strings.SplitN(m, "(0x", 2)[0]
		}
		s = s[:i]
	}
	if strings.Contains(s, "while parsing GTFS") {
		if i := strings.LastIndex(s, " - "); i >= 0 {
			s = s[i:]
		}
		if i := strings.Index(s, ") No"); i >= 0 {
			s = s[i:]
		}
		s = "parse " + s
	}
	s = quoted.ReplaceAllString(s, "_")
	s = idWord.ReplaceAllString(s, "$1 _")
	s = strings.Map(func(c rune) rune {
		if c >= '0' && c <= '9' {
			return -1
		}
		return c
	}, s)
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 120 {
		s = s[:120]
	}
	return s + " " + loc
}

// noOutput: the run failed as a whole; that is judged by C03.
func noOutput(f *Fail) bool {
	return f != nil && (f.Kind == "hang" || strings.HasPrefix(f.Kind, "fails") || strings.HasPrefix(f.Kind, "crash"))
}

// judge: a run that failed as a whole is a failure as well, unless a recorded defect of the parser library is the reason (see C03).
func (r *Res) judge(c *Case, f *Fail) {
	if noOutput(f) && parserFilterDefect(c, f) {
		r.Invalid = true
		r.tag("no-output")
		return
	}
	r.Fail = f
}
