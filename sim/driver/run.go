package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"JXLMOD/zsim/spec"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
	workDir  string
	binPlain string
	binRace  string
	instr    map[string]int
	treeHash string
	tmpDir   string
	tmpN     atomic.Int64
	childN   atomic.Int64
)

// broken ends the check with an error of the check itself.
func broken(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "check error: "+format+"\n", a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if tmpDir != "" {
		os.RemoveAll(tmpDir)
	}
}

func hashTree(h *bytes.Buffer, root string, skip func(rel string, d fs.DirEntry) bool) {
	var files []string
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if d.IsDir() {
			if rel != "." && (strings.HasPrefix(d.Name(), ".") || skip(rel, d)) {
				return filepath.SkipDir
			}
			return nil
		}
		if d.Type().IsRegular() && !skip(rel, d) {
			files = append(files, rel)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			broken("%v", err)
		}
		s := sha256.Sum256(b)
		fmt.Fprintf(h, "%s %x\n", f, s)
	}
}

// build instruments the working tree of the repository and compiles the
// harness against it, unless that was done before.
func build(race bool) {
	workDir = filepath.Join(verifDir, ".work")
	os.MkdirAll(workDir, 0o755)
	var buf bytes.Buffer
	hashTree(&buf, repoDir, func(rel string, d fs.DirEntry) bool {
		if d.IsDir() {
			return d.Name() == "testdata"
		}
		return strings.HasSuffix(rel, "_test.go") || strings.HasSuffix(rel, ".md")
	})
	s := sha256.Sum256(buf.Bytes())
	treeHash = hex.EncodeToString(s[:8])
	hashTree(&buf, filepath.Join(verifDir, "sim"), func(rel string, d fs.DirEntry) bool { return strings.HasPrefix(rel, "driver") })
	v, err := exec.Command("go", "version").Output()
	if err != nil {
		broken("go: %v", err)
	}
	buf.Write(v)
	s = sha256.Sum256(buf.Bytes())
	dir := filepath.Join(workDir, "build", hex.EncodeToString(s[:8]))
	os.MkdirAll(filepath.Dir(dir), 0o755)
	lock, err := os.OpenFile(filepath.Join(workDir, "build", "lock"), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		broken("%v", err)
	}
	defer lock.Close()
	if err := syscall.Flock(int(lock.Fd()), syscall.LOCK_EX); err != nil {
		broken("%v", err)
	}
	binPlain, binRace = filepath.Join(dir, "harness"), filepath.Join(dir, "harness.race")
	gobuild := func(where, out, pkg string, extra ...string) {
		c := exec.Command("go", append(append([]string{"build", "-o", out}, extra...), pkg)...)
		c.Dir = where
		if o, err := c.CombinedOutput(); err != nil {
			broken("building %s: %v\n%s", pkg, err, o)
		}
	}
	if _, err := os.Stat(binPlain); err != nil {
		// make room: old builds go
		old, _ := filepath.Glob(filepath.Join(workDir, "build", "*"))
		if len(old) > 8 {
			for _, o := range old {
				if fi, err := os.Stat(o); err == nil && fi.IsDir() && time.Since(fi.ModTime()) > time.Hour {
					os.RemoveAll(o)
				}
			}
		}
		os.MkdirAll(dir, 0o755)
		gobuild(filepath.Join(verifDir, "sim"), filepath.Join(dir, "instr"), "./instr")
		c := exec.Command(filepath.Join(dir, "instr"), "-repo", repoDir, "-out", filepath.Join(dir, "src"), "-sim", filepath.Join(verifDir, "sim", "zsim"))
		if o, err := c.CombinedOutput(); err != nil {
			broken("instrumenting: %v\n%s", err, o)
		}
		gobuild(filepath.Join(dir, "src"), binPlain+".new", "./zsim/harness")
		if err := os.Rename(binPlain+".new", binPlain); err != nil {
			broken("%v", err)
		}
	}
	if _, err := os.Stat(binRace); race && err != nil {
		gobuild(filepath.Join(dir, "src"), binRace+".new", "./zsim/harness", "-race")
		if err := os.Rename(binRace+".new", binRace); err != nil {
			broken("%v", err)
		}
	}
	b, err := os.ReadFile(filepath.Join(dir, "src", "instr.json"))
	if err == nil {
		json.Unmarshal(b, &instr)
	}
}

// Run is what came of one world.
type Run struct {
	spec.Result
	Crash string // how the process died, "" when it did not
	Lost  string // the run cannot be judged: memory, timeout
	Race  []string
}

var cpuSem = make(chan struct{}, runtime.NumCPU())

// execWorld runs one world in a fresh process.
func execWorld(w *spec.World) *Run {
	cpuSem <- struct{}{}
	defer func() { <-cpuSem }()
	childN.Add(1)
	base := filepath.Join(tmpDir, fmt.Sprint(tmpN.Add(1)))
	in, out := base+".in", base+".out"
	defer os.Remove(in)
	defer os.Remove(out)
	b, err := json.Marshal(w)
	if err != nil {
		broken("%v", err)
	}
	if err := os.WriteFile(in, b, 0o644); err != nil {
		broken("%v", err)
	}
	bin := binPlain
	limit := 150 * time.Second
	if w.Race {
		bin = binRace
		limit = 300 * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	c := exec.CommandContext(ctx, bin, in, out)
	c.Dir = verifDir
	var stderr bytes.Buffer
	c.Stderr = &capWriter{buf: &stderr, max: 1 << 20}
	c.Env = append(os.Environ(), fmt.Sprintf("ZSIM_CPUS=%d", max(w.Sched.CPUs, 1)), "GOTRACEBACK=all", "GOMEMLIMIT=3GiB", "GORACE=exitcode=0 halt_on_error=0 history_size=3 atexit_sleep_ms=0")
	err = c.Run()
	r := &Run{}
	if ctx.Err() != nil {
		r.Lost = "timeout"
		return r
	}
	se := stderr.String()
	if rb, e := os.ReadFile(out); e == nil {
		if e := json.Unmarshal(rb, &r.Result); e != nil {
			broken("result of a run: %v", e)
		}
		r.Race = parseRaces(se)
		if r.Fatal != nil && r.Fatal.Kind == "memory" {
			r.Lost = "memory"
		}
		return r
	}
	if err == nil {
		broken("a run ended without a result: %s", tail(se))
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		broken("cannot run the harness: %v", err)
	}
	ws := ee.Sys().(syscall.WaitStatus)
	switch {
	case ws.Signaled() && ws.Signal() == syscall.SIGKILL:
		r.Lost = "memory"
	case strings.Contains(se, "stack overflow") || strings.Contains(se, "goroutine stack exceeds"):
		r.Crash = "stack overflow " + libFrame(se)
	case strings.Contains(se, "out of memory"), strings.Contains(se, "cannot allocate memory"):
		r.Lost = "memory"
	case strings.Contains(se, "harness: "):
		broken("%s", tail(se))
	case strings.Contains(se, "fatal error: ") || strings.Contains(se, "panic: ") || ws.Signaled():
		r.Crash = firstLine(se) + " " + libFrame(se)
	default:
		broken("a run ended with %v: %s", err, tail(se))
	}
	return r
}

type capWriter struct {
	buf *bytes.Buffer
	max int
}

func (c *capWriter) Write(p []byte) (int, error) {
	if n := c.max - c.buf.Len(); n > 0 {
		c.buf.Write(p[:min(n, len(p))])
	}
	return len(p), nil
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "SIG") {
			return l
		}
	}
	if i := strings.IndexByte(s, '\n'); i > 0 {
		return s[:i]
	}
	return s
}

var frameRe = regexp.MustCompile(`(?m)^([\w./\-]+/jxl-go[^\s(]*(?:\(\*?\w+(?:\[\.\.\.\])?\)[.\w]*)?)\(`)

// libFrame is the first function of the code under test in a stack.
func libFrame(s string) string {
	for _, m := range frameRe.FindAllStringSubmatch(s, -1) {
		if !strings.Contains(m[1], "/zsim/") {
			return m[1][strings.LastIndex(m[1], "/")+1:]
		}
	}
	return ""
}

// parseRaces gives, per report, the two accesses' places in the code under
// test. Reports in which both accesses are the simulator's own are dropped.
func parseRaces(se string) []string {
	var out []string
	for _, blk := range strings.Split(se, "WARNING: DATA RACE")[1:] {
		if i := strings.Index(blk, "=================="); i >= 0 {
			blk = blk[:i]
		}
		var acc []string
		own := true
		lines := strings.Split(blk, "\n")
		for i := 0; i < len(lines); i++ {
			l := strings.TrimSpace(lines[i])
			if strings.Contains(l, " at 0x") && strings.Contains(l, "by ") {
				kind := strings.Fields(l)[0]
				if kind == "Previous" {
					kind = strings.Fields(l)[1]
				}
				for j := i + 1; j+1 < len(lines); j += 2 {
					f := strings.TrimSpace(lines[j])
					if f == "" {
						break
					}
					if strings.HasPrefix(f, "runtime.") || strings.HasPrefix(f, "slices.") {
						continue
					}
					if !strings.Contains(f, "/zsim/") && !strings.HasPrefix(f, "main.") {
						own = false
					}
					where := strings.TrimSpace(lines[j+1])
					if k := strings.Index(where, "/src/"); k >= 0 {
						where = where[k+5:]
					}
					where, _, _ = strings.Cut(where, " ")
					f = f[strings.LastIndex(f, "/")+1:]
					acc = append(acc, strings.ToLower(kind)+" "+strings.TrimSuffix(f, "()")+" ("+where+")")
					break
				}
			}
		}
		if !own && len(acc) > 0 {
			out = append(out, strings.Join(acc, " / "))
		}
	}
	return out
}

// refs are runs that others are compared with. They are computed once.
type refEnt struct {
	once sync.Once
	run  *Run
}

var (
	refMu sync.Mutex
	refM  = map[string]*refEnt{}
	refN  atomic.Int64
)

func ref(w *spec.World) *Run {
	b, _ := json.Marshal(w)
	s := sha256.Sum256(b)
	k := string(s[:])
	refMu.Lock()
	e := refM[k]
	if e == nil {
		e = &refEnt{}
		refM[k] = e
	}
	refMu.Unlock()
	e.once.Do(func() {
		refN.Add(1)
		e.run = execWorld(w)
	})
	return e.run
}
