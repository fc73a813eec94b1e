// Command driver is the check: it makes simulated worlds from a seed, runs each
// in a fresh process built from the working tree of the repository, judges the
// outcomes, and minimises and records a violation.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"JXLMOD/zsim/gen"
	"JXLMOD/zsim/spec"
)

// Replay is what is written about a violation.
type Replay struct {
	Property string     `json:"property"`
	Class    string     `json:"class"`
	Message  string     `json:"message"`
	Seed     uint64     `json:"seed"`
	Case     int        `json:"case"`
	Tree     string     `json:"tree"`
	Tries    int        `json:"minimiser_runs"`
	World    spec.World `json:"world"`
}

// finding is a line of the known-findings file.
type finding struct {
	prop, class string
	match       *regexp.Regexp
	text        string
}

// findings reads the file: "finding: property=C01 class=x match=<regexp> | text".
func findings(prop string) []finding {
	f, err := os.Open(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return nil
	}
	defer f.Close()
	re := regexp.MustCompile(`^finding: property=(\S+) class=(\S+) match=(.*?) \| (.*)$`)
	var out []finding
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		if m := re.FindStringSubmatch(sc.Text()); m != nil && m[1] == prop {
			x, err := regexp.Compile(m[3])
			if err != nil {
				broken("known-findings: %v", err)
			}
			out = append(out, finding{m[1], m[2], x, m[4]})
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: driver check|replay|setup ...")
		os.Exit(2)
	}
	var err error
	if tmpDir, err = os.MkdirTemp("", "jxlsim"); err != nil {
		broken("%v", err)
	}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() {
		<-sig
		cleanup()
		os.Exit(2)
	}()
	switch os.Args[1] {
	case "setup":
		build(true)
		cleanup()
	case "check":
		check()
	case "replay":
		replay(os.Args[2])
	default:
		broken("unknown command %q", os.Args[1])
	}
}

func replay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		broken("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		broken("%v", err)
	}
	build(rp.World.Race)
	r := execWorld(&rp.World)
	if r.Lost != "" {
		broken("the run was lost: %s", r.Lost)
	}
	v := judges[rp.Property](&rp.World, r)
	cleanup()
	if rp.Tree != treeHash {
		fmt.Printf("note: recorded on tree %s, this is %s\n", rp.Tree, treeHash)
	}
	fmt.Printf("schedule digest %s, %d points, %d switches\n", r.Stats.Hash, r.Stats.Points, r.Stats.Switches)
	if v == nil {
		fmt.Printf("no violation of %s\n", rp.Property)
		return
	}
	fmt.Printf("%s\n", v.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, path)
	os.Exit(1)
}

type tally struct {
	mu         sync.Mutex
	runs       int
	ops        map[string]int
	status     map[string]int
	fired      map[string]int
	policies   map[string]int
	pools      map[string]int
	cpus       map[int]int
	limits     map[int]int
	lost       map[string]int
	sim        int64
	points     uint64
	switches   uint64
	preempt    uint64
	syncops    uint64
	spawned    int
	maxlive    int
	maxwork    int
	hits       uint64
	misses     uint64
	drops      uint64
	worlds     map[string]bool
	nontrivial map[string]bool
	inputs     map[string]bool
	scheds     map[string]bool
	mutkinds   map[string]int
	torn       int
	spoilt     int
	boxes      int
	samples    []string
	repeat     int
	races      int
}

func newTally() *tally {
	return &tally{ops: map[string]int{}, status: map[string]int{}, fired: map[string]int{}, policies: map[string]int{}, pools: map[string]int{},
		cpus: map[int]int{}, limits: map[int]int{}, lost: map[string]int{}, worlds: map[string]bool{}, nontrivial: map[string]bool{},
		inputs: map[string]bool{}, scheds: map[string]bool{}, mutkinds: map[string]int{}}
}

func digest(v any) string {
	b, _ := json.Marshal(v)
	s := sha256.Sum256(b)
	return hex.EncodeToString(s[:10])
}

// rules say what makes a run of a property non-trivial.
var rules = map[string]string{
	"C01": "one decode (or query) per run; non-trivial: at least two goroutines were scheduled with at least ten task switches",
	"C02": "one or more operations per run under the race detector; non-trivial: at least two goroutines and ten task switches",
	"C03": "two to four clients per run; non-trivial: at least two operations ended and there were task switches",
	"C04": "a history of three to seven operations; non-trivial: at least two operations of which one ended in an error or a buffer was recycled or an export took place",
	"C05": "exports, decodes and queries around a kept image; non-trivial: at least two exports succeeded, or one export and one later decode",
	"C06": "operations on a source that delivers irregularly; non-trivial: a short read, empty read or end of file with data happened",
	"C07": "operations on a failing source, with healthy ones between; non-trivial: an error was delivered",
	"C08": "operations on truncated files; non-trivial: a truncated file was read",
	"C09": "operations on damaged files followed by a valid one; non-trivial: a damaged file was read to an image or an error",
	"C10": "decodes of images with torn sections; non-trivial: a torn image was decoded to an end",
	"C11": "operations on files with random layouts and section orders; non-trivial: a container or permuted file was read",
	"C12": "header queries around decodes; non-trivial: a query succeeded on a file that decodes",
	"C13": "programs of pool users; non-trivial: a buffer was recycled, or two users overlapped",
	"C14": "writes to failing and healthy destinations; non-trivial: a destination error was delivered",
	"C15": "disturbed and undisturbed operations under unfair schedules; non-trivial: background goroutines ran or an operation failed",
	"C16": "twelve bit reader programs per run; non-trivial: at least ten steps were compared with the model",
	"C17": "decodes with a limit; non-trivial: at least two goroutines were started",
	"C19": "decodes of a generated lossy image and of its groups by themselves; non-trivial: a group was compared",
	"C20": "decodes of generated lossy images; non-trivial: the samples of an image were compared",
	"C21": "exports of decoded images; non-trivial: the colours of an export were compared",
	"C22": "header queries and decodes of generated files; non-trivial: a header was compared",
	"C18": "decodes of generated lossless images; non-trivial: the samples of an image were compared",
}

func nontrivial(prop string, w *spec.World, r *Run) bool {
	okN, errN, fired, exports, decodes, cmp, benign, region, n := 0, 0, 0, 0, 0, 0, 0, 0, 0
	var work int64
	damagedN, laid := 0, 0
	for _, o := range ops(w, r) {
		switch o.res.Status {
		case "":
			continue
		case "ok":
			okN++
		case "err":
			errN++
		}
		n++
		if errFired(o.res) {
			fired++
		}
		benign += o.res.Fired["short"] + o.res.Fired["emptyread"] + o.res.Fired["eofdata"]
		work += o.res.N
		if isExport(o.op.Kind) && o.res.Status == "ok" {
			exports++
		}
		if o.op.Kind == "region" && o.res.N > 0 {
			region++
		}
		if isSource(o.op.Kind) {
			in := w.Inputs[o.op.In]
			if o.res.Status == "ok" {
				decodes++
			}
			if o.res.Truth == "same" {
				cmp++
			}
			if len(in.Muts) > 0 || in.Gen != nil && (len(in.Gen.Torn) > 0 || len(in.Gen.Spoil) > 0) {
				damagedN++
			}
			if in.Layout != nil || in.Gen != nil && in.Gen.Permute {
				laid++
			}
		}
	}
	st := r.Stats
	switch prop {
	case "C01", "C02":
		return st.Spawned > 1 && st.Switches >= 10
	case "C03":
		return n >= 2 && st.Switches > 0
	case "C04":
		return n >= 2 && (errN > 0 || st.PoolHit > 0 || exports > 0)
	case "C05":
		return exports >= 2 || exports >= 1 && decodes >= 2
	case "C06":
		return benign > 0
	case "C07", "C14":
		return fired > 0
	case "C08", "C09", "C10":
		return damagedN > 0
	case "C11":
		return laid > 0
	case "C12":
		return okN > 0
	case "C13":
		return st.PoolHit > 0 || st.Switches > 4
	case "C15":
		return st.Spawned > 1 || errN > 0
	case "C16":
		return work >= 10
	case "C17":
		return st.Spawned > 2
	case "C19":
		return region > 0
	case "C18", "C20":
		return cmp > 0
	case "C21":
		for _, o := range ops(w, r) {
			if o.res.Shown != "" {
				return true
			}
		}
		return false
	case "C22":
		for _, o := range ops(w, r) {
			if o.res.Head != "" {
				return true
			}
		}
		return false
	}
	return true
}

func describe(w *spec.World, r *Run) string {
	var s []string
	for _, o := range ops(w, r) {
		t := o.op.Kind
		if isSource(o.op.Kind) {
			t += " " + inputName(w.Inputs[o.op.In])
			if o.op.IO != nil {
				t += " [" + ioName(o.op.IO) + "]"
			}
			if o.op.Max > 0 {
				t += fmt.Sprintf(" limit %d", o.op.Max)
			}
		} else if len(o.op.Acts) > 0 {
			t += fmt.Sprintf(" %d steps", len(o.op.Acts))
		}
		if o.op.IO != nil && !isSource(o.op.Kind) {
			t += " [" + ioName(o.op.IO) + "]"
		}
		st := o.res.Status
		if st == "" {
			st = "not reached"
		}
		s = append(s, t+" -> "+st)
		if len(s) > 8 {
			s = append(s, "...")
			break
		}
	}
	x := fmt.Sprintf("schedule %s seed %d, %d CPUs, pool %s, %d clients: %s; %d points, %d switches, digest %s",
		w.Sched.Policy, w.Sched.Seed, w.Sched.CPUs, w.Sched.Pool, len(w.Clients), strings.Join(s, "; "), r.Stats.Points, r.Stats.Switches, r.Stats.Hash)
	if len(x) > 1500 {
		x = x[:1500] + "..."
	}
	return x
}

func (t *tally) add(prop string, i int, w *spec.World, r *Run) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	if r.Lost != "" {
		t.lost[r.Lost]++
		return
	}
	t.policies[w.Sched.Policy]++
	t.pools[w.Sched.Pool]++
	t.cpus[w.Sched.CPUs]++
	for _, o := range ops(w, r) {
		t.ops[o.op.Kind]++
		if o.res.Status != "" {
			t.status[o.res.Status]++
		}
		for k, n := range o.res.Fired {
			t.fired[k] += n
		}
		if isSource(o.op.Kind) {
			t.limits[o.op.Max]++
		}
	}
	for _, in := range w.Inputs {
		t.inputs[digest(in)] = true
		for _, m := range in.Muts {
			t.mutkinds[m.K]++
		}
		if in.Gen != nil {
			t.torn += len(in.Gen.Torn)
			t.spoilt += len(in.Gen.Spoil)
		}
		if in.Layout != nil {
			t.boxes += len(in.Layout.Boxes)
		}
	}
	s := r.Stats
	t.sim += s.SimNanos
	t.points += s.Points
	t.switches += s.Switches
	t.preempt += s.Preempt
	t.syncops += s.SyncOps
	t.spawned += s.Spawned
	t.maxlive = max(t.maxlive, s.MaxLive)
	t.maxwork = max(t.maxwork, s.MaxWork)
	t.hits += s.PoolHit
	t.misses += s.PoolMiss
	t.drops += s.PoolDrop
	d := digest(w)
	t.worlds[d] = true
	t.scheds[s.Hash] = true
	if nontrivial(prop, w, r) {
		t.nontrivial[d] = true
		if len(t.samples) < 6 {
			t.samples = append(t.samples, fmt.Sprintf("case %d: ", i)+describe(w, r))
		}
	}
}

func strMap(m map[int]int) map[string]int {
	o := map[string]int{}
	for k, v := range m {
		o[strconv.Itoa(k)] = v
	}
	return o
}

func check() {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	only := fs.Int("case", -1, "run this case only")
	secs := fs.Int("seconds", 0, "how long to explore")
	keep := fs.Bool("all", false, "do not stop at the first violation, do not minimise")
	fs.Parse(os.Args[2:])
	g, j := gens[*prop], judges[*prop]
	if g == nil || j == nil {
		broken("unknown property %q", *prop)
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if os.Getenv("VERIF_SEED") == "" {
		seed = 1
	}
	start := time.Now()
	build(*prop == "C02")
	built := time.Since(start)
	limit := 60
	least := 60
	if tier == "thorough" {
		limit, least = 720, 200
	}
	if *secs > 0 {
		limit, least = *secs, 1
	}
	soft := start.Add(built + time.Duration(limit)*time.Second)
	hard := start.Add(600 * time.Second)
	if tier == "thorough" {
		hard = soft.Add(60 * time.Second)
	}
	known := findings(*prop)
	t := newTally()
	var next atomic.Int64
	var stop atomic.Bool
	type hit struct {
		i int
		w *spec.World
		v *Violation
	}
	var hits []hit
	knownHit := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for k := 0; k < cap(cpuSem); k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !stop.Load() {
				i := int(next.Add(1) - 1)
				if *only >= 0 {
					if i > 0 {
						return
					}
					i = *only
				}
				now := time.Now()
				if now.After(hard) || now.After(soft) && i >= least {
					return
				}
				w := g(gen.NewRng(seed*1000003+uint64(i)*7919+hashStr(*prop)), i)
				if w == nil {
					continue
				}
				w.Prop = *prop
				r := execWorld(w)
				t.add(*prop, i, w, r)
				if r.Lost != "" {
					continue
				}
				v := j(w, r)
				if i%40 == 7 {
					// the same world again has to be the same execution
					again := execWorld(w)
					if again.Lost == "" && (again.Stats.Hash != r.Stats.Hash || again.Stats.Points != r.Stats.Points) && v == nil {
						fmt.Fprintf(os.Stderr, "note: case %d was not repeated exactly\n", i)
					} else {
						t.mu.Lock()
						t.repeat++
						t.mu.Unlock()
					}
				}
				if v == nil {
					continue
				}
				isKnown := false
				for _, f := range known {
					if f.class == v.Class && f.match.MatchString(v.Msg) {
						isKnown = true
						mu.Lock()
						knownHit[f.text] = true
						mu.Unlock()
					}
				}
				if isKnown {
					continue
				}
				mu.Lock()
				hits = append(hits, hit{i, w, v})
				mu.Unlock()
				if *keep {
					fmt.Printf("case %d: %s: %s\n", i, v.Class, v.Msg)
				} else {
					stop.Store(true)
				}
			}
		}()
	}
	wg.Wait()
	explored := time.Since(start) - built
	for _, f := range known {
		_ = f
	}
	for _, f := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *prop, f.text)
	}
	writeEvidence(*prop, tier, seed, t, len(hits), start, built, explored)
	if len(hits) == 0 {
		cleanup()
		fmt.Printf("%s: held in %d runs (%d distinct non-trivial), %d reference runs, %.0f simulated seconds, %.0f s\n",
			*prop, t.runs, len(t.nontrivial), refN.Load(), float64(t.sim)/1e9, time.Since(start).Seconds())
		return
	}
	sort.Slice(hits, func(a, b int) bool { return hits[a].i < hits[b].i })
	h := hits[0]
	mt := 75 * time.Second
	if *keep {
		mt = 0
	}
	m := minimise(h.w, h.v, j, mt)
	// the file that is written has to reproduce the violation
	for k := 0; k < 3; k++ {
		r := execWorld(m.w)
		if v := j(m.w, r); r.Lost == "" && v != nil {
			m.v = v
			break
		}
		if k == 2 {
			m.w, m.v = h.w, h.v
		}
	}
	rp := Replay{Property: *prop, Class: m.v.Class, Message: m.v.Msg, Seed: seed, Case: h.i, Tree: treeHash, Tries: m.tries, World: *m.w}
	dir := filepath.Join(workDir, "replays")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s.json", *prop, digest(rp.World)[:10]))
	b, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		broken("%v", err)
	}
	fmt.Printf("case %d of seed %d, minimised in %d runs: %s\n", h.i, seed, m.tries, m.v.Msg)
	fmt.Printf("replay: bash %s/run.sh replay %s\n", verifDir, path)
	fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
	cleanup()
	os.Exit(1)
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return h
}

func writeEvidence(prop, tier string, seed uint64, t *tally, viols int, start time.Time, built, explored time.Duration) {
	level := "exploration"
	switch prop {
	case "C07", "C08", "C10", "C14":
		level = "fault_enumeration"
	}
	hours := explored.Hours()
	cov := map[string]any{
		"evaluations":              t.runs,
		"distinct_nontrivial":      len(t.nontrivial),
		"rule":                     "every case is a world drawn from the seed: inputs, operations, fault plan, scheduling policy, pool behaviour, CPU count; " + rules[prop],
		"samples":                  t.samples,
		"exhaustive":               false,
		"distinct_worlds":          len(t.worlds),
		"distinct_schedules":       len(t.scheds),
		"distinct_inputs":          len(t.inputs),
		"schedule_measure":         "digest over the position and target of every task switch of a run",
		"reference_runs":           refN.Load(),
		"processes":                childN.Load(),
		"runs_per_hour":            float64(t.runs) / hours,
		"seeds":                    1,
		"seed_cases_per_hour":      float64(t.runs) / hours,
		"simulated_seconds":        float64(t.sim) / 1e9,
		"preemption_points":        t.points,
		"task_switches":            t.switches,
		"preemptions":              t.preempt,
		"synchronisation_ops":      t.syncops,
		"goroutines_simulated":     t.spawned,
		"most_goroutines_alive":    t.maxlive,
		"most_goroutines_at_work":  t.maxwork,
		"operations":               t.ops,
		"outcomes":                 t.status,
		"faults_injected":          t.fired,
		"damage_to_stored_bytes":   t.mutkinds,
		"torn_sections":            t.torn,
		"spoilt_values":            t.spoilt,
		"container_boxes":          t.boxes,
		"scheduling_policies":      t.policies,
		"pool_behaviours":          t.pools,
		"pool_recycled":            t.hits,
		"pool_new":                 t.misses,
		"pool_dropped":             t.drops,
		"cpu_counts":               strMap(t.cpus),
		"parallelism_limits":       strMap(t.limits),
		"discarded_runs":           t.lost,
		"repeated_identically":     t.repeat,
		"instrumentation":          instr,
		"real_components":          "all packages of the repository outside cmd: the decoder, the exporters, the pools, the bit reader, as in the working tree",
		"simulated_components":     "go statements, channels, sync, sync/atomic, sync.Pool, time, runtime.NumCPU, map iteration order, the source and the destination",
		"tree":                     treeHash,
		"build_seconds":            built.Seconds(),
		"exploration_wall_seconds": explored.Seconds(),
	}
	if len(t.samples) == 0 {
		cov["samples"] = []string{"none"}
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "wall_s": time.Since(start).Seconds(), "violations": viols,
		"assumptions": []string{
			"the instrumenter preserves the meaning of the code apart from scheduling (checked by comparing with the uninstrumented decoder in development)",
			"preemption happens at loop iterations, calls and synchronisation operations, not between any two instructions; C02 does not depend on that",
			"memory is sequentially consistent in the simulation; C02 covers what that hides",
		}}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		broken("%v", err)
	}
}
