// Package rt is the simulator's scheduler. Every goroutine of the code under
// test is a task; exactly one task runs at any time, and which one is decided
// here, from a seed, at every synchronisation operation and at seeded places
// between them. One seed is one exactly repeatable execution.
//
// The functions here are not race-instrumented and hand the token over with
// race synchronisation events switched off, so that in a -race build the
// scheduler adds no happens-before edges of its own: the detector sees only
// the ordering that the code under test establishes.
package rt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strconv"
	"unsafe"
)

// Switch is one recorded scheduling decision that deviates from the default
// (carry on with the current task; when it blocks, the oldest runnable one).
type Switch struct {
	Pt   uint64 `json:"p"`
	To   int32  `json:"t"`
	Kind uint8  `json:"k"`
}

// Config describes one execution.
type Config struct {
	Policy   string // seq, rev, rr, random, pct, stall, trace
	Seed     uint64
	Mean     int64  // mean number of points between preemptions
	SyncP    int    // chance of a switch at a synchronisation point, of 256
	Depth    int    // pct: number of priority change points
	Span     uint64 // pct: range of points over which they are placed
	CPUs     int
	PoolMode string // lifo, fifo, random, miss, drop
	PoolSeed uint64
	MapSeed  uint64
	Budget   uint64 // points
	PerElem  uint64 // points granted per allocated element
	MaxElems int64  // elements in one allocation beyond which the run is given up
	MaxHeap  uint64
	Trace    []Switch
}

const (
	stRunnable = iota
	stBlocked
	stSleeping
	stDone
)

const (
	KTick = iota
	KSync
	KBlock
	KSpawn
)

type ent struct {
	ch   unsafe.Pointer
	val  unsafe.Pointer
	send bool
	unb  bool
	ok   bool
}

// Task is one simulated goroutine.
type Task struct {
	id     int32
	gate   chan struct{}
	state  uint8
	bg     bool // started by the code under test
	retry  bool
	goexit bool
	fired  int32 // index of the entry a peer completed, or -1
	op     int32
	key    unsafe.Pointer
	ents   [8]ent
	nents  int
	wake   int64
	prio   int64
	seg    uint64 // points since the last synchronisation
	in     uint64 // point at which it was last switched in
	where  string
}

// Stats is what one execution measured.
type Stats struct {
	Points    uint64
	SimNanos  int64
	Switches  uint64
	Preempt   uint64
	SyncOps   uint64
	Spawned   int
	MaxLive   int
	MaxWork   int
	MaxPar    int // most tasks of the code under test alive and not blocked
	Hash      uint64
	PoolHit   uint64
	PoolMiss  uint64
	PoolDrop  uint64
	Elems     uint64
	MapRanges uint64
	Deadlock  bool
	LogFull   bool
}

// workPoints is how many points since its last synchronisation make a
// goroutine count as working.
const workPoints = 200

const maxOps = 4096

var workNow, workTop [maxOps]int32

const maxTasks = 1 << 15
const maxLog = 1 << 17

var (
	cfg     Config
	active  bool
	cur     *Task
	live    [maxTasks]*Task
	nlive   int
	nextID  int32
	base    uint64 // points before the current grant
	grant   int64
	cd      int64 = 1 << 62
	skew    int64 // simulated nanoseconds skipped by jumping the clock
	limit   uint64
	stat    Stats
	log     [maxLog]Switch
	nlog    int
	ti      int
	rs      rng // scheduling
	rp      rng // pools
	rm      rng // map order
	changes [64]uint64
	nchange int
	victim  int32
	nslp    int
	lowest  int64
	progr   uint64 // bumped whenever a blocked task completes something
	elemAcc int64

	qmode  bool
	qop    int32
	qowner *Task
	qleft  int64
	qtotal int64

	// OnFatal is called when the execution cannot go on. It must not return.
	OnFatal func(kind, msg, stack string)
)

type rng struct{ s uint64 }

//go:norace
func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (r *rng) n(n uint64) uint64 {
	if n == 0 {
		return 0
	}
	return r.next() % n
}

// Start turns the calling goroutine into task 0 and starts the simulation.
//
//go:norace
func Start(c Config) {
	cfg = c
	if cfg.CPUs < 1 {
		cfg.CPUs = 1
	}
	if cfg.Mean < 1 {
		cfg.Mean = 1000
	}
	if cfg.Budget == 0 {
		cfg.Budget = 1 << 40
	}
	stat = Stats{}
	nlive, nextID, base, skew, nlog, ti, nslp, progr = 0, 0, 0, 0, 0, 0, 0, 0
	rs = rng{c.Seed*0x2545F4914F6CDD1D + 1}
	rp = rng{c.PoolSeed*0x9E3779B97F4A7C15 + 2}
	rm = rng{c.MapSeed*0xD1342543DE82EF95 + 3}
	limit = cfg.Budget
	stat.Hash = 1469598103934665603
	nchange = 0
	if cfg.Policy == "pct" {
		for i := 0; i < cfg.Depth && i < len(changes); i++ {
			changes[i] = rs.n(cfg.Span + 1)
			nchange++
		}
		for i := 1; i < nchange; i++ {
			for j := i; j > 0 && changes[j] < changes[j-1]; j-- {
				changes[j], changes[j-1] = changes[j-1], changes[j]
			}
		}
	}
	victim = int32(1 + rs.n(12))
	lowest = 0
	t := newTask(false)
	cur = t
	active = true
	t.in = 0
	grant, cd = 0, 0
	rearm()
}

// Stop ends the simulation; only the calling task may be alive.
//
//go:norace
func Stop() Stats {
	settle()
	active = false
	cd = 1 << 62
	stat.Points = base
	stat.SimNanos = int64(base) + skew
	return stat
}

//go:norace
func Snapshot() Stats {
	s := stat
	if active {
		s.Points = now()
		s.SimNanos = int64(s.Points) + skew
	}
	return s
}

// Log returns the recorded decisions.
//
//go:norace
func Log() []Switch { return log[:nlog] }

func Active() bool { return active }

//go:norace
func newTask(bg bool) *Task {
	t := &Task{id: nextID, gate: make(chan struct{}, 1), bg: bg, fired: -1}
	nextID++
	if nlive >= maxTasks {
		fatal("tasks", "too many goroutines alive", "")
	}
	live[nlive] = t
	nlive++
	if nlive > stat.MaxLive {
		stat.MaxLive = nlive
	}
	stat.Spawned++
	t.prio = int64(rs.next()>>2) + 1
	if cfg.Policy == "stall" && t.id == victim {
		t.prio = -1 << 60
	}
	return t
}

//go:norace
func now() uint64 { return base + uint64(grant-cd) }

// settle folds the consumed part of the grant into base.
//
//go:norace
func settle() {
	base = now()
	grant, cd = 0, 0
}

// rearm decides after how many points slow runs next.
//
//go:norace
func rearm() {
	base = now()
	n := int64(1 << 50)
	if limit > base {
		if d := int64(limit - base); d < n {
			n = d
		}
	} else {
		n = 0
	}
	if nslp > 0 {
		for i := 0; i < nlive; i++ {
			if live[i].state == stSleeping {
				if d := live[i].wake - (int64(base) + skew); d < n {
					n = d
				}
			}
		}
	}
	if qmode {
		if qleft < n {
			n = qleft
		}
	} else {
		switch cfg.Policy {
		case "random", "stall":
			if runnable() > 1 {
				if d := int64(1 + rs.n(uint64(2*cfg.Mean))); d < n {
					n = d
				}
			}
		case "pct":
			for nchange > 0 && changes[0] <= base {
				nchange--
				for i := 0; i < nchange; i++ {
					changes[i] = changes[i+1]
				}
			}
			if nchange > 0 {
				if d := int64(changes[0] - base); d < n {
					n = d
				}
			}
		case "trace":
			for ti < len(cfg.Trace) && cfg.Trace[ti].Pt < base {
				ti++
			}
			if ti < len(cfg.Trace) {
				if d := int64(cfg.Trace[ti].Pt-base) - 1; d < n {
					n = d
				}
			}
		}
	}
	if n < 0 {
		n = 0
	}
	grant, cd = n, n
}

// Tick is a preemption point.
//
//go:norace
func Tick() {
	cd--
	if cd < 0 {
		slow()
	}
}

//go:norace
func slow() {
	if !active {
		cd = 1 << 62
		return
	}
	if now() >= limit {
		fatal("budget", fmt.Sprintf("no end after %d points (%s)", now(), describe()), string(debug.Stack()))
	}
	wakeSleepers()
	if qmode {
		qspend()
	}
	next := choose(KTick)
	if next != cur {
		stat.Preempt++
		switchTo(next)
	}
	rearm()
}

// SyncPoint is called before every synchronisation operation.
//
//go:norace
func SyncPoint() {
	if !active {
		return
	}
	cd--
	stat.SyncOps++
	account()
	cur.seg = 0
	wakeSleepers()
	if qmode {
		qspend()
	}
	next := choose(KSync)
	if next != cur {
		switchTo(next)
	}
	rearm()
}

// account adds the points the current task ran to its segment.
//
//go:norace
func account() {
	p := now()
	cur.seg += p - cur.in
	cur.in = p
}

//go:norace
func runnable() int {
	n := 0
	for i := 0; i < nlive; i++ {
		if live[i].state == stRunnable {
			n++
		}
	}
	return n
}

//go:norace
func wakeSleepers() {
	if nslp == 0 {
		return
	}
	t := int64(now()) + skew
	for i := 0; i < nlive; i++ {
		if live[i].state == stSleeping && live[i].wake <= t {
			live[i].state = stRunnable
			nslp--
		}
	}
}

//go:norace
func oldest() *Task {
	for i := 0; i < nlive; i++ {
		if live[i].state == stRunnable {
			return live[i]
		}
	}
	return nil
}

//go:norace
func nth(k uint64) *Task {
	for i := 0; i < nlive; i++ {
		if live[i].state == stRunnable {
			if k == 0 {
				return live[i]
			}
			k--
		}
	}
	return nil
}

//go:norace
func highest() *Task {
	var b *Task
	for i := 0; i < nlive; i++ {
		if live[i].state == stRunnable && (b == nil || live[i].prio > b.prio) {
			b = live[i]
		}
	}
	return b
}

// after returns the runnable task with the next higher id, wrapping round.
//
//go:norace
func after(id int32) *Task {
	for i := 0; i < nlive; i++ {
		if live[i].state == stRunnable && live[i].id > id {
			return live[i]
		}
	}
	return oldest()
}

// choose picks the next task and records the choice when it is not the
// default one. It returns nil when nothing is runnable.
//
//go:norace
func choose(kind uint8) *Task {
	var def *Task
	if cur.state == stRunnable {
		def = cur
	} else {
		def = oldest()
		if def == nil {
			return nil
		}
	}
	if qmode {
		for i := 0; i < nlive; i++ {
			if live[i].state == stRunnable && live[i].op == qop && live[i] != qowner {
				return live[i]
			}
		}
		if t := after(cur.id); t != nil && t != qowner {
			return t
		}
		for i := 0; i < nlive; i++ {
			if live[i].state == stRunnable && live[i] != qowner {
				return live[i]
			}
		}
		return def
	}
	t := def
	switch cfg.Policy {
	case "seq":
	case "rev":
		if kind == KSpawn || kind == KBlock {
			for i := nlive - 1; i >= 0; i-- {
				if live[i].state == stRunnable {
					t = live[i]
					break
				}
			}
		}
	case "rr":
		if kind != KTick {
			t = after(cur.id)
		}
	case "random":
		n := uint64(runnable())
		if n > 1 {
			switch {
			case kind == KTick || kind == KBlock:
				t = nth(rs.n(n))
			case int(rs.n(256)) < cfg.SyncP:
				t = nth(rs.n(n))
			}
		}
	case "stall":
		// like random, but the victim runs only when nothing else can
		n := uint64(runnable())
		if n > 1 && (kind == KTick || kind == KBlock || int(rs.n(256)) < cfg.SyncP || cur.id == victim) {
			t = nth(rs.n(n))
			if t.id == victim {
				t = after(t.id)
			}
		}
	case "pct":
		if kind == KTick {
			lowest--
			cur.prio = lowest
		}
		t = highest()
	case "trace":
		p := now()
		for ti < len(cfg.Trace) && cfg.Trace[ti].Pt < p {
			ti++
		}
		if ti < len(cfg.Trace) && cfg.Trace[ti].Pt == p {
			for i := 0; i < nlive; i++ {
				if live[i].id == cfg.Trace[ti].To && live[i].state == stRunnable {
					t = live[i]
				}
			}
			ti++
		}
	}
	if t == nil {
		t = def
	}
	if t != def {
		if nlog < maxLog {
			log[nlog] = Switch{now(), t.id, kind}
			nlog++
		} else {
			stat.LogFull = true
		}
	}
	if t != cur {
		mix(now())
		mix(uint64(t.id)<<8 | uint64(kind))
	}
	return t
}

//go:norace
func mix(v uint64) {
	h := stat.Hash
	h ^= v
	h *= 1099511628211
	h ^= h >> 29
	stat.Hash = h
}

// switchTo hands the token to next and returns when the token comes back.
//
//go:norace
func switchTo(next *Task) {
	me := cur
	account()
	measure()
	stat.Switches++
	cur = next
	next.in = now()
	raceOff()
	next.gate <- struct{}{}
	<-me.gate
	raceOn()
}

// measure counts the background tasks that are in the middle of work.
//
//go:norace
func measure() {
	w, par := 0, 0
	for i := 0; i < nlive; i++ {
		t := live[i]
		if t.bg && t.state == stRunnable {
			par++
			if t.seg >= workPoints {
				w++
				if t.op >= 0 && t.op < maxOps {
					workNow[t.op]++
				}
			}
		}
	}
	if w > 0 {
		for i := 0; i < nlive; i++ {
			if o := live[i].op; o >= 0 && o < maxOps {
				if workNow[o] > workTop[o] {
					workTop[o] = workNow[o]
				}
				workNow[o] = 0
			}
		}
	}
	if w > stat.MaxWork {
		stat.MaxWork = w
	}
	if par > stat.MaxPar {
		stat.MaxPar = par
	}
}

// Block parks the current task until a WakeAll on key.
//
//go:norace
func Block(key unsafe.Pointer, where string) {
	cur.key = key
	cur.where = where
	park()
	cur.key = nil
}

//go:norace
func park() {
	me := cur
	me.state = stBlocked
	cd--
	account()
	me.seg = 0
	schedule()
	rearm()
}

// schedule gives the token to some task other than the current one, which is
// not runnable.
//
//go:norace
func schedule() {
	for {
		wakeSleepers()
		if t := choose(KBlock); t != nil {
			if t != cur {
				switchTo(t)
			}
			return
		}
		if nslp > 0 {
			// nothing can run: jump the clock to the next timer
			min := int64(1 << 62)
			for i := 0; i < nlive; i++ {
				if live[i].state == stSleeping && live[i].wake < min {
					min = live[i].wake
				}
			}
			if d := min - (int64(now()) + skew); d > 0 {
				skew += d
			}
			continue
		}
		// Perhaps something outside the simulator (a context, say) closed a
		// channel: let every blocked task look again, once per event.
		again := false
		for i := 0; i < nlive; i++ {
			if live[i].state == stBlocked && !live[i].retry {
				live[i].state = stRunnable
				live[i].retry = true
				again = true
			}
		}
		if again {
			continue
		}
		stat.Deadlock = true
		fatal("deadlock", "all goroutines are blocked: "+describe(), "")
	}
}

//go:norace
func progress() {
	progr++
	for i := 0; i < nlive; i++ {
		live[i].retry = false
	}
}

//go:norace
func describe() string {
	s := ""
	k := 0
	for i := 0; i < nlive; i++ {
		t := live[i]
		st := "runnable"
		switch t.state {
		case stBlocked:
			st = "blocked in " + t.where
		case stSleeping:
			st = "sleeping"
		}
		s += fmt.Sprintf("g%d(op %d) %s; ", t.id, t.op, st)
		if k++; k >= 12 {
			s += "..."
			break
		}
	}
	return s
}

// WakeAll makes every task blocked on key runnable.
//
//go:norace
func WakeAll(key unsafe.Pointer) {
	if !active {
		return
	}
	for i := 0; i < nlive; i++ {
		t := live[i]
		if t.state != stBlocked {
			continue
		}
		hit := t.key == key
		for j := 0; j < t.nents && !hit; j++ {
			hit = t.ents[j].ch == key
		}
		if hit {
			t.state = stRunnable
		}
	}
	progress()
}

// Sleep lets simulated time pass.
//
//go:norace
func Sleep(ns int64) {
	if !active {
		return
	}
	cd--
	if ns <= 0 {
		SyncPoint()
		return
	}
	account()
	cur.seg = 0
	cur.state = stSleeping
	cur.wake = int64(now()) + skew + ns
	nslp++
	schedule()
	rearm()
}

// Now is the simulated time in nanoseconds.
//
//go:norace
func Now() int64 { return int64(now()) + skew }

// Points is the position in the execution.
//
//go:norace
func Points() uint64 {
	if !active {
		return 0
	}
	return now()
}

// Go starts f as a task.
func Go(f func()) { spawn(f, true) }

// GoClient starts f as a task of the harness.
func GoClient(f func()) { spawn(f, false) }

//go:norace
func spawn(f func(), bg bool) {
	if !active {
		go f()
		return
	}
	t := newTask(bg)
	t.op = cur.op
	t.state = stRunnable
	go run(t, f)
	cd--
	account()
	if cfg.Policy == "rev" {
		if n := choose(KSpawn); n != cur {
			switchTo(n)
		}
	} else if n := choose(KSync); n != cur {
		switchTo(n)
	}
	rearm()
}

//go:norace
func run(t *Task, f func()) {
	raceOff()
	<-t.gate
	raceOn()
	rearm()
	done := false
	defer func() {
		if !done {
			if r := recover(); r != nil {
				fatal("panic", fmt.Sprintf("goroutine g%d of op %d: panic: %v", t.id, t.op, r), string(debug.Stack()))
			}
		}
		end(t)
	}()
	f()
	done = true
}

//go:norace
func end(t *Task) {
	cd--
	account()
	t.state = stDone
	for i := 0; i < nlive; i++ {
		if live[i] == t {
			nlive--
			for j := i; j < nlive; j++ {
				live[j] = live[j+1]
			}
			live[nlive] = nil
			break
		}
	}
	WakeAll(unsafe.Pointer(&doneKey))
	for {
		wakeSleepers()
		n := choose(KBlock)
		if n != nil {
			measure()
			stat.Switches++
			cur = n
			n.in = now()
			raceOff()
			n.gate <- struct{}{}
			raceOn()
			return
		}
		if nslp > 0 {
			min := int64(1 << 62)
			for i := 0; i < nlive; i++ {
				if live[i].state == stSleeping && live[i].wake < min {
					min = live[i].wake
				}
			}
			if d := min - (int64(now()) + skew); d > 0 {
				skew += d
			}
			continue
		}
		again := false
		for i := 0; i < nlive; i++ {
			if live[i].state == stBlocked && !live[i].retry {
				live[i].state = stRunnable
				live[i].retry = true
				again = true
			}
		}
		if again {
			continue
		}
		stat.Deadlock = true
		fatal("deadlock", "all goroutines are blocked: "+describe(), "")
	}
}

var doneKey int

// Join blocks task 0 until only n tasks are alive.
//
//go:norace
func Join(n int) {
	for nlive > n {
		Block(unsafe.Pointer(&doneKey), "join")
	}
}

// SetOp tags the current task, and the ones it starts, with an operation.
//
//go:norace
func SetOp(op int32) {
	if active {
		cur.op = op
	}
}

// CurOp is the operation the running task works for.
//
//go:norace
func CurOp() int {
	if cur == nil {
		return 0
	}
	return int(cur.op)
}

// OpWork is the largest number of goroutines of operation op that were in the
// middle of work at the same time.
//
//go:norace
func OpWork(op int32) int {
	if op < 0 || op >= maxOps {
		return 0
	}
	return int(workTop[op])
}

// Quiesce lets the goroutines started by operation op finish what little they
// have left, and reports those that are then still alive.
//
//go:norace
func Quiesce(op int32) string {
	if !active {
		return ""
	}
	if !anyLeft(op) {
		return ""
	}
	qmode, qop, qowner = true, op, cur
	qleft, qtotal = 5000, 400000
	res := ""
	for anyLeft(op) {
		if qleft <= 0 || qtotal <= 0 || !othersRunnable() {
			res = leftovers(op)
			break
		}
		cd--
		account()
		n := choose(KBlock)
		if n == cur || n == nil {
			res = leftovers(op)
			break
		}
		switchTo(n)
		rearm()
	}
	qmode = false
	rearm()
	return res
}

//go:norace
func othersRunnable() bool {
	for i := 0; i < nlive; i++ {
		if live[i] != cur && (live[i].state == stRunnable || live[i].state == stSleeping) {
			return true
		}
	}
	return false
}

// qspend charges the running task while an operation is being wound up and
// goes back to the owner when the allowance is used up.
//
//go:norace
func qspend() {
	p := now()
	d := int64(p - cur.in)
	account()
	if cur.op == qop && cur != qowner {
		qleft -= d
	}
	qtotal -= d
	if (qleft <= 0 || qtotal <= 0) && cur != qowner {
		switchTo(qowner)
	}
}

//go:norace
func anyLeft(op int32) bool {
	for i := 0; i < nlive; i++ {
		if live[i].op == op && live[i] != cur {
			return true
		}
	}
	return false
}

//go:norace
func leftovers(op int32) string {
	s := ""
	k := 0
	for i := 0; i < nlive; i++ {
		t := live[i]
		if t.op != op || t == cur {
			continue
		}
		if t.state == stBlocked {
			s += fmt.Sprintf("g%d blocked in %s; ", t.id, t.where)
		} else {
			s += fmt.Sprintf("g%d still running; ", t.id)
		}
		if k++; k >= 8 {
			break
		}
	}
	return s
}

// CPUs is the number of processors the simulated host has.
//
//go:norace
func CPUs() int {
	if active {
		return cfg.CPUs
	}
	// a package is being initialised
	if n, err := strconv.Atoi(os.Getenv("ZSIM_CPUS")); err == nil && n > 0 {
		return n
	}
	return runtime.GOMAXPROCS(-1)
}

//go:norace
func SetCPUs(n int) {
	if n > 0 {
		cfg.CPUs = n
	}
}

// NumTasks is the number of simulated goroutines.
//
//go:norace
func NumTasks() int {
	if !active {
		return runtime.NumGoroutine()
	}
	return nlive
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// N counts an allocation of n elements.
func N[T integer](n T) T {
	if active {
		grow(int64(n))
	}
	return n
}

//go:norace
func grow(n int64) {
	if n <= 0 {
		return
	}
	if cfg.MaxElems > 0 && n > cfg.MaxElems {
		fatal("memory", fmt.Sprintf("allocation of %d elements", n), "")
	}
	stat.Elems += uint64(n)
	limit += uint64(n) * cfg.PerElem
	elemAcc += n
	if elemAcc > 1<<24 {
		elemAcc = 0
		if cfg.MaxHeap > 0 && heapNow() > cfg.MaxHeap {
			debug.FreeOSMemory()
			if h := heapNow(); h > cfg.MaxHeap {
				fatal("memory", fmt.Sprintf("%d bytes in use", h), "")
			}
		}
	}
}

func heapNow() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

//go:norace
func fatal(kind, msg, stack string) {
	if active {
		stat.Points = now()
		stat.SimNanos = int64(stat.Points) + skew
	}
	active = false
	cd = 1 << 62
	if OnFatal != nil {
		OnFatal(kind, msg, stack)
	}
	fmt.Fprintln(os.Stderr, "zsim fatal:", kind, msg, stack)
	os.Exit(3)
}
