// Package spec is the language in which the driver tells a simulated process
// what to do, and in which the process reports. A World is also the replay
// file of a violation.
package spec

import "JXLMOD/zsim/gen"

// Switch is one scheduling decision that deviates from the default.
type Switch struct {
	P uint64 `json:"p"`
	T int32  `json:"t"`
	K uint8  `json:"k,omitempty"`
}

// Sched fixes everything that is not decided by the code under test.
type Sched struct {
	Policy   string   `json:"policy"`
	Seed     uint64   `json:"seed,omitempty"`
	Mean     int64    `json:"mean,omitempty"`
	SyncP    int      `json:"syncp,omitempty"`
	Depth    int      `json:"depth,omitempty"`
	Span     uint64   `json:"span,omitempty"`
	CPUs     int      `json:"cpus,omitempty"`
	Pool     string   `json:"pool,omitempty"`
	PoolSeed uint64   `json:"poolseed,omitempty"`
	MapSeed  uint64   `json:"mapseed,omitempty"`
	Budget   uint64   `json:"budget,omitempty"`
	PerElem  uint64   `json:"perelem,omitempty"`
	MaxElems int64    `json:"maxelems,omitempty"`
	MaxHeap  uint64   `json:"maxheap,omitempty"`
	Trace    []Switch `json:"trace,omitempty"`
}

// Input is a file as it lies in the simulated storage.
type Input struct {
	Name   string      `json:"name,omitempty"`
	Gen    *gen.Params `json:"gen,omitempty"`
	File   string      `json:"file,omitempty"`
	B64    []byte      `json:"b64,omitempty"`
	Layout *gen.Layout `json:"layout,omitempty"`
	Muts   []gen.Mut   `json:"muts,omitempty"`
	Pad    int         `json:"pad,omitempty"` // zero bytes after the end
}

// Fault is one misbehaviour of a source or destination.
type Fault struct {
	// source: "err" (error instead of data at byte At), "part" (the data up to
	// byte At together with the error), "call" (error at the At-th read),
	// "seek" (error at the At-th seek), "stall" (At-th read takes a minute).
	// destination: "err" (error at byte At, nothing accepted), "part" (data up
	// to byte At accepted, with error), "call" (At-th write fails),
	// "full" (everything from byte At fails).
	Kind   string `json:"kind"`
	At     int64  `json:"at"`
	Sticky bool   `json:"sticky,omitempty"`
}

// IO is how a source delivers its bytes or a destination takes them.
type IO struct {
	Mode    string  `json:"mode,omitempty"` // full, one, small, rand, huge
	Seed    uint64  `json:"seed,omitempty"`
	Zero    int     `json:"zero,omitempty"` // chance of an empty read, of 256
	EOFData bool    `json:"eofdata,omitempty"`
	Lat     int64   `json:"lat,omitempty"` // nanoseconds per call, at most
	NoSeek  bool    `json:"noseek,omitempty"`
	Faults  []Fault `json:"faults,omitempty"`
}

// Act is a step of a bit reader or buffer pool program.
type Act struct {
	K string `json:"k"`
	N int64  `json:"n,omitempty"`
	M int64  `json:"m,omitempty"`
	S int    `json:"s,omitempty"`
}

// Op is one operation of a client.
type Op struct {
	Kind string `json:"kind"`
	In   int    `json:"in,omitempty"`
	Slot int    `json:"slot,omitempty"`
	Max  int    `json:"max,omitempty"`
	Chan int    `json:"chan,omitempty"`
	IO   *IO    `json:"io,omitempty"`
	Acts []Act  `json:"acts,omitempty"`
	// Bits is the data of a bit reader program.
	Bits []byte `json:"bits,omitempty"`
}

// World is one simulated execution.
type World struct {
	Prop    string  `json:"prop"`
	Note    string  `json:"note,omitempty"`
	Sched   Sched   `json:"sched"`
	Race    bool    `json:"race,omitempty"`
	Inputs  []Input `json:"inputs,omitempty"`
	Slots   int     `json:"slots,omitempty"`
	Setup   []Op    `json:"setup,omitempty"`
	Clients [][]Op  `json:"clients,omitempty"`
	Final   []Op    `json:"final,omitempty"`
	KeepLog bool    `json:"keeplog,omitempty"`
}

// OpRes is what an operation did.
type OpRes struct {
	Status string         `json:"status"` // ok, err, panic, neither, both, skip
	Err    string         `json:"err,omitempty"`
	W      int            `json:"w,omitempty"`
	H      int            `json:"h,omitempty"`
	Pix    string         `json:"pix,omitempty"`   // digest of decoded channels
	Bytes  string         `json:"bytes,omitempty"` // digest of exported bytes
	Model  string         `json:"model,omitempty"` // colour model of an image or a description
	N      int64          `json:"n,omitempty"`     // bytes read or written
	Calls  int64          `json:"calls,omitempty"` // reads or writes
	Seeks  int64          `json:"seeks,omitempty"`
	Truth  string         `json:"truth,omitempty"` // "same", or how it differs
	Head   string         `json:"head,omitempty"`  // the same of the header
	Shown  string         `json:"shown,omitempty"` // what is wrong with the colours of an export, or "same"
	Leak   string         `json:"leak,omitempty"`
	Fired  map[string]int `json:"fired,omitempty"`
	Sim    bool           `json:"sim,omitempty"` // the error is the simulated one
	Viol   string         `json:"viol,omitempty"`
	Points uint64         `json:"points,omitempty"`
	Work   int            `json:"work,omitempty"` // most background goroutines at work
	Par    int            `json:"par,omitempty"`
	Grp    int            `json:"grp,omitempty"`
	Stack  string         `json:"stack,omitempty"`
}

// Fatal is how an execution ended early.
type Fatal struct {
	Kind  string `json:"kind"` // panic, deadlock, budget, memory, tasks
	Msg   string `json:"msg"`
	Stack string `json:"stack,omitempty"`
	Op    int    `json:"op"`
}

// Stats are measured by the simulator.
type Stats struct {
	Points    uint64 `json:"points"`
	SimNanos  int64  `json:"simnanos"`
	Switches  uint64 `json:"switches"`
	Preempt   uint64 `json:"preempt"`
	SyncOps   uint64 `json:"syncops"`
	Spawned   int    `json:"spawned"`
	MaxLive   int    `json:"maxlive"`
	MaxWork   int    `json:"maxwork"`
	Hash      string `json:"hash"`
	PoolHit   uint64 `json:"poolhit"`
	PoolMiss  uint64 `json:"poolmiss"`
	PoolDrop  uint64 `json:"pooldrop"`
	Elems     uint64 `json:"elems"`
	MapRanges uint64 `json:"mapranges"`
	LogFull   bool   `json:"logfull,omitempty"`
}

// Result of a world. The operations are those of Setup, the clients in order,
// and Final.
type Result struct {
	Setup   []OpRes   `json:"setup,omitempty"`
	Clients [][]OpRes `json:"clients,omitempty"`
	Final   []OpRes   `json:"final,omitempty"`
	Fatal   *Fatal    `json:"fatal,omitempty"`
	Races   int       `json:"races,omitempty"`
	Stats   Stats     `json:"stats"`
	Log     []Switch  `json:"log,omitempty"`
	Done    bool      `json:"done"`
}
