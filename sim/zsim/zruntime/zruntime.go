// Package runtime is the simulator's stand-in: the number of processors and
// of goroutines is the simulated one.
package runtime

import (
	r "runtime"

	"JXLMOD/zsim/rt"
)

const (
	GOOS     = r.GOOS
	GOARCH   = r.GOARCH
	Compiler = r.Compiler
)

type (
	MemStats = r.MemStats
	Error    = r.Error
	Func     = r.Func
	Frame    = r.Frame
	Frames   = r.Frames
)

func GOMAXPROCS(n int) int {
	o := rt.CPUs()
	rt.SetCPUs(n)
	return o
}
func NumCPU() int                                  { return rt.CPUs() }
func NumGoroutine() int                            { return rt.NumTasks() }
func Gosched()                                     { rt.SyncPoint() }
func GC()                                          { r.GC() }
func Goexit()                                      { r.Goexit() }
func KeepAlive(x any)                              { r.KeepAlive(x) }
func ReadMemStats(m *MemStats)                     { r.ReadMemStats(m) }
func Caller(skip int) (uintptr, string, int, bool) { return r.Caller(skip + 1) }
func Callers(skip int, pc []uintptr) int           { return r.Callers(skip+1, pc) }
func CallersFrames(c []uintptr) *Frames            { return r.CallersFrames(c) }
func FuncForPC(pc uintptr) *Func                   { return r.FuncForPC(pc) }
func Stack(buf []byte, all bool) int               { return r.Stack(buf, all) }
func Version() string                              { return r.Version() }
func LockOSThread()                                {}
func UnlockOSThread()                              {}
func SetFinalizer(obj any, finalizer any)          {}
