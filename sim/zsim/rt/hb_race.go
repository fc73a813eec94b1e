//go:build race

package rt

import (
	"runtime"
	"unsafe"
)

// rendezvous orders the current task and the blocked peer it completes, both
// ways, as an unbuffered channel does.
//
//go:norace
func rendezvous(t *Task) {
	runtime.RaceReleaseMerge(unsafe.Pointer(&t.fired))
	runtime.RaceAcquire(unsafe.Pointer(&t.ents))
}

//go:norace
func rendezvousDone(me *Task) { runtime.RaceAcquire(unsafe.Pointer(&me.fired)) }

//go:norace
func HBRelease(p unsafe.Pointer) { runtime.RaceReleaseMerge(p) }

//go:norace
func HBAcquire(p unsafe.Pointer) { runtime.RaceAcquire(p) }

//go:norace
func releaseSelf(me *Task) { runtime.RaceReleaseMerge(unsafe.Pointer(&me.ents)) }
