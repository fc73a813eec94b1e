//go:build !race

package rt

import "unsafe"

func rendezvous(t *Task)         {}
func rendezvousDone(me *Task)    {}
func releaseSelf(me *Task)       {}
func HBRelease(p unsafe.Pointer) {}
func HBAcquire(p unsafe.Pointer) {}
