package vsched

import (
	"runtime"
	"unsafe"
)

// chanPtr is the identity of a channel whatever direction it is viewed with.
func chanPtr[C any](ch C) any { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func exitNow() int { runtime.Goexit(); return -1 }

// Zero resets a package variable.
func Zero[T any](p *T) { var z T; *p = z }
