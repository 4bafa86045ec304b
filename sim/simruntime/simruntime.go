// Package simruntime mirrors what package runtime offers to be told about the
// garbage collector, and the machine. When the collector runs is not the simulator's choice, and the
// goroutines it calls from are not the run's, so in a run it never does:
// finalizers and cleanups are not guaranteed to run at all.
package simruntime

import (
	"runtime"

	"verifsim/simrt"
)

// SetFinalizer mirrors runtime.SetFinalizer.
func SetFinalizer(obj, finalizer any) {}

// AddCleanup mirrors runtime.AddCleanup.
func AddCleanup[T, S any](ptr *T, cleanup func(S), arg S) runtime.Cleanup {
	return runtime.Cleanup{}
}

// NumCPU mirrors runtime.NumCPU.
func NumCPU() int { return simrt.CPUs() }

// GOMAXPROCS mirrors runtime.GOMAXPROCS, without setting anything.
func GOMAXPROCS(n int) int { return simrt.CPUs() }

// NumGoroutine mirrors runtime.NumGoroutine.
func NumGoroutine() int { return simrt.NumGoroutine() }
