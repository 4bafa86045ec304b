package simrt

import (
	"runtime"
	"sync/atomic"
	"unsafe"
)

// seedRuntime fixes what the runtime itself would choose at random: the
// order of map iteration and the choice among ready select cases. It needs the runtime overlay.
func seedRuntime(s uint64) { runtime.SimSeed(s) }

func init() { runtime.SimSem = semaphore }

// semaphore makes a goroutine that has to wait for a lock of the standard
// library wait under the control of the scheduler. It reports whether it has
// taken the semaphore.
func semaphore(addr *uint32) bool {
	s := active
	if s == nil {
		return false
	}
	if a, b := uintptr(unsafe.Pointer(addr)), uintptr(unsafe.Pointer(s)); a >= b && a < b+unsafe.Sizeof(*s) {
		return false // the kernel's own lock
	}
	if goid() == s.root {
		return false
	}
	for {
		if v := atomic.LoadUint32(addr); v > 0 {
			if atomic.CompareAndSwapUint32(addr, v, v-1) {
				return true
			}
			continue
		}
		if s.dying || !Wait("lock of the standard library", func() bool { return atomic.LoadUint32(addr) > 0 }, nil) {
			s.exit()
		}
	}
}
