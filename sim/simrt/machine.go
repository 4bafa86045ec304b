package simrt

import "runtime"

// NumGoroutine counts the goroutines of the run as its code would count them.
func NumGoroutine() int {
	if s := active; s != nil {
		return runtime.NumGoroutine() - s.others + 2
	}
	return runtime.NumGoroutine()
}

// CPUs is the size of the simulated machine.
func CPUs() int {
	s := active
	if s == nil {
		return 8
	}
	if s.cpus == 0 {
		s.cpus = []int{4, 1, 2, 3, 8, 16, 64}[s.C.Stream("machine").Pick(3, 1, 2, 1, 2, 1, 1)]
	}
	return s.cpus
}

// Rand fills b with what is random in this run.
func Rand(b []byte) {
	s := active
	if s == nil {
		return
	}
	st := s.C.Stream("random")
	for i := range b {
		b[i] = byte(st.N(256))
	}
}
