package simrt

import (
	"runtime"
	"strconv"
	"strings"
)

// Goroutines lists the goroutines of the run, but for the root, by where they
// were created, and forgets tasks that have ended. The caller is the root,
// and everything else waits.
func (s *Sim) Goroutines() map[string]int {
	buf := make([]byte, 1<<18)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	ret := map[string]int{}
	alive := map[uint64]bool{}
	for _, g := range strings.Split(string(buf), "\n\n") {
		head, _, _ := strings.Cut(g, "\n")
		if !strings.HasPrefix(head, "goroutine ") {
			continue
		}
		id, _ := strconv.ParseUint(strings.Fields(head)[1], 10, 64)
		alive[id] = true
		if !strings.Contains(head, "synctest bubble") || id == s.root {
			continue
		}
		by := "?"
		if i := strings.LastIndex(g, "\ncreated by "); i >= 0 {
			by, _, _ = strings.Cut(g[i+12:], " in goroutine")
			by, _, _ = strings.Cut(by, "\n")
		}
		ret[by]++
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, t := range s.tasks {
		if t.state == stDone || t.state == stRunning && !alive[t.goid] {
			if t == s.last {
				s.last = nil
			}
			continue
		}
		s.tasks[n] = t
		n++
	}
	s.tasks = s.tasks[:n]
	return ret
}
