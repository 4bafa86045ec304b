package proto

import (
	"sort"
	"time"
)

// Minimise shrinks recorded choices while test accepts them. test is called with
// the record itself first; what it accepted last is the result. It returns the number of attempts.
func Minimise(record map[string][]uint32, limit time.Duration, accept func(map[string][]uint32) bool) int {
	start := time.Now()
	tries := 0
	over := func() bool { return time.Since(start) > limit }
	test := func(rec map[string][]uint32) bool {
		if tries > 0 && over() {
			return false
		}
		tries++
		return accept(rec)
	}
	cur := clone(record)
	if !test(cur) {
		return tries
	}
	for round := 0; round < 3; round++ {
		before := size(cur)
		var names []string
		for n := range cur {
			names = append(names, n)
		}
		sort.Slice(names, func(i, j int) bool { return order(names[i])+names[i] < order(names[j])+names[j] })
		for _, n := range names {
			// drop the stream
			c := clone(cur)
			delete(c, n)
			if test(c) {
				cur = c
				continue
			}
			// shorten it
			for cut := (len(cur[n]) + 1) / 2; cut > 0; cut /= 2 {
				for len(cur[n]) > cut && !over() {
					c := clone(cur)
					c[n] = c[n][:len(c[n])-cut]
					if !test(c) {
						break
					}
					cur = c
				}
			}
			// remove pieces
			for l := len(cur[n]) / 2; l > 0 && !over(); l /= 2 {
				if l > 64 && len(cur[n]) > 4000 {
					continue
				}
				for i := 0; i+l <= len(cur[n]) && !over(); {
					c := clone(cur)
					c[n] = append(append([]uint32(nil), c[n][:i]...), c[n][i+l:]...)
					if test(c) {
						cur = c
					} else {
						i += l
					}
				}
			}
			// simplify values
			for i := 0; i < len(cur[n]) && !over(); i++ {
				for _, v := range []uint32{0, 1, cur[n][i] / 2} {
					if v >= cur[n][i] {
						continue
					}
					c := clone(cur)
					c[n][i] = v
					if test(c) {
						cur = c
						break
					}
				}
			}
		}
		if size(cur) == before || over() {
			break
		}
	}
	return tries
}

// order: faults first, the schedule last.
func order(n string) string {
	for i, s := range []string{"fault", "pool", "rt", "work", "sched"} {
		if s == n {
			return string(rune('0' + i))
		}
	}
	return "9"
}

func clone(m map[string][]uint32) map[string][]uint32 {
	ret := map[string][]uint32{}
	for k, v := range m {
		ret[k] = append([]uint32(nil), v...)
	}
	return ret
}

func size(m map[string][]uint32) int {
	n := 0
	for _, v := range m {
		n += len(v)
		for _, x := range v {
			if x != 0 {
				n++
			}
		}
	}
	return n
}
