package simrt

import "sort"

// rng is splitmix64: small, seedable, identical everywhere.
type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Mix derives a seed from a seed and a label.
func Mix(seed uint64, label string) uint64 {
	h := seed ^ 0xcbf29ce484222325
	for i := 0; i < len(label); i++ {
		h = (h ^ uint64(label[i])) * 0x100000001b3
	}
	r := rng{h}
	return r.next()
}

// Stream is one named sequence of choices. In search mode every choice comes
// from the stream's own generator and is recorded; in replay mode the recorded
// choices are returned and, once they are used up, 0 (always the simplest
// alternative).
type Stream struct {
	name   string
	gen    rng
	replay bool
	in     []uint32
	pos    int
	Rec    []uint32
}

// N returns a choice in [0,n). Choices are recorded as they are used.
func (st *Stream) N(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if st.replay {
		if st.pos < len(st.in) {
			v = st.in[st.pos] % uint32(n)
		}
		st.pos++
	} else {
		v = uint32(st.gen.next() % uint64(n))
	}
	st.Rec = append(st.Rec, v)
	return int(v)
}

// Raw records a value that was drawn by draw in search mode; replayed verbatim
// (0 after the end of the record).
func (st *Stream) Raw(draw func(next func() uint64) uint32) uint32 {
	var v uint32
	if st.replay {
		if st.pos < len(st.in) {
			v = st.in[st.pos]
		}
		st.pos++
	} else {
		v = draw(st.gen.next)
	}
	st.Rec = append(st.Rec, v)
	return v
}

// Chance is true with probability num/den; false is the simple alternative.
func (st *Stream) Chance(num, den int) bool {
	return st.Raw(func(next func() uint64) uint32 {
		if int(next()%uint64(den)) < num {
			return 1
		}
		return 0
	}) != 0
}

// Pick chooses an index with the given weights. Index 0 is the simple alternative.
func (st *Stream) Pick(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	v := int(st.Raw(func(next func() uint64) uint32 {
		k := int(next() % uint64(total))
		for i, w := range weights {
			if k < w {
				return uint32(i)
			}
			k -= w
		}
		return 0
	}))
	if v >= len(weights) {
		return 0
	}
	return v
}

// Between returns a value in [lo,hi]; lo is the simple alternative.
func (st *Stream) Between(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return lo + st.N(hi-lo+1)
}

// Choices holds all streams of one run.
type Choices struct {
	Seed    uint64
	replay  bool
	in      map[string][]uint32
	streams []*Stream
}

// NewChoices returns choices drawn from a seed.
func NewChoices(seed uint64) *Choices { return &Choices{Seed: seed} }

// ReplayChoices returns recorded choices.
func ReplayChoices(rec map[string][]uint32) *Choices {
	return &Choices{replay: true, in: rec}
}

// Replaying tells whether the choices are recorded ones.
func (c *Choices) Replaying() bool { return c.replay }

// Stream returns the stream with that name.
func (c *Choices) Stream(name string) *Stream {
	for _, s := range c.streams {
		if s.name == name {
			return s
		}
	}
	s := &Stream{name: name, replay: c.replay, gen: rng{Mix(c.Seed, name)}}
	if c.replay {
		s.in = c.in[name]
	}
	c.streams = append(c.streams, s)
	return s
}

// Record returns what was chosen, per stream.
func (c *Choices) Record() map[string][]uint32 {
	ret := map[string][]uint32{}
	for _, s := range c.streams {
		r := s.Rec
		for len(r) > 0 && r[len(r)-1] == 0 {
			r = r[:len(r)-1]
		}
		if len(r) > 0 {
			ret[s.name] = append([]uint32(nil), r...)
		}
	}
	return ret
}

// Hash is a digest of everything chosen.
func (c *Choices) Hash() uint64 {
	names := make([]string, 0, len(c.streams))
	for _, s := range c.streams {
		names = append(names, s.name)
	}
	sort.Strings(names)
	h := uint64(14695981039346656037)
	for _, n := range names {
		h = Mix(h, n)
		for _, v := range c.Stream(n).Rec {
			h = (h ^ uint64(v)) * 0x100000001b3
		}
	}
	return h
}
