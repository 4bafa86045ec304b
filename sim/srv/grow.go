package srv

import (
	"fmt"
	"net/url"
	"runtime"
	"strings"
	"time"

	"verifsim/core"
	"verifsim/model"
	"verifsim/simexec"
	"verifsim/simnet"
	"verifsim/simrt"
	"verifsim/simsync"
)

// heap is the memory in use when nothing but the idle server is left.
func heap() int64 {
	simsync.Purge()
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc)
}

// grow: large requests, no two alike, and the memory that they leave behind.
func grow(c *core.Ctx) {
	w, f := c.W, c.F
	h := newHost(c)
	h.plan.SockBuf = 0
	world := &simexec.World{LookPath: func(string) bool { return true }}
	fail := f.N(4)
	world.Next = func(string, []string) *simexec.Behaviour {
		b := &simexec.Behaviour{ReadLimit: -1, OutputLimit: -1, Name: "healthy", Output: func([]byte) []byte { return []byte("<svg>drawing</svg>") }}
		switch fail {
		case 1:
			b.ExitCode = 1
		case 2:
			b.ReadLimit = 10
		}
		return b
	}
	simexec.SetWorld(world)
	var bases []string
	for n := w.Between(1, 3); n > 0; n-- {
		bases = append(bases, strings.NewReplacer("\x00", "", "\r", "", "\n", "").Replace(model.Text(w, h.tk, 4)))
	}
	kinds := []int{w.N(3)}
	if w.Chance(1, 2) {
		kinds = append(kinds, w.N(3))
	}
	mode := modeNames[w.N(4)]
	stop := []int{goesOn, goesOn, stalls, aborts, halfCloses}[f.N(5)]
	part := 4 // quarters of the request that are sent
	if stop != goesOn {
		part = 2 + f.N(3)
	}
	keep := w.Chance(1, 2)
	c.Shape = fmt.Sprintf("server %v, large requests of kinds %v around %q, %d quarters, %s", h.args, kinds, bases[0], part, stopNames[stop])
	c.S.MaxSteps = 1 << 40
	h.serve(c)
	ready := simrt.Now() + 5*time.Second
	c.S.Run(func() bool { return h.done || simrt.Now() > ready })
	c.S.Join()
	var now []*client
	defer func() { h.end(c, now...) }()
	count := 0
	text := func(size int) string {
		var b strings.Builder
		for b.Len() < size {
			count++
			fmt.Fprintf(&b, "%s第%d号", bases[count%len(bases)], count)
		}
		return b.String()
	}
	last, total, first := int64(0), 0, int64(0)
	for round := 0; round < 300 && !c.Failed(); round++ {
		sent := 0
		for i, k := range kinds {
			cl := &client{name: fmt.Sprintf("client%d.%d", i, round), keep: keep}
			now = append(now, cl)
			times := 1
			if round > 8 && stop == goesOn {
				times = 6
			}
			for n := times; n > 0; n-- {
				r := &request{}
				if n == 1 {
					r.stop = stop
				}
				switch k {
				case 0:
					t := text(1500)
					sent += len(t)
					r.wire = wrap(w, "POST", "/tokenize", body(w, t, mode), -1, n == 1 && !keep)
				case 1:
					t := text(600)
					sent += len(t)
					r.wire = "GET /?" + url.Values{"s": {t}, "r": {mode}, "lattice": {"1"}}.Encode() + " HTTP/1.1\r\nHost: x\r\n\r\n"
				case 2:
					t := text(1200)
					sent += len(t)
					r.wire = "GET /?" + url.Values{"s": {t}, "r": {mode}}.Encode() + " HTTP/1.1\r\nHost: x\r\n\r\n"
				}
				r.pieces = []piece{{data: []byte(r.wire[:len(r.wire)*part/4])}}
				cl.reqs = append(cl.reqs, r)
				if r.stop != goesOn {
					break
				}
			}
		}
		h.launch(c, now)
		if !h.await(c, now) {
			return
		}
		for _, cl := range now {
			if cl.conn != nil {
				cl.conn.Abort()
			}
			*cl = client{}
		}
		now = nil
		until := simrt.Now() + 2*time.Minute
		c.S.Run(func() bool { return h.done || simrt.Now() > until })
		c.S.Join()
		if c.Failed() {
			return
		}
		if h.done {
			c.Fail("server-ended", "the server command returned although nobody told it to: %v", h.err)
			return
		}
		h.held(c, world)
		simnet.Forget()
		c.Work++
		used := heap()
		if round < 4 { // buffers find their size; the same for every process
			last, first = used, used
			if round == 3 {
				c.Mark()
			}
			continue
		}
		// What the simulator records grows in steps, what the server keeps of requests with each of them.
		if used-last < int64(sent/4) {
			return
		}
		last = used
		total += sent
		if round == 12 {
			simrt.Probe("growth.suspected")
		}
	}
	c.Fail("memory", "the memory that the idle server holds grows with every request: %d bytes after %d bytes of sentences whose clients are long gone", last-first, total)
}
