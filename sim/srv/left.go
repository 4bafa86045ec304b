package srv

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verifsim/core"
	"verifsim/real"
	"verifsim/simexec"
	"verifsim/simnet"
	"verifsim/simrt"
)

func init() { core.Register("C21", c21) }

// again is the same client once more.
func (cl *client) again(name string) *client {
	n := &client{name: name, start: cl.start, pipelined: cl.pipelined, readSize: cl.readSize, readPause: cl.readPause, readLate: cl.readLate, keep: cl.keep}
	for _, r := range cl.reqs {
		n.reqs = append(n.reqs, &request{pieces: r.pieces, stop: r.stop, silent: r.silent, kind: r.kind,
			sentence: r.sentence, mode: r.mode, want: r.want, wire: r.wire})
	}
	return n
}

// held is what the server occupies.
type held struct {
	goroutines, conns, procs int
	by                       map[string]int
}

func (h held) total() int { return h.goroutines + h.conns + h.procs }

func (h held) String() string {
	return fmt.Sprintf("%d goroutines, %d connections, %d processes", h.goroutines, h.conns, h.procs)
}

func (h *host) held(c *core.Ctx, w *simexec.World) held {
	ret := held{conns: simnet.Open(), by: c.S.Goroutines()}
	for _, n := range ret.by {
		ret.goroutines += n
	}
	var live []*simexec.Proc
	for _, p := range w.Procs {
		if !p.Exited || !p.Reaped {
			live = append(live, p)
		}
	}
	w.Procs = live
	ret.procs = len(live)
	return ret
}

// c21: whatever clients do, nothing of it stays behind.
func c21(c *core.Ctx) {
	w, f := c.W, c.F
	if w.Chance(1, 7) {
		grow(c)
		return
	}
	h := newHost(c)
	next, started := 0, 0
	var shows []*show
	missing := f.Chance(1, 12)
	world := &simexec.World{LookPath: func(string) bool { return !missing }}
	world.Next = func(string, []string) *simexec.Behaviour {
		if next == len(shows) {
			shows = append(shows, graphviz(f, len(shows)))
		}
		next++
		started++
		return shows[next-1].b
	}
	simexec.SetWorld(world)
	var clients []*client
	for n := w.Between(1, 3); n > 0; n-- {
		name := fmt.Sprintf("client%d", len(clients))
		var cl *client
		switch w.Pick(3, 4, 4, 1) {
		case 0:
			cl = h.healthy(c, name, 2)
		case 1:
			cl = h.hostile(c, name)
		case 2:
			cl = &client{name: name, keep: w.Chance(1, 2), start: time.Duration(f.N(3000)) * time.Millisecond}
			for m := w.Between(1, 2); m > 0; m-- {
				cl.reqs = append(cl.reqs, h.page(c, 10*len(clients)+m, w.Chance(5, 6), m == 1))
			}
			if r := cl.reqs[len(cl.reqs)-1]; f.Chance(1, 2) {
				r.stop = []int{aborts, hangsUp, stalls, halfCloses}[f.N(4)]
				r.pieces = append(append([]piece{}, r.pieces...), piece{pause: time.Duration(f.N(15000)) * time.Millisecond})
			}
		case 3: // connects, and perhaps begins
			wire := "POST /tokenize HTTP/1.1\r\nHost: x\r\n"
			wire = wire[:f.N(len(wire))]
			cl = &client{name: name, keep: true, reqs: []*request{{wire: wire, pieces: cut(f, wire, false), stop: []int{stalls, hangsUp, aborts}[f.N(3)]}}}
		}
		clients = append(clients, cl)
	}
	if f.Chance(1, 8) {
		h.plan.AcceptTemp = 1 + f.N(2)
	}
	first := clients[0].reqs[len(clients[0].reqs)-1]
	c.Shape = fmt.Sprintf("server %v, %d clients again and again, first %s %s", h.args, len(clients), real.Short(first.wire), stopNames[first.stop])
	c.S.MaxSteps = 600000000
	h.serve(c)
	ready := simrt.Now() + 5*time.Second
	c.S.Run(func() bool { return h.done || simrt.Now() > ready })
	c.S.Join()
	var last []*client
	defer func() { h.end(c, last...) }()
	var seen []held
	seen = append(seen, h.held(c, world))
	for round := 0; round < 40 && !c.Failed(); round++ {
		var now []*client
		for _, cl := range clients {
			now = append(now, cl.again(fmt.Sprintf("%s.%d", cl.name, round)))
		}
		last = now
		next = 0
		h.launch(c, now)
		if !h.await(c, now) {
			return
		}
		for _, cl := range now {
			if cl.conn != nil {
				cl.conn.Abort() // whoever is left goes now
			}
		}
		until := simrt.Now() + 2*time.Minute
		c.S.Run(func() bool { return h.done || simrt.Now() > until })
		c.S.Join()
		if c.Failed() {
			return
		}
		if h.done {
			c.Fail("server-ended", "the server command returned although nobody told it to: %v", h.err)
			return
		}
		seen = append(seen, h.held(c, world))
		c.Work++
		// A pool that fills up is no leak: only what grows every time is.
		if n := len(seen); n > 2 && seen[n-1].total() <= seen[n-2].total() {
			return
		}
		if round == 3 {
			simrt.Probe("growth.suspected")
		}
	}
	if c.Failed() {
		return
	}
	a, b := seen[0], seen[len(seen)-1]
	var grown []string
	for k, n := range b.by {
		if n > a.by[k] {
			grown = append(grown, fmt.Sprintf("%s (%d)", k, n-a.by[k]))
		}
	}
	sort.Strings(grown)
	c.Fail("left-behind", "the same %d clients %d times, each time gone for 2 minutes: at first %v, after that %v, and more each time; goroutines by %s",
		len(clients), len(seen)-1, a, b, strings.Join(grown, ", "))
}
