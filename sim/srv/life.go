package srv

import (
	"fmt"
	"os"
	"syscall"
	"time"

	"verifsim/core"
	"verifsim/real"
	"verifsim/simexec"
	"verifsim/simnet"
	"verifsim/simrt"
	"verifsim/simsignal"
)

func init() { core.Register("C15", c15) }

var signals = []syscall.Signal{syscall.SIGINT, syscall.SIGTERM, syscall.SIGHUP}

// c15: the server runs until it is told to stop, or cannot go on.
func c15(c *core.Ctx) {
	w, f := c.W, c.F
	h := newHost(c)
	simexec.SetWorld(&simexec.World{LookPath: func(string) bool { return true }, Next: func(string, []string) *simexec.Behaviour {
		return &simexec.Behaviour{ReadLimit: -1, OutputLimit: -1, Before: 10 * time.Second, Name: "slow", Output: func([]byte) []byte { return []byte("<svg>drawing</svg>") }}
	}})
	var clients []*client
	for n := w.Between(0, 3); n > 0; n-- {
		cl := h.healthy(c, fmt.Sprintf("client%d", len(clients)), 3)
		for _, r := range cl.reqs {
			r.kind = mustAccept
		}
		if w.Chance(1, 5) {
			cl.reqs = append(cl.reqs, h.page(c, len(clients), true, true))
		}
		clients = append(clients, cl)
	}
	var others []*client // they do not finish what they begin
	for n := w.Pick(2, 1, 1); n > 0; n-- {
		others = append(others, h.hostile(c, fmt.Sprintf("hostile%d", len(others))))
	}
	h.plan.ListenDelay = time.Duration(f.Pick(3, 1)*f.N(2000)) * time.Millisecond
	how := f.Pick(4, 4, 2, 2, 1)
	when := time.Duration(0)
	switch f.Pick(1, 1, 2, 2) {
	case 0: // at once
	case 1:
		when = time.Duration(f.N(50)) * time.Millisecond
	case 2:
		when = time.Duration(f.N(5000)) * time.Millisecond
	case 3:
		when = time.Duration(f.N(120)) * time.Second
	}
	broken := error(nil)
	switch how {
	case 2:
		h.plan.ListenErr = os.NewSyscallError("bind", []error{syscall.EADDRINUSE, syscall.EACCES, syscall.EADDRNOTAVAIL}[f.N(3)])
		broken = h.plan.ListenErr
		clients, others = nil, nil
	case 3:
		h.plan.AcceptErr = []error{syscall.EINVAL, syscall.EBADF, syscall.ENOTSOCK}[f.N(3)]
		h.plan.AcceptAfter = f.N(1 + len(clients) + len(others))
		broken = h.plan.AcceptErr
	}
	if how != 3 && f.Chance(1, 5) {
		h.plan.AcceptTemp = 1 + f.N(3)
	}
	sig := signals[f.N(3)]
	told := []string{"context cancelled", "signal " + sig.String(), "listening fails", "accepting fails", "signals one after the other"}[how]
	c.Shape = fmt.Sprintf("server %v, %d clients, %d others, %s at %v", h.args, len(clients), len(others), told, when)
	early := f.Chance(1, 12) && how == 0
	if early {
		h.cancel()
	}
	h.serve(c)
	all := append(append([]*client{}, clients...), others...)
	h.launch(c, all)
	defer h.end(c, all...)

	if broken != nil {
		h.fails(c, all, broken)
		return
	}
	if early {
		when = 0
	}
	// until then it runs
	settled := time.Duration(0)
	c.S.Run(func() bool { return h.done && !early || simrt.Now() >= when })
	c.S.Join()
	if c.Failed() {
		return
	}
	if h.done && !early {
		c.Fail("server-ended", "the server command returned at %v although nobody told it to: %v", h.at, h.err)
		return
	}
	settled = simrt.Now()
	switch how {
	case 0:
		simrt.Probe("fault.cancelled")
		simrt.Trace("context cancelled")
		h.cancel()
	case 1, 4:
		simrt.Probe("fault.signal")
		simrt.Trace("signal %v", sig)
		got := simsignal.Raise(sig)
		if got == "killed" {
			if settled >= time.Second {
				c.Fail("not-handled", "%v is not handled: it kills the server %v after its start", sig, settled)
			}
			return // too early for anyone to handle it: the process is gone
		}
		if how == 4 {
			for k := f.N(4); k >= 0; k-- {
				simsignal.Raise(signals[f.N(3)])
				if f.Chance(1, 2) {
					h.cancel()
				}
			}
		}
	}
	at := simrt.Now()
	c.S.Run(func() bool { return h.done || simrt.Now() > at+limit })
	c.S.Join()
	if c.Failed() {
		return
	}
	if !h.done {
		c.Fail("does-not-stop", "told to stop (%s) at %v, it still runs after %v: %s", told, at, limit, c.S.Describe())
		return
	}
	if h.err != nil {
		c.Fail("stop-error", "told to stop (%s) at %v, it returned an error: %v", told, at, h.err)
		return
	}
	c.Work++
	h.gone(c, clients, at)
}

// gone checks that nothing is served any more.
func (h *host) gone(c *core.Ctx, clients []*client, told time.Duration) {
	back := simrt.Now()
	c.S.Run(func() bool { return simrt.Now() > back+5*time.Second })
	c.S.Join()
	if c.Failed() {
		return
	}
	for _, l := range simnet.Listeners() {
		if !l.Closed() {
			c.Fail("still-listens", "the server command has returned but still accepts connections")
			return
		}
	}
	// what was answered completely was answered correctly
	for _, cl := range clients {
		for i, r := range cl.reqs {
			if r.resp == nil || r.kind != mustAccept || whole(r.resp) != "" {
				continue
			}
			if r.resp.toClose && cl.closedAt >= told {
				continue // nothing tells a complete reply of this kind from one that was cut off
			}
			if d := accepted(r.resp, r.want); d != "" {
				c.Fail("wrong-answer", "%s, request %d (%s): %s", cl.name, i+1, real.Short(r.sentence), d)
				return
			}
			c.Work++
		}
	}
}

// fails: a server that cannot listen or accept says so.
func (h *host) fails(c *core.Ctx, clients []*client, broken error) {
	c.S.Run(func() bool { return h.done })
	c.S.Join()
	if c.Failed() {
		return
	}
	hit := h.plan.ListenErr != nil
	for _, l := range simnet.Listeners() {
		hit = hit || l.Broke
	}
	if !hit {
		if h.done {
			c.Fail("server-ended", "the server command returned although nothing failed yet: %v", h.err)
		}
		return
	}
	if !h.done {
		c.Fail("useless-server", "the server does not listen any more (%v) but its command goes on: %s", broken, c.S.Describe())
		return
	}
	if h.err == nil {
		c.Fail("failure-hidden", "the server ended because of %v but its command reports no error", broken)
		return
	}
	if h.at > limit+h.plan.ListenDelay {
		late := h.at
		for _, cl := range clients {
			if cl.at > late-limit {
				return
			}
		}
		c.Fail("late", "the server ended only %v after its start", late)
		return
	}
	c.Work++
}
