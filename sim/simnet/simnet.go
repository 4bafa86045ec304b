// Package simnet mirrors package net: listeners and connections of the code
// under test are in-memory objects driven by the simulator.
package simnet

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"syscall"
	"time"
	"unsafe"

	"verifsim/simrt"
)

// Plan decides how the network behaves in a run.
type Plan struct {
	ListenErr   error         // listening fails
	ListenDelay time.Duration // listening takes time
	AcceptErr   error         // the listener breaks ...
	AcceptAfter int           // ... after this many accepted connections (if AcceptErr is set)
	AcceptTemp  int           // temporary accept errors delivered before the first connection
	SockBuf     int           // bytes the server can write before the client reads
}

var (
	epoch     int
	plan      *Plan
	listeners []*SimListener
	conns     []*SimConn
)

// SetPlan installs the plan of a run.
func SetPlan(p *Plan) { fresh(); plan = p }

func fresh() {
	if epoch != simrt.Epoch() {
		epoch, plan, listeners, conns = simrt.Epoch(), nil, nil, nil
	}
}

// Listeners returns the listeners opened in this run.
func Listeners() []*SimListener { fresh(); return listeners }

// Open counts the connections that the server has not closed.
func Open() int {
	fresh()
	n := 0
	for _, c := range conns {
		if !c.closed {
			n++
		}
	}
	return n
}

// Forget drops what is known of the connections that the server has closed.
func Forget() {
	fresh()
	var rest []*SimConn
	for _, c := range conns {
		if !c.closed {
			rest = append(rest, c)
		}
	}
	conns = rest
	for _, l := range listeners {
		l.backlog = append([]*SimConn(nil), l.backlog...)
	}
}

// Listen mirrors net.Listen.
func Listen(network, address string) (net.Listener, error) {
	simrt.Point("listen")
	fresh()
	if simrt.Active() == nil {
		return nil, errors.New("simnet: no simulation")
	}
	if plan == nil {
		plan = &Plan{}
	}
	if plan.ListenDelay > 0 {
		simrt.Sleep(plan.ListenDelay)
	}
	if _, _, err := net.SplitHostPort(address); err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	if plan.ListenErr != nil {
		simrt.Probe("fault.listen_error")
		simrt.Trace("listen %s: %v", address, plan.ListenErr)
		return nil, &net.OpError{Op: "listen", Net: network, Err: plan.ListenErr}
	}
	for _, l := range listeners {
		if l.addr == address && !l.closed {
			return nil, &net.OpError{Op: "listen", Net: network, Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}
		}
	}
	l := &SimListener{addr: address, plan: plan, temp: plan.AcceptTemp}
	listeners = append(listeners, l)
	simrt.Trace("listening on %s", address)
	return l, nil
}

// ListenConfig mirrors net.ListenConfig.
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

// Listen mirrors (*net.ListenConfig).Listen.
func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// SimListener is a simulated TCP listener.
type SimListener struct {
	addr     string
	plan     *Plan
	backlog  []*SimConn
	closed   bool
	temp     int
	Accepted int
	broken   bool
	Broke    bool // the accept failure was delivered
}

type tempErr struct{}

func (tempErr) Error() string   { return "accept: too many open files" }
func (tempErr) Timeout() bool   { return false }
func (tempErr) Temporary() bool { return true }

// Accept implements net.Listener.
func (l *SimListener) Accept() (net.Conn, error) {
	simrt.Register("accept " + l.addr)
	simrt.Point("accept")
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: addr(l.addr), Err: net.ErrClosed}
		}
		if l.temp > 0 {
			l.temp--
			simrt.Probe("fault.accept_temporary")
			simrt.Trace("accept: temporary error")
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: addr(l.addr), Err: tempErr{}}
		}
		if l.broken || l.plan.AcceptErr != nil && l.Accepted >= l.plan.AcceptAfter {
			l.Broke = true
			simrt.Probe("fault.accept_error")
			simrt.Trace("accept: %v", l.plan.AcceptErr)
			err := l.plan.AcceptErr
			if err == nil {
				err = syscall.EINVAL
			}
			return nil, &net.OpError{Op: "accept", Net: "tcp", Addr: addr(l.addr), Err: err}
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			l.Accepted++
			simrt.Trace("accepted %s", c.Name)
			return c, nil
		}
		if !simrt.Wait("accept", func() bool { return l.closed || l.broken || len(l.backlog) > 0 }, nil) {
			return nil, net.ErrClosed
		}
	}
}

// Close implements net.Listener.
func (l *SimListener) Close() error {
	if l.closed {
		return &net.OpError{Op: "close", Net: "tcp", Err: net.ErrClosed}
	}
	l.closed = true
	for _, c := range l.backlog {
		c.clientReset()
	}
	l.backlog = nil
	simrt.Trace("listener closed")
	return nil
}

// Break makes the listener fail from now on.
func (l *SimListener) Break() { l.broken = true }

// Closed tells whether the listener was closed.
func (l *SimListener) Closed() bool { return l.closed }

// Addr implements net.Listener.
func (l *SimListener) Addr() net.Addr { return addr(l.addr) }

// SimConn is the server's end of a simulated connection. The client's end is
// operated with the Client methods, which never block.
type SimConn struct {
	Name string

	in       []byte // client -> server, arrived and unread
	inEOF    bool
	inErr    error
	out      []byte // server -> client, everything written
	taken    int    // how much of out the client has read
	sockbuf  int
	closed   bool // closed by the server
	gone     bool // client has closed or reset completely
	rdl, wdl time.Time
	reader   string
	ClosedAt time.Duration
	inSync   byte // orders the server after the client ...
	outSync  byte // ... and the client after the server
}

// Connect is called by a simulated client. It returns nil if nothing listens.
func Connect(name string) *SimConn {
	fresh()
	for _, l := range listeners {
		if l.closed {
			continue
		}
		c := &SimConn{Name: name, sockbuf: l.plan.SockBuf}
		if c.sockbuf <= 0 {
			c.sockbuf = 1 << 16
		}
		l.backlog = append(l.backlog, c)
		conns = append(conns, c)
		simrt.Trace("%s connects", name)
		return c
	}
	return nil
}

func (c *SimConn) op(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Addr: addr("server"), Source: addr(c.Name), Err: err}
}

// Read implements net.Conn for the server.
func (c *SimConn) Read(b []byte) (int, error) {
	if c.reader == "" {
		c.reader = c.Name
		simrt.Register("serve " + c.Name)
	} else {
		simrt.Register("serve " + c.Name + " (background)")
	}
	simrt.Point("conn read")
	for {
		switch {
		case c.closed:
			return 0, c.op("read", net.ErrClosed)
		case !c.rdl.IsZero() && !time.Now().Before(c.rdl):
			return 0, c.op("read", os.ErrDeadlineExceeded)
		case len(c.in) > 0:
			if len(b) == 0 {
				return 0, nil
			}
			simrt.RaceAcquire(unsafe.Pointer(&c.inSync))
			n := copy(b, c.in)
			c.in = c.in[n:]
			return n, nil
		case c.inErr != nil:
			return 0, c.op("read", c.inErr)
		case c.inEOF:
			return 0, io.EOF
		}
		ok := simrt.Wait("conn read", func() bool {
			return c.closed || len(c.in) > 0 || c.inErr != nil || c.inEOF ||
				!c.rdl.IsZero() && !time.Now().Before(c.rdl)
		}, func() (time.Time, bool) { return c.rdl, !c.rdl.IsZero() })
		if !ok {
			return 0, c.op("read", net.ErrClosed)
		}
	}
}

// Write implements net.Conn for the server.
func (c *SimConn) Write(b []byte) (int, error) {
	simrt.Register("serve " + c.Name)
	simrt.Point("conn write")
	done := 0
	for {
		switch {
		case c.closed:
			return done, c.op("write", net.ErrClosed)
		case !c.wdl.IsZero() && !time.Now().Before(c.wdl):
			return done, c.op("write", os.ErrDeadlineExceeded)
		case c.gone:
			return done, c.op("write", syscall.EPIPE)
		}
		n := c.sockbuf - (len(c.out) - c.taken)
		if n > len(b)-done {
			n = len(b) - done
		}
		if n > 0 {
			c.out = append(c.out, b[done:done+n]...)
			simrt.RaceRelease(unsafe.Pointer(&c.outSync))
			done += n
		}
		if done == len(b) {
			simrt.Trace("%s: server wrote %d bytes", c.Name, len(b))
			return done, nil
		}
		simrt.Probe("fault.slow_client")
		ok := simrt.Wait("conn write", func() bool {
			return c.closed || c.gone || len(c.out)-c.taken < c.sockbuf ||
				!c.wdl.IsZero() && !time.Now().Before(c.wdl)
		}, func() (time.Time, bool) { return c.wdl, !c.wdl.IsZero() })
		if !ok {
			return done, c.op("write", net.ErrClosed)
		}
	}
}

// Close implements net.Conn for the server.
func (c *SimConn) Close() error {
	if c.closed {
		return c.op("close", net.ErrClosed)
	}
	c.closed = true
	c.ClosedAt = simrt.Now()
	simrt.TraceUnordered("%s: closed by server", c.Name)
	return nil
}

// CloseWrite mirrors (*net.TCPConn).CloseWrite.
func (c *SimConn) CloseWrite() error { return nil }

// LocalAddr implements net.Conn.
func (c *SimConn) LocalAddr() net.Addr { return addr("server:80") }

// RemoteAddr implements net.Conn.
func (c *SimConn) RemoteAddr() net.Addr { return addr(c.Name + ":1") }

// SetDeadline implements net.Conn.
func (c *SimConn) SetDeadline(t time.Time) error { c.rdl, c.wdl = t, t; return nil }

// SetReadDeadline implements net.Conn.
func (c *SimConn) SetReadDeadline(t time.Time) error { c.rdl = t; return nil }

// SetWriteDeadline implements net.Conn.
func (c *SimConn) SetWriteDeadline(t time.Time) error { c.wdl = t; return nil }

// Client side -------------------------------------------------------------

// Send makes bytes arrive at the server.
func (c *SimConn) Send(b []byte) {
	if c.closed || c.gone {
		return
	}
	c.in = append(c.in, b...)
	simrt.RaceRelease(unsafe.Pointer(&c.inSync))
}

// FinishSending ends the client's side of the stream (half close).
func (c *SimConn) FinishSending() { c.inEOF = true }

func (c *SimConn) clientReset() {
	c.gone = true
	c.inErr = syscall.ECONNRESET
	c.in = nil
}

// Abort resets the connection.
func (c *SimConn) Abort() { c.clientReset() }

// Hangup closes the client's end: what was sent stays readable, then EOF.
func (c *SimConn) Hangup() { c.gone = true; c.inEOF = true }

// Unread is what the server wrote and the client has not read yet.
func (c *SimConn) Unread() []byte {
	simrt.RaceAcquire(unsafe.Pointer(&c.outSync))
	return c.out[c.taken:]
}

// Take reads n bytes on the client's side.
func (c *SimConn) Take(n int) { c.taken += n }

// ServerClosed tells whether the server has closed the connection.
func (c *SimConn) ServerClosed() bool { return c.closed }

// Pending is how many bytes the server has not read yet.
func (c *SimConn) Pending() int { return len(c.in) }
