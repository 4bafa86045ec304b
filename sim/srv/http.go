package srv

import (
	"bytes"
	"compress/gzip"
	"io"
	"strconv"
	"strings"
	"time"

	"verifsim/simnet"
	"verifsim/simrt"
)

// response is a reply as it came over the wire.
type response struct {
	code    int
	ctyp    string
	coding  string
	body    []byte
	bad     string // not a reply that HTTP allows
	cut     bool   // the connection ended before the reply did
	last    bool   // the server announces that it closes the connection
	toClose bool   // its length is not announced: it ends with the connection
}

// parse takes one reply from buf. It returns nil if there is none yet.
func parse(buf []byte, closed bool) (*response, int) {
	end := bytes.Index(buf, []byte("\r\n\r\n"))
	if end < 0 {
		if closed && len(buf) > 0 {
			return &response{cut: true, body: buf}, len(buf)
		}
		return nil, 0
	}
	head := buf[:end]
	pos := end + 4
	r := &response{}
	if len(head) < 12 || string(head[:7]) != "HTTP/1." {
		r.bad = "no status line"
		return r, len(buf)
	}
	r.code, _ = strconv.Atoi(string(head[9:12]))
	if r.code < 100 || r.code > 599 {
		r.bad = "no status code"
		return r, len(buf)
	}
	if r.code < 200 {
		next, n := parse(buf[pos:], closed)
		return next, pos + n
	}
	length, chunked := -1, false
	for _, line := range bytes.Split(head, []byte("\r\n"))[1:] {
		name, value, _ := bytes.Cut(line, []byte(":"))
		value = bytes.TrimSpace(value)
		switch string(bytes.ToLower(name)) {
		case "content-length":
			n, err := strconv.Atoi(string(value))
			if err != nil {
				r.bad = "bad length"
				return r, len(buf)
			}
			length = n
		case "transfer-encoding":
			chunked = true
		case "connection":
			r.last = string(bytes.ToLower(value)) == "close"
		case "content-encoding":
			r.coding = string(bytes.ToLower(value))
		case "content-type":
			r.ctyp = string(value)
		}
	}
	rest := buf[pos:]
	switch {
	case chunked:
		p := 0
		for {
			i := bytes.Index(rest[p:], []byte("\r\n"))
			if i < 0 {
				break
			}
			n, err := strconv.ParseInt(string(rest[p:p+i]), 16, 32)
			if err != nil {
				r.bad = "bad chunk"
				return r, len(buf)
			}
			p += i + 2
			if len(rest) < p+int(n)+2 {
				break
			}
			if n == 0 {
				return r, pos + p + 2
			}
			r.body = append(r.body, rest[p:p+int(n)]...)
			p += int(n) + 2
		}
		r.body = nil
	case length >= 0:
		if len(rest) >= length {
			r.body = append([]byte(nil), rest[:length]...)
			return r, pos + length
		}
	case closed:
		r.toClose = true
		r.body = append([]byte(nil), rest...)
		return r, len(buf)
	}
	if closed {
		r.cut = true
		r.body = append([]byte(nil), rest...)
		return r, len(buf)
	}
	return nil, 0
}

const acceptGzip = "Accept-Encoding: gzip\r\n"

// decode unpacks a body that came compressed.
func (r *response) decode(asked bool) {
	if r.coding == "" || r.coding == "identity" || r.bad != "" || r.cut {
		return
	}
	if r.coding != "gzip" || !asked {
		r.bad = "the client cannot read the coding " + r.coding
		return
	}
	g, err := gzip.NewReader(bytes.NewReader(r.body))
	if err == nil {
		r.body, err = io.ReadAll(g)
	}
	if err != nil {
		r.bad = "broken gzip: " + err.Error()
	}
}

// piece is what the client sends at once, after a pause.
type piece struct {
	data  []byte
	pause time.Duration
}

// How a client's sending ends before it is complete.
const (
	goesOn = iota
	aborts
	hangsUp
	halfCloses
	stalls
)

var stopNames = []string{"goes on", "aborts", "hangs up", "half-closes", "stalls"}

// request is one request of a client and what became of it.
type request struct {
	pieces []piece
	stop   int  // what happens after the pieces
	silent bool // the client does not read the reply

	begun time.Duration // when the first piece was sent
	sent  time.Duration // when the last piece was sent
	done  time.Duration // when the reply was complete
	resp  *response
	void  bool // the server had announced that it would not take it

	// what is expected; used by the scenarios
	kind     int
	sentence string
	mode     int
	want     string
	wire     string
}

// client is a simulated client on one connection.
type client struct {
	name      string
	start     time.Duration
	reqs      []*request
	pipelined bool
	readSize  int
	readPause time.Duration
	readLate  time.Duration // before the first answer
	keep      bool          // leaves the connection open

	conn     *simnet.SimConn
	refused  bool
	at       time.Duration // when it connected
	buf      []byte
	got      int
	closed   bool // the server has closed the connection
	closedAt time.Duration
	ended    bool
	task     *simrt.Task
}

func (cl *client) run() {
	simrt.Sleep(cl.start)
	for i := 0; ; i++ {
		if cl.conn = simnet.Connect(cl.name); cl.conn != nil {
			break
		}
		if i > 100 {
			cl.refused = true
			return
		}
		simrt.Sleep(200 * time.Millisecond)
	}
	cl.at = simrt.Now()
	for i, r := range cl.reqs {
		if cl.closed {
			break
		}
		if !cl.send(r) {
			cl.ended = true
			return
		}
		if cl.pipelined && i+1 < len(cl.reqs) && !r.silent {
			continue
		}
		if r.silent {
			cl.ended = true
			return
		}
		if cl.got == 0 && cl.readLate > 0 {
			simrt.Sleep(cl.readLate)
			cl.readLate = -1
		}
		for cl.got <= i && cl.receive() {
		}
	}
	for !cl.closed && len(cl.reqs) > 0 && cl.reqs[len(cl.reqs)-1].stop == halfCloses && cl.receive() {
	}
	if !cl.keep {
		cl.conn.Hangup()
	}
	cl.ended = true
}

// send sends a request; it returns false if the client does nothing more.
func (cl *client) send(r *request) bool {
	for _, p := range r.pieces {
		if p.pause > 0 {
			simrt.Sleep(p.pause)
		} else {
			simrt.Point("client send")
		}
		if cl.conn.ServerClosed() {
			break
		}
		if r.begun == 0 {
			r.begun = simrt.Now()
		}
		cl.conn.Send(p.data)
	}
	r.sent = simrt.Now()
	switch r.stop {
	case aborts:
		simrt.Probe("fault.client_abort")
		simrt.Trace("%s aborts", cl.name)
		cl.conn.Abort()
		return false
	case hangsUp:
		simrt.Probe("fault.client_hangup")
		simrt.Trace("%s hangs up", cl.name)
		cl.conn.Hangup()
		return false
	case halfCloses:
		simrt.Probe("fault.client_half_close")
		simrt.Trace("%s sends no more", cl.name)
		cl.conn.FinishSending()
	case stalls:
		simrt.Probe("fault.client_stall")
		simrt.Trace("%s stalls", cl.name)
		return false
	}
	return true
}

// receive reads what is there, or waits for it; it returns false at the end.
func (cl *client) receive() bool {
	if cl.readPause > 0 {
		simrt.Sleep(cl.readPause)
	}
	if !simrt.Wait("client read", func() bool { return len(cl.conn.Unread()) > 0 || cl.conn.ServerClosed() }, nil) {
		return false
	}
	b := cl.conn.Unread()
	if cl.readSize > 0 && len(b) > cl.readSize {
		b = b[:cl.readSize]
	}
	if len(b) == 0 {
		cl.closed = true
		cl.closedAt = cl.conn.ClosedAt
	}
	cl.buf = append(cl.buf, b...)
	cl.conn.Take(len(b))
	for cl.got < len(cl.reqs) {
		resp, n := parse(cl.buf, cl.closed)
		if resp == nil {
			break
		}
		r := cl.reqs[cl.got]
		resp.decode(strings.Contains(r.wire, acceptGzip))
		r.resp, r.done = resp, simrt.Now()
		simrt.Trace("%s has reply %d: %d, %d bytes", cl.name, cl.got, resp.code, len(resp.body))
		cl.buf = cl.buf[n:]
		cl.got++
		if resp.bad != "" || resp.cut {
			cl.closed = true
		}
		if resp.last {
			cl.closed = true
			for _, r := range cl.reqs[cl.got:] {
				r.void = true
			}
		}
	}
	return !cl.closed
}
