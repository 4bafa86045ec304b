// Package srv holds the scenarios for the server command: the real command with
// the real HTTP server runs on a simulated network.
package srv

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math"
	"net/http"
	"reflect"
	"strings"
	"syscall"
	"time"
	"unicode/utf16"
	"unicode/utf8"

	"verifsim/core"
	"verifsim/model"
	"verifsim/real"
	"verifsim/simdict"
	"verifsim/simnet"
	"verifsim/simos"
	"verifsim/simrt"
	"verifsim/simsignal"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/cmd/server"
)

func init() {
	http.SimListen = simnet.Listen
	log.SetOutput(io.Discard)
	core.Register("C12", c12)
	core.Register("C13", c13)
	core.Register("C18", c18)
}

// limit is how long, on the simulated clock, anything the server owes may take.
const limit = time.Minute

// host is the server command under test.
type host struct {
	tk     model.Tk
	args   []string
	plan   *simnet.Plan
	cancel context.CancelFunc
	ctx    context.Context
	task   *simrt.Task
	err    error
	done   bool
	at     time.Duration
	known  map[string]string
	asked  []string        // sentences of earlier requests to the endpoint
	shown  []string        // sentences of earlier pages
	again  map[string]bool // those of several pages
}

func newHost(c *core.Ctx) *host {
	w := c.W
	h := &host{plan: &simnet.Plan{}, known: map[string]string{}, again: map[string]bool{}}
	h.tk.D = model.Get(w.N(model.Variants), 0)
	other := model.Get(w.N(model.Variants), 1)
	if w.Chance(1, 4) {
		h.tk.D, other = other, h.tk.D
		h.args = append(h.args, "-dict", "uni")
		simdict.Source = func(name string) *dict.Dict {
			if strings.HasPrefix(name, "uni") {
				return h.tk.D.D
			}
			return other.D
		}
	} else {
		simdict.Source = func(name string) *dict.Dict {
			if strings.HasPrefix(name, "ipa") {
				return h.tk.D.D
			}
			return other.D
		}
	}
	if w.Chance(1, 3) {
		h.tk.U = model.GetUser(w.N(4))
		u := h.tk.U
		h.args = append(h.args, "-userdict", core.File(u.Name+".txt", func() []byte { return []byte(u.Source) }))
	}
	h.args = append(h.args, []string{"-http=:6060", "-http=localhost:8080", "-http=127.0.0.1:0"}[w.N(3)])
	if c.F.Chance(1, 2) {
		h.plan.SockBuf = 40 + c.F.N(1<<(4+c.F.N(10)))
	}
	h.ctx, h.cancel = context.WithCancel(context.Background())
	return h
}

func (h *host) serve(c *core.Ctx) {
	simos.SetProc(&simos.Proc{Stdin: &simos.Source{Name: "stdin"}, Stdout: simos.NewSink("stdout"), Stderr: simos.NewSink("stderr")})
	simnet.SetPlan(h.plan)
	h.task = c.S.Go("server", func() {
		h.err = server.Run(h.ctx, h.args)
		h.done = true
		h.at = simrt.Now()
		simrt.Trace("server command returns: %v", h.err != nil)
	})
}

// end lets the server go, so that nothing of this run remains.
func (h *host) end(c *core.Ctx, clients ...*client) {
	for _, cl := range clients {
		if cl.conn != nil {
			cl.conn.Abort()
		}
	}
	h.cancel()
	simsignal.Raise(syscall.SIGTERM)
	until := simrt.Now() + 3*time.Second
	c.S.Horizon = 5 * time.Second
	if !c.Failed() {
		c.S.Run(func() bool { return simrt.Now() > until })
	}
	simos.SetProc(nil)
}

// answer is what the tokenize endpoint has to answer.
func (h *host) answer(sentence string, mode int) string {
	key := fmt.Sprint(mode, sentence)
	if a, ok := h.known[key]; ok {
		return a
	}
	list := []model.TokenData{}
	if sentence != "" {
		for _, t := range h.tk.Analyze(sentence, mode) {
			if t.ID == -1 {
				continue
			}
			list = append(list, h.tk.Data(t))
		}
	}
	h.known[key] = model.JSON(list)
	return h.known[key]
}

type reply struct {
	Status *bool             `json:"status"`
	Tokens []model.TokenData `json:"tokens"`
	Error  *string           `json:"error"`
}

// accepted tells what is wrong with a reply that has to be a success.
func accepted(r *response, want string) string {
	if d := whole(r); d != "" {
		return d
	}
	if r.code != 200 {
		return fmt.Sprintf("status %d, body %s", r.code, real.Short(string(r.body)))
	}
	var got reply
	if err := json.Unmarshal(r.body, &got); err != nil {
		return fmt.Sprintf("body is not JSON: %v: %s", err, real.Short(string(r.body)))
	}
	if got.Status == nil || !*got.Status {
		return fmt.Sprintf("body without status true: %s", real.Short(string(r.body)))
	}
	if got.Tokens == nil {
		return fmt.Sprintf("body without a list of tokens: %s", real.Short(string(r.body)))
	}
	for i := range got.Tokens {
		if got.Tokens[i].POS == nil {
			got.Tokens[i].POS = []string{}
		}
		if got.Tokens[i].Features == nil {
			got.Tokens[i].Features = []string{}
		}
	}
	var exp []model.TokenData
	if err := json.Unmarshal([]byte(want), &exp); err != nil {
		panic(err)
	}
	if !reflect.DeepEqual(got.Tokens, exp) {
		return fmt.Sprintf("tokens %s, expected %s", model.JSON(got.Tokens), want)
	}
	return ""
}

func whole(r *response) string {
	switch {
	case r == nil:
		return "no reply"
	case r.bad != "":
		return "not an HTTP reply: " + r.bad
	case r.cut:
		return fmt.Sprintf("reply breaks off: %s", real.Short(string(r.body)))
	}
	return ""
}

// rejected tells what is wrong with a reply that has to be a rejection.
func rejected(r *response) string {
	if d := whole(r); d != "" {
		return d
	}
	if r.code < 400 || r.code > 499 {
		return fmt.Sprintf("status %d, body %s", r.code, real.Short(string(r.body)))
	}
	var got reply
	if err := json.Unmarshal(r.body, &got); err != nil {
		return fmt.Sprintf("status %d with a body that is not JSON: %v: %s", r.code, err, real.Short(string(r.body)))
	}
	if got.Status == nil || *got.Status || got.Error == nil || *got.Error == "" {
		return fmt.Sprintf("body without status false and an error message: %s", real.Short(string(r.body)))
	}
	return ""
}

var modeNames = []string{"", "Normal", "Search", "Extended"}

// quote writes a JSON string in one of its many forms.
func quote(w *simrt.Stream, s string) string {
	style := w.Pick(3, 2, 1)
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		switch {
		case r == '"' || r == '\\':
			b.WriteByte('\\')
			b.WriteRune(r)
		case r == '\n':
			b.WriteString(`\n`)
		case r == '\t':
			b.WriteString(`\t`)
		case r < 0x20 || style == 1 && r >= 0x80 || style == 2 && w.Chance(1, 3):
			if r >= 0x10000 {
				hi, lo := utf16.EncodeRune(r)
				fmt.Fprintf(&b, `\u%04x\u%04X`, hi, lo)
			} else {
				fmt.Fprintf(&b, `\u%04x`, r)
			}
		default:
			b.WriteRune(r)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func space(w *simrt.Stream) string {
	return []string{"", " ", "\n", "\t \r\n"}[w.Pick(6, 2, 1, 1)]
}

// sentence makes a sentence that survives JSON.
func (h *host) sentence(c *core.Ctx) string {
	w := c.W
	if w.Chance(1, 40) {
		c.S.MaxSteps = 200000000
		t := model.Text(w, h.tk, 6) + "あ"
		size := 1500
		if w.Chance(1, 15) {
			t += "a"
			size = w.Between(3000, 15000)
			simrt.Probe("work.long_sentence")
		}
		return strings.ToValidUTF8(strings.Repeat(t, 1+size/len(t)), "?")
	}
	if len(h.asked) > 0 && w.Chance(1, 4) { // one that was seen before, often in another mode
		simrt.Probe("work.repeated_sentence")
		return h.asked[w.N(len(h.asked))]
	}
	t := strings.ToValidUTF8(model.Text(w, h.tk, 6), "?")
	h.asked = append(h.asked, t)
	return t
}

// body makes a request body.
func body(w *simrt.Stream, sentence, mode string) string {
	s := quote(w, "sentence") + space(w) + ":" + space(w) + quote(w, sentence)
	m := ""
	if mode != "" || w.Chance(1, 4) {
		m = quote(w, "mode") + space(w) + ":" + space(w) + quote(w, mode)
	}
	switch {
	case m == "":
	case w.Chance(1, 3):
		s = m + space(w) + "," + space(w) + s
	default:
		s = s + space(w) + "," + space(w) + m
	}
	pad := ""
	if w.Chance(1, 250) { // more than small buffers and limits take
		pad = strings.Repeat(" ", []int{5000, 40000, 70000, 140000, 1100000}[w.Pick(4, 4, 4, 4, 1)])
		simrt.Probe("work.large_body")
	}
	return space(w) + "{" + space(w) + pad + s + space(w) + "}" + space(w)
}

// extras are header lines that change nothing.
func extras(w *simrt.Stream) string {
	s := ""
	if w.Chance(1, 6) {
		s += acceptGzip
	}
	if w.Chance(1, 40) {
		s += "Cookie: session=" + strings.Repeat("0123456789abcdef", w.Between(1, 2000)) + "\r\n"
	}
	if w.Chance(1, 40) {
		for n := w.Between(1, 90); n > 0; n-- {
			s += fmt.Sprintf("X-Forwarded-%d: 10.0.0.%d\r\n", n, w.N(256))
		}
	}
	return s
}

// wrap makes an HTTP request of a body. declared is the length that is announced, or -1.
func wrap(w *simrt.Stream, method, path, body string, declared int, last bool) string {
	proto := "HTTP/1.1"
	if last && declared < 0 && w.Chance(1, 12) {
		proto = "HTTP/1.0"
	}
	var b strings.Builder
	b.WriteString(method + " " + path + " " + proto + "\r\nHost: x\r\n")
	if w.Chance(1, 4) {
		b.WriteString("User-Agent: sim\r\nAccept: */*\r\n")
	}
	b.WriteString(extras(w))
	switch w.Pick(6, 2, 4, 1) {
	case 3:
		b.WriteString("content-type: application/json; charset=utf-8\r\n")
	case 0:
		b.WriteString("Content-Type: application/json\r\n")
	case 1:
		b.WriteString("Content-Type: application/x-www-form-urlencoded\r\n") // what curl sends
	}
	if last && w.Chance(1, 4) {
		b.WriteString("Connection: close\r\n")
	}
	if proto == "HTTP/1.1" && w.Chance(1, 12) {
		b.WriteString("Expect: 100-continue\r\n")
	}
	if declared < 0 && proto == "HTTP/1.1" && w.Chance(1, 4) {
		b.WriteString("Transfer-Encoding: chunked\r\n\r\n")
		for len(body) > 0 {
			n := 1 + w.N(len(body))
			fmt.Fprintf(&b, "%x\r\n%s\r\n", n, body[:n])
			body = body[n:]
		}
		b.WriteString("0\r\n\r\n")
		return b.String()
	}
	if declared < 0 {
		declared = len(body)
	}
	fmt.Fprintf(&b, "Content-Length: %d\r\n\r\n%s", declared, body)
	return b.String()
}

// cut plans how the bytes of a request arrive.
func cut(f *simrt.Stream, wire string, pauses bool) []piece {
	var ret []piece
	style := f.Pick(3, 2, 2, 1)
	total := time.Duration(0)
	for len(wire) > 0 {
		n := len(wire)
		switch style {
		case 1:
			n = 1 + f.N(400)
		case 2: // head and body apart
			if i := strings.Index(wire, "\r\n\r\n"); i >= 0 {
				n = i + 1 + f.N(6)
			}
		case 3:
			n = 1 + f.N(40)
		}
		if len(wire) > 2000 && n < 400 {
			n += 400
		}
		n = min(n, len(wire))
		p := piece{data: []byte(wire[:n])}
		if pauses && total < 8*time.Second && f.Chance(1, 3) { // in time for the limit on headers
			p.pause = time.Duration(1+f.N(2000)) * time.Millisecond
			total += p.pause
		}
		ret = append(ret, p)
		wire = wire[n:]
	}
	if len(ret) > 1 {
		simrt.Probe("fault.cut_requests")
	}
	return ret
}

// good makes a well-formed request.
func (h *host) good(c *core.Ctx, last bool) *request {
	r := &request{sentence: h.sentence(c)}
	name := modeNames[c.W.Pick(3, 1, 3, 3)]
	r.mode = model.Normal
	switch name {
	case "Search":
		r.mode = model.Search
	case "Extended":
		r.mode = model.Extended
	}
	r.want = h.answer(r.sentence, r.mode)
	method := []string{"PUT", "POST"}[c.W.N(2)]
	r.wire = wrap(c.W, method, "/tokenize", body(c.W, r.sentence, name), -1, last)
	r.pieces = cut(c.F, r.wire, true)
	return r
}

// healthy makes a client that keeps to the rules.
func (h *host) healthy(c *core.Ctx, name string, most int) *client {
	w, f := c.W, c.F
	cl := &client{name: name, pipelined: w.Chance(1, 4), keep: w.Chance(1, 4)}
	if f.Chance(1, 2) {
		cl.start = time.Duration(f.N(3000)) * time.Millisecond
	}
	for n := w.Between(1, most); n > 0; n-- {
		cl.reqs = append(cl.reqs, h.good(c, n == 1))
	}
	if f.Chance(1, 3) {
		cl.readSize = 1 + f.N(2000)
		if f.Chance(1, 2) {
			cl.readSize += 200
			cl.readPause = time.Duration(1+f.N(200)) * time.Millisecond
		}
	}
	if f.Chance(1, 12) { // takes its time before it looks at the answers
		cl.readLate = time.Duration(f.N(90)) * time.Second
		simrt.Probe("fault.late_reader")
	}
	return cl
}

func (h *host) launch(c *core.Ctx, clients []*client) []*simrt.Task {
	var tasks []*simrt.Task
	for _, cl := range clients {
		cl.task = c.S.Go(cl.name, cl.run)
		tasks = append(tasks, cl.task)
	}
	return tasks
}

// await runs until the clients are done, and then until the server is idle.
func (h *host) await(c *core.Ctx, clients []*client) bool {
	done := func() bool {
		if h.done {
			return true
		}
		for _, cl := range clients {
			if !cl.task.Done() {
				return false
			}
		}
		return true
	}
	c.S.Run(done)
	c.S.Join()
	if c.Failed() {
		return false
	}
	if h.done {
		c.Fail("server-ended", "the server command returned although nobody told it to: %v", h.err)
		return false
	}
	if !done() {
		c.Fail("hang", "not all clients were answered: %s", c.S.Describe())
		return false
	}
	return true
}

// judge checks the replies to a client that keeps to the rules.
func judge(c *core.Ctx, cl *client) bool {
	if cl.refused {
		c.Fail("refused", "%s could not connect", cl.name)
		return false
	}
	for i, r := range cl.reqs {
		if r.void {
			continue
		}
		if d := accepted(r.resp, r.want); d != "" {
			c.Fail("wrong-answer", "%s, request %d of %d (%s, mode %d): %s", cl.name, i+1, len(cl.reqs), real.Short(r.sentence), r.mode, d)
			return false
		}
		if lag := r.done - r.sent; lag > limit && cl.readPause == 0 && cl.readLate == 0 {
			c.Fail("late", "%s, request %d (%s): answered only after %v", cl.name, i+1, real.Short(r.sentence), lag)
			return false
		}
		c.Work++
	}
	return true
}

func c12(c *core.Ctx) {
	h := newHost(c)
	var clients []*client
	total := 0
	n, most := c.W.Between(1, 5), 4
	switch c.W.Pick(600, 1, 1) {
	case 1: // many clients
		n = c.W.Between(20, 300)
		simrt.Probe("scale.many_clients")
		c.S.MaxSteps = 600000000
	case 2: // many requests on few connections
		n, most = c.W.Between(1, 2), c.W.Between(50, 700)
		simrt.Probe("scale.many_requests")
		c.S.MaxSteps = 600000000
		c.S.Horizon = 5 * time.Hour
	}
	for ; n > 0; n-- {
		cl := h.healthy(c, fmt.Sprintf("client%d", len(clients)), most)
		if most > 4 { // or its own pauses add up
			cl.pipelined = false
		}
		clients = append(clients, cl)
		total += len(cl.reqs)
	}
	c.Shape = fmt.Sprintf("server %v, %d clients, %d requests, first %s", h.args, len(clients), total, real.Short(clients[0].reqs[0].wire))
	h.serve(c)
	h.launch(c, clients)
	if h.await(c, clients) {
		for _, cl := range clients {
			if !judge(c, cl) {
				break
			}
		}
	}
	h.end(c, clients...)
}

// Kinds of requests that do not keep to the rules.
const (
	anything   = iota // whatever is answered, the rest must go on
	mustReject        // has to be rejected
	either            // rejected, or accepted with the tokens of the sentence
	mustAccept
)

// classify tells what a body deserves. complete says that all of it is sent.
func (h *host) classify(r *request, body string, complete bool) {
	var v struct {
		Input *string `json:"sentence"`
		Mode  *string `json:"mode"`
	}
	dec := json.NewDecoder(strings.NewReader(body))
	err := dec.Decode(&v)
	if err != nil {
		r.kind = mustReject
		return
	}
	r.mode = model.Normal
	unclear := v.Input == nil || !complete
	if v.Mode != nil {
		switch *v.Mode {
		case "", "Normal":
		case "Search":
			r.mode = model.Search
		case "Extended":
			r.mode = model.Extended
		default:
			unclear = true
		}
	}
	if v.Input != nil {
		r.sentence = *v.Input
	}
	rest := body[dec.InputOffset():]
	if strings.TrimSpace(rest) != "" || !utf8.ValidString(body) {
		unclear = true
	}
	var m map[string]json.RawMessage
	if json.Unmarshal([]byte(body), &m) != nil || len(m) > 2 {
		unclear = true
	}
	r.want = h.answer(r.sentence, r.mode)
	r.kind = mustAccept
	if unclear {
		r.kind = either
	}
}

// spoil damages a body.
func spoil(f *simrt.Stream, b string) string {
	switch f.Pick(4, 4, 2, 3, 2) {
	case 0: // breaks off
		return b[:f.N(len(b))]
	case 1: // one byte differs
		i := f.N(len(b))
		x := []string{"\"", "\\", "{", "}", ":", ",", "\x00", "\x01", "\n", "\xff", "[", "]", "5", "'", "u", " ", "\u2028"}
		return b[:i] + x[f.N(len(x))] + b[i+1:]
	case 2: // something inserted
		i := f.N(len(b) + 1)
		x := []string{"\"", "}", "{", "\\u12", "\\ud800", "null", "あ", "\x7f", "//", "<b>\"", "\\'", "\t"}
		return b[:i] + x[f.N(len(x))] + b[i:]
	case 3:
		x := []string{"", " ", "null", "[]", "{}", "5", "\"あ\"", "true", `{"sentence":5}`, `{"sentence":["あ"]}`, `{"sentence":null}`,
			`{"sentence":{"a":"\"\\"}}`, `{"mode":[]}`, `{'sentence':'あ'}`, `sentence=あ&mode=Search`, "\xef\xbb\xbf{}", `{"sentence":"あ`, `{"sentence":"あ"`,
			`{"sentence":` + strings.Repeat("[", 1+f.N(3)*9000), `{"a":` + strings.Repeat("[", 10001) + strings.Repeat("]", 10001) + "}", strings.Repeat("9", 1+f.N(3)*40000),
			`{"sentence":"あ","mode":7}`, "\x00", `{"sentence":"\`, "{\"sentence\":\"a\nb\"}", `{"sentence":"\x"}`, `{"sentence":tru}`, `{"sentence":"a",}`, `{"a":1}x`}
		return x[f.N(len(x))]
	default:
		n := 1 + f.N(40)
		g := make([]byte, n)
		for i := range g {
			g[i] = byte(f.N(256))
		}
		return string(g)
	}
}

// hostile makes a client that breaks the rules.
func (h *host) hostile(c *core.Ctx, name string) *client {
	w, f := c.W, c.F
	cl := &client{name: name, keep: true}
	cl.start = time.Duration(f.N(3000)) * time.Millisecond
	if f.Chance(1, 3) {
		cl.reqs = append(cl.reqs, h.good(c, false))
		cl.reqs[0].kind = mustAccept
	}
	r := &request{}
	cl.reqs = append(cl.reqs, r)
	sentence := h.sentence(c)
	good := body(w, sentence, modeNames[w.N(4)])
	switch f.Pick(6, 3, 3, 2, 2, 2) {
	case 0: // a broken body, properly sent
		b := spoil(f, good)
		h.classify(r, b, true)
		r.wire = wrap(w, "POST", "/tokenize", b, -1, false)
		r.pieces = cut(f, r.wire, true)
		if strings.Contains(r.wire, "HTTP/1.0") {
			break
		}
		if f.Chance(1, 3) { // and the connection goes on
			cl.reqs = append(cl.reqs, h.good(c, true))
			cl.reqs[len(cl.reqs)-1].kind = anything
		}
		simrt.Probe("fault.spoiled_body")
	case 1: // less than announced, then nothing more comes
		n := f.N(len(good) + 1)
		h.classify(r, good[:n], false)
		announced := n + 1 + f.N(50)
		if f.Chance(1, 4) {
			announced = []int{1 << 20, 1 << 26, 1 << 62, math.MaxInt64}[f.N(4)]
			simrt.Probe("fault.announces_too_much")
		}
		r.wire = wrap(w, "PUT", "/tokenize", good[:n], announced, false)
		r.pieces = cut(f, r.wire, true)
		r.stop = halfCloses
	case 2: // breaks off anywhere
		wire := wrap(w, "PUT", "/tokenize", good, -1, false)
		n := f.N(len(wire) + 1)
		h.classify(r, good, false)
		if r.kind == mustReject {
			panic("good body is not good")
		}
		r.kind = anything
		r.wire = wire[:n]
		r.pieces = cut(f, r.wire, true)
		r.stop = []int{aborts, hangsUp, stalls, halfCloses}[f.N(4)]
	case 3: // not HTTP
		g := spoil(f, wrap(w, "POST", "/tokenize", good, -1, false))
		if g == "" {
			g = "x"
		}
		r.kind = anything
		r.wire = g
		r.pieces = cut(f, g, true)
		r.stop = []int{stalls, halfCloses, aborts}[f.N(3)]
		simrt.Probe("fault.garbage")
	case 4: // never reads, or stops in the middle
		h.classify(r, good, true)
		r.wire = wrap(w, "PUT", "/tokenize", good, -1, false)
		r.pieces = cut(f, r.wire, true)
		r.kind = anything
		r.silent = true
		h.plan.SockBuf = 1 + f.N(300)
		simrt.Probe("fault.client_never_reads")
	case 5: // broken framing
		n := f.N(len(good))
		h.classify(r, good[:n], false)
		b := fmt.Sprintf("%x\r\n%s", len(good), good[:n])
		if f.Chance(1, 2) {
			h.classify(r, good[:3], false)
			b = fmt.Sprintf("%x\r\n%s\r\n%s", 3, good[:3], []string{"zz\r\n", "-1\r\n", "ffffffffffffffffff\r\n", "\r\n\r\n", "5;x"}[f.N(5)])
		}
		r.wire = "POST /tokenize HTTP/1.1\r\nHost: x\r\nTransfer-Encoding: chunked\r\n\r\n" + b
		r.pieces = cut(f, r.wire, true)
		r.stop = []int{halfCloses, stalls, aborts}[f.N(3)]
		if r.stop != halfCloses {
			r.kind = anything
		}
		simrt.Probe("fault.broken_framing")
	}
	return cl
}

func c13(c *core.Ctx) {
	h := newHost(c)
	var fair, foul []*client
	for n := c.W.Between(0, 3); n > 0; n-- {
		fair = append(fair, h.healthy(c, fmt.Sprintf("client%d", len(fair)), 3))
	}
	n := c.W.Between(1, 4)
	if c.W.Chance(1, 300) {
		n = c.W.Between(20, 250)
		simrt.Probe("scale.many_clients")
		c.S.MaxSteps = 600000000
	}
	for ; n > 0; n-- {
		foul = append(foul, h.hostile(c, fmt.Sprintf("hostile%d", len(foul))))
	}
	if c.F.Chance(1, 6) {
		h.plan.AcceptTemp = 1 + c.F.N(3)
	}
	k := foul[0].reqs[len(foul[0].reqs)-1]
	c.Shape = fmt.Sprintf("server %v, %d healthy clients, %d others, first %s %s", h.args, len(fair), len(foul), real.Short(k.wire), stopNames[k.stop])
	all := append(append([]*client{}, fair...), foul...)
	probe := &client{name: "probe", reqs: []*request{h.good(c, true)}}
	h.serve(c)
	h.launch(c, all)
	if h.await(c, all) && h.inspect(c, fair, foul) {
		// later, the server is still of use
		probe.start = time.Duration(c.F.N(40)) * time.Second
		h.launch(c, []*client{probe})
		if h.await(c, []*client{probe}) {
			judge(c, probe)
		}
	}
	h.end(c, append(all, probe)...)
}

func (h *host) inspect(c *core.Ctx, fair, foul []*client) bool {
	for _, cl := range fair {
		if !judge(c, cl) {
			return false
		}
	}
	for _, cl := range foul {
		for i, r := range cl.reqs {
			what := fmt.Sprintf("%s, request %d, %s", cl.name, i+1, real.Short(r.wire))
			if r.void {
				continue
			}
			switch r.kind {
			case mustAccept:
				if d := accepted(r.resp, r.want); d != "" {
					c.Fail("wrong-answer", "%s: %s", what, d)
					return false
				}
				c.Work++
			case mustReject:
				if d := rejected(r.resp); d != "" {
					c.Fail("not-rejected", "%s: %s", what, d)
					return false
				}
				c.Work++
			case either:
				a, b := accepted(r.resp, r.want), rejected(r.resp)
				if a != "" && b != "" {
					c.Fail("wrong-answer", "%s: neither accepted (%s) nor rejected (%s)", what, a, b)
					return false
				}
				c.Work++
			case anything:
				if r.resp != nil && r.resp.bad == "" && !r.resp.cut && r.resp.code == 200 && r.want != "" && strings.Contains(r.wire, "/tokenize") {
					if d := accepted(r.resp, r.want); d != "" {
						c.Fail("wrong-answer", "%s, %s: %s", what, stopNames[r.stop], d)
						return false
					}
				}
			}
		}
	}
	return true
}

// c18: clients that never finish their header.
func c18(c *core.Ctx) {
	w, f := c.W, c.F
	h := newHost(c)
	h.plan.SockBuf = 0 // there is room for an error reply
	var fair, slow []*client
	for n := w.Between(0, 2); n > 0; n-- {
		fair = append(fair, h.healthy(c, fmt.Sprintf("client%d", len(fair)), 2))
	}
	for n := w.Between(0, 2); n > 0; n-- { // header in time, the rest takes long
		r := h.good(c, true)
		head := strings.Index(r.wire, "\r\n\r\n") + 4
		r.pieces = nil
		for i, part := range []string{r.wire[:head], r.wire[head:]} {
			list := cut(f, part, false)
			for k := range list {
				if len(list) > 12 && k%(len(list)/12+1) != 0 {
					continue
				}
				if i == 0 {
					list[k].pause = time.Duration(f.N(10000/len(list))) * time.Millisecond
				} else {
					list[k].pause = time.Duration(f.N(40000)) * time.Millisecond
				}
			}
			r.pieces = append(r.pieces, list...)
		}
		cl := &client{name: fmt.Sprintf("patient%d", len(slow)), reqs: []*request{r}, start: time.Duration(f.N(20000)) * time.Millisecond}
		slow = append(slow, cl)
		simrt.Probe("fault.slow_body")
	}
	var loris []*client
	n := w.Between(1, 5)
	if w.Chance(1, 300) {
		n = w.Between(20, 250)
		simrt.Probe("scale.many_clients")
		c.S.MaxSteps = 600000000
	}
	for ; n > 0; n-- {
		wire := wrap(w, "PUT", "/tokenize", body(w, h.sentence(c), "Search"), -1, false)
		head := wire[:strings.Index(wire, "\r\n\r\n")+3]
		head = head[:f.N(len(head)+1)]
		cl := &client{name: fmt.Sprintf("loris%d", len(loris)), keep: true, start: time.Duration(f.N(30000)) * time.Millisecond}
		r := &request{wire: head}
		switch f.Pick(2, 2, 1) {
		case 0: // part of it, then nothing
			r.pieces = cut(f, head, true)
		case 1: // a drop at a time, as long as it lasts
			p := time.Duration(1+f.N(15000)) * time.Millisecond
			for i := 0; i < len(head); i++ {
				r.pieces = append(r.pieces, piece{[]byte(head[i : i+1]), p})
			}
			for k := 0; k < 60; k++ {
				r.pieces = append(r.pieces, piece{[]byte("X: y\r\n"), p})
			}
			if !strings.HasSuffix(head, "\r\n") {
				r.pieces = r.pieces[:len(head)]
			}
		case 2: // nothing at all
			r.wire = ""
		}
		cl.reqs = []*request{r}
		if len(r.pieces) > 0 && len(head) > 4 && f.Chance(1, 3) {
			// a connection that was good for something before; the library
			// waits for four bytes of a further request without limit
			var first []byte
			for len(first) < 4 {
				first = append(first, r.pieces[0].data...)
				r.pieces = r.pieces[1:]
			}
			r.pieces = append([]piece{{first, time.Duration(f.N(20000)) * time.Millisecond}}, r.pieces...)
			g := h.good(c, false)
			cl.reqs = []*request{g, r}
			simrt.Probe("fault.stalled_second_header")
		}
		loris = append(loris, cl)
		simrt.Probe("fault.stalled_header")
	}
	c.Shape = fmt.Sprintf("server %v, %d healthy, %d patient, %d stalling clients", h.args, len(fair), len(slow), len(loris))
	all := append(append(append([]*client{}, fair...), slow...), loris...)
	h.serve(c)
	h.launch(c, all)
	c.S.Horizon = 15 * time.Minute
	c.S.Run(func() bool {
		if h.done {
			return true
		}
		for _, cl := range all {
			if !cl.task.Done() {
				return false
			}
		}
		return true
	})
	c.S.Join()
	switch {
	case c.Failed():
	case h.done:
		c.Fail("server-ended", "the server command returned although nobody told it to: %v", h.err)
	default:
		h.patience(c, fair, slow, loris)
	}
	h.end(c, all...)
}

func (h *host) patience(c *core.Ctx, fair, slow, loris []*client) {
	for _, cl := range append(append([]*client{}, fair...), slow...) {
		if !cl.task.Done() {
			c.Fail("hang", "%s waits forever: %s", cl.name, c.S.Describe())
			return
		}
		if !judge(c, cl) {
			return
		}
	}
	for _, cl := range loris {
		if cl.refused {
			c.Fail("refused", "%s could not connect", cl.name)
			return
		}
		last := cl.reqs[len(cl.reqs)-1]
		from := cl.at
		if len(cl.reqs) > 1 {
			if g := cl.reqs[0]; !g.void {
				if d := accepted(g.resp, g.want); d != "" {
					c.Fail("wrong-answer", "%s, request 1 (%s, mode %d): %s", cl.name, real.Short(g.sentence), g.mode, d)
					return
				}
			}
			if from = last.begun; from == 0 {
				continue
			}
		}
		if !cl.task.Done() || !cl.conn.ServerClosed() {
			c.Fail("not-dropped", "%s, which never completed its header (%s), is still connected after %v", cl.name, real.Short(last.wire), simrt.Now()-from)
			return
		}
		if d := cl.conn.ClosedAt - from; d > limit {
			c.Fail("not-dropped", "%s, which never completed its header (%s), was dropped only after %v", cl.name, real.Short(last.wire), d)
			return
		}
		c.Work++
	}
}
