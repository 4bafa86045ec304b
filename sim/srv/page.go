package srv

import (
	"fmt"
	"html"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	"verifsim/core"
	"verifsim/model"
	"verifsim/real"
	"verifsim/simexec"
	"verifsim/simrt"

	"github.com/ikawaha/kagome-dict/dict"
)

func init() { core.Register("C14", c14) }

// Kinds of requests of the page scenario.
const (
	latticePage = iota + 10
	plainPage
)

// page makes a request for the demo page.
func (h *host) page(c *core.Ctx, n int, lattice, last bool) *request {
	w := c.W
	r := &request{kind: latticePage, sentence: h.sentence(c) + fmt.Sprintf("%d", 100+n)} // no two are alike
	if strings.ContainsAny(r.sentence, "\x00\r") {
		r.sentence = strings.NewReplacer("\x00", "", "\r", "").Replace(r.sentence)
	}
	if len(h.shown) > 0 && w.Chance(1, 3) { // one that was seen before, often in another mode
		r.sentence = h.shown[w.N(len(h.shown))]
		h.again[r.sentence] = true
		simrt.Probe("work.repeated_sentence")
	} else {
		h.shown = append(h.shown, r.sentence)
	}
	mode := []string{"", "Normal", "Search", "Extended"}[w.Pick(2, 2, 3, 1)]
	r.mode = model.Normal
	if mode == "Search" || mode == "Extended" { // the page shows the search mode for both
		r.mode = model.Search
	}
	q := url.Values{"s": {r.sentence}}
	if mode != "" {
		q.Set("r", mode)
	}
	if lattice {
		q.Set("lattice", []string{"Lattice", "1", "true"}[w.N(3)])
	} else {
		r.kind = plainPage
	}
	if w.Chance(1, 3) {
		b := q.Encode()
		r.wire = fmt.Sprintf("POST / HTTP/1.1\r\nHost: x\r\n%sContent-Type: application/x-www-form-urlencoded\r\nContent-Length: %d\r\n\r\n%s", extras(w), len(b), b)
	} else {
		conn := ""
		if last && w.Chance(1, 3) {
			conn = "Connection: close\r\n"
		}
		r.wire = "GET /?" + q.Encode() + " HTTP/1.1\r\nHost: x\r\n" + extras(w) + conn + "\r\n"
	}
	r.pieces = cut(c.F, r.wire, c.F.Chance(1, 3))
	return r
}

// show is one simulated graphviz process.
type show struct {
	n       int
	b       *simexec.Behaviour
	full    string // what it prints if nothing goes wrong
	success bool   // as planned: reads all, prints all, ends well, in good time
	empty   bool   // prints less than everything, although it ends well
	proc    *simexec.Proc
}

// graphviz plans what the next process does.
func graphviz(f *simrt.Stream, n int) *show {
	s := &show{n: n}
	s.full = fmt.Sprintf("<?xml version=\"1.0\"?>\n<!DOCTYPE svg PUBLIC \"-//W3C//DTD SVG 1.1//EN\">\n<svg width=\"1\">drawing-%d-%s-end</svg>\n", n, strings.Repeat("x", f.N(3)*3000))
	b := &simexec.Behaviour{ReadLimit: -1, OutputLimit: -1, Name: "healthy"}
	s.b = b
	full := s.full
	b.Output = func([]byte) []byte { return []byte(full) }
	s.success = true
	if f.Chance(1, 3) {
		b.PipeSize = 1 + f.N(4096)
		if b.PipeSize < 64 {
			b.PipeSize = 64
		}
	}
	if f.Chance(1, 6) { // graphviz likes to complain
		b.Warn = []int{1, 1000, 1 << 17}[f.Pick(2, 2, 1)]
		b.WarnFirst = f.Chance(1, 2)
	}
	switch f.Pick(6, 2, 1, 2, 2, 1, 2, 2, 2) {
	case 0:
		if f.Chance(1, 3) {
			b.Before = time.Duration(f.N(8000)) * time.Millisecond
			b.Name = "slow"
		}
	case 1:
		b.StartErr = []error{syscall.EAGAIN, syscall.ENOMEM, syscall.EMFILE, syscall.ENOENT}[f.N(4)]
		b.Name = "cannot start"
		s.success = false
	case 2:
		b.Before = 40 * time.Second
		b.Name = "too slow"
		s.success = false
	case 3:
		b.ReadLimit = f.N(3) * f.N(400)
		b.ExitCode = f.N(3)
		b.Name = "stops reading and ends"
		b.OutputLimit = []int{-1, 0, f.N(len(full))}[f.N(3)]
		s.success = false
	case 4:
		b.ReadLimit = f.N(3) * f.N(400)
		b.Hang = true
		b.HangClosed = f.Chance(1, 2)
		b.OutputLimit = []int{-1, 0, f.N(len(full))}[f.N(3)]
		b.Name = "stops reading and never ends"
		b.PipeSize = 64 + f.N(500)
		s.success = false
	case 5:
		b.Hang = true
		b.OutputLimit = []int{-1, 0, f.N(len(full))}[f.N(3)]
		b.Name = "never ends"
		s.success = false
	case 6:
		b.ExitCode = 1 + f.N(3)
		b.OutputLimit = []int{-1, 0, f.N(len(full))}[f.N(3)]
		b.Name = "fails"
		s.success = false
	case 7:
		b.Signal = []int{11, 6, 9}[f.N(3)]
		if f.Chance(1, 2) {
			b.ReadLimit = f.N(300)
		}
		b.OutputLimit = []int{-1, 0, f.N(len(full))}[f.N(3)]
		b.Name = "crashes"
		s.success = false
	case 8:
		b.OutputLimit = f.N(len(full))
		b.Name = "prints too little"
		s.success = false
		s.empty = true
	}
	if b.StartErr == nil && f.Chance(1, 10) { // a wrapper script, say
		b.Child = []time.Duration{5 * time.Second, 40 * time.Second, time.Hour}[f.N(3)]
		s.success = false
	}
	if b.ReadLimit >= 0 && b.ExitCode == 0 && b.Signal == 0 && !b.Hang {
		s.empty = true
	}
	if b.Name != "healthy" && b.Name != "slow" && b.StartErr == nil {
		simrt.Probe("fault.graphviz " + b.Name)
	}
	return s
}

var (
	marker  = regexp.MustCompile(`drawing-(\d+)-`)
	cell    = regexp.MustCompile(`(?s)<td>(.*?)</td>`)
	timeout = regexp.MustCompile(`(?i)time.?out|deadline`)
	notice  = regexp.MustCompile(`(?s)<strong>\s*Error.*?</strong>`)
)

func c14(c *core.Ctx) {
	w, f := c.W, c.F
	h := newHost(c)
	var shows []*show
	missing := f.Chance(1, 12)
	comes := 0
	world := &simexec.World{LookPath: func(string) bool {
		comes++
		return !missing
	}}
	world.Next = func(string, []string) *simexec.Behaviour {
		s := graphviz(f, len(shows))
		shows = append(shows, s)
		return s.b
	}
	simexec.SetWorld(world)
	var clients []*client
	n, lattices := 0, 0
	crowd := w.Between(1, 4)
	if w.Chance(1, 300) {
		crowd = w.Between(20, 120)
		simrt.Probe("scale.many_clients")
		c.S.MaxSteps = 600000000
	}
	for k := crowd; k > 0; k-- {
		cl := &client{name: fmt.Sprintf("client%d", len(clients)), pipelined: w.Chance(1, 6), keep: w.Chance(1, 4)}
		if f.Chance(1, 2) {
			cl.start = time.Duration(f.N(4000)) * time.Millisecond
		}
		for m := w.Between(1, 3); m > 0; m-- {
			var r *request
			switch w.Pick(5, 1, 2) {
			case 0:
				r = h.page(c, n, true, m == 1)
				lattices++
			case 1:
				r = h.page(c, n, false, m == 1)
			case 2:
				r = h.good(c, m == 1)
				r.kind = mustAccept
			}
			n++
			cl.reqs = append(cl.reqs, r)
		}
		if r := cl.reqs[len(cl.reqs)-1]; f.Chance(1, 6) { // goes away while it waits
			r.stop = []int{aborts, hangsUp}[f.N(2)]
			r.pieces = append(r.pieces, piece{pause: time.Duration(f.N(30000)) * time.Millisecond})
			cl.pipelined = false
		}
		clients = append(clients, cl)
	}
	c.Shape = fmt.Sprintf("server %v, %d clients, %d requests, %d with a lattice, first %s", h.args, len(clients), n, lattices, real.Short(clients[0].reqs[0].wire))
	h.serve(c)
	h.launch(c, clients)
	if h.await(c, clients) && h.pages(c, clients, shows, world, missing) {
		if lattices == 0 && len(shows) > 0 {
			c.Fail("process-started", "%d graphviz processes although nobody asked for a lattice", len(shows))
		}
		// no process outlives its request for long
		until := simrt.Now() + limit
		c.S.Run(func() bool { return simrt.Now() > until })
		c.S.Join()
		for _, p := range world.Procs {
			if !p.Exited && !c.Failed() {
				c.Fail("process-left", "graphviz process %d (%s) still runs %v after all requests ended", p.N, p.B.Name, limit)
			}
		}
	}
	h.end(c, clients...)
}

func (h *host) pages(c *core.Ctx, clients []*client, shows []*show, world *simexec.World, missing bool) bool {
	for _, p := range world.Procs {
		for _, s := range shows {
			if s.b == p.B {
				s.proc = p
			}
		}
	}
	failed := 0 // processes that were a reason for an error notice
	for _, s := range shows {
		if !s.success || s.proc == nil || s.proc.Killed {
			failed++
		}
	}
	late := 0 // processes that ran into the time limit or left a child that did
	for _, p := range world.Procs {
		if p.Killed || p.B.Child > 0 {
			late++
		}
	}
	notices := map[string]bool{}
	timeouts := map[string]bool{}
	for _, cl := range clients {
		if cl.refused {
			c.Fail("refused", "%s could not connect", cl.name)
			return false
		}
		for i, r := range cl.reqs {
			if r.stop != goesOn || r.void {
				continue
			}
			what := fmt.Sprintf("%s, request %d of %d (%s)", cl.name, i+1, len(cl.reqs), real.Short(r.sentence))
			d := ""
			switch r.kind {
			case mustAccept:
				d = accepted(r.resp, r.want)
			case plainPage:
				if d = whole(r.resp); d == "" && (r.resp.code != 200 || !strings.Contains(html.UnescapeString(string(r.resp.body)), r.sentence)) {
					d = fmt.Sprintf("status %d, page without the sentence", r.resp.code)
				}
				if b := string(r.resp.body); d == "" && (marker.MatchString(b) || notice.MatchString(b) || strings.Count(b, "</html>") != 1) {
					d = "no lattice asked for, and the page shows more than the input form"
				}
			case latticePage:
				d = h.checkPage(r, shows, missing)
				if d == "" && notice.MatchString(string(r.resp.body)) {
					notices[fmt.Sprint(r.mode, r.sentence)] = true
					if told := notice.FindString(string(r.resp.body)); timeout.MatchString(told) {
						timeouts[fmt.Sprint(r.mode, r.sentence)] = true
						if len(timeouts) > late {
							d = fmt.Sprintf("an error notice (%s) although graphviz never ran into the time limit, or only %d times", real.Short(html.UnescapeString(told)), late)
						}
					}
					if d == "" && len(notices) > failed && !missing {
						d = fmt.Sprintf("an error notice (%s) although graphviz did not fail, or only %d times", real.Short(html.UnescapeString(notice.FindString(string(r.resp.body)))), failed)
					}
				}
			}
			if d != "" {
				c.Fail("wrong-page", "%s: %s", what, d)
				return false
			}
			waited := r.sent // with pipelining the earlier requests count
			if i > 0 && cl.reqs[i-1].done > waited {
				waited = cl.reqs[i-1].done
			}
			if lag := r.done - waited; lag > limit {
				c.Fail("late", "%s: complete only after %v", what, lag)
				return false
			}
			c.Work++
		}
	}
	return true
}

// words are the tokens of a sentence as the graph shows them.
func (h *host) words(r *request) []string {
	var ret []string
	for _, t := range h.tk.Analyze(r.sentence, r.mode) {
		if t.ID != -1 {
			ret = append(ret, t.Surface)
		}
	}
	return ret
}

// records are the rows of the table of tokens.
func (h *host) records(r *request) []string {
	var ret []string
	or := func(s string, ok bool) string {
		if !ok {
			return "*"
		}
		return s
	}
	for _, t := range h.tk.Analyze(r.sentence, r.mode) {
		if t.ID == -1 {
			continue
		}
		pos := strings.Join(h.tk.POS(t), ",")
		ret = append(ret, t.Surface, or(pos, pos != ""))
		for _, name := range []string{dict.BaseFormIndex, dict.ReadingIndex, dict.PronunciationIndex} {
			v, ok := h.tk.Named(t, name)
			ret = append(ret, or(v, ok))
		}
	}
	return ret
}

func (h *host) checkPage(r *request, shows []*show, missing bool) string {
	if d := whole(r.resp); d != "" {
		return d
	}
	if r.resp.code != 200 {
		return fmt.Sprintf("status %d", r.resp.code)
	}
	page := string(r.resp.body)
	if n := strings.Count(page, "</html>"); n != 1 {
		return fmt.Sprintf("%d pages in one", n)
	}
	drawn := marker.FindAllStringSubmatch(page, -1)
	words := h.words(r)
	var own *show // a process that got this sentence and was told to do it right
	for _, s := range shows {
		if h.again[r.sentence] {
			break // it may be that of another request for the same sentence
		}
		if s.success && s.proc != nil && !s.proc.Killed && s.proc.StdinEOF && model.CheckDot(string(s.proc.Stdin), words, true) == nil {
			own = s
		}
	}
	var from *show
	for _, m := range drawn {
		k, _ := strconv.Atoi(m[1])
		if k >= len(shows) || shows[k].proc == nil {
			return "a drawing that no process made"
		}
		from = shows[k]
		if from.proc.StdinEOF {
			if err := h.tk.CheckGraph(string(from.proc.Stdin), r.sentence, r.mode); err != nil {
				return fmt.Sprintf("the drawing of another request, or of a broken graph: %v", err)
			}
		}
	}
	told := notice.MatchString(page)
	if told {
		if own != nil {
			return fmt.Sprintf("an error notice (%s) although graphviz succeeded", real.Short(html.UnescapeString(notice.FindString(page))))
		}
		if from != nil && from.success {
			return "an error notice together with a good drawing"
		}
		if from == nil {
			return h.rows(page, r, true)
		}
		return ""
	}
	if d := h.rows(page, r, false); d != "" {
		return d
	}
	switch {
	case missing:
		return "no error notice although graphviz is missing"
	case from != nil:
		if from.proc.Killed || from.b.ExitCode != 0 || from.b.Signal != 0 {
			return fmt.Sprintf("no error notice although graphviz failed (%s)", from.b.Name)
		}
		if from.success && !strings.Contains(page, from.full[strings.Index(from.full, "<svg"):strings.Index(from.full, "</svg>")+6]) {
			return "only a part of the drawing"
		}
	default:
		for _, s := range shows {
			if s.proc != nil && s.empty && !s.proc.Killed {
				return ""
			}
		}
		return "neither a drawing nor an error notice"
	}
	return ""
}

// rows checks the table of tokens; it may be missing if the page is an error notice.
func (h *host) rows(page string, r *request, optional bool) string {
	at := strings.Index(page, "<tbody")
	end := strings.Index(page, "</tbody>")
	if at < 0 || end < at {
		if optional {
			return ""
		}
		return "no table of tokens"
	}
	var got []string
	for _, m := range cell.FindAllStringSubmatch(page[at:end], -1) {
		got = append(got, html.UnescapeString(m[1]))
	}
	if optional && len(got) == 0 {
		return ""
	}
	if want := h.records(r); !real.Same(got, want) {
		return "table of tokens: " + real.DiffStrings(got, want)
	}
	return ""
}
