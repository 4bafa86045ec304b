package lib

import (
	"bufio"
	"errors"
	"io"
	"strings"
	"unicode"
	"unicode/utf8"

	"verifsim/core"
	"verifsim/model"
	"verifsim/real"
	"verifsim/simos"
	"verifsim/simrt"

	"github.com/ikawaha/kagome/v2/filter"
)

var errDisk = errors.New("no space left on device")
var errRead = errors.New("input/output error")

func init() {
	core.Register("C05", c05).Stalls()
	core.Register("C06", c06).Stalls()
	core.Register("C07", c07).Stalls()
}

// cuts distributes a text over reads, with a liking for awkward places.
func cuts(f *simrt.Stream, text string) []simos.Chunk {
	var ret []simos.Chunk
	style := f.Pick(2, 3, 3, 2, 2, 1)
	empty := 0
	if len(text) > 1500 && (style == 2 || style == 3) {
		style = 4 // small reads of a long text cost quadratic time
	}
	for len(text) > 0 {
		n := len(text)
		switch style {
		case 0: // everything at once
		case 1: // awkward places
			n = 1 + f.N(40)
			for k := 0; k < 60 && n < len(text); k++ {
				if awkward(text, n) && f.Chance(1, 2) {
					break
				}
				n++
			}
		case 2: // byte by byte
			n = 1
		case 3:
			n = 1 + f.N(6)
		case 4:
			n = 1 + f.N(200)
		case 5:
			n = 1 + f.N(5000)
		}
		if n > len(text) {
			n = len(text)
		}
		if empty < 50 && f.Chance(1, 30) {
			ret = append(ret, simos.Chunk{})
			empty++
		}
		ret = append(ret, simos.Chunk{Data: []byte(text[:n])})
		text = text[n:]
	}
	if len(ret) > 1 {
		simrt.Probe("fault.cut_reads")
	}
	return ret
}

// awkward tells whether a cut at n falls into something that belongs together.
func awkward(s string, n int) bool {
	if n <= 0 || n >= len(s) {
		return false
	}
	if !utf8.RuneStart(s[n]) {
		return true
	}
	before, _ := utf8.DecodeLastRuneInString(s[:n])
	after, _ := utf8.DecodeRuneInString(s[n:])
	return strings.ContainsRune("。．！!？?\n」』", before) || strings.ContainsRune("」』)）\n。", after) || unicode.IsSpace(before) && unicode.IsSpace(after)
}

// splitText is a text for the splitter, now and then long enough to make a
// scanner move its buffer.
func splitText(c *core.Ctx) string {
	if c.W.Chance(1, 8) {
		t := ""
		for len(t) < 4000+c.W.N(6000) {
			u := model.SentenceText(c.W, 40)
			if u == "" {
				u = "文。"
			}
			t += u
		}
		return t
	}
	return model.SentenceText(c.W, 14)
}

// direct splits a complete text by calling the split function itself.
func direct(split bufio.SplitFunc, text string) (ret []string, err error) {
	data := []byte(text)
	for i := 0; len(data) > 0; i++ {
		adv, tok, err := split(data, true)
		if err != nil {
			return ret, err
		}
		if adv < 0 || adv > len(data) || adv == 0 && tok == nil {
			return ret, errors.New("no progress")
		}
		if tok != nil {
			ret = append(ret, string(tok))
		}
		data = data[adv:]
		if i > len(text)+10 {
			return ret, errors.New("no end")
		}
	}
	return ret, nil
}

func scanAll(r io.Reader, split bufio.SplitFunc, size int, keep func(s string)) error {
	s := bufio.NewScanner(r)
	if size > 0 {
		s.Buffer(make([]byte, size), 64*1024)
	}
	s.Split(split)
	for s.Scan() {
		keep(s.Text())
	}
	return s.Err()
}

func splitFunc(ms model.Splitter, def bool) bufio.SplitFunc {
	if def {
		return filter.ScanSentences
	}
	return real.Splitter(ms).ScanSentences
}

func bufSize(w *simrt.Stream) int { return []int{0, 1, 16, 100, 1000}[w.Pick(4, 1, 1, 1, 1)] }

func c05(c *core.Ctx) {
	c.S.MaxSteps = 200000000
	ms, def := model.SplitterFor(c.W)
	split := splitFunc(ms, def)
	text := splitText(c)
	size := bufSize(c.W)
	src := &simos.Source{Name: "text", Chunks: cuts(c.F, text), EndWithData: c.F.Chance(1, 3)}
	c.Shape = simrt.Sprintf("text %s in %d reads, default splitter: %v", real.Short(text), len(src.Chunks), def)
	var got []string
	var serr error
	t := c.S.Go("scanner", func() {
		serr = scanAll(src, split, size, func(s string) { got = append(got, s) })
	})
	if !c.Finish(t) {
		return
	}
	want, err := direct(split, text)
	c.Work++
	if err != nil {
		c.Fail("split-error", "splitting %s at once: %v", real.Short(text), err)
		return
	}
	if serr != nil {
		c.Fail("split-error", "scanning %s: %v", real.Short(text), serr)
		return
	}
	if d := real.DiffStrings(got, want); d != "" {
		c.Fail("depends-on-reads", "text %s cut into %d reads: %s", real.Short(text), len(src.Chunks), d)
		return
	}
	for i, s := range got {
		if s == "" {
			c.Fail("empty-sentence", "text %s: sentence %d is empty", real.Short(text), i)
			return
		}
	}
}

func strip(s string) string {
	var b strings.Builder
	for _, c := range []byte(s) {
		b.WriteByte(c)
	}
	s = b.String()
	b.Reset()
	for len(s) > 0 {
		r, n := utf8.DecodeRuneInString(s)
		if !unicode.IsSpace(r) {
			b.WriteString(s[:n])
		}
		s = s[n:]
	}
	return b.String()
}

func c06(c *core.Ctx) {
	c.S.MaxSteps = 200000000
	ms, def := model.SplitterFor(c.W)
	split := splitFunc(ms, def)
	text := splitText(c)
	size := bufSize(c.W)
	src := &simos.Source{Name: "text", EndWithData: c.F.Chance(1, 3)}
	got := text
	if c.F.Chance(2, 3) {
		n := c.F.N(len(text) + 1)
		if c.F.Chance(1, 2) {
			for k := 0; k < 20 && !awkward(text, n); k++ {
				n = c.F.N(len(text) + 1)
			}
		}
		got = text[:n]
		src.End = errRead
	}
	src.Chunks = cuts(c.F, got)
	c.Shape = simrt.Sprintf("text %s, read failure after %d of %d bytes: %v", real.Short(text), len(got), len(text), src.End != nil)
	var sents []string
	var serr error
	t := c.S.Go("scanner", func() {
		serr = scanAll(src, split, size, func(s string) { sents = append(sents, s) })
	})
	if !c.Finish(t) {
		return
	}
	c.Work++
	if src.End != nil && !errors.Is(serr, errRead) {
		c.Fail("failure-hidden", "reading %s failed after %d bytes, the scan reports %v", real.Short(text), len(got), serr)
		return
	}
	if src.End == nil && serr != nil {
		c.Fail("split-error", "scanning %s: %v", real.Short(text), serr)
		return
	}
	joined := strings.Join(sents, "")
	want := got
	if ms.Skip {
		want = strip(got)
	}
	if joined != want {
		c.Fail("text-lost", "received %s, sentences joined are %s, expected %s", real.Short(got), real.Short(joined), real.Short(want))
		return
	}
	if d := real.DiffStrings(sents, ms.Split(got)); d != "" && short(got) {
		c.Fail("wrong-sentences", "received %s: %s", real.Short(got), d)
	}
}

// short tells whether the model splitter, which knows no limit for what
// follows a sentence, can be asked.
func short(s string) bool { return len(s) < 1000 }

func c07(c *core.Ctx) {
	w := c.W
	type splitter struct {
		ms     model.Splitter
		def    bool
		split  bufio.SplitFunc
		shared filter.SentenceSplitter
	}
	var sps []*splitter
	for n := 1 + w.Pick(3, 2, 1); n > 0; n-- {
		sp := &splitter{}
		sp.ms, sp.def = model.SplitterFor(w)
		sp.split = splitFunc(sp.ms, sp.def)
		sp.shared = real.Splitter(sp.ms)
		sps = append(sps, sp)
	}
	type scan struct {
		sp    *splitter
		text  string
		src   *simos.Source
		size  int
		style int
		got   []string
		raw   [][]byte
		was   []string
		err   error
	}
	var scans []*scan
	n := w.Between(2, 4)
	if w.Chance(1, 300) {
		n = w.Between(20, 150)
		c.S.MaxSteps = 200000000
		simrt.Probe("scale.many_scans")
	}
	for ; n > 0; n-- {
		s := &scan{sp: sps[w.N(len(sps))], text: model.SentenceText(w, 10), size: bufSize(w), style: w.N(3)}
		s.src = &simos.Source{Name: simrt.Sprintf("text%d", n), Chunks: cuts(c.F, s.text), EndWithData: c.F.Chance(1, 3)}
		scans = append(scans, s)
	}
	c.Shape = simrt.Sprintf("%d scanners, %d splitter settings, e.g. %s", len(scans), len(sps), real.Short(scans[0].text))
	var tasks []*simrt.Task
	for i := range scans {
		s := scans[i]
		tasks = append(tasks, c.S.Go(simrt.Sprintf("scanner%d", i), func() {
			switch s.style {
			case 0, 1:
				f := s.sp.split
				if s.style == 1 && !s.sp.def {
					f = s.sp.shared.ScanSentences
				}
				s.err = scanAll(s.src, f, s.size, func(t string) {
					s.got = append(s.got, t)
					s.was = append(s.was, strings.Clone(t))
					simrt.Point("sentence")
				})
			default: // the split function itself, on a private copy of the text
				data := []byte(s.text)
				for k := 0; len(data) > 0 && k <= len(s.text); k++ {
					adv, tok, err := s.sp.split(data, true)
					if err != nil || adv <= 0 {
						s.err = err
						break
					}
					if tok != nil {
						s.raw = append(s.raw, tok)
						s.was = append(s.was, string(tok))
						s.got = append(s.got, s.was[len(s.was)-1])
					}
					data = data[adv:]
					simrt.Point("sentence")
				}
			}
		}))
	}
	if !c.Finish(tasks...) {
		return
	}
	for i, s := range scans {
		c.Work++
		if s.err != nil {
			c.Fail("split-error", "scanner%d, text %s: %v", i, real.Short(s.text), s.err)
			return
		}
		want, err := direct(s.sp.split, s.text)
		if err != nil {
			c.Fail("split-error", "text %s: %v", real.Short(s.text), err)
			return
		}
		if d := real.DiffStrings(s.got, want); d != "" {
			c.Fail("disturbed", "scanner%d, text %s: %s", i, real.Short(s.text), d)
			return
		}
		if d := real.DiffStrings(s.got, s.sp.ms.Split(s.text)); d != "" && short(s.text) {
			c.Fail("disturbed", "scanner%d, text %s, against the reference: %s", i, real.Short(s.text), d)
			return
		}
		for k := range s.was {
			if s.got[k] != s.was[k] || k < len(s.raw) && string(s.raw[k]) != s.was[k] {
				c.Fail("kept-value-changed", "scanner%d: sentence %d was %q and has changed", i, k, s.was[k])
				return
			}
		}
	}
}
