// Package lib holds the scenarios for the library: analyses, tokens, graph
// export, sentence splitting, pools and filters under concurrent use.
package lib

import (
	"io"
	"strings"
	"unicode/utf8"

	"verifsim/core"
	"verifsim/model"
	"verifsim/real"
	"verifsim/simos"
	"verifsim/simrt"

	"github.com/ikawaha/kagome-dict/dict"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	core.Register("C01", c01).Stalls()
	core.Register("C02", c02).Stalls()
	core.Register("C03", c03).Stalls()
	core.Register("C04", c04).Stalls()
}

// op is one call of the analyser with its expectation.
type op struct {
	tk   int // which tokenizer
	kind int // 0 Tokenize, 1 Wakati, 2.. Analyze in mode kind-1
	text string

	want  []model.Tok
	wantW []string
	got   []tokenizer.Token
	gotW  []string
	done  bool
}

func (o *op) name() string {
	return []string{"Tokenize", "Wakati", "Analyze(Normal)", "Analyze(Search)", "Analyze(Extended)"}[o.kind]
}

func (o *op) expect(t model.Tk) {
	switch o.kind {
	case 0:
		o.want = t.Analyze(o.text, model.Normal)
	case 1:
		o.wantW = t.Wakati(o.text)
	default:
		o.want = t.Analyze(o.text, o.kind-1)
	}
}

func (o *op) call(t *tokenizer.Tokenizer) {
	switch o.kind {
	case 0:
		o.got = t.Tokenize(o.text)
	case 1:
		o.gotW = t.Wakati(o.text)
	default:
		o.got = t.Analyze(o.text, tokenizer.TokenizeMode(o.kind-1))
	}
	o.done = true
}

// check compares the result with the expectation.
func (o *op) check(c *core.Ctx, who string) bool {
	c.Work++
	d := ""
	if o.kind == 1 {
		d = real.DiffStrings(o.gotW, o.wantW)
	} else {
		d = real.DiffToks(real.Toks(o.got), o.want)
	}
	if d != "" {
		c.Fail("wrong-result", "%s of %s by %s: %s", o.name(), real.Short(o.text), who, d)
		return false
	}
	return true
}

func pickTk(st *simrt.Stream) model.Tk {
	t := model.Tk{D: model.Get(st.N(model.Variants), 0)}
	if st.Chance(1, 2) {
		t.U = model.GetUser(st.N(4))
	}
	t.Omit = st.Chance(1, 3)
	return t
}

func kind(st *simrt.Stream) int { return st.Pick(3, 1, 1, 2, 3) }

// plan makes the operations of a run: tasks x operations.
func plan(c *core.Ctx, tks []model.Tk) [][]*op {
	w := c.W
	tasks, most, size := 1, 1, 8
	shape := w.Pick(180, 120, 90, 10, 1, 1)
	if len(tks) > 10 {
		shape = 4
	}
	switch shape {
	case 0: // a few concurrent calls
		tasks, most = w.Between(2, 4), w.Between(1, 3)
	case 1: // a long history in one task
		tasks, most, size = 1, w.Between(3, 24), 6
	case 2: // many tasks, small texts
		tasks, most, size = w.Between(3, 7), w.Between(1, 2), 3
	case 3: // long texts among short ones
		tasks, most, size = w.Between(1, 2), w.Between(2, 4), 6
	case 4: // a very long history
		tasks, most, size = w.Between(1, 3), w.Between(200, 1500), 2
		c.S.MaxSteps = 200000000
		simrt.Probe("scale.long_history")
	case 5: // texts of many thousand characters, and others after them
		tasks, most, size = w.Between(1, 2), w.Between(2, 3), 6
		c.S.MaxSteps = 2000000000
		simrt.Probe("scale.huge_texts")
	}
	var pool []string
	tests := make([][]*op, tasks)
	for i := range tests {
		n := w.Between(1, most)
		if shape == 4 || shape == 5 {
			n = most/tasks + 1
		}
		for ; n > 0; n-- {
			o := &op{tk: w.N(len(tks)), kind: kind(w)}
			switch {
			case len(pool) > 0 && w.Chance(1, 4):
				o.text = pool[w.N(len(pool))]
			case shape == 3 && w.Chance(1, 2):
				o.text = model.LongText(w, tks[o.tk])
				c.S.MaxSteps = 200000000
			case shape == 5 && w.Chance(2, 3):
				u := model.Text(w, tks[o.tk], size) + "あa" // no long words
				o.text = strings.Repeat(u, w.Between(1500, 6000)/utf8.RuneCountInString(u)+1)
			default:
				o.text = model.Text(w, tks[o.tk], size)
			}
			pool = append(pool, o.text)
			o.expect(tks[o.tk])
			tests[i] = append(tests[i], o)
		}
	}
	c.Shape = simrt.Sprintf("%d task(s) x up to %d calls, %d tokenizer(s), e.g. %s of %s", tasks, most, len(tks), tests[0][0].name(), real.Short(tests[0][0].text))
	return tests
}

func c01(c *core.Ctx) {
	tks := []model.Tk{pickTk(c.W)}
	if c.W.Chance(1, 6) {
		tks = append(tks, tks[0]) // the same settings twice
	}
	var ts []*tokenizer.Tokenizer
	for _, t := range tks {
		ts = append(ts, real.New(t))
	}
	ops := plan(c, tks)
	runOps(c, ts, ops)
}

func runOps(c *core.Ctx, ts []*tokenizer.Tokenizer, ops [][]*op) bool {
	var tasks []*simrt.Task
	for i := range ops {
		list := ops[i]
		tasks = append(tasks, c.S.Go(simrt.Sprintf("caller%d", i), func() {
			for _, o := range list {
				simrt.Point("call")
				o.call(ts[o.tk])
			}
		}))
	}
	if !c.Finish(tasks...) {
		return false
	}
	for i := range ops {
		for k, o := range ops[i] {
			if !o.check(c, simrt.Sprintf("caller%d (call %d)", i, k)) {
				return false
			}
		}
	}
	return true
}

// c02: tokenizers with different settings, created and used concurrently.
func c02(c *core.Ctx) {
	w := c.W
	var tks []model.Tk
	n := w.Between(2, 4)
	many := w.Chance(1, 400)
	if many {
		n = w.Between(20, 600)
		simrt.Probe("scale.many_tokenizers")
	}
	for ; n > 0; n-- {
		t := model.Tk{D: model.Get(w.N(model.Variants), w.N(2))}
		if len(tks) > 0 && w.Chance(1, 3) {
			t.D = tks[0].D // differ only in the user dictionary or options
		}
		if w.Chance(1, 2) {
			t.U = model.GetUser(w.N(4))
			if many {
				t.U = model.GetUser(w.N(40)).Twin()
			}
		} else if many && w.Chance(1, 2) {
			t.D = t.D.Twin()
		}
		t.Omit = w.Chance(1, 2)
		tks = append(tks, t)
	}
	ops := plan(c, tks)
	type data struct {
		of   *op
		got  []tokenizer.TokenData
		feat [][]string
		want []model.TokenData
	}
	late := w.Chance(1, 2) // tokenizers created during the run
	ts := make([]*tokenizer.Tokenizer, len(tks))
	if !late {
		for i := range tks {
			ts[i] = real.New(tks[i])
		}
	}
	datas := make([][]*data, len(ops))
	for i := range ops {
		for _, o := range ops[i] {
			d := &data{of: o}
			for _, k := range o.want {
				d.want = append(d.want, tks[o.tk].Data(k))
			}
			datas[i] = append(datas[i], d)
		}
	}
	var tasks []*simrt.Task
	for i := range ops {
		list := datas[i]
		mine := make([]*tokenizer.Tokenizer, len(tks))
		tasks = append(tasks, c.S.Go(simrt.Sprintf("caller%d", i), func() {
			for _, d := range list {
				simrt.Point("call")
				t := ts[d.of.tk]
				if late {
					if mine[d.of.tk] == nil {
						mine[d.of.tk] = real.New(tks[d.of.tk])
					}
					t = mine[d.of.tk]
				}
				d.of.call(t)
				for _, k := range d.of.got {
					d.got = append(d.got, tokenizer.NewTokenData(k))
					d.feat = append(d.feat, k.Features())
				}
			}
		}))
	}
	if !c.Finish(tasks...) {
		return
	}
	for i := range datas {
		for _, d := range datas[i] {
			who := simrt.Sprintf("caller%d with tokenizer %d (%s)", i, d.of.tk, describe(tks[d.of.tk]))
			if !d.of.check(c, who) {
				return
			}
			for k := range d.got {
				if g, want := model.JSON(d.got[k]), model.JSON(d.want[k]); g != want {
					c.Fail("wrong-data", "token data of %s: %s, expected %s", who, g, want)
					return
				}
				if !real.Same(d.feat[k], d.want[k].Features) {
					c.Fail("wrong-data", "features of %s: %q, expected %q", who, d.feat[k], d.want[k].Features)
					return
				}
				// compared with the one before, and with one of another call
				o, j := d, k-1
				if k == 0 {
					o, j = datas[0][0], 0
				}
				if j >= len(o.got) {
					continue
				}
				a, b, x, y := d.of.got[k], o.of.got[j], d.want[k], o.want[j]
				if a.Equal(b) != (x.ID == y.ID && x.Class == y.Class && x.Surface == y.Surface) || a.EqualFeatures(b) != real.Same(x.Features, y.Features) || a.EqualPOS(b) != real.Same(x.POS, y.POS) {
					c.Fail("wrong-data", "comparison of the token %q of %s with %q: Equal %v, EqualFeatures %v, EqualPOS %v", x.Surface, who, y.Surface, a.Equal(b), a.EqualFeatures(b), a.EqualPOS(b))
					return
				}
			}
		}
	}
	for _, t := range tks {
		if !t.D.Intact() || !t.U.Intact() {
			c.Fail("dictionary-changed", "dictionary of %s has changed", describe(t))
			model.Forget()
			return
		}
	}
}

func describe(t model.Tk) string {
	s := t.D.Name
	if t.U != nil {
		s += "+" + t.U.Name
	}
	if t.Omit {
		s += " omit"
	}
	return s
}

// held is a value a caller keeps, with what it was when it was obtained.
type held struct {
	what string
	now  func() []string // reads the kept value
	was  []string
}

// c03: callers keep results, modify their own copies and look again later.
func c03(c *core.Ctx) {
	w := c.W
	tks := []model.Tk{pickTk(w)}
	if w.Chance(1, 3) {
		tks = append(tks, pickTk(w))
	}
	var ts []*tokenizer.Tokenizer
	for _, t := range tks {
		ts = append(ts, real.New(t))
	}
	ops := plan(c, tks)
	type step struct {
		of     *op
		vandal int // 0 keep, 1 overwrite, 2 append, 3 both
		wants  []want
		picks  []int
		mut    []int
		keep   []held
		bad    string
	}
	steps := make([][]*step, len(ops))
	for i := range ops {
		for _, o := range ops[i] {
			s := &step{of: o, vandal: w.Pick(2, 1, 1, 1)}
			for k := 0; k < 4 && len(o.want) > 0; k++ {
				j := w.N(len(o.want))
				s.picks = append(s.picks, j)
				s.mut = append(s.mut, w.N(8))
				s.wants = append(s.wants, wantOf(tks[o.tk], o.want[j]))
			}
			steps[i] = append(steps[i], s)
		}
	}
	var tasks []*simrt.Task
	for i := range steps {
		list := steps[i]
		tasks = append(tasks, c.S.Go(simrt.Sprintf("caller%d", i), func() {
			for _, s := range list {
				simrt.Point("call")
				s.of.call(ts[s.of.tk])
				if len(s.of.got) != len(s.of.want) {
					continue // reported below
				}
				for k, j := range s.picks {
					tok := s.of.got[j]
					s.keep = append(s.keep, hold(tok)...)
					if s.vandal > 0 {
						if bad := vandalise(tok, s.vandal, s.mut[k]); bad != "" && s.bad == "" {
							s.bad = bad
						}
						simrt.Point("modified")
					}
					if s.bad == "" {
						s.bad = s.wants[k].check(tok)
					}
				}
			}
		}))
	}
	if !c.Finish(tasks...) {
		return
	}
	for i := range steps {
		for _, s := range steps[i] {
			if !s.of.check(c, simrt.Sprintf("caller%d", i)) {
				return
			}
			if s.bad != "" {
				c.Fail("wrong-data", "caller%d, token of %s: %s", i, real.Short(s.of.text), s.bad)
				return
			}
			for _, h := range s.keep {
				c.Work++
				if n := h.now(); !real.Same(n, h.was) {
					c.Fail("kept-value-changed", "%s kept by caller%d was %q and is now %q", h.what, i, h.was, n)
					return
				}
			}
		}
	}
	for _, t := range tks {
		if !t.D.Intact() || !t.U.Intact() {
			c.Fail("dictionary-changed", "dictionary %s has changed", describe(t))
			model.Forget()
			return
		}
	}
	// once more, alone: nothing the callers did may show
	for i := range steps {
		for _, s := range steps[i] {
			if s.of.kind == 1 {
				continue
			}
			s.of.call(ts[s.of.tk])
			if !s.of.check(c, "a later caller") {
				return
			}
			for k, j := range s.picks {
				if bad := s.wants[k].check(s.of.got[j]); bad != "" {
					c.Fail("wrong-data", "a later caller, token of %s: %s", real.Short(s.of.text), bad)
					return
				}
			}
		}
	}
}

// want is what the accessors of a token have to return.
type want struct {
	data model.TokenData
	features, pos,
	utok, uyomi []string
	inflect [2]string
	has     [2]bool
}

func wantOf(t model.Tk, k model.Tok) want {
	r := want{data: t.Data(k), features: t.Features(k), pos: t.POS(k)}
	for i, name := range []string{dict.InflectionalType, dict.InflectionalForm} {
		r.inflect[i], r.has[i] = t.Named(k, name)
	}
	if k.Class == model.User {
		r.utok = append([]string{"+"}, t.U.D.Contents[k.ID].Tokens...)
		r.uyomi = append([]string{"+"}, t.U.D.Contents[k.ID].Yomi...)
	}
	return r
}

func (w *want) check(tok tokenizer.Token) string {
	if f := tok.Features(); !real.Same(f, w.features) {
		return simrt.Sprintf("Features: %s, expected %s", strings.Join(f, "|"), strings.Join(w.features, "|"))
	}
	for _, i := range []int{-1, len(w.features), len(w.features) + 3} {
		if g, ok := tok.FeatureAt(i); ok || g != "" {
			return simrt.Sprintf("FeatureAt(%d): %q of %d features", i, g, len(w.features))
		}
	}
	for i, f := range w.features {
		if g, ok := tok.FeatureAt(i); !ok || g != f {
			return simrt.Sprintf("FeatureAt(%d): %q, expected %q", i, g, f)
		}
	}
	if p := tok.POS(); !real.Same(p, w.pos) {
		return simrt.Sprintf("POS: %s, expected %s", strings.Join(p, "|"), strings.Join(w.pos, "|"))
	}
	if b, ok := tok.InflectionalType(); b != w.inflect[0] || ok != w.has[0] {
		return simrt.Sprintf("InflectionalType: %q, expected %q", b, w.inflect[0])
	}
	if b, ok := tok.InflectionalForm(); b != w.inflect[1] || ok != w.has[1] {
		return simrt.Sprintf("InflectionalForm: %q, expected %q", b, w.inflect[1])
	}
	if b, _ := tok.BaseForm(); b != w.data.BaseForm {
		return simrt.Sprintf("BaseForm: %q, expected %q", b, w.data.BaseForm)
	}
	if b, _ := tok.Reading(); b != w.data.Reading {
		return simrt.Sprintf("Reading: %q, expected %q", b, w.data.Reading)
	}
	if b, _ := tok.Pronunciation(); b != w.data.Pronunciation {
		return simrt.Sprintf("Pronunciation: %q, expected %q", b, w.data.Pronunciation)
	}
	u := tok.UserExtra()
	if (u != nil) != (w.utok != nil) {
		return "UserExtra is there or not"
	}
	if u != nil && (!real.Same(u.Tokens, w.utok[1:]) || !real.Same(u.Readings, w.uyomi[1:])) {
		return simrt.Sprintf("UserExtra: %s %s, expected %s %s", strings.Join(u.Tokens, "|"), strings.Join(u.Readings, "|"), strings.Join(w.utok[1:], "|"), strings.Join(w.uyomi[1:], "|"))
	}
	d := tokenizer.NewTokenData(tok)
	if d.ID != w.data.ID || d.Start != w.data.Start || d.End != w.data.End || d.Surface != w.data.Surface || d.Class != w.data.Class ||
		!real.Same(d.POS, w.data.POS) || !real.Same(d.Features, w.data.Features) || d.BaseForm != w.data.BaseForm || d.Reading != w.data.Reading || d.Pronunciation != w.data.Pronunciation {
		return simrt.Sprintf("token data of %q is wrong: %s", w.data.Surface, strings.Join(d.Features, "|"))
	}
	return ""
}

func snap(l []string) []string {
	ret := make([]string, len(l))
	for i := range l {
		ret[i] = strings.Clone(l[i])
	}
	return ret
}

// hold keeps everything a token offers.
func hold(tok tokenizer.Token) []held {
	f, p, u, d := tok.Features(), tok.POS(), tok.UserExtra(), tokenizer.NewTokenData(tok)
	str := tok.String()
	sf := []string{tok.Surface, str}
	if v, ok := tok.BaseForm(); ok {
		sf = append(sf, v)
	}
	if v, ok := tok.FeatureAt(1); ok {
		sf = append(sf, v)
	}
	ret := []held{
		{"Features", func() []string { return f }, snap(f)},
		{"POS", func() []string { return p }, snap(p)},
		{"token data features", func() []string { return d.Features }, snap(d.Features)},
		{"token data POS", func() []string { return d.POS }, snap(d.POS)},
		{"string", func() []string { return sf }, snap(sf)},
	}
	if u != nil {
		ret = append(ret, held{"UserExtra tokens", func() []string { return u.Tokens }, snap(u.Tokens)},
			held{"UserExtra readings", func() []string { return u.Readings }, snap(u.Readings)})
	}
	return ret
}

// vandalise modifies what it is given, as a caller may. What else it was
// given must not change; it returns what did.
func vandalise(tok tokenizer.Token, how, which int) string {
	type list struct {
		what string
		call int // lists from one call may overlap
		now  []string
		was  []string
	}
	f, p := tok.Features(), tok.POS()
	d := tokenizer.NewTokenData(tok)
	u := tok.UserExtra()
	all := []list{{"Features", 0, f, nil}, {"POS", 1, p, nil}, {"token data features", 2, d.Features, nil}, {"token data POS", 2, d.POS, nil}}
	if u != nil {
		all = append(all, list{"UserExtra tokens", 3, u.Tokens, nil}, list{"UserExtra readings", 3, u.Readings, nil})
	}
	for i := range all {
		all[i].was = snap(all[i].now)
	}
	var pick []int
	switch which {
	case 0:
		pick = []int{0}
	case 1:
		pick = []int{1}
	case 2:
		pick = []int{2, 3}
	case 3:
		pick = []int{3, 2}
	case 4, 5:
		pick = []int{4, 5}
	default:
		pick = []int{0, 1, 2, 3, 4, 5}
	}
	simrt.Probe("fault.caller_modifies")
	touched := map[int]bool{}
	for _, i := range pick {
		if i >= len(all) {
			continue
		}
		l := all[i].now
		if how&2 != 0 {
			m := append(l, "appended")
			_ = append(m, "appended again")
			for k := range all {
				if !touched[k] && !real.Same(all[k].now, all[k].was) {
					return simrt.Sprintf("%s of the token changed when the caller appended to %s", all[k].what, all[i].what)
				}
			}
		}
		if how&1 != 0 {
			for k := range l {
				l[k] = "overwritten"
			}
			for k := range all {
				if k != i && all[k].call != all[i].call && !touched[k] && !real.Same(all[k].now, all[k].was) {
					return simrt.Sprintf("%s of the token changed when the caller overwrote %s", all[k].what, all[i].what)
				}
			}
			for k := range all {
				if all[k].call == all[i].call {
					touched[k] = true
				}
			}
		}
	}
	return ""
}

// reWriter is a writer that uses the tokenizer while it is written to.
type reWriter struct {
	t    *tokenizer.Tokenizer
	text string
	data []byte
	n    int
}

func (r *reWriter) Write(b []byte) (int, error) {
	r.data = append(r.data, b...)
	r.n++
	if r.n%7 == 3 {
		simrt.Probe("fault.writer_reenters")
		r.t.Tokenize(r.text)
	}
	return len(b), nil
}

// c04: graph exports among analyses.
func c04(c *core.Ctx) {
	w := c.W
	tks := []model.Tk{pickTk(w)}
	if w.Chance(1, 4) {
		tks = append(tks, pickTk(w))
	}
	var ts []*tokenizer.Tokenizer
	for _, t := range tks {
		ts = append(ts, real.New(t))
	}
	type export struct {
		tk, mode int // mode 0: Dot
		text     string
		sink     *simos.Sink
		re       *reWriter
		angry    *angry
		upset    bool // the writer panicked
		want     []model.Tok
		feats    [][]string
		got      []tokenizer.Token
		gotf     [][]string
	}
	var lists [][]*export
	n := w.Between(1, 3)
	for i := 0; i < n; i++ {
		var l []*export
		for k := w.Between(1, 3); k > 0; k-- {
			e := &export{tk: w.N(len(tks)), mode: w.N(4), text: model.Text(w, tks[0], 7)}
			m := e.mode
			if m == 0 {
				m = model.Normal
			}
			t := tks[e.tk]
			t.Omit = false
			for _, k := range t.Analyze(e.text, m) {
				if k.ID != -1 {
					e.want = append(e.want, k)
					e.feats = append(e.feats, t.Features(k))
				}
			}
			e.sink = simos.NewSink(simrt.Sprintf("graph%d.%d", i, k))
			switch c.F.Pick(4, 2, 3, 2, 1) {
			case 1:
				e.sink.Slow = 1 + 1000*1000*1000 // a second per write
			case 2:
				e.sink.FailAt = c.F.N(2000)
				e.sink.Err = errDisk
				e.sink.Once = c.F.Chance(1, 3)
			case 3:
				e.re = &reWriter{t: ts[e.tk], text: model.Text(w, tks[e.tk], 5)}
			case 4:
				e.angry = &angry{after: c.F.N(30)}
			}
			l = append(l, e)
		}
		lists = append(lists, l)
	}
	c.Shape = simrt.Sprintf("%d exporter(s), e.g. %s", n, real.Short(lists[0][0].text))
	var others [][]*op
	for i := w.N(3); i > 0; i-- {
		var l []*op
		for k := w.Between(1, 4); k > 0; k-- {
			o := &op{tk: w.N(len(tks)), kind: kind(w)}
			o.text = model.Text(w, tks[o.tk], 6)
			o.expect(tks[o.tk])
			l = append(l, o)
		}
		others = append(others, l)
	}
	var tasks []*simrt.Task
	for i := range lists {
		l := lists[i]
		tasks = append(tasks, c.S.Go(simrt.Sprintf("exporter%d", i), func() {
			for _, e := range l {
				simrt.Point("call")
				t := ts[e.tk]
				func() {
					var out io.Writer = e.sink
					if e.re != nil {
						out = e.re
					}
					if e.angry != nil {
						out, e.upset = e.angry, true
						defer calm()
					}
					if e.mode == 0 {
						e.got = t.Dot(out, e.text)
					} else {
						e.got = t.AnalyzeGraph(out, e.text, tokenizer.TokenizeMode(e.mode))
					}
					e.upset = false
				}()
				for _, k := range e.got {
					if k.ID != -1 {
						e.gotf = append(e.gotf, k.Features())
					}
				}
			}
		}))
	}
	for i := range others {
		l := others[i]
		tasks = append(tasks, c.S.Go(simrt.Sprintf("caller%d", i), func() {
			for _, o := range l {
				simrt.Point("call")
				o.call(ts[o.tk])
			}
		}))
	}
	if !c.Finish(tasks...) {
		return
	}
	for i := range lists {
		for _, e := range lists[i] {
			if e.upset {
				continue // the panic has reached the caller
			}
			c.Work++
			got := real.Core(real.Toks(e.got))
			if d := real.DiffToks(got, real.Core(e.want)); d != "" {
				c.Fail("wrong-result", "exporter%d, mode %d, graph of %s: %s", i, e.mode, real.Short(e.text), d)
				return
			}
			for k := range e.feats {
				if !real.Same(e.gotf[k], e.feats[k]) {
					c.Fail("wrong-data", "exporter%d, graph of %s: features %q, expected %q", i, real.Short(e.text), e.gotf[k], e.feats[k])
					return
				}
			}
			out := e.sink.Data
			if e.re != nil {
				out = e.re.data
			}
			if e.sink.FailAt >= 0 && e.sink.Failed > 0 || e.angry != nil {
				continue
			}
			for k, tok := range e.got {
				if tok.ID == -1 && tok.Surface != map[bool]string{true: "BOS", false: "EOS"}[k == 0] {
					c.Fail("wrong-result", "exporter%d, mode %d, graph of %s: token %d is %q", i, e.mode, real.Short(e.text), k, tok.Surface)
					return
				}
			}
			m := e.mode
			if m == 0 {
				m = model.Normal
			}
			if err := tks[e.tk].CheckGraph(string(out), e.text, m); err != nil {
				c.Fail("bad-graph", "exporter%d, mode %d, graph of %s: %v", i, e.mode, real.Short(e.text), err)
				return
			}
		}
	}
	for i := range others {
		for _, o := range others[i] {
			if !o.check(c, simrt.Sprintf("caller%d", i)) {
				return
			}
		}
	}
}
