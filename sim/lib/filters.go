package lib

import (
	"os"
	"strings"

	"verifsim/core"
	"verifsim/model"
	"verifsim/real"
	"verifsim/simos"
	"verifsim/simrt"

	"github.com/ikawaha/kagome/v2/filter"
	"github.com/ikawaha/kagome/v2/filter/ja"
	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() {
	core.Register("C17", c17).Stalls()
	core.Register("C19", c19).Stalls()
}

func repo() string {
	if r := os.Getenv("VERIF_REPO"); r != "" {
		return r
	}
	return "/repo"
}

// anyFilter is one filter under test: real, fresh copies of it, and model.
type anyFilter struct {
	kind  int // 0 word, 1 POS, 2 features, 3 japanese, 4 a match function
	words []string
	pats  model.Patterns
	ja    model.Ja
	def   [3]bool // japanese: which parts are the defaults
	clear bool    // the model knows the answer
	real  *realFilter
}

type realFilter struct {
	word *filter.WordFilter
	pos  *filter.POSFilter
	feat *filter.FeaturesFilter
	ja   *ja.Filter
	fn   func(tokenizer.Token) bool
}

var defJa *model.Ja
var defJaOK bool

func makeFilter(w *simrt.Stream, t model.Tk) *anyFilter {
	f := &anyFilter{kind: w.Pick(2, 3, 2, 3, 1)}
	switch f.kind {
	case 0, 4:
		f.words = model.WordsFor(w, t)
		f.clear = true
	case 1, 2:
		f.pats = model.PatternsFor(w)
		f.clear = f.pats.Clear()
	case 3:
		if defJa == nil {
			j, ok := model.DefaultJa(repo())
			defJa, defJaOK = &j, ok
		}
		f.ja = *defJa
		f.clear = defJaOK
		f.def = [3]bool{w.Chance(1, 2), w.Chance(1, 2), w.Chance(1, 2)}
		if !f.def[0] {
			f.ja.Base = model.PatternsFor(w)
		}
		if !f.def[1] {
			f.ja.Stop = model.PatternsFor(w)
		}
		if !f.def[2] {
			f.ja.Words = model.WordsFor(w, t)
		}
		f.clear = f.clear && f.ja.Clear()
	}
	return f
}

// make builds a real filter from private copies of the settings.
func (f *anyFilter) make() *realFilter {
	r := &realFilter{}
	words := append([]string(nil), f.words...)
	switch f.kind {
	case 0:
		r.word = filter.NewWordFilter(words)
	case 1:
		r.pos = filter.NewPOSFilter(clonePats(f.pats)...)
	case 2:
		r.feat = filter.NewFeaturesFilter(clonePats(f.pats)...)
	case 3:
		var opts []ja.FilterOption
		if !f.def[0] {
			opts = append(opts, ja.BaseFormFilterOption(clonePats(f.ja.Base)))
		}
		if !f.def[1] {
			opts = append(opts, ja.StopTagsFilterOption(clonePats(f.ja.Stop)))
		}
		if !f.def[2] {
			opts = append(opts, ja.StopWordsFilterOption(append([]string(nil), f.ja.Words...)))
		}
		var err error
		if r.ja, err = ja.NewFilter(opts...); err != nil || r.ja == nil {
			panic(simrt.Misbehaved(simrt.Sprintf("ja.NewFilter: %v", err)))
		}
	case 4:
		r.fn = func(t tokenizer.Token) bool { return model.Has(words, t.Surface) }
	}
	return r
}

func clonePats(p model.Patterns) [][]string {
	var ret [][]string
	for _, q := range p {
		ret = append(ret, append([]string(nil), q...))
	}
	return ret
}

// use applies a filter: op 0 Match, 1 Keep, 2 Drop, 3 Yield.
func (r *realFilter) use(op int, toks *[]tokenizer.Token) (words []string) {
	in := *toks
	switch {
	case r.ja != nil && (op == 3 || op == 0):
		return r.ja.Yield(in)
	case r.ja != nil:
		r.ja.Drop(toks)
	case op == 0 || op == 3 || r.feat != nil:
		for i := range in {
			m := false
			switch {
			case r.word != nil:
				m = r.word.Match(in[i].Surface)
			case r.pos != nil:
				m = r.pos.Match(in[i].POS())
			case r.feat != nil:
				m = r.feat.Match(in[i].Features())
			default:
				m = r.fn(in[i])
			}
			if m {
				words = append(words, simrt.Sprintf("%d", i))
			}
		}
	case r.word != nil && op == 1:
		r.word.Keep(toks)
	case r.word != nil:
		r.word.Drop(toks)
	case r.pos != nil && op == 1:
		r.pos.Keep(toks)
	case r.pos != nil:
		r.pos.Drop(toks)
	case op == 1:
		filter.Keep(toks, r.fn)
	default:
		filter.Drop(toks, r.fn)
	}
	return words
}

// aside uses what a filter offers besides: its description, and nothing to filter.
func (r *realFilter) aside() string {
	switch {
	case r.ja != nil:
		r.ja.Drop(nil)
		if l := r.ja.Yield(nil); len(l) > 0 {
			return "words of nothing: " + strings.Join(l, " ")
		}
	case r.word != nil:
		r.word.Drop(nil)
		r.word.Keep(nil)
	case r.pos != nil:
		r.pos.Drop(nil)
		r.pos.Keep(nil)
	case r.feat != nil:
		return r.feat.String()
	default:
		filter.Drop(nil, r.fn)
		filter.Keep(nil, r.fn)
	}
	return ""
}

// expect is the model of use: the surviving tokens and the words returned.
func (f *anyFilter) expect(op int, t model.Tk, ks []model.Tok) (left []model.Tok, words []string) {
	match := func(k model.Tok) bool {
		switch f.kind {
		case 0, 4:
			return model.Has(f.words, k.Surface)
		case 1:
			return f.pats.Match(t.POS(k))
		case 2:
			return f.pats.Match(t.Features(k))
		}
		return f.ja.Stops(t, k)
	}
	switch {
	case f.kind == 3 && (op == 3 || op == 0):
		return ks, f.ja.Yield(t, ks)
	case f.kind != 3 && (op == 0 || op == 3 || f.kind == 2):
		for i, k := range ks {
			if match(k) {
				words = append(words, simrt.Sprintf("%d", i))
			}
		}
		return ks, words
	}
	keep := op == 1 && f.kind != 3
	for _, k := range ks {
		if match(k) == keep {
			left = append(left, k)
		}
	}
	return left, nil
}

// c17: shared filters, used by many tasks on their own tokens.
func c17(c *core.Ctx) {
	w := c.W
	t := pickTk(w)
	tz := real.New(t)
	var fs []*anyFilter
	for n := w.Between(1, 3); n > 0; n-- {
		f := makeFilter(w, t)
		f.real = f.make()
		fs = append(fs, f)
	}
	type use struct {
		f       *anyFilter
		op      int
		own     bool // build the filter in the task instead of sharing it
		arr     []tokenizer.Token
		lo, hi  int
		toks    []tokenizer.Token // the caller's slice after the call
		before  []model.Tok       // the whole array before
		want    []model.Tok
		wantW   []string
		got     []model.Tok
		words   []string
		aside   bool
		str     string
		wantStr string
	}
	n, most := w.Between(2, 4), 4
	if w.Chance(1, 300) {
		most = w.Between(50, 700)
		c.S.MaxSteps = 200000000
		simrt.Probe("scale.many_uses")
	}
	uses := make([][]*use, n)
	for i := range uses {
		for k := w.Between(1, most); k > 0; k-- {
			u := &use{f: fs[w.N(len(fs))], op: w.N(4), own: w.Chance(1, 6)}
			text := model.Text(w, t, 8)
			u.arr = append([]tokenizer.Token(nil), tz.Analyze(text, tokenizer.TokenizeMode(1+w.N(3)))...)
			if w.Chance(1, 3) { // part of a larger array
				u.lo = w.N(len(u.arr) + 1)
				u.hi = u.lo + w.N(len(u.arr)-u.lo+1)
			} else {
				u.hi = len(u.arr)
			}
			u.before = real.Toks(u.arr)
			in := u.before[u.lo:u.hi]
			// alone: a fresh filter on a copy
			cp := append([]tokenizer.Token(nil), u.arr[u.lo:u.hi]...)
			u.wantW = u.f.make().use(u.op, &cp)
			u.want = real.Toks(cp)
			if u.aside = w.Chance(1, 3); u.aside {
				u.wantStr = u.f.make().aside()
			}
			if u.f.clear {
				l, ws := u.f.expect(u.op, t, in)
				if d := real.DiffToks(u.want, l); d != "" {
					c.Fail("wrong-result", "filter %d, operation %d, alone on %s: %s", u.f.kind, u.op, real.Short(text), d)
					return
				}
				if !real.Same(ws, u.wantW) {
					c.Fail("wrong-result", "filter %d, operation %d, alone on %s: %q, expected %q", u.f.kind, u.op, real.Short(text), u.wantW, ws)
					return
				}
			}
			uses[i] = append(uses[i], u)
		}
	}
	c.Shape = simrt.Sprintf("%d tasks, %d shared filters (first kind %d), e.g. operation %d on %d tokens", n, len(fs), fs[0].kind, uses[0][0].op, len(uses[0][0].arr))
	var tasks []*simrt.Task
	for i := range uses {
		list := uses[i]
		tasks = append(tasks, c.S.Go(simrt.Sprintf("worker%d", i), func() {
			for _, u := range list {
				simrt.Point("filter")
				r := u.f.real
				if u.own {
					r = u.f.make()
				}
				u.toks = u.arr[u.lo:u.hi]
				u.words = r.use(u.op, &u.toks)
				if u.aside {
					u.str = r.aside()
				}
			}
		}))
	}
	if !c.Finish(tasks...) {
		return
	}
	for i := range uses {
		for _, u := range uses[i] {
			c.Work++
			what := simrt.Sprintf("worker%d, filter kind %d, operation %d", i, u.f.kind, u.op)
			if d := real.DiffToks(real.Toks(u.toks), u.want); d != "" {
				c.Fail("disturbed", "%s: %s", what, d)
				return
			}
			if !real.Same(u.words, u.wantW) {
				c.Fail("disturbed", "%s: got %q, alone %q", what, u.words, u.wantW)
				return
			}
			if u.str != u.wantStr {
				c.Fail("disturbed", "%s: described as %q, alone as %q", what, u.str, u.wantStr)
				return
			}
			now := real.Toks(u.arr)
			for k := range now {
				if (k < u.lo || k >= u.hi) && now[k] != u.before[k] {
					c.Fail("foreign-token-changed", "%s: element %d, outside of the caller's slice [%d:%d], changed from %+v to %+v", what, k, u.lo, u.hi, u.before[k], now[k])
					return
				}
			}
			if u.op == 0 || u.op == 3 || u.f.kind == 2 {
				if d := real.DiffToks(now, u.before); d != "" {
					c.Fail("foreign-token-changed", "%s changed the tokens it only looks at: %s", what, d)
					return
				}
			}
		}
	}
	// afterwards the shared filters answer like fresh ones
	for i := range uses {
		for _, u := range uses[i] {
			a := u.f.real
			cp := append([]tokenizer.Token(nil), tz.Tokenize("東京都のあa1")...)
			cq := append([]tokenizer.Token(nil), cp...)
			w1, w2 := a.use(u.op, &cp), u.f.make().use(u.op, &cq)
			if d := real.DiffToks(real.Toks(cp), real.Toks(cq)); d != "" || !real.Same(w1, w2) {
				c.Fail("history", "filter kind %d gives another result after it was used: %s %q %q", u.f.kind, d, w1, w2)
				return
			}
		}
	}
}

// c19: split, analyse and filter in one pipeline with shared parts.
func c19(c *core.Ctx) {
	w := c.W
	t := pickTk(w)
	tz := real.New(t)
	ms, def := model.SplitterFor(w)
	split := splitFunc(ms, def)
	type stage struct {
		f  *anyFilter
		op int
	}
	var chain []stage
	for n := w.Between(1, 2); n > 0; n-- {
		var f *anyFilter
		for k := 0; f == nil || !f.clear; k++ {
			f = makeFilter(w, t)
			if k > 20 {
				f = &anyFilter{kind: 0, clear: true}
			}
		}
		f.real = f.make()
		chain = append(chain, stage{f, 1 + w.N(2)})
	}
	var yield *anyFilter
	if w.Chance(1, 2) {
		for k := 0; yield == nil || yield.kind != 3; k++ {
			yield = makeFilter(w, t)
			if k > 20 {
				yield = &anyFilter{kind: 3, def: [3]bool{}, clear: true}
			}
		}
		yield.real = yield.make()
		if !yield.clear {
			yield = nil
		}
	}
	type job struct {
		text string
		mode int
		src  *simos.Source
		size int
		want []string
		got  []string
		err  error
		keep []func() []string // what was obtained, looked at again in the end
	}
	n, most := w.Between(2, 4), 2
	if w.Chance(1, 300) {
		most = w.Between(20, 150)
		c.S.MaxSteps = 200000000
		simrt.Probe("scale.many_jobs")
	}
	jobs := make([][]*job, n)
	for i := range jobs {
		for k := w.Between(1, most); k > 0; k-- {
			j := &job{mode: w.N(3), size: bufSize(w)}
			for {
				j.text = ""
				for p := w.Between(1, 4); p > 0; p-- {
					if w.Chance(2, 3) {
						j.text += model.Text(w, t, 4) + []string{"。", "！」", "\n\n", "", "?"}[w.N(5)]
					} else {
						j.text += model.SentenceText(w, 3)
					}
				}
				if short(j.text) {
					break
				}
			}
			j.src = &simos.Source{Name: simrt.Sprintf("text%d.%d", i, k), Chunks: cuts(c.F, j.text), EndWithData: c.F.Chance(1, 3)}
			for _, s := range ms.Split(j.text) {
				toks := t.Analyze(s, 1+j.mode)
				for _, st := range chain {
					toks, _ = st.f.expect(st.op, t, toks)
				}
				if yield != nil {
					j.want = append(j.want, yield.ja.Yield(t, toks)...)
				} else {
					for _, k := range toks {
						j.want = append(j.want, describeTok(k.Surface, t.POS(k)))
					}
				}
				j.want = append(j.want, "/")
			}
			jobs[i] = append(jobs[i], j)
		}
	}
	c.Shape = simrt.Sprintf("%d workers, %d filters, e.g. %s", n, len(chain), real.Short(jobs[0][0].text))
	var tasks []*simrt.Task
	for i := range jobs {
		list := jobs[i]
		tasks = append(tasks, c.S.Go(simrt.Sprintf("worker%d", i), func() {
			for _, j := range list {
				simrt.Point("job")
				j.err = scanAll(j.src, split, j.size, func(s string) {
					toks := tz.Analyze(s, tokenizer.TokenizeMode(1+j.mode))
					for _, st := range chain {
						st.f.real.use(st.op, &toks)
					}
					if yield != nil {
						ws := yield.real.ja.Yield(toks)
						j.got = append(j.got, ws...)
						j.keep = append(j.keep, func() []string { return ws })
					} else {
						ws := func() (ws []string) {
							for _, k := range toks {
								ws = append(ws, describeTok(k.Surface, k.POS()))
							}
							return ws
						}
						j.got = append(j.got, ws()...)
						j.keep = append(j.keep, ws)
					}
					j.got = append(j.got, "/")
				})
			}
		}))
	}
	if !c.Finish(tasks...) {
		return
	}
	for i := range jobs {
		for _, j := range jobs[i] {
			c.Work++
			if j.err != nil {
				c.Fail("split-error", "worker%d, text %s: %v", i, real.Short(j.text), j.err)
				return
			}
			if d := real.DiffStrings(j.got, j.want); d != "" {
				c.Fail("disturbed", "worker%d, text %s: %s", i, real.Short(j.text), d)
				return
			}
			var again []string
			for _, f := range j.keep {
				again = append(append(again, f()...), "/")
			}
			if d := real.DiffStrings(again, j.want); d != "" {
				c.Fail("changed-later", "worker%d, text %s, looked at again in the end: %s", i, real.Short(j.text), d)
				return
			}
		}
	}
}

func describeTok(surface string, pos []string) string {
	return surface + " (" + strings.Join(pos, "-") + ")"
}
