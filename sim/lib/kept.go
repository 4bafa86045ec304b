package lib

import (
	"io"
	"runtime"
	"unsafe"
	"weak"

	"verifsim/core"
	"verifsim/model"
	"verifsim/real"
	"verifsim/simos"
	"verifsim/simrt"
	"verifsim/simsync"

	"github.com/ikawaha/kagome/v2/tokenizer"
)

func init() { core.Register("C22", c22).Stalls() }

// tracked is a text whose memory can be looked for after everybody has dropped it.
func tracked(text string) (string, weak.Pointer[byte]) {
	b := make([]byte, len(text)+64) // never shares its memory with other small objects
	copy(b, text)
	return unsafe.String(&b[0], len(text)), weak.Make(&b[0])
}

// visit is one use of the library whose results are all dropped.
type visit struct {
	tk, kind int // kind as for op; 5 and up: graph export
	filter   *anyFilter
	op       int
	text     string
	sink     io.Writer
}

// angry is a writer that panics.
type angry struct{ after int }

type anger struct{}

func (a *angry) Write(b []byte) (int, error) {
	a.after--
	if a.after < 0 {
		simrt.Probe("fault.writer_panics")
		panic(anger{})
	}
	return len(b), nil
}

func calm() {
	if x := recover(); x != nil {
		if _, ok := x.(anger); !ok {
			panic(x)
		}
	}
}

func (v *visit) call(ts []*tokenizer.Tokenizer) {
	defer calm()
	t := ts[v.tk]
	var toks []tokenizer.Token
	switch {
	case v.kind == 0:
		toks = t.Tokenize(v.text)
	case v.kind == 1:
		t.Wakati(v.text)
	case v.kind < 5:
		toks = t.Analyze(v.text, tokenizer.TokenizeMode(v.kind-1))
	case v.kind == 5:
		toks = t.Dot(v.sink, v.text)
	default:
		toks = t.AnalyzeGraph(v.sink, v.text, tokenizer.TokenizeMode(v.kind-5))
	}
	for i, k := range toks {
		if i > 5 {
			break
		}
		_ = tokenizer.NewTokenData(k)
		_ = k.String()
		k.UserExtra()
	}
	if v.filter != nil {
		v.filter.real.use(v.op, &toks)
	}
}

// marks are the digits of words that occur once only.
var marks = [][]string{
	{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"},
	{"東", "京", "都", "日", "本", "国", "大", "学"},
	{"ア", "イ", "ウ", "エ", "カ"},
	{"あ", "い", "う", "の", "は", "す", "も"},
	{"a", "b", "c", "Z"},
	{"東", "ア", "1", "。"},
	{"𠮷", "\xff", "é", "\U0001F600"},
}

// mark is the n-th word with such digits; it has at least ten.
func mark(digits []string, n int) string {
	s := ""
	for i := 0; i < 10 || n > 0; i++ {
		s = digits[n%len(digits)] + s
		n /= len(digits)
	}
	return s
}

// c22: what was analysed is not kept.
func c22(c *core.Ctx) {
	w, f := c.W, c.F
	tks := []model.Tk{pickTk(w)}
	if w.Chance(1, 3) {
		tks = append(tks, pickTk(w))
	}
	var ts []*tokenizer.Tokenizer
	for _, t := range tks {
		ts = append(ts, real.New(t))
	}
	var filters []*anyFilter
	for n := w.N(3); n > 0; n-- {
		fl := makeFilter(w, tks[0])
		fl.real = fl.make()
		filters = append(filters, fl)
	}
	// the visits of every round; only their texts differ
	type plan struct {
		visit
		before, after string
		writer        int
		n             int
		mark          []string
	}
	lists := make([][]*plan, w.Between(1, 3))
	for i := range lists {
		for n := w.Between(1, 5); n > 0; n-- {
			p := &plan{before: model.Text(w, tks[0], 4), after: model.Text(w, tks[0], 3), writer: f.Pick(3, 1, 1), n: f.N(40), mark: marks[w.N(len(marks))]}
			p.tk, p.kind = w.N(len(tks)), w.N(9)
			if len(filters) > 0 && w.Chance(1, 2) {
				p.filter, p.op = filters[w.N(len(filters))], w.N(4)
			}
			lists[i] = append(lists[i], p)
		}
	}
	c.Shape = simrt.Sprintf("%d task(s), %d filters, e.g. %s and %s around a number", len(lists), len(filters), real.Short(lists[0][0].before), real.Short(lists[0][0].after))
	c.S.MaxSteps = 600000000
	var all []weak.Pointer[byte]
	count, kept := 0, 0
	surely := w.Chance(1, 6) // some stores only take what comes twice, or begin later
	for round := 0; round < 40; round++ {
		times := 1
		if round > 1 {
			times = 30
		}
		if round > 5 { // more than what a store of sensible size would hold
			times = 250
		}
		var tasks []*simrt.Task
		for i := range lists {
			var todo []*visit
			for k := 0; k < times; k++ {
				for _, p := range lists[i] {
					v := p.visit
					count++
					text, ptr := tracked(p.before + mark(p.mark, count) + p.after)
					v.text = text
					all = append(all, ptr)
					switch p.writer {
					case 0:
						v.sink = io.Discard
					case 1:
						s := simos.NewSink("graph")
						s.FailAt, s.Err = p.n*10, errDisk
						v.sink = s
					case 2:
						v.sink = &angry{after: p.n}
					}
					todo = append(todo, &v)
				}
			}
			tasks = append(tasks, c.S.Go(simrt.Sprintf("caller%d", i), func() {
				for k, v := range todo {
					simrt.Point("call")
					v.call(ts)
					*v = visit{}
					todo[k] = nil
				}
			}))
		}
		if !c.Finish(tasks...) {
			return
		}
		simsync.Purge()
		runtime.GC()
		runtime.GC()
		left := all[:0]
		for _, p := range all {
			if p.Value() != nil {
				left = append(left, p)
			}
		}
		all = left
		c.Work++
		// a little may stay, and a store of limited size may fill up
		if (len(all) == 0 || round > 0 && len(all) <= kept) && (!surely || round > 2) {
			return
		}
		kept = len(all)
		if round == 3 {
			simrt.Probe("growth.suspected")
		}
	}
	c.Fail("kept", "after %d analyses whose texts and results nobody holds any more, %d of the texts are still in memory, and more after every round", count, kept)
}
