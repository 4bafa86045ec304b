// Package cli holds the scenarios for the command line: the real main runs in
// a simulated process with simulated streams and files.
package cli

import (
	"archive/zip"
	"bytes"
	"fmt"
	"log"
	"os"
	"strings"
	"syscall"
	"time"

	"verifsim/core"
	"verifsim/model"
	"verifsim/real"
	"verifsim/simdict"
	"verifsim/simos"
	"verifsim/simrt"

	"github.com/ikawaha/kagome-dict/dict"
	kagomecli "github.com/ikawaha/kagome/v2"
)

func init() {
	core.Register("C08", c08)
	core.Register("C09", c09).Stalls()
	core.Register("C10", c10).Stalls()
	core.Register("C11", c11).Stalls()
}

// call is one invocation of the command line.
type call struct {
	cmd     string // tokenize, sentence or lattice
	args    []string
	tk      model.Tk
	mode    int
	json    bool
	split   bool
	file    string // input file, or "" for standard input
	out     string // lattice: output file
	verbose bool   // lattice: lists the tokens
	input   string

	ipa, uni *model.Dic
	known    map[string]string
	proc     *simos.Proc
	src      *simos.Source
}

var modeNames = []string{"normal", "search", "extended"}

func flagOf(w *simrt.Stream, name, value string) []string {
	dash := "-"
	if w.Chance(1, 4) {
		dash = "--"
	}
	if value == "true" {
		if w.Chance(1, 4) {
			return []string{dash + name + "=true"}
		}
		return []string{dash + name}
	}
	if w.Chance(1, 3) {
		return []string{dash + name + "=" + value}
	}
	return []string{dash + name, value}
}

// newCall chooses a command and its options.
func newCall(c *core.Ctx, cmds ...string) *call {
	w := c.W
	log.SetOutput(simos.Stderr)
	log.SetFlags(log.LstdFlags)
	k := &call{cmd: cmds[w.N(len(cmds))], mode: model.Normal}
	k.ipa, k.uni = model.Get(w.N(model.Variants), 0), model.Get(w.N(model.Variants), 1)
	k.tk.D = k.ipa
	simple := false
	var args []string
	if k.cmd != "sentence" {
		if w.Chance(1, 2) {
			k.mode = 1 + w.N(3)
			args = append(args, flagOf(w, "mode", modeNames[k.mode-1])...)
		}
		if w.Chance(1, 3) {
			k.tk.U = model.GetUser(w.N(4))
			args = append(args, flagOf(w, "udict", userFile(k.tk.U))...)
		}
	}
	switch k.cmd {
	case "lattice":
		if w.Chance(1, 3) {
			k.tk.D = k.uni
			args = append(args, flagOf(w, "dict", "uni")...)
		} else if w.Chance(1, 3) {
			args = append(args, flagOf(w, "dict", "ipa")...)
		}
		if w.Chance(1, 3) {
			k.verbose = true
			args = append(args, flagOf(w, "v", "true")...)
		}
	case "tokenize":
		if w.Chance(1, 3) {
			simple = true
			args = append(args, flagOf(w, "simple", "true")...)
		}
		if w.Chance(1, 2) {
			k.json = true
			args = append(args, flagOf(w, "json", "true")...)
		}
		if w.Chance(1, 3) {
			k.split = true
			args = append(args, flagOf(w, "split", "true")...)
		}
		switch w.Pick(6, 2, 2, 1) {
		case 1:
			k.tk.D = k.uni
			args = append(args, flagOf(w, "sysdict", "uni")...)
		case 2:
			args = append(args, flagOf(w, "sysdict", "ipa")...)
		case 3:
			k.tk.D = model.Get(w.N(model.Variants), 2)
			if k.tk.D.D.Contents == nil { // the dictionary library cannot save that
				k.tk.D = model.Get(0, 2)
			}
			args = append(args, flagOf(w, "dict", dictFile(k.tk.D))...)
		}
		if simple {
			k.tk.D = k.tk.D.Shrink()
		}
	}
	if k.cmd != "lattice" && w.Chance(1, 3) {
		k.file = "in put.txt"
		args = append(args, flagOf(w, "file", k.file)...)
	}
	k.args = args
	if k.cmd != "tokenize" || w.Chance(2, 3) {
		k.args = append([]string{k.cmd}, args...)
	}
	return k
}

// dictFile writes a dictionary to a real file: it is read by a library that is not simulated.
func dictFile(d *model.Dic) string {
	return core.File(d.Name+".dict", func() []byte {
		var b bytes.Buffer
		z := zip.NewWriter(&b)
		if err := d.D.Save(z); err != nil {
			panic(err)
		}
		if err := z.Close(); err != nil {
			panic(err)
		}
		return b.Bytes()
	})
}

func userFile(u *model.UDic) string {
	return core.File(u.Name+".txt", func() []byte { return []byte(u.Source) })
}

// text makes an input of lines and sentences.
func (k *call) text(c *core.Ctx) string {
	w, kk := c.W, k.tk
	var b strings.Builder
	end := func() string { return []string{"\n", "\r\n", "\n\n", "。\n", "", "。"}[w.Pick(6, 2, 1, 2, 1, 2)] }
	n, texts := w.Between(0, 6), []string(nil)
	if w.Chance(1, 300) {
		n = w.Between(100, 1500)
		c.S.MaxSteps = 600000000
		for k := 0; k < 300; k++ {
			texts = append(texts, model.Text(w, kk, 3))
		}
		simrt.Probe("scale.many_lines")
	}
	for ; n > 0; n-- {
		if texts != nil {
			b.WriteString(texts[w.N(1+w.N(len(texts)))])
			b.WriteString("\n")
			continue
		}
		switch w.Pick(14, 7, 1) {
		case 0:
			b.WriteString(model.Text(w, k.tk, 5))
		case 1:
			b.WriteString(model.SentenceText(w, 5))
		case 2: // longer than one read
			c.S.MaxSteps = 600000000
			t := model.Text(w, k.tk, 6) + "あ"
			b.WriteString(strings.Repeat(t, 1+4200/len(t)))
		}
		b.WriteString(end())
	}
	s := b.String()
	if strings.HasSuffix(s, "\r") { // whether that is one more line is left open
		s += "\n"
	}
	return s
}

// units are the lines or sentences of an input.
func (k *call) units(text string) []string {
	if k.split || k.cmd == "sentence" {
		return model.DefaultSplitter.Split(text)
	}
	var ret []string
	for len(text) > 0 {
		line, rest, _ := strings.Cut(text, "\n")
		ret = append(ret, strings.TrimSuffix(line, "\r"))
		text = rest
	}
	return ret
}

// due are the units that a prefix of the input already determines.
func (k *call) due(prefix string) []string {
	if k.split || k.cmd == "sentence" {
		return model.DefaultSplitter.Certain(prefix)
	}
	return k.units(prefix[:strings.LastIndex(prefix, "\n")+1])
}

// modelled tells whether the reference splitter, which knows no limit for the
// tail of a sentence, can be asked.
func (k *call) modelled(text string) bool {
	if !k.split && k.cmd != "sentence" {
		return true
	}
	gap := 0
	for _, r := range text {
		if strings.ContainsRune(" 　\t\n\r\v\u2028\u0085\u00a0", r) || strings.ContainsRune(model.DefaultSplitter.Delim+model.DefaultSplitter.Follower, r) {
			if gap++; gap > 500 {
				return false
			}
		} else {
			gap = 0
		}
	}
	return true
}

// answer is the expected output for a unit.
func (k *call) answer(unit string) string {
	if a, ok := k.known[unit]; ok {
		return a
	}
	a := k.compute(unit)
	if k.known == nil {
		k.known = map[string]string{}
	}
	k.known[unit] = a
	return a
}

func (k *call) compute(unit string) string {
	if k.cmd == "sentence" {
		return unit + "\n"
	}
	toks := k.tk.Analyze(unit, k.mode)
	var b strings.Builder
	if k.json {
		b.WriteString("[\n")
		first := true
		for _, t := range toks {
			if t.Class == model.Dummy {
				continue
			}
			if !first {
				b.WriteString(",\n")
			}
			first = false
			b.WriteString(model.JSON(k.tk.Data(t)))
		}
		b.WriteString("\n]\n")
		return b.String()
	}
	for _, t := range toks {
		if t.ID == -1 {
			continue
		}
		b.WriteString(t.Surface)
		if t.Class != model.Dummy {
			b.WriteString("\t" + strings.Join(k.tk.Features(t), ","))
		}
		b.WriteString("\n")
	}
	b.WriteString("EOS\n")
	return b.String()
}

func (k *call) answers(units []string) string {
	var b strings.Builder
	for _, u := range units {
		b.WriteString(k.answer(u))
	}
	return b.String()
}

// prepare makes the process: the input arrives as planned.
func (k *call) prepare() {
	simdict.Source = func(name string) *dict.Dict {
		switch name {
		case "ipa":
			return k.ipa.D
		case "ipa-shrink":
			return k.ipa.Shrink().D
		case "uni":
			return k.uni.D
		}
		return k.uni.Shrink().D
	}
	k.proc = &simos.Proc{Stdin: k.src, Stdout: simos.NewSink("stdout"), Stderr: simos.NewSink("stderr")}
	if k.file != "" {
		k.proc.Stdin = &simos.Source{Name: "stdin"}
		k.proc.Sources = map[string]*simos.Source{k.file: k.src}
	}
}

// start runs main; it returns false if the run already failed.
func (k *call) run(c *core.Ctx) bool {
	simos.SetProc(k.proc, k.args...)
	t := c.S.Go("main", func() {
		kagomecli.Main()
		if !k.proc.Exited {
			k.proc.Exited = true
			simrt.Trace("main returns")
		}
	})
	ok := c.Finish(t)
	simos.SetProc(nil)
	return ok
}

func (k *call) String() string { return fmt.Sprintf("kagome %q", k.args) }

// arrive plans how the input arrives; pauses only if wanted.
func arrive(c *core.Ctx, name, text string, pauses bool) *simos.Source {
	f := c.F
	s := &simos.Source{Name: name, EndWithData: f.Chance(1, 4)}
	style := f.Pick(2, 3, 2, 2)
	total := len(text)
	for len(text) > 0 {
		n := len(text)
		switch style {
		case 0:
		case 1:
			n = 1 + f.N(12)
		case 2:
			n = 1 + f.N(300)
		case 3: // lines, or around their ends
			if i := strings.Index(text, "\n"); i >= 0 {
				n = i + f.N(3)
			}
		}
		if n < 1 {
			n = 1
		}
		if total > 3000 && n < 2000 {
			n += 2000
		}
		if total > 20000 && n < 12000 { // the splitter looks at all of it again after each read
			n += 12000
		}
		if n > len(text) {
			n = len(text)
		}
		ch := simos.Chunk{Data: []byte(text[:n])}
		if pauses && f.Chance(1, 2) {
			ch.Pause = time.Duration(1+f.N(5000)) * time.Millisecond
		}
		if !pauses && f.Chance(1, 40) {
			s.Chunks = append(s.Chunks, simos.Chunk{})
		}
		s.Chunks = append(s.Chunks, ch)
		text = text[n:]
	}
	if len(s.Chunks) > 1 {
		simrt.Probe("fault.cut_reads")
	}
	if pauses {
		s.Chunks = append(s.Chunks, simos.Chunk{Pause: time.Hour / 12}) // the producer stays silent before it ends
		s.EndWithData = false
	}
	return s
}

func differ(got, want string) string {
	n := 0
	for n < len(got) && n < len(want) && got[n] == want[n] {
		n++
	}
	lo := max(0, n-40)
	return fmt.Sprintf("output of %d bytes, expected %d, differs at byte %d: ...%q, expected ...%q", len(got), len(want), n, got[lo:min(len(got), n+60)], want[lo:min(len(want), n+60)])
}

func c08(c *core.Ctx) {
	k := newCall(c, "tokenize", "tokenize", "sentence")
	k.input = k.text(c)
	if !k.modelled(k.input) {
		k.input = ""
	}
	k.src = arrive(c, "input", k.input, true)
	c.Shape = fmt.Sprintf("%v, input %s in %d pieces", k, real.Short(k.input), len(k.src.Chunks))
	k.prepare()
	bad := ""
	k.src.OnPause = func(got int) {
		want := k.answers(k.due(k.input[:got]))
		c.Work++
		simrt.Probe("pause.checked")
		if out := string(k.proc.Stdout.Data); !strings.HasPrefix(out, want) && bad == "" {
			bad = fmt.Sprintf("the producer pauses after %s (%d of %d bytes); due: %s", real.Short(k.input[:got]), got, len(k.input), differ(out, want))
		}
	}
	if !k.run(c) {
		return
	}
	if bad != "" {
		c.Fail("answer-withheld", "%v: %s", k, bad)
	}
}

func c09(c *core.Ctx) {
	k := newCall(c, "tokenize", "tokenize", "tokenize", "sentence")
	k.input = k.text(c)
	if !k.modelled(k.input) {
		k.input = ""
	}
	k.src = arrive(c, "input", k.input, c.F.Chance(1, 4))
	c.Shape = fmt.Sprintf("%v, input %s in %d pieces", k, real.Short(k.input), len(k.src.Chunks))
	k.prepare()
	if c.F.Chance(1, 4) {
		k.proc.Stdout.Slow = time.Duration(c.F.N(1000)) * time.Millisecond
	}
	if !k.run(c) {
		return
	}
	c.Work++
	k.complete(c)
}

// complete checks a run that had no reason to fail.
func (k *call) complete(c *core.Ctx) bool {
	if k.proc.ExitCode != 0 {
		c.Fail("exit-status", "%v, input %s: status %d, message %q", k, real.Short(k.input), k.proc.ExitCode, k.proc.Stderr.Data)
		return false
	}
	if want := k.answers(k.units(k.input)); string(k.proc.Stdout.Data) != want {
		c.Fail("wrong-output", "%v, input %s: %s", k, real.Short(k.input), differ(string(k.proc.Stdout.Data), want))
		return false
	}
	return true
}

var inputErrors = []error{syscall.EIO, syscall.EISDIR, syscall.ESTALE, syscall.ENXIO, os.ErrDeadlineExceeded}

func c10(c *core.Ctx) {
	k := newCall(c, "tokenize", "tokenize", "sentence")
	k.input = k.text(c)
	if !k.modelled(k.input) {
		k.input = "あ。\n"
	}
	f := c.F
	kind := f.Pick(30, 1, 4)
	if kind == 2 && k.file == "" {
		kind = 0
	}
	long := 0
	whole := k.input
	switch kind {
	case 0: // reading fails
		n := f.N(len(k.input) + 1)
		if f.Chance(1, 3) {
			if i := strings.Index(k.input[n:], "\n"); i >= 0 {
				n += i + f.N(2)
			}
		}
		k.input = k.input[:n]
	case 1: // a line that is too long
		c.S.MaxSteps = 6000000000
		filler := []string{"あ", "a", "a ", " ", "あい"}[f.N(5)]
		size := []int{65536, 65535, 65537, 66000, 70000, 131072}[f.N(6)] + f.N(3)
		if i := strings.LastIndex(k.input, "\n"); i >= 0 {
			k.input = k.input[:i+1]
		} else {
			k.input = ""
		}
		long = len(k.input)
		k.input += strings.Repeat(filler, size/len(filler)+1)
		if f.Chance(1, 2) {
			k.input += "\nあ。\n"
		}
		simrt.Probe("fault.long_line")
	}
	k.src = arrive(c, "input", k.input, f.Chance(1, 4))
	if kind == 0 {
		k.src.End = inputErrors[f.N(len(inputErrors))]
	}
	k.prepare()
	if kind == 2 {
		k.proc.OpenErr = map[string]error{k.file: []error{syscall.ENOENT, syscall.EACCES, syscall.EMFILE}[f.N(3)]}
	}
	c.Shape = fmt.Sprintf("%v, input %s, %s", k, real.Short(k.input), []string{"reading fails at its end", "line too long", "file cannot be opened"}[kind])
	if !k.run(c) {
		return
	}
	c.Work++
	out := string(k.proc.Stdout.Data)
	loud := k.proc.ExitCode != 0 && len(bytes.TrimSpace(k.proc.Stderr.Data)) > 0
	what := fmt.Sprintf("%v: %s", k, real.Short(whole))
	switch kind {
	case 2:
		if !loud {
			c.Fail("failure-hidden", "%s: the file cannot be opened: status %d, message %q", what, k.proc.ExitCode, k.proc.Stderr.Data)
		} else if out != "" {
			c.Fail("wrong-output", "%s: output %q without input", what, out)
		}
	case 0:
		if k.src.Ended && !loud {
			c.Fail("failure-hidden", "%s: reading fails after %d bytes: status %d, message %q", what, len(k.input), k.proc.ExitCode, k.proc.Stderr.Data)
			return
		}
		if !k.src.Ended {
			c.Fail("failure-hidden", "%s: input was not read to its end, status %d", what, k.proc.ExitCode)
			return
		}
		k.between(c, out, k.due(k.input), k.units(k.input), fmt.Sprintf("%s: reading fails after %d bytes", what, len(k.input)))
	case 1:
		if loud {
			before := k.input[:long]
			k.between(c, out, k.due(before), k.units(k.input), what+": before the long line")
			return
		}
		k.complete(c)
	}
}

// between checks that the output consists of the answers to all due units,
// followed by answers to some of the others, in order.
func (k *call) between(c *core.Ctx, out string, due, all []string, what string) {
	want := k.answers(due)
	if !strings.HasPrefix(out, want) {
		c.Fail("answers-lost", "%s: %s", what, differ(out, want))
		return
	}
	rest := out[len(want):]
	for i := len(due); rest != "" && i < len(all); i++ {
		a := k.answer(all[i])
		if !strings.HasPrefix(rest, a) {
			c.Fail("wrong-output", "%s: after the answers due: %s", what, differ(rest, a))
			return
		}
		rest = rest[len(a):]
	}
	if rest != "" {
		c.Fail("wrong-output", "%s: unexpected output %q", what, rest)
	}
}

var outputErrors = []error{syscall.ENOSPC, syscall.EIO, syscall.EDQUOT, syscall.EBADF, syscall.EFBIG}

func c11(c *core.Ctx) {
	k := newCall(c, "tokenize", "tokenize", "sentence", "lattice")
	f := c.F
	if k.cmd == "lattice" {
		latticeOut(c, k)
		return
	}
	k.input = k.text(c)
	if !k.modelled(k.input) || k.input == "" {
		k.input = "東京。\n大学"
	}
	k.src = arrive(c, "input", k.input, f.Chance(1, 6))
	k.prepare()
	want := k.answers(k.units(k.input))
	out := k.proc.Stdout
	planOut(c, out, len(want))
	c.Shape = fmt.Sprintf("%v, input %s, output fails at byte %d of %d (%v)", k, real.Short(k.input), out.FailAt, len(want), out.Err)
	if !k.run(c) {
		return
	}
	c.Work++
	k.delivered(c, out, func(got string) string {
		if got != want {
			return differ(got, want)
		}
		return ""
	}, func(got string) string {
		if !strings.HasPrefix(want, got) {
			return differ(got, want)
		}
		return ""
	})
}

func planOut(c *core.Ctx, out *simos.Sink, size int) {
	f := c.F
	out.Err = outputErrors[f.N(len(outputErrors))]
	if f.Chance(7, 8) {
		switch f.Pick(4, 1, 1, 1) {
		case 0:
			out.FailAt = f.N(size + 1)
		case 1:
			out.FailAt = 0
		case 2:
			out.FailAt = max(0, size-1-f.N(3))
		case 3:
			out.FailAt = min(size, 4096*(1+f.N(3)))
		}
		out.Once = f.Chance(1, 3)
	}
	if f.Chance(1, 6) {
		out.Slow = time.Duration(f.N(1000)) * time.Millisecond
	}
}

// delivered checks exit status and message against what happened to the output.
func (k *call) delivered(c *core.Ctx, out *simos.Sink, full, part func(string) string) {
	got := string(out.Data)
	if k.proc.ExitCode == 0 {
		if out.Failed > 0 {
			c.Fail("failure-hidden", "%v, input %s: output failed (%v, close: %v) after %d bytes but the status is 0", k, real.Short(k.input), out.Err, out.CloseErr, len(got))
			return
		}
		if d := full(got); d != "" {
			c.Fail("failure-hidden", "%v, input %s: status 0 with incomplete output: %s", k, real.Short(k.input), d)
		}
		return
	}
	if out.Failed == 0 {
		c.Fail("exit-status", "%v, input %s: status %d without a failure, message %q", k, real.Short(k.input), k.proc.ExitCode, k.proc.Stderr.Data)
		return
	}
	if len(bytes.TrimSpace(k.proc.Stderr.Data)) == 0 {
		c.Fail("no-message", "%v, input %s: status %d without a message", k, real.Short(k.input), k.proc.ExitCode)
		return
	}
	if !out.Once {
		if d := part(got); d != "" {
			c.Fail("wrong-output", "%v, input %s: %s", k, real.Short(k.input), d)
		}
	}
}

// latticeOut: the graph goes to standard output or to a file.
func latticeOut(c *core.Ctx, k *call) {
	f := c.F
	text := model.Text(c.W, k.tk, 6)
	if c.W.Chance(1, 8) {
		text = strings.Repeat(text+"あ", 1+600/(1+len(text)))
		c.S.MaxSteps = 600000000
	}
	var out *simos.Sink
	if f.Chance(2, 3) {
		k.out = "graph.dot"
		k.args = append(k.args, "-output", k.out)
	}
	k.args = append(k.args, "--", text)
	k.input = text
	k.src = &simos.Source{Name: "stdin"}
	k.prepare()
	toks := k.tk.Analyze(text, k.mode)
	size := 400 + 150*len(toks)*3
	open := error(nil)
	if k.out != "" {
		out = simos.NewSink(k.out)
		if f.Chance(1, 8) {
			open = []error{syscall.ENOSPC, syscall.EACCES, syscall.EROFS, syscall.EISDIR}[f.N(4)]
		}
		k.proc.NewSink = func(string) (*simos.Sink, error) { return out, open }
		if f.Chance(1, 3) {
			out.CloseErr = outputErrors[f.N(len(outputErrors))]
		}
	} else {
		out = k.proc.Stdout
	}
	planOut(c, out, size)
	named := out
	if k.out != "" && open == nil && f.Chance(1, 2) { // the file exists already, longer or shorter
		was := *out
		was.Data = []byte(strings.Repeat("of earlier days;\n", f.N(1+size/8)))
		named = &was
		k.proc.Sinks = map[string]*simos.Sink{k.out: named}
		simrt.Probe("fault.output_exists")
	}
	c.Shape = fmt.Sprintf("%v, output fails at byte %d (%v, close: %v, open: %v)", k, out.FailAt, out.Err, out.CloseErr, open)
	if !k.run(c) {
		return
	}
	c.Work++
	if open != nil {
		if k.proc.ExitCode == 0 || len(bytes.TrimSpace(k.proc.Stderr.Data)) == 0 {
			c.Fail("failure-hidden", "%v: the output file cannot be created: status %d, message %q", k, k.proc.ExitCode, k.proc.Stderr.Data)
		}
		return
	}
	if named != out && out.Writes+out.Closed == 0 { // not written anew and renamed
		out = named
	}
	if s := k.proc.Sinks[k.out]; k.out != "" && k.proc.ExitCode == 0 && s != out {
		c.Fail("failure-hidden", "%v, input %s: status 0, but the output file does not hold the output", k, real.Short(k.input))
		return
	}
	k.delivered(c, out, func(got string) string {
		if err := k.tk.CheckGraph(got, text, k.mode); err != nil {
			return err.Error()
		}
		return ""
	}, func(string) string { return "" })
	if c.Failed() || k.proc.ExitCode != 0 {
		return
	}
	want := "" // the list of tokens, if it was asked for
	for i, t := range toks {
		if i == 0 || !k.verbose {
			continue
		}
		want += t.Surface
		if t.Class != model.Dummy {
			want += "\t" + strings.Join(k.tk.Features(t), ",")
		}
		want += "\n"
	}
	if got := string(k.proc.Stderr.Data); got != want {
		c.Fail("wrong-output", "%v, input %s: on standard error %s, expected %s", k, real.Short(k.input), real.Short(got), real.Short(want))
	}
}
