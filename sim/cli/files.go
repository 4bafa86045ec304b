package cli

import (
	"archive/zip"
	"bytes"
	"fmt"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verifsim/core"
	"verifsim/model"
	"verifsim/real"
	"verifsim/simnet"
	"verifsim/simos"
	"verifsim/simrt"
	"verifsim/simsignal"

	"github.com/ikawaha/kagome-dict/dict"
	kagomecli "github.com/ikawaha/kagome/v2"
)

func init() {
	http.SimListen = simnet.Listen
	core.Register("C20", c20)
}

var openErrors = []error{syscall.ENOENT, syscall.EACCES, syscall.EMFILE, syscall.ENFILE, syscall.ELOOP, syscall.EIO}

// spoilt makes a file with the given contents; it is made anew in every run.
func spoilt(name, data string) string {
	name = filepath.Join(core.Scratch, "spoilt-"+name)
	if err := os.WriteFile(name, []byte(data), 0o644); err != nil {
		panic(err)
	}
	return name
}

// trouble is what is wrong with a file that has to be read.
type trouble struct {
	what string
	path string // the file to name instead of the good one
	disk *simos.Disk
}

// diskFault plans how reading a file of that size goes wrong.
func diskFault(c *core.Ctx, path string) *trouble {
	f := c.F
	t := &trouble{path: path, disk: &simos.Disk{FailAt: -1}}
	size := int64(0)
	if fi, err := os.Stat(path); err == nil {
		size = fi.Size()
	}
	if f.Chance(1, 3) {
		t.disk.Short = 1 + f.N(300)
	}
	if f.Chance(1, 2) {
		t.disk.OpenErr = openErrors[f.N(len(openErrors))]
		t.what = fmt.Sprintf("opening fails with %v", t.disk.OpenErr)
		return t
	}
	t.disk.FailAt = int64(f.N(int(size) + 1))
	if f.Chance(1, 5) {
		t.disk.FailAt = 0
	}
	t.disk.Err = inputErrors[f.N(len(inputErrors))]
	t.what = fmt.Sprintf("reading fails at byte %d of %d with %v", t.disk.FailAt, size, t.disk.Err)
	return t
}

// spoilUser damages a user dictionary.
func spoilUser(c *core.Ctx, src string) *trouble {
	f := c.F
	lines := strings.SplitAfter(src, "\n")
	i := f.N(len(lines))
	what := ""
	switch f.Pick(3, 2, 2, 2, 1, 1, 1) {
	case 0:
		what = "torn"
		src = src[:f.N(len(src))]
	case 1:
		what = "a line with fewer columns"
		lines[i] = strings.Replace(lines[i], ",", " ", 1+f.N(3))
		src = strings.Join(lines, "")
	case 2:
		what = "a line twice"
		j := 1 + f.N(len(lines)-1)
		src = strings.Join(lines, "") + lines[j]
	case 3:
		what = "words and readings that do not match"
		src = strings.Join(append(lines[:i:i], append([]string{"壊,壊 れ,コワ,名詞\n"}, lines[i:]...)...), "")
	case 4:
		what = "an endless line"
		c.S.MaxSteps = 600000000
		src = strings.Join(append(lines[:i:i], append([]string{"# " + strings.Repeat("長い行", 65536/9+f.N(3)) + "\n"}, lines[i:]...)...), "")
	case 5:
		what = "not text at all"
		b := make([]byte, 20+f.N(200))
		for k := range b {
			b[k] = byte(f.N(256))
		}
		src = string(b)
	case 6:
		simrt.Probe("fault.is_directory")
		dir := filepath.Join(core.Scratch, "spoilt-directory")
		_ = os.Mkdir(dir, 0o755)
		return &trouble{what: "a directory", path: dir}
	}
	simrt.Probe("fault.damaged_file")
	return &trouble{what: what, path: spoilt("user.txt", src)}
}

// spoilDict damages a dictionary file.
func spoilDict(c *core.Ctx, path string) *trouble {
	f := c.F
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	what := ""
	switch f.Pick(3, 1, 1, 1) {
	case 0:
		what = "torn"
		b = b[:f.N(len(b))]
	case 1:
		what = "not a dictionary"
		b = []byte("# user dictionary\n")
	case 2:
		what = "empty"
		b = nil
	case 3:
		what = "something else in it"
		var z bytes.Buffer
		zw := zip.NewWriter(&z)
		w, err := zw.Create("readme.txt")
		if err == nil {
			_, err = w.Write([]byte("hello"))
		}
		if err == nil {
			err = zw.Close()
		}
		if err != nil {
			panic(err)
		}
		b = z.Bytes()
	}
	simrt.Probe("fault.damaged_file")
	return &trouble{what: what, path: spoilt("system.dict", string(b))}
}

// verdict asks the dictionary library what it says about a file.
func verdict(load func() error) (err error, sane bool) {
	defer func() {
		if recover() != nil {
			err, sane = nil, false
		}
	}()
	return load(), true
}

// c20: files that the command needs and cannot have.
func c20(c *core.Ctx) {
	w, f := c.W, c.F
	k := newCall(c, "tokenize", "tokenize", "sentence", "lattice", "server")
	for i := 0; i+1 < len(k.args); i++ {
		if k.args[i] == "-v" || k.args[i] == "--v" {
			k.args[i] = "-v=true"
		}
	}
	var user, system string // the files named by the arguments
	if k.tk.U != nil {
		user = userFile(k.tk.U)
	}
	for _, a := range k.args {
		if strings.HasSuffix(a, ".dict") {
			system = a[strings.Index(a, core.Scratch):]
		}
	}
	if k.cmd == "server" {
		k.args = []string{"server", "-http=:6060"}
		if w.Chance(1, 3) {
			k.args = append(k.args, flagOf(w, "dict", []string{"ipa", "uni"}[w.N(2)])...)
		}
		k.file, system = "", ""
		user = userFile(model.GetUser(w.N(4)))
		k.args = append(k.args, flagOf(w, "userdict", user)...)
	}
	disks := map[string]*simos.Disk{}
	var all []*trouble
	add := func(old string, t *trouble) {
		all = append(all, t)
		if t.disk != nil {
			disks[t.path] = t.disk
		}
		for i, a := range k.args {
			if strings.HasSuffix(a, old) {
				k.args[i] = a[:len(a)-len(old)] + t.path
			}
		}
	}
	k.input = k.text(c)
	if !k.modelled(k.input) || k.input == "" {
		k.input = "東京。\n大学"
	}
	k.src = arrive(c, "input", k.input, f.Chance(1, 6))
	text := model.Text(w, k.tk, 5)
	if k.cmd == "lattice" {
		k.args = append(k.args, "--", text)
		k.src = &simos.Source{Name: "stdin"}
	}
	none := f.Chance(1, 4) // slow disks and pipes, but nothing fails
	var openErr error
	if !none {
		if user != "" && f.Chance(2, 3) {
			if f.Chance(1, 2) {
				add(user, diskFault(c, user))
			} else {
				src, err := os.ReadFile(user)
				if err != nil {
					panic(err)
				}
				add(user, spoilUser(c, string(src)))
			}
		}
		if system != "" && f.Chance(2, 3) {
			if f.Chance(1, 2) {
				add(system, diskFault(c, system))
			} else {
				add(system, spoilDict(c, system))
			}
		}
		if k.file != "" && f.Chance(2, 3) {
			openErr = openErrors[f.N(len(openErrors))]
		}
	}
	if len(all) == 0 && openErr == nil {
		none = true
	}
	for _, n := range []string{user, system} {
		if n != "" && disks[n] == nil && f.Chance(1, 2) {
			d := &simos.Disk{FailAt: -1, Short: 1 + f.N(40), Delay: time.Duration(f.N(2)*f.N(200)) * time.Millisecond}
			if fi, err := os.Stat(n); err == nil { // it is slow, but not for ever
				d.Delay = min(d.Delay, 20*time.Second/time.Duration(fi.Size()/int64(d.Short)+1))
			}
			disks[n] = d
		}
	}
	k.prepare()
	k.proc.NewSink = func(name string) (*simos.Sink, error) { return simos.NewSink(name), nil }
	if openErr != nil {
		k.proc.OpenErr = map[string]error{k.file: openErr}
	}
	bad := ""
	if openErr != nil {
		bad = fmt.Sprintf("input file: opening fails with %v", openErr)
	}
	clear := openErr != nil || none
	simos.SetDisks(disks)
	defer simos.SetDisks(nil)
	shrink := strings.Contains(strings.Join(k.args, " "), "-simple")
	for _, t := range all {
		delay := time.Duration(0)
		if t.disk != nil {
			delay, t.disk.Delay = t.disk.Delay, 0
		}
		err, sane := verdict(func() error {
			var err error
			switch {
			case strings.HasSuffix(t.path, ".dict") && shrink:
				_, err = dict.LoadShrink(t.path)
			case strings.HasSuffix(t.path, ".dict"):
				_, err = dict.LoadDictFile(t.path)
			default:
				_, err = dict.NewUserDict(t.path)
			}
			return err
		})
		if t.disk != nil {
			t.disk.Reset()
			t.disk.Delay = delay
		}
		if !sane { // nobody can tell what comes of it
			return
		}
		if err != nil {
			bad += fmt.Sprintf(" %s: %s", filepath.Base(t.path), t.what)
			clear = true
		}
	}
	if !clear { // the damage changed nothing that the library would notice
		return
	}
	var args []string
	for _, a := range k.args {
		args = append(args, strings.ReplaceAll(a, core.Scratch, ""))
	}
	what := fmt.Sprintf("kagome %q, input %s, %s", args, real.Short(k.input), bad)
	c.Shape = what
	if k.cmd == "server" {
		serverFiles(c, k, what, bad)
		return
	}
	if !k.run(c) {
		return
	}
	c.Work++
	out := string(k.proc.Stdout.Data)
	if bad == "" {
		if k.cmd == "lattice" {
			if k.proc.ExitCode != 0 {
				c.Fail("exit-status", "%s: status %d, message %q", what, k.proc.ExitCode, k.proc.Stderr.Data)
				return
			}
			if err := k.tk.CheckGraph(out, text, k.mode); err != nil {
				c.Fail("wrong-output", "%s: %v", what, err)
			}
			return
		}
		k.complete(c)
		return
	}
	switch {
	case k.proc.ExitCode == 0:
		c.Fail("failure-hidden", "%s: the status is 0, output %s", what, real.Short(out))
	case len(bytes.TrimSpace(k.proc.Stderr.Data)) == 0:
		c.Fail("no-message", "%s: status %d without a message", what, k.proc.ExitCode)
	case out != "":
		c.Fail("wrong-output", "%s: answers all the same: %s", what, real.Short(out))
	}
}

// serverFiles: the server cannot have its user dictionary, or reads it slowly.
func serverFiles(c *core.Ctx, k *call, what, bad string) {
	simnet.SetPlan(&simnet.Plan{})
	simos.SetProc(k.proc, k.args...)
	defer simos.SetProc(nil)
	t := c.S.Go("main", func() {
		kagomecli.Main()
		k.proc.Exited = true
	})
	until := simrt.Now() + time.Minute
	c.S.Run(func() bool { return t.Done() || simrt.Now() > until || len(simnet.Listeners()) > 0 })
	c.S.Join()
	if c.Failed() {
		return
	}
	c.Work++
	defer func() {
		if !t.Done() && !c.Failed() {
			simsignal.Raise(syscall.SIGTERM)
			until := simrt.Now() + 10*time.Second
			c.S.Run(func() bool { return t.Done() || simrt.Now() > until })
			c.S.Join()
		}
	}()
	switch {
	case bad != "" && len(simnet.Listeners()) > 0:
		c.Fail("failure-hidden", "%s: the server serves without its dictionary", what)
	case bad != "" && !t.Done():
		c.Fail("hang", "%s: the server neither serves nor ends: %s", what, c.S.Describe())
	case bad != "" && k.proc.ExitCode == 0:
		c.Fail("failure-hidden", "%s: the status is 0", what)
	case bad != "" && len(bytes.TrimSpace(k.proc.Stderr.Data)) == 0:
		c.Fail("no-message", "%s: status %d without a message", what, k.proc.ExitCode)
	case bad == "" && t.Done():
		c.Fail("server-ended", "%s: the server ends with status %d, message %q", what, k.proc.ExitCode, k.proc.Stderr.Data)
	case bad == "" && len(simnet.Listeners()) == 0:
		c.Fail("hang", "%s: the server does not listen after a minute: %s", what, c.S.Describe())
	}
}
