// Package core runs scenarios: one seed, one simulated run, one verdict.
package core

import (
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"verifsim/proto"
	"verifsim/simos"
	"verifsim/simrt"
)

// Ctx is what a scenario gets.
type Ctx struct {
	S *simrt.Sim
	W *simrt.Stream // workload
	F *simrt.Stream // faults

	Work  int    // how many results were checked
	Shape string // description of the workload of this run
	Race  bool
	Deep  bool

	digest string // see Mark
}

// Mark fixes what the run is compared by with repetitions in other processes:
// what follows depends on the memory of the process.
func (c *Ctx) Mark() { c.digest = c.fingerprint() }

func (c *Ctx) fingerprint() string {
	return fmt.Sprintf("%016x %016x %d %d", c.S.Hash, c.S.C.Hash(), c.S.Steps, simrt.Now())
}

// Fail reports a broken property.
func (c *Ctx) Fail(kind, format string, args ...any) {
	c.S.Fail(kind, fmt.Sprintf(format, args...))
}

// Failed tells whether the property was already found broken in this run.
func (c *Ctx) Failed() bool { return len(c.S.Viol) > 0 }

// Scenario decides one property on one simulated run.
type Scenario struct {
	Property string
	Run      func(c *Ctx)
	stalls   bool
}

// What worker and controller exchange.
type (
	Job    = proto.Job
	Found  = proto.Found
	Result = proto.Result
)

func init() { simrt.Inside = synctest.SimInside }

var registry = map[string]*Scenario{}

// Register adds a scenario.
func Register(property string, run func(c *Ctx)) *Scenario {
	registry[property] = &Scenario{Property: property, Run: run}
	return registry[property]
}

// Stalls lets the process stall in some runs: simulated time passes although
// something could run, also in the middle of a call. Only for scenarios in which
// nothing that the code has to do is tied to a time.
func (sc *Scenario) Stalls() { sc.stalls = true }

// Scratch is a directory of this process for files that have to be real.
var Scratch string

var scratchFiles = map[string]bool{}

// File makes a real file in the scratch directory, once, for code that is not simulated.
func File(name string, data func() []byte) string {
	name = filepath.Join(Scratch, name)
	if !scratchFiles[name] {
		if err := os.WriteFile(name, data(), 0o644); err != nil {
			panic(err)
		}
		scratchFiles[name] = true
	}
	return name
}

func seedOf(job *Job, i int) uint64 {
	return simrt.Mix(simrt.Mix(job.Seed, job.Property), fmt.Sprint(i))
}

type outcome struct {
	s     *simrt.Sim
	c     *Ctx
	viol  *simrt.Violation
	simT  time.Duration
	races string
}

// digest is what the run is compared by.
func (o *outcome) digest() string {
	if o.c != nil && o.c.digest != "" {
		return o.c.digest
	}
	return fmt.Sprintf("%016x %016x %d %d", o.s.Hash, o.s.C.Hash(), o.s.Steps, o.simT)
}

type worker struct {
	t        *testing.T
	job      *Job
	sc       *Scenario
	raceSeen int64
}

func (w *worker) run(ch *simrt.Choices, tracing bool) *outcome {
	o := &outcome{}
	races := simrt.RaceErrors()
	log.SetOutput(io.Discard)
	log.SetFlags(0)
	log.SetPrefix("")
	o.s = simrt.Execute(synctest.SimRun, ch, tracing, func(s *simrt.Sim) {
		o.s = s
		c := &Ctx{S: s, W: ch.Stream("work"), F: ch.Stream("fault"), Race: simrt.RaceEnabled, Deep: w.job.Deep}
		o.c = c
		if w.sc.stalls {
			s.StallSometimes()
		}
		func() {
			defer func() {
				if r := recover(); r != nil {
					if m, ok := r.(simrt.Misbehaved); ok {
						c.Fail("unusable", "%s", string(m))
						return
					}
					if at := codeFrame(string(debug.Stack())); at != "" {
						c.Fail("panic", "%v, %s", r, at)
						return
					}
					// the scenario itself failed: not a verdict about the code
					panic(fmt.Sprintf("harness: %v\n%s", r, debug.Stack()))
				}
			}()
			w.sc.Run(c)
		}()
		o.simT = simrt.Now()
	})
	if len(o.s.Viol) > 0 {
		o.viol = &o.s.Viol[0]
	}
	if simrt.RaceErrors() > races {
		if r := w.raceReport(); r != "" && o.viol == nil {
			o.viol = &simrt.Violation{Kind: "race", Msg: "unsynchronised access\n" + r}
		} else if r == "" {
			o.s.Ignored++
		}
	}
	return o
}

// codeFrame returns where the code under test has panicked, or "" if it was not
// the code under test.
func codeFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	i := len(lines) - 1 // the first panic is the last one in the list
	for i >= 0 && !strings.HasPrefix(lines[i], "panic(") {
		i--
	}
	if i < 0 {
		return ""
	}
	for i += 2; i+1 < len(lines); i += 2 {
		switch {
		case strings.HasPrefix(lines[i], "verifsim/"):
			return ""
		case strings.HasPrefix(lines[i], "github.com/ikawaha/kagome/"):
			at, _, _ := strings.Cut(lines[i], "(")
			return at
		}
	}
	return ""
}

// raceReport returns what the race detector has written about the code under
// test since the last call.
func (w *worker) raceReport() string {
	m, _ := filepath.Glob(w.job.RaceLog + ".*")
	ret := ""
	for _, f := range m {
		fp, err := os.Open(f)
		if err != nil {
			continue
		}
		fp.Seek(w.raceSeen, io.SeekStart)
		b, _ := io.ReadAll(fp)
		fp.Close()
		t := string(b)
		w.raceSeen += int64(len(b))
		for _, r := range strings.Split(t, "WARNING: DATA RACE")[1:] {
			if d := ofTheCode(r); d != "" && ret == "" {
				ret = d
			}
		}
	}
	return ret
}

// ofTheCode condenses a race report, or returns "" if it is not about the code
// under test: the runtime reports some accesses (growing and copying of slices,
// maps) of the harness too, although that is not instrumented.
func ofTheCode(report string) string {
	var out []string
	mine := false
	for _, sec := range strings.Split(report, "\n\n") {
		sec = strings.Trim(sec, "\n= ")
		head, rest, _ := strings.Cut(sec, "\n")
		if !strings.Contains(head, " at 0x") {
			continue
		}
		kind := strings.Fields(head)[0]
		if kind == "Previous" {
			kind += " " + strings.Fields(head)[1]
		}
		out = append(out, kind+":")
		first := true
		frames := 0
		n := 0
		lines := strings.Split(rest, "\n")
		for i := 0; i < len(lines); i++ {
			l := lines[i]
			fn := strings.TrimSpace(l)
			if strings.HasPrefix(l, "      ") || fn == "" {
				continue
			}
			frames++
			if strings.HasPrefix(fn, "runtime.") && first {
				continue
			}
			if first && strings.HasPrefix(fn, "verifsim/") {
				return ""
			}
			first = false
			if strings.Contains(fn, "ikawaha/kagome") {
				mine = true
			}
			if n < 8 && !strings.HasPrefix(fn, "verifsim/simrt") {
				at := ""
				if i+1 < len(lines) {
					at, _, _ = strings.Cut(strings.TrimSpace(lines[i+1]), " ")
				}
				out = append(out, "  "+fn+" "+at)
				n++
			}
		}
		if frames > 0 && first && !strings.Contains(rest, "failed to restore") {
			return "" // nothing but a hook of the runtime: called by the harness
		}
	}
	if !mine {
		return ""
	}
	return strings.Join(out, "\n")
}

func (w *worker) found(i int, seed uint64, o *outcome, ch *simrt.Choices) *Found {
	return &Found{Index: i, Seed: seed, Kind: o.viol.Kind, Msg: o.viol.Msg, Shape: o.c.Shape,
		Record: ch.Record(), Trace: o.s.TraceL, Hash: o.s.Hash}
}

// Main is the body of the worker's only test.
func Main(t *testing.T) {
	path := os.Getenv("VERIF_JOB")
	if path == "" {
		t.Skip("no job")
	}
	b, err := os.ReadFile(path)
	if err != nil {
		t.Fatal(err)
	}
	job := &Job{}
	if err := json.Unmarshal(b, job); err != nil {
		t.Fatal(err)
	}
	log.SetOutput(io.Discard)
	log.SetFlags(0)
	if job.Sites != "" {
		if b, err := os.ReadFile(job.Sites); err == nil {
			sites := strings.Split(string(b), "\n")
			simrt.SiteName = func(s uint32) string {
				if int(s) < len(sites) {
					return sites[s]
				}
				return "?"
			}
		}
	}
	Scratch = job.Scratch
	simos.Scratch = job.Scratch
	sc := registry[job.Property]
	if sc == nil {
		t.Fatalf("no scenario for %s", job.Property)
	}
	w := &worker{t: t, job: job, sc: sc}
	res := &Result{Probes: map[string]int{}}
	start := time.Now()
	switch job.Mode {
	case "replay":
		ch := simrt.ReplayChoices(job.Record)
		o := w.run(ch, true)
		res.Runs = 1
		add(res, o)
		if o.viol != nil {
			res.Found = w.found(0, 0, o, ch)
		}
	case "minimise":
		res.Found = w.minimise(job, start)
	case "batch":
		for k, i := range job.Indices {
			ch := simrt.NewChoices(seedOf(job, i))
			o := w.run(ch, k == len(job.Indices)-1)
			res.Runs++
			add(res, o)
			if o.viol != nil {
				res.Found = w.found(i, ch.Seed, o, ch)
				break
			}
			w.progress(i)
		}
	default:
		var done []int
		for i := job.From; ; i += job.Stride {
			if job.Count > 0 && res.Runs >= job.Count {
				break
			}
			if job.Seconds > 0 && time.Since(start).Seconds() > job.Seconds {
				break
			}
			w.progress(i)
			ch := simrt.NewChoices(seedOf(job, i))
			o := w.run(ch, false)
			res.Runs++
			add(res, o)
			if job.Mode == "hashes" {
				res.First = append(res.First, fmt.Sprintf("%d %s", i, o.digest()))
			}
			done = append(done, i)
			if o.viol != nil {
				res.Found = w.found(i, ch.Seed, o, ch)
				break
			}
		}
	}
	res.Wall = time.Since(start)
	out, _ := json.Marshal(res)
	if err := os.WriteFile(job.Out+".tmp", out, 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.Rename(job.Out+".tmp", job.Out); err != nil {
		t.Fatal(err)
	}
}

func (w *worker) progress(i int) {
	if w.job.Progress != "" {
		_ = os.WriteFile(w.job.Progress, []byte(fmt.Sprint(i)), 0o644)
	}
}

func add(r *Result, o *outcome) {
	s := o.s
	r.Work += o.c.Work
	r.Steps += s.Steps
	r.Switches += s.Switches
	r.Preempts += s.Preempts
	r.SimTime += o.simT
	r.Ignored += s.Ignored
	fault := false
	for k, n := range s.ProbeCounts() {
		r.Probes[k] += n
		if strings.HasPrefix(k, "fault.") {
			fault = true
		}
	}
	if o.c.Work > 0 && (s.Preempts > 0 || fault) {
		r.Nontrivial++
		r.Hashes = append(r.Hashes, s.Hash)
	}
	if len(r.Samples) < 3 && o.c.Shape != "" && (s.Preempts > 0 || fault) {
		r.Samples = append(r.Samples, o.c.Shape)
	}
}

// minimise shrinks the recorded choices while the same kind of violation persists.
func (w *worker) minimise(job *Job, start time.Time) *Found {
	var best *Found
	tries := proto.Minimise(job.Record, time.Duration(job.Seconds*float64(time.Second)), func(rec map[string][]uint32) bool {
		ch := simrt.ReplayChoices(rec)
		o := w.run(ch, false)
		if best == nil && job.Kind != "runaway" {
			simrt.StepCap = 3*o.s.Steps + 1000000 // no attempt may be much longer
		}
		if o.viol == nil || o.viol.Kind != job.Kind {
			return false
		}
		best = w.found(0, 0, o, ch)
		return true
	})
	if best != nil {
		best.Shrinks = tries
	}
	return best
}

// Finish runs the simulation until all tasks are done and reports those that are not.
func (c *Ctx) Finish(tasks ...*simrt.Task) bool {
	c.S.Run(func() bool {
		for _, t := range tasks {
			if !t.Done() {
				return false
			}
		}
		return true
	})
	c.S.Join()
	if c.Failed() {
		return false
	}
	for _, t := range tasks {
		if !t.Done() {
			c.Fail("hang", "%s does not end: %s", t.Name, c.S.Describe())
			return false
		}
	}
	return true
}
