// simctl decides one property: it instruments and builds the current tree of
// the code under test, searches simulated runs on all cores, confirms and
// minimises what it finds and writes the evidence.
//
// Exit status: 0 the property held in every run, 1 it is broken (a VIOLATION
// line names the replay file), anything else: the check itself failed.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifsim/instr"
	"verifsim/proto"
)

var (
	property = flag.String("property", "", "property to decide")
	tier     = flag.String("tier", "quick", "quick or thorough")
	seed     = flag.Uint64("seed", 1, "seed of the search")
	repo     = flag.String("repo", "/repo", "code under test")
	verif    = flag.String("verif", "/verif", "this framework")
	replay   = flag.String("replay", "", "repeat a recorded violation")
	seconds  = flag.Float64("seconds", 0, "length of the search (default by tier)")
	workers  = flag.Int("workers", 8, "worker processes")
	hashes   = flag.Int("hashes", 0, "only test determinism on that many runs")
	only     = flag.String("only", "", "only the plain or only the race build")
	keep     = flag.Bool("keep", false, "keep the build directory")
)

// profile of a property's check.
type profile struct {
	pkg  string
	race bool // also search with the race detector
	real []string
	stub []string
	rule string
}

var dicStub = "system dictionary data: small synthetic dictionaries instead of the 100 MB IPA and UniDic data (same format, same lookup code)"
var syncStub = "package sync: simulated primitives with the same happens-before edges; sync.Pool recycling decided by the simulator"
var netStub = "TCP: simulated listener and connections (package net/http runs unchanged on top)"
var osStub = "process streams, files, exit and environment: simulated (package os)"

var libReal = []string{"tokenizer", "tokenizer/lattice", "tokenizer/lattice/mem", "kagome-dict lookup code"}
var cliReal = []string{"kagome.go (main)", "cmd/tokenize", "cmd/sentence", "cmd/lattice", "filter", "tokenizer", "tokenizer/lattice", "bufio, flag, encoding/json"}
var srvReal = []string{"cmd/server", "tokenizer", "tokenizer/lattice", "net/http, encoding/json, html/template, context, time (on the simulated clock)"}

const ruleTail = " Non-trivial: at least one result was checked and the run had at least one preemption or injected fault. Distinct: by the hash of the whole schedule and event log."

var profiles = map[string]profile{
	"C01": {"lib", true, libReal, []string{dicStub, syncStub}, "Generated texts, modes and options; 1-7 tasks analyse through shared tokenizers; every statement is a possible switch; recycled memory is chosen by the simulator; each result is compared with a reference analyser."},
	"C02": {"lib", true, libReal, []string{dicStub, syncStub}, "2-4 tokenizers with different dictionaries and options, created before or during the run and used concurrently; results, token data and features compared with the reference; dictionaries fingerprinted."},
	"C03": {"lib", true, libReal, []string{dicStub, syncStub}, "Callers keep tokens and what they obtain from them, modify and append to slices they were given, and look again after later analyses."},
	"C04": {"lib", true, libReal, []string{dicStub, syncStub, "writers: simulated, slow, failing or re-entrant"}, "Concurrent graph exports and analyses with slow, failing and re-entrant writers; the graph is parsed and compared with the tokens."},
	"C05": {"lib", false, []string{"filter", "bufio"}, []string{"reader: simulated, cuts reads anywhere"}, "Generated texts and splitter settings; reads cut anywhere, empty reads, data together with end-of-file; compared with splitting the complete text."},
	"C06": {"lib", false, []string{"filter", "bufio"}, []string{"reader: simulated, fails anywhere"}, "As C05 with read failures; the sentences must join to the bytes received."},
	"C07": {"lib", true, []string{"filter", "bufio"}, []string{"readers: simulated"}, "2-4 concurrent scans with one shared splitter; each must give what it gives alone and what the reference gives."},
	"C08": {"cli", false, cliReal, []string{dicStub, osStub, syncStub}, "Input arrives in pieces with pauses; at every pause the output must already hold every answer due."},
	"C09": {"cli", false, cliReal, []string{dicStub, osStub, syncStub}, "All option combinations, inputs cut anywhere; output compared byte by byte with the reference."},
	"C10": {"cli", false, cliReal, []string{dicStub, osStub, syncStub}, "Read errors at any byte and lines that are too long; exit status, message and answers checked."},
	"C11": {"cli", false, cliReal, []string{dicStub, osStub, syncStub}, "Write, short write, close and create errors at any byte of the output; exit status, message and accepted output checked."},
	"C12": {"srv", true, srvReal, []string{dicStub, netStub, syncStub}, "Concurrent clients, keep-alive and pipelining, requests and replies cut anywhere and delayed; each reply compared with the reference."},
	"C13": {"srv", true, srvReal, []string{dicStub, netStub, syncStub}, "Well-behaved clients together with clients that abort, send garbage, stall or stop reading; each reply checked."},
	"C14": {"srv", true, srvReal, []string{dicStub, netStub, syncStub, "graphviz process: simulated (package os/exec)"}, "Concurrent lattice pages while graphviz is missing, fails, crashes, stalls or answers late; every page checked."},
	"C15": {"srv", false, srvReal, []string{dicStub, netStub, syncStub, "signals: simulated (package os/signal)"}, "Context cancellation, signals, listen and accept failures at any moment of the traffic."},
	"C16": {"lib", true, []string{"tokenizer/lattice/mem"}, []string{syncStub}, "2-5 tasks get, use and put back objects of 1-3 pools; each object knows its holder, its pool and what it was put back with."},
	"C17": {"lib", true, []string{"filter", "filter/ja", "tokenizer"}, []string{dicStub, syncStub}, "2-4 tasks use shared and private filters on their own tokens; compared with fresh filters used alone and with a reference; neighbouring tokens must not change."},
	"C18": {"srv", false, srvReal, []string{dicStub, netStub, syncStub}, "Clients that never finish their header next to normal and slow ones, on the simulated clock."},
	"C19": {"lib", true, []string{"filter", "filter/ja", "tokenizer", "tokenizer/lattice", "bufio"}, []string{dicStub, syncStub, "readers: simulated"}, "2-4 workers split, analyse and filter with shared parts; compared with the composed reference models."},
	"C20": {"cli", false, cliReal, []string{dicStub, osStub, syncStub, "files of the dictionary library: real, with faults injected into package os"}, "Input, system and user dictionary files that cannot be opened, fail while read, arrive in small reads, are torn or damaged; exit status, message and output checked, the server must not serve."},
	"C21": {"srv", false, srvReal, []string{dicStub, netStub, syncStub, "graphviz process: simulated (package os/exec)"}, "The same clients, healthy or hostile, come again and again; goroutines, connections, processes and memory are counted when all have been gone for two minutes."},
	"C22": {"lib", true, append([]string{"filter", "filter/ja"}, libReal...), []string{dicStub, syncStub, "writers: simulated, failing or panicking"}, "1-3 tasks analyse, export and filter texts no two of which are alike and drop everything; then the pools are emptied, the garbage is collected and the texts still in memory are counted."},
}

func die(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "simctl: "+format+"\n", args...)
	cleanup()
	os.Exit(3)
}

var (
	dir       string
	procs     sync.Map
	goroot    string
	instrumen *instr.Result
)

func cleanup() {
	procs.Range(func(k, _ any) bool {
		k.(*exec.Cmd).Process.Kill()
		return true
	})
	if dir != "" && !*keep {
		os.RemoveAll(dir)
	}
}

func main() {
	flag.Parse()
	start := time.Now()
	pr, ok := profiles[*property]
	if !ok {
		die("unknown property %q", *property)
	}
	if *seconds == 0 {
		*seconds = 45
		if *tier == "thorough" {
			*seconds = 780
		}
	}
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		die("go: %v", err)
	}
	goroot = strings.TrimSpace(string(out))
	base := filepath.Join(*verif, ".build")
	os.MkdirAll(base, 0o755)
	if dir, err = os.MkdirTemp(base, *property+"-"); err != nil {
		die("%v", err)
	}
	var rp *replayFile
	variants := []string{"plain"}
	if pr.race {
		variants = append(variants, "race")
	}
	if *only != "" {
		variants = []string{*only}
	}
	if *replay != "" {
		rp = readReplay(*replay)
		variants = []string{rp.Build}
	}
	prepare(pr, variants)
	built := time.Since(start)
	if rp != nil {
		code := doReplay(pr, rp)
		cleanup()
		os.Exit(code)
	}
	if *hashes > 0 {
		n, bad := determinism(pr, variants, *hashes, true)
		fmt.Printf("determinism: %d runs compared, %d differ\n", n, bad)
		cleanup()
		if bad > 0 {
			os.Exit(3)
		}
		return
	}
	s := search(pr, variants)
	code := 0
	violations := 0
	if s.found != nil {
		if path := confirm(pr, s); path != "" {
			code, violations = 1, 1
			fmt.Printf("VIOLATION property=%s replay=%s\n", *property, path)
		}
	}
	dn, dbad := 0, 0
	if code == 0 {
		n := 24
		if *tier == "thorough" {
			n = 400
		}
		dn, dbad = determinism(pr, variants, n, false)
	}
	evidence(pr, s, violations, built, time.Since(start), dn, dbad)
	if code == 0 {
		fmt.Printf("%s held in %d simulated runs (%d distinct non-trivial, %.0f s)\n", *property, s.sum.Runs, len(s.distinct), time.Since(start).Seconds())
	}
	cleanup()
	os.Exit(code)
}

// prepare instruments the current tree and builds the workers.
func prepare(pr profile, variants []string) {
	instr.SimDir = filepath.Join(*verif, "sim")
	r, err := instr.Generate(*repo, goroot, filepath.Join(dir, "ov"))
	if err != nil {
		die("instrumenting %s: %v", *repo, err)
	}
	instrumen = r
	mod := filepath.Join(dir, "mod")
	os.MkdirAll(mod, 0o755)
	b, err := os.ReadFile(filepath.Join(*verif, "sim", "go.mod"))
	if err != nil {
		die("%v", err)
	}
	b = append(b, []byte("\nreplace github.com/ikawaha/kagome/v2 => "+*repo+"\n")...)
	os.WriteFile(filepath.Join(mod, "go.mod"), b, 0o644)
	if b, err = os.ReadFile(filepath.Join(*repo, "go.sum")); err != nil {
		die("%v", err)
	}
	os.WriteFile(filepath.Join(mod, "go.sum"), b, 0o644)
	var wg sync.WaitGroup
	errs := make([]error, len(variants))
	for i, v := range variants {
		wg.Add(1)
		go func() {
			defer wg.Done()
			args := []string{"test", "-c", "-vet=off", "-modfile=" + filepath.Join(mod, "go.mod"), "-overlay", r.Overlay, "-o", binary(v)}
			if v == "race" {
				args = append(args, "-race", "-gcflags=verifsim/...=-race=false")
			}
			args = append(args, "./"+pr.pkg)
			c := exec.Command("go", args...)
			c.Dir = filepath.Join(*verif, "sim")
			if v == "race" {
				// uninstrumented packages must not bypass the detector's allocation hooks
				c.Env = append(os.Environ(), "GOEXPERIMENT=nosizespecializedmalloc")
			}
			if out, err := c.CombinedOutput(); err != nil {
				errs[i] = fmt.Errorf("%v\n%s", err, out)
			}
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			die("build: %v", e)
		}
	}
}

func binary(variant string) string { return filepath.Join(dir, variant+".test") }

var jobNo int
var jobMu sync.Mutex

// launched is a running worker.
type launched struct {
	job     *proto.Job
	variant string
	cmd     *exec.Cmd
	errFile string
	done    chan error
	limit   time.Duration // without progress
	hung    bool
}

// launch starts a worker process.
func launch(variant string, job *proto.Job) *launched {
	jobMu.Lock()
	jobNo++
	name := filepath.Join(dir, fmt.Sprintf("job%d", jobNo))
	jobMu.Unlock()
	job.Property = *property
	if job.Seed == 0 {
		job.Seed = *seed
	}
	job.Deep = *tier == "thorough"
	job.Out, job.Progress, job.RaceLog = name+".out", name+".progress", name+".race"
	job.Sites = instrumen.SiteFile
	job.Scratch = name + ".scratch"
	os.MkdirAll(job.Scratch, 0o755)
	b, _ := json.Marshal(job)
	if err := os.WriteFile(name+".job", b, 0o644); err != nil {
		die("%v", err)
	}
	l := &launched{job: job, variant: variant, errFile: name + ".err", done: make(chan error, 1), limit: 120 * time.Second}
	f, err := os.Create(l.errFile)
	if err != nil {
		die("%v", err)
	}
	l.cmd = exec.Command(binary(variant), "-test.run", "^TestWorker$", "-test.timeout", "0")
	l.cmd.Dir = job.Scratch
	l.cmd.Env = append(os.Environ(), "VERIF_JOB="+name+".job", "VERIF_REPO="+*repo, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single",
		"GORACE=suppress_equal_stacks=0 suppress_equal_addresses=0 log_path="+job.RaceLog)
	l.cmd.Stdout, l.cmd.Stderr = f, f
	if err := l.cmd.Start(); err != nil {
		die("worker: %v", err)
	}
	procs.Store(l.cmd, true)
	go func() {
		err := l.cmd.Wait()
		f.Close()
		procs.Delete(l.cmd)
		l.done <- err
	}()
	return l
}

// wait waits for the result; nil if the worker crashed or hung.
func (l *launched) wait() *proto.Result {
	last, seen := time.Now(), ""
	for {
		select {
		case <-l.done:
			b, err := os.ReadFile(l.job.Out)
			if err != nil {
				return nil
			}
			r := &proto.Result{}
			if json.Unmarshal(b, r) != nil {
				return nil
			}
			return r
		case <-time.After(250 * time.Millisecond):
			b, _ := os.ReadFile(l.job.Progress)
			if string(b) != seen {
				last, seen = time.Now(), string(b)
			}
			if l.limit > 0 && time.Since(last) > l.limit {
				l.hung = true
				l.cmd.Process.Kill()
				<-l.done
				return nil
			}
		}
	}
}

func (l *launched) index() int {
	b, err := os.ReadFile(l.job.Progress)
	if err != nil {
		return -1
	}
	n, err := strconv.Atoi(strings.TrimSpace(string(b)))
	if err != nil {
		return -1
	}
	return n
}

// crash returns the reason of a crash of the code under test, or "".
func (l *launched) crash() (reason, text string) {
	b, _ := os.ReadFile(l.errFile)
	text = string(b)
	i := strings.Index(text, "panic: ")
	if j := strings.Index(text, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return "", text
	}
	text = text[i:]
	if strings.Contains(text, "harness: ") || strings.Contains(text, "simrt: ") {
		return "", text
	}
	if !strings.Contains(text, "ikawaha/kagome") && !strings.Contains(text, "out of memory") {
		return "", text
	}
	reason, _, _ = strings.Cut(text, "\n")
	if k := strings.Index(reason, " [recovered"); k > 0 {
		reason = reason[:k]
	}
	if len(text) > 3000 {
		text = text[:3000]
	}
	return reason, text
}

// result of a search.
type result struct {
	sum      proto.Result
	distinct map[uint64]bool
	variant  map[string]int
	found    *proto.Found
	by       *launched
	crashed  bool
	wall     time.Duration
}

func merge(sum *proto.Result, r *proto.Result) {
	sum.Runs += r.Runs
	sum.Work += r.Work
	sum.Nontrivial += r.Nontrivial
	sum.Steps += r.Steps
	sum.Switches += r.Switches
	sum.Preempts += r.Preempts
	sum.SimTime += r.SimTime
	sum.Ignored += r.Ignored
	for k, v := range r.Probes {
		sum.Probes[k] += v
	}
	for _, s := range r.Samples {
		if len(sum.Samples) < 6 {
			sum.Samples = append(sum.Samples, s)
		}
	}
}

func search(pr profile, variants []string) *result {
	s := &result{distinct: map[uint64]bool{}, variant: map[string]int{}}
	s.sum.Probes = map[string]int{}
	began := time.Now()
	n := *workers
	type ended struct {
		l *launched
		r *proto.Result
	}
	ch := make(chan ended)
	var ls []*launched
	for i := 0; i < n; i++ {
		v := variants[i%len(variants)]
		l := launch(v, &proto.Job{From: i, Stride: n, Seconds: *seconds})
		ls = append(ls, l)
		go func() { ch <- ended{l, l.wait()} }()
	}
	stopped := false
	for range ls {
		e := <-ch
		if e.r == nil {
			if stopped {
				continue
			}
			if e.l.hung {
				die("worker made no progress on run %d (%s build)", e.l.index(), e.l.variant)
			}
			reason, text := e.l.crash()
			if reason == "" {
				die("worker failed on run %d (%s build):\n%s", e.l.index(), e.l.variant, tailOf(text))
			}
			s.found = &proto.Found{Index: e.l.index(), Kind: "crash", Msg: reason + "\n" + text}
			s.by, s.crashed = e.l, true
		} else {
			if e.r.Error != "" {
				die("worker: %s", e.r.Error)
			}
			merge(&s.sum, e.r)
			s.variant[e.l.variant] += e.r.Runs
			for _, h := range e.r.Hashes {
				s.distinct[h] = true
			}
			if e.r.Found != nil && (s.found == nil || s.crashed) {
				s.found, s.by, s.crashed = e.r.Found, e.l, false
			}
		}
		if s.found != nil && !stopped {
			stopped = true
			time.AfterFunc(1500*time.Millisecond, func() {
				for _, l := range ls {
					l.limit = 0
					l.cmd.Process.Kill()
				}
			})
		}
	}
	s.wall = time.Since(began)
	return s
}

func tailOf(s string) string {
	if len(s) > 4000 {
		return s[:1500] + "\n...\n" + s[len(s)-2500:]
	}
	return s
}

// replayFile repeats a violation exactly.
type replayFile struct {
	Property string       `json:"property"`
	Build    string       `json:"build"` // plain or race
	Mode     string       `json:"mode"`  // choices: one run from its recorded choices; runs: a sequence of runs of one process; crash: a run that ends the process
	Seed     uint64       `json:"seed"`
	Tier     string       `json:"tier"`
	Runs     []int        `json:"runs,omitempty"`
	Kind     string       `json:"kind"`
	Found    *proto.Found `json:"violation"`
}

func readReplay(path string) *replayFile {
	b, err := os.ReadFile(path)
	if err != nil {
		die("%v", err)
	}
	r := &replayFile{}
	if err := json.Unmarshal(b, r); err != nil {
		die("%s: %v", path, err)
	}
	if r.Property != *property {
		die("%s is for property %s", path, r.Property)
	}
	*seed, *tier = r.Seed, r.Tier
	return r
}

// repeat runs a replay in a fresh process and returns the violation.
func repeat(r *replayFile) *proto.Found {
	job := &proto.Job{Seed: r.Seed}
	switch r.Mode {
	case "choices":
		job.Mode, job.Record = "replay", r.Found.Record
	default:
		job.Mode, job.Indices = "batch", r.Runs
	}
	l := launch(r.Build, job)
	if r.Mode != "choices" {
		l.limit = 180 * time.Second
	}
	res := l.wait()
	if res == nil {
		if reason, text := l.crash(); reason != "" && !l.hung {
			return &proto.Found{Kind: "crash", Msg: reason + "\n" + text}
		}
		return nil
	}
	return res.Found
}

func (r *replayFile) same(f *proto.Found) bool { return f != nil && f.Kind == r.Kind }

// confirm repeats a violation in a fresh process, minimises it and writes the replay file.
func confirm(pr profile, s *result) string {
	f := s.found
	r := &replayFile{Property: *property, Build: s.by.variant, Mode: "choices", Seed: *seed, Tier: *tier, Kind: f.Kind, Found: f}
	ok := false
	tries := 1
	if f.Kind == "race" {
		tries = 4
	}
	if s.crashed {
		r.Mode, r.Runs = "runs", []int{f.Index}
	}
	for i := 0; i < tries && !ok; i++ {
		ok = r.same(repeat(r))
	}
	if !ok {
		// does it need the runs before it?
		var all []int
		for i := s.by.job.From; i <= f.Index; i += s.by.job.Stride {
			all = append(all, i)
		}
		r.Mode = "runs"
		for n := 2; ; n *= 4 {
			if n > len(all) {
				n = len(all)
			}
			r.Runs = all[len(all)-n:]
			if g := repeat(r); r.same(g) {
				r.Found, ok = g, true
				break
			}
			if n == len(all) {
				break
			}
		}
		if !ok {
			die("run %d (%s build, seed %d) reported %s: %s\nbut a fresh process does not repeat it", f.Index, r.Build, *seed, f.Kind, f.Msg)
		}
		shrinkRuns(r)
	} else if r.Mode == "choices" {
		budget := 25.0
		if *tier == "thorough" {
			budget = 120
		}
		l := launch(r.Build, &proto.Job{Mode: "minimise", Record: f.Record, Kind: f.Kind, Seconds: budget})
		l.limit = 120 * time.Second
		if res := l.wait(); res != nil && res.Found != nil {
			m := *r
			g := *res.Found
			g.Index, g.Seed = f.Index, f.Seed
			m.Found = &g
			if m.same(repeat(&m)) {
				r = &m
			}
		}
		if r.Found == f {
			// state left behind by earlier attempts got in the way: one process per attempt
			m := *r
			var best *proto.Found
			tries := proto.Minimise(f.Record, time.Duration(budget*float64(time.Second)), func(rec map[string][]uint32) bool {
				g := *f
				g.Record = rec
				m.Found = &g
				if h := repeat(&m); m.same(h) {
					best = h
					return true
				}
				return false
			})
			if best != nil {
				best.Index, best.Seed, best.Shrinks = f.Index, f.Seed, tries
				m.Found = best
				r = &m
			}
		}
		// the trace of the run that counts
		if g := repeat(r); r.same(g) {
			g.Index, g.Seed, g.Shrinks = f.Index, f.Seed, r.Found.Shrinks
			r.Found = g
		}
	}
	if len(r.Found.Trace) > 4000 {
		r.Found.Trace = append(r.Found.Trace[:2000:2000], r.Found.Trace[len(r.Found.Trace)-2000:]...)
	}
	rdir := filepath.Join(*verif, "replays")
	os.MkdirAll(rdir, 0o755)
	path := filepath.Join(rdir, fmt.Sprintf("%s-%d-%d.json", *property, *seed, f.Index))
	b, _ := json.MarshalIndent(r, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		die("%v", err)
	}
	fmt.Printf("%s broken: %s: %s\n  workload: %s\n  %s build, run %d of seed %d; %d choices left after %d attempts to shrink\n", *property, r.Found.Kind, r.Found.Msg, r.Found.Shape,
		r.Build, f.Index, *seed, choices(r.Found), r.Found.Shrinks)
	return path
}

func choices(f *proto.Found) int {
	n := 0
	for _, v := range f.Record {
		n += len(v)
	}
	return n
}

// shrinkRuns drops earlier runs that the violation does not need.
func shrinkRuns(r *replayFile) {
	deadline := time.Now().Add(60 * time.Second)
	for l := len(r.Runs) / 2; l > 0 && time.Now().Before(deadline); l /= 2 {
		for i := 0; i+l < len(r.Runs) && time.Now().Before(deadline); {
			m := *r
			m.Runs = append(append([]int(nil), r.Runs[:i]...), r.Runs[i+l:]...)
			if g := repeat(&m); m.same(g) {
				r.Runs, r.Found = m.Runs, g
			} else {
				i += l
			}
		}
	}
}

func doReplay(pr profile, r *replayFile) int {
	tries := 1
	if r.Kind == "race" {
		tries = 4
	}
	for i := 0; i < tries; i++ {
		f := repeat(r)
		if r.same(f) {
			fmt.Printf("%s: %s\n", f.Kind, f.Msg)
			for _, t := range f.Trace {
				fmt.Println("  " + t)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", *property, *replay)
			return 1
		}
		if f != nil {
			fmt.Printf("the replay fails differently: %s: %s\n", f.Kind, f.Msg)
		}
	}
	fmt.Println("the recorded violation does not occur")
	return 0
}

// determinism runs the same seeds in several processes and compares digests.
func determinism(pr profile, variants []string, n int, show bool) (compared, bad int) {
	for _, v := range variants {
		var ls []*launched
		groups := 4
		for g := 0; g < groups; g++ { // half the runs each, twice, with different neighbours
			job := &proto.Job{Mode: "hashes", From: 0, Stride: 1, Count: n}
			if g >= groups/2 {
				job = &proto.Job{Mode: "hashes", From: g - groups/2, Stride: groups / 2, Count: (n + 1) / (groups / 2)}
			}
			ls = append(ls, launch(v, job))
		}
		seen := map[string]string{}
		for _, l := range ls {
			r := l.wait()
			if r == nil {
				continue
			}
			for _, d := range r.First {
				i, rest, _ := strings.Cut(d, " ")
				if was, ok := seen[i]; ok {
					compared++
					if was != rest {
						bad++
						if show {
							fmt.Printf("run %s of %s: %s / %s\n", i, v, was, rest)
						}
					}
				}
				seen[i] = rest
			}
		}
	}
	return compared, bad
}

func evidence(pr profile, s *result, violations int, built, wall time.Duration, dn, dbad int) {
	faults, reach := map[string]int{}, map[string]int{}
	for k, v := range s.sum.Probes {
		if f, ok := strings.CutPrefix(k, "fault."); ok {
			faults[f] = v
		} else {
			reach[k] = v
		}
	}
	samples := s.sum.Samples
	if s.found != nil && violations > 0 {
		samples = append(samples, "violation: "+s.found.Kind+": "+s.found.Msg)
	}
	sort.Strings(samples)
	if len(samples) == 0 {
		samples = []string{}
	}
	hours := s.wall.Hours()
	cov := map[string]any{
		"evaluations":                    s.sum.Runs,
		"distinct_nontrivial":            len(s.distinct),
		"rule":                           pr.rule + ruleTail,
		"samples":                        samples,
		"results_checked":                s.sum.Work,
		"runs_per_hour":                  int(float64(s.sum.Runs) / hours),
		"seeds_per_hour":                 int(float64(s.sum.Runs) / hours),
		"runs_by_build":                  s.variant,
		"statements_executed":            s.sum.Steps,
		"task_switches":                  s.sum.Switches,
		"preemptions":                    s.sum.Preempts,
		"simulated_seconds":              s.sum.SimTime.Seconds(),
		"faults_injected":                faults,
		"conditions_reached":             reach,
		"interleaving_measure":           "hash over (task chosen, statement where it was waiting) at every scheduling decision and over all traced events of the seams",
		"scheduling_points":              instrumen.Sites,
		"files_instrumented":             instrumen.Files,
		"real_components":                pr.real,
		"stubbed_components":             pr.stub,
		"determinism":                    map[string]int{"runs_repeated_in_other_processes": dn, "digests_that_differ": dbad},
		"race_reports_about_the_harness": s.sum.Ignored,
		"build_seconds":                  built.Seconds(),
	}
	ev := map[string]any{
		"property": *property, "tier": *tier, "seed": *seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": violations,
		"assumptions": []string{
			"sampled, not exhaustive: a clean batch is evidence, not proof",
			"switches happen between statements of the instrumented code and inside the seams; orders below that are covered by the race detector where a race build is used",
			"the reference models are right (they were checked against the real code on the unchanged tree and against planted bugs)",
			"the stubbed components behave like the real ones within the faults they inject",
		},
	}
	os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(*verif, "evidence", *property+".json"), append(b, '\n'), 0o644); err != nil {
		die("%v", err)
	}
}
