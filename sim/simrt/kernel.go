// Package simrt is the simulation kernel: it decides which goroutine of a run
// makes progress, for how many statements, and when simulated time advances.
//
// All goroutines of a run live in one testing/synctest bubble. At most one of
// them, the holder, executes instrumented code at a time; every statement of
// the instrumented code calls Y, where the holder gives the token back when its
// budget is used up and where any other goroutine waits to be chosen.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing/synctest"
	"time"
	"unsafe"
)

func getg() uintptr

var goidOff uintptr

func stackGoid() uint64 {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := strings.Fields(string(b[:n]))
	id, err := strconv.ParseUint(f[1], 10, 64)
	if err != nil {
		panic(err)
	}
	return id
}

func init() {
	type cand map[uintptr]bool
	var common cand
	for i := 0; i < 6; i++ {
		ch := make(chan cand)
		go func() {
			id := stackGoid()
			g := getg()
			c := cand{}
			for off := uintptr(0); off < 400; off += 8 {
				if *(*uint64)(unsafe.Pointer(g + off)) == id {
					c[off] = true
				}
			}
			ch <- c
		}()
		c := <-ch
		if common == nil {
			common = c
			continue
		}
		for k := range common {
			if !c[k] {
				delete(common, k)
			}
		}
		go func() {}() // move the goroutine ids along
	}
	for k := range common {
		if goidOff == 0 || k < goidOff {
			goidOff = k
		}
	}
	if goidOff == 0 {
		panic("simrt: goid offset not found")
	}
}

func goid() uint64 { return *(*uint64)(unsafe.Pointer(getg() + goidOff)) }

type taskState uint8

const (
	stRunning taskState = iota // executing, or blocked in code the kernel does not see
	stParked                   // waiting to be chosen
	stBlocked                  // waiting for a condition
	stDone
)

// Task is one goroutine known to the kernel.
type Task struct {
	Name     string
	goid     uint64
	ch       chan struct{}
	state    taskState
	site     uint32
	label    string
	ready    func() bool
	deadline func() (time.Time, bool)
	foreign  bool
	gen      int
}

// Violation is a broken property.
type Violation struct {
	Kind string `json:"kind"`
	Msg  string `json:"msg"`
}

// Sim is one simulated run.
type Sim struct {
	C     *Choices
	sched *Stream
	Epoch int

	root    uint64
	holder  uint64
	last    *Task
	budget  int64
	granted int64

	mu    sync.Mutex
	tasks []*Task
	dying bool
	stop  bool

	mode     int
	Steps    int64
	MaxSteps int64
	Switches int64
	Preempts int64
	Hash     uint64
	Start    time.Time
	Horizon  time.Duration // how long nothing may happen before the run counts as stuck
	Stuck    bool
	Viol     []Violation

	Tracing bool
	TraceMu sync.Mutex
	TraceL  []string
	later   []string
	probes  [96]probe
	run     [2048]*Task
	table   [2048]*Task
	swept   int // number of tasks after goroutines that ended were last forgotten

	// PoolPolicy is the recycling policy of this run plus one; 0: not chosen yet.
	PoolPolicy int

	// Ignored counts race reports that were not about the code under test.
	Ignored int

	endSync byte

	others int // goroutines that are there at the start
	cpus   int

	stall    *Stream // draws the stalls of a run that has any
	stalls   int     // how many are left
	stallOdd int
}

// StallSometimes lets one run in twenty stall.
func (s *Sim) StallSometimes() {
	st := s.C.Stream("stall")
	if st.Chance(1, 20) {
		s.stall, s.stalls = st, st.Between(1, 12)
		s.stallOdd = 1 << st.Between(1, 9)
	}
}

// stalled passes some time, if it is time for that.
func (s *Sim) stalled() bool {
	if s.stalls == 0 || !s.stall.Chance(1, s.stallOdd) {
		return false
	}
	s.stalls--
	d := time.Millisecond
	switch s.stall.Pick(1, 2, 3, 3, 2, 1) {
	case 1:
		d = time.Duration(s.stall.Between(10, 2000)) * time.Millisecond
	case 2:
		d = time.Duration(s.stall.Between(2, 100)) * time.Second
	case 3:
		d = time.Duration(s.stall.Between(2, 60)) * time.Minute
	case 4:
		d = time.Duration(s.stall.Between(1, 24)) * time.Hour
	case 5:
		d = time.Duration(s.stall.Between(2, 30)) * 24 * time.Hour
	}
	s.TraceMu.Lock()
	s.probe("fault.stall")
	s.flush()
	s.emit(Sprintf("stall of %v", d))
	s.TraceMu.Unlock()
	time.Sleep(d)
	return true
}

// Over tells whether the run has ended and its goroutines are being collected.
func (s *Sim) Over() bool { return s.dying }

var (
	active *Sim
	epochs int
	// SiteName turns a yield site into file:line; set by the worker.
	SiteName = func(site uint32) string { return Sprintf("site%d", site) }
)

// Active returns the running simulation, or nil.
func Active() *Sim { return active }

// Epoch identifies the current run; state of earlier runs is ignored by the seams.
func Epoch() int { return epochs }

// Y is called before every statement of the instrumented code.
func Y(site uint32) {
	s := active
	if s == nil {
		return
	}
	id := goid()
	if id == s.holder {
		s.budget--
		if s.budget > 0 {
			return
		}
	}
	s.yield(id, site, "")
}

// Point is a scheduling point inside a seam. It makes a switch more likely
// than at an ordinary statement.
func Point(label string) {
	s := active
	if s == nil {
		return
	}
	id := goid()
	if id == s.holder {
		s.budget -= 25
		if s.budget > 0 {
			return
		}
	}
	s.yield(id, 0, label)
}

func (s *Sim) yield(id uint64, site uint32, label string) {
	if id == s.root {
		return
	}
	if s.dying {
		if Inside() {
			s.exit()
		}
		return
	}
	raceDisable()
	s.mu.Lock()
	t := s.lookup(id)
	if t == nil && !Inside() {
		s.mu.Unlock()
		raceEnable()
		return
	}
	if t == nil {
		t = s.adopt(id, "go@"+SiteName(site))
	}
	t.site, t.label = site, label
	t.ready, t.deadline = nil, nil
	t.state = stParked
	s.mu.Unlock()
	<-t.ch
	raceEnable()
	if s.dying {
		s.exit()
	}
}

// Inside tells whether the caller belongs to the run. What the garbage
// collector calls (finalizers, cleanups) does not and cannot be scheduled.
var Inside = func() bool { return true }

// exit ends a goroutine of a run that is over.
func (s *Sim) exit() {
	RaceRelease(unsafe.Pointer(&s.endSync))
	runtime.Goexit()
}

func (s *Sim) lookup(id uint64) *Task {
	for _, t := range s.tasks {
		if t.goid == id && t.state != stDone {
			return t
		}
	}
	return nil
}

// adopt makes a goroutine the kernel did not start a task. Names are
// made unique by counting.
func (s *Sim) adopt(id uint64, name string) *Task {
	n := 0
	for _, t := range s.tasks {
		if t.Name == name || len(t.Name) > len(name) && t.Name[:len(name)] == name && t.Name[len(name)] == '#' {
			n++
		}
	}
	if n > 0 {
		name = Sprintf("%s#%d", name, n)
	}
	t := &Task{Name: name, goid: id, ch: make(chan struct{}, 1), foreign: true}
	s.insert(t)
	return t
}

func (s *Sim) insert(t *Task) {
	// a fixed array: append and copy would show up in the race detector
	n := len(s.tasks)
	if n == len(s.table) {
		panic("simrt: too many tasks")
	}
	s.tasks = s.table[:n+1]
	for n > 0 && s.tasks[n-1].Name > t.Name {
		s.tasks[n] = s.tasks[n-1]
		n--
	}
	s.tasks[n] = t
}

// Register names the calling goroutine if the kernel does not know it yet.
func Register(name string) {
	s := active
	if s == nil {
		return
	}
	id := goid()
	if id == s.root {
		return
	}
	if !Inside() {
		return
	}
	raceDisable()
	s.mu.Lock()
	if s.lookup(id) == nil {
		s.adopt(id, name)
	}
	s.mu.Unlock()
	raceEnable()
}

// Self is the name of the calling task.
func Self() string {
	s := active
	if s == nil {
		return "-"
	}
	id := goid()
	if id == s.root {
		return "root"
	}
	raceDisable()
	s.mu.Lock()
	t := s.lookup(id)
	s.mu.Unlock()
	raceEnable()
	if t == nil {
		return "?"
	}
	return t.Name
}

// Wait blocks the calling task until ready reports true or the deadline has
// passed. The scheduler evaluates both while nothing else runs. It returns false
// if the run is over.
func Wait(label string, ready func() bool, deadline func() (time.Time, bool)) bool {
	s := active
	if s == nil {
		if !ready() {
			panic("simrt: " + label + " would block outside a simulation")
		}
		return true
	}
	id := goid()
	if id == s.root {
		if !ready() {
			panic("simrt: " + label + " would block the scheduler")
		}
		return true
	}
	if !Inside() {
		for !ready() {
			runtime.Gosched()
		}
		return true
	}
	if s.dying {
		return false
	}
	raceDisable()
	s.mu.Lock()
	t := s.lookup(id)
	if t == nil {
		t = s.adopt(id, "go@"+label)
	}
	t.label, t.site = label, 0
	t.ready, t.deadline = ready, deadline
	t.state = stBlocked
	s.mu.Unlock()
	<-t.ch
	raceEnable()
	return !s.dying
}

// Sleep lets the calling task pause for simulated time.
func Sleep(d time.Duration) bool {
	if active == nil {
		return true
	}
	until := time.Now().Add(d)
	return Wait("sleep", func() bool { return !time.Now().Before(until) },
		func() (time.Time, bool) { return until, true })
}

// Go starts a task. It may be called by the root (before the run) or by a task.
func (s *Sim) Go(name string, fn func()) *Task {
	t := &Task{Name: name, ch: make(chan struct{}, 1), state: stParked}
	raceDisable()
	s.mu.Lock()
	s.insert(t)
	s.mu.Unlock()
	raceEnable()
	go func() {
		defer func() {
			if r := recover(); r != nil {
				s.Fail("panic", fmt.Sprintf("task %s panicked: %v\n%s", name, r, shortStack()))
			}
			RaceRelease(unsafe.Pointer(&s.endSync))
			raceDisable()
			s.mu.Lock()
			t.state = stDone
			s.mu.Unlock()
			raceEnable()
		}()
		raceDisable()
		t.goid = goid()
		<-t.ch
		raceEnable()
		if s.dying {
			return
		}
		fn()
	}()
	return t
}

func shortStack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var ret []string
	for _, l := range lines {
		if strings.Contains(l, ".go:") && !strings.Contains(l, "/simrt/") && !strings.Contains(l, "runtime/") {
			ret = append(ret, strings.TrimSpace(l))
		}
		if len(ret) >= 8 {
			break
		}
	}
	return strings.Join(ret, "\n")
}

// Done tells whether the task has ended.
func (t *Task) Done() bool { return t.state == stDone }

// Misbehaved is what a scenario panics with when the code refuses something it has to accept.
type Misbehaved string

// Fail records a violation; the run ends at the next scheduling decision.
func (s *Sim) Fail(kind, msg string) {
	raceDisable()
	s.TraceMu.Lock()
	s.Viol = append(s.Viol, Violation{kind, msg})
	s.stop = true
	s.TraceMu.Unlock()
	raceEnable()
}

// Stop ends the run at the next scheduling decision.
func (s *Sim) Stop() { s.stop = true }

// Probe counts that something worth reaching was reached.
func Probe(name string) {
	s := active
	if s == nil {
		return
	}
	raceDisable()
	s.TraceMu.Lock()
	s.probe(name)
	s.TraceMu.Unlock()
	raceEnable()
}

type probe struct {
	name string
	n    int
}

func (s *Sim) probe(name string) {
	for i := range s.probes {
		if s.probes[i].name == name {
			s.probes[i].n++
			return
		}
		if s.probes[i].name == "" {
			s.probes[i] = probe{name, 1}
			return
		}
	}
}

// ProbeCounts returns how often each probe was hit.
func (s *Sim) ProbeCounts() map[string]int {
	ret := map[string]int{}
	for _, p := range s.probes {
		if p.name != "" {
			ret[p.name] = p.n
		}
	}
	return ret
}

// Hit tells how often a probe was hit.
func (s *Sim) Hit(name string) int {
	for _, p := range s.probes {
		if p.name == name {
			return p.n
		}
	}
	return 0
}

// Trace adds a line to the event log and to the digest of the run.
func Trace(format string, args ...any) {
	s := active
	if s == nil {
		return
	}
	raceDisable()
	s.TraceMu.Lock()
	s.flush()
	s.emit(Sprintf(format, args...))
	s.TraceMu.Unlock()
	raceEnable()
}

func (s *Sim) emit(line string) {
	for i := 0; i < len(line); i++ {
		s.Hash = (s.Hash ^ uint64(line[i])) * 0x100000001b3
	}
	if s.Tracing {
		s.TraceL = append(s.TraceL, Sprintf("%v  %s", time.Since(s.Start), line))
	}
}

// TraceUnordered adds a line to the history for an event that happens
// together with others of its kind in an order that means nothing (net/http
// closes connections in the order of a map keyed by addresses).  Such lines
// are sorted, and come before whatever is traced or scheduled next.
func TraceUnordered(format string, args ...any) {
	s := active
	if s == nil {
		return
	}
	raceDisable()
	s.TraceMu.Lock()
	line := Sprintf(format, args...)
	i := len(s.later)
	s.later = append(s.later, line)
	for ; i > 0 && s.later[i-1] > line; i-- {
		s.later[i] = s.later[i-1]
	}
	s.later[i] = line
	s.TraceMu.Unlock()
	raceEnable()
}

func (s *Sim) flush() {
	for _, line := range s.later {
		s.emit(line)
	}
	s.later = s.later[:0]
}

// Now is the simulated time since the start of the run.
func Now() time.Duration {
	if active == nil {
		return 0
	}
	return time.Since(active.Start)
}

const fairness = 150000 // statements a task may run before the others get a turn

func (s *Sim) drawBudget() int64 {
	v := s.sched.Raw(func(next func() uint64) uint32 {
		geo := func(mean uint64) uint32 { return uint32(1 + next()%(2*mean)) }
		switch s.mode {
		case 0: // switch only where a task blocks
			return 0
		case 1:
			return geo(1)
		case 2:
			return geo(4)
		case 3:
			return geo(25)
		case 4:
			return geo(200)
		case 5:
			return geo(2000)
		case 6: // anything between one and many
			return uint32(1 + next()%(1<<(next()%14)))
		default: // mostly undisturbed, now and then a burst of switches
			if next()%4 == 0 {
				return geo(3)
			}
			return geo(800)
		}
	})
	if v == 0 || int64(v) > fairness {
		return fairness
	}
	return min(int64(v)*(1+s.Steps/1000000), fairness) // coarser as the run gets long
}

// sweepAfter is the number of new tasks after which those that ended are
// forgotten: goroutines that the code starts do not tell when they end.
const sweepAfter = 200

// Run executes the scheduler in the calling goroutine (the bubble's root)
// until done reports true, a violation is recorded or nothing can happen any more.
func (s *Sim) Run(done func() bool) {
	raceDisable()
	defer raceEnable()
	lastProgress := time.Now()
	forced := false
	for {
		synctest.Wait()
		if s.last != nil && s.holder != 0 {
			s.Steps += s.granted - s.budget
		}
		s.holder = 0
		if s.stop || done() {
			return
		}
		if StepCap > 0 && s.Steps > StepCap {
			s.Fail("given up", "too long")
			return
		}
		if s.Steps > s.MaxSteps {
			s.Fail("runaway", Sprintf("no end after %d statements; %s", s.Steps, s.Describe()))
			return
		}
		if len(s.tasks) > s.swept+sweepAfter {
			s.Goroutines()
			s.swept = len(s.tasks)
		}
		run := s.run[:0]
		for _, t := range s.tasks {
			ok := t.state == stParked
			if t.state == stBlocked {
				ok = t.ready()
				if !ok && t.deadline != nil {
					if d, has := t.deadline(); has && !time.Now().Before(d) {
						ok = true
					}
				}
			}
			if ok {
				if len(run) == cap(run) {
					panic("simrt: too many tasks")
				}
				run = run[:len(run)+1]
				run[len(run)-1] = t
				if t == s.last && !forced { // choice 0: carry on
					for k := len(run) - 1; k > 0; k-- {
						run[k] = run[k-1]
					}
					run[0] = t
				}
			}
		}
		if len(run) == 0 {
			if time.Since(lastProgress) > s.Horizon {
				s.Stuck = true
				return
			}
			d := time.Second
			for _, t := range s.tasks {
				if t.state == stBlocked && t.deadline != nil {
					if at, has := t.deadline(); has {
						if w := time.Until(at); w > 0 && w < d {
							d = w
						}
					}
				}
			}
			time.Sleep(d)
			continue
		}
		if s.stalled() {
			lastProgress = time.Now()
			continue
		}
		lastProgress = time.Now()
		i := 0
		if len(run) > 1 {
			if forced {
				i = int(s.Switches) % len(run)
			} else {
				i = s.sched.N(len(run))
			}
		}
		forced = false
		t := run[i]
		if t != s.last {
			s.Switches++
			if s.last != nil && s.last.state == stParked {
				s.Preempts++
			}
		}
		s.TraceMu.Lock()
		s.flush()
		s.TraceMu.Unlock()
		s.Hash = (s.Hash ^ uint64(t.site) ^ uint64(len(t.Name))<<32) * 0x100000001b3
		for k := 0; k < len(t.Name); k++ {
			s.Hash = (s.Hash ^ uint64(t.Name[k])) * 0x100000001b3
		}
		b := s.drawBudget()
		if b >= fairness {
			forced = true // only acts if the task really uses it up
		}
		if s.Tracing && t != s.last {
			where := t.label
			if where == "" {
				where = SiteName(t.site)
			}
			s.TraceL = append(s.TraceL, Sprintf("%v  -> %s (at %s, %d statements)", time.Since(s.Start), t.Name, where, b))
		}
		s.last = t
		s.budget, s.granted = b, b
		s.holder = t.goid
		t.state = stRunning
		t.ready, t.deadline = nil, nil
		t.ch <- struct{}{}
		if forced {
			synctest.Wait()
			forced = s.budget <= 0
		}
	}
}

// Join orders the caller after the end of all ended tasks.
func (s *Sim) Join() { RaceAcquire(unsafe.Pointer(&s.endSync)) }

// Describe lists the unfinished tasks.
func (s *Sim) Describe() string {
	b := ""
	for _, t := range s.tasks {
		st := ""
		switch t.state {
		case stDone:
			continue
		case stRunning:
			st = "blocked in native code"
		case stParked:
			st = "runnable"
		case stBlocked:
			st = "waiting"
		}
		where := t.label
		if where == "" && t.site != 0 {
			where = SiteName(t.site)
		}
		b += Sprintf("[%s: %s, last at %s] ", t.Name, st, where)
	}
	return b
}

// teardown ends all goroutines that can be ended.
func (s *Sim) teardown() {
	raceDisable()
	defer raceEnable()
	s.dying = true
	for round := 0; round < 50; round++ {
		synctest.Wait()
		n := 0
		for _, t := range s.tasks {
			if t.state == stParked || t.state == stBlocked {
				t.state = stRunning
				t.ch <- struct{}{}
				n++
			}
		}
		if n == 0 {
			return
		}
	}
}

// Execute runs body as the root of a new bubble: body sets the run up with
// Go, calls Run and inspects the outcome. wrap must call its argument
// inside a synctest bubble.
func Execute(wrap func(func()), c *Choices, tracing bool, body func(s *Sim)) (s *Sim) {
	epochs++
	s = &Sim{C: c, Epoch: epochs, Tracing: tracing,
		MaxSteps: 3000000, Horizon: 10 * time.Minute, Hash: 14695981039346656037}
	s.sched = c.Stream("sched")
	s.mode = s.sched.Pick(1, 1, 2, 3, 3, 2, 3, 2)
	defer func() {
		active = nil
		if r := recover(); r != nil {
			if m := fmt.Sprint(r); !strings.Contains(m, "blocked goroutines remain") {
				panic(r)
			}
		}
	}()
	wrap(func() {
		s.root = goid()
		s.Start = time.Now()
		active = s
		s.others = runtime.NumGoroutine()
		seedRuntime(uint64(c.Stream("rt").Raw(func(next func() uint64) uint32 { return uint32(next()) })))
		if RaceEnabled && prevEnd != nil {
			RaceAcquire(unsafe.Pointer(prevEnd))
		}
		resetGlobals()
		body(s)
		s.flush()
		s.teardown()
		if RaceEnabled {
			synctest.Wait()
			RaceAcquire(unsafe.Pointer(&s.endSync))
			prevEnd = &s.endSync
			RaceRelease(unsafe.Pointer(prevEnd))
		}
		active = nil
	})
	return s
}

var prevEnd *byte

// StepCap ends runs that are longer, if set, whatever they ask for.
var StepCap int64
