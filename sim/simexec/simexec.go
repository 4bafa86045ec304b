// Package simexec mirrors package os/exec: external programs are simulated
// processes whose behaviour the simulator chooses.
package simexec

import (
	"bytes"
	"context"
	"errors"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"verifsim/simrt"
)

// Behaviour says what one simulated process does.
type Behaviour struct {
	LookPathFails bool
	StartErr      error
	ReadLimit     int           // stop reading stdin after that many bytes; <0: read to the end
	ReadDelay     time.Duration // pause before each read
	PipeSize      int           // capacity of the pipes
	Before        time.Duration // pause after reading
	Hang          bool          // never ends by itself
	HangClosed    bool          // closes stdin before it hangs
	Child         time.Duration // leaves a child behind that holds its pipes open for so long
	Output        func(stdin []byte) []byte
	OutputLimit   int // write only that many bytes; <0: all
	ExitCode      int
	Signal        int  // killed by this signal (a crash) if not 0
	Warn          int  // so many bytes on standard error
	WarnFirst     bool // before it has read anything
	Name          string
}

// World is the set of programs of a run.
type World struct {
	// Next returns the behaviour of the next process.
	Next func(name string, args []string) *Behaviour
	// LookPath tells whether a program is installed.
	LookPath func(name string) bool
	// Started processes, in order.
	Procs []*Proc
}

// Proc is one simulated process.
type Proc struct {
	N        int
	B        *Behaviour
	Args     []string
	Stdin    []byte // what it has read
	StdinEOF bool
	Stdout   []byte // what it has written
	Started  time.Duration
	Ended    time.Duration
	Exited   bool
	Reaped   bool // somebody waited for it; until then the system keeps its entry
	Killed   bool
	cmd      *Cmd
}

var (
	epoch int
	world *World
)

// SetWorld installs the programs of a run.
func SetWorld(w *World) { epoch, world = simrt.Epoch(), w }

func cur() *World {
	if epoch != simrt.Epoch() || world == nil {
		return &World{}
	}
	return world
}

// LookPath mirrors exec.LookPath.
func LookPath(file string) (string, error) {
	simrt.Point("LookPath")
	w := cur()
	if w.LookPath == nil || !w.LookPath(file) {
		simrt.Probe("fault.exec_missing")
		return "", &exec.Error{Name: file, Err: exec.ErrNotFound}
	}
	if strings.Contains(file, "/") {
		return file, nil
	}
	return "/usr/bin/" + file, nil
}

// pipe is an OS pipe.
type pipe struct {
	buf     []byte
	size    int
	wclosed bool
	rclosed bool
}

func (p *pipe) write(b []byte, stop func() bool) (int, error) {
	done := 0
	for {
		simrt.Point("pipe write")
		if p.rclosed {
			return done, syscall.EPIPE
		}
		if p.wclosed {
			return done, fs.ErrClosed
		}
		if stop() {
			return done, errKilled
		}
		n := p.size - len(p.buf)
		if n > len(b)-done {
			n = len(b) - done
		}
		p.buf = append(p.buf, b[done:done+n]...)
		done += n
		if done == len(b) {
			return done, nil
		}
		simrt.Probe("fault.pipe_full")
		if !simrt.Wait("pipe write", func() bool { return p.rclosed || p.wclosed || len(p.buf) < p.size || stop() }, nil) {
			return done, errKilled
		}
	}
}

func (p *pipe) read(b []byte, stop func() bool) (int, error) {
	for {
		simrt.Point("pipe read")
		if p.rclosed {
			return 0, fs.ErrClosed
		}
		if stop() {
			return 0, errKilled
		}
		if len(p.buf) > 0 {
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			return n, nil
		}
		if p.wclosed {
			return 0, io.EOF
		}
		if !simrt.Wait("pipe read", func() bool { return p.rclosed || p.wclosed || len(p.buf) > 0 || stop() }, nil) {
			return 0, errKilled
		}
	}
}

var errKilled = errors.New("killed")

func never() bool { return false }

type pipeWriter struct{ p *pipe }

func (w pipeWriter) Write(b []byte) (int, error) { return w.p.write(b, never) }
func (w pipeWriter) Close() error {
	if w.p.wclosed {
		return fs.ErrClosed
	}
	w.p.wclosed = true
	return nil
}

type pipeReader struct{ p *pipe }

func (r pipeReader) Read(b []byte) (int, error) { return r.p.read(b, never) }
func (r pipeReader) Close() error {
	if r.p.rclosed {
		return fs.ErrClosed
	}
	r.p.rclosed = true
	return nil
}

// Process mirrors os.Process.
type Process struct {
	Pid int
	p   *Proc
}

// Kill mirrors (*os.Process).Kill.
func (p *Process) Kill() error { return p.Signal(os.Kill) }

// Signal mirrors (*os.Process).Signal.
func (p *Process) Signal(sig os.Signal) error {
	if p.p.Exited {
		return os.ErrProcessDone
	}
	simrt.Trace("process %d gets %v", p.p.N, sig)
	simrt.Probe("exec.killed")
	p.p.Killed = true
	return nil
}

// Release mirrors (*os.Process).Release.
func (p *Process) Release() error { return nil }

// Wait mirrors (*os.Process).Wait.
func (p *Process) Wait() (*ProcessState, error) {
	if !simrt.Wait("process wait", func() bool { return p.p.Exited }, nil) {
		return nil, errKilled
	}
	if p.p.Reaped {
		return nil, os.NewSyscallError("wait", syscall.ECHILD)
	}
	p.p.Reaped = true
	return p.p.state(), nil
}

// ProcessState mirrors os.ProcessState.
type ProcessState struct {
	pid, code, sig int
}

func (p *Proc) state() *ProcessState {
	st := &ProcessState{pid: 1000 + p.N, code: p.B.ExitCode, sig: p.B.Signal}
	if p.Killed {
		st.sig = int(syscall.SIGKILL)
	}
	return st
}

// Success mirrors (*os.ProcessState).Success.
func (s *ProcessState) Success() bool { return s.code == 0 && s.sig == 0 }

// Exited mirrors (*os.ProcessState).Exited.
func (s *ProcessState) Exited() bool { return s.sig == 0 }

// ExitCode mirrors (*os.ProcessState).ExitCode.
func (s *ProcessState) ExitCode() int {
	if s == nil || s.sig != 0 {
		return -1
	}
	return s.code
}

// Pid mirrors (*os.ProcessState).Pid.
func (s *ProcessState) Pid() int { return s.pid }

// String mirrors (*os.ProcessState).String.
func (s *ProcessState) String() string {
	if s == nil {
		return "<nil>"
	}
	if s.sig != 0 {
		return "signal: " + syscall.Signal(s.sig).String()
	}
	return "exit status " + strconv.Itoa(s.code)
}

// Sys mirrors (*os.ProcessState).Sys.
func (s *ProcessState) Sys() any { return syscall.WaitStatus(s.code<<8 | s.sig) }

// UserTime mirrors (*os.ProcessState).UserTime.
func (s *ProcessState) UserTime() time.Duration { return 0 }

// SystemTime mirrors (*os.ProcessState).SystemTime.
func (s *ProcessState) SystemTime() time.Duration { return 0 }

// ExitError mirrors exec.ExitError.
type ExitError struct {
	*ProcessState
	Stderr []byte
}

func (e *ExitError) Error() string { return e.ProcessState.String() }

// Cmd mirrors exec.Cmd.
type Cmd struct {
	Path         string
	Args         []string
	Env          []string
	Dir          string
	Stdin        io.Reader
	Stdout       io.Writer
	Stderr       io.Writer
	ExtraFiles   []*os.File
	SysProcAttr  *syscall.SysProcAttr
	Process      *Process
	ProcessState *ProcessState
	Err          error
	Cancel       func() error
	WaitDelay    time.Duration

	ctx      context.Context
	proc     *Proc
	in       *pipe
	out, err *pipe
	inUser   bool
	outUser  bool
	errUser  bool
	copying  int
	copyErr  error
	ctxErr   error
	ctxDone  bool
	reaped   bool
	stopCtx  chan struct{}
	waited   bool
	sync     byte
}

// Command mirrors exec.Command.
func Command(name string, arg ...string) *Cmd {
	c := &Cmd{Path: name, Args: append([]string{name}, arg...)}
	if !strings.Contains(name, "/") {
		p, err := LookPath(name)
		if err != nil {
			c.Err = err
		} else {
			c.Path = p
		}
	}
	return c
}

// CommandContext mirrors exec.CommandContext.
func CommandContext(ctx context.Context, name string, arg ...string) *Cmd {
	if ctx == nil {
		panic("nil Context")
	}
	c := Command(name, arg...)
	c.ctx = ctx
	c.Cancel = func() error { return c.Process.Kill() }
	return c
}

func (c *Cmd) String() string { return strings.Join(c.Args, " ") }

// Environ mirrors (*exec.Cmd).Environ.
func (c *Cmd) Environ() []string { return c.Env }

// StdinPipe mirrors (*exec.Cmd).StdinPipe.
func (c *Cmd) StdinPipe() (io.WriteCloser, error) {
	if c.Stdin != nil || c.inUser {
		return nil, errors.New("exec: Stdin already set")
	}
	if c.Process != nil {
		return nil, errors.New("exec: StdinPipe after process started")
	}
	c.in, c.inUser = &pipe{size: 1 << 16}, true
	return pipeWriter{c.in}, nil
}

// StdoutPipe mirrors (*exec.Cmd).StdoutPipe.
func (c *Cmd) StdoutPipe() (io.ReadCloser, error) {
	if c.Stdout != nil || c.outUser {
		return nil, errors.New("exec: Stdout already set")
	}
	c.out, c.outUser = &pipe{size: 1 << 16}, true
	return pipeReader{c.out}, nil
}

// StderrPipe mirrors (*exec.Cmd).StderrPipe.
func (c *Cmd) StderrPipe() (io.ReadCloser, error) {
	if c.Stderr != nil || c.errUser {
		return nil, errors.New("exec: Stderr already set")
	}
	c.err, c.errUser = &pipe{size: 1 << 16}, true
	return pipeReader{c.err}, nil
}

// Start mirrors (*exec.Cmd).Start.
func (c *Cmd) Start() error {
	simrt.Point("exec start")
	if c.Path == "" && c.Err == nil {
		c.Err = errors.New("exec: no command")
	}
	if c.Err != nil {
		return c.Err
	}
	if c.Process != nil {
		return errors.New("exec: already started")
	}
	if c.ctx != nil {
		select {
		case <-c.ctx.Done():
			return c.ctx.Err()
		default:
		}
	}
	s := simrt.Active()
	w := cur()
	if s == nil || w.Next == nil {
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: syscall.ENOENT}
	}
	b := w.Next(c.Path, c.Args)
	if b.StartErr != nil {
		simrt.Probe("fault.exec_start_error")
		simrt.Trace("exec %s: %v", c.Path, b.StartErr)
		return &fs.PathError{Op: "fork/exec", Path: c.Path, Err: b.StartErr}
	}
	p := &Proc{N: len(w.Procs), B: b, Args: c.Args, Started: simrt.Now(), cmd: c}
	w.Procs = append(w.Procs, p)
	c.proc = p
	c.Process = &Process{Pid: 1000 + p.N, p: p}
	size := b.PipeSize
	if size <= 0 {
		size = 1 << 16
	}
	name := simrt.Sprintf("proc%d", p.N)
	if c.in == nil {
		c.in = &pipe{size: size, wclosed: c.Stdin == nil}
	}
	c.in.size = size
	if c.out == nil {
		c.out = &pipe{size: size}
	}
	c.out.size = size
	if c.err == nil {
		c.err = &pipe{size: size}
	}
	if c.Stdin != nil {
		c.copying++
		s.Go(name+".stdin", func() {
			_, err := io.Copy(struct{ io.Writer }{pipeWriter{c.in}}, struct{ io.Reader }{c.Stdin})
			if err != nil && !errors.Is(err, syscall.EPIPE) && !errors.Is(err, fs.ErrClosed) && !errors.Is(err, errKilled) && c.copyErr == nil {
				c.copyErr = err
			}
			c.in.wclosed = true
			simrt.RaceRelease(unsafe.Pointer(&c.sync))
			c.copying--
		})
	}
	copyOut := func(which string, p *pipe, dst io.Writer) {
		c.copying++
		s.Go(name+which, func() {
			if dst == nil {
				dst = io.Discard
			}
			_, err := io.Copy(dst, struct{ io.Reader }{pipeReader{p}})
			p.rclosed = true
			if err != nil && !errors.Is(err, fs.ErrClosed) && !errors.Is(err, errKilled) && c.copyErr == nil {
				c.copyErr = err
			}
			simrt.RaceRelease(unsafe.Pointer(&c.sync))
			c.copying--
		})
	}
	if !c.outUser {
		copyOut(".stdout", c.out, c.Stdout)
	}
	if !c.errUser {
		copyOut(".stderr", c.err, c.Stderr)
	}
	s.Go(name, p.run)
	if c.ctx != nil && c.ctx.Done() != nil {
		c.stopCtx = make(chan struct{})
		// The context is watched by an ordinary goroutine, because it can end
		// at any time; what then happens is a scheduled task of its own, so
		// that several contexts ending at once are dealt with in a chosen order.
		go func() {
			select {
			case <-c.ctx.Done():
				c.ctxDone = true
			case <-c.stopCtx:
			}
		}()
		s.Go(name+".ctx", func() {
			if !simrt.Wait("context watch", func() bool { return c.ctxDone || c.reaped }, nil) || c.reaped {
				return
			}
			if c.Cancel != nil {
				if err := c.Cancel(); err == nil {
					c.ctxErr = c.ctx.Err()
				} else if !errors.Is(err, os.ErrProcessDone) {
					c.ctxErr = err
				}
			}
		})
	}
	simrt.Trace("started process %d (%s)", p.N, b.Name)
	return nil
}

// run is the life of the simulated process.
func (p *Proc) run() {
	c, b := p.cmd, p.B
	killed := func() bool { return p.Killed }
	end := func() {
		closeAll := func() { c.in.rclosed, c.out.wclosed, c.err.wclosed = true, true, true }
		if s := simrt.Active(); b.Child > 0 && s != nil && !s.Over() {
			simrt.Probe("fault.exec_child_keeps_pipes")
			s.Go(simrt.Sprintf("proc%d.child", p.N), func() {
				simrt.Sleep(b.Child)
				closeAll()
			})
		} else {
			closeAll()
		}
		p.Exited = true
		p.Ended = simrt.Now()
		simrt.Trace("process %d ends: %v", p.N, p.state())
	}
	defer end()
	pause := func(d time.Duration) bool {
		if d <= 0 {
			return !p.Killed
		}
		until := time.Now().Add(d)
		ok := simrt.Wait("process pause", func() bool { return p.Killed || !time.Now().Before(until) },
			func() (time.Time, bool) { return until, true })
		return ok && !p.Killed
	}
	warn := func() bool {
		line := "Warning: node \"0x0\", size too small for label\n"
		for n := 0; n < b.Warn; n += len(line) {
			if _, err := c.err.write([]byte(line), killed); err != nil {
				return false
			}
		}
		if b.Warn > 0 {
			simrt.Probe("fault.exec_warnings")
		}
		return true
	}
	if b.WarnFirst && !warn() {
		return
	}
	buf := make([]byte, 4096)
	for b.ReadLimit < 0 || len(p.Stdin) < b.ReadLimit {
		if !pause(b.ReadDelay) {
			return
		}
		rb := buf
		if b.ReadLimit >= 0 && b.ReadLimit-len(p.Stdin) < len(rb) {
			rb = rb[:b.ReadLimit-len(p.Stdin)]
		}
		n, err := c.in.read(rb, killed)
		p.Stdin = append(p.Stdin, rb[:n]...)
		if err == io.EOF {
			p.StdinEOF = true
			break
		}
		if err != nil {
			return
		}
	}
	if !pause(b.Before) {
		return
	}
	if !b.WarnFirst && !warn() {
		return
	}
	if b.Output != nil {
		out := b.Output(p.Stdin)
		if b.OutputLimit >= 0 && len(out) > b.OutputLimit {
			out = out[:b.OutputLimit]
		}
		n, err := c.out.write(out, killed)
		p.Stdout = append(p.Stdout, out[:n]...)
		if err != nil {
			return
		}
	}
	if b.Hang {
		if b.HangClosed {
			c.in.rclosed = true
		}
		simrt.Probe("fault.exec_hang")
		simrt.Wait("process hangs", killed, nil)
		return
	}
	if b.Signal != 0 || b.ExitCode != 0 {
		simrt.Probe("fault.exec_crash")
	}
	if b.ReadLimit >= 0 && !p.StdinEOF {
		simrt.Probe("fault.exec_stops_reading")
	}
}

// Wait mirrors (*exec.Cmd).Wait.
func (c *Cmd) Wait() error {
	if c.Process == nil {
		return errors.New("exec: not started")
	}
	if c.waited {
		return errors.New("exec: Wait was already called")
	}
	c.waited = true
	simrt.Point("exec wait")
	state, err := c.Process.Wait()
	if err != nil {
		return err
	}
	c.ProcessState = state
	if !state.Success() {
		err = &ExitError{ProcessState: state}
	}
	if c.stopCtx != nil {
		close(c.stopCtx)
		c.reaped = true
		if err == nil {
			err = c.ctxErr
		}
	}
	var limit time.Time
	if c.WaitDelay > 0 {
		limit = time.Now().Add(c.WaitDelay)
	}
	if !simrt.Wait("exec await copying", func() bool { return c.copying == 0 },
		func() (time.Time, bool) { return limit, !limit.IsZero() }) {
		return errKilled
	}
	simrt.RaceAcquire(unsafe.Pointer(&c.sync))
	if c.copying > 0 {
		c.in.wclosed, c.out.rclosed, c.err.rclosed = true, true, true
		if err == nil {
			err = exec.ErrWaitDelay
		}
	} else if err == nil {
		err = c.copyErr
	}
	if c.inUser {
		c.in.wclosed = true
	}
	if c.outUser {
		c.out.rclosed = true
	}
	if c.errUser {
		c.err.rclosed = true
	}
	return err
}

// Run mirrors (*exec.Cmd).Run.
func (c *Cmd) Run() error {
	if err := c.Start(); err != nil {
		return err
	}
	return c.Wait()
}

// Output mirrors (*exec.Cmd).Output.
func (c *Cmd) Output() ([]byte, error) {
	if c.Stdout != nil {
		return nil, errors.New("exec: Stdout already set")
	}
	var b bytes.Buffer
	c.Stdout = &b
	err := c.Run()
	return b.Bytes(), err
}

// CombinedOutput mirrors (*exec.Cmd).CombinedOutput.
func (c *Cmd) CombinedOutput() ([]byte, error) {
	if c.Stdout != nil || c.Stderr != nil {
		return nil, errors.New("exec: Stdout or Stderr already set")
	}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	err := c.Run()
	return b.Bytes(), err
}
