// Package simos mirrors package os for the code under test: standard streams,
// files and process exit belong to the simulated process of the current run.
package simos

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	"log"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"verifsim/simrt"
)

// Source is a simulated input: a byte sequence that arrives in chunks, with
// pauses, and that ends or fails.
type Source struct {
	Name   string
	Chunks []Chunk
	// End is what the stream ends with; nil means io.EOF.
	End error
	// EndWithData delivers the end together with the last chunk.
	EndWithData bool
	// OnPause is called when a reader has waited for a paused chunk
	// for the length of the pause and nothing else can happen; got is the
	// number of bytes delivered so far.
	OnPause func(got int)

	i, off int
	Got    int  // bytes delivered
	Ended  bool // the end was delivered
	closed bool
}

// Chunk is what one arrival brings. A reader with a smaller buffer gets it in pieces.
type Chunk struct {
	Data  []byte
	Pause time.Duration // silence before this chunk
	paid  bool
}

// Read implements io.Reader with the plan.
func (s *Source) Read(b []byte) (int, error) {
	simrt.Point("read " + s.Name)
	if s.closed {
		return 0, fs.ErrClosed
	}
	if len(b) == 0 {
		return 0, nil
	}
	for {
		if s.i >= len(s.Chunks) {
			return 0, s.end()
		}
		c := &s.Chunks[s.i]
		if c.Pause > 0 && !c.paid {
			c.paid = true
			simrt.Probe("fault.read_pause")
			simrt.Trace("%s: no input for %v after %d bytes", s.Name, c.Pause, s.Got)
			if !simrt.Sleep(c.Pause) {
				return 0, fs.ErrClosed
			}
			if s.OnPause != nil {
				s.OnPause(s.Got)
			}
		}
		if len(c.Data) == 0 {
			s.i++
			if c.Pause > 0 {
				continue
			}
			simrt.Probe("fault.empty_read")
			return 0, nil
		}
		n := copy(b, c.Data[s.off:])
		s.off += n
		s.Got += n
		if s.off == len(c.Data) {
			s.i, s.off = s.i+1, 0
		}
		if s.i >= len(s.Chunks) && s.EndWithData {
			simrt.Probe("fault.data_with_end")
			simrt.Trace("%s: %d bytes with end", s.Name, n)
			return n, s.end()
		}
		simrt.Trace("%s: %d bytes", s.Name, n)
		return n, nil
	}
}

func (s *Source) end() error {
	s.Ended = true
	if s.End != nil {
		simrt.Probe("fault.read_error")
		simrt.Trace("%s: fails with %v", s.Name, s.End)
		return s.End
	}
	return io.EOF
}

// Sink is a simulated output.
type Sink struct {
	Name     string
	Data     []byte // what was accepted
	Off      int    // where the next byte goes
	FailAt   int    // byte offset at which writing fails; <0: never
	Err      error  // the failure
	Once     bool   // only one failure, later writes succeed
	Slow     time.Duration
	CloseErr error
	Failed   int // failures delivered
	Closed   int
	Writes   int
	frozen   bool
}

// NewSink returns a sink that accepts everything.
func NewSink(name string) *Sink { return &Sink{Name: name, FailAt: -1} }

// Write implements io.Writer with the plan.
func (s *Sink) Write(b []byte) (int, error) {
	simrt.Point("write " + s.Name)
	if s.frozen {
		return 0, fs.ErrClosed
	}
	if s.Closed > 0 {
		return 0, fs.ErrClosed
	}
	s.Writes++
	if s.Slow > 0 {
		simrt.Probe("fault.slow_write")
		if !simrt.Sleep(s.Slow) {
			return 0, fs.ErrClosed
		}
	}
	if s.FailAt >= 0 && s.Off+len(b) > s.FailAt && !(s.Once && s.Failed > 0) {
		n := s.FailAt - s.Off
		if n < 0 {
			n = 0
		}
		s.put(b[:n])
		s.Failed++
		simrt.Probe("fault.write_error")
		simrt.Trace("%s: write of %d bytes fails after %d: %v", s.Name, len(b), n, s.Err)
		return n, s.Err
	}
	s.put(b)
	simrt.Trace("%s: %d bytes written", s.Name, len(b))
	return len(b), nil
}

func (s *Sink) put(b []byte) {
	if s.Off > len(s.Data) {
		s.Data = append(s.Data, make([]byte, s.Off-len(s.Data))...)
	}
	n := copy(s.Data[s.Off:], b)
	s.Data = append(s.Data, b[n:]...)
	s.Off += len(b)
}

// Disk is what goes wrong with a file that really exists, because code that is
// not simulated reads it.
type Disk struct {
	OpenErr error
	FailAt  int64 // reading fails from this offset on; <0: never
	Err     error
	Short   int // at most so many bytes at a time; 0: no limit
	Delay   time.Duration
	Opened  int
	Failed  int // failures delivered
}

// Scratch is the directory of such files.
var Scratch string

// Reset forgets what happened so far.
func (d *Disk) Reset() { d.Opened, d.Failed = 0, 0 }

var disks map[string]*Disk

// SetDisks installs the faults of a run; nil removes them.
func SetDisks(m map[string]*Disk) { disks = m }

func (d *Disk) open(name string) error {
	d.Opened++
	if d.OpenErr != nil {
		d.Failed++
		simrt.Probe("fault.open_error")
		simrt.Trace("open %s: %v", filepath.Base(name), d.OpenErr)
	}
	return d.OpenErr
}

func (d *Disk) read(f *os.File, b []byte, off int64) ([]byte, error) {
	whole := off >= 0 // all of it or nothing
	if !whole {
		off, _ = f.Seek(0, io.SeekCurrent)
	}
	if d.Delay > 0 {
		simrt.Sleep(d.Delay)
	}
	if d.FailAt >= 0 {
		switch {
		case off >= d.FailAt, whole && off+int64(len(b)) > d.FailAt:
			d.Failed++
			simrt.Probe("fault.disk_read_error")
			simrt.Trace("%s: fails with %v", filepath.Base(f.Name()), d.Err)
			return nil, d.Err
		case off+int64(len(b)) > d.FailAt:
			b = b[:d.FailAt-off]
		}
	}
	if d.Short > 0 && !whole && len(b) > d.Short {
		simrt.Probe("fault.disk_short_read")
		b = b[:d.Short]
	}
	return b, nil
}

func init() {
	os.SimOpen = func(name string) error {
		if d := disks[name]; d != nil {
			return d.open(name)
		}
		return nil
	}
	os.SimRead = func(f *os.File, b []byte, off int64) ([]byte, error) {
		if d := disks[f.Name()]; d != nil {
			return d.read(f, b, off)
		}
		return b, nil
	}
}

// isReal tells whether a path is one of those files.
func isReal(name string) bool {
	return Scratch != "" && strings.HasPrefix(name, Scratch+string(filepath.Separator))
}

// Proc is the simulated process of a run.
type Proc struct {
	Stdin    *Source
	Stdout   *Sink
	Stderr   *Sink
	Sources  map[string]*Source // files that can be opened for reading
	OpenErr  map[string]error   // files that cannot be opened
	Sinks    map[string]*Sink   // files that were opened for writing
	NewSink  func(name string) (*Sink, error)
	Exited   bool
	ExitCode int
}

var proc *Proc

// SetProc installs the process of a run; nil removes it.
func SetProc(p *Proc, args ...string) {
	proc = p
	Args = append([]string{"kagome"}, args...)
}

// Args mirrors os.Args.
var Args = []string{"kagome"}

// File is a simulated *os.File. A File without plan behaves like an empty file.
type File struct {
	name string
	std  int // 1 stdin, 2 stdout, 3 stderr
	src  *Source
	sink *Sink
	done bool
	real *os.File
}

// Standard streams.
var (
	Stdin  = &File{name: "/dev/stdin", std: 1}
	Stdout = &File{name: "/dev/stdout", std: 2}
	Stderr = &File{name: "/dev/stderr", std: 3}
)

func (f *File) source() *Source {
	if f.std == 1 && proc != nil {
		return proc.Stdin
	}
	return f.src
}

func (f *File) out() *Sink {
	if proc != nil {
		switch f.std {
		case 2:
			return proc.Stdout
		case 3:
			return proc.Stderr
		}
	}
	return f.sink
}

func (f *File) perr(op string, err error) error {
	if err == nil || err == io.EOF {
		return err
	}
	return &fs.PathError{Op: op, Path: f.name, Err: err}
}

// Read mirrors (*os.File).Read.
func (f *File) Read(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.real != nil {
		return f.real.Read(b)
	}
	if f.done {
		return 0, f.perr("read", fs.ErrClosed)
	}
	s := f.source()
	if s == nil {
		if f.out() != nil {
			return 0, f.perr("read", syscall.EBADF)
		}
		return 0, io.EOF
	}
	n, err := s.Read(b)
	return n, f.perr("read", err)
}

// Write mirrors (*os.File).Write.
func (f *File) Write(b []byte) (int, error) {
	if f == nil {
		return 0, os.ErrInvalid
	}
	if f.real != nil {
		return f.real.Write(b)
	}
	if f.done {
		return 0, f.perr("write", fs.ErrClosed)
	}
	s := f.out()
	if s == nil {
		if f.std != 0 {
			return len(b), nil
		}
		return 0, f.perr("write", syscall.EBADF)
	}
	if proc != nil && proc.Exited {
		return 0, f.perr("write", fs.ErrClosed)
	}
	n, err := s.Write(b)
	return n, f.perr("write", err)
}

// WriteString mirrors (*os.File).WriteString.
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }

// ReadFrom mirrors (*os.File).ReadFrom.
func (f *File) ReadFrom(r io.Reader) (int64, error) {
	return io.Copy(struct{ io.Writer }{f}, r)
}

// WriteTo mirrors (*os.File).WriteTo.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, struct{ io.Reader }{f})
}

// ReadAt mirrors (*os.File).ReadAt.
func (f *File) ReadAt(b []byte, off int64) (int, error) {
	if f.real != nil {
		return f.real.ReadAt(b, off)
	}
	return 0, f.perr("read", syscall.ESPIPE)
}

// Seek mirrors (*os.File).Seek.
func (f *File) Seek(off int64, whence int) (int64, error) {
	if f.real != nil {
		return f.real.Seek(off, whence)
	}
	if s := f.out(); s != nil && f.std == 0 {
		switch whence {
		case io.SeekCurrent:
			off += int64(s.Off)
		case io.SeekEnd:
			off += int64(len(s.Data))
		}
		if off < 0 {
			return 0, f.perr("seek", syscall.EINVAL)
		}
		s.Off = int(off)
		return off, nil
	}
	return 0, f.perr("seek", syscall.ESPIPE)
}

// Sync mirrors (*os.File).Sync.
func (f *File) Sync() error {
	if s := f.out(); s != nil && s.CloseErr != nil {
		s.Failed++
		return f.perr("sync", s.CloseErr)
	}
	return nil
}

// Truncate mirrors (*os.File).Truncate.
func (f *File) Truncate(n int64) error {
	if s := f.out(); s != nil && int(n) < len(s.Data) {
		s.Data = s.Data[:n]
	}
	return nil
}

// Chmod mirrors (*os.File).Chmod.
func (f *File) Chmod(fs.FileMode) error { return nil }

// SetDeadline mirrors (*os.File).SetDeadline.
func (f *File) SetDeadline(time.Time) error { return f.perr("set deadline", os.ErrNoDeadline) }

// SetReadDeadline mirrors (*os.File).SetReadDeadline.
func (f *File) SetReadDeadline(time.Time) error { return f.perr("set deadline", os.ErrNoDeadline) }

// SetWriteDeadline mirrors (*os.File).SetWriteDeadline.
func (f *File) SetWriteDeadline(time.Time) error { return f.perr("set deadline", os.ErrNoDeadline) }

// Name mirrors (*os.File).Name.
func (f *File) Name() string { return f.name }

// Fd mirrors (*os.File).Fd.
func (f *File) Fd() uintptr { return uintptr(f.std - 1) }

// Close mirrors (*os.File).Close.
func (f *File) Close() error {
	if f == nil {
		return os.ErrInvalid
	}
	if f.real != nil {
		return f.real.Close()
	}
	simrt.Point("close " + f.name)
	if f.done {
		return f.perr("close", fs.ErrClosed)
	}
	f.done = f.std == 0
	if s := f.source(); s != nil && f.std == 0 {
		s.closed = true
	}
	if s := f.out(); s != nil && !(proc != nil && proc.Exited) {
		if f.std == 0 {
			s.Closed++
		}
		if s.CloseErr != nil {
			s.Failed++
			simrt.Probe("fault.close_error")
			simrt.Trace("%s: close fails: %v", f.name, s.CloseErr)
			return f.perr("close", s.CloseErr)
		}
		simrt.Trace("%s: closed", f.name)
	}
	return nil
}

type info struct {
	name string
	size int64
	mode fs.FileMode
}

func (i info) Name() string       { return i.name }
func (i info) Size() int64        { return i.size }
func (i info) Mode() fs.FileMode  { return i.mode }
func (i info) ModTime() time.Time { return time.Unix(0, 0) }
func (i info) IsDir() bool        { return i.mode.IsDir() }
func (i info) Sys() any           { return nil }

// Stat mirrors (*os.File).Stat: streams look like pipes, files like files.
func (f *File) Stat() (fs.FileInfo, error) {
	if f.real != nil {
		return f.real.Stat()
	}
	if f.std != 0 {
		return info{f.name, 0, fs.ModeNamedPipe | 0o600}, nil
	}
	var n int64
	if s := f.source(); s != nil {
		for _, c := range s.Chunks {
			n += int64(len(c.Data))
		}
	}
	if s := f.out(); s != nil {
		n = int64(len(s.Data))
	}
	return info{f.name, n, 0o600}, nil
}

// Open mirrors os.Open.
func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

// Create mirrors os.Create.
func Create(name string) (*File, error) {
	return OpenFile(name, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0o666)
}

// OpenFile mirrors os.OpenFile.
func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	simrt.Point("open " + name)
	if proc == nil || isReal(name) && flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		f, err := os.OpenFile(name, flag, perm)
		if err != nil {
			return nil, err
		}
		return &File{name: name, real: f}, nil
	}
	if err := proc.OpenErr[name]; err != nil {
		simrt.Probe("fault.open_error")
		simrt.Trace("open %s: %v", name, err)
		return nil, &fs.PathError{Op: "open", Path: name, Err: err}
	}
	if flag&(os.O_WRONLY|os.O_RDWR) == 0 {
		s := proc.Sources[name]
		if s == nil {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.ENOENT}
		}
		simrt.Trace("open %s for reading", name)
		return &File{name: name, src: s}, nil
	}
	s := proc.Sinks[name]
	if s == nil {
		if proc.NewSink == nil {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EACCES}
		}
		var err error
		if s, err = proc.NewSink(name); err != nil {
			simrt.Probe("fault.open_error")
			return nil, &fs.PathError{Op: "open", Path: name, Err: err}
		}
		if proc.Sinks == nil {
			proc.Sinks = map[string]*Sink{}
		}
		proc.Sinks[name] = s
	} else {
		if flag&(os.O_CREATE|os.O_EXCL) == os.O_CREATE|os.O_EXCL {
			return nil, &fs.PathError{Op: "open", Path: name, Err: syscall.EEXIST}
		}
		s.Closed = 0
	}
	s.Off = 0
	if flag&os.O_TRUNC != 0 {
		s.Data = nil
	}
	if flag&os.O_APPEND != 0 {
		s.Off = len(s.Data)
	}
	simrt.Trace("open %s for writing", name)
	return &File{name: name, sink: s}, nil
}

// NewFile mirrors os.NewFile for the standard descriptors.
func NewFile(fd uintptr, name string) *File {
	if fd <= 2 {
		return &File{name: name, std: int(fd) + 1}
	}
	return nil
}

// CreateTemp mirrors os.CreateTemp.
func CreateTemp(dir, pattern string) (*File, error) {
	if dir == "" {
		dir = "/tmp"
	}
	return Create(dir + "/" + pattern + "0")
}

// ReadFile mirrors os.ReadFile.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	b, err := io.ReadAll(f)
	return b, err
}

// WriteFile mirrors os.WriteFile.
func WriteFile(name string, data []byte, perm fs.FileMode) error {
	f, err := OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, perm)
	if err != nil {
		return err
	}
	_, err = f.Write(data)
	if cerr := f.Close(); cerr != nil && err == nil {
		err = cerr
	}
	return err
}

// Stat mirrors os.Stat.
func Stat(name string) (fs.FileInfo, error) {
	if proc == nil || isReal(name) {
		return os.Stat(name)
	}
	if s := proc.Sources[name]; s != nil {
		return (&File{name: name, src: s}).Stat()
	}
	if s := proc.Sinks[name]; s != nil {
		return (&File{name: name, sink: s}).Stat()
	}
	return nil, &fs.PathError{Op: "stat", Path: name, Err: syscall.ENOENT}
}

// Lstat mirrors os.Lstat.
func Lstat(name string) (fs.FileInfo, error) { return Stat(name) }

// Remove mirrors os.Remove.
func Remove(name string) error {
	if proc == nil {
		return errors.New("simos: no process")
	}
	if _, ok := proc.Sinks[name]; ok {
		delete(proc.Sinks, name)
		return nil
	}
	return &fs.PathError{Op: "remove", Path: name, Err: syscall.ENOENT}
}

// Rename mirrors os.Rename.
func Rename(from, to string) error {
	if proc == nil {
		return errors.New("simos: no process")
	}
	if s, ok := proc.Sinks[from]; ok {
		delete(proc.Sinks, from)
		proc.Sinks[to] = s
		return nil
	}
	return &fs.PathError{Op: "rename", Path: from, Err: syscall.ENOENT}
}

// SinkNames lists the files opened for writing.
func (p *Proc) SinkNames() []string {
	var ret []string
	for k := range p.Sinks {
		ret = append(ret, k)
	}
	sort.Strings(ret)
	return ret
}

// Getpid mirrors os.Getpid.
func Getpid() int { return 4242 }

// Getppid mirrors os.Getppid.
func Getppid() int { return 4241 }

// Hostname mirrors os.Hostname.
func Hostname() (string, error) { return "simulated", nil }

// Exit mirrors os.Exit: the simulated process ends at once; nothing it does
// afterwards (deferred calls) has any effect.
func Exit(code int) {
	if proc == nil {
		os.Exit(code)
	}
	if !proc.Exited {
		proc.Exited, proc.ExitCode = true, code
		simrt.Trace("exit %d", code)
	}
	runtime.Goexit()
}

// The convenience functions of the standard library use the simulated process too.
func init() {
	out, in, exit := fmt.SimOut, fmt.SimIn, flag.SimExit
	fmt.SimOut = func() io.Writer {
		if simrt.Active() == nil {
			return out()
		}
		return Stdout
	}
	fmt.SimIn = func() io.Reader {
		if simrt.Active() == nil {
			return in()
		}
		return Stdin
	}
	errs := flag.SimErr
	flag.SimErr = func() io.Writer {
		if simrt.Active() == nil {
			return errs()
		}
		return Stderr
	}
	flag.SimExit = func(code int) {
		if simrt.Active() == nil {
			exit(code)
		}
		Exit(code)
	}
	log.SimExit = flag.SimExit
}
