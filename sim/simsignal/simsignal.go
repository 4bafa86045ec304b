// Package simsignal mirrors package os/signal: signals are raised by the simulator.
package simsignal

import (
	"context"
	"os"
	"syscall"

	"verifsim/simrt"
)

// Plain arrays and bits: maps and appends would show up in the race detector.
type reg struct {
	c    chan<- os.Signal
	sigs uint64
}

var (
	epoch   int
	regs    [16]reg
	ignored uint64
)

func bit(s os.Signal) uint64 {
	n, ok := s.(syscall.Signal)
	if !ok || n < 0 || n > 63 {
		return 0
	}
	return 1 << uint(n)
}

func bits(sig []os.Signal) uint64 {
	if len(sig) == 0 {
		return ^uint64(0)
	}
	m := uint64(0)
	for _, s := range sig {
		m |= bit(s)
	}
	return m
}

func fresh() {
	if epoch != simrt.Epoch() {
		epoch, ignored = simrt.Epoch(), 0
		for i := range regs {
			regs[i].c = nil
		}
	}
}

// Notify mirrors signal.Notify.
func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	simrt.Point("signal.Notify")
	fresh()
	m := bits(sig)
	ignored &^= m
	simrt.Trace("signal handler installed")
	free := -1
	for i := range regs {
		if regs[i].c == c {
			regs[i].sigs |= m
			return
		}
		if regs[i].c == nil && free < 0 {
			free = i
		}
	}
	if free < 0 {
		panic("simsignal: too many handlers")
	}
	regs[free].c, regs[free].sigs = c, m
}

// Stop mirrors signal.Stop.
func Stop(c chan<- os.Signal) {
	simrt.Point("signal.Stop")
	fresh()
	for i := range regs {
		if regs[i].c == c {
			regs[i].c = nil
		}
	}
}

// Ignore mirrors signal.Ignore.
func Ignore(sig ...os.Signal) {
	fresh()
	Reset(sig...)
	ignored |= bits(sig)
}

// Ignored mirrors signal.Ignored.
func Ignored(sig os.Signal) bool { fresh(); return ignored&bit(sig) != 0 }

// Reset mirrors signal.Reset.
func Reset(sig ...os.Signal) {
	fresh()
	m := bits(sig)
	ignored &^= m
	for i := range regs {
		regs[i].sigs &^= m
	}
}

// NotifyContext mirrors signal.NotifyContext.
func NotifyContext(parent context.Context, sig ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	c := make(chan os.Signal, 1)
	Notify(c, sig...)
	if ctx.Err() == nil {
		go func() {
			select {
			case <-c:
				cancel()
			case <-ctx.Done():
			}
		}()
	}
	return ctx, func() {
		cancel()
		Stop(c)
	}
}

// Raise delivers a signal to the simulated process. The result tells what
// happened: "handled", "ignored" or "killed" (no handler installed).
func Raise(sig os.Signal) string {
	fresh()
	handled := false
	for i := range regs {
		if regs[i].c != nil && regs[i].sigs&bit(sig) != 0 {
			handled = true
			select {
			case regs[i].c <- sig:
			default:
			}
		}
	}
	if handled {
		return "handled"
	}
	if ignored&bit(sig) != 0 || sig == syscall.SIGCHLD || sig == syscall.SIGURG || sig == syscall.SIGWINCH {
		return "ignored"
	}
	return "killed"
}
