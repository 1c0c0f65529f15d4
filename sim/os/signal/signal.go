// Package signal delivers signals injected by the simulator.
package signal

import (
	"context"
	"os"

	"trcsim/rt"
)

type reg struct {
	c    chan<- os.Signal
	sigs []os.Signal
}

var regs []*reg

func init() { rt.RegisterReset("os/signal", func() { regs = nil }) }

func Notify(c chan<- os.Signal, sig ...os.Signal) { regs = append(regs, &reg{c, sig}) }

func Stop(c chan<- os.Signal) {
	var o []*reg
	for _, r := range regs {
		if r.c != c {
			o = append(o, r)
		}
	}
	regs = o
}

func Ignore(sig ...os.Signal)    {}
func Ignored(sig os.Signal) bool { return false }
func Reset(sig ...os.Signal)     {}

// Registered reports whether anyone listens for sig.
func Registered(sig os.Signal) bool {
	for _, r := range regs {
		if r.wants(sig) {
			return true
		}
	}
	return false
}

func (r *reg) wants(sig os.Signal) bool {
	if len(r.sigs) == 0 {
		return true
	}
	for _, s := range r.sigs {
		if s == sig {
			return true
		}
	}
	return false
}

// Inject delivers sig and reports whether anyone listened.
func Inject(sig os.Signal) bool {
	any := false
	for _, r := range regs {
		if r.wants(sig) {
			any = true
			rt.Select(true, rt.CaseSend(r.c)(sig))
		}
	}
	return any
}

func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithCancel(parent)
	ch := rt.Reg(make(chan os.Signal, 1))
	Notify(ch, sigs...)
	rt.Spawn("notifyctx", true, func() {
		a, b := rt.CaseRecv(ch), rt.CaseRecv(ctx.Done())
		rt.Select(false, a, b)
		cancel()
		rt.Wake()
	})
	return ctx, func() { Stop(ch); cancel(); rt.Wake() }
}
