// Package vsignal stands in for os/signal: signals are delivered by the harness.
package vsignal

import (
	"context"
	"os"

	"github.com/yusank/godis/zzverif/vsched"
)

type handler struct {
	ch     chan<- os.Signal
	cancel func(error)
	all    bool
	sigs   map[os.Signal]bool
}

func (h *handler) wants(s os.Signal) bool { return h.all || h.sigs[s] }

var (
	handlers []*handler
	ignored  = map[os.Signal]bool{}
)

// Clear forgets every registration (set-up of a run).
func Clear() { handlers, ignored = nil, map[os.Signal]bool{} }

// Deliver sends a signal to the process; it returns false if the default action (the process is killed) applies.
func Deliver(s os.Signal) (handled bool) {
	for _, h := range handlers {
		if !h.wants(s) {
			continue
		}
		handled = true
		if h.cancel != nil {
			h.cancel(nil)
		} else {
			vsched.RawSend(h.ch, s)
		}
	}
	return handled || ignored[s]
}

func (h *handler) add(sigs []os.Signal) {
	if len(sigs) == 0 {
		h.all = true
	}
	for _, s := range sigs {
		h.sigs[s] = true
		delete(ignored, s)
	}
}

func Notify(c chan<- os.Signal, sig ...os.Signal) {
	if c == nil {
		panic("os/signal: Notify using nil channel")
	}
	vsched.Point("signal.Notify")
	for _, h := range handlers {
		if h.ch == c {
			h.add(sig)
			return
		}
	}
	h := &handler{ch: c, sigs: map[os.Signal]bool{}}
	h.add(sig)
	handlers = append(handlers, h)
}

func NotifyContext(parent context.Context, signals ...os.Signal) (context.Context, context.CancelFunc) {
	vsched.Point("signal.NotifyContext")
	ctx, cancel := vsched.CtxCancel(parent)
	h := &handler{cancel: cancel, sigs: map[os.Signal]bool{}}
	h.add(signals)
	handlers = append(handlers, h)
	return ctx, func() { drop(func(x *handler) bool { return x == h }); cancel(nil) }
}

func drop(f func(*handler) bool) {
	var l []*handler
	for _, h := range handlers {
		if !f(h) {
			l = append(l, h)
		}
	}
	handlers = l
}

func Stop(c chan<- os.Signal) {
	vsched.Point("signal.Stop")
	drop(func(h *handler) bool { return h.ch == c })
}

func Ignore(sig ...os.Signal) {
	Reset(sig...)
	for _, s := range sig {
		ignored[s] = true
	}
}

func Ignored(s os.Signal) bool { return ignored[s] }

func Reset(sig ...os.Signal) {
	vsched.Point("signal.Reset")
	if len(sig) == 0 {
		handlers, ignored = nil, map[os.Signal]bool{}
	}
	for _, s := range sig {
		delete(ignored, s)
		for _, h := range handlers {
			delete(h.sigs, s)
		}
	}
}
