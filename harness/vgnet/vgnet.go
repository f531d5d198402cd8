package vgnet

import (
	"context"

	x "github.com/panjf2000/gnet"
)

// ServeHook and StopHook are set by the harness (a fake event loop).
var (
	ServeHook func(h x.EventHandler, addr string, o *x.Options) error
	StopHook  func(ctx context.Context, addr string) error
)

func Serve(h x.EventHandler, addr string, opts ...x.Option) error {
	o := new(x.Options)
	for _, f := range opts {
		f(o)
	}
	return ServeHook(h, addr, o)
}

func Stop(ctx context.Context, addr string) error { return StopHook(ctx, addr) }
