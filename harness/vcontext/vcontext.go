package vcontext

import (
	x "context"
	"time"

	"github.com/yusank/godis/zzverif/vsched"
)

func WithCancel(p x.Context) (x.Context, x.CancelFunc) {
	c, f := vsched.CtxCancel(p)
	return c, func() { f(nil) }
}
func WithCancelCause(p x.Context) (x.Context, x.CancelCauseFunc) { return vsched.CtxCancel(p) }
func WithTimeout(p x.Context, d time.Duration) (x.Context, x.CancelFunc) {
	return vsched.CtxDeadline(p, d, nil)
}
func WithTimeoutCause(p x.Context, d time.Duration, e error) (x.Context, x.CancelFunc) {
	return vsched.CtxDeadline(p, d, e)
}
func WithDeadline(p x.Context, t time.Time) (x.Context, x.CancelFunc) {
	return vsched.CtxDeadline(p, t.Sub(vsched.Base.Add(time.Duration(vsched.NowNs()))), nil)
}
func WithDeadlineCause(p x.Context, t time.Time, e error) (x.Context, x.CancelFunc) {
	return vsched.CtxDeadline(p, t.Sub(vsched.Base.Add(time.Duration(vsched.NowNs()))), e)
}
func WithValue(p x.Context, k, v any) x.Context   { return vsched.CtxValue(p, k, v) }
func WithoutCancel(p x.Context) x.Context         { return vsched.CtxWithoutCancel(p) }
func Cause(c x.Context) error                     { return vsched.CtxCause(c) }
func AfterFunc(c x.Context, f func()) func() bool { return vsched.CtxAfterFunc(c, f) }
