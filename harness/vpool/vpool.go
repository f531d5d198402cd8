package vpool

import "github.com/yusank/godis/zzverif/vsched"

// Pool has the semantics of the non-blocking ants pool with ample capacity: tasks run concurrently, a panicking
// task is recovered and logged, submitting to a released pool fails.
type Pool struct {
	closed  bool
	running int
}

// Overloaded makes every Submit fail as a full pool does (set by the harness).
var Overloaded bool

type poolError string

func (e poolError) Error() string { return string(e) }

const (
	DefaultAntsPoolSize = 1 << 18
	Nonblocking         = true
)

func Default() *Pool { return &Pool{} }
func (p *Pool) Submit(task func()) error {
	vsched.Point("pool.Submit")
	if p.closed {
		return poolError("this pool has been closed")
	}
	if Overloaded {
		return poolError("too many goroutines blocked on submit or Nonblocking is set")
	}
	p.running++
	vsched.GoTask(func() {
		defer func() { p.running-- }()
		task()
	})
	return nil
}
func (p *Pool) Release()       { vsched.Point("pool.Release"); p.closed = true }
func (p *Pool) Reboot()        { p.closed = false }
func (p *Pool) Running() int   { return p.running }
func (p *Pool) Free() int      { return DefaultAntsPoolSize - p.running }
func (p *Pool) Cap() int       { return DefaultAntsPoolSize }
func (p *Pool) IsClosed() bool { return p.closed }
func (p *Pool) Tune(int)       {}
