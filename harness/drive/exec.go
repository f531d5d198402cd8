// Package drive runs the instrumented system: resetting it, executing commands, digesting its heap, and
// exploring command histories breadth first against the reference model.
package drive

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/yusank/godis/debug"
	"github.com/yusank/godis/event"
	"github.com/yusank/godis/protocol"
	"github.com/yusank/godis/zzverif/registry"
	"github.com/yusank/godis/zzverif/resp"
	"github.com/yusank/godis/zzverif/vsched"
)

// Debug makes the system behave like a debug build.
var Debug bool

// Reset re-runs the initialisation of every package of the system (call inside a run).
func Reset() {
	for _, p := range registry.Pkgs {
		if !strings.HasPrefix(p.Path, "zzverif") { // main packages: ResetAll
			p.Reset()
		}
	}
	debug.DEBUG = Debug
	vsched.ResetBudget()
}

// Decode turns a request into what the request handler takes.
func Decode(args []string) *protocol.Receive {
	rec, err := protocol.DecodeFromReader(bytes.NewBuffer(resp.Encode(args...)))
	if err != nil {
		panic(fmt.Sprintf("request %q does not decode: %v", args, err))
	}
	return rec
}

// Exec executes one command through the request handler.
func Exec(args []string) []byte { return event.HandleRequest(Decode(args)) }

// Do executes one command and parses its reply.
func Do(args []string) (resp.Value, error) {
	b := Exec(args)
	v, err := resp.One(b)
	if err != nil {
		err = fmt.Errorf("reply %q is not one RESP value: %v", clipb(b), err)
	}
	return v, err
}

func clipb(b []byte) string {
	if len(b) > 120 {
		return string(b[:120]) + "..."
	}
	return string(b)
}

// ResetAll also re-runs the initialisation of the main packages.
func ResetAll() {
	for _, p := range registry.Pkgs {
		p.Reset()
	}
	vsched.ResetBudget()
}
