package vnet

import x "net"

// ListenHook is set by the harness.
var ListenHook func(network, addr string) (x.Listener, error)

func Listen(network, addr string) (x.Listener, error) {
	if ListenHook == nil {
		return nil, &x.OpError{Op: "listen", Net: network, Err: x.UnknownNetworkError("no fake network")}
	}
	return ListenHook(network, addr)
}
