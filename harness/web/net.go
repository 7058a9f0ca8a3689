package web

import (
	"net"
	"sync"
)

// network is an in-process network: a listener whose connections are net.Pipes.
type network struct {
	conns chan net.Conn
	done  chan struct{}
	once  sync.Once
}

func newNetwork() *network { return &network{conns: make(chan net.Conn), done: make(chan struct{})} }

func (n *network) Accept() (net.Conn, error) {
	select {
	case c := <-n.conns:
		return c, nil
	case <-n.done:
		return nil, net.ErrClosed
	}
}

func (n *network) Close() error   { n.once.Do(func() { close(n.done) }); return nil }
func (n *network) Addr() net.Addr { return &net.UnixAddr{Name: "pipe", Net: "pipe"} }

func (n *network) Dial() (net.Conn, error) {
	a, b := net.Pipe()
	select {
	case n.conns <- b:
		return a, nil
	case <-n.done:
		return nil, net.ErrClosed
	}
}
