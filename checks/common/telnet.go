package telnet

import (
	"errors"
	"io"
	"net"
	"os"
	"time"
	"unsafe"
)

// vPeer is the far end of one telnet connection.
type vPeer struct {
	id       unsafe.Pointer
	input    chan []byte   // what the client sends
	done     chan struct{} // the connection is closed by the server
	isClosed bool
	received []byte          // what the client received
	split    func(n int) int // how many bytes one write takes
	failed   bool            // writing fails
	stuck    bool            // the client takes no data
	deadline bool            // a deadline is set for writing
	gate     chan struct{}   // when this is given, data is taken only after it is closed
}

func vNewPeer() *vPeer {
	return &vPeer{input: make(chan []byte, 8), done: make(chan struct{})}
}

func (p *vPeer) text() string {
	return string(p.received)
}

func (p *vPeer) fail() {
	p.failed = true
}

func (p *vPeer) closed() bool { return p.isClosed }

// stick makes the client take no more data.
func (p *vPeer) stick() { p.stuck = true }

func (p *vPeer) Write(b []byte) (int, error) {
	if p.stuck {
		if p.deadline {
			select {
			case <-p.done:
				return 0, net.ErrClosed
			case <-time.After(time.Second):
				return 0, os.ErrDeadlineExceeded
			}
		}
		<-p.done
		return 0, net.ErrClosed
	}
	if p.failed {
		return 0, errors.New("broken pipe")
	}
	if p.closed() {
		return 0, net.ErrClosed
	}
	if p.gate != nil {
		select {
		case <-p.gate:
		case <-p.done:
			return 0, net.ErrClosed
		}
	}
	n := len(b)
	if p.split != nil {
		n = p.split(n)
	}
	p.received = append(p.received, b[:n]...)
	return n, nil
}

func (p *vPeer) Read(b []byte) (int, error) {
	select {
	case data, ok := <-p.input:
		if !ok {
			return 0, io.EOF
		}
		return copy(b, data), nil
	case <-p.done:
		return 0, net.ErrClosed
	}
}

func (p *vPeer) Close() error {
	if !p.isClosed {
		p.isClosed = true
		close(p.done)
	}
	return nil
}

func (p *vPeer) SetWriteDeadline(t time.Time) error {
	p.deadline = true
	return nil
}

// The network: vListener, vAccept and vConn... stand for the functions of package net.

var (
	vIncoming       chan *vPeer
	vPeers          []*vPeer
	vListenerClosed bool
	vTicks          chan bool
)

func vNetwork() {
	vIncoming = make(chan *vPeer, 8)
	vPeers = nil
	vListenerClosed = false
	vTicks = make(chan bool, 64)
}

func vResolve(network, address string) (*net.TCPAddr, error) {
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 7373}, nil
}

func vListen(network string, addr *net.TCPAddr) (*net.TCPListener, error) {
	return &net.TCPListener{}, nil
}

func vListenerClose(l *net.TCPListener) error {
	vListenerClosed = true
	return nil
}

func vSetDeadline(l *net.TCPListener, t time.Time) error { return nil }

// vAccept waits for the next client or until the deadline passes.
func vAccept(l *net.TCPListener) (*net.TCPConn, error) {
	select {
	case p := <-vIncoming:
		vPeers = append(vPeers, p)
		return &net.TCPConn{}, nil
	case <-vTicks:
		return nil, os.ErrDeadlineExceeded
	}
}

// vPass lets the time pass: the server waits for a new client in vain.
func vPass() {
	vSettle()
	vTicks <- true
	vSettle()
}

func vPeerOf(id unsafe.Pointer) *vPeer {
	for _, p := range vPeers {
		if p.id == id {
			return p
		}
	}
	p := vPeers[len(vPeers)-1]
	vAssert(p.id == nil, "harness: the connection is known")
	p.id = id
	return p
}

func vConnAddr(c unsafe.Pointer) net.Addr {
	vPeerOf(c)
	return &net.TCPAddr{IP: net.IPv4(127, 0, 0, 1), Port: 1}
}
func vKeepAlivePeriod(c *net.TCPConn, d time.Duration) error { return nil }
func vKeepAlive(c *net.TCPConn, on bool) error               { return nil }
func vConnRead(c unsafe.Pointer, b []byte) (int, error)      { return vPeerOf(c).Read(b) }
func vConnWrite(c unsafe.Pointer, b []byte) (int, error)     { return vPeerOf(c).Write(b) }
func vConnClose(c unsafe.Pointer) error                      { return vPeerOf(c).Close() }
func vConnWriteDeadline(c unsafe.Pointer, t time.Time) error { return vPeerOf(c).SetWriteDeadline(t) }
