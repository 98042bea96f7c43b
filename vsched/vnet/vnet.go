// Package vnet is a drop-in for net with an in-memory network under the controlled scheduler.
package vnet

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"vsched"
	"vsched/vtime"
)

// MemAddr of an in-memory endpoint.
type MemAddr string

func (a MemAddr) Network() string { return "tcp" }
func (a MemAddr) String() string  { return string(a) }

type half struct {
	buf    []byte
	closed bool // writer closed
	vc     vsched.VC
	cap    int  // send buffer size, 0: unlimited
	busy   bool // a Write is under way
}

// MemConn is one end of an in-memory connection.
type MemConn struct {
	Name      string
	in, out   *half
	peer      *MemConn
	closed    bool
	rdl, wdl  time.Time
	rt, wt    *vsched.Timer
	rhit      bool
	whit      bool
	Split     func(n int) int             // how many of n available bytes a Read may return (default: all)
	FailWrite func(b []byte) (int, error) // optional fault
	FailRead  func() error
	NoPoint   bool
	local     net.Addr
	remote    net.Addr
	WriteLog  func(b []byte)
}

// NewPair makes a connected pair.
func NewPair(a, b string) (*MemConn, *MemConn) {
	x, y := &half{}, &half{}
	c := &MemConn{Name: a, in: x, out: y, local: MemAddr(a), remote: MemAddr(b)}
	d := &MemConn{Name: b, in: y, out: x, local: MemAddr(b), remote: MemAddr(a)}
	c.peer, d.peer = d, c
	return c, d
}

func operr(op string, err error) error {
	return &net.OpError{Op: op, Net: "tcp", Err: err}
}

// Buffered is the number of unread bytes.
func (c *MemConn) Buffered() int { return len(c.in.buf) }

// IsClosed reports a local close.
func (c *MemConn) IsClosed() bool { return c.closed }

func (c *MemConn) Read(b []byte) (int, error) {
	vsched.Point("net.Read")
	if len(b) == 0 {
		return 0, nil
	}
	if c.FailRead != nil {
		if err := c.FailRead(); err != nil {
			return 0, err
		}
	}
	ready := func() bool { return c.closed || c.rhit || len(c.in.buf) > 0 || c.in.closed }
	if !ready() {
		vsched.Block("net.Read "+c.Name, ready)
	}
	if c.closed {
		return 0, operr("read", net.ErrClosed)
	}
	if c.rhit {
		return 0, operr("read", os.ErrDeadlineExceeded)
	}
	if len(c.in.buf) == 0 {
		return 0, io.EOF
	}
	n := min(len(b), len(c.in.buf))
	if c.Split != nil {
		n = c.Split(n)
	}
	copy(b, c.in.buf[:n])
	c.in.buf = c.in.buf[n:]
	vsched.Acquire(c.in.vc)
	return n, nil
}

func (c *MemConn) Write(b []byte) (int, error) {
	vsched.Point("net.Write")
	if c.closed {
		return 0, operr("write", net.ErrClosed)
	}
	if c.whit {
		return 0, operr("write", os.ErrDeadlineExceeded)
	}
	if c.FailWrite != nil {
		if n, err := c.FailWrite(b); err != nil {
			c.out.buf = append(c.out.buf, b[:n]...)
			return n, err
		}
	}
	if c.peer.closed {
		return 0, operr("write", os.NewSyscallError("write", errors.New("broken pipe")))
	}
	if c.out.cap > 0 {
		return c.writeBounded(b)
	}
	if c.WriteLog != nil {
		c.WriteLog(b)
	}
	c.out.buf = append(c.out.buf, b...)
	vsched.Release(&c.out.vc)
	return len(b), nil
}

// SetSendBuffer bounds the bytes this end may have in flight; a Write that does not fit waits for the peer to read.
func (c *MemConn) SetSendBuffer(n int) { c.out.cap = n }

func (c *MemConn) writeBounded(b []byte) (n int, err error) {
	stop := func() bool { return c.closed || c.whit || c.peer.closed }
	if c.out.busy {
		vsched.Block("net.Write "+c.Name, func() bool { return !c.out.busy || stop() })
	}
	if c.out.busy || stop() {
		return 0, c.writeErr()
	}
	c.out.busy = true
	defer func() { c.out.busy = false }()
	for len(b) > 0 {
		free := func() int { return c.out.cap - len(c.out.buf) }
		if free() <= 0 {
			vsched.Block("net.Write "+c.Name, func() bool { return free() > 0 || stop() })
		}
		if stop() {
			return n, c.writeErr()
		}
		k := min(free(), len(b))
		if c.WriteLog != nil {
			c.WriteLog(b[:k])
		}
		c.out.buf = append(c.out.buf, b[:k]...)
		b = b[k:]
		n += k
		vsched.Release(&c.out.vc)
	}
	return n, nil
}

func (c *MemConn) writeErr() error {
	switch {
	case c.closed:
		return operr("write", net.ErrClosed)
	case c.whit:
		return operr("write", os.ErrDeadlineExceeded)
	}
	return operr("write", os.NewSyscallError("write", errors.New("broken pipe")))
}

// Close closes the connection.
func (c *MemConn) Close() error {
	if vsched.Aborting() {
		return nil
	}
	vsched.Point("net.Close")
	if c.closed {
		return operr("close", net.ErrClosed)
	}
	c.closed = true
	c.out.closed = true
	vsched.Release(&c.out.vc)
	c.stop(&c.rt)
	c.stop(&c.wt)
	return nil
}

// CloseWrite half-closes.
func (c *MemConn) CloseWrite() error {
	c.out.closed = true
	return nil
}

func (c *MemConn) stop(t **vsched.Timer) {
	if *t != nil {
		vsched.DelTimer(*t)
		*t = nil
	}
}

func (c *MemConn) arm(t **vsched.Timer, hit *bool, d time.Time) {
	c.stop(t)
	*hit = false
	if d.IsZero() {
		return
	}
	left := vtime.Until(d)
	if left <= 0 {
		*hit = true
		return
	}
	*t = vsched.AddTimer(int64(left), func() { *hit = true; *t = nil })
}

func (c *MemConn) LocalAddr() net.Addr  { return c.local }
func (c *MemConn) RemoteAddr() net.Addr { return c.remote }
func (c *MemConn) SetDeadline(t time.Time) error {
	if c.closed {
		return operr("set", net.ErrClosed)
	}
	c.arm(&c.rt, &c.rhit, t)
	c.arm(&c.wt, &c.whit, t)
	return nil
}
func (c *MemConn) SetReadDeadline(t time.Time) error {
	if c.closed {
		return operr("set", net.ErrClosed)
	}
	c.arm(&c.rt, &c.rhit, t)
	return nil
}
func (c *MemConn) SetWriteDeadline(t time.Time) error {
	if c.closed {
		return operr("set", net.ErrClosed)
	}
	c.arm(&c.wt, &c.whit, t)
	return nil
}
func (c *MemConn) SetNoDelay(bool) error                  { return nil }
func (c *MemConn) SetKeepAlive(bool) error                { return nil }
func (c *MemConn) SetKeepAlivePeriod(time.Duration) error { return nil }
func (c *MemConn) ReadDeadline() time.Time                { return c.rdl }

// Pipe is net.Pipe (here: buffered).
func Pipe() (net.Conn, net.Conn) { return NewPair("pipe-a", "pipe-b") }

// MemListener is an in-memory listener.
type MemListener struct {
	addr    string
	backlog []*MemConn
	closed  bool
	ep      uint64
	OnDial  func(client, server *MemConn)
}

var listeners = map[string]*MemListener{}
var listenEpoch uint64

func table() map[string]*MemListener {
	if e := vsched.Epoch(); e != listenEpoch {
		listenEpoch = e
		listeners = map[string]*MemListener{}
	}
	return listeners
}

// ListenMem listens on an in-memory address.
func ListenMem(addr string) *MemListener {
	l := &MemListener{addr: addr}
	table()[addr] = l
	return l
}

// Listen is net.Listen.
func Listen(network, addr string) (net.Listener, error) {
	if !vsched.Active() {
		return nil, errors.New("vnet: no execution")
	}
	return ListenMem(addr), nil
}

func (l *MemListener) Accept() (net.Conn, error) {
	vsched.Point("Accept")
	vsched.Block("Accept "+l.addr, func() bool { return l.closed || len(l.backlog) > 0 })
	if l.closed {
		return nil, operr("accept", net.ErrClosed)
	}
	c := l.backlog[0]
	l.backlog = l.backlog[1:]
	return c, nil
}
func (l *MemListener) Close() error {
	l.closed = true
	return nil
}
func (l *MemListener) Addr() net.Addr { return MemAddr(l.addr) }

var dialSeq int

// Dial is net.Dial.
func Dial(network, addr string) (net.Conn, error) {
	vsched.Point("Dial")
	l := table()[addr]
	if l == nil || l.closed {
		return nil, operr("dial", os.NewSyscallError("connect", fmt.Errorf("connection refused (%s)", addr)))
	}
	dialSeq++
	c, s := NewPair("client->"+addr, "server@"+addr)
	if l.OnDial != nil {
		l.OnDial(c, s)
	}
	l.backlog = append(l.backlog, s)
	return c, nil
}

// DialTimeout is net.DialTimeout.
func DialTimeout(network, addr string, _ time.Duration) (net.Conn, error) { return Dial(network, addr) }

// Dialer is net.Dialer.
type Dialer struct {
	Timeout         time.Duration
	Deadline        time.Time
	LocalAddr       net.Addr
	DualStack       bool
	FallbackDelay   time.Duration
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
	Resolver        *net.Resolver
	Cancel          <-chan struct{}
	Control         any
	ControlContext  any
}

func (d *Dialer) Dial(network, addr string) (net.Conn, error) { return Dial(network, addr) }
func (d *Dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	return Dial(network, addr)
}

// LookupHost resolves nothing: every host is itself.
func LookupHost(host string) ([]string, error) { return []string{host}, nil }
