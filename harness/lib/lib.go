// Package lib is the closed world the scenarios run in: in-memory sockets between real neffos servers and clients
// (or raw peers), recorded callbacks, and faults.
package lib

import (
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/kataras/neffos"
	"vsched"
)

// Frame is one websocket message.
type Frame struct {
	Typ  neffos.MessageType
	Data []byte
	vc   vsched.VC
}

// End is one end of an in-memory socket; it implements neffos.Socket.
type End struct {
	Name   string
	in     []Frame
	peer   *End
	closed bool
	req    *http.Request
	conn   *endConn

	Sent       []Frame // everything written
	Reads      int
	ReadTOs    []time.Duration
	WriteTOs   []time.Duration
	FailWrite  func(f Frame) error // injected write fault (nothing is sent)
	BreakWrite error               // every write fails with this
	BreakRead  error               // every read fails with this
	Closes     int
	reading    int
	MaxReaders int
	writing    int
	Tap        func(f Frame) // observes successful writes
	stalled    bool
	held       bool
}

// Pair makes two connected ends.
func Pair(a, b string) (*End, *End) {
	x, y := &End{Name: a}, &End{Name: b}
	x.peer, y.peer = y, x
	x.conn, y.conn = &endConn{x}, &endConn{y}
	return x, y
}

type endConn struct{ e *End }

func (c *endConn) Read(b []byte) (int, error)         { return 0, errors.New("message socket") }
func (c *endConn) Write(b []byte) (int, error)        { return 0, errors.New("message socket") }
func (c *endConn) Close() error                       { c.e.Shut(); return nil }
func (c *endConn) LocalAddr() net.Addr                { return addr(c.e.Name) }
func (c *endConn) RemoteAddr() net.Addr               { return addr(c.e.peer.Name) }
func (c *endConn) SetDeadline(t time.Time) error      { return nil }
func (c *endConn) SetReadDeadline(t time.Time) error  { return nil }
func (c *endConn) SetWriteDeadline(t time.Time) error { return nil }

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

// Shut closes this end.
func (e *End) Shut() {
	if vsched.Aborting() {
		return
	}
	vsched.Point("socket.Close " + e.Name)
	e.Closes++
	e.closed = true
}

// Closed reports whether this end was closed locally.
func (e *End) Closed() bool { return e.closed }

// Peer is the other end.
func (e *End) Peer() *End { return e.peer }

// Hold makes writes of this end wait (a full send buffer) until released.
func (e *End) Hold(on bool) { e.held = on }

// Stall makes reads of this end wait (a slow network) until released.
func (e *End) Stall(on bool) { e.stalled = on }

func (e *End) NetConn() net.Conn       { return e.conn }
func (e *End) Request() *http.Request  { return e.req }
func opErr(op string, err error) error { return &net.OpError{Op: op, Net: "mem", Err: err} }

// ErrClosedConn is what a closed socket answers.
func ErrClosedConn(op string) error { return opErr(op, net.ErrClosed) }

// ErrTimeout is what an expired deadline answers.
func ErrTimeout(op string) error { return opErr(op, os.ErrDeadlineExceeded) }

func (e *End) ReadData(timeout time.Duration) ([]byte, neffos.MessageType, error) {
	e.ReadTOs = append(e.ReadTOs, timeout)
	vsched.Point("socket.Read " + e.Name)
	e.reading++
	if e.reading > e.MaxReaders {
		e.MaxReaders = e.reading
	}
	expired := false
	var tm *vsched.Timer
	if timeout > 0 {
		tm = vsched.AddTimer(int64(timeout), func() { expired = true })
	}
	ready := func() bool {
		return e.closed || expired || e.BreakRead != nil || !e.stalled && (len(e.in) > 0 || e.peer.closed)
	}
	if !ready() {
		vsched.Block("socket.Read "+e.Name, ready)
	}
	e.reading--
	if tm != nil {
		vsched.DelTimer(tm)
	}
	switch {
	case e.closed:
		return nil, 0, ErrClosedConn("read")
	case e.BreakRead != nil:
		return nil, 0, e.BreakRead
	case !e.stalled && len(e.in) > 0:
		f := e.in[0]
		e.in = e.in[1:]
		e.Reads++
		vsched.Acquire(f.vc)
		return f.Data, f.Typ, nil
	case expired:
		return nil, 0, ErrTimeout("read")
	default:
		return nil, 0, io.EOF
	}
}

func (e *End) write(typ neffos.MessageType, body []byte, timeout time.Duration) error {
	e.WriteTOs = append(e.WriteTOs, timeout)
	vsched.Point("socket.Write " + e.Name)
	if e.held {
		vsched.Block("socket.Write "+e.Name, func() bool { return !e.held || e.closed || e.peer.closed })
	}
	if e.closed {
		return ErrClosedConn("write")
	}
	if e.BreakWrite != nil {
		return e.BreakWrite
	}
	f := Frame{Typ: typ, Data: append([]byte(nil), body...), vc: vsched.CurVC()}
	if e.FailWrite != nil {
		if err := e.FailWrite(f); err != nil {
			return err
		}
	}
	if e.peer.closed {
		return opErr("write", os.NewSyscallError("write", errors.New("broken pipe")))
	}
	e.Sent = append(e.Sent, f)
	e.peer.in = append(e.peer.in, f)
	if e.Tap != nil {
		e.Tap(f)
	}
	return nil
}

func (e *End) WriteBinary(body []byte, timeout time.Duration) error {
	return e.write(neffos.BinaryMessage, body, timeout)
}

func (e *End) WriteText(body []byte, timeout time.Duration) error {
	return e.write(neffos.TextMessage, body, timeout)
}

// Pending is the number of frames this end has not read yet.
func (e *End) Pending() int { return len(e.in) }

type ctxKey struct{}

// Host is a server with in-memory accept.
type Host struct {
	Srv   *neffos.Server
	Conns []*Accepted
	Fail  error // upgrader fails with this

	Wrap  func(neffos.Socket) neffos.Socket // passed to Upgrade
	IDGen neffos.IDGenerator
}

// Accepted is one accepted (or refused) connection.
type Accepted struct {
	ID     string
	Client *End
	Server *End
	Conn   *neffos.Conn // the result of Upgrade
	Err    error
	Done   bool
}

// Upgrader takes the socket from the request.
func Upgrader(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
	a := r.Context().Value(ctxKey{}).(*accept)
	if a.host != nil && a.host.Fail != nil {
		return nil, a.host.Fail
	}
	a.upgraded = true
	return a.acc.Server, nil
}

type accept struct {
	host     *Host
	acc      *Accepted
	upgraded bool
}

// NewHost starts a server.
func NewHost(h neffos.ConnHandler) *Host {
	host := &Host{}
	host.Srv = neffos.New(Upgrader, h)
	host.Srv.IDGenerator = func(w http.ResponseWriter, r *http.Request) string { return r.Header.Get("X-Conn-Id") }
	return host
}

// Dialer dials the host; the id is what the server's IDGenerator will choose.
func (h *Host) Dialer(id string) neffos.Dialer { return h.DialerHdr(id, nil) }

// DialerHdr is Dialer with extra request headers.
func (h *Host) DialerHdr(id string, hdr http.Header) neffos.Dialer {
	return func(ctx context.Context, u string) (neffos.Socket, error) {
		a := h.Accept(id, u, hdr)
		vsched.Block("dial "+id, func() bool { return a.upgraded || a.acc.Done })
		if !a.upgraded {
			return nil, fmt.Errorf("bad handshake: %v", a.acc.Err)
		}
		return a.acc.Client, nil
	}
}

// Accept starts the server side of a new connection, as the http server would, and returns at once.
func (h *Host) Accept(id, u string, hdr http.Header) *accept {
	c, s := Pair("cli:"+id, "srv:"+id)
	acc := &Accepted{ID: id, Client: c, Server: s}
	h.Conns = append(h.Conns, acc)
	a := &accept{host: h, acc: acc}
	uu, _ := url.Parse(strings.Replace(u, "ws://", "http://", 1))
	r := &http.Request{Method: "GET", URL: uu, Header: http.Header{"X-Conn-Id": {id}}, Host: "mem"}
	for k, v := range hdr {
		r.Header[k] = v
	}
	r = r.WithContext(context.WithValue(context.Background(), ctxKey{}, a))
	s.req, c.req = r, r
	vsched.GoNamed("http:"+id, func() {
		acc.Conn, acc.Err = h.Srv.Upgrade(httptest.NewRecorder(), r, h.Wrap, h.IDGen)
		acc.Done = true
	})
	return a
}

// Raw connects a raw peer (no neffos client): the returned end is the client's.
func (h *Host) Raw(id string) (*End, *Accepted) {
	a := h.Accept(id, "ws://mem/", nil)
	vsched.Block("raw "+id, func() bool { return a.upgraded || a.acc.Done })
	return a.acc.Client, a.acc
}

// Get is the server side record of a connection id (the latest one).
func (h *Host) Get(id string) *Accepted {
	for i := len(h.Conns) - 1; i >= 0; i-- {
		if h.Conns[i].ID == id {
			return h.Conns[i]
		}
	}
	return nil
}

// SConn is the server-side connection of id.
func (h *Host) SConn(id string) *neffos.Conn {
	a := h.Get(id)
	vsched.Block("upgrade of "+id, func() bool { return a.Done })
	return a.Conn
}

// Dial dials and fails the execution on error.
func (h *Host) Dial(id string, ch neffos.ConnHandler) *neffos.Client {
	c, err := neffos.Dial(nil, h.Dialer(id), "ws://mem/", ch)
	if err != nil {
		vsched.Fail("Dial of %s failed: %v", id, err)
	}
	return c
}

// ConnOf is the connection behind a client (whatever its field is called).
func ConnOf(c *neffos.Client) *neffos.Conn {
	v := reflect.ValueOf(c).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == reflect.TypeOf((*neffos.Conn)(nil)) {
			return (*neffos.Conn)(v.Field(i).UnsafePointer())
		}
	}
	panic("neffos.Client has no connection field")
}

// Must fails the execution on error.
func Must(what string, err error) {
	if err != nil {
		vsched.Fail("%s failed: %v", what, err)
	}
}

// Check fails the execution when ok is false.
func Check(ok bool, format string, args ...any) {
	if !ok {
		vsched.Fail(format, args...)
	}
}

// Rec records events in order.
type Rec struct {
	L []string
}

// Add appends an event.
func (r *Rec) Add(format string, args ...any) { r.L = append(r.L, fmt.Sprintf(format, args...)) }

// Rename changes the last entry that reads from into to.
func (r *Rec) Rename(from, to string) {
	for i := len(r.L) - 1; i >= 0; i-- {
		if r.L[i] == from {
			r.L[i] = to
			return
		}
	}
}

// Count of exact matches.
func (r *Rec) Count(s string) int {
	n := 0
	for _, x := range r.L {
		if x == s {
			n++
		}
	}
	return n
}

// Filter returns the entries with the prefix.
func (r *Rec) Filter(prefix string) []string {
	var out []string
	for _, x := range r.L {
		if strings.HasPrefix(x, prefix) {
			out = append(out, x)
		}
	}
	return out
}

func (r *Rec) String() string { return strings.Join(r.L, " ") }

// Side names the side a callback runs on.
func Side(c *neffos.NSConn) string {
	if c.Conn.IsClient() {
		return "C"
	}
	return "S"
}

// Setup runs f without exploring its schedules.
func Setup(f func()) {
	vsched.Explore(false)
	f()
	vsched.Quiesce()
	vsched.Explore(true)
}

// Settle waits until nothing can run any more.
func Settle() { vsched.Quiesce() }

// Timeout context on the virtual clock.
func Timeout(d time.Duration) (context.Context, context.CancelFunc) { return WithTimeout(d) }
