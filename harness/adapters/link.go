package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"fmt"
	"net"
	"net/http"
	"strings"
	"time"

	"vharness/lib"

	gobwaslib "github.com/gobwas/ws"
	gorillalib "github.com/gorilla/websocket"
	"github.com/kataras/neffos"
	"github.com/kataras/neffos/gobwas"
	"github.com/kataras/neffos/gorilla"
	"vsched"
	"vsched/vnet"
)

// hijacker is the response writer of an http server over an in-memory connection.
type hijacker struct {
	conn net.Conn
	br   *bufio.Reader
	hdr  http.Header
	code int
	body bytes.Buffer
}

func (h *hijacker) Header() http.Header         { return h.hdr }
func (h *hijacker) Write(b []byte) (int, error) { return h.body.Write(b) }
func (h *hijacker) WriteHeader(code int)        { h.code = code }
func (h *hijacker) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return h.conn, bufio.NewReadWriter(h.br, bufio.NewWriter(h.conn)), nil
}

// lib names
const (
	goblib = iota
	gorlib
)

var libName = []string{"gobwas", "gorilla"}

// dialer of an adapter whose network is conn.
func dialer(which int, conn net.Conn) neffos.Dialer {
	switch which {
	case goblib:
		return gobwas.Dialer(gobwaslib.Dialer{NetDial: func(ctx context.Context, network, addr string) (net.Conn, error) { return conn, nil }})
	default:
		return gorilla.Dialer(&gorillalib.Dialer{NetDial: func(network, addr string) (net.Conn, error) { return conn, nil }}, make(http.Header))
	}
}

func upgrader(which int) neffos.Upgrader {
	if which == goblib {
		return gobwas.DefaultUpgrader
	}
	return gorilla.DefaultUpgrader
}

// accept serves one upgrade on conn.
func accept(which int, conn net.Conn) (neffos.Socket, error) {
	br := bufio.NewReader(conn)
	r, err := http.ReadRequest(br)
	if err != nil {
		return nil, err
	}
	return upgrader(which)(&hijacker{conn: conn, br: br, hdr: http.Header{}}, r)
}

// link is a client socket and a server socket over one in-memory connection.
type link struct {
	cli, srv neffos.Socket
	cc, sc   *vnet.MemConn
}

func newLink(c, s int) *link {
	l := &link{}
	l.cc, l.sc = vnet.NewPair("cli", "srv")
	vsched.GoNamed("http", func() {
		var err error
		l.srv, err = accept(s, l.sc)
		lib.Must(libName[s]+" upgrade", err)
	})
	var err error
	l.cli, err = dialer(c, l.cc)(context.Background(), "ws://mem/x")
	lib.Must(libName[c]+" dial", err)
	vsched.Block("upgrade", func() bool { return l.srv != nil })
	return l
}

// raw is a hand-driven websocket peer of one adapter socket.
type raw struct {
	conn   *vnet.MemConn // the raw peer's end
	far    *vnet.MemConn // the socket's end
	sock   neffos.Socket
	client bool // the adapter is the client
	rest   []byte
}

func acceptKey(key string) string {
	h := sha1.Sum([]byte(key + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

const rawKey = "dGhlIHNhbXBsZSBub25jZQ=="

// newRaw connects an adapter to a raw peer; glued is sent by a raw server in one write with its handshake answer.
func newRaw(which int, client bool, glued []byte) *raw {
	p := &raw{client: client}
	p.conn, p.far = vnet.NewPair("raw", "adapter")
	done := false
	vsched.GoNamed("raw", func() {
		br := bufio.NewReaderSize(p.conn, 4096)
		if client {
			r, err := http.ReadRequest(br)
			lib.Must("raw server: request", err)
			out := "HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " + acceptKey(r.Header.Get("Sec-Websocket-Key")) + "\r\n\r\n"
			p.conn.Write(append([]byte(out), glued...))
		} else {
			p.conn.Write([]byte("GET /x HTTP/1.1\r\nHost: mem\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Version: 13\r\nSec-WebSocket-Key: " + rawKey + "\r\n\r\n"))
			resp, err := http.ReadResponse(br, nil)
			lib.Must("raw client: response", err)
			lib.Check(resp.StatusCode == 101 && resp.Header.Get("Sec-Websocket-Accept") == acceptKey(rawKey), "handshake answer %v", resp)
		}
		n := br.Buffered()
		b, _ := br.Peek(n)
		p.rest = append(p.rest, b...)
		done = true
	})
	var err error
	if client {
		p.sock, err = dialer(which, p.far)(context.Background(), "ws://mem/x")
		lib.Must(libName[which]+" dial", err)
	} else {
		p.sock, err = accept(which, p.far)
		lib.Must(libName[which]+" upgrade", err)
	}
	vsched.Block("raw handshake", func() bool { return done })
	return p
}

// frame is one websocket frame.
type frame struct {
	fin  bool
	rsv  byte
	op   byte
	data []byte
}

func (f frame) String() string {
	d := string(f.data)
	if len(d) > 24 {
		d = fmt.Sprintf("%s...(%d)", d[:20], len(d))
	}
	s := fmt.Sprintf("op%d(%q)", f.op, d)
	if !f.fin {
		s += "+"
	}
	if f.rsv != 0 {
		s += fmt.Sprint("rsv", f.rsv)
	}
	return s
}

// enc is the frame's bytes.
func (f frame) enc(masked bool) []byte {
	var b []byte
	b0 := f.op | f.rsv<<4
	if f.fin {
		b0 |= 0x80
	}
	m := byte(0)
	if masked {
		m = 0x80
	}
	switch n := len(f.data); {
	case n < 126:
		b = append(b, b0, m|byte(n))
	case n < 65536:
		b = append(b, b0, m|126, byte(n>>8), byte(n))
	default:
		b = append(b, b0, m|127)
		b = binary.BigEndian.AppendUint64(b, uint64(n))
	}
	if masked {
		key := [4]byte{0x12, 0x34, 0xab, 0x01}
		b = append(b, key[:]...)
		for i, c := range f.data {
			b = append(b, c^key[i%4])
		}
		return b
	}
	return append(b, f.data...)
}

var errShort = errors.New("truncated")

// dec takes one frame off b.
func dec(b []byte, masked bool) (frame, []byte, error) {
	var f frame
	if len(b) < 2 {
		return f, b, errShort
	}
	f.fin, f.rsv, f.op = b[0]&0x80 != 0, b[0]>>4&7, b[0]&15
	if masked != (b[1]&0x80 != 0) {
		return f, b, fmt.Errorf("mask bit is %v", !masked)
	}
	n := uint64(b[1] & 127)
	b = b[2:]
	switch n {
	case 126:
		if len(b) < 2 {
			return f, b, errShort
		}
		n = uint64(binary.BigEndian.Uint16(b))
		b = b[2:]
	case 127:
		if len(b) < 8 {
			return f, b, errShort
		}
		n = binary.BigEndian.Uint64(b)
		b = b[8:]
	}
	var key [4]byte
	if masked {
		if len(b) < 4 {
			return f, b, errShort
		}
		copy(key[:], b)
		b = b[4:]
	}
	if uint64(len(b)) < n {
		return f, b, errShort
	}
	f.data = make([]byte, n)
	for i := range f.data {
		f.data[i] = b[i] ^ key[i%4]
	}
	return f, b[n:], nil
}

// decAll parses a whole stream, which must consist of whole well-formed frames.
func decAll(b []byte, masked bool) ([]frame, error) {
	var out []frame
	frag := false
	for len(b) > 0 {
		f, rest, err := dec(b, masked)
		if err != nil {
			return out, fmt.Errorf("after %v: %v (%d bytes left)", out, err, len(b))
		}
		switch {
		case f.rsv != 0, f.op > 2 && f.op < 8, f.op > 10, f.op >= 8 && (!f.fin || len(f.data) > 125), f.op == 0 && !frag, (f.op == 1 || f.op == 2) && frag:
			return out, fmt.Errorf("after %v: malformed frame %v", out, f)
		case f.op < 8:
			frag = !f.fin
		}
		out = append(out, f)
		b = rest
	}
	return out, nil
}

// msg is one application message.
type msg struct {
	bin  bool
	data string
}

func (m msg) String() string {
	d := m.data
	if len(d) > 24 {
		d = fmt.Sprintf("%s...(%d)", d[:20], len(d))
	}
	if m.bin {
		return fmt.Sprintf("bin(%q)", d)
	}
	return fmt.Sprintf("text(%q)", d)
}

func mkMsg(b []byte, t neffos.MessageType) msg {
	lib.Check(t == neffos.TextMessage || t == neffos.BinaryMessage, "ReadData returned kind %d", t)
	return msg{t == neffos.BinaryMessage, string(b)}
}

// messages of a list of frames.
func messages(fs []frame) []msg {
	var out []msg
	var cur msg
	for _, f := range fs {
		if f.op >= 8 {
			continue
		}
		if f.op != 0 {
			cur = msg{bin: f.op == 2}
		}
		cur.data += string(f.data)
		if f.fin {
			out = append(out, cur)
		}
	}
	return out
}

func writeMsg(s neffos.Socket, m msg) error { return writeIn(s, m, 0) }

func writeIn(s neffos.Socket, m msg, timeout time.Duration) error {
	b := []byte(m.data)
	f := s.WriteText
	if m.bin {
		f = s.WriteBinary
	}
	err := f(b, timeout)
	lib.Check(string(b) == m.data, "the write changed the caller's %v", m)
	for i := range b { // the caller's to use again
		b[i] = '!'
	}
	return err
}

// fill is n bytes of text that differ by position.
func fill(n, seed int) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		b.WriteByte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJ"[(i+i/36+seed)%36])
	}
	return b.String()
}

// take reads everything the adapter sent so far.
func (p *raw) take() []byte {
	b := p.rest
	p.rest = nil
	for p.conn.Buffered() > 0 {
		buf := make([]byte, p.conn.Buffered())
		n, err := p.conn.Read(buf)
		lib.Must("raw read", err)
		b = append(b, buf[:n]...)
	}
	return b
}
