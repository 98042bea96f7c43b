package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
)

// policies used by the scenarios that explore schedules.
var (
	polAll  = []vsched.Policy{vsched.PolRun, vsched.PolLIFO, vsched.PolRotate, vsched.PolNewest, vsched.PolOldest}
	polSome = []vsched.Policy{vsched.PolRun, vsched.PolRotate, vsched.PolNewest}
	polTwo  = []vsched.Policy{vsched.PolRun, vsched.PolRotate}
	polOne  = []vsched.Policy{vsched.PolRun}
)

// world is one server and its clients, with every callback recorded.
type world struct {
	h       *lib.Host
	srv     *neffos.Server
	cli     map[string]*neffos.Client
	logs    map[string]*lib.Rec // "C:a", "S:a": the callbacks of one side of one connection
	on      func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error
	running map[string]int
	maxRun  int
	sdisc   *lib.Rec // Server.OnDisconnect
	onsrv   func(c *neffos.Conn) error
}

func newWorld() *world {
	return &world{cli: map[string]*neffos.Client{}, logs: map[string]*lib.Rec{}, running: map[string]int{}, sdisc: &lib.Rec{}}
}

func (w *world) log(k string) *lib.Rec {
	r := w.logs[k]
	if r == nil {
		r = &lib.Rec{}
		w.logs[k] = r
	}
	return r
}

var sysEvents = map[string]string{
	neffos.OnNamespaceConnect: "connect", neffos.OnNamespaceConnected: "connected", neffos.OnNamespaceDisconnect: "disconnect",
	neffos.OnRoomJoin: "join", neffos.OnRoomJoined: "joined", neffos.OnRoomLeave: "leave", neffos.OnRoomLeft: "left",
	neffos.OnNativeMessage: "native",
}

// evStr is the text an event is recorded as.
func evStr(m neffos.Message) string {
	name, sys := sysEvents[m.Event]
	if !sys {
		name = m.Event
	}
	s := name + "(" + m.Namespace
	if m.Room != "" {
		s += "/" + m.Room
	}
	s += ")"
	if m.IsLocal {
		s += "L"
	}
	if m.IsForced {
		s += "F"
	}
	if !sys || name == "native" {
		s += "=" + string(m.Body)
		if m.SetBinary {
			s += "[bin]"
		}
		if m.Err != nil {
			s += "!" + m.Err.Error()
		}
	}
	return s
}

func (w *world) handle(c *neffos.NSConn, m neffos.Message) error {
	k := lib.Side(c) + ":" + c.Conn.ID()
	w.log(k).Add("%s", evStr(m))
	w.running[k]++
	if w.running[k] > w.maxRun {
		w.maxRun = w.running[k]
	}
	var err error
	if w.on != nil {
		err = w.on(k[:1], c.Conn.ID(), strings.TrimSuffix(strings.SplitN(evStr(m), "=", 2)[0], ""), c, m)
	}
	w.running[k]--
	return err
}

// events is a full set of recording callbacks.
func (w *world) events(custom ...string) neffos.Events {
	e := neffos.Events{}
	for s := range sysEvents {
		if s != neffos.OnNativeMessage {
			e[s] = w.handle
		}
	}
	for _, c := range custom {
		e[c] = w.handle
	}
	return e
}

func (w *world) nss(names ...string) neffos.Namespaces {
	n := neffos.Namespaces{}
	for _, s := range names {
		n[s] = w.events("m", "n", "ask")
	}
	return n
}

func (w *world) host(h neffos.ConnHandler) {
	w.h = lib.NewHost(h)
	w.srv = w.h.Srv
	w.srv.OnDisconnect = func(c *neffos.Conn) { w.sdisc.Add("%s", c.ID()) }
	w.srv.OnConnect = func(c *neffos.Conn) error {
		if w.onsrv != nil {
			return w.onsrv(c)
		}
		return nil
	}
}

func (w *world) dial(id string, h neffos.ConnHandler) *neffos.Client {
	c := w.h.Dial(id, h)
	w.cli[id] = c
	return c
}

// conn is the connection object of one side.
func (w *world) conn(side, id string) *neffos.Conn {
	if side == "C" {
		return lib.ConnOf(w.cli[id])
	}
	return w.h.SConn(id)
}

// state of one side: the namespaces and rooms it holds.
func stateOf(c *neffos.Conn, nss ...string) string {
	var out []string
	for _, n := range nss {
		ns := c.Namespace(n)
		if ns == nil {
			continue
		}
		var rs []string
		for _, r := range ns.Rooms() {
			rs = append(rs, r.Name)
			if ns.Room(r.Name) == nil {
				rs = append(rs, "?")
			}
		}
		sort.Strings(rs)
		out = append(out, n+"["+strings.Join(rs, ",")+"]")
	}
	return strings.Join(out, " ")
}

func errText(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

func sameErr(got error, want string) bool { return errText(got) == want }

func veto(s string) error { return errors.New(s) }

// canon sorts the adjacent leave/left pairs of several rooms (their order is not specified).
func canon(l []string) []string {
	out := append([]string(nil), l...)
	isPair := func(i int) bool {
		return i+1 < len(out) && strings.HasPrefix(out[i], "leave(") && strings.HasPrefix(out[i+1], "left(") &&
			strings.TrimPrefix(out[i], "leave") == strings.TrimPrefix(out[i+1], "left")
	}
	for i := 0; i < len(out); {
		j := i
		for isPair(j) {
			j += 2
		}
		if j == i {
			i++
			continue
		}
		var ps []string
		for k := i; k < j; k += 2 {
			ps = append(ps, strings.TrimPrefix(out[k], "leave"))
		}
		sort.Strings(ps)
		for k, p := range ps {
			out[i+2*k], out[i+2*k+1] = "leave"+p, "left"+p
		}
		i = j
	}
	return out
}

func msg(ns, room, ev, body string) neffos.Message {
	return neffos.Message{Namespace: ns, Room: room, Event: ev, Body: []byte(body)}
}

func sprint(a ...any) string { return fmt.Sprint(a...) }

// sleepV sleeps on the virtual clock.
func sleepV(d time.Duration) { vsched.Sleep(int64(d)) }

// dialEnd is a dialer that returns the given socket.
func dialEnd(e *lib.End) neffos.Dialer {
	return func(ctx context.Context, url string) (neffos.Socket, error) { return e, nil }
}

// func2 lets f look at the client's socket before Dial gets it.
func func2(d neffos.Dialer, f func(*lib.End)) neffos.Dialer {
	return func(ctx context.Context, url string) (neffos.Socket, error) {
		s, err := d(ctx, url)
		if err != nil {
			return nil, err
		}
		f(s.(*lib.End))
		return s, nil
	}
}
