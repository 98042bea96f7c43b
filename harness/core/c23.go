package main

import (
	"fmt"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// apiCalls are the calls of one side; n and r are the namespace and the room they work on.
var apiCalls = []string{"connect", "disconnect", "disconnect-all", "join", "leave", "leave-all", "ask", "emit", "room-emit", "read", "close"}

// srvCalls exist on the server only.
var srvCalls = []string{"broadcast", "srv-read", "do", "srv-ask", "srv-close"}

// call makes one call on a connection. Its result does not matter, its return does.
func call(w *world, c *neffos.Conn, op, n, r string) {
	ns := c.Namespace(n)
	switch op {
	case "connect":
		c.Connect(bg, n)
	case "disconnect":
		if ns != nil {
			ns.Disconnect(bg)
		}
	case "disconnect-all":
		c.DisconnectAll(bg)
	case "join":
		if ns != nil {
			ns.JoinRoom(bg, r)
		}
	case "leave":
		if ns != nil {
			if room := ns.Room(r); room != nil {
				room.Leave(bg)
			}
		}
	case "leave-all":
		if ns != nil {
			ns.LeaveAll(bg)
		}
	case "ask":
		if ns != nil {
			ns.Ask(bg, "ask", []byte("q"))
		}
	case "emit":
		ns.Emit("m", []byte("e"))
		ns.EmitBinary("m", []byte("e"))
	case "room-emit":
		if ns != nil {
			if room := ns.Room(r); room != nil {
				room.Emit("m", []byte("r"))
			}
		}
	case "read":
		_ = fmt.Sprint(c.ID(), c.String(), c.IsClosed(), c.IsClient(), c.WasReconnected(), c.Is("zz"))
		c.Set("k", 1)
		c.Get("k")
		c.Increment("k")
		if ns != nil {
			for _, x := range ns.Rooms() {
				_ = x.Name
			}
			_ = ns.Room(r)
			_ = ns.String()
		}
	case "close":
		c.Close()
	case "broadcast":
		w.srv.Broadcast(nil, msg(n, "", "m", "b"), msg(n, r, "m", "b"))
		w.srv.Broadcast(c, msg(n, "", "m", "b"))
	case "srv-read":
		w.srv.GetConnections()
		w.srv.GetConnectionsByNamespace(n)
		w.srv.GetTotalConnections()
	case "do":
		w.srv.Do(func(c *neffos.Conn) { call(w, c, "read", n, r); call(w, c, "emit", n, r) }, false)
	case "srv-ask":
		ctx, cancel := lib.WithTimeout(time.Minute)
		w.srv.Ask(ctx, msg(n, "", "ask", "s"))
		cancel()
	case "srv-close":
		w.srv.Close()
	default:
		panic(op)
	}
}

// alive checks that the connection still works in both directions, or is closed.
func (w *world) alive(what string) {
	lib.Settle()
	vsched.Explore(false)
	cc, sc := w.conn("C", "a"), w.conn("S", "a")
	if cc.IsClosed() || sc.IsClosed() {
		lib.Check(cc.IsClosed() && sc.IsClosed(), "%s: only one side is closed", what)
		return
	}
	for i, c := range []*neffos.Conn{cc, sc} {
		other := []*neffos.Conn{cc, sc}[1-i]
		ns, err := c.Connect(bg, "z")
		lib.Must(what+": a later Connect", err)
		r, err := ns.Ask(bg, "ask", []byte("p"))
		lib.Must(what+": a later Ask", err)
		lib.Check(string(r.Body) == "ok", "%s: a later Ask returned %q", what, r.Body)
		_, err = other.Namespace("z").JoinRoom(bg, fmt.Sprint("room", i))
		lib.Must(what+": a later JoinRoom", err)
		lib.Must(what+": a later Disconnect", ns.Disconnect(bg))
	}
	lib.Settle()
}

func init() {
	base := func(w *world, sync bool) {
		lib.Setup(func() {
			w.host(w.nss("x", "y", "z"))
			w.srv.SyncBroadcaster = sync
			w.dial("a", w.nss("x", "y", "z"))
			ns, err := w.cli["a"].Connect(bg, "x")
			lib.Must("connect", err)
			_, err = ns.JoinRoom(bg, "r")
			lib.Must("join", err)
			lib.Settle()
		})
	}
	// one call of either side, with messages arriving on both sides meanwhile
	pairs := func(traffic, sync bool) func() {
		return func() {
			w := newWorld()
			w.on = func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
				if m.Event == "ask" {
					return neffos.Reply([]byte("ok"))
				}
				if m.Event == "m" && string(m.Body) == "t" { // echo, and look around
					call(w, c.Conn, "read", "x", "r")
					c.Emit("n", m.Body)
				}
				return nil
			}
			all := append(append([]string(nil), apiCalls...), srvCalls...)
			co := apiCalls[vsched.Choose(len(apiCalls))]
			so := all[vsched.Choose(len(all))]
			base(w, sync)
			cc, sc := w.conn("C", "a"), w.conn("S", "a")
			target := func(op string) (string, string) {
				switch op {
				case "connect":
					return "y", ""
				case "join":
					return "x", "q"
				}
				return "x", "r"
			}
			run := func(c *neffos.Conn, op string) func() {
				n, r := target(op)
				return func() { call(w, c, op, n, r) }
			}
			fs := []func(){run(cc, co), run(sc, so)}
			if traffic {
				fs = append(fs, func() {
					cc.Write(msg("x", "", "m", "t"))
					sc.Write(msg("x", "", "m", "t"))
				})
			}
			vsched.Par(fs...)
			w.alive(co + " of the client with " + so + " of the server")
		}
	}
	// two calls of the same side
	sameSide := func(side string) func() {
		return func() {
			w := newWorld()
			w.on = func(_, id, ev string, c *neffos.NSConn, m neffos.Message) error {
				if m.Event == "ask" {
					return neffos.Reply([]byte("ok"))
				}
				return nil
			}
			i := vsched.Choose(len(apiCalls))
			j := i + vsched.Choose(len(apiCalls)-i)
			base(w, false)
			c := w.conn(side, "a")
			vsched.Par(func() { call(w, c, apiCalls[i], "x", "r") }, func() { call(w, c, apiCalls[j], "x", "r") })
			w.alive(apiCalls[i] + " with " + apiCalls[j] + " of side " + side)
		}
	}
	// calls made by the callbacks: the namespace y is walked through all its events and one of them makes a call
	evs := []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnRoomJoin, neffos.OnRoomJoined, "m", "ask", neffos.OnRoomLeave, neffos.OnRoomLeft, neffos.OnNamespaceDisconnect}
	callbacks := func(walker string, sync bool) func() {
		return func() {
			w := newWorld()
			ev := evs[vsched.Choose(len(evs))]
			side := []string{"C", "S"}[vsched.Choose(2)]
			ops := apiCalls
			if side == "S" {
				ops = append(append([]string(nil), apiCalls...), "broadcast", "srv-read", "do", "srv-ask", "srv-close")
			}
			op := ops[vsched.Choose(len(ops))]
			n := []string{"x", "y"}[vsched.Choose(2)]
			r := "r"
			if op == "join" && n == "x" {
				r = "q"
			}
			done := false
			w.on = func(s, id, _ string, c *neffos.NSConn, m neffos.Message) error {
				if s == side && m.Event == ev && m.Namespace == "y" && !done {
					done = true
					call(w, c.Conn, op, n, r)
				}
				if m.Event == "ask" {
					return neffos.Reply([]byte("ok"))
				}
				return nil
			}
			base(w, sync)
			c, o := w.conn(walker, "a"), w.conn(map[string]string{"C": "S", "S": "C"}[walker], "a")
			call(w, c, "connect", "y", "")
			call(w, c, "join", "y", "r")
			call(w, c, "emit", "y", "")
			if ns := o.Namespace("y"); ns != nil {
				ns.Emit("m", nil)
			}
			call(w, c, "ask", "y", "")
			call(w, o, "ask", "y", "")
			call(w, c, "leave", "y", "r")
			call(w, c, "disconnect", "y", "")
			done = true
			w.alive(fmt.Sprintf("%s(%s) called in %s of side %s", op, n, ev, side))
		}
	}
	add := func(name string, body func(), bound, deep int, pol []vsched.Policy) *mc.Check {
		return mc.Register("C23", &mc.Scenario{Name: name, Body: body, Policies: pol, Bound: bound, Deep: deep})
	}
	add("pairs", pairs(true, false), 1, 2, polSome)
	add("pairs-sync", pairs(true, true), 1, 2, polTwo)
	add("same-client", sameSide("C"), 1, 3, polSome)
	add("same-server", sameSide("S"), 1, 3, polSome)
	add("callbacks-client", callbacks("C", false), 1, 2, []vsched.Policy{vsched.PolRun, vsched.PolNewest})
	add("callbacks-server", callbacks("S", false), 1, 2, polTwo)
	c := add("callbacks-client-sync", callbacks("C", true), 0, 1, polSome)
	c.Quick = 100 * time.Second
	c.Rule = "every pair of 11 client calls and 16 server calls with messages arriving on both sides, and every pair of calls of one side, in all schedules up to the bound; every call made inside every event callback of either side (on the event's own namespace and on another), driven from either side; afterwards the connection must still work in both directions."
}
