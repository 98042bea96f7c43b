package main

import (
	"io"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// closers: the ways a connection ends
var closers = []string{"client", "server-conn", "server", "cut", "client-reset", "server-reset", "server-write-fails", "client-write-fails"}

// end ends connection a of the world in the given way.
func (w *world) end(how string, c, s *neffos.Conn) {
	a := w.h.Get("a")
	switch how {
	case "client":
		c.Close()
	case "server-conn":
		s.Close()
	case "server":
		w.srv.Close()
	case "cut": // both ends notice
		a.Client.BreakRead, a.Server.BreakRead = io.EOF, io.EOF
		a.Client.BreakWrite, a.Server.BreakWrite = opErr("write"), opErr("write")
	case "client-reset":
		a.Client.BreakRead, a.Client.BreakWrite = opErr("read"), opErr("write")
	case "server-reset":
		a.Server.BreakRead, a.Server.BreakWrite = opErr("read"), opErr("write")
	case "server-write-fails":
		a.Server.BreakWrite = opErr("write")
		s.Write(msg("x", "", "m", "never"))
	case "client-write-fails":
		a.Client.BreakWrite = opErr("write")
		c.Write(msg("x", "", "m", "never"))
	}
}

// torn checks what must hold once an ended connection has settled: nothing is left, nothing blocks, nothing fires.
func (w *world) torn(c, s *neffos.Conn, cns, sns *neffos.NSConn) {
	lib.Settle()
	for side, k := range map[string]*neffos.Conn{"C": c, "S": s} {
		lib.Check(k.IsClosed(), "%s: not closed", side)
		lib.Check(stateOf(k, "x", "y") == "", "%s still holds %s after the close", side, stateOf(k, "x", "y"))
	}
	for side, n := range map[string]*neffos.NSConn{"C": cns, "S": sns} {
		if n != nil {
			lib.Check(len(n.Rooms()) == 0, "%s still is in rooms of the namespace", side)
		}
	}
	lib.Check(w.sdisc.Count("a") == 1, "Server.OnDisconnect fired %d times", w.sdisc.Count("a"))
	lib.Check(w.srv.GetTotalConnections() == 0, "%d connections are still registered", w.srv.GetTotalConnections())
	a := w.h.Get("a")
	lib.Check(a.Client.Closed() && a.Server.Closed(), "a network connection was left open")
	for _, side := range []string{"C:a", "S:a"} {
		balanced(side, w.log(side).L)
	}
	before := w.log("C:a").String() + "|" + w.log("S:a").String()
	for side, k := range map[string]*neffos.Conn{"C": c, "S": s} {
		ns := cns
		if side == "S" {
			ns = sns
		}
		lib.Check(!k.Write(msg("x", "", "m", "late")), "%s: Write succeeds after the close", side)
		_, err := k.Ask(bg, msg("x", "", "ask", "late"))
		lib.Check(err != nil, "%s: Ask succeeds after the close", side)
		_, err = k.Connect(bg, "x")
		lib.Check(err != nil, "%s: Connect succeeds after the close", side)
		if ns != nil {
			lib.Check(!ns.Emit("m", []byte("late")), "%s: Emit succeeds after the close", side)
			_, err = ns.Ask(bg, "ask", []byte("late"))
			lib.Check(err != nil, "%s: Ask succeeds after the close", side)
			_, err = ns.JoinRoom(bg, "z")
			lib.Check(err != nil && ns.Room("z") == nil, "%s: JoinRoom succeeds after the close", side)
		}
		k.Close()
		k.Close()
	}
	w.srv.Close()
	lib.Settle()
	// (a Connect asks its own side first)
	after := strings.ReplaceAll(w.log("C:a").String()+"|"+w.log("S:a").String(), "connect(x)L", "")
	lib.Check(strings.ReplaceAll(strings.ReplaceAll(before, "connect(x)L", ""), " ", "") == strings.ReplaceAll(after, " ", ""), "events fired after the close: before %s\nafter %s|%s", before, w.log("C:a"), w.log("S:a"))
	lib.Check(w.sdisc.Count("a") == 1, "Server.OnDisconnect fired again")
	if l := vsched.Live(); len(l) > 1 {
		vsched.Fail("goroutines are left behind: %s", strings.Join(l, "; "))
	}
}

// balanced: what was connected disconnects once, what was joined leaves once.
func balanced(side string, l []string) {
	type st struct{ in, out, leave int }
	m := map[string]*st{}
	get := func(k string) *st {
		if m[k] == nil {
			m[k] = &st{}
		}
		return m[k]
	}
	for _, e := range l {
		name, rest, _ := strings.Cut(e, "(")
		what, _, _ := strings.Cut(rest, ")")
		switch name {
		case "connected", "joined":
			get(what).in++
		case "disconnect", "left":
			get(what).out++
		case "leave":
			get(what).leave++
		}
	}
	for k, v := range m {
		lib.Check(v.in == v.out, "%s: %s was established %d times but ended %d times: %v", side, k, v.in, v.out, l)
		lib.Check(!strings.Contains(k, "/") || v.leave == v.out, "%s: %s: OnRoomLeave fired %d times, OnRoomLeft %d times: %v", side, k, v.leave, v.out, l)
	}
}

// teardown: the exact tail of an uncontended close of x[r,s] and y[].
func teardown(side string, l []string) {
	var rooms, disc int
	seen := map[string]int{}
	for _, e := range l {
		name, rest, _ := strings.Cut(e, "(")
		what, flags, _ := strings.Cut(rest, ")")
		switch name {
		case "leave", "left", "disconnect":
			lib.Check(strings.Contains(flags, "F"), "%s: %s is not marked as forced: %v", side, e, l)
			seen[name+" "+what]++
			switch name {
			case "left":
				lib.Check(seen["leave "+what] == 1, "%s: OnRoomLeft before OnRoomLeave: %v", side, l)
				rooms++
			case "disconnect":
				disc++
				if what == "x" {
					lib.Check(rooms == 2, "%s: OnNamespaceDisconnect before its rooms were left: %v", side, l)
				}
			}
		}
	}
	for _, k := range []string{"leave x/r", "left x/r", "leave x/s", "left x/s", "disconnect x", "disconnect y"} {
		lib.Check(seen[k] == 1, "%s: %q fired %d times: %v", side, k, seen[k], l)
	}
	lib.Check(len(seen) == 6, "%s: unexpected teardown events: %v", side, l)
}

// full is a connected pair in x (rooms r and s) and y.
func full() (w *world, c, s *neffos.Conn, cns, sns *neffos.NSConn) {
	w, c, s = joinedPair(true, "x", "y")
	lib.Setup(func() {
		_, err := c.Namespace("x").JoinRoom(bg, "s")
		lib.Must("join", err)
		lib.Must("leave", c.Namespace("y").LeaveAll(bg))
	})
	w.log("C:a").L, w.log("S:a").L = nil, nil
	return w, c, s, c.Namespace("x"), s.Namespace("x")
}

// notified records when NotifyClose is seen.
func (w *world) notified() *bool {
	done := new(bool)
	cl := w.cli["a"]
	vsched.GoNamed("notify", func() {
		vsched.Recv2(cl.NotifyClose)
		teardown("C at NotifyClose", w.log("C:a").L)
		*done = true
	})
	return done
}

func init() {
	// two closers at once
	pairs := func(list ...string) func() {
		return func() {
			w, c, s, cns, sns := full()
			n := len(list)
			k := vsched.Choose(n * (n + 1) / 2)
			i, j := 0, 0
			for i = 0; i < n; i++ {
				if k < n-i {
					j = i + k
					break
				}
				k -= n - i
			}
			done := w.notified()
			if i == j && list[i] != "client" && list[i] != "server-conn" && list[i] != "server" {
				w.end(list[i], c, s)
			} else {
				vsched.Par(func() { w.end(list[i], c, s) }, func() { w.end(list[j], c, s) })
			}
			lib.Settle()
			lib.Check(*done, "NotifyClose did not fire")
			teardown("C", w.log("C:a").L)
			teardown("S", w.log("S:a").L)
			w.log("C:a").L, w.log("S:a").L = nil, nil
			w.torn(c, s, cns, sns)
		}
	}
	// a close against traffic, membership calls and outstanding questions
	against := func(what string, hows ...string) func() {
		return func() {
			var w *world
			var c, s *neffos.Conn
			lib.Setup(func() {
				w, c, s = pairWorld("x", "y")
				ns, err := c.Connect(bg, "x")
				lib.Must("connect", err)
				_, err = ns.JoinRoom(bg, "r")
				lib.Must("join", err)
			})
			cns, sns := c.Namespace("x"), s.Namespace("x")
			w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				if m.Event == "ask" {
					return answer(m)
				}
				// the other side thinks about it and refuses; what it does not refuse is what the end of the connection forces
				if refuse := strings.HasSuffix(what, "-refused"); refuse && side != what[:1] && !m.IsForced {
					if name, _, _ := strings.Cut(ev, "("); name == "leave" || name == "disconnect" && strings.Contains(what, "-disconnect") {
						w.log(side+":a").Rename(evStr(m), "refused-"+evStr(m))
						vsched.Yield()
						return veto("no")
					}
				}
				return nil
			}
			how := hows[vsched.Choose(len(hows))]
			ended := false
			op := func() {
				side, call, _ := strings.Cut(strings.TrimSuffix(what, "-refused"), "-")
				k, ns := c, cns
				if side == "S" {
					k, ns = s, sns
				}
				var err error
				var r neffos.Message
				var room *neffos.Room
				switch call {
				case "connect":
					_, err = k.Connect(bg, "y")
				case "reconnect":
					if err = ns.Disconnect(bg); err == nil {
						_, err = k.Connect(bg, "x")
					}
				case "join":
					room, err = ns.JoinRoom(bg, "q")
					_ = room
				case "leave":
					if room = ns.Room("r"); room != nil {
						err = room.Leave(bg)
					}
				case "leaveall":
					err = ns.LeaveAll(bg)
				case "disconnect":
					err = ns.Disconnect(bg)
				case "disconnectall":
					err = k.DisconnectAll(bg)
				case "ask":
					r, err = ns.Ask(bg, "ask", []byte("q"))
					if err == nil {
						checkAnswer(what, "q", r, err)
					}
				case "emit":
					ns.Emit("m", []byte("1"))
					ns.Emit("m", []byte("2"))
				case "broadcast":
					w.srv.Broadcast(nil, msg("x", "", "m", "1"), msg("x", "r", "m", "2"))
				}
				ended = true
				vsched.AddOutcome(how + " " + errText(err))
			}
			vsched.Par(op, func() { w.end(how, c, s) })
			lib.Check(ended, "the call did not return")
			w.torn(c, s, cns, sns)
		}
	}
	// the network is cut after every frame of a history
	cut := func() {
		var w *world
		var c *neffos.Conn
		lib.Setup(func() {
			w, c, _ = pairWorld("x", "y")
		})
		w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if m.Event == "ask" {
				return answer(m)
			}
			return nil
		}
		s := w.conn("S", "a")
		a := w.h.Get("a")
		n := 0
		at := vsched.Choose(18)
		how := []string{"cut", "client-reset", "server-reset"}[vsched.Choose(3)]
		tap := func(lib.Frame) {
			if n == at {
				w.end(how, c, s)
			}
			n++
		}
		a.Client.Tap, a.Server.Tap = tap, tap
		var cns, sns *neffos.NSConn
		// every call returns, with or without an error
		ns, err := c.Connect(bg, "x")
		if err == nil {
			cns = ns
			ns.Emit("m", []byte("1"))
			if r, err := ns.JoinRoom(bg, "r"); err == nil {
				r.Emit("m", []byte("2"))
				if ns := s.Namespace("x"); ns != nil {
					sns = ns
					ns.Ask(bg, "ask", []byte("q"))
					ns.JoinRoom(bg, "q")
				}
				r.Leave(bg)
			}
			c.Connect(bg, "y")
			ns.Disconnect(bg)
		}
		lib.Settle()
		if at >= n {
			c.Close()
		}
		w.torn(c, s, cns, sns)
	}
	// the connection is closed from inside a callback
	inside := func() {
		w, c, s, cns, sns := full()
		side := []string{"C", "S"}[vsched.Choose(2)]
		at := []string{"m", "join", "joined", "connect", "connected", "leave", "left", "disconnect"}[vsched.Choose(8)]
		how := []string{"client", "server-conn", "server"}[vsched.Choose(3)]
		fired := false
		on := func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			name, _, _ := strings.Cut(evStr(m), "(")
			if sd == side && name == at && !fired {
				fired = true
				w.end(how, c, s)
			}
			return nil
		}
		w.on = on
		done := false
		// the history: one of everything
		k := c
		if side == "C" {
			k = s
		}
		if ns := k.Namespace("x"); ns != nil {
			ns.Emit("m", []byte("1"))
			ns.JoinRoom(bg, "t")
			if r := ns.Room("t"); r != nil {
				r.Leave(bg)
			}
		}
		lib.Settle()
		if y := k.Namespace("y"); y != nil {
			y.Disconnect(bg)
			k.Connect(bg, "y")
		}
		done = true
		lib.Settle()
		lib.Check(done && fired, "the callback did not fire")
		lib.Check(c.IsClosed() && s.IsClosed(), "not closed")
		for sd, k := range map[string]string{"C": "C:a", "S": "S:a"} {
			l := w.log(k).L
			cnt := map[string]int{"x": 1, "y": 1, "x/r": 1, "x/s": 1}
			for _, e := range l {
				name, rest, _ := strings.Cut(e, "(")
				what, _, _ := strings.Cut(rest, ")")
				switch name {
				case "connected", "joined":
					cnt[what]++
				case "disconnect", "left":
					cnt[what]--
				}
			}
			for what, v := range cnt {
				lib.Check(v == 0, "%s: %s: established and ended differ by %d: %v", sd, what, v, l)
			}
		}
		w.on = nil
		w.log("C:a").L, w.log("S:a").L = nil, nil
		w.torn(c, s, cns, sns)
	}
	// several connections: closing one, or the server, touches only what it should
	others := func() {
		w := newWorld()
		h := w.nss("x")
		cs := map[string]*neffos.Client{}
		lib.Setup(func() {
			w.host(h)
			for _, id := range []string{"a", "b"} {
				cs[id] = w.dial(id, h)
				ns, err := cs[id].Connect(bg, "x")
				lib.Must("connect", err)
				_, err = ns.JoinRoom(bg, "r")
				lib.Must("join", err)
			}
		})
		how := []string{"client", "server-conn", "cut"}[vsched.Choose(3)]
		c, s := w.conn("C", "a"), w.conn("S", "a")
		cb, sb := w.conn("C", "b"), w.conn("S", "b")
		vsched.Par(func() { w.end(how, c, s) }, func() { lib.Check(cb.Namespace("x").Emit("m", []byte("1")), "b can't emit") })
		lib.Settle()
		lib.Check(stateOf(cb, "x") == "x[r]" && stateOf(sb, "x") == "x[r]", "b lost its state: %s|%s", stateOf(cb, "x"), stateOf(sb, "x"))
		for _, k := range []string{"C:b", "S:b"} {
			for _, e := range w.log(k).L {
				lib.Check(!strings.HasPrefix(e, "disconnect") && !strings.HasPrefix(e, "left"), "%s was torn down too: %v", k, w.log(k))
			}
		}
		lib.Check(w.log("S:b").Count("m(x)=1") == 1, "the message of b was not handled")
		lib.Check(w.srv.GetTotalConnections() == 1, "%d connections", w.srv.GetTotalConnections())
		w.srv.Close()
		lib.Settle()
		for _, k := range []string{"C:a", "S:a", "C:b", "S:b"} {
			balanced(k, w.log(k).L)
		}
		lib.Check(w.sdisc.Count("a") == 1 && w.sdisc.Count("b") == 1, "OnDisconnect: %v", w.sdisc)
	}
	// native only connections
	native := func() {
		w := newWorld()
		var ns *neffos.NSConn
		h := neffos.Events{neffos.OnNativeMessage: func(n *neffos.NSConn, m neffos.Message) error {
			w.log(lib.Side(n)+":a").Add("%s", m.Body)
			ns = n
			return nil
		}}
		var c, s *neffos.Conn
		lib.Setup(func() {
			w.host(h)
			c = lib.ConnOf(w.dial("a", h))
			s = w.conn("S", "a")
			c.Write(neffos.Message{Body: []byte("1"), IsNative: true})
		})
		lib.Check(ns != nil && w.log("S:a").String() == "1", "not delivered")
		i, j := vsched.Choose(6), vsched.Choose(6)
		vsched.Par(func() { w.end(closers[i], c, s) }, func() { w.end(closers[j], c, s) }, func() {
			c.Write(neffos.Message{Body: []byte("2"), IsNative: true})
			s.Write(neffos.Message{Body: []byte("3"), IsNative: true})
		})
		lib.Settle()
		lib.Check(c.IsClosed() && s.IsClosed(), "not closed")
		lib.Check(vsched.Closed(w.cli["a"].NotifyClose), "NotifyClose did not fire")
		lib.Check(w.sdisc.Count("a") == 1 && len(w.sdisc.L) == 1, "OnDisconnect: %v", w.sdisc)
		lib.Check(!c.Write(neffos.Message{Body: []byte("4"), IsNative: true}) && !s.Write(neffos.Message{Body: []byte("5"), IsNative: true}), "Write succeeds after the close")
		lib.Check(len(vsched.Live()) <= 1, "goroutines are left behind: %v", vsched.Live())
	}

	reg := func(name string, body func(), bound int, pol []vsched.Policy) *mc.Check {
		return mc.Register("C13", &mc.Scenario{Name: name, Body: body, Bound: bound, Deep: bound + 1, Policies: pol})
	}
	reg("two-closers", pairs(closers...), 1, polSome)
	reg("two-callers", pairs("client", "server-conn", "server"), 2, polTwo)
	for _, call := range []string{"connect", "join"} {
		reg("C-"+call, against("C-"+call, "client", "server-conn", "server", "cut"), 2, polTwo)
		reg("S-"+call, against("S-"+call, "client", "server-conn", "server", "cut"), 2, polTwo)
	}
	for _, call := range []string{"leave", "disconnect", "reconnect", "leaveall", "disconnectall", "ask", "emit"} {
		for _, side := range []string{"C-", "S-"} {
			reg(side+call, against(side+call, "client", "server-conn", "server", "cut"), 2, polTwo)
		}
	}
	// (only the server can refuse)
	for _, call := range []string{"C-leave-refused", "C-disconnect-refused", "C-leaveall-refused"} {
		reg(call, against(call, "client", "server-conn", "server", "cut"), 2, polTwo)
	}
	reg("S-broadcast", against("S-broadcast", closers...), 1, polSome)
	reg("cut-anywhere", cut, 1, polSome)
	reg("inside-callbacks", inside, 1, polSome)
	reg("others", others, 1, polSome)
	c13 := reg("native", native, 1, polTwo)
	c13.Quick = 90 * time.Second
	c13.Rule = "every pair of eight ways to end a connection (either side, the server, cut, resets, failing writes) at once; a close against every call of either side and against broadcasts; the network cut after every frame of a history; closes from inside every callback of either side; every schedule up to the bound from several default orders."
}
