package main

import (
	"strings"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// Agreement at the moment a call returns: nothing settles between the return of a successful membership call and
// the look at both sides, so an implementation that answers first and changes its own state afterwards is seen.
func init() {
	type call struct {
		name  string
		start string // "": nothing, "x": connected, "r": connected and in room r
		want  string
		f     func(c *neffos.Conn) error
		pred  string // prefix of the callback that must have run on both sides
	}
	imm := func(calls ...call) func() {
		return func() {
			k := calls[vsched.Choose(len(calls))]
			side := []string{"C", "S"}[vsched.Choose(2)]
			setter := []string{"C", "S"}[vsched.Choose(2)]
			var w *world
			var c, s *neffos.Conn
			lib.Setup(func() {
				w, c, s = pairWorld("x")
				if k.start == "" {
					return
				}
				I := c
				if setter == "S" {
					I = s
				}
				ns, err := I.Connect(bg, "x")
				lib.Must("connect", err)
				if k.start == "r" {
					_, err = ns.JoinRoom(bg, "r")
					lib.Must("join", err)
				}
				lib.Settle()
			})
			I, R := c, s
			if side == "S" {
				I, R = s, c
			}
			err := k.f(I)
			gi, gr := stateOf(I, "x"), stateOf(R, "x")
			what := side + "." + k.name
			lib.Check(err == nil, "%s failed: %v", what, err)
			lib.Check(gi == k.want, "when %s returned, the caller held {%s}, expected {%s}", what, gi, k.want)
			lib.Check(gr == k.want, "when %s returned, the other side held {%s}, expected {%s}", what, gr, k.want)
			if k.pred != "" {
				n := count(w.log(side+":a").L, k.pred)
				lib.Check(n == 1, "when %s returned, the caller's %s had run %d times", what, k.pred, n)
			}
			lib.Settle()
			bothHold(c, s, k.want, "x")
			for _, sd := range []string{"C", "S"} {
				checkLife(sd, "x", w.log(sd+":a").L)
			}
			vsched.SetOutcome(what + setter + w.log("C:a").String() + "|" + w.log("S:a").String())
		}
	}
	connect := call{"Connect", "", "x[]", func(c *neffos.Conn) error { _, err := c.Connect(bg, "x"); return err }, "connected("}
	disconnect := call{"Disconnect", "r", "", func(c *neffos.Conn) error { return c.Namespace("x").Disconnect(bg) }, "disconnect("}
	discall := call{"DisconnectAll", "r", "", func(c *neffos.Conn) error { return c.DisconnectAll(bg) }, "disconnect("}
	join := call{"JoinRoom", "x", "x[r]", func(c *neffos.Conn) error { _, err := c.Namespace("x").JoinRoom(bg, "r"); return err }, "joined("}
	leave := call{"Leave", "r", "x[]", func(c *neffos.Conn) error { return c.Namespace("x").Room("r").Leave(bg) }, "left("}
	leaveall := call{"LeaveAll", "r", "x[]", func(c *neffos.Conn) error { return c.Namespace("x").LeaveAll(bg) }, "left("}
	// what a callback sees of its own connection: "right before" and "after" are literal, accepted or refused
	type step struct {
		name, start string
		f           func(c *neffos.Conn) error
		refuse      string // the callback that may refuse
		want, kept  string // the state after it, accepted and refused
		localToo    bool   // the caller's own refusal is a defined outcome
	}
	seen := func(steps ...step) func() {
		return func() {
			k := steps[vsched.Choose(len(steps))]
			side := []string{"C", "S"}[vsched.Choose(2)]
			refuser := []string{"", "C", "S"}[vsched.Choose(3)]
			var w *world
			var c, s *neffos.Conn
			lib.Setup(func() {
				w, c, s = pairWorld("x")
				if k.start == "" {
					return
				}
				ns, err := c.Connect(bg, "x")
				lib.Must("connect", err)
				if k.start == "r" {
					_, err = ns.JoinRoom(bg, "r")
					lib.Must("join", err)
				}
				lib.Settle()
			})
			I := c
			if side == "S" {
				I = s
			}
			if refuser != "" && (k.refuse == "" || refuser == side && !k.localToo || refuser != side && refuser == "C" && (k.refuse == "leave" || k.refuse == "disconnect")) {
				refuser = "" // (a client does not get asked about leaving)
			}
			refused := false
			w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				name, _, _ := strings.Cut(ev, "(")
				own := n.Conn.Namespace("x")
				room := n.Room("r") != nil
				vsched.Yield()
				switch name {
				case "connect":
					lib.Check(own == nil, "side %s holds the namespace inside OnNamespaceConnect", sd)
					lib.Check(!n.Emit("m", []byte("early")), "side %s can emit to the namespace inside OnNamespaceConnect", sd)
				case "connected":
					lib.Check(own == n, "side %s does not hold the namespace inside OnNamespaceConnected", sd)
					lib.Check(n.Emit("m", []byte("in")), "side %s can't emit to the namespace inside OnNamespaceConnected", sd)
				case "join":
					lib.Check(own == n && !room, "side %s is in the room inside OnRoomJoin", sd)
				case "joined":
					lib.Check(own == n && room, "side %s is not in the room inside OnRoomJoined", sd)
					lib.Check(n.Room("r").Emit("m", []byte("in")), "side %s can't emit to the room inside OnRoomJoined", sd)
				case "leave":
					lib.Check(own == n && room, "side %s is not in the room anymore inside OnRoomLeave", sd)
				case "left":
					lib.Check(!room, "side %s is still in the room inside OnRoomLeft", sd)
				case "disconnect":
					if m.IsForced || m.IsLocal || sd == "C" {
						lib.Check(len(n.Rooms()) == 0, "side %s is still in rooms inside OnNamespaceDisconnect", sd)
					} else {
						lib.Check(own == n && room == (k.start == "r"), "the server does not hold its namespace and rooms while it is asked for a disconnect")
					}
				}
				if sd == refuser && name == k.refuse && !m.IsForced {
					refused = true
					return veto("no")
				}
				return nil
			}
			err := k.f(I)
			lib.Settle()
			what := side + "." + k.name
			if refuser == "" {
				lib.Check(err == nil, "%s failed: %v", what, err)
				bothHold(c, s, k.want, "x")
			} else {
				lib.Check(refused, "%s: side %s was not asked", what, refuser)
				lib.Check(sameErr(err, "no"), "%s refused by %s returned %v", what, refuser, err)
				lib.Check(stateOf(I, "x") == k.kept, "%s refused by %s: the caller holds {%s}, expected {%s}", what, refuser, stateOf(I, "x"), k.kept)
				if refuser != side {
					bothHold(c, s, k.kept, "x")
				}
			}
			early := 0
			for _, sd := range []string{"C:a", "S:a"} {
				early += count(w.log(sd).L, "m(x)=early")
			}
			lib.Check(early == 0, "%s: a message was handled before the connect: %s|%s", what, w.log("C:a"), w.log("S:a"))
			vsched.SetOutcome(what + refuser + w.log("C:a").String() + "|" + w.log("S:a").String())
		}
	}
	mc.Register("C04", &mc.Scenario{Name: "inside-callbacks", Body: seen(step{"Connect", "", connect.f, "connect", "x[]", "", true}), Bound: 3, Deep: 4, Policies: polTwo})
	mc.Register("C05", &mc.Scenario{Name: "inside-callbacks", Body: seen(
		step{"Disconnect", "r", disconnect.f, "disconnect", "", "x[r]", false},
		step{"DisconnectAll", "r", discall.f, "disconnect", "", "x[r]", false},
		step{"Close", "r", func(c *neffos.Conn) error { c.Close(); return nil }, "", "", "", false}), Bound: 3, Deep: 4, Policies: polTwo})
	mc.Register("C06", &mc.Scenario{Name: "inside-callbacks", Body: seen(
		step{"JoinRoom", "x", join.f, "join", "x[r]", "x[]", true},
		step{"Leave", "r", leave.f, "leave", "x[]", "x[r]", true},
		step{"LeaveAll", "r", leaveall.f, "leave", "x[]", "x[r]", true}), Bound: 3, Deep: 4, Policies: polTwo})
	// whoever sees the namespace held may send at once: the other side handles it, after its own OnNamespaceConnected
	asSoon := func() {
		side := []string{"C", "S"}[vsched.Choose(2)]
		sender := []string{"C", "S"}[vsched.Choose(2)]
		how := vsched.Choose(3)
		at := vsched.Choose(60)
		var w *world
		var c, s *neffos.Conn
		lib.Setup(func() { w, c, s = pairWorld("x") })
		w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if m.Event == "ask" {
				return answer(m)
			}
			return nil
		}
		I, from := c, c
		if side == "S" {
			I = s
		}
		if sender == "S" {
			from = s
		}
		want := "m(x)=soon"
		var err error
		vsched.Par(func() { _, err = I.Connect(bg, "x") }, func() {
			vsched.AtPoint(at)
			if from.Namespace("x") == nil {
				want = ""
				return // too soon
			}
			switch how {
			case 0:
				lib.Check(from.Namespace("x").Emit("m", []byte("soon")), "side %s holds the namespace but can't emit", sender)
			case 1:
				want = "ask(x)=soon"
				r, err := from.Namespace("x").Ask(bg, "ask", []byte("soon"))
				checkAnswer("an Ask as soon as the namespace is held", "soon", r, err)
			case 2:
				want = "joined(x/q)"
				_, err := from.Namespace("x").JoinRoom(bg, "q")
				lib.Check(err == nil, "JoinRoom as soon as the namespace is held: %v", err)
			}
		})
		lib.Settle()
		lib.Check(err == nil, "Connect: %v", err)
		l := w.log(other(sender) + ":a").L
		lib.Check(want == "" || count(l, want) == 1, "side %s sent as soon as it held the namespace; the other side handled: %v", sender, l)
		for _, sd := range []string{"C", "S"} {
			l := w.log(sd + ":a").L
			checkLife(sd, "x", l)
			lib.Check(len(l) >= 2 && strings.HasPrefix(l[0], "connect(") && strings.HasPrefix(l[1], "connected("), "side %s handled something before OnNamespaceConnected: %v", sd, l)
		}
		vsched.SetOutcome(side + sender + want + w.log("C:a").String() + "|" + w.log("S:a").String())
	}
	mc.Register("C04", &mc.Scenario{Name: "as-soon-as-held", Body: asSoon, Bound: 1, Deep: 2, Policies: polSome})
	mc.Register("C09", &mc.Scenario{Name: "as-soon-as-held", Body: asSoon, Bound: 1, Deep: 2, Policies: polSome})
	mc.Register("C04", &mc.Scenario{Name: "at-return", Body: imm(connect), Bound: 3, Deep: 4, Policies: polSome})
	mc.Register("C05", &mc.Scenario{Name: "at-return", Body: imm(disconnect, discall), Bound: 3, Deep: 4, Policies: polSome})
	mc.Register("C06", &mc.Scenario{Name: "at-return", Body: imm(join, leave, leaveall), Bound: 3, Deep: 4, Policies: polSome})
}
