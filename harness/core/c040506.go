package main

import (
	"context"
	"strings"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

func both(ops ...mop) []mop {
	var out []mop
	for _, s := range []string{"C", "S"} {
		for _, o := range ops {
			o.side = s
			out = append(out, o)
		}
	}
	return out
}

// pairWorld is a world with one connected client "a" and both sides' connection objects.
func pairWorld(nss ...string) (*world, *neffos.Conn, *neffos.Conn) {
	w := newWorld()
	w.host(w.nss(nss...))
	w.dial("a", w.nss(nss...))
	return w, w.conn("C", "a"), w.conn("S", "a")
}

var bg = context.Background()

// firstOf returns the first index of ev in the log, or -1.
func firstOf(l []string, ev string) int {
	for i, x := range l {
		if x == ev {
			return i
		}
	}
	return -1
}

// checkLife verifies the callback order of one side for one namespace over any number of lives:
// connect* connected (anything)* [leave left]* disconnect.
func checkLife(side, ns string, l []string) {
	up, closing := false, false  // closing: the server side fires its (refusable) disconnect event before the rooms are left
	rooms := map[string]string{} // room -> joining, in, leaving
	for _, e := range l {
		name := e[:strings.Index(e, "(")]
		arg := e[len(name)+1 : strings.Index(e, ")")]
		n, room, _ := strings.Cut(arg, "/")
		if n != ns {
			continue
		}
		switch name {
		case "connect":
		case "connected":
			closing = false
			for r, st := range rooms {
				lib.Check(st == "", "side %s: namespace disconnected while in room %s: %v", side, r, l)
			}
			lib.Check(!up, "side %s: OnNamespaceConnected fired twice: %v", side, l)
			up = true
		case "disconnect":
			lib.Check(up, "side %s: OnNamespaceDisconnect without a connection: %v", side, l)
			up = false
			closing = side == "S" && !strings.HasSuffix(e, "L") && !strings.HasSuffix(e, "F")
			if closing {
				continue
			}
			for r, st := range rooms {
				lib.Check(st == "", "side %s: namespace disconnected while in room %s: %v", side, r, l)
			}
		case "join":
		case "joined":
			lib.Check(up && rooms[room] == "", "side %s: unexpected OnRoomJoined: %v", side, l)
			rooms[room] = "in"
		case "leave":
			lib.Check((up || closing) && rooms[room] == "in", "side %s: unexpected OnRoomLeave: %v", side, l)
			rooms[room] = "leaving"
		case "left":
			lib.Check((up || closing) && rooms[room] == "leaving", "side %s: unexpected OnRoomLeft: %v", side, l)
			rooms[room] = ""
		default:
			lib.Check(up, "side %s: event %s before OnNamespaceConnected: %v", side, e, l)
		}
	}
}

// checkCounts is the order-insensitive part of checkLife, for a close that overlaps with a connect or join: the
// forced disconnect (leave) may overtake the connected (joined) event of the other goroutine, but both fire once.
func checkCounts(side string, l []string) {
	n := map[string]int{}
	for _, e := range l {
		n[e[:strings.Index(e, ")")+1]]++
	}
	for e, k := range n {
		name := e[:strings.Index(e, "(")]
		arg := e[len(name):]
		switch name {
		case "connected", "joined":
			lib.Check(k == 1, "side %s: %s fired %d times: %v", side, e, k, l)
		case "disconnect":
			lib.Check(k == 1 && n["connected"+arg] == 1, "side %s: %s fired %d times for %d connects: %v", side, e, k, n["connected"+arg], l)
		case "leave", "left":
			lib.Check(k == 1 && n["joined"+arg] == 1, "side %s: %s fired %d times for %d joins: %v", side, e, k, n["joined"+arg], l)
		}
	}
}

func count(l []string, prefix string) int {
	n := 0
	for _, e := range l {
		if strings.HasPrefix(e, prefix) {
			n++
		}
	}
	return n
}

// bothHold checks that both sides hold exactly the wanted state.
func bothHold(c, s *neffos.Conn, want string, nss ...string) {
	gc, gs := stateOf(c, nss...), stateOf(s, nss...)
	lib.Check(gc == want && gs == want, "client holds {%s}, server holds {%s}, expected {%s}", gc, gs, want)
}

func init() {
	connectMenu := append(both(
		mop{kind: "connect", ns: "x"}, mop{kind: "connect", ns: "y"},
		mop{kind: "connect", ns: "x", veto: "local"}, mop{kind: "connect", ns: "x", veto: "remote"},
		mop{kind: "disconnect", ns: "x"}, mop{kind: "connect", ns: "c"}, mop{kind: "connect", ns: "s"}),
		mop{kind: "close", side: "C"})

	// concurrent connects of the same namespace, by one or by both sides, with traffic as soon as possible
	concurrent := func(callers ...string) func() {
		return func() {
			var w *world
			var c, s *neffos.Conn
			lib.Setup(func() { w, c, s = pairWorld("x") })
			w.on = func(side, id, ev string, ns *neffos.NSConn, m neffos.Message) error {
				if strings.HasPrefix(ev, "connected(") {
					lib.Check(ns.Conn.Namespace("x") == ns, "side %s: OnNamespaceConnected before the namespace is held", side)
					ns.Emit("m", []byte("hi-"+side))
				}
				return nil
			}
			var got []*neffos.NSConn
			var fs []func()
			for _, x := range callers {
				fs = append(fs, func() {
					k := c
					if x == "S" {
						k = s
					}
					ns, err := k.Connect(bg, "x")
					lib.Check(err == nil && ns != nil, "concurrent Connect of side %s: %v %v", x, ns, err)
					lib.Check(k.Namespace("x") == ns, "Connect of side %s returned another namespace connection than the connected one", x)
					got = append(got, ns)
				})
			}
			vsched.Par(fs...)
			// what Connect promises must hold the moment it returns
			lib.Check(c.Namespace("x") != nil && s.Namespace("x") != nil, "Connect returned and a side does not hold the namespace")
			lib.Settle()
			bothHold(c, s, "x[]", "x")
			for _, sd := range []string{"C", "S"} {
				l := w.log(sd + ":a").L
				checkLife(sd, "x", l)
				lib.Check(count(l, "connected(") == 1, "side %s: OnNamespaceConnected fired %d times: %v", sd, count(l, "connected("), l)
				lib.Check(firstOf(l, "m(x)=hi-"+other(sd)) >= 0, "side %s did not get the message the other side emitted on connected: %v", sd, l)
				lib.Check(count(l, "m(") == 1, "side %s: messages repeated: %v", sd, l)
			}
			vsched.SetOutcome(w.log("C:a").String() + " | " + w.log("S:a").String())
		}
	}

	// both sides connect while their OnNamespaceConnect callbacks wait for the remote, so later messages overtake them
	asking := func(callers ...string) func() {
		return func() {
			who := vsched.Choose(3) // whose callback asks
			var w *world
			var c, s *neffos.Conn
			lib.Setup(func() {
				w, c, s = pairWorld("x", "y")
				_, err := c.Connect(bg, "y")
				lib.Must("connect", err)
			})
			w.on = func(side, id, ev string, ns *neffos.NSConn, m neffos.Message) error {
				if m.Event == "ask" {
					return answer(m)
				}
				if ev == "connect(x)" && (who == 2 || side == "CS"[who:who+1]) {
					r, err := ns.Conn.Namespace("y").Ask(bg, "ask", []byte("may I"))
					checkAnswer("Ask inside OnNamespaceConnect", "may I", r, err)
				}
				return nil
			}
			w.log("C:a").L, w.log("S:a").L = nil, nil
			var fs []func()
			for _, x := range callers {
				fs = append(fs, func() {
					k := c
					if x == "S" {
						k = s
					}
					ns, err := k.Connect(bg, "x")
					lib.Check(err == nil && ns != nil && k.Namespace("x") == ns, "concurrent Connect of side %s: %v %v", x, ns, err)
					lib.Check(ns.Emit("m", []byte("from-"+x)), "side %s can't emit", x)
				})
			}
			vsched.Par(fs...)
			lib.Settle()
			bothHold(c, s, "x[]", "x")
			for _, sd := range []string{"C", "S"} {
				l := w.log(sd + ":a").L
				lib.Check(count(l, "connected(x)") == 1, "side %s: OnNamespaceConnected fired %d times: %v", sd, count(l, "connected(x)"), l)
				n := 0
				for _, x := range callers {
					if x != sd {
						n++
					}
				}
				lib.Check(count(l, "m(x)=from-") == n, "side %s: a message was lost or repeated: %v", sd, l)
			}
			vsched.SetOutcome(w.log("C:a").String() + " | " + w.log("S:a").String())
		}
	}

	// one Connect while the remote refuses / the connection closes / the other side disconnects
	connectVs := func(what string) func() {
		return func() {
			var w *world
			var c, s *neffos.Conn
			lib.Setup(func() { w, c, s = pairWorld("x") })
			side := []string{"C", "S"}[vsched.Choose(2)]
			I, R := c, s
			if side == "S" {
				I, R = s, c
			}
			var err error
			var ns *neffos.NSConn
			w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				if what == "refuse" && ev == "connect(x)" {
					return veto("refused")
				}
				return nil
			}
			switch what {
			case "refuse":
				var e2 error
				vsched.Par(func() { ns, err = I.Connect(bg, "x") }, func() { _, e2 = I.Connect(bg, "x") })
				lib.Settle()
				lib.Check(sameErr(err, "refused") && sameErr(e2, "refused") && ns == nil, "refused Connects returned %v and %v", err, e2)
				bothHold(c, s, "", "x")
			case "disconnect":
				lib.Setup(func() { _, e := I.Connect(bg, "x"); lib.Must("connect", e) })
				n1 := R.Namespace("x")
				vsched.Par(func() { n1.Disconnect(bg) }, func() { ns, err = I.Connect(bg, "x") })
				lib.Settle()
				lib.Check(err == nil && ns != nil, "Connect: %v", err)
				lib.Check(stateOf(c, "x") == stateOf(s, "x"), "client holds {%s}, server holds {%s}", stateOf(c, "x"), stateOf(s, "x"))
			case "close":
				vsched.Par(func() { ns, err = I.Connect(bg, "x") }, func() { R.Close() })
				lib.Settle()
				lib.Check((err == nil) == (ns != nil), "Connect returned %v, %v", ns, err)
				bothHold(c, s, "", "x")
			}
			for _, sd := range []string{"C", "S"} {
				l := w.log(sd + ":a").L
				if what == "close" {
					checkCounts(sd, l)
					lib.Check(count(l, "connected(") == count(l, "disconnect("), "side %s: %v", sd, l)
					continue
				}
				checkLife(sd, "x", l)
			}
			vsched.SetOutcome(errText(err) + w.log("C:a").String() + " | " + w.log("S:a").String())
		}
	}

	c04 := mc.Register("C04",
		&mc.Scenario{Name: "connect-sequences", Body: sweep([]string{"x", "y", "s"}, []string{"x", "y", "c"}, connectMenu, 4, 5, "probe"), MaxSteps: 400000},
		&mc.Scenario{Name: "concurrent-CC", Body: concurrent("C", "C"), Bound: 2, Policies: polSome},
		&mc.Scenario{Name: "concurrent-SS", Body: concurrent("S", "S"), Bound: 2, Policies: polSome},
		&mc.Scenario{Name: "concurrent-CS", Body: concurrent("C", "S"), Bound: 2, Policies: polSome},
		&mc.Scenario{Name: "asking-CS", Body: asking("C", "S"), Bound: 2, Policies: polTwo},
		&mc.Scenario{Name: "asking-CC", Body: asking("C", "C"), Bound: 2, Policies: polTwo},
		&mc.Scenario{Name: "asking-SS", Body: asking("S", "S"), Bound: 2, Policies: polTwo},
		&mc.Scenario{Name: "single-C", Body: concurrent("C"), Bound: 3, Deep: 4, Policies: polSome},
		&mc.Scenario{Name: "single-S", Body: concurrent("S"), Bound: 3, Deep: 4, Policies: polSome},
		&mc.Scenario{Name: "vs-refuse", Body: connectVs("refuse"), Bound: 3, Policies: polTwo},
		&mc.Scenario{Name: "vs-disconnect", Body: connectVs("disconnect"), Bound: 3, Policies: polTwo},
		&mc.Scenario{Name: "vs-close", Body: connectVs("close"), Bound: 3, Policies: polTwo},
	)
	c04.Rule = "connect-sequences: all sequences of 4 (thorough: 5) operations from a 15-operation menu, compared after every step with the reference model (result, held namespaces on both sides, callbacks of both sides in order), followed by emit probes."

	// ---- C05 ----
	c05menu := append(both(
		mop{kind: "connect", ns: "x"}, mop{kind: "connect", ns: "y"},
		mop{kind: "join", ns: "x", room: "r"}, mop{kind: "join", ns: "x", room: "q"}, mop{kind: "join", ns: "y", room: "r"},
		mop{kind: "disconnect", ns: "x"}, mop{kind: "disconnect", ns: "x", veto: "remote"}, mop{kind: "discall"}),
		mop{kind: "discall", side: "C", veto: "remote"}, mop{kind: "leave", side: "C", ns: "x", room: "r"})
	// the same with everything connected and joined already
	full := func(sides []string, menu []mop, quick, deep int) func() {
		return func() {
			vsched.Explore(false)
			m := newModel([]string{"x", "y"}, []string{"x", "y"})
			k := vsched.Choose(len(sides))
			for _, o := range []mop{{kind: "connect", ns: "x"}, {kind: "connect", ns: "y"}, {kind: "join", ns: "x", room: "r"}, {kind: "join", ns: "x", room: "q"}, {kind: "join", ns: "y", room: "r"}} {
				o.side = sides[k]
				m.step(o)
			}
			done := "from full by " + sides[k] + ":"
			for i := 0; i < mc.Pick(quick, deep); i++ {
				var can []mop
				for _, o := range menu {
					if m.possible(o) {
						can = append(can, o)
					}
				}
				o := can[vsched.Choose(len(can))]
				done += " " + o.String()
				m.step(o)
			}
			m.probe()
			m.finish()
			vsched.SetOutcome(done)
		}
	}
	// two membership calls at once, from any pair of sides
	type call struct {
		name string
		f    func(c *neffos.Conn, ns *neffos.NSConn) error
	}
	calls := map[string]call{
		"disconnect": {"disconnect", func(c *neffos.Conn, ns *neffos.NSConn) error { return ns.Disconnect(bg) }},
		"discall":    {"discall", func(c *neffos.Conn, ns *neffos.NSConn) error { return c.DisconnectAll(bg) }},
		"join-q":     {"join-q", func(c *neffos.Conn, ns *neffos.NSConn) error { _, err := ns.JoinRoom(bg, "q"); return err }},
		"join-r":     {"join-r", func(c *neffos.Conn, ns *neffos.NSConn) error { _, err := ns.JoinRoom(bg, "r"); return err }},
		"leave-r":    {"leave-r", func(c *neffos.Conn, ns *neffos.NSConn) error { return ns.Room("r").Leave(bg) }},
		"leaveall":   {"leaveall", func(c *neffos.Conn, ns *neffos.NSConn) error { return ns.LeaveAll(bg) }},
		"emit":       {"emit", func(c *neffos.Conn, ns *neffos.NSConn) error { ns.Emit("m", []byte("1")); return nil }},
		"emit-r": {"emit-r", func(c *neffos.Conn, ns *neffos.NSConn) error {
			c.Write(msg("x", "r", "m", "2"))
			return nil
		}},
		"connect": {"connect", func(c *neffos.Conn, ns *neffos.NSConn) error { _, err := c.Connect(bg, "x"); return err }},
		"close":   {"close", func(c *neffos.Conn, ns *neffos.NSConn) error { c.Close(); return nil }},
	}
	// race runs call a on side A and call b on side B at once, starting connected to x and in room r.
	race := func(a, b string) func() {
		return func() {
			sides := []string{"CC", "CS", "SC", "SS"}[vsched.Choose(4)]
			var w *world
			var c, s *neffos.Conn
			lib.Setup(func() {
				w, c, s = pairWorld("x")
				ns, err := c.Connect(bg, "x")
				lib.Must("connect", err)
				_, err = ns.JoinRoom(bg, "r")
				lib.Must("join", err)
			})
			pick := func(x byte) *neffos.Conn {
				if x == 'C' {
					return c
				}
				return s
			}
			ca, cb := pick(sides[0]), pick(sides[1])
			na, nb := ca.Namespace("x"), cb.Namespace("x")
			ra, rb := na.Room("r"), nb.Room("r")
			_, _ = ra, rb
			var ea, eb error
			run := func(k string, c *neffos.Conn, ns *neffos.NSConn, r *neffos.Room) error {
				if k == "leave-r" {
					return r.Leave(bg)
				}
				return calls[k].f(c, ns)
			}
			vsched.Par(func() { ea = run(a, ca, na, ra) }, func() { eb = run(b, cb, nb, rb) })
			lib.Settle()
			what := sides[:1] + "." + a + " with " + sides[1:] + "." + b
			gc, gs := stateOf(c, "x"), stateOf(s, "x")
			lib.Check(gc == gs, "%s: client holds {%s}, server holds {%s} (errors %v, %v)", what, gc, gs, ea, eb)
			closed := a == "close" || b == "close"
			for _, x := range []struct {
				k    string
				err  error
				side string
			}{{a, ea, sides[:1]}, {b, eb, sides[1:]}} {
				switch x.k {
				case "disconnect", "discall":
					gone := a != "connect" && b != "connect"
					if gone {
						lib.Check(gc == "", "%s: namespace is still held after it returned: {%s}", what, gc)
					}
					// losing to the other side's disconnect or close is not an error of its own, but may be reported as such
					if x.err != nil {
						lib.Check(closed || x.err == neffos.ErrBadNamespace && x.k != "discall", "%s: %s failed: %v", what, x.k, x.err)
					}
				case "leave-r", "leaveall":
					if x.err != nil {
						// losing to another leave is not an error of LeaveAll; against a disconnect the namespace may be gone
						gone := strings.HasPrefix(a, "disc") || strings.HasPrefix(b, "disc")
						lib.Check(closed || x.k == "leave-r" && x.err == neffos.ErrBadRoom || gone && x.err == neffos.ErrBadNamespace, "%s: %s failed: %v", what, x.k, x.err)
					}
					if a != "join-r" && b != "join-r" && a != "join-q" && b != "join-q" {
						lib.Check(!strings.Contains(gc, "r"), "%s: the room is still joined: {%s}", what, gc)
					}
				case "join-q", "join-r":
					if l := w.log(x.side + ":a").L; x.err == nil {
						lib.Check(count(l, "joined(x/"+x.k[5:]+")") >= 1, "%s: %s reported success, it never joined: %v", what, x.k, l)
					}
					dropping := a == "disconnect" || b == "disconnect" || a == "discall" || b == "discall" || closed
					if x.err != nil {
						lib.Check(dropping, "%s: %s failed: %v", what, x.k, x.err)
					} else if !dropping && a != "leaveall" && b != "leaveall" && x.k == "join-q" {
						lib.Check(strings.Contains(gc, "q"), "%s: joined room is not held: {%s}", what, gc)
					}
				case "connect":
					lib.Check(x.err == nil || closed, "%s: connect failed: %v", what, x.err)
				}
			}
			for _, sd := range []string{"C", "S"} {
				l := w.log(sd + ":a").L
				if closed {
					checkCounts(sd, l)
					lib.Check(count(l, "disconnect(") == 1 && count(l, "left(x/r)") == 1, "%s: side %s tore down wrongly: %v", what, sd, l)
				} else {
					checkLife(sd, "x", l)
				}
				lib.Check(count(l, "m(") <= 1, "%s: message handled twice: %v", what, l)
			}
			vsched.SetOutcome(sides + gc + errText(ea) + "," + errText(eb) + w.log("C:a").String() + "|" + w.log("S:a").String())
		}
	}
	c05 := mc.Register("C05",
		&mc.Scenario{Name: "disconnect-sequences", Body: sweep([]string{"x", "y"}, []string{"x", "y"}, c05menu, 4, 5), MaxSteps: 400000},
		&mc.Scenario{Name: "from-full", Body: full([]string{"C", "S"}, c05menu, 3, 4), MaxSteps: 400000},
	)
	c05.Rule = "all operation sequences of the stated length from an 18-operation menu, from the empty and from a fully joined start, against the reference model; every pair of overlapping calls, from every pair of sides, up to the deviation bound."
	for _, p := range [][2]string{{"disconnect", "disconnect"}, {"disconnect", "discall"}, {"disconnect", "join-q"}, {"disconnect", "leave-r"}, {"disconnect", "leaveall"}, {"disconnect", "emit"}, {"disconnect", "connect"}, {"disconnect", "close"}, {"discall", "join-q"}, {"discall", "connect"}, {"discall", "discall"}, {"discall", "leaveall"}} {
		mc.Register("C05", &mc.Scenario{Name: "race-" + p[0] + "-" + p[1], Body: race(p[0], p[1]), Bound: 2, Deep: 3, Policies: polTwo})
	}
	c06menu := append(both(
		mop{kind: "join", ns: "x", room: "r"}, mop{kind: "join", ns: "x", room: "q"}, mop{kind: "join", ns: "y", room: "r"},
		mop{kind: "join", ns: "x", room: "r", veto: "remote"},
		mop{kind: "leave", ns: "x", room: "r"}, mop{kind: "leave", ns: "x", room: "r", veto: "remote"},
		mop{kind: "leaveall", ns: "x"}), mop{kind: "leaveall", side: "C", ns: "x", veto: "remote"}, mop{kind: "disconnect", side: "C", ns: "x"}, mop{kind: "connect", side: "C", ns: "x"})
	joined := func() {
		vsched.Explore(false)
		m := newModel([]string{"x", "y"}, []string{"x", "y"})
		m.step(mop{kind: "connect", side: "C", ns: "x"})
		m.step(mop{kind: "connect", side: "S", ns: "y"})
		done := ""
		for i := 0; i < mc.Pick(4, 5); i++ {
			var can []mop
			for _, o := range c06menu {
				if m.possible(o) {
					can = append(can, o)
				}
			}
			o := can[vsched.Choose(len(can))]
			done += " " + o.String()
			m.step(o)
			if i == 3 {
				m.probe()
			}
		}
		m.finish()
		vsched.SetOutcome(done)
	}
	// the joining side's own callback refuses: the caller gets the error and is not in the room
	localRefusal := func() {
		w, c, s := pairWorld("x")
		side := []string{"C", "S"}[vsched.Choose(2)]
		I := c
		if side == "S" {
			I = s
		}
		ns, err := I.Connect(bg, "x")
		lib.Must("connect", err)
		w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if sd == side && strings.HasPrefix(ev, "join(") {
				return veto("not me")
			}
			return nil
		}
		r, err := ns.JoinRoom(bg, "r")
		lib.Settle()
		lib.Check(r == nil && sameErr(err, "not me"), "JoinRoom refused by the caller's own callback returned %v, %v", r, err)
		lib.Check(ns.Room("r") == nil, "side %s is in the room its own callback refused", side)
		lib.Check(count(w.log(side+":a").L, "joined(") == 0, "OnRoomJoined fired for a refused join")
		w.on = nil
		r, err = ns.JoinRoom(bg, "r")
		lib.Check(err == nil && r != nil, "JoinRoom after a refusal: %v", err)
		lib.Settle()
		bothHold(c, s, "x[r]", "x")
		vsched.SetOutcome(side + w.log("C:a").String() + "|" + w.log("S:a").String())
	}
	// a callback that itself leaves or joins
	nested := func() {
		w, c, s := pairWorld("x")
		side := []string{"C", "S"}[vsched.Choose(2)] // who initiates
		kick := []string{"C", "S"}[vsched.Choose(2)] // whose OnRoomJoined leaves again
		I := c
		if side == "S" {
			I = s
		}
		var kerr error
		w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if sd == kick && strings.HasPrefix(ev, "joined(") {
				kerr = n.Room("r").Leave(bg)
			}
			return nil
		}
		lib.Setup(func() { _, err := I.Connect(bg, "x"); lib.Must("connect", err) })
		_, err := I.Namespace("x").JoinRoom(bg, "r")
		lib.Settle()
		lib.Check(err == nil && kerr == nil, "join: %v, leave inside OnRoomJoined: %v", err, kerr)
		bothHold(c, s, "x[]", "x")
		for _, sd := range []string{"C", "S"} {
			checkLife(sd, "x", w.log(sd+":a").L)
			lib.Check(count(w.log(sd+":a").L, "left(") == 1, "side %s: %v", sd, w.log(sd+":a").L)
		}
	}
	c06 := mc.Register("C06",
		&mc.Scenario{Name: "room-sequences", Body: joined, MaxSteps: 400000},
		&mc.Scenario{Name: "local-refusal", Body: localRefusal, Bound: 1, Policies: polTwo},
		&mc.Scenario{Name: "leave-inside-joined", Body: nested, Bound: 2, Policies: polTwo},
	)
	c06.Rule = "all sequences of 4 (thorough: 5) room operations from a 17-operation menu against the reference model; every pair of overlapping room calls, from every pair of sides, up to the deviation bound."
	for _, p := range [][2]string{{"join-q", "join-q"}, {"join-q", "leave-r"}, {"join-r", "leave-r"}, {"leave-r", "leave-r"}, {"leave-r", "leaveall"}, {"leaveall", "leaveall"}, {"join-q", "leaveall"}, {"disconnect", "leaveall"}, {"emit-r", "leave-r"}, {"join-q", "close"}, {"leave-r", "close"}} {
		mc.Register("C06", &mc.Scenario{Name: "race-" + p[0] + "-" + p[1], Body: race(p[0], p[1]), Bound: 2, Deep: 3, Policies: polTwo})
	}
}
