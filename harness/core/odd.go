package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// One whole life of a connection for every combination of unusual names, identifiers, contexts and handlers.
// Each property that registers it judges its own part only.
func init() {
	names := []string{"x", "", "a;b", " ", "x.y", "/é", "_OnNamespaceConnect", "$1", "#0", "M", strings.Repeat("n", 300)}
	rooms := []string{"r", "", "a;b", "x", " ;", "$1", "_OnRoomJoin", strings.Repeat("r", 300)}
	events := []string{"m", "a;b", "", "$1", "M", "é é", strings.Repeat("e", 300)}
	ids := []string{"a", "a;b", "M", "neffos(0x", strings.Repeat("i", 300)}
	life := func(prop string) func() {
		return func() {
			vsched.Explore(false)
			chk := func(p string, ok bool, f string, a ...any) {
				if strings.Contains(p, prop) {
					lib.Check(ok, f, a...)
				}
			}
			pick := func(l []string) string { return l[vsched.Choose(len(l))] }
			// one of the axes at a time is free, the others follow (every pair of names with every context)
			ns, room, ev, id := pick(names), pick(rooms), "m", "a"
			if vsched.Choose(2) == 1 {
				ev, id = pick(events), pick(ids)
			}
			var ctx context.Context
			switch vsched.Choose(4) {
			case 1:
				ctx = context.TODO()
			case 2:
				ctx = context.Background()
			case 3:
				c, cancel := lib.WithTimeout(time.Hour)
				defer cancel()
				ctx = c
			}
			side := pick([]string{"C", "S"})
			bodies := [][]byte{[]byte("b"), {}, []byte(";1;"), {0, 255}}

			w := newWorld()
			w.on = func(sd, i, e string, c *neffos.NSConn, m neffos.Message) error {
				if m.Event == "ask" {
					return neffos.Reply(append([]byte("re:"), m.Body...))
				}
				return nil
			}
			h := neffos.Namespaces{ns: w.events(ev, "ask"), "other": w.events(ev)}
			w.host(h)
			w.dial(id, h)
			c, s := w.conn("C", id), w.conn("S", id)
			I, R, ik, rk := c, s, "C:"+id, "S:"+id
			if side == "S" {
				I, R, ik, rk = s, c, "S:"+id, "C:"+id
			}
			what := strings.Join([]string{side, "ns " + ns, "room " + room, "event " + ev, "id " + id}, ",")
			full := ns
			if room != "" {
				full += "/" + room
			}
			take := func(k string) string {
				l := strings.Join(w.log(k).L, " ")
				w.log(k).L = nil
				return l
			}
			both := func(p, wantI, wantR string) {
				lib.Settle()
				gi, gr := take(ik), take(rk)
				chk(p, gi == wantI, "%s: the caller's callbacks were %q, expected %q", what, gi, wantI)
				chk(p, gr == wantR, "%s: the other side's callbacks were %q, expected %q", what, gr, wantR)
			}
			hold := func(p, want string) {
				chk(p, stateOf(c, ns) == want && stateOf(s, ns) == want, "%s: the sides hold {%s} and {%s}, expected {%s}", what, stateOf(c, ns), stateOf(s, ns), want)
			}
			n, err := I.Connect(ctx, ns)
			lib.Check(err == nil && n != nil, "%s: Connect: %v", what, err)
			hold("C04", ns+"[]")
			both("C04", "connect("+ns+")L connected("+ns+")L", "connect("+ns+") connected("+ns+")")
			again, err := R.Connect(ctx, ns)
			chk("C04", err == nil && again == R.Namespace(ns), "%s: second Connect: %v", what, err)
			both("C04", "", "")

			for _, b := range bodies {
				chk("C09 C10", n.Emit(ev, b), "%s: Emit failed", what)
				chk("C09 C10", R.Namespace(ns).EmitBinary(ev, b), "%s: EmitBinary failed", what)
				both("C09 C10", ev+"("+ns+")="+string(b)+"[bin]", ev+"("+ns+")="+string(b))
				r, err := n.Ask(ctx, "ask", b)
				chk("C07", err == nil && string(r.Body) == "re:"+string(b), "%s: Ask got %q, %v", what, r.Body, err)
				chk("C07", r.Namespace == ns && r.Room == "" && r.Event == "ask", "%s: the reply's fields are %q %q %q", what, r.Namespace, r.Room, r.Event)
				both("C07", "", "ask("+ns+")="+string(b))
			}

			chk("C10", !I.Write(neffos.Message{Namespace: "other", Event: ev}), "%s: Write to a namespace that is not connected succeeds", what)
			chk("C10", !I.Write(neffos.Message{Namespace: ns, Room: "elsewhere", Event: ev}), "%s: Write to a room that is not joined succeeds", what)
			both("C10", "", "")

			r, err := n.JoinRoom(ctx, room)
			lib.Check(err == nil && r != nil && r.Name == room, "%s: JoinRoom: %v", what, err)
			hold("C06", ns+"["+room+"]")
			both("C06", "join("+full+")L joined("+full+")L", "join("+full+") joined("+full+")")
			chk("C09 C10", r.Emit(ev, []byte("in room")), "%s: Room.Emit failed", what)
			both("C09 C10", "", ev+"("+full+")=in room")

			// a server broadcast: to everybody of the namespace and room, to this ID, to another one, and to all but this one
			srv := w.srv
			bm := neffos.Message{Namespace: ns, Room: room, Event: ev, Body: []byte("bc")}
			got := func() string { lib.Settle(); w.log("S:" + id).L = nil; return take("C:" + id) }
			one := ev + "(" + full + ")=bc"
			srv.Broadcast(nil, bm)
			g := got()
			chk("C10 C11", g == one, "%s: Broadcast delivered %q, expected %q", what, g, one)
			bm.To = id
			srv.Broadcast(nil, bm)
			g = got()
			chk("C10", g == one, "%s: Broadcast To the ID delivered %q, expected %q", what, g, one)
			bm.To = id + "?"
			srv.Broadcast(nil, bm)
			g = got()
			chk("C10", g == "", "%s: Broadcast To another ID delivered %q", what, g)
			bm.To = ""
			srv.Broadcast(neffos.Exclude(id), bm)
			g = got()
			chk("C10", g == "", "%s: Broadcast excluding the ID delivered %q", what, g)
			srv.Broadcast(neffos.Exclude(id+"?"), bm)
			g = got()
			chk("C10", g == one, "%s: Broadcast excluding another ID delivered %q, expected %q", what, g, one)
			srv.Broadcast(s.Namespace(ns), bm)
			g = got()
			chk("C10", g == "", "%s: Broadcast excluding the connection delivered %q", what, g)
			sr, err := srv.Ask(ctx, neffos.Message{Namespace: ns, Event: "ask", To: id, Body: []byte("?")})
			chk("C12", err == nil && string(sr.Body) == "re:?", "%s: Server.Ask got %q, %v", what, sr.Body, err)
			got()

			err = r.Leave(ctx)
			chk("C06", err == nil, "%s: Leave: %v", what, err)
			hold("C06", ns+"[]")
			both("C06", "leave("+full+") left("+full+")", "leave("+full+") left("+full+")")
			err = r.Leave(ctx)
			chk("C06", err == neffos.ErrBadRoom, "%s: second Leave: %v", what, err)
			_, err = R.Namespace(ns).JoinRoom(ctx, room)
			lib.Check(err == nil, "%s: JoinRoom again: %v", what, err)
			lib.Settle()
			take(ik)
			take(rk)
			err = n.Disconnect(ctx)
			chk("C05", err == nil, "%s: Disconnect: %v", what, err)
			hold("C05", "")
			lv := "leave(" + full + ")F left(" + full + ")F"
			wantI, wantR := "leave("+full+")LF left("+full+")LF disconnect("+ns+")L", lv+" disconnect("+ns+")"
			if side == "C" {
				wantR = "disconnect(" + ns + ") " + lv
			}
			both("C05", wantI, wantR)
			_, err = I.Connect(ctx, ns)
			lib.Check(err == nil, "%s: Connect again: %v", what, err)
			lib.Settle()
			hold("C05", ns+"[]")
			_, err = I.Namespace(ns).JoinRoom(ctx, room)
			lib.Check(err == nil, "%s: JoinRoom after a reconnect: %v", what, err)
			lib.Settle()
			take(ik)
			take(rk)
			I.Close()
			f := "leave(" + full + ")LF left(" + full + ")LF disconnect(" + ns + ")LF"
			both("C13", f, f)
			chk("C13", stateOf(c, ns) == "" && stateOf(s, ns) == "", "%s: the closed sides hold {%s} and {%s}", what, stateOf(c, ns), stateOf(s, ns))
			mc.Cases(1)
		}
	}
	for _, p := range []string{"C04", "C05", "C06", "C07", "C09", "C10", "C12", "C13"} {
		mc.Register(p, &mc.Scenario{Name: "unusual-names", Body: life(p), MaxSteps: 400000})
	}
}

// Namespaces and rooms whose names look alike are different ones: everything done to one leaves the other as it is.
func init() {
	names := []string{"x", "X", " x", "x ", "x;", "x/", "/x", "xx", "x\n", ""}
	alike := func() {
		vsched.Explore(false)
		ia, ib := vsched.Choose(len(names)), vsched.Choose(len(names)-1)
		if ib >= ia {
			ib++
		}
		A, B := names[ia], names[ib]
		side := []string{"C", "S"}[vsched.Choose(2)]
		mode := []string{"server lacks B", "client lacks B", "namespaces", "rooms"}[vsched.Choose(4)]
		w := newWorld()
		tagged := func(nss ...string) neffos.Namespaces {
			out := neffos.Namespaces{}
			for _, n := range nss {
				e := neffos.Events{}
				for _, ev := range []string{"m", neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft} {
					e[ev] = func(c *neffos.NSConn, m neffos.Message) error {
						lib.Check(m.Namespace == n && m.Event == ev && c == c.Conn.Namespace(n) || ev == neffos.OnNamespaceConnect || ev == neffos.OnNamespaceDisconnect, "names %q and %q: the callback %q of %q got %q of %q", A, B, ev, n, m.Event, m.Namespace)
						return w.handle(c, m)
					}
				}
				out[n] = e
			}
			return out
		}
		hs, hc := tagged(A, B, "n"), tagged(A, B, "n")
		switch mode {
		case "server lacks B":
			delete(hs, B)
		case "client lacks B":
			delete(hc, B)
		}
		w.host(hs)
		w.dial("a", hc)
		c, s := w.conn("C", "a"), w.conn("S", "a")
		I, R := c, s
		if side == "S" {
			I, R = s, c
		}
		what := fmt.Sprintf("%s, %q and %q, %s", side, A, B, mode)
		hold := func(want string) {
			lib.Settle()
			lib.Check(stateOf(c, "n", A, B) == want && stateOf(s, "n", A, B) == want, "%s: the client holds {%s}, the server {%s}, expected {%s}", what, stateOf(c, "n", A, B), stateOf(s, "n", A, B), want)
		}
		must := func(err error) { lib.Check(err == nil, "%s: %v", what, err) }
		take := func() string {
			lib.Settle()
			l := w.log("C:a").String() + "|" + w.log("S:a").String()
			w.log("C:a").L, w.log("S:a").L = nil, nil
			return l
		}
		connect := func(k *neffos.Conn, n string) *neffos.NSConn {
			ns, err := k.Connect(nil, n)
			must(err)
			lib.Check(ns == k.Namespace(n), "%s: Connect(%q) returned another namespace", what, n)
			return ns
		}
		// a message of (ns, room), both ways and as a broadcast, arrives iff it is held
		reach := func(ns, room string, held bool) {
			take()
			full := "m(" + ns
			if room != "" {
				full += "/" + room
			}
			full += ")="
			okI, okR := I.Write(msg(ns, room, "m", "1")), R.Write(msg(ns, room, "m", "2"))
			w.srv.Broadcast(nil, msg(ns, room, "m", "3"))
			want, sv, cv := "|", "1", "2"
			if side == "S" {
				sv, cv = "2", "1"
			}
			if held {
				want = full + cv + " " + full + "3|" + full + sv
			}
			got := take()
			lib.Check(okI == held && okR == held && got == want, "%s: messages to %q, room %q: written %v %v, handled %q, expected %q", what, ns, room, okI, okR, got, want)
		}
		switch mode {
		case "server lacks B", "client lacks B":
			for i := 0; i < 2; i++ {
				for _, k := range []*neffos.Conn{I, R} {
					ns, err := k.Connect(nil, B)
					lib.Check(ns == nil && err == neffos.ErrBadNamespace, "%s: Connect(B) returned %v", what, err)
				}
				reach(B, "", false)
				reach(A, "", i == 1)
				connect(I, A)
			}
			hold(A + "[]")
		case "namespaces":
			nA := connect(I, A)
			hold(A + "[]")
			reach(B, "", false)
			nB := connect(R, B)
			_, err := nA.JoinRoom(nil, "r")
			must(err)
			hold(A + "[r] " + B + "[]")
			reach(A, "r", true)
			reach(B, "r", false)
			_, err = nB.JoinRoom(nil, "r")
			must(err)
			reach(A, "", true)
			reach(B, "", true)
			reach(B, "r", true)
			must(nA.LeaveAll(nil))
			hold(A + "[] " + B + "[r]")
			reach(B, "r", true)
			take()
			must(nA.Disconnect(nil))
			hold(B + "[r]")
			lib.Check(!strings.Contains(take(), "("+B+"/r)"), "%s: Disconnect(A) fired a room event of B", what)
			reach(A, "", false)
			reach(B, "r", true)
			connect(R, A)
			must(R.DisconnectAll(nil))
			hold("")
			reach(A, "", false)
			reach(B, "", false)
		case "rooms":
			n := connect(I, "n")
			if A == "" || B == "" { // a message to the empty room is one to the namespace
				return
			}
			rA, err := n.JoinRoom(nil, A)
			must(err)
			hold("n[" + A + "]")
			reach("n", A, true)
			reach("n", B, false)
			lib.Check(n.Room(B) == nil && R.Namespace("n").Room(B) == nil, "%s: in room B", what)
			rB, err := R.Namespace("n").JoinRoom(nil, B)
			must(err)
			reach("n", A, true)
			reach("n", B, true)
			must(rA.Leave(nil))
			hold("n[" + B + "]")
			reach("n", A, false)
			reach("n", B, true)
			err = rA.Leave(nil)
			lib.Check(err == neffos.ErrBadRoom, "%s: second Leave: %v", what, err)
			must(rB.Leave(nil))
			hold("n[]")
			reach("n", B, false)
		}
		mc.Cases(1)
	}
	for _, p := range []string{"C04", "C05", "C06", "C10", "C17"} {
		mc.Register(p, &mc.Scenario{Name: "alike-names", Body: alike, MaxSteps: 400000})
	}
}
