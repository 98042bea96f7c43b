package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// member is one connection of the addressing scenarios.
type member struct {
	id   string
	name string          // unique
	in   map[string]bool // "x", "x/r", "y" ...
	c, s *neffos.Conn
	acc  *lib.Accepted
}

type strer string

func (s strer) String() string { return string(s) }

// crowd is a server with several connections whose deliveries are recorded.
type crowd struct {
	w     *world
	m     []*member
	relay func(c *neffos.NSConn, m neffos.Message) error
	sys   func(c *neffos.NSConn, m neffos.Message) error
	got   map[string][]string // member name -> "ns/room/event=body"
}

// memberships: what a connection is in
var memberships = []string{"", "x", "x x/r", "y y/r ~", "x x/r x/q y ~ ~/r"} // "~" is the empty namespace

func (cr *crowd) add(id, name, in string) *member {
	m := &member{id: id, name: name, in: map[string]bool{}}
	h := neffos.Namespaces{}
	for _, n := range []string{"x", "y", "z", ""} {
		h[n] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, msg neffos.Message) error {
			if !neffos.IsSystemEvent(msg.Event) {
				cr.got[name] = append(cr.got[name], fmt.Sprintf("%s/%s/%s=%s%v", msg.Namespace, msg.Room, msg.Event, msg.Body, msg.SetBinary))
			}
			return nil
		}}
	}
	n := len(cr.w.h.Conns)
	cl := cr.w.h.Dial(id, h)
	m.c = lib.ConnOf(cl)
	m.acc = cr.w.h.Conns[n]
	vsched.Block("upgrade", func() bool { return m.acc.Done })
	m.s = m.acc.Conn
	for _, p := range strings.Fields(in) {
		p = strings.Replace(p, "~", "", 1)
		m.in[p] = true
		ns, room, _ := strings.Cut(p, "/")
		nc, err := m.c.Connect(bg, ns)
		lib.Must("connect", err)
		if room != "" {
			_, err := nc.JoinRoom(bg, room)
			lib.Must("join", err)
		}
	}
	cr.m = append(cr.m, m)
	return m
}

func newCrowd(sync bool) *crowd {
	cr := &crowd{w: newWorld(), got: map[string][]string{}}
	h := neffos.Namespaces{}
	for _, n := range []string{"x", "y", "z", ""} {
		h[n] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, msg neffos.Message) error {
			if msg.Event == "relay" && cr.relay != nil {
				return cr.relay(c, msg)
			}
			if neffos.IsSystemEvent(msg.Event) && cr.sys != nil {
				return cr.sys(c, msg)
			}
			return nil
		}}
	}
	cr.w.host(h)
	cr.w.srv.SyncBroadcaster = sync
	return cr
}

// entitled is the addressing rule.
func (m *member) entitled(msg neffos.Message, exMember *member, exID string) bool {
	if !m.in[msg.Namespace] || msg.Room != "" && !m.in[msg.Namespace+"/"+msg.Room] {
		return false
	}
	if msg.To != "" && msg.To != m.id {
		return false
	}
	if m == exMember || exID != "" && m.id == exID {
		return false
	}
	return true
}

// except is one way to exclude
type except struct {
	name string
	v    fmt.Stringer
	m    *member
	id   string
}

func (cr *crowd) excepts() []except {
	out := []except{{name: "nil"}, {name: "Exclude(a)", v: neffos.Exclude("a"), id: "a"}, {name: "Exclude(nobody)", v: neffos.Exclude("nobody"), id: "nobody"}, {name: "Stringer(b)", v: strer("b"), id: "b"}}
	m := cr.m[0]
	out = append(out, except{name: "Conn " + m.name, v: m.s, m: m})
	m = cr.m[len(cr.m)-1]
	out = append(out, except{name: "Conn " + m.name, v: m.s, m: m})
	for _, n := range []string{"x", "y", ""} {
		for _, m := range cr.m {
			if ns := m.s.Namespace(n); ns != nil {
				out = append(out, except{name: "NSConn " + m.name, v: ns, m: m})
				if r := ns.Room("r"); r != nil {
					out = append(out, except{name: "Room " + m.name, v: r, m: m})
				}
			}
		}
	}
	return out
}

var addrMsgs = func() []neffos.Message {
	var out []neffos.Message
	for _, nr := range []string{"x", "x/r", "x/q", "y", "y/r", "z", "nope", "x/nope", "", "/r"} {
		for _, to := range []string{"", "a", "b", "nobody"} {
			ns, room, _ := strings.Cut(nr, "/")
			out = append(out, neffos.Message{Namespace: ns, Room: room, Event: "e", To: to, Body: []byte(nr + ">" + to), SetBinary: to == "b"})
		}
	}
	return out
}()

func rendered(m neffos.Message) string {
	return fmt.Sprintf("%s/%s/%s=%s%v", m.Namespace, m.Room, m.Event, m.Body, m.SetBinary)
}

// expect compares the deliveries since the last call with the rule.
func (cr *crowd) expect(what string, msgs []neffos.Message, exM *member, exID string) {
	lib.Settle()
	for _, m := range cr.m {
		var want []string
		for _, msg := range msgs {
			if m.entitled(msg, exM, exID) {
				want = append(want, rendered(msg))
			}
		}
		lib.Check(fmt.Sprint(cr.got[m.name]) == fmt.Sprint(want), "%s: connection %s (in %v) received %v, expected %v", what, m.name, keys(m.in), cr.got[m.name], want)
	}
	cr.got = map[string][]string{}
	mc.Cases(1)
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func init() {
	// setup of 3 connections; the ids a, b, and either c or a again
	setup := func() *crowd {
		sync := vsched.Choose(2) == 1
		in := []string{memberships[1+vsched.Choose(len(memberships)-1)], memberships[vsched.Choose(len(memberships))], memberships[vsched.Choose(3)]}
		twin := vsched.Choose(2) == 1
		var cr *crowd
		vsched.Explore(false)
		cr = newCrowd(sync)
		cr.add("a", "a1", in[0])
		cr.add("b", "b", in[1])
		if twin {
			cr.add("a", "a2", in[2])
		} else {
			cr.add("c", "c", in[2])
		}
		lib.Settle()
		return cr
	}
	single := func() {
		cr := setup()
		for _, ex := range cr.excepts() {
			for _, msg := range addrMsgs {
				keep := msg
				keep.Body = append([]byte(nil), msg.Body...)
				cr.w.srv.Broadcast(ex.v, msg)
				cr.expect("Broadcast("+ex.name+", "+string(msg.Body)+")", []neffos.Message{keep}, ex.m, ex.id)
			}
		}
	}
	multi := func() {
		cr := setup()
		ms := []neffos.Message{addrMsgs[0], addrMsgs[1], addrMsgs[4], addrMsgs[6], addrMsgs[12], addrMsgs[24], addrMsgs[2], addrMsgs[32]}
		exs := cr.excepts()
		for _, ex := range exs[:5] {
			for _, a := range ms {
				for _, b := range ms {
					three := []neffos.Message{a, b, addrMsgs[0]}
					cr.w.srv.Broadcast(ex.v, three...)
					cr.expect(fmt.Sprintf("Broadcast(%s, %s, %s, x)", ex.name, a.Body, b.Body), []neffos.Message{a, b, addrMsgs[0]}, ex.m, ex.id)
					// the caller's messages are its own: sending them again, with nobody excluded, goes by the rule again
					cr.w.srv.Broadcast(nil, three...)
					cr.expect(fmt.Sprintf("Broadcast(nil, %s, %s, x) after Broadcast(%s, the same)", a.Body, b.Body, ex.name), []neffos.Message{a, b, addrMsgs[0]}, nil, "")
				}
			}
		}
		for _, m := range cr.m {
			for _, n := range []string{"x", "y"} {
				if ns := m.s.Namespace(n); ns != nil {
					two := []neffos.Message{addrMsgs[0], addrMsgs[12]}
					ns.Broadcast(two...)
					cr.expect("NSConn.Broadcast of "+m.name, two, nil, "")
					ns.BroadcastOthers(two...)
					cr.expect("NSConn.BroadcastOthers of "+m.name, two, m, "")
				}
			}
		}
	}
	// IDs, namespaces, rooms that look alike are different ones
	alike := func() {
		names := []string{"a", "A", "a ", "aa", "\u00e0", "a;", "a.b"}
		cr := newCrowd(vsched.Choose(2) == 1)
		vsched.Explore(false)
		for _, id := range names {
			cr.add(id, id, "x x/r")
		}
		cr.add("o", "o", "x x/R")
		cr.add("0", "0", "x x/rr")
		lib.Settle()
		for _, ex := range append([]string{"nobody"}, names...) {
			for _, to := range append([]string{""}, names...) {
				msg := neffos.Message{Namespace: "x", Event: "e", To: to, Body: []byte("to " + to)}
				one := []neffos.Message{msg}
				cr.w.srv.Broadcast(neffos.Exclude(ex), one...)
				cr.expect("Broadcast(Exclude("+ex+")) to "+to, []neffos.Message{msg}, nil, ex)
				cr.w.srv.Broadcast(nil, one...)
				cr.expect("Broadcast(nil) of the same message to "+to, []neffos.Message{msg}, nil, "")
			}
		}
		for _, m := range cr.m {
			msg := neffos.Message{Namespace: "x", Event: "e", Body: []byte("but " + m.id)}
			one := []neffos.Message{msg}
			cr.w.srv.Broadcast(m.s, one...)
			cr.expect("Broadcast(Conn "+m.id+")", []neffos.Message{msg}, m, "")
			cr.w.srv.Broadcast(nil, one...)
			cr.expect("Broadcast(nil) of the same message", []neffos.Message{msg}, nil, "")
		}
		for _, room := range []string{"r", "R", "rr", "r ", " r", "r;"} {
			msg := neffos.Message{Namespace: "x", Room: room, Event: "e", Body: []byte("in " + room)}
			cr.w.srv.Broadcast(nil, msg)
			cr.expect("Broadcast to room "+room, []neffos.Message{msg}, nil, "")
		}
	}
	// direct writes of both sides: exactly one frame when entitled, failure and no frame otherwise
	direct := func() {
		cr := setup()
		for _, m := range cr.m {
			for _, side := range []string{"C", "S"} {
				k, e := m.c, m.acc.Client
				if side == "S" {
					k, e = m.s, m.acc.Server
				}
				for _, msg := range addrMsgs {
					if msg.To != "" {
						continue
					}
					n := len(e.Sent)
					ok := k.Write(msg)
					lib.Settle()
					want := m.entitled(msg, nil, "")
					lib.Check(ok == want, "side %s of %s (in %v): Write to %s reports %v", side, m.name, keys(m.in), msg.Body, ok)
					lib.Check(len(e.Sent)-n == map[bool]int{true: 1}[want], "side %s of %s (in %v): Write to %s sent %d frames", side, m.name, keys(m.in), msg.Body, len(e.Sent)-n)
					if !want {
						ctx, cancel := lib.WithTimeout(time.Hour)
						_, err := k.Ask(ctx, msg)
						cancel()
						lib.Settle()
						lib.Check(err == neffos.ErrWrite && len(e.Sent) == n, "side %s of %s (in %v): Ask of %s returned %v and sent %d frames", side, m.name, keys(m.in), msg.Body, err, len(e.Sent)-n)
					}
					mc.Cases(1)
				}
				for _, n := range []string{"x", "y", "z", ""} {
					ns := k.Namespace(n)
					cnt := len(e.Sent)
					lib.Check(ns.Emit("e", nil) == m.in[n] && ns.EmitBinary("e", nil) == m.in[n], "side %s of %s: Emit to %s", side, m.name, n)
					for _, r := range []string{"r", "q"} {
						if room := ns.Room(r); room != nil {
							lib.Check(room.Emit("e", nil), "side %s of %s: Room.Emit to %s/%s", side, m.name, n, r)
							lib.Must("leave", room.Leave(bg))
							cnt2 := len(e.Sent)
							lib.Check(!room.Emit("e", nil) && len(e.Sent) == cnt2, "side %s of %s: Room.Emit after Leave", side, m.name)
							_, err := ns.JoinRoom(bg, r)
							lib.Must("join", err)
						}
					}
					lib.Settle()
					if ns == nil {
						_, err := ns.Ask(bg, "e", nil)
						lib.Check(err != nil, "Ask of a namespace that is not connected returned no error")
						room, err := ns.JoinRoom(bg, "r")
						lib.Check(room == nil && err != nil && ns.Room("r") == nil, "JoinRoom of a namespace that is not connected returned %v, %v", room, err)
						lib.Must("LeaveAll", ns.LeaveAll(bg))
						lib.Must("Disconnect", ns.Disconnect(bg))
						lib.Settle()
						lib.Check(len(e.Sent) == cnt, "a nil namespace connection sent a frame")
					}
				}
				for _, o := range cr.m {
					lib.Settle()
					if o != m {
						lib.Check(len(cr.got[o.name]) == 0, "a direct write to %s reached %s: %v", m.name, o.name, cr.got[o.name])
					}
				}
				cr.got = map[string][]string{}
			}
			// afterwards: nothing for a namespace that was disconnected
			for _, n := range []string{"x", "y"} {
				if ns := m.s.Namespace(n); ns != nil {
					cn := m.c.Namespace(n)
					lib.Must("disconnect", ns.Disconnect(bg))
					lib.Settle()
					a, b := len(m.acc.Server.Sent), len(m.acc.Client.Sent)
					lib.Check(!ns.Emit("e", nil) && !cn.Emit("e", nil) && len(m.acc.Server.Sent) == a && len(m.acc.Client.Sent) == b, "Emit after Disconnect of %s", n)
					for p := range m.in {
						if strings.HasPrefix(p, n) {
							delete(m.in, p)
						}
					}
					cr.got = map[string][]string{}
					cr.w.srv.Broadcast(nil, addrMsgs[0], addrMsgs[12])
					cr.expect("Broadcast after a Disconnect", []neffos.Message{addrMsgs[0], addrMsgs[12]}, nil, "")
				}
			}
			m.s.Close()
			m.in = map[string]bool{}
			cr.got = map[string][]string{}
			cr.w.srv.Broadcast(nil, addrMsgs[0], addrMsgs[12])
			cr.expect("Broadcast after a Close", []neffos.Message{addrMsgs[0], addrMsgs[12]}, nil, "")
		}
	}
	// a message received in a callback, broadcast on
	relay := func() {
		sync := vsched.Choose(2) == 1
		asked := vsched.Choose(2) == 1
		how := vsched.Choose(3)
		cr := newCrowd(sync)
		lib.Setup(func() {
			cr.add("a", "a", "x x/r")
			cr.add("b", "b", "x x/r")
			cr.add("c", "c", "x")
		})
		h := map[string]*member{}
		for _, m := range cr.m {
			h[m.id] = m
		}
		room := []string{"", "r"}[vsched.Choose(2)]
		cr.relay = func(c *neffos.NSConn, m neffos.Message) error {
			switch how {
			case 0:
				c.Conn.Server().Broadcast(c, m)
			case 1:
				c.Conn.Server().Broadcast(c.Conn, m, m)
			case 2:
				c.Conn.Server().Broadcast(neffos.Exclude(c.Conn.ID()), m)
			}
			return neffos.Reply([]byte("done"))
		}
		m := neffos.Message{Namespace: "x", Room: room, Event: "relay", Body: []byte("hello")}
		if asked {
			r, err := h["a"].c.Ask(bg, m)
			lib.Check(err == nil && string(r.Body) == "done", "Ask returned %q, %v", r.Body, err)
		} else {
			lib.Check(h["a"].c.Write(m), "Write failed")
		}
		lib.Settle()
		n := 1
		if how == 1 {
			n = 2
		}
		for _, o := range cr.m {
			want := 0
			if o.id != "a" && (room == "" || o.in["x/r"]) {
				want = n
			}
			k := 0
			for _, g := range cr.got[o.name] {
				if strings.HasSuffix(g, "=hellofalse") {
					k++
				}
			}
			lib.Check(k == want, "%s received %v, expected the message %d times", o.name, cr.got[o.name], want)
		}
	}
	// while a connection joins, leaves, connects, disconnects: who stays in gets it, who stays out does not
	racing := func(op string) func() {
		return func() {
			sync := vsched.Choose(2) == 1
			cr := newCrowd(sync)
			start := map[string]string{"join": "x", "leave": "x x/r", "connect": "", "disconnect": "x x/r", "close": "x x/r"}[op]
			lib.Setup(func() {
				cr.add("a", "a", start)
				cr.add("b", "b", "x x/r")
				cr.add("c", "c", "x")
			})
			a := cr.m[0]
			before := len(a.acc.Server.Sent)
			doneAt, bcAt, clock := 0, 0, 0
			change := func() {
				var err error
				switch op {
				case "join":
					_, err = a.c.Namespace("x").JoinRoom(bg, "r")
				case "leave":
					err = a.c.Namespace("x").Room("r").Leave(bg)
				case "connect":
					_, err = a.c.Connect(bg, "x")
				case "disconnect":
					err = a.c.Namespace("x").Disconnect(bg)
				case "close":
					a.c.Close()
				}
				lib.Must(op, err)
				clock++
				doneAt = clock
			}
			room := "r"
			if op == "connect" {
				room = ""
			}
			vsched.Par(change, func() {
				clock++
				bcAt = clock
				cr.w.srv.Broadcast(nil, neffos.Message{Namespace: "x", Room: room, Event: "e", Body: []byte("1")})
			})
			lib.Settle()
			lib.Check(len(cr.got["b"]) == 1, "b received %v", cr.got["b"])
			lib.Check(len(cr.got["c"]) == map[string]int{"": 1}[room], "c received %v", cr.got["c"])
			n := 0
			for _, f := range a.acc.Server.Sent[before:] {
				if strings.HasSuffix(string(f.Data), ";e;0;0;1") {
					n++
				}
			}
			lib.Check(n <= 1, "a was sent the message %d times", n)
			if bcAt > doneAt { // the broadcast started after the change was complete
				want := map[string]int{"join": 1, "connect": 1}[op]
				if op != "close" {
					lib.Check(n == want, "after %s, a was sent the message %d times", op, n)
				}
			}
			vsched.SetOutcome(fmt.Sprint(sync, n, bcAt > doneAt))
		}
	}
	c10 := mc.Register("C10",
		&mc.Scenario{Name: "one-message", Body: single, MaxSteps: 100000000},
		&mc.Scenario{Name: "several-messages", Body: multi, MaxSteps: 100000000},
		&mc.Scenario{Name: "alike", Body: alike, MaxSteps: 100000000},
		&mc.Scenario{Name: "direct-writes", Body: direct, MaxSteps: 100000000},
		&mc.Scenario{Name: "relay", Body: relay, Bound: 1, Deep: 2, Policies: polTwo},
	)
	for _, op := range []string{"join", "leave", "connect", "disconnect", "close"} {
		mc.Register("C10", &mc.Scenario{Name: "while-" + op, Body: racing(op), Bound: 2, Deep: 3, Policies: polTwo})
	}
	c10.Rule = "every membership of three connections (with and without a shared ID) x {async, sync} broadcaster x every exclusion form x every (namespace, room, To) x one to three messages per call; every direct write of both sides; broadcasts during membership changes over every schedule up to the bound. input_cases counts broadcasts and writes judged."
}
