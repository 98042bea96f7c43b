package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// bus is an in-memory broker that joins several servers.
type bus struct {
	subs []*busConn
	asks map[string][]chan []byte
}

type busConn struct {
	c     *neffos.Conn
	chans map[string]bool
	q     []busMsg
	gone  bool
}

type busMsg struct {
	data []byte
	typ  neffos.MessageType
}

// busExc is one server's stack exchange over the bus.
type busExc struct{ b *bus }

var _ neffos.StackExchange = busExc{}

func (e busExc) find(c *neffos.Conn) *busConn {
	for _, s := range e.b.subs {
		if s.c == c {
			return s
		}
	}
	return nil
}

func (e busExc) OnConnect(c *neffos.Conn) error {
	s := &busConn{c: c, chans: map[string]bool{"id:" + c.ID(): true}}
	e.b.subs = append(e.b.subs, s)
	vsched.GoNamed("bus:"+c.ID(), func() {
		for {
			vsched.Block("bus", func() bool { return s.gone || len(s.q) > 0 })
			if s.gone {
				return
			}
			m := s.q[0]
			s.q = s.q[1:]
			msg := c.DeserializeMessage(m.typ, m.data)
			msg.FromStackExchange = true
			c.Write(msg)
		}
	})
	return nil
}

func (e busExc) OnDisconnect(c *neffos.Conn) {
	for i, s := range e.b.subs {
		if s.c == c {
			s.gone = true
			e.b.subs = append(e.b.subs[:i:i], e.b.subs[i+1:]...)
			return
		}
	}
}

func (e busExc) Publish(msgs []neffos.Message) bool {
	for _, m := range msgs {
		ch := "ns:" + m.Namespace
		if m.To != "" {
			ch = "id:" + m.To
		}
		data := m.Serialize()
		var typ neffos.MessageType = neffos.TextMessage
		if m.SetBinary {
			typ = neffos.BinaryMessage
		}
		for _, s := range e.b.subs {
			if s.chans[ch] {
				s.q = append(s.q, busMsg{append([]byte(nil), data...), typ})
			}
		}
	}
	return true
}

func (e busExc) Subscribe(c *neffos.Conn, ns string) {
	if s := e.find(c); s != nil {
		s.chans["ns:"+ns] = true
	}
}

func (e busExc) Unsubscribe(c *neffos.Conn, ns string) {
	if s := e.find(c); s != nil {
		delete(s.chans, "ns:"+ns)
	}
}

func (e busExc) Ask(ctx context.Context, m neffos.Message, token string) (r neffos.Message, err error) {
	var got [][]byte
	ch := make(chan []byte, 16)
	e.b.asks[token] = append(e.b.asks[token], ch)
	defer delete(e.b.asks, token)
	e.Publish([]neffos.Message{m})
	vsched.Block("bus ask", func() bool { return len(ch) > 0 || ctx.Err() != nil })
	if len(ch) > 0 {
		got = append(got, <-ch)
		r = neffos.DeserializeMessage(neffos.TextMessage, got[0], false, false)
		return r, r.Err
	}
	return r, ctx.Err()
}

func (e busExc) NotifyAsk(m neffos.Message, token string) error {
	m.ClearWait()
	for _, ch := range e.b.asks[token] {
		ch <- m.Serialize()
	}
	return nil
}

// fleet is two servers on one bus.
type fleet struct {
	b     *bus
	w     []*world
	m     []*member
	at    map[*member]int
	got   map[string][]string
	relay func(c *neffos.NSConn, m neffos.Message) error
	reply func(m *member, msg neffos.Message) error
}

func newFleet() *fleet {
	f := &fleet{b: &bus{asks: map[string][]chan []byte{}}, got: map[string][]string{}, at: map[*member]int{}}
	for i := 0; i < 2; i++ {
		h := neffos.Namespaces{}
		for _, n := range []string{"x", "y", "z", ""} {
			h[n] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, msg neffos.Message) error {
				if !neffos.IsSystemEvent(msg.Event) && f.relay != nil {
					return f.relay(c, msg)
				}
				return nil
			}}
		}
		w := newWorld()
		w.host(h)
		lib.Must("UseStackExchange", w.srv.UseStackExchange(busExc{f.b}))
		f.w = append(f.w, w)
	}
	return f
}

func (f *fleet) add(srv int, id, name, in string) *member {
	m := &member{id: id, name: name, in: map[string]bool{}}
	f.at[m] = srv
	h := neffos.Namespaces{}
	for _, n := range []string{"x", "y", "z", ""} {
		h[n] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, msg neffos.Message) error {
			if neffos.IsSystemEvent(msg.Event) {
				return nil
			}
			f.got[name] = append(f.got[name], rendered(msg))
			if f.reply != nil {
				return f.reply(m, msg)
			}
			return nil
		}}
	}
	w := f.w[srv]
	n := len(w.h.Conns)
	cl := w.h.Dial(id, h)
	m.c = lib.ConnOf(cl)
	m.acc = w.h.Conns[n]
	vsched.Block("upgrade", func() bool { return m.acc.Done })
	m.s = m.acc.Conn
	for _, p := range strings.Fields(in) {
		p = strings.Replace(p, "~", "", 1)
		m.in[p] = true
		ns, room, _ := strings.Cut(p, "/")
		nc, err := m.c.Connect(bg, ns)
		lib.Must("connect", err)
		if room != "" {
			_, err := nc.JoinRoom(bg, room)
			lib.Must("join", err)
		}
	}
	f.m = append(f.m, m)
	return m
}

func (f *fleet) expect(what string, msgs []neffos.Message, exM *member, exID string) {
	lib.Settle()
	for _, m := range f.m {
		var want []string
		for _, msg := range msgs {
			if m.entitled(msg, exM, exID) {
				want = append(want, rendered(msg))
			}
		}
		lib.Check(fmt.Sprint(f.got[m.name]) == fmt.Sprint(want), "%s: connection %s (of server %d, in %v) received %v, expected %v", what, m.name, f.at[m], keys(m.in), f.got[m.name], want)
	}
	f.got = map[string][]string{}
	mc.Cases(1)
}

// ids that need care on the way
var oddIDs = []string{"a", "a;b", "neffos(0x1)", ";;;;;;", "$1!2", "x"}

func init() {
	setup := func() *fleet {
		in := []string{memberships[1+vsched.Choose(len(memberships)-1)], memberships[vsched.Choose(len(memberships))], memberships[vsched.Choose(4)]}
		twin := vsched.Choose(2) == 1
		vsched.Explore(false)
		f := newFleet()
		f.add(0, "a", "a1", in[0])
		f.add(1, "b", "b", in[1])
		if twin {
			f.add(1, "a", "a2", in[2])
		} else {
			f.add(0, "c", "c", in[2])
		}
		lib.Settle()
		return f
	}
	type except2 struct {
		name string
		v    fmt.Stringer
		m    *member
		id   string
	}
	excepts := func(f *fleet) []except2 {
		out := []except2{{name: "nil"}, {name: "Exclude(a)", v: neffos.Exclude("a"), id: "a"}, {name: "Exclude(nobody)", v: neffos.Exclude("nobody"), id: "nobody"}, {name: "Stringer(b)", v: strer("b"), id: "b"}}
		for _, m := range f.m {
			out = append(out, except2{name: "Conn " + m.name, v: m.s, m: m})
			if ns := m.s.Namespace("x"); ns != nil {
				out = append(out, except2{name: "NSConn " + m.name, v: ns, m: m})
				if r := ns.Room("r"); r != nil {
					out = append(out, except2{name: "Room " + m.name, v: r, m: m})
				}
			}
		}
		return out
	}
	addressing := func() {
		f := setup()
		for from := 0; from < 2; from++ {
			for _, ex := range excepts(f) {
				for _, msg := range addrMsgs {
					keep := msg
					keep.Body = append([]byte(nil), msg.Body...)
					f.w[from].srv.Broadcast(ex.v, msg)
					f.expect(fmt.Sprintf("server %d: Broadcast(%s, %s)", from, ex.name, msg.Body), []neffos.Message{keep}, ex.m, ex.id)
				}
			}
		}
	}
	// several messages at once and one after another keep their order
	ordered := func() {
		f := setup()
		msgs := append([]neffos.Message(nil), addrMsgs...)
		for from := 0; from < 2; from++ {
			for _, ex := range excepts(f) {
				f.w[from].srv.Broadcast(ex.v, msgs...)
				f.w[from].srv.Broadcast(ex.v, msgs[1:5]...)
				f.expect("batch", append(append([]neffos.Message(nil), msgs...), msgs[1:5]...), ex.m, ex.id)
			}
		}
	}
	// contents and ids survive
	contents := func() {
		vsched.Explore(false)
		id := oddIDs[vsched.Choose(len(oddIDs))]
		f := newFleet()
		f.add(0, id, "odd", "x x/r")
		f.add(1, "b", "b", "x x/r")
		bodies := []string{"", "p", ";", "a;b", ";;;;;;;", "0;1", "\x00\xff", "neffos(0x1)", "@%!semicolon@%!", strings.Repeat("ab;", 100)}
		events := []string{"e", "e;f", "", "_e", "é"}
		for from := 0; from < 2; from++ {
			for _, b := range bodies {
				for _, e := range events {
					for _, room := range []string{"", "r"} {
						for _, bin := range []bool{false, true} {
							m := neffos.Message{Namespace: "x", Room: room, Event: e, Body: []byte(b), SetBinary: bin}
							f.w[from].srv.Broadcast(nil, m)
							f.expect("to all", []neffos.Message{m}, nil, "")
							f.w[from].srv.Broadcast(f.m[0].s, m)
							f.expect("except a connection", []neffos.Message{m}, f.m[0], "")
							f.w[from].srv.Broadcast(neffos.Exclude(id), m)
							f.expect("except an id", []neffos.Message{m}, nil, id)
							m.To = id
							f.w[from].srv.Broadcast(nil, m)
							f.expect("to one", []neffos.Message{m}, nil, "")
						}
					}
				}
			}
		}
	}
	// a message received by one server is passed on to the others, whoever waits for it
	relayed := func() {
		vsched.Explore(false)
		sender := vsched.Choose(2)
		kind := vsched.Choose(4)
		asked := vsched.Choose(2) == 1
		f := newFleet()
		f.add(0, "a", "a", "x x/r")
		f.add(1, "b", "b", "x x/r")
		f.add(1, "c", "c", "x")
		var exM *member
		f.relay = func(c *neffos.NSConn, m neffos.Message) error {
			switch kind {
			case 0:
				c.Conn.Server().Broadcast(c, m)
				exM = f.m[sender]
			case 1:
				c.Conn.Server().Broadcast(c.Conn, neffos.Message{Namespace: "x", Event: m.Event, Body: m.Body})
				exM = f.m[sender]
			case 2:
				c.BroadcastOthers(m)
				exM = f.m[sender]
			case 3:
				m.ClearWait()
				c.Broadcast(m)
			}
			if !asked {
				return nil
			}
			return neffos.Reply([]byte("done"))
		}
		s := f.m[sender]
		for i := 0; i < 3; i++ {
			body := fmt.Sprint("body", i)
			if asked {
				r, err := s.c.Namespace("x").Ask(bg, "say", []byte(body))
				lib.Must("ask", err)
				lib.Check(string(r.Body) == "done", "reply %q", r.Body)
			} else {
				s.c.Namespace("x").Emit("say", []byte(body))
			}
			lib.Settle()
			f.relayCheck(s, kind == 3, body, asked)
		}
		_ = exM
	}
	// Server.Ask from either server, answered by a connection of either server
	asks := func() {
		vsched.Explore(false)
		from, target := vsched.Choose(2), vsched.Choose(4)
		room := []string{"", "r"}[vsched.Choose(2)]
		how := vsched.Choose(8)
		known := []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, context.DeadlineExceeded}
		f := newFleet()
		f.add(0, "a", "a", "x x/r")
		f.add(1, "b", "b", "x x/r y")
		f.add(1, "c", "c", "y")
		to := []string{"a", "b", "c", ""}[target]
		f.reply = func(m *member, msg neffos.Message) error {
			if how == 2 && m.id == "a" && to == "" {
				return nil // only b answers
			}
			switch how {
			case 1:
				return fmt.Errorf("error of %s;", m.id)
			case 3:
				return neffos.Reply(nil)
			case 4, 5, 6, 7:
				return known[how-4]
			}
			return neffos.Reply([]byte("reply;of " + m.id))
		}
		for i := 0; i < 2; i++ {
			ctx, cancel := lib.WithTimeout(5 * time.Second)
			r, err := f.w[from].srv.Ask(ctx, neffos.Message{Namespace: "x", Room: room, Event: "q", Body: []byte("b"), To: to})
			cancel()
			lib.Settle()
			what := fmt.Sprintf("Ask of %q by server %d", to, from)
			if to == "c" { // not in the namespace
				lib.Check(err == context.DeadlineExceeded, "%s: %q, %v", what, r.Body, err)
				lib.Check(len(f.got) == 0, "%s: received %v", what, f.got)
				mc.Cases(1)
				continue
			}
			ids := to
			if to == "" {
				ids = "ab"
				if how == 2 {
					ids = "b"
				}
			}
			ok := false
			for _, id := range strings.Split(ids, "") {
				switch how {
				case 1:
					ok = ok || errText(err) == "error of "+id+";"
				case 3:
					ok = ok || err == nil && len(r.Body) == 0
				case 4, 5, 6, 7:
					ok = ok || errText(err) == known[how-4].Error()
				default:
					ok = ok || err == nil && string(r.Body) == "reply;of "+id
				}
			}
			lib.Check(ok, "%s returned %q, %v", what, r.Body, err)
			lib.Check(err != nil || r.Namespace == "x" && r.Room == room && r.Event == "q", "%s: the reply is %+v", what, r)
			for _, m := range f.m {
				want := 0
				if m.in["x"] && (to == "" || to == m.id) {
					want = 1
				}
				lib.Check(len(f.got[m.name]) == want, "%s: %s was asked %d times", what, m.name, len(f.got[m.name]))
			}
			f.got = map[string][]string{}
			mc.Cases(1)
		}
	}
	race := func(shape string) func() {
		return func() {
			f := (*fleet)(nil)
			lib.Setup(func() {
				f = newFleet()
				f.add(0, "a", "a", "x x/r")
				f.add(1, "b", "b", "x x/r")
				if shape == "asks" || shape == "ask-cast" {
					f.reply = func(m *member, msg neffos.Message) error {
						if msg.Event != "q" {
							return nil
						}
						return neffos.Reply([]byte(m.id + " " + string(msg.Body)))
					}
				}
				lib.Settle()
			})
			cast := func(srv int, ex fmt.Stringer, tag string) func() {
				return func() {
					f.w[srv].srv.Broadcast(ex, msg("x", "", "e", tag+"1"))
					f.w[srv].srv.Broadcast(ex, msg("x", "r", "e", tag+"2"), msg("x", "", "e", tag+"3"))
				}
			}
			ask := func(srv int, to, tag string) func() {
				return func() {
					m := msg("x", "", "q", tag)
					m.To = to
					r, err := f.w[srv].srv.Ask(bg, m)
					lib.Must("ask", err)
					lib.Check(string(r.Body) == to+" "+tag, "Ask %s of %s returned %q", tag, to, r.Body)
				}
			}
			casts := map[string][]string{"a": nil, "b": nil}
			switch shape {
			case "casts":
				vsched.Par(cast(0, nil, "s"), cast(1, nil, "t"))
				casts["a"], casts["b"] = []string{"s", "t"}, []string{"s", "t"}
			case "casts-except":
				vsched.Par(cast(0, f.m[0].s, "s"), cast(1, neffos.Exclude("b"), "t"))
				casts["a"], casts["b"] = []string{"t"}, []string{"s"}
			case "asks":
				vsched.Par(ask(0, "b", "1"), ask(1, "a", "2"))
			case "ask-cast":
				vsched.Par(ask(0, "b", "1"), cast(1, nil, "t"))
				casts["a"], casts["b"] = []string{"t"}, []string{"t"}
			case "cast-leave", "cast-close", "cast-disconnect":
				vsched.Par(cast(0, nil, "s"), func() {
					switch shape {
					case "cast-leave":
						lib.Must("leave", f.m[1].c.Namespace("x").LeaveAll(bg))
					case "cast-close":
						f.m[1].c.Close()
					case "cast-disconnect":
						lib.Must("disconnect", f.m[1].c.DisconnectAll(bg))
					}
				})
				casts["a"] = []string{"s"}
				delete(casts, "b")
			}
			lib.Settle()
			for id, tags := range casts {
				per := map[string]string{}
				for _, g := range f.got[id] {
					_, body, _ := strings.Cut(g, "=")
					if strings.Contains(g, "/e=") {
						per[body[:1]] += body[1:2]
					}
				}
				want := map[string]string{}
				for _, t := range tags {
					want[t] = "123"
				}
				lib.Check(fmt.Sprint(per) == fmt.Sprint(want), "%s received %v, per sender %v, expected %v", id, f.got[id], per, want)
			}
			// nobody ever gets a message twice, or out of order
			for id, l := range f.got {
				last := map[string]string{}
				for _, g := range l {
					_, body, _ := strings.Cut(g, "=")
					if !strings.Contains(g, "/e=") {
						continue
					}
					lib.Check(last[body[:1]] < body[1:2], "%s received %v", id, l)
					last[body[:1]] = body[1:2]
				}
			}
			vsched.SetOutcome(fmt.Sprint(len(f.got["b"])))
		}
	}
	reg := func(name string, body func()) *mc.Check {
		return mc.Register("C20", &mc.Scenario{Name: name, Body: body, Bound: 0, Deep: 0, MaxSteps: 1 << 22})
	}
	reg("addressing", addressing)
	reg("ordered", ordered)
	reg("contents", contents)
	reg("relayed", relayed)
	c := reg("asks", asks)
	for _, s := range []string{"casts", "casts-except", "asks", "ask-cast", "cast-leave", "cast-close", "cast-disconnect"} {
		mc.Register("C20", &mc.Scenario{Name: "race-" + s, Body: race(s), Policies: polSome, Bound: 2, Deep: 3})
	}
	c.Quick = 70 * time.Second
	c.Rule = "two servers on an in-memory exchange (serializes, queues per connection, delivers as the redis and nats exchanges do): every combination of memberships of 3 connections (equal IDs included) x every way to exclude x 40 addressed messages x broadcasting server, batches included; odd IDs, bodies and events; relayed messages; Server.Ask of every target from either server; races of broadcasts, asks and departures in all schedules up to the bound."
}

// relayCheck compares what everybody got with the message passed on.
func (f *fleet) relayCheck(sender *member, all bool, body string, asked bool) {
	for _, m := range f.m {
		want := []string{}
		if m != sender || all {
			want = append(want, "x//say="+body+"false")
		}
		lib.Check(fmt.Sprint(f.got[m.name]) == fmt.Sprint(want), "relay of %q (asked %v) by %s: %s received %v, expected %v", body, asked, sender.name, m.name, f.got[m.name], want)
	}
	f.got = map[string][]string{}
	mc.Cases(1)
}
