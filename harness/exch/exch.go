// Package exch decides the properties of a real stack exchange (redis, nats): servers and clients around an in-memory
// broker that speaks the real protocol to the real client library.
package exch

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

var (
	polAll = []vsched.Policy{vsched.PolRun, vsched.PolLIFO, vsched.PolRotate, vsched.PolNewest, vsched.PolOldest}
	polTwo = []vsched.Policy{vsched.PolRun, vsched.PolRotate}
	bg     = context.Background()
)

// Broker is the message broker in the middle.
type Broker interface {
	Exchange() neffos.StackExchange // of a new server
	Subs() int                      // subscriptions held
	Conns() int                     // open connections
	Drop()                          // breaks every connection
	Down(bool)                      // refuses connections
	Hold(bool)                      // keeps the messages for the subscribers, then delivers them at once
	Slow(bool)                      // keeps subscriptions waiting
}

// Settle lets everything finish that needs no more than a moment.
func Settle() { vsched.Elapse(int64(5 * time.Millisecond)) }

type member struct {
	id  string
	srv int
	in  map[string]bool
	c   *neffos.Conn
	s   *neffos.Conn
	acc *lib.Accepted
}

type fleet struct {
	b     Broker
	hosts []*lib.Host
	m     map[string]*member
	got   map[string][]string
	reply func(id string, m neffos.Message) error
	nss   []string
}

func newFleet(b Broker, nss ...string) *fleet {
	f := &fleet{b: b, m: map[string]*member{}, got: map[string][]string{}, nss: nss}
	for i := 0; i < 2; i++ {
		h := neffos.Namespaces{}
		for _, n := range nss {
			h[n] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error { return nil }}
		}
		host := lib.NewHost(h)
		lib.Must("UseStackExchange", host.Srv.UseStackExchange(b.Exchange()))
		f.hosts = append(f.hosts, host)
	}
	Settle()
	return f
}

func render(m neffos.Message) string {
	return fmt.Sprintf("%s/%s/%s=%s[%v]", m.Namespace, m.Room, m.Event, m.Body, m.SetBinary)
}

func (f *fleet) dial(id string, srv int) *member { return f.dialAs(id, id, srv) }

// dialAs calls the connection with that ID by a name.
func (f *fleet) dialAs(id, connID string, srv int) *member {
	m := &member{id: connID, srv: srv, in: map[string]bool{}}
	h := neffos.Namespaces{}
	for _, n := range f.nss {
		h[n] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, msg neffos.Message) error {
			if neffos.IsSystemEvent(msg.Event) {
				return nil
			}
			f.got[id] = append(f.got[id], render(msg))
			if f.reply != nil {
				return f.reply(id, msg)
			}
			return nil
		}}
	}
	host := f.hosts[srv]
	n := len(host.Conns)
	cl := host.Dial(connID, h)
	m.c = lib.ConnOf(cl)
	m.acc = host.Conns[n]
	vsched.Block("upgrade", func() bool { return m.acc.Done })
	m.s = m.acc.Conn
	f.m[id] = m
	return m
}

// sep separates a namespace and a room in the keys of a member.
const sep = " in "

func (f *fleet) connect(id, ns string) {
	m := f.m[id]
	_, err := m.c.Connect(bg, ns)
	lib.Must("connect of "+id+" to "+ns, err)
	m.in[ns] = true
}

func (f *fleet) join(id, ns, room string) {
	m := f.m[id]
	_, err := m.c.Namespace(ns).JoinRoom(bg, room)
	lib.Must("join", err)
	m.in[ns+sep+room] = true
}

func (f *fleet) leave(id, ns, room string) {
	m := f.m[id]
	lib.Must("leave", m.c.Namespace(ns).Room(room).Leave(bg))
	delete(m.in, ns+sep+room)
}

func (f *fleet) disconnect(id, ns string) {
	m := f.m[id]
	lib.Must("disconnect", m.c.Namespace(ns).Disconnect(bg))
	delete(m.in, ns)
	for k := range m.in {
		if strings.HasPrefix(k, ns+sep) {
			delete(m.in, k)
		}
	}
}

func (f *fleet) close(id string) {
	f.m[id].c.Close()
	delete(f.m, id)
}

// expect compares what everybody received since the last time.
func (f *fleet) expect(what string, msgs ...neffos.Message) {
	Settle()
	var ids []string
	for id := range f.m {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		m := f.m[id]
		var want []string
		for _, x := range msgs {
			p := x.Namespace
			if x.Room != "" {
				p += sep + x.Room
			}
			if m.in[p] && (x.To == "" || x.To == m.id) {
				want = append(want, render(x))
			}
		}
		lib.Check(fmt.Sprint(f.got[id]) == fmt.Sprint(want), "%s: connection %q of server %d received %v, expected %v", what, id, m.srv, f.got[id], want)
		delete(f.got, id)
	}
	for id, l := range f.got {
		vsched.Fail("%s: closed connection %q received %v", what, id, l)
	}
	mc.Cases(1)
}

func msg(ns, room, ev, body string) neffos.Message {
	return neffos.Message{Namespace: ns, Room: room, Event: ev, Body: []byte(body)}
}

func to(m neffos.Message, id string) neffos.Message {
	m.To = id
	return m
}

// Register adds the scenarios of an exchange; timers says whether its client library sends with a delay (which may be short).
func Register(prop string, newBroker func() Broker, timers bool, bound int) *mc.Check {
	type op struct {
		name string
		ok   func(f *fleet) bool
		do   func(f *fleet, tag string) []neffos.Message
	}
	in := func(id, p string) func(f *fleet) bool {
		return func(f *fleet) bool { return f.m[id] != nil && f.m[id].in[p] }
	}
	notIn := func(id, p string) func(f *fleet) bool {
		return func(f *fleet) bool {
			ns, _, room := strings.Cut(p, sep)
			return f.m[id] != nil && !f.m[id].in[p] && (!room || f.m[id].in[ns])
		}
	}
	home := map[string]int{"a": 0, "b": 1, "c": 1}
	var ops []op
	for _, id := range []string{"a", "b"} {
		for _, ns := range []string{"x", "y"} {
			if id == "a" && ns == "y" {
				continue
			}
			ops = append(ops,
				op{"connect " + id + " " + ns, notIn(id, ns), func(f *fleet, _ string) []neffos.Message { f.connect(id, ns); return nil }},
				op{"disconnect " + id + " " + ns, in(id, ns), func(f *fleet, _ string) []neffos.Message { f.disconnect(id, ns); return nil }})
		}
		ops = append(ops,
			op{"join " + id, notIn(id, "x"+sep+"r"), func(f *fleet, _ string) []neffos.Message { f.join(id, "x", "r"); return nil }},
			op{"leave " + id, in(id, "x"+sep+"r"), func(f *fleet, _ string) []neffos.Message { f.leave(id, "x", "r"); return nil }},
			op{"close " + id, func(f *fleet) bool { return f.m[id] != nil }, func(f *fleet, _ string) []neffos.Message { f.close(id); return nil }},
			op{"dial " + id, func(f *fleet) bool { return f.m[id] == nil }, func(f *fleet, _ string) []neffos.Message {
				f.dial(id, home[id])
				f.connect(id, "x")
				return nil
			}})
	}
	// every kind of address, after every step
	casts := func(f *fleet, what string, n int) {
		for srv := 0; srv < 2; srv++ {
			for i, m := range []neffos.Message{msg("x", "", "e", ""), msg("x", "r", "e", ""), msg("y", "", "e", ""), to(msg("x", "", "e", ""), "b"), to(msg("x", "r", "e", ""), "a")} {
				m.Body = []byte(fmt.Sprint(n, "-", srv, "-", i))
				f.hosts[srv].Srv.Broadcast(nil, m)
				f.expect(fmt.Sprintf("%s; broadcast by server %d of %s to %q", what, srv, render(m), m.To), m)
			}
		}
	}
	histories := func() {
		vsched.Explore(false)
		start := vsched.Choose(3)
		f := newFleet(newBroker(), "x", "y")
		subs0, conns0 := f.b.Subs(), f.b.Conns()
		what := fmt.Sprint("start ", start)
		if start > 0 {
			f.dial("a", 0)
			f.dial("b", 1)
			f.connect("a", "x")
			if start == 2 {
				f.connect("b", "x")
				f.connect("b", "y")
				f.join("b", "x", "r")
			}
		}
		Settle()
		subsOf := map[string]int{} // the subscriptions held, by the set of memberships
		state := func() string {
			s := ""
			for _, id := range []string{"a", "b"} {
				if m := f.m[id]; m != nil {
					s += id
					for _, ns := range []string{"x", "y"} {
						if m.in[ns] {
							s += ns
						}
					}
				}
			}
			return s
		}
		note := func() {
			st, n := state(), f.b.Subs()
			if old, ok := subsOf[st]; ok {
				lib.Check(old == n, "%s: %d subscriptions are held at the broker, it was %d the last time the same namespaces were connected", what, n, old)
			}
			subsOf[st] = n
		}
		note()
		for i := 0; i < mc.Pick(3, 4); i++ {
			var can []op
			for _, o := range ops {
				if o.ok(f) {
					can = append(can, o)
				}
			}
			o := can[vsched.Choose(len(can))]
			what += ", " + o.name
			o.do(f, fmt.Sprint(i))
			Settle()
			note()
			casts(f, what, i)
		}
		for _, id := range []string{"a", "b"} {
			if f.m[id] != nil {
				f.close(id)
			}
		}
		vsched.Elapse(int64(time.Second))
		lib.Check(f.b.Subs() == subs0 && f.b.Conns() == conns0, "%s: after every connection is closed %d subscriptions and %d broker connections are left, there were %d and %d at first", what, f.b.Subs(), f.b.Conns(), subs0, conns0)
	}
	// namespaces, IDs and bodies of any content
	odd := []string{"x", "", "x*", "?", "[xy]", "*", ">", "x.>", "x.y", ".", "x y", "x\ty", "x\r\ny", "%", "\\x", "é", "neffos", "x.", "/x", "x/", "X", " x", "x ", "x;y"}
	names := func() {
		vsched.Explore(false)
		n1, n2 := vsched.Choose(len(odd)), vsched.Choose(len(odd))
		if n1 == n2 {
			return
		}
		f := newFleet(newBroker(), odd...)
		f.dial("a", 0)
		f.connect("a", odd[n1])
		f.dial("b", 1)
		f.connect("b", odd[n1])
		f.connect("b", odd[n2])
		f.dial("c", 1)
		f.connect("c", odd[n2])
		f.join("b", odd[n1], "r")
		f.join("c", odd[n2], "r")
		Settle()
		for round := 0; round < 2; round++ {
			for srv := 0; srv < 2; srv++ {
				for _, n := range []string{odd[n1], odd[n2]} {
					for _, room := range []string{"", "r"} {
						m := msg(n, room, "e", fmt.Sprint("to ", n))
						f.hosts[srv].Srv.Broadcast(nil, m)
						f.expect(fmt.Sprintf("namespaces %q (a, b) and %q (b, c): broadcast of server %d to %q, room %q", odd[n1], odd[n2], srv, n, room), m)
					}
				}
			}
			f.disconnect("b", odd[n1])
		}
	}
	ids := func() {
		vsched.Explore(false)
		n1, n2 := vsched.Choose(len(odd)), vsched.Choose(len(odd))
		i1, i2 := odd[n1], odd[n2]
		if n1 == n2 || i1 == "" || i2 == "" {
			return
		}
		f := newFleet(newBroker(), "x", "x y")
		f.dial(i1, 0)
		f.connect(i1, "x")
		f.connect(i1, "x y")
		f.dial(i2, 1)
		f.connect(i2, "x")
		f.connect(i2, "x y")
		Settle()
		for round := 0; round < 2; round++ {
			for srv := 0; srv < 2; srv++ {
				for _, ns := range []string{"x", "x y"} {
					for _, id := range []string{i1, i2, "nobody", ""} {
						m := to(msg(ns, "", "e", "to "+id), id)
						f.hosts[srv].Srv.Broadcast(nil, m)
						f.expect(fmt.Sprintf("connections %q and %q: message of server %d to %q in %q (round %d)", i1, i2, srv, id, ns, round), m)
					}
					for _, id := range []string{i1, i2, "nobody"} {
						var except fmt.Stringer = neffos.Exclude(id)
						for form := 0; form < 2; form++ {
							f.hosts[srv].Srv.Broadcast(except, msg(ns, "", "e", "not to "+id))
							Settle()
							for _, other := range []string{i1, i2} {
								n := 0
								if other != id && f.m[other].in[ns] {
									n = 1
								}
								lib.Check(len(f.got[other]) == n, "connections %q and %q: broadcast of server %d in %q except %q (round %d): %q received %v", i1, i2, srv, ns, id, round, other, f.got[other])
								delete(f.got, other)
							}
							if f.m[id] == nil || f.m[id].srv != srv {
								break
							}
							except = f.m[id].s // the connection itself
						}
					}
				}
			}
			f.disconnect(i1, "x")
		}
	}
	contents := func() {
		vsched.Explore(false)
		f := newFleet(newBroker(), "x")
		f.dial("a", 0)
		f.connect("a", "x")
		f.join("a", "x", "r")
		f.dial("b", 1)
		f.connect("b", "x")
		Settle()
		bodies := []string{"", "p", ";", "a;b", ";;;;;;;", "\x00\xff\x80", "\x00", "\r\n", "PING\r\n", "neffos(0x1)", strings.Repeat("ab;", 2000), strings.Repeat("0123456789", 20000)}
		for srv := 0; srv < 2; srv++ {
			for _, b := range bodies {
				for _, e := range []string{"e", "e;f", "é e"} {
					for _, bin := range []bool{false, true} {
						for _, room := range []string{"", "r"} {
							m := msg("x", room, e, b)
							m.SetBinary = bin
							f.hosts[srv].Srv.Broadcast(nil, m)
							f.expect(fmt.Sprintf("broadcast of server %d", srv), m)
						}
					}
				}
			}
			// a batch keeps its order
			var batch []neffos.Message
			for i, b := range bodies {
				m := msg("x", []string{"", "r"}[i%2], "e", b)
				m.SetBinary = i%3 == 0
				batch = append(batch, m)
			}
			f.hosts[srv].Srv.Broadcast(nil, batch...)
			f.expect("batch", batch...)
			for _, ex := range []string{"a", "b"} {
				f.hosts[srv].Srv.Broadcast(f.m[ex].s, msg("x", "", "e", "ex"))
				Settle()
				for _, id := range []string{"a", "b"} {
					n := 1
					if id == ex {
						n = 0
					}
					lib.Check(len(f.got[id]) == n, "broadcast except %s: %s received %v", ex, id, f.got[id])
					delete(f.got, id)
				}
			}
		}
	}
	// several connections with the same ID
	twins := func() {
		f := newFleet(newBroker(), "x", "y")
		vsched.Explore(false)
		subs0, conns0 := f.b.Subs(), f.b.Conns()
		names := []string{"t0", "t1", "t2", "u"}
		for i, n := range names {
			id := "t"
			if n == "u" {
				id = "u"
			}
			f.dialAs(n, id, i/2)
			f.connect(n, "x")
		}
		f.connect("t1", "y")
		Settle()
		what := ""
		casts := func() {
			for srv := 0; srv < 2; srv++ {
				for _, m := range []neffos.Message{msg("x", "", "e", "1"), to(msg("x", "", "e", "2"), "t"), to(msg("x", "", "e", "3"), "u"), msg("y", "", "e", "4"), to(msg("y", "", "e", "5"), "t")} {
					f.hosts[srv].Srv.Broadcast(nil, m)
					f.expect(fmt.Sprintf("connections t0, t1 (server 0), t2 (server 1) with ID t%s: server %d, %s to %q", what, srv, render(m), m.To), m)
				}
			}
			for ex, m := range f.m {
				f.hosts[m.srv].Srv.Broadcast(m.s, msg("x", "", "e", "6"))
				Settle()
				for n, m := range f.m {
					want := 0
					if n != ex && m.in["x"] {
						want = 1
					}
					lib.Check(len(f.got[n]) == want, "connections t0, t1 (server 0), t2 (server 1) with ID t%s: a broadcast except %s: %s received %v", what, ex, n, f.got[n])
				}
				f.got = map[string][]string{}
			}
		}
		casts()
		for i := 0; i < 2; i++ {
			n := names[vsched.Choose(3)]
			m := f.m[n]
			switch k := vsched.Choose(3); {
			case m == nil:
				what += ", dial " + n
				f.dialAs(n, "t", k%2)
				f.connect(n, "x")
			case k == 0:
				what += ", close " + n
				f.close(n)
			case m.in["x"]:
				what += ", disconnect " + n
				f.disconnect(n, "x")
			default:
				what += ", connect " + n
				f.connect(n, "x")
			}
			Settle()
			casts()
		}
		for _, n := range names {
			if f.m[n] != nil {
				f.close(n)
			}
		}
		vsched.Elapse(int64(time.Second))
		lib.Check(f.b.Subs() == subs0 && f.b.Conns() == conns0, "connections with the same ID%s: at the end %d subscriptions and %d broker connections are left, there were %d and %d", what, f.b.Subs(), f.b.Conns(), subs0, conns0)
	}
	asks := func() {
		vsched.Explore(false)
		from, target, how := vsched.Choose(2), vsched.Choose(4), vsched.Choose(10)
		known := []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, context.DeadlineExceeded, context.Canceled}
		f := newFleet(newBroker(), "x", "y")
		f.dial("a", 0)
		f.connect("a", "x")
		f.dial("b", 1)
		f.connect("b", "x")
		f.dial("c", 1)
		f.connect("c", "y")
		vsched.Elapse(int64(time.Second))
		subs0, conns0, live0 := f.b.Subs(), f.b.Conns(), len(vsched.Live())
		f.reply = func(id string, m neffos.Message) error {
			switch how {
			case 1:
				return fmt.Errorf("error of %s;", id)
			case 2:
				return neffos.Reply(nil)
			case 3: // nobody answers
				return nil
			case 4:
				return neffos.Reply([]byte("\x00\xff;" + id + "\r\n"))
			}
			if how >= 5 {
				return known[how-5]
			}
			return neffos.Reply([]byte("reply;of " + id))
		}
		id := []string{"a", "b", "c", ""}[target]
		for i := 0; i < 3; i++ {
			ctx, cancel := lib.WithTimeout(5 * time.Second)
			t0 := vsched.NowNano()
			r, err := f.hosts[from].Srv.Ask(ctx, to(msg("x", "", "q", "b"), id))
			t1 := vsched.NowNano()
			cancel()
			what := fmt.Sprintf("Ask %d of %q by server %d (answer %d)", i, id, from, how)
			if id == "c" || how == 3 {
				lib.Check(err == context.DeadlineExceeded, "%s: %q, %v", what, r.Body, err)
			} else {
				ok := false
				who := id
				if id == "" {
					who = "ab"
				}
				for _, x := range strings.Split(who, "") {
					switch how {
					case 0:
						ok = ok || err == nil && string(r.Body) == "reply;of "+x
					case 1:
						ok = ok || err != nil && err.Error() == "error of "+x+";"
					case 2:
						ok = ok || err == nil && len(r.Body) == 0
					case 4:
						ok = ok || err == nil && string(r.Body) == "\x00\xff;"+x+"\r\n"
					default:
						if how >= 5 {
							ok = ok || err != nil && err.Error() == known[how-5].Error()
						}
					}
				}
				lib.Check(ok, "%s returned %q, %v", what, r.Body, err)
				lib.Check(t1-t0 < int64(4*time.Second), "%s: it was answered at once and returned when its context expired", what)
			}
			vsched.Elapse(int64(10 * time.Second))
			for x, m := range f.m {
				n := 0
				if m.in["x"] && (id == "" || id == x) {
					n = 1
				}
				lib.Check(len(f.got[x]) == n, "%s: %s was asked %d times", what, x, len(f.got[x]))
			}
			f.got = map[string][]string{}
			lib.Check(f.b.Subs() == subs0 && f.b.Conns() == conns0, "%s: left %d subscriptions and %d broker connections, there were %d and %d", what, f.b.Subs(), f.b.Conns(), subs0, conns0)
			lib.Check(len(vsched.Live()) <= live0, "%s: left %d goroutines behind: %v", what, len(vsched.Live())-live0, vsched.Live())
			mc.Cases(1)
		}
	}
	// the broker's connections break
	faults := func() {
		vsched.Explore(false)
		when := vsched.Choose(4)
		f := newFleet(newBroker(), "x", "y")
		subs0 := f.b.Subs()
		f.dial("a", 0)
		f.connect("a", "x")
		f.dial("b", 1)
		f.connect("b", "x")
		f.join("b", "x", "r")
		Settle()
		long := int64(30 * time.Second)
		switch when {
		case 0: // a short break
			f.b.Drop()
			vsched.Elapse(long)
		case 1: // an outage
			f.b.Down(true)
			f.b.Drop()
			vsched.Elapse(long)
			f.b.Down(false)
			vsched.Elapse(long)
		case 2, 3: // a connection ends during an outage
			f.b.Down(true)
			f.b.Drop()
			vsched.Elapse(int64(3 * time.Second))
			f.close("a")
			vsched.Elapse(int64(3 * time.Second))
			f.b.Down(false)
			vsched.Elapse(long)
		}
		what := fmt.Sprint("after fault ", when)
		casts(f, what, 1)
		if when < 2 {
			f.disconnect("b", "x")
			f.connect("b", "y")
			casts(f, what, 2)
			f.close("a")
		}
		if when == 3 {
			f.dial("a", 0)
			f.connect("a", "x")
			casts(f, what, 3)
			f.close("a")
		}
		f.close("b")
		vsched.Elapse(long)
		lib.Check(f.b.Subs() == subs0, "%s: %d subscriptions are left, there were %d at first", what, f.b.Subs(), subs0)
	}
	// memberships change while the broker cannot be reached
	outages := func() {
		vsched.Explore(false)
		start := vsched.Choose(2)
		f := newFleet(newBroker(), "x", "y")
		subs0, conns0 := f.b.Subs(), f.b.Conns()
		f.dial("a", 0)
		f.connect("a", "x")
		f.dial("b", 1)
		if start == 1 {
			f.connect("b", "x")
			f.connect("b", "y")
			f.join("b", "x", "r")
		}
		Settle()
		what := fmt.Sprint("start ", start)
		f.b.Down(true)
		f.b.Drop()
		n, k := mc.Pick(3, 4), vsched.Choose(2)
		done := false
		vsched.GoNamed("ops", func() { // an operation may have to wait for the broker
			for i := 0; i < n; i++ {
				if i > 0 || k == 0 {
					vsched.Sleep(int64(100 * time.Millisecond)) // the servers have noticed
				}
				var can []op
				for _, o := range ops {
					if o.ok(f) && !strings.HasPrefix(o.name, "dial") {
						can = append(can, o)
					}
				}
				if len(can) == 0 {
					break
				}
				o := can[vsched.Choose(len(can))]
				what += ", " + o.name
				o.do(f, "")
			}
			done = true
		})
		vsched.Elapse(int64(time.Minute))
		f.b.Down(false)
		vsched.Elapse(int64(time.Minute))
		lib.Check(done, "%s: the last operation does not end", what)
		casts(f, what, 1)
		for _, id := range []string{"a", "b"} {
			if f.m[id] == nil {
				f.dial(id, home[id])
			}
			if !f.m[id].in["x"] {
				f.connect(id, "x")
			}
		}
		Settle()
		casts(f, what, 2)
		f.close("a")
		f.close("b")
		vsched.Elapse(int64(time.Minute))
		lib.Check(f.b.Subs() == subs0 && f.b.Conns() == conns0, "%s: at the end %d subscriptions and %d broker connections are left, there were %d and %d at first", what, f.b.Subs(), f.b.Conns(), subs0, conns0)
	}
	// the broker refuses a connection's subscriptions
	refused := func() {
		vsched.Explore(false)
		f := newFleet(newBroker(), "x", "y")
		d, ok := f.b.(interface{ Deny(bool) })
		if !ok {
			return
		}
		subs0, conns0, live0 := f.b.Subs(), f.b.Conns(), len(vsched.Live())
		d.Deny(true)
		for i := 0; i < 2; i++ {
			cl, err := neffos.Dial(nil, f.hosts[0].Dialer("a"), "ws://mem/", neffos.Namespaces{"x": neffos.Events{}})
			if err == nil { // the handshake may end before the refusal
				cl.Close()
			}
			vsched.Elapse(int64(time.Minute))
			lib.Check(f.b.Subs() == subs0 && f.b.Conns() == conns0 && len(vsched.Live()) <= live0, "after a refused connection %d subscriptions and %d broker connections are left, there were %d and %d; goroutines: %v", f.b.Subs(), f.b.Conns(), subs0, conns0, vsched.Live())
		}
		d.Deny(false)
		f.dial("a", 0)
		f.connect("a", "x")
		f.dial("b", 1)
		f.connect("b", "x")
		f.connect("b", "y")
		casts(f, "after the refusal", 1)
	}
	// plain websocket clients: no namespaces, every message is a native one
	natives := func() {
		vsched.Explore(false)
		b := newBroker()
		got := map[string][]string{}
		handler := func(id string) neffos.Namespaces {
			return neffos.Namespaces{"": neffos.Events{neffos.OnNativeMessage: func(c *neffos.NSConn, m neffos.Message) error {
				got[id] = append(got[id], fmt.Sprintf("%q[%v]", m.Body, m.SetBinary))
				return nil
			}}}
		}
		var hosts []*lib.Host
		for i := 0; i < 2; i++ {
			h := lib.NewHost(handler("server"))
			lib.Must("UseStackExchange", h.Srv.UseStackExchange(b.Exchange()))
			hosts = append(hosts, h)
		}
		Settle()
		subs0, conns0 := b.Subs(), b.Conns()
		cl := map[string]*neffos.Client{}
		for i, id := range []string{"a", "b", "c"} {
			cl[id] = hosts[i%2].Dial(id, handler(id))
		}
		Settle()
		for round := 0; round < 2; round++ {
			for srv := 0; srv < 2; srv++ {
				for _, body := range []string{"p", ";", "a;b;c;d;e;f;g", "\x00", "\x00\x01", "\x00\x02\x00", "\x00\xff\x80", "\r\n", strings.Repeat("x", 5000)} {
					for _, bin := range []bool{false, true} {
						for _, to := range []string{"", "a", "b", "nobody"} {
							for _, ex := range []string{"", "a", "b"} {
								m := neffos.Message{Body: []byte(body), IsNative: true, SetBinary: bin, To: to}
								var except fmt.Stringer
								if ex != "" && cl[ex] != nil {
									except = hosts[map[string]int{"a": 0, "b": 1}[ex]].SConn(ex)
								}
								hosts[srv].Srv.Broadcast(except, m)
								Settle()
								for id := range cl {
									want := 0
									if (to == "" || to == id) && ex != id {
										want = 1
									}
									what := fmt.Sprintf("native %.20q[%v] of server %d to %q except %q", body, bin, srv, to, ex)
									lib.Check(len(got[id]) == want, "%s: %s received %.100q", what, id, got[id])
									lib.Check(want == 0 || got[id][0] == fmt.Sprintf("%q[%v]", body, bin), "%s: %s received %.100s", what, id, got[id])
								}
								got = map[string][]string{}
								mc.Cases(1)
							}
						}
					}
				}
			}
			cl["a"].Close()
			delete(cl, "a")
			Settle()
		}
		cl["b"].Close()
		cl["c"].Close()
		vsched.Elapse(int64(time.Second))
		lib.Check(b.Subs() == subs0 && b.Conns() == conns0, "%d subscriptions and %d broker connections are left, there were %d and %d", b.Subs(), b.Conns(), subs0, conns0)
	}
	race := func(shape string) func() {
		return func() {
			var f *fleet
			var subs0, conns0, live0 int
			lib.Setup(func() {
				f = newFleet(newBroker(), "x", "y")
				Settle()
				live0 = len(vsched.Live())
				subs0, conns0 = f.b.Subs(), f.b.Conns()
				f.dial("a", 0)
				f.connect("a", "x")
				f.dial("b", 1)
				if shape != "cast-connect" {
					f.connect("b", "x")
				}
				f.reply = func(id string, m neffos.Message) error {
					if m.Event != "q" {
						return nil
					}
					return neffos.Reply([]byte(id + string(m.Body)))
				}
				Settle()
			})
			cast := func() {
				for i := 1; i <= 2; i++ {
					f.hosts[0].Srv.Broadcast(nil, msg("x", "", "e", fmt.Sprint(i)))
				}
			}
			ask := func(srv int, id, tag string, d time.Duration) func() {
				return func() {
					ctx, cancel := lib.WithTimeout(d)
					defer cancel()
					r, err := f.hosts[srv].Srv.Ask(ctx, to(msg("x", "", "q", tag), id))
					if err != nil {
						lib.Check(d < time.Second && err == context.DeadlineExceeded, "Ask of %s: %v", id, err)
						return
					}
					ok := string(r.Body) == id+tag
					if id == "" {
						ok = string(r.Body) == "a"+tag || string(r.Body) == "b"+tag || shape == "ask-burst" && string(r.Body) == "c"+tag
					}
					lib.Check(ok, "Ask %s of %q returned %q", tag, id, r.Body)
				}
			}
			must := map[string]int{"a": 2, "b": 2}
			switch shape {
			case "cast-connect":
				vsched.Par(cast, func() { f.connect("b", "x") })
				must["b"] = -1
			case "cast-disconnect":
				vsched.Par(cast, func() { f.disconnect("b", "x") })
				must["b"] = -1
			case "cast-close":
				vsched.Par(cast, func() { f.close("b") })
				must["b"] = -1
			case "cast-reconnect":
				vsched.Par(cast, func() { f.disconnect("b", "x"); f.connect("b", "x") })
				must["b"] = -1
			case "cast":
				cast()
			case "cast-cast":
				vsched.Par(cast, func() {
					for i := 1; i <= 2; i++ {
						f.hosts[0].Srv.Broadcast(nil, msg("y", "", "e", fmt.Sprint(i)))
					}
				})
			case "burst": // everything published so far arrives at once
				f.b.Hold(true)
				vsched.Explore(false)
				cast()
				Settle()
				vsched.Explore(true)
				f.b.Hold(false)
				Settle()
			case "burst-two":
				f.b.Hold(true)
				vsched.Explore(false)
				cast()
				f.hosts[0].Srv.Broadcast(nil, to(msg("x", "", "e", "1"), "b"))
				f.hosts[0].Srv.Broadcast(nil, to(msg("x", "", "e", "2"), "b"))
				Settle()
				vsched.Explore(true)
				f.b.Hold(false)
				Settle()
				must["b"] = 4
			case "slow-dial": // the broker takes its time to subscribe
				f.b.Slow(true)
				vsched.GoNamed("speed up", func() { vsched.Sleep(int64(time.Millisecond)); f.b.Slow(false) })
				f.dial("c", 1)
				f.connect("c", "x")
				f.hosts[0].Srv.Broadcast(nil, to(msg("x", "", "e", "1"), "c"))
				f.hosts[0].Srv.Broadcast(nil, to(msg("x", "", "e", "2"), "c"))
				must = map[string]int{"a": 0, "b": 0, "c": 2}
			case "ask-burst": // three answers at once
				vsched.Explore(false)
				f.dial("c", 0)
				f.connect("c", "x")
				Settle()
				asked := 0
				answer := f.reply
				f.reply = func(id string, m neffos.Message) error {
					if asked++; asked == 3 {
						f.b.Hold(true)
					}
					vsched.Block("asked", func() bool { return asked == 3 })
					return answer(id, m)
				}
				vsched.GoNamed("release", func() {
					vsched.Sleep(int64(2 * time.Millisecond))
					vsched.Explore(true)
					f.b.Hold(false)
				})
				ask(0, "", "1", time.Hour)()
				lib.Check(asked == 3, "%d of 3 connections were asked", asked)
				f.reply = nil
				must = map[string]int{}
			case "slow-ask":
				f.b.Slow(true)
				vsched.GoNamed("speed up", func() { vsched.Sleep(int64(time.Millisecond)); f.b.Slow(false) })
				vsched.Par(ask(0, "b", "1", time.Hour), ask(1, "a", "2", time.Hour))
				must = map[string]int{}
			case "dial-to": // addressed by its ID as soon as it is there
				f.dial("c", 1)
				f.connect("c", "x")
				f.hosts[0].Srv.Broadcast(nil, to(msg("x", "", "e", "1"), "c"))
				f.hosts[1].Srv.Broadcast(nil, to(msg("x", "", "e", "2"), "c"))
				must = map[string]int{"a": 0, "b": 0, "c": 3}
			case "dial-ask":
				f.dial("c", 1)
				f.connect("c", "x")
				ask(0, "c", "1", time.Hour)()
				must = map[string]int{}
			case "ask":
				ask(0, "b", "1", time.Hour)()
				must = map[string]int{}
			case "ask-all":
				ask(0, "", "1", time.Hour)()
				must = map[string]int{}
			case "asks":
				vsched.Par(ask(0, "b", "1", time.Hour), ask(1, "a", "2", time.Hour))
				must = map[string]int{}
			case "ask-timeout":
				ask(0, "b", "1", 100*time.Microsecond)()
				must = map[string]int{}
			case "close-close":
				vsched.Par(func() { f.close("a") }, func() { f.close("b") })
				must = map[string]int{}
			}
			vsched.Explore(false)
			vsched.Elapse(int64(time.Second))
			out := ""
			for id, n := range must {
				var es []string
				for _, g := range f.got[id] {
					if strings.Contains(g, "/e=") {
						es = append(es, g)
					}
				}
				s := strings.NewReplacer("x//e=", "", "[false]", "").Replace(strings.Join(es, ""))
				switch {
				case n == 3: // the order of two servers' messages is not specified
					lib.Check(s == "12" || s == "21", "%s received %v", id, f.got[id])
				case n == 4: // two streams, each in order
					lib.Check(s == "1122" || s == "1212", "%s received %v", id, f.got[id])
				case n == 0:
					lib.Check(s == "", "%s received %v", id, f.got[id])
				case n > 0:
					lib.Check(s == "12", "%s received %v", id, f.got[id])
				default:
					lib.Check(s == "" || s == "1" || s == "2" || s == "12", "%s received %v", id, f.got[id])
				}
				if id == "b" {
					out += s
				}
			}
			vsched.SetOutcome(out)
			f.got = map[string][]string{}
			// afterwards everything is as if nothing had happened at once
			for srv := 0; srv < 2; srv++ {
				m := msg("x", "", "after", "")
				f.hosts[srv].Srv.Broadcast(nil, m)
				f.expect(shape+": afterwards", m)
			}
			for _, id := range []string{"a", "b", "c"} {
				if f.m[id] != nil {
					f.close(id)
				}
			}
			vsched.Elapse(int64(10 * time.Second))
			lib.Check(f.b.Subs() == subs0 && f.b.Conns() == conns0, "%s: %d subscriptions and %d broker connections are left, there were %d and %d at first", shape, f.b.Subs(), f.b.Conns(), subs0, conns0)
			live := vsched.Live()
			lib.Check(len(live) == live0, "%s: %d goroutines are left, there were %d at first: %s", shape, len(live), live0, strings.Join(live, "; "))
		}
	}
	reg := func(name string, body func()) *mc.Check {
		return mc.Register(prop, &mc.Scenario{Name: name, Body: body, Bound: 0, Deep: 0, MaxSteps: 1 << 24})
	}
	c := reg("contents", contents)
	reg("names", names)
	reg("ids", ids)
	reg("asks", asks)
	reg("faults", faults)
	reg("natives", natives)
	// hundreds of messages at once, requests at once, namespaces and connections: no limit shows
	manyAtOnce := func() {
		vsched.Explore(false)
		var nss []string
		for i := 0; i < 40; i++ {
			nss = append(nss, fmt.Sprint("n", i))
		}
		f := newFleet(newBroker(), nss...)
		for i := 0; i < 20; i++ {
			f.dial(fmt.Sprint("c", i), i%2)
		}
		for i := 0; i < 20; i++ {
			f.connect(fmt.Sprint("c", i), "n0")
		}
		for _, n := range nss[1:] {
			f.connect("c0", n)
			f.connect("c1", n)
		}
		Settle()
		for srv := 0; srv < 2; srv++ {
			var ms []neffos.Message
			for i := 0; i < 300; i++ {
				m := msg("n0", "", "e", fmt.Sprint(i))
				ms = append(ms, m)
				f.hosts[srv].Srv.Broadcast(nil, m)
			}
			f.expect("300 broadcasts", ms...)
			// (the order between namespaces is not specified)
			for _, n := range nss {
				m := msg(n, "", "e", n)
				f.hosts[srv].Srv.Broadcast(nil, m, m)
				f.expect("a broadcast to one of many namespaces", m, m)
			}
			ms = nil
			for i := 0; i < 300; i++ {
				ms = append(ms, msg("n0", "", "e", fmt.Sprint(i)))
			}
			f.hosts[srv].Srv.Broadcast(nil, ms...)
			f.expect("a broadcast of 300 messages", ms...)
		}
		f.reply = func(id string, m neffos.Message) error { return neffos.Reply([]byte(id + string(m.Body))) }
		done := 0
		for i := 0; i < 100; i++ {
			vsched.GoNamed("asker", func() {
				id := fmt.Sprint("c", i%20)
				r, err := f.hosts[i/20%2].Srv.Ask(bg, to(msg("n0", "", "ask", fmt.Sprint("q", i)), id))
				lib.Check(err == nil && string(r.Body) == fmt.Sprint(id, "q", i), "Ask of %s returned %q, %v", id, r.Body, err)
				done++
			})
		}
		Settle()
		vsched.Elapse(int64(time.Second))
		lib.Check(done == 100, "%d of 100 requests were answered", done)
	}
	mc.Register(prop, &mc.Scenario{Name: "many", Body: manyAtOnce, Policies: polAll, Bound: 0, Deep: 0, MaxSteps: 1 << 24})
	reg("outages", outages)
	reg("twins", twins)
	reg("refused", refused)
	reg("histories", histories)
	for _, s := range []string{"cast", "cast-cast", "burst", "burst-two", "ask-burst", "dial-to", "dial-ask"} {
		mc.Register(prop, &mc.Scenario{Name: "race-" + s, Body: race(s), Policies: polAll, TimerDev: timers, Bound: bound, Deep: bound + 1, MaxSteps: 1 << 16})
	}
	for _, s := range []string{"slow-dial", "slow-ask"} {
		mc.Register(prop, &mc.Scenario{Name: "race-" + s, Body: race(s), Policies: polAll, TimerDev: timers, Bound: bound - 1, Deep: bound, MaxSteps: 1 << 16})
	}
	for _, s := range []string{"ask", "ask-all", "ask-timeout", "asks", "cast-connect", "cast-disconnect", "cast-reconnect", "cast-close", "close-close"} {
		mc.Register(prop, &mc.Scenario{Name: "race-" + s, Body: race(s), Policies: polTwo, TimerDev: timers, Bound: bound, Deep: bound + 1, MaxSteps: 1 << 16})
	}
	c.Quick = 100 * time.Second
	c.Thorough = 20 * time.Minute
	c.Rule = "two servers with the real exchange and client library on one in-memory broker speaking the wire protocol: every history of 3 (thorough 4) membership operations of 2 connections from 3 starting states, followed each time by 10 broadcasts to every kind of address from either server; every pair of 18 odd namespaces, and of 17 odd IDs; odd bodies, events and kinds; Server.Ask of every target from either server with 5 kinds of answer; broken broker connections and outages; races of broadcasts, asks, connects and departures in all schedules up to the bound."
	c.Assumptions = append(c.Assumptions, "the in-memory broker implements the part of the protocol the exchange uses; publishing and subscribing take no longer than the virtual milliseconds the harness waits")
	return c
}
