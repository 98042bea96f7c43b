package main

import (
	"context"
	"fmt"
	"sort"
	"strings"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// The reference model: both sides of one connection hold the same namespaces and rooms, and every operation
// has a defined result, a defined effect on that state and a defined list of callbacks on each side.

type mop struct {
	kind string // connect disconnect join leave leaveall discall emit close
	side string // who calls
	ns   string
	room string
	veto string // "" | "local" | "remote": whose callback refuses
}

func (o mop) String() string {
	s := o.side + "." + o.kind + "(" + o.ns
	if o.room != "" {
		s += "/" + o.room
	}
	s += ")"
	if o.veto != "" {
		s += "-" + o.veto + "-refuses"
	}
	return s
}

type model struct {
	w      *world
	id     string
	decl   map[string]map[string]bool // side -> declared namespaces
	held   map[string]map[string]bool // ns -> rooms
	closed bool
	want   map[string][]string // expected callbacks per side
	refuse func(side, ev string) bool
	rooms  map[string]*neffos.Room // last handles, side/ns/room
	nsh    map[string]*neffos.NSConn
	nss    []string
	seq    int
	disc   int
}

func other(side string) string {
	if side == "C" {
		return "S"
	}
	return "C"
}

// newModel dials one client "a" whose sides declare the given namespaces.
func newModel(server, client []string) *model {
	m := &model{w: newWorld(), id: "a", decl: map[string]map[string]bool{"C": {}, "S": {}}, held: map[string]map[string]bool{},
		want: map[string][]string{}, rooms: map[string]*neffos.Room{}, nsh: map[string]*neffos.NSConn{}}
	all := map[string]bool{}
	for _, n := range server {
		m.decl["S"][n] = true
		all[n] = true
	}
	for _, n := range client {
		m.decl["C"][n] = true
		all[n] = true
	}
	for n := range all {
		m.nss = append(m.nss, n)
	}
	sort.Strings(m.nss)
	m.w.on = func(side, id, ev string, c *neffos.NSConn, msg neffos.Message) error {
		if m.refuse != nil && m.refuse(side, ev) {
			return veto("no:" + side)
		}
		return nil
	}
	m.w.host(m.w.nss(server...))
	m.w.dial("a", m.w.nss(client...))
	return m
}

func (m *model) expect(side, ev string) { m.want[side] = append(m.want[side], ev) }

func roomsOf(h map[string]bool) []string {
	var l []string
	for r := range h {
		l = append(l, r)
	}
	sort.Strings(l)
	return l
}

func (m *model) expectForcedLeave(side, ns, flags string) {
	for _, r := range roomsOf(m.held[ns]) {
		m.expect(side, "leave("+ns+"/"+r+")"+flags)
		m.expect(side, "left("+ns+"/"+r+")"+flags)
	}
}

// apply runs one operation on the model; it returns the expected error text ("" none, "*" any error).
func (m *model) apply(o mop) string {
	I, R := o.side, other(o.side)
	n := o.ns
	full := n + "/" + o.room
	if m.closed {
		switch o.kind {
		case "connect":
			if m.decl[I][n] {
				if I == "C" {
					m.expect(I, "connect("+n+")L")
				}
				return "*"
			}
			if I == "C" {
				return "bad namespace"
			}
			return "*"
		case "close":
			return ""
		}
		return "*"
	}
	switch o.kind {
	case "connect":
		if m.held[n] != nil {
			return ""
		}
		if !m.decl[I][n] {
			return "bad namespace"
		}
		m.expect(I, "connect("+n+")L")
		if o.veto == "local" {
			return "no:" + I
		}
		if !m.decl[R][n] {
			return "bad namespace"
		}
		m.expect(R, "connect("+n+")")
		if o.veto == "remote" {
			return "no:" + R
		}
		m.held[n] = map[string]bool{}
		m.expect(R, "connected("+n+")")
		m.expect(I, "connected("+n+")L")
	case "disconnect":
		if m.held[n] == nil {
			return "bad namespace"
		}
		return m.applyDisconnect(o, n)
	case "discall":
		for _, x := range m.nss {
			if m.held[x] != nil {
				if e := m.applyDisconnect(o, x); e != "" {
					return e
				}
			}
		}
	case "join":
		if m.held[n][o.room] {
			return ""
		}
		m.expect(R, "join("+full+")")
		if o.veto == "remote" {
			return "no:" + R
		}
		m.expect(R, "joined("+full+")")
		m.expect(I, "join("+full+")L")
		m.expect(I, "joined("+full+")L")
		m.held[n][o.room] = true
	case "leave":
		if m.held[n] == nil || !m.held[n][o.room] {
			return "bad room"
		}
		return m.applyLeave(o, n, o.room, "")
	case "leaveall":
		for _, r := range roomsOf(m.held[n]) {
			if e := m.applyLeave(o, n, r, "L"); e != "" {
				return e
			}
		}
	case "close":
		for _, s := range []string{"C", "S"} {
			for _, x := range m.nss {
				if m.held[x] != nil {
					m.expectForcedLeave(s, x, "LF")
					m.expect(s, "disconnect("+x+")LF")
				}
			}
		}
		m.held = map[string]map[string]bool{}
		m.closed = true
	}
	return ""
}

func (m *model) applyDisconnect(o mop, n string) string {
	I, R := o.side, other(o.side)
	if R == "S" {
		m.expect(R, "disconnect("+n+")")
		if o.veto == "remote" {
			return "no:" + R
		}
		m.expectForcedLeave(R, n, "F")
	} else {
		m.expectForcedLeave(R, n, "F")
		m.expect(R, "disconnect("+n+")")
	}
	m.expectForcedLeave(I, n, "LF")
	m.expect(I, "disconnect("+n+")L")
	delete(m.held, n)
	return ""
}

func (m *model) applyLeave(o mop, n, r, flags string) string {
	I, R := o.side, other(o.side)
	full := n + "/" + r
	m.expect(R, "leave("+full+")")
	if R == "S" && o.veto == "remote" {
		return "no:" + R
	}
	m.expect(R, "left("+full+")")
	m.expect(I, "leave("+full+")"+flags)
	m.expect(I, "left("+full+")"+flags)
	delete(m.held[n], r)
	return ""
}

// possible tells whether the operation can be called at all in this state.
func (m *model) possible(o mop) bool {
	switch o.kind {
	case "join", "leaveall":
		return m.nsh[o.side+"/"+o.ns] != nil && (m.held[o.ns] != nil || m.closed)
	case "leave":
		return m.rooms[o.side+"/"+o.ns+"/"+o.room] != nil && (m.held[o.ns] != nil || m.closed)
	case "disconnect":
		return m.nsh[o.side+"/"+o.ns] != nil
	case "discall":
		return !m.closed
	}
	return true
}

// perform runs the operation on the real thing.
func (m *model) perform(o mop) error {
	c := m.w.conn(o.side, m.id)
	ctx := context.Background()
	key := o.side + "/" + o.ns
	switch o.kind {
	case "connect":
		ns, err := c.Connect(ctx, o.ns)
		if err == nil {
			lib.Check(ns != nil, "%v returned neither a namespace nor an error", o)
			lib.Check(ns == c.Namespace(o.ns), "%v returned a namespace that is not the connected one", o)
		} else {
			lib.Check(ns == nil, "%v returned both a namespace and error %v", o, err)
		}
		return err
	case "disconnect":
		return m.nsh[key].Disconnect(ctx)
	case "discall":
		return c.DisconnectAll(ctx)
	case "join":
		r, err := m.nsh[key].JoinRoom(ctx, o.room)
		if err == nil {
			lib.Check(r != nil && r.Name == o.room && r == m.nsh[key].Room(o.room), "%v returned a room that is not the joined one", o)
		} else {
			lib.Check(r == nil, "%v returned both a room and error %v", o, err)
		}
		return err
	case "leave":
		return m.rooms[key+"/"+o.room].Leave(ctx)
	case "leaveall":
		return m.nsh[key].LeaveAll(ctx)
	case "close":
		c.Close()
	}
	return nil
}

// step performs one operation and compares everything observable with the model.
func (m *model) step(o mop) {
	for k := range m.w.logs {
		m.w.logs[k].L = nil
	}
	m.want = map[string][]string{}
	asked := map[string]bool{}
	switch o.kind {
	case "leaveall":
		for _, r := range roomsOf(m.held[o.ns]) {
			asked["leave("+o.ns+"/"+r+")"] = true
		}
	case "discall":
		for n := range m.held {
			asked["disconnect("+n+")"] = true
		}
	}
	want := m.apply(o)
	if o.veto != "" {
		evs := map[string]bool{}
		switch o.kind {
		case "connect":
			evs["connect("+o.ns+")"], evs["connect("+o.ns+")L"] = true, true
		case "disconnect":
			evs["disconnect("+o.ns+")"] = true
		case "discall":
			for _, n := range m.nss {
				evs["disconnect("+n+")"] = true
			}
		case "join":
			evs["join("+o.ns+"/"+o.room+")"] = true
		case "leave":
			evs["leave("+o.ns+"/"+o.room+")"] = true
		case "leaveall":
			for _, r := range []string{"r", "q"} {
				evs["leave("+o.ns+"/"+r+")"] = true
			}
		}
		who := o.side
		if o.veto == "remote" {
			who = other(o.side)
		}
		m.refuse = func(side, ev string) bool { return side == who && evs[ev] }
	} else {
		m.refuse = nil
	}
	err := m.perform(o)
	lib.Settle()
	m.refuse = nil
	if want == "*" {
		lib.Check(err != nil, "%v reported success on a closed connection", o)
	} else {
		lib.Check(sameErr(err, want), "%v returned %q, expected %q", o, errText(err), want)
		if want == "bad namespace" {
			lib.Check(err == neffos.ErrBadNamespace, "%v did not return the ErrBadNamespace value", o)
		}
		if want == "bad room" {
			lib.Check(err == neffos.ErrBadRoom, "%v did not return the ErrBadRoom value", o)
		}
	}
	m.compare(fmt.Sprint(o))
	for _, s := range []string{"C", "S"} {
		got := canon(m.w.log(s + ":a").L)
		exp := canon(m.want[s])
		if o.kind == "close" || o.kind == "discall" {
			got, exp = m.byNamespace(got), m.byNamespace(exp)
		}
		if o.veto == "remote" && len(got) == 1 && len(exp) == 1 && asked[got[0]] {
			got = exp // the first one refuses, whichever it is.
		}
		lib.Check(strings.Join(got, " ") == strings.Join(exp, " "), "%v fired on side %s: %v, expected %v", o, s, got, exp)
	}
	// remember handles
	for _, s := range []string{"C", "S"} {
		for _, n := range m.nss {
			if m.held[n] != nil {
				ns := m.w.conn(s, m.id).Namespace(n)
				m.nsh[s+"/"+n] = ns
				for r := range m.held[n] {
					m.rooms[s+"/"+n+"/"+r] = ns.Room(r)
				}
			}
		}
	}
}

// byNamespace orders the events by namespace (and keeps their order within each): namespaces end one by one, in an
// unspecified order.
func (m *model) byNamespace(l []string) []string {
	key := func(e string) string {
		e = e[strings.Index(e, "(")+1 : strings.LastIndex(e, ")")]
		best := ""
		for _, n := range m.nss {
			if (e == n || strings.HasPrefix(e, n+"/")) && len(n) > len(best) {
				best = n
			}
		}
		return best
	}
	out := append([]string(nil), l...)
	sort.SliceStable(out, func(i, j int) bool { return key(out[i]) < key(out[j]) })
	return canon(out)
}

func (m *model) compare(after string) {
	var exp []string
	for _, n := range m.nss {
		if m.held[n] != nil {
			exp = append(exp, n+"["+strings.Join(roomsOf(m.held[n]), ",")+"]")
		}
	}
	e := strings.Join(exp, " ")
	for _, s := range []string{"C", "S"} {
		got := stateOf(m.w.conn(s, m.id), m.nss...)
		lib.Check(got == e, "after %s side %s holds {%s}, expected {%s}", after, s, got, e)
	}
	a := m.w.h.Get(m.id)
	lib.Check(a.Client.MaxReaders <= 1 && a.Server.MaxReaders <= 1, "after %s a socket is read by two goroutines at once", after)
}

// probe emits in both directions to every namespace and room, member or not.
func (m *model) probe() {
	for _, s := range []string{"C", "S"} {
		c := m.w.conn(s, m.id)
		for _, n := range m.nss {
			for _, r := range []string{"", "r", "q"} {
				m.seq++
				body := fmt.Sprint("p", m.seq)
				rl := m.w.log(other(s) + ":a")
				rl.L = nil
				var ok bool
				if r == "" {
					if h := m.nsh[s+"/"+n]; h != nil {
						ok = h.Emit("m", []byte(body))
					} else {
						ok = c.Write(msg(n, r, "m", body))
					}
				} else if h := m.rooms[s+"/"+n+"/"+r]; h != nil {
					ok = h.Emit("m", []byte(body))
				} else {
					ok = c.Write(msg(n, r, "m", body))
				}
				lib.Settle()
				member := m.held[n] != nil && (r == "" || m.held[n][r])
				lib.Check(ok == member, "side %s emitting to %s/%s reported %v, membership is %v", s, n, r, ok, member)
				exp := ""
				if member {
					exp = evStr(msg(n, r, "m", body))
				}
				got := strings.Join(rl.L, " ")
				lib.Check(got == exp, "side %s emitted to %s/%s: the other side handled [%s], expected [%s]", s, n, r, got, exp)
			}
		}
	}
	for k := range m.w.logs {
		m.w.logs[k].L = nil
	}
}

// finish closes the connection and checks that everything is torn down.
func (m *model) finish() {
	if !m.closed {
		m.step(mop{kind: "close", side: "C"})
	}
	lib.Check(vsched.Closed(m.w.cli[m.id].NotifyClose), "NotifyClose was not notified after the close")
	lib.Check(m.w.sdisc.String() == "a", "OnDisconnect calls after one connection ended: [%s]", m.w.sdisc)
	lib.Check(m.w.srv.GetTotalConnections() == 0, "%d connections registered after the only one closed", m.w.srv.GetTotalConnections())
	a := m.w.h.Get(m.id)
	lib.Check(a.Client.Closed() && a.Server.Closed(), "a socket was left open after the close")
}

// sweep explores all sequences of depth operations over the menu.
func sweep(server, client []string, menu []mop, quick, deep int, opts ...string) func() {
	probe := strings.Contains(strings.Join(opts, " "), "probe")
	return func() {
		vsched.Explore(false)
		m := newModel(server, client)
		var done []string
		depth := mc.Pick(quick, deep)
		for i := 0; i < depth; i++ {
			var can []mop
			for _, o := range menu {
				if m.possible(o) {
					can = append(can, o)
				}
			}
			o := can[vsched.Choose(len(can))]
			done = append(done, o.String())
			m.step(o)
			if probe {
				m.probe()
			}
		}
		m.finish()
		vsched.SetOutcome(strings.Join(done, " "))
	}
}
