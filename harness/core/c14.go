package main

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// registry compares every reading of the server's registry with the connections that must be in it.
func (w *world) registry(want []string, in map[string]string) {
	lib.Settle()
	want = append([]string(nil), want...)
	sort.Strings(want)
	exp := strings.Join(want, " ")
	lib.Check(int(w.srv.GetTotalConnections()) == len(want), "GetTotalConnections is %d, open are %s", w.srv.GetTotalConnections(), exp)
	var got []string
	for id, c := range w.srv.GetConnections() {
		got = append(got, id)
		lib.Check(c.ID() == id && !c.IsClosed() && c.Server() == w.srv && !c.IsClient(), "GetConnections has a wrong entry for %s", id)
	}
	sort.Strings(got)
	lib.Check(strings.Join(got, " ") == exp, "GetConnections is %v, open are %s", got, exp)
	for _, async := range []bool{false, true} {
		var seen []string
		w.srv.Do(func(c *neffos.Conn) { seen = append(seen, c.ID()) }, async)
		if async {
			lib.Settle()
		}
		sort.Strings(seen)
		lib.Check(strings.Join(seen, " ") == exp, "Do(async %v) visited %v, open are %s", async, seen, exp)
	}
	for _, n := range []string{"x", "y"} {
		var got, exp []string
		for id, ns := range w.srv.GetConnectionsByNamespace(n) {
			got = append(got, id)
			lib.Check(ns.Conn.ID() == id && ns.Conn.Namespace(n) == ns, "GetConnectionsByNamespace has a wrong entry for %s", id)
		}
		for _, id := range want {
			if in[id] == n {
				exp = append(exp, id)
			}
		}
		sort.Strings(got)
		lib.Check(strings.Join(got, " ") == strings.Join(exp, " "), "GetConnectionsByNamespace(%s) is %v, connected are %v", n, got, exp)
	}
}

func init() {
	// all short histories of dials, refusals and ends, read after every step
	histories := func(depth int, always bool) func() {
		return func() {
			w := newWorld()
			h := w.nss("x", "y")
			vsched.Explore(false)
			w.host(h)
			w.srv.FireDisconnectAlways = always
			w.onsrv = func(c *neffos.Conn) error {
				if strings.HasPrefix(c.ID(), "r") {
					return errors.New("refused")
				}
				return nil
			}
			var open []string
			in := map[string]string{}
			want := map[string]int{}
			n := 0
			closed := false
			for step := 0; step < depth; step++ {
				ops := []string{"dial", "dial-x", "refused", "bad", "server"}
				for _, id := range open {
					ops = append(ops, "client "+id, "conn "+id, "cut "+id, "to-y "+id)
				}
				op, id, _ := strings.Cut(ops[vsched.Choose(len(ops))], " ")
				drop := func() {
					want[id]++
					delete(in, id)
					var l []string
					for _, o := range open {
						if o != id {
							l = append(l, o)
						}
					}
					open = l
				}
				n++
				switch op {
				case "dial", "dial-x", "refused":
					id := fmt.Sprintf("c%d", n)
					if op == "refused" {
						id = fmt.Sprintf("r%d", n)
					}
					c, err := neffos.Dial(nil, w.h.Dialer(id), "ws://mem/", h)
					if closed || op == "refused" {
						lib.Check(c == nil && err != nil, "Dial %s of a closed=%v server returned %v", op, closed, err)
						if !closed && always {
							want[id]++
						}
						break
					}
					lib.Must("Dial", err)
					w.cli[id] = c
					open = append(open, id)
					if op == "dial-x" {
						_, err := c.Connect(bg, "x")
						lib.Must("Connect", err)
						in[id] = "x"
					}
				case "bad": // the upgrade itself fails
					w.h.Fail = errors.New("no websocket")
					c, err := neffos.Dial(nil, w.h.Dialer("bad"), "ws://mem/", h)
					lib.Check(c == nil && err != nil, "Dial returned %v", err)
					w.h.Fail = nil
				case "to-y":
					if in[id] != "" {
						lib.Must("Disconnect", w.conn("S", id).Namespace(in[id]).Disconnect(bg))
					}
					_, err := w.conn("S", id).Connect(bg, "y")
					lib.Must("Connect", err)
					in[id] = "y"
				case "client":
					w.cli[id].Close()
					drop()
				case "conn":
					w.conn("S", id).Close()
					drop()
				case "cut":
					a := w.h.Get(id)
					a.Client.Shut()
					drop()
				case "server":
					w.srv.Close()
					for _, o := range append([]string(nil), open...) {
						id = o
						drop()
					}
					closed = true
				}
				w.registry(open, in)
				for id, k := range want {
					lib.Check(w.sdisc.Count(id) == k, "OnDisconnect fired %d times for %s: %v", w.sdisc.Count(id), id, w.sdisc)
				}
				lib.Check(len(w.sdisc.L) == len(want), "OnDisconnect fired for %v", w.sdisc)
			}
			mc.Cases(depth)
		}
	}
	// races: what runs in parallel with what
	type act struct {
		name string
		f    func(w *world, h neffos.ConnHandler)
	}
	dialID := func(id string, then string) func(w *world, h neffos.ConnHandler) {
		return func(w *world, h neffos.ConnHandler) {
			c, err := neffos.Dial(nil, w.h.Dialer(id), "ws://mem/", h)
			if err != nil {
				return
			}
			w.cli[id] = c
			switch then {
			case "close":
				c.Close()
			case "connect":
				c.Connect(bg, "x")
			}
		}
	}
	raw := func(id string, frames ...string) func(w *world, h neffos.ConnHandler) {
		return func(w *world, h neffos.ConnHandler) {
			e, _ := w.h.Raw(id)
			for _, f := range frames {
				e.WriteText([]byte(f), 0)
			}
			e.Shut()
		}
	}
	acts := map[string]func(w *world, h neffos.ConnHandler){
		"dial":         dialID("n", ""),
		"dial2":        dialID("o", "connect"),
		"dial-close":   dialID("n", "close"),
		"refused":      dialID("r", ""),
		"raw-gone":     raw("g"),
		"raw-ack-gone": raw("g", "M"),
		"client":       func(w *world, h neffos.ConnHandler) { w.cli["a"].Close() },
		"conn":         func(w *world, h neffos.ConnHandler) { w.conn("S", "a").Close() },
		"server":       func(w *world, h neffos.ConnHandler) { w.srv.Close() },
		"do":           func(w *world, h neffos.ConnHandler) { w.srv.Do(func(c *neffos.Conn) { c.ID() }, false) },
		"do-emit": func(w *world, h neffos.ConnHandler) {
			w.srv.Do(func(c *neffos.Conn) { c.Write(msg("x", "", "m", "do")) }, false)
		},
		"do-close": func(w *world, h neffos.ConnHandler) { w.srv.Do(func(c *neffos.Conn) { c.Close() }, false) },
		"do-async": func(w *world, h neffos.ConnHandler) { w.srv.Do(func(c *neffos.Conn) { c.ID() }, true) },
		"get": func(w *world, h neffos.ConnHandler) {
			w.srv.GetTotalConnections()
			for id, c := range w.srv.GetConnections() {
				lib.Check(c.ID() == id, "GetConnections has a wrong entry for %s", id)
			}
			for id, n := range w.srv.GetConnectionsByNamespace("x") {
				lib.Check(n.Conn.ID() == id, "GetConnectionsByNamespace has a wrong entry for %s", id)
			}
		},
		"broadcast": func(w *world, h neffos.ConnHandler) { w.srv.Broadcast(nil, msg("x", "", "m", "b")) },
	}
	// OnConnect variants
	race := func(sync bool, onConnect string, always bool, names ...string) func() {
		return func() {
			w := newWorld()
			h := w.nss("x", "y")
			accepted := map[string]bool{} // OnConnect returned nil and the connection was open then
			refused := map[string]bool{}
			unsure := map[string]bool{} // ended while OnConnect was running
			lib.Setup(func() {
				w.host(h)
				w.srv.SyncBroadcaster = sync
				w.srv.FireDisconnectAlways = always
				w.onsrv = func(c *neffos.Conn) error {
					id := c.ID()
					switch onConnect {
					case "close":
						if id != "a" {
							c.Close()
							unsure[id] = true
							return nil
						}
					case "do":
						w.srv.Do(func(c *neffos.Conn) {}, false)
					case "total":
						w.srv.GetTotalConnections()
						w.srv.GetConnections()
						w.srv.GetConnectionsByNamespace("x")
					case "broadcast":
						w.srv.Broadcast(nil, msg("x", "", "m", "hi"))
					}
					if id == "r" {
						refused[id] = true
						return errors.New("refused")
					}
					unsure[id] = c.IsClosed()
					accepted[id] = true
					return nil
				}
				cl := w.dial("a", h)
				_, err := cl.Connect(bg, "x")
				lib.Must("connect", err)
			})
			var fs []func()
			for _, n := range names {
				fs = append(fs, func() { acts[n](w, h) })
			}
			vsched.Par(fs...)
			lib.Settle()
			// the connections that must be there
			var open []string
			in := map[string]string{}
			total := map[string]int{}
			for _, a := range w.h.Conns {
				if a.Conn != nil && !a.Conn.IsClosed() {
					open = append(open, a.ID)
					for _, n := range []string{"x", "y"} {
						if a.Conn.Namespace(n) != nil {
							in[a.ID] = n
						}
					}
					lib.Check(!a.Client.Closed() && !a.Server.Closed(), "%s is open but its network connection is not", a.ID)
					lib.Check(accepted[a.ID], "%s was not accepted but is open", a.ID)
				} else {
					lib.Check(a.Server.Closed() || !a.Client.Closed() && a.Conn == nil && a.Err != nil && !a.Server.Closed() && len(a.Server.ReadTOs) == 0,
						"the network connection of %s was left open (%v)", a.ID, a.Err)
					total[a.ID]++
				}
			}
			for _, n := range names {
				if n == "server" {
					lib.Check(len(open) == 0, "Server.Close left %v open", open)
				}
				if n == "dial" && !has(names, "server") && !has(names, "do-close") && onConnect != "close" {
					lib.Check(has(open, "n"), "the dialed connection is not open: %v", open)
				}
			}
			w.registry(open, in)
			for _, a := range w.h.Conns {
				id := a.ID
				fired := w.sdisc.Count(id)
				switch {
				case has(open, id):
					lib.Check(fired == 0, "OnDisconnect fired for the open %s", id)
				case always && len(a.Server.ReadTOs) > 0:
					lib.Check(fired == 1, "OnDisconnect fired %d times for %s", fired, id)
				case refused[id]:
					lib.Check(fired == 0, "OnDisconnect fired for the refused %s", id)
				case accepted[id] && a.Conn != nil && !unsure[id] && id == "a":
					lib.Check(fired == 1, "OnDisconnect fired %d times for the accepted and ended %s", fired, id)
				case accepted[id] && !unsure[id] && a.Client.Reads > 0:
					// its client was told that it is accepted
					lib.Check(fired == 1, "OnDisconnect fired %d times for the accepted and ended %s", fired, id)
				default:
					lib.Check(fired <= 1, "OnDisconnect fired %d times for %s", fired, id)
				}
			}
			// a closed server refuses everything later
			w.srv.Close()
			lib.Settle()
			w.registry(nil, nil)
			_, err := neffos.Dial(nil, w.h.Dialer("late"), "ws://mem/", h)
			lib.Check(err != nil, "a closed server accepted a connection")
			rec := httptest.NewRecorder()
			c, err := w.srv.Upgrade(rec, &http.Request{Method: "GET"}, nil, nil)
			lib.Check(c == nil && err != nil && rec.Code == 500, "a closed server upgraded: %v, %v, %d", c, err, rec.Code)
			lib.Check(len(vsched.Live()) <= 1, "goroutines are left behind: %v", vsched.Live())
			vsched.SetOutcome(fmt.Sprint(open, w.sdisc))
		}
	}
	// servers with little or nothing declared
	plain := func() {
		vsched.Explore(false)
		w := newWorld()
		var h, ch neffos.ConnHandler = neffos.Namespaces{}, neffos.Namespaces{}
		kind := vsched.Choose(4)
		switch kind {
		case 1:
			h = neffos.Namespaces{"x": nil}
		case 2:
			h = neffos.Events{"m": w.handle}
			ch = nil
		case 3:
			h = neffos.Events{neffos.OnNativeMessage: w.handle}
			ch = h
		}
		w.host(h)
		w.srv.FireDisconnectAlways = vsched.Choose(2) == 1
		if vsched.Choose(2) == 1 {
			w.srv.OnConnect = nil
		}
		if vsched.Choose(2) == 1 {
			w.srv.SyncBroadcaster = true
		}
		ids := []string{"a", "b", "c", "d"}
		for i, id := range ids {
			w.dial(id, ch)
			w.registry(ids[:i+1], nil)
		}
		open := ids
		want := 0
		for len(open) > 0 {
			id := open[0]
			switch vsched.Choose(4) {
			case 0:
				w.cli[id].Close()
			case 1:
				w.conn("S", id).Close()
			case 2:
				w.h.Get(id).Client.Shut()
			case 3:
				w.srv.Close()
				want += len(open)
				open = nil
			}
			if open != nil {
				open = open[1:]
				want++
			}
			w.registry(open, nil)
			lib.Check(len(w.sdisc.L) == want && w.sdisc.Count(id) == 1, "OnDisconnect fired for %v after %d connections ended (kind %d)", w.sdisc, want, kind)
		}
		mc.Cases(1)
	}
	mc.Register("C14", &mc.Scenario{Name: "plain-servers", Body: plain, MaxSteps: 400000})
	// the registry during callbacks: a connection is there as long as its events run
	during := func() {
		w := newWorld()
		h := w.nss("x")
		lib.Setup(func() { w.host(h) })
		w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if side != "S" {
				return nil
			}
			if m.IsForced || m.Event == neffos.OnRoomLeave || m.Event == neffos.OnNamespaceDisconnect {
				lib.Check(w.srv.GetTotalConnections() == 1, "%s fires when the connection is not registered", evStr(m))
			}
			found := false
			w.srv.Do(func(c *neffos.Conn) { found = found || c == n.Conn }, false)
			lib.Check(found, "%s: Do does not visit the connection", evStr(m))
			return nil
		}
		w.srv.OnDisconnect = func(c *neffos.Conn) {
			w.sdisc.Add("%s", c.ID())
			lib.Check(w.srv.GetTotalConnections() == 0, "still counted at OnDisconnect")
			lib.Check(c.IsClosed() && stateOf(c, "x") == "", "OnDisconnect fires for an open connection")
		}
		cl := w.dial("a", h)
		ns, err := cl.Connect(bg, "x")
		lib.Must("connect", err)
		_, err = ns.JoinRoom(bg, "r")
		lib.Must("join", err)
		ns.Emit("m", nil)
		switch vsched.Choose(3) {
		case 0:
			cl.Close()
		case 1:
			w.conn("S", "a").Close()
		case 2:
			w.srv.Close()
		}
		w.registry(nil, nil)
		lib.Check(w.sdisc.Count("a") == 1, "OnDisconnect: %v", w.sdisc)
	}

	reg := func(name string, body func(), bound int, pol []vsched.Policy) *mc.Check {
		return mc.Register("C14", &mc.Scenario{Name: name, Body: body, Bound: bound, Deep: bound + 1, Policies: pol})
	}
	mc.Register("C14", &mc.Scenario{Name: "histories", Body: func() { histories(mc.Pick(4, 5), false)() }, Bound: 0, Deep: 0, Policies: polOne})
	mc.Register("C14", &mc.Scenario{Name: "histories-always", Body: func() { histories(mc.Pick(3, 4), true)() }, Bound: 0, Deep: 0, Policies: polOne})
	for _, p := range []string{"dial server", "dial client", "dial do-close", "dial-close server", "dial-close do", "refused server", "refused do", "raw-gone dial",
		"raw-ack-gone do", "client server", "client do-close", "conn do-emit", "server do", "server do-async", "server server", "dial get", "client get"} {
		reg(strings.ReplaceAll(p, " ", "+"), race(false, "", false, strings.Fields(p)...), 2, polTwo)
	}
	for _, p := range []string{"dial client", "dial-close client", "refused client", "raw-gone client", "dial server"} {
		reg("always+"+strings.ReplaceAll(p, " ", "+"), race(false, "", true, strings.Fields(p)...), 1, polSome)
	}
	for _, oc := range []string{"close", "do", "total", "broadcast"} {
		for _, p := range []string{"dial client", "dial-close", "refused"} {
			reg(oc+"-in-OnConnect+"+strings.ReplaceAll(p, " ", "+"), race(oc != "do", oc, false, strings.Fields(p)...), 1, polSome)
		}
	}
	reg("dial+dial2", race(false, "", false, "dial", "dial2"), 1, polSome)
	reg("three", race(true, "", false, "dial-close", "broadcast", "do", "client"), 1, polSome)
	c14 := reg("during-callbacks", during, 2, polTwo)
	c14.Quick = 90 * time.Second
	c14.Rule = "all histories up to 4 steps of dial, namespace connect, refusal, failed upgrade, the three ways to end a connection and Server.Close, every reading compared after every step; every schedule up to the bound of pairs of dials, ends, Do, Close, broadcasts, with OnConnect refusing, closing, broadcasting or using Do."
	c14.Assumptions = []string{"OnDisconnect of a connection that ended while its OnConnect was still running is not required (only never twice)"}
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}
