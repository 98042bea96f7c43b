package main

import (
	"errors"
	"fmt"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// Native broadcasts are addressed like any other message.
func init() {
	addr := func() {
		vsched.Explore(false)
		cfg, mode := vsched.Choose(3), vsched.Choose(2) // native only, mixed on the empty namespace, mixed with others
		w := newWorld()
		got := map[string][]string{}
		handler := func(id string) neffos.ConnHandler {
			rec := func(c *neffos.NSConn, m neffos.Message) error {
				if !neffos.IsSystemEvent(m.Event) {
					got[id] = append(got[id], fmt.Sprintf("%v %v %q", m.Event, m.SetBinary, m.Body))
				}
				return nil
			}
			switch cfg {
			case 0:
				return neffos.Events{neffos.OnNativeMessage: rec}
			case 1:
				return neffos.Events{neffos.OnNativeMessage: rec, "m": rec}
			}
			return neffos.Namespaces{"": {neffos.OnNativeMessage: rec, "m": rec}, "x": {neffos.OnNativeMessage: rec, neffos.OnAnyEvent: rec}}
		}
		w.host(handler("server"))
		w.srv.SyncBroadcaster = mode == 1
		ids := []string{"a", "b", "c"}
		in := map[string]string{}
		for i, id := range ids {
			c := lib.ConnOf(w.dial(id, handler(id)))
			in["/"+id] = "in"
			if cfg > 0 {
				_, err := c.Connect(bg, "")
				lib.Must("connect", err)
			}
			if cfg == 2 && i < 2 {
				_, err := c.Connect(bg, "x")
				lib.Must("connect", err)
				in["x/"+id] = "in"
			}
		}
		lib.Settle()
		exs := []except{{name: "nil"}, {name: "Exclude(b)", v: neffos.Exclude("b"), id: "b"}, {name: "Exclude(nobody)", v: neffos.Exclude("nobody")}}
		for _, id := range []string{"a", "c"} {
			s := w.srv.GetConnections()[id]
			exs = append(exs, except{name: "Conn " + id, v: s, id: id}, except{name: "NSConn " + id, v: s.Namespace(""), id: id})
		}
		nss := []string{""}
		if cfg == 2 {
			nss = append(nss, "x")
		}
		n := 0
		for _, ex := range exs {
			for _, ns := range nss {
				for _, to := range []string{"", "a", "b", "nobody"} {
					for _, size := range []int{1, 2} {
						var ms []neffos.Message
						for len(ms) < size {
							n++
							m := neffos.Message{Namespace: ns, Body: []byte(fmt.Sprint("native ", n)), IsNative: true, SetBinary: n%2 == 0, To: to}
							if len(ms) == 1 {
								m.To = "" // everybody, whoever the first was for
							}
							ms = append(ms, m)
						}
						w.srv.Broadcast(ex.v, ms...)
						lib.Settle()
						for _, id := range ids {
							var want []string
							for _, m := range ms {
								if in[ns+"/"+id] != "" && (m.To == "" || m.To == id) && id != ex.id {
									want = append(want, fmt.Sprintf("%v %v %q", neffos.OnNativeMessage, m.SetBinary, m.Body))
								}
							}
							lib.Check(fmt.Sprint(got[id]) == fmt.Sprint(want), "configuration %d: a native broadcast in %q to %q (and %d more) except %s: %s received %v, expected %v", cfg, ns, to, size-1, ex.name, id, got[id], want)
						}
						got = map[string][]string{}
						mc.Cases(1)
					}
				}
			}
		}
	}
	for _, p := range []string{"C10", "C16"} {
		mc.Register(p, &mc.Scenario{Name: "native-broadcasts", Body: addr, MaxSteps: 400000})
	}

	// Whatever the error of a refusal is, the caller gets it, nothing changed and everything still works.
	refusals := func() {
		vsched.Explore(false)
		errs := []error{errors.New("no"), errors.New("a;b;;c;;;;d"), errors.New(" no "), neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload, bg.Err(), errors.New("context canceled"), errors.New("EOF"), neffos.CloseError{}}
		errs[7] = fmt.Errorf("wrapped: %w", neffos.ErrWrite)
		errs = errs[:len(errs)-1]
		err := errs[vsched.Choose(len(errs))]
		event := []string{neffos.OnNamespaceConnect, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomLeave}[vsched.Choose(4)]
		caller, refuser := []string{"C", "S"}[vsched.Choose(2)], []string{"C", "S"}[vsched.Choose(2)]
		if (event == neffos.OnNamespaceDisconnect || event == neffos.OnRoomLeave) && (refuser == "C" || caller == "S") {
			return // only the server can refuse these, to a client
		}
		if event == neffos.OnRoomJoin && caller == refuser {
			return // the other side is in by then
		}
		w := newWorld()
		h := w.nss("x", "y")
		w.host(h)
		w.dial("a", h)
		k := w.conn(caller, "a")
		lib.Settle()
		_, e := k.Connect(bg, "y")
		lib.Must("connect", e)
		refuse := true
		w.on = func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
			if refuse && side == refuser && m.Event == event && m.Namespace == "x" {
				return err
			}
			return nil
		}
		what := fmt.Sprintf("%s of %s refused by %s with %q", event, caller, refuser, err)
		check := func(e error) {
			lib.Settle()
			lib.Check(e != nil && e.Error() == err.Error(), "%s: the call returned %v", what, e)
			for i := 3; i < 7; i++ {
				lib.Check(err != errs[i] || e == err, "%s: the call returned another error value", what)
			}
		}
		agree := func(want string) {
			lib.Settle()
			for _, side := range []string{"C", "S"} {
				c := w.conn(side, "a")
				lib.Check(!c.IsClosed(), "%s: side %s is closed", what, side)
				lib.Check(stateOf(c, "x", "y") == want, "%s: side %s holds %s, expected %s", what, side, stateOf(c, "x", "y"), want)
			}
			mc.Cases(1)
		}
		only := stateOf(w.conn("S", "a"), "x", "y")
		for round := 0; round < 2; round++ {
			refuse = true
			if event == neffos.OnNamespaceConnect {
				for i := 0; i < 2; i++ {
					_, e := k.Connect(bg, "x")
					check(e)
					agree(only)
				}
				refuse = false
			}
			ns, e := k.Connect(bg, "x")
			lib.Check(e == nil && ns != nil, "%s: then Connect returned %v", what, e)
			connected := stateOf(w.conn("S", "a"), "x", "y")
			lib.Check(connected != only, "%s: then the server does not hold x", what)
			agree(connected)
			if event == neffos.OnRoomJoin {
				for i := 0; i < 2; i++ {
					_, e := ns.JoinRoom(bg, "r")
					check(e)
					agree(connected)
				}
				refuse = false
			}
			r, e := ns.JoinRoom(bg, "r")
			lib.Check(e == nil && r != nil, "%s: then JoinRoom returned %v", what, e)
			joined := stateOf(w.conn("S", "a"), "x", "y")
			lib.Check(joined != connected, "%s: then the server is not in the room", what)
			agree(joined)
			if event == neffos.OnRoomLeave {
				check(r.Leave(bg))
				agree(joined)
				check(ns.LeaveAll(bg))
				agree(joined)
				refuse = false
			}
			lib.Check(r.Leave(bg) == nil, "%s: then Leave failed", what)
			agree(connected)
			if event == neffos.OnNamespaceDisconnect {
				check(ns.Disconnect(bg))
				agree(connected)
				all := k.DisconnectAll(bg) // y may be first
				check(all)
				if k.Namespace("y") == nil {
					_, e := k.Connect(bg, "y")
					lib.Must("connect", e)
				}
				agree(connected)
				refuse = false
			}
			lib.Check(ns.Disconnect(bg) == nil, "%s: then Disconnect failed", what)
			agree(only)
		}
	}
	for _, p := range []string{"C04", "C05", "C06"} {
		mc.Register(p, &mc.Scenario{Name: "refusal-errors", Body: refusals, MaxSteps: 400000})
	}
}
