package main

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

var (
	cfgNS = []string{"", "x"}
	cfgEv = []string{"m", "mm", neffos.OnAnyEvent}
)

// tagRet is what the tagged callbacks return. (Executions run one at a time.)
var tagRet error

// tagged is a handler set whose callbacks say who they are: bit 3*n+e registers event e on namespace n.
// Namespaces without any event are declared (with no events) when declare is set.
func tagged(name string, bits int, declare bool, hit *string) neffos.Namespaces {
	out := neffos.Namespaces{}
	for n, ns := range cfgNS {
		if declare {
			out[ns] = neffos.Events{}
		}
		for e, ev := range cfgEv {
			if bits&(1<<(3*n+e)) != 0 {
				if out[ns] == nil {
					out[ns] = neffos.Events{}
				}
				tag := name + ":" + ns + "/" + ev
				out[ns][ev] = func(c *neffos.NSConn, m neffos.Message) error { *hit += tag + "<" + m.Event + ">"; return tagRet }
			}
		}
	}
	return out
}

// shape lists the registrations of a handler by what they say.
func shape(nss neffos.Namespaces, hit *string) string {
	var out []string
	for n, evs := range nss {
		out = append(out, "ns "+n)
		for e, f := range evs {
			*hit = ""
			f(nil, neffos.Message{})
			out = append(out, n+"/"+e+"="+*hit)
		}
	}
	*hit = ""
	sort.Strings(out)
	return strings.Join(out, "\n")
}

func merged(parts ...neffos.Namespaces) neffos.Namespaces {
	out := neffos.Namespaces{}
	for _, p := range parts {
		for n, evs := range p {
			if out[n] == nil {
				out[n] = neffos.Events{}
			}
			for e, f := range evs {
				out[n][e] = f
			}
		}
	}
	return out
}

func clone(n neffos.Namespaces) neffos.Namespaces { return merged(n) }

func init() {
	// joining: every pair of handler sets (and triples of smaller ones), through every way to combine
	join := func(triples bool) func() {
		return func() {
			var hit string
			check := func(what string, got neffos.ConnHandler, parts ...neffos.Namespaces) {
				want := shape(merged(parts...), &hit)
				var before []string
				for _, p := range parts {
					before = append(before, shape(p, &hit))
				}
				nss := got.GetNamespaces()
				g := shape(nss, &hit)
				lib.Check(g == want, "%s has\n%s\nexpected\n%s", what, g, want)
				// neither the join nor a later registration on the result changes the inputs
				nss.On("", "later", func(*neffos.NSConn, neffos.Message) error { hit += "later"; return nil })
				nss.On("x", "m", func(*neffos.NSConn, neffos.Message) error { hit += "later"; return nil })
				nss.On("new", "m", func(*neffos.NSConn, neffos.Message) error { hit += "later"; return nil })
				for i, p := range parts {
					lib.Check(shape(p, &hit) == before[i], "%s: input %d changed to\n%s", what, i, shape(p, &hit))
				}
				mc.Cases(1)
			}
			// registrations of the library's own events are like any other
			all := []string{neffos.OnNamespaceConnect, neffos.OnNamespaceConnected, neffos.OnNamespaceDisconnect, neffos.OnRoomJoin, neffos.OnRoomJoined, neffos.OnRoomLeave, neffos.OnRoomLeft, neffos.OnAnyEvent, neffos.OnNativeMessage, "", "m", "M", " m", "m;"}
			full := func(name string, skip int) neffos.Namespaces {
				out := neffos.Namespaces{}
				for _, ns := range []string{"", "x", "X", " x"} {
					out[ns] = neffos.Events{}
					for i, ev := range all {
						if i != skip {
							tag := name + ":" + ns + "/" + ev
							out[ns][ev] = func(c *neffos.NSConn, m neffos.Message) error { hit += tag; return tagRet }
						}
					}
				}
				return out
			}
			for a := -1; a < len(all); a++ {
				for b := -1; b < len(all); b++ {
					A, B := full("A", a), full("B", b)
					check("join of 2", neffos.JoinConnHandlers(A, B), A, B)
					check("WithTimeout", neffos.WithTimeout{Namespaces: A, Events: B[""]}, A, neffos.Namespaces{"": B[""]})
				}
			}
			if triples {
				for a := 0; a < 64; a += 5 {
					for b := 0; b < 64; b += 3 {
						for c := 0; c < 64; c++ {
							A, B, C := tagged("A", a, false, &hit), tagged("B", b, false, &hit), tagged("C", c, true, &hit)
							check("join of 3", neffos.JoinConnHandlers(A, B, C), A, B, C)
						}
					}
				}
				return
			}
			for a := 0; a < 64; a++ {
				A := tagged("A", a, a%2 == 0, &hit)
				check("join of 1", neffos.JoinConnHandlers(A), A)
				check("WithTimeout", neffos.WithTimeout{Namespaces: A}, A)
				for b := 0; b < 64; b++ {
					A, B := tagged("A", a, a%2 == 0, &hit), tagged("B", b, b%3 == 0, &hit)
					check("join of 2", neffos.JoinConnHandlers(A, B), A, B)
					check("nested join", neffos.JoinConnHandlers(neffos.JoinConnHandlers(clone(A)), neffos.WithTimeout{Namespaces: B}), A, B)
					if b < 8 {
						if ev := B[""]; ev != nil {
							check("join of events", neffos.JoinConnHandlers(A, ev), A, neffos.Namespaces{"": ev})
							check("events first", neffos.JoinConnHandlers(ev, A), neffos.Namespaces{"": ev}, A)
							check("WithTimeout of both", neffos.WithTimeout{Namespaces: A, Events: ev}, A, neffos.Namespaces{"": ev})
						}
					}
				}
			}
			// registration shortcuts
			N := neffos.Namespaces{}
			N.On("x", "m", func(*neffos.NSConn, neffos.Message) error { hit += "1"; return nil })
			e := N.On("x", "n", func(*neffos.NSConn, neffos.Message) error { hit += "2"; return nil })
			e.On("o", func(*neffos.NSConn, neffos.Message) error { hit += "3"; return nil })
			N.On("", "m", func(*neffos.NSConn, neffos.Message) error { hit += "4"; return nil })
			N.On("x", "m", func(*neffos.NSConn, neffos.Message) error { hit += "5"; return nil })
			E := neffos.Events{}
			O := neffos.Namespaces{"x": E, "y": nil}
			r := O.On("x", "m", func(*neffos.NSConn, neffos.Message) error { hit += "1"; return nil })
			E.On("n", func(*neffos.NSConn, neffos.Message) error { hit += "2"; return nil })
			r.On("o", func(*neffos.NSConn, neffos.Message) error { hit += "3"; return nil })
			O.On("y", "m", func(*neffos.NSConn, neffos.Message) error { hit += "4"; return nil })
			lib.Check(shape(O, &hit) == "ns x\nns y\nx/m=1\nx/n=2\nx/o=3\ny/m=4", "registrations on an empty set of events gave\n%s", shape(O, &hit))
			lib.Check(shape(N, &hit) == "/m=4\nns \nns x\nx/m=5\nx/n=2\nx/o=3", "On registered\n%s", shape(N, &hit))
		}
	}
	incoming := []string{"m", "mm", "M", "", " m", "n", "_m", neffos.OnAnyEvent, neffos.OnNamespaceConnected, neffos.OnRoomJoined}
	// dispatch: every handler configuration against every incoming pair, on either side
	dispatch := func(client bool, wrap func(neffos.Namespaces) neffos.ConnHandler) func() {
		return func() {
			vsched.Explore(false)
			bits := vsched.Choose(64)
			tagRet = nil
			var hit string
			nss := tagged("H", bits, true, &hit)
			h := wrap(nss)
			w := newWorld()
			var p, lastEnd *lib.End
			if client {
				a, b := lib.Pair("srv", "cli")
				p, lastEnd = a, b
				a.WriteText([]byte("Aid"), 0)
				_, err := neffos.Dial(nil, dialEnd(b), "ws://mem/", h)
				lib.Must("Dial", err)
			} else {
				w.host(h)
				e, a := w.h.Raw("a")
				p, lastEnd = e, a.Server
				p.WriteText([]byte("M"), 0)
			}
			_ = lastEnd
			resolve := func(n int, ev string) string {
				for e, name := range cfgEv {
					if name == ev && bits&(1<<(3*n+e)) != 0 {
						return "H:" + cfgNS[n] + "/" + ev + "<" + ev + ">"
					}
				}
				if bits&(1<<(3*n+2)) != 0 {
					return "H:" + cfgNS[n] + "/" + neffos.OnAnyEvent + "<" + ev + ">"
				}
				return ""
			}
			wait := "$1"
			if client {
				wait = "1"
			}
			send := func(f string) string {
				hit = ""
				p.WriteText([]byte(f), 0)
				lib.Settle()
				mc.Cases(1)
				return hit
			}
			// not connected yet: nothing runs
			for _, ev := range incoming {
				for _, n := range cfgNS {
					got := send(";" + n + ";;" + ev + ";0;0;b")
					lib.Check(got == "", "event %q of the unconnected namespace %q ran %s", ev, n, got)
				}
			}
			for n, ns := range cfgNS {
				got := send(wait + ";" + ns + ";;" + neffos.OnNamespaceConnect + ";0;0;")
				want := resolve(n, neffos.OnNamespaceConnect) + resolve(n, neffos.OnNamespaceConnected)
				lib.Check(got == want, "connecting %q ran %q, expected %q", ns, got, want)
				got = send(wait + ";" + ns + ";r;" + neffos.OnRoomJoin + ";0;0;")
				want = resolve(n, neffos.OnRoomJoin) + resolve(n, neffos.OnRoomJoined)
				lib.Check(got == want, "joining a room of %q ran %q, expected %q", ns, got, want)
			}
			for _, room := range []string{"", "r"} {
				for _, ev := range incoming {
					for n, ns := range cfgNS {
						// told or asked, with a body or an error, whatever the callback returns
						for _, wt := range []string{"", wait + "77"} {
							for _, isErr := range []string{"0", "1"} {
								for _, tagRet = range []error{nil, errors.New("no"), neffos.Reply([]byte("re"))} {
									got, want := send(wt+";"+ns+";"+room+";"+ev+";"+isErr+";0;b"), resolve(n, ev)
									lib.Check(got == want, "event %q (wait token %q, error %s, answered with %v) of namespace %q ran %q, expected %q", ev, wt, isErr, tagRet, ns, got, want)
								}
							}
						}
						tagRet = nil
					}
					for _, ns := range []string{"X", "xx", "m", "y"} {
						got := send(";" + ns + ";" + room + ";" + ev + ";0;0;b")
						lib.Check(got == "", "event %q of the undeclared namespace %q ran %q", ev, ns, got)
					}
				}
			}
		}
	}
	// timeouts reach every read and write of the socket, on both sides
	timeouts := func() {
		T := []time.Duration{0, 7 * time.Second, 3 * time.Hour}
		sr, sw, cr, cw := T[vsched.Choose(3)], T[vsched.Choose(3)], T[vsched.Choose(3)], T[vsched.Choose(3)]
		kind := vsched.Choose(2)
		vsched.Explore(false)
		w := newWorld()
		mk := func(r, wt time.Duration) neffos.ConnHandler {
			if kind == 1 {
				return neffos.NewStruct(&timeoutStruct{w: w}).SetNamespace("x").SetTimeouts(r, wt)
			}
			return neffos.WithTimeout{ReadTimeout: r, WriteTimeout: wt, Namespaces: w.nss("x")}
		}
		w.host(mk(sr, sw))
		w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if m.Event == "ask" {
				return answer(m)
			}
			return nil
		}
		cl := w.dial("a", mk(cr, cw))
		ns, err := cl.Connect(bg, "x")
		lib.Must("connect", err)
		_, err = ns.JoinRoom(bg, "r")
		lib.Must("join", err)
		lib.Check(ns.Emit("m", nil) && ns.EmitBinary("m", nil) && ns.Room("r").Emit("m", nil), "Emit failed")
		if kind == 0 {
			_, err = ns.Ask(bg, "ask", []byte("q"))
			lib.Must("ask", err)
		}
		w.srv.Broadcast(nil, msg("x", "r", "m", "b"))
		lib.Must("leave", w.conn("S", "a").Namespace("x").LeaveAll(bg))
		lib.Must("disconnect", ns.Disconnect(bg))
		lib.Settle()
		a := w.h.Get("a")
		all := func(what string, l []time.Duration, want time.Duration) {
			lib.Check(len(l) > 3, "%s: only %d", what, len(l))
			for _, d := range l {
				lib.Check(d == want, "a %s used timeout %v, configured is %v", what, d, want)
			}
		}
		all("server read", a.Server.ReadTOs, sr)
		all("server write", a.Server.WriteTOs, sw)
		all("client read", a.Client.ReadTOs, cr)
		all("client write", a.Client.WriteTOs, cw)
		// and a silent connection ends when its read timeout passes
		min := time.Duration(0)
		for _, d := range []time.Duration{sr, cr} {
			if d > 0 && (min == 0 || d < min) {
				min = d
			}
		}
		if min == 0 {
			vsched.Elapse(int64(100 * time.Hour))
			lib.Check(!w.conn("C", "a").IsClosed() && !w.conn("S", "a").IsClosed(), "closed without a timeout")
		} else {
			vsched.Elapse(int64(min - time.Second))
			lib.Check(!w.conn("C", "a").IsClosed() && !w.conn("S", "a").IsClosed(), "closed before its timeout")
			vsched.Elapse(int64(2 * time.Second))
			lib.Settle()
			lib.Check(w.conn("C", "a").IsClosed() && w.conn("S", "a").IsClosed(), "a silent connection is still open after its read timeout")
		}
		mc.Cases(1)
	}
	// the same for every schedule of a connection's start, use and end
	timeoutsRace := func() {
		w := newWorld()
		w.host(neffos.WithTimeout{ReadTimeout: 7 * time.Second, WriteTimeout: 9 * time.Second, Namespaces: w.nss("x")})
		cl := w.dial("a", neffos.WithTimeout{ReadTimeout: 11 * time.Second, WriteTimeout: 13 * time.Second, Namespaces: w.nss("x")})
		vsched.Par(func() {
			ns, err := cl.Connect(bg, "x")
			lib.Must("connect", err)
			ns.Emit("m", nil)
		}, func() { w.srv.Broadcast(nil, msg("x", "", "m", "b")) })
		lib.Settle()
		cl.Close()
		lib.Settle()
		a := w.h.Get("a")
		all := func(what string, l []time.Duration, want time.Duration) {
			lib.Check(len(l) > 0, "no %s", what)
			for _, d := range l {
				lib.Check(d == want, "a %s used timeout %v, configured is %v", what, d, want)
			}
		}
		all("server read", a.Server.ReadTOs, 7*time.Second)
		all("server write", a.Server.WriteTOs, 9*time.Second)
		all("client read", a.Client.ReadTOs, 11*time.Second)
		all("client write", a.Client.WriteTOs, 13*time.Second)
	}
	mc.Register("C17", &mc.Scenario{Name: "timeouts-race", Body: timeoutsRace, Bound: 2, Deep: 3, Policies: polAll})
	reg := func(name string, body func()) *mc.Check {
		return mc.Register("C17", &mc.Scenario{Name: name, Body: body, Bound: 0, Deep: 0, MaxSteps: 1 << 20})
	}
	reg("join-two", join(false))
	reg("join-three", join(true))
	plain := func(n neffos.Namespaces) neffos.ConnHandler { return n }
	joined := func(n neffos.Namespaces) neffos.ConnHandler {
		return neffos.WithTimeout{Namespaces: neffos.Namespaces{"x": n["x"]}, Events: n[""]}
	}
	reg("server-dispatch", dispatch(false, plain))
	reg("client-dispatch", dispatch(true, plain))
	reg("server-dispatch-joined", dispatch(false, joined))
	reg("client-dispatch-joined", dispatch(true, joined))
	c17 := reg("timeouts", timeouts)
	c17.Rule = fmt.Sprintf("all 64 handler sets over 2 namespaces x 3 events (OnAnyEvent included): every pair joined in 2-6 ways and %d triples, compared with the expected registrations and with the inputs afterwards; every handler set against %d event names x 6 namespaces x 2 rooms on either side; all combinations of three read and write timeouts of both sides.", 13*22*64, len(incoming))
}

type timeoutStruct struct{ w *world }

func (t *timeoutStruct) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error { return nil }
func (t *timeoutStruct) M(c *neffos.NSConn, m neffos.Message) error                    { return nil }
