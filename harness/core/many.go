package main

import (
	"context"
	"fmt"
	"strings"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// The same guarantees with hundreds of messages, requests, rooms and connections, in several fixed orders:
// no limit of the implementation (a buffer's size, a counter's width) may be visible.
const many = 300

func init() {
	reg := func(prop, name string, pol []vsched.Policy, body func()) {
		mc.Register(prop, &mc.Scenario{Name: "many-" + name, Body: body, Policies: pol, Bound: 0, Deep: 0, MaxSteps: 1 << 24, Frozen: strings.HasSuffix(name, "same-clock")})
	}
	seq := func(prefix string, n int) (out []string) {
		for i := 0; i < n; i++ {
			out = append(out, fmt.Sprint(prefix, i))
		}
		return
	}
	// sizes of every field
	reg("C01", "bytes", polOne, func() {
		for _, n := range []int{255, 256, 1023, 1024, 4096, 65535, 65536, 1 << 20} {
			for f := 0; f < 4; f++ {
				for _, unit := range []string{"a", ";", "\x00", "a;"} {
					v := strings.Repeat(unit, n/len(unit)+1)
					m := neffos.Message{Namespace: "n", Room: "r", Event: "e", Body: []byte("b")}
					switch f {
					case 0:
						m.Namespace = v
					case 1:
						m.Room = v
					case 2:
						m.Event = v
					case 3:
						m.Body = []byte(v)
					}
					for _, typ := range []neffos.MessageType{neffos.TextMessage, neffos.BinaryMessage} {
						g := neffos.DeserializeMessage(typ, m.Serialize(), false, false)
						lib.Check(g.Namespace == m.Namespace && g.Room == m.Room && g.Event == m.Event && string(g.Body) == string(m.Body),
							"a message with %d bytes of %q in field %d does not come back", len(v), unit, f)
						mc.Cases(1)
					}
				}
			}
		}
	})
	// messages of a peer before its handshake
	reg("C03", "early-frames", polTwo, func() {
		w := newWorld()
		w.host(w.nss("x"))
		peer, _ := w.h.Raw("a")
		peer.WriteText([]byte("$1;x;;_OnNamespaceConnect;0;0;"), 0)
		want := []string{"connect(x)", "connected(x)"}
		for i := 0; i < many; i++ {
			peer.WriteText([]byte(fmt.Sprint(";x;;m;0;0;", i)), 0)
			want = append(want, fmt.Sprint("m(x)=", i))
		}
		peer.WriteText([]byte("M"), 0)
		lib.Settle()
		lib.Check(fmt.Sprint(w.log("S:a").L) == fmt.Sprint(want), "%d messages sent before the handshake were handled as %v", many, w.log("S:a").L)
	})
	// rooms
	rooms := func(prop, how string) {
		reg(prop, "rooms-"+how, polTwo, func() {
			w := newWorld()
			w.host(w.nss("x", "y"))
			cl := w.dial("a", w.nss("x", "y"))
			ns, err := cl.Connect(bg, "x")
			lib.Must("connect", err)
			for i := 0; i < many/3; i++ {
				_, err := ns.JoinRoom(bg, fmt.Sprint("r", i))
				lib.Must("join", err)
			}
			sn := w.conn("S", "a").Namespace("x")
			lib.Check(len(ns.Rooms()) == many/3 && len(sn.Rooms()) == many/3, "%d rooms joined, the sides hold %d and %d", many/3, len(ns.Rooms()), len(sn.Rooms()))
			switch how {
			case "leave-all":
				lib.Must("LeaveAll", ns.LeaveAll(bg))
			case "leave-all-server":
				lib.Must("LeaveAll", sn.LeaveAll(bg))
			case "disconnect":
				lib.Must("Disconnect", ns.Disconnect(bg))
			case "disconnect-server":
				lib.Must("Disconnect", sn.Disconnect(bg))
			case "close":
				cl.Close()
			}
			lib.Settle()
			lib.Check(len(ns.Rooms()) == 0 && len(sn.Rooms()) == 0, "after %s the sides hold %d and %d rooms", how, len(ns.Rooms()), len(sn.Rooms()))
			for _, side := range []string{"C:a", "S:a"} {
				for i := 0; i < many/3; i++ {
					for _, e := range []string{"join", "joined", "leave", "left"} {
						p := fmt.Sprintf("%s(x/r%d)", e, i)
						n := 0
						for _, l := range w.log(side).L {
							if strings.HasPrefix(l, p) {
								n++
							}
						}
						lib.Check(n == 1, "%s: side %s fired %s %d times", how, side, p, n)
					}
				}
				lib.Check(strings.HasPrefix(how, "leave") || len(w.log(side).Filter("disconnect(x)")) == 1, "%s: side %s fired %v", how, side, w.log(side).Filter("disconnect("))
			}
		})
	}
	rooms("C06", "leave-all")
	rooms("C06", "leave-all-server")
	rooms("C05", "disconnect")
	rooms("C05", "disconnect-server")
	rooms("C13", "close")
	// requests waiting at the same time, answered backwards or never
	asks := func(prop string, side, how string) {
		reg(prop, "asks-"+side+"-"+how, polTwo, func() {
			w := newWorld()
			var base int
			var ns *neffos.NSConn
			var peer, mine *lib.End
			if side == "S" {
				w.host(w.nss("x"))
				p, acc := w.h.Raw("a")
				peer, mine = p, acc.Server
				peer.WriteText([]byte("M"), 0)
				peer.WriteText([]byte("$1;x;;_OnNamespaceConnect;0;0;"), 0)
				lib.Settle()
				ns = acc.Conn.Namespace("x")
			} else {
				mine, peer = lib.Pair("cli", "srv")
				peer.WriteText([]byte("Aa"), 0)
				peer.WriteText([]byte("1;x;;_OnNamespaceConnect;0;0;"), 0)
				cl, err := neffos.Dial(nil, dialEnd(mine), "mem", w.nss("x"))
				lib.Must("dial", err)
				lib.Settle()
				ns = lib.ConnOf(cl).Namespace("x")
			}
			base = len(mine.Sent)
			done := 0
			for i := 0; i < many; i++ {
				vsched.GoNamed("asker", func() {
					body := fmt.Sprint("q", i)
					ctx, cancel := context.Background(), func() {}
					if i%2 == 1 && how == "half" {
						ctx, cancel = lib.WithTimeout(1000000)
					}
					defer cancel()
					r, err := ns.Ask(ctx, "ask", []byte(body))
					switch {
					case how == "close":
						lib.Check(err != nil, "Ask on a closed connection returned %q", r.Body)
					case i%2 == 1 && how == "half":
						lib.Check(err == context.DeadlineExceeded, "Ask %d returned %q, %v", i, r.Body, err)
					default:
						lib.Check(err == nil && string(r.Body) == "r"+body, "Ask of %s returned %q, %v", body, r.Body, err)
					}
					done++
				})
			}
			lib.Settle()
			lib.Check(len(mine.Sent)-base == many, "%d requests sent", len(mine.Sent)-base)
			if how == "half" {
				vsched.Elapse(2000000)
			}
			if how == "close" {
				ns.Conn.Close()
			} else {
				for i := many - 1; i >= 0; i-- {
					f := string(mine.Sent[base+i].Data)
					tok, body := f[:strings.Index(f, ";")], f[strings.LastIndex(f, ";")+1:]
					peer.WriteText([]byte(tok+";x;;ask;0;0;r"+body), 0)
				}
			}
			lib.Settle()
			lib.Check(done == many, "%d of %d requests ended", done, many)
		})
	}
	for _, side := range []string{"C", "S"} {
		asks("C07", side, "backwards")
		asks("C07", side, "same-clock")
		asks("C08", side, "half")
		asks("C08", side, "close")
	}
	reg("C09", "messages", polSome, func() {
		w := newWorld()
		w.host(w.nss("x"))
		cl := w.dial("a", w.nss("x"))
		ns, err := cl.Connect(bg, "x")
		lib.Must("connect", err)
		sn := w.conn("S", "a").Namespace("x")
		vsched.Par(func() {
			for _, b := range seq("c", many) {
				lib.Check(ns.Emit("m", []byte(b)), "Emit")
			}
		}, func() {
			for _, b := range seq("s", many) {
				lib.Check(sn.EmitBinary("m", []byte(b)), "Emit")
			}
		})
		lib.Settle()
		for k, p := range map[string]string{"S:a": "m(x)=c", "C:a": "m(x)=s"} {
			want := seq(p, many)
			if k == "C:a" {
				for i := range want {
					want[i] += "[bin]"
				}
			}
			lib.Check(fmt.Sprint(w.log(k).Filter("m(")) == fmt.Sprint(want), "side %s handled %v", k, w.log(k).L)
		}
	})
	for _, sync := range []bool{false, true} {
		name := map[bool]string{false: "broadcasts", true: "sync-broadcasts"}[sync]
		reg("C11", name, polTwo, func() {
			cr := newCrowd(sync)
			cr.add("a", "a", "x")
			cr.add("b", "b", "x")
			if !sync {
				cr.m[0].acc.Server.Hold(true) // accepts nothing for now
			}
			for _, b := range seq("p", many) {
				cr.w.srv.Broadcast(nil, bmsg("x", "", b))
			}
			lib.Settle()
			if !sync {
				lib.Check(len(cr.bodies("b")) == many, "b received %d messages while a is stuck", len(cr.bodies("b")))
				cr.m[0].acc.Server.Hold(false)
				lib.Settle()
			}
			for _, m := range cr.m {
				lib.Check(fmt.Sprint(cr.bodies(m.name)) == fmt.Sprint(seq("p", many)), "%s received %v", m.name, cr.bodies(m.name))
			}
		})
	}
	reg("C10", "messages-in-one-broadcast", polOne, func() {
		cr := newCrowd(false)
		cr.add("a", "a", "x x/r")
		cr.add("b", "b", "x")
		var ms []neffos.Message
		for i := 0; i < many; i++ {
			ms = append(ms, neffos.Message{Namespace: "x", Room: []string{"", "r"}[i%2], To: []string{"", "a", "b"}[i%3], Event: "e", Body: []byte(fmt.Sprint(i))})
		}
		for _, m := range cr.m {
			cr.w.srv.Broadcast(m.s, ms...)
			cr.expect("a broadcast of many messages", ms, m, "")
		}
		cr.w.srv.Broadcast(nil, ms...)
		cr.expect("a broadcast of many messages", ms, nil, "")
	})
	reg("C12", "connections", polTwo, func() {
		w := newWorld()
		nss := neffos.Namespaces{"x": neffos.Events{"ask": func(c *neffos.NSConn, m neffos.Message) error {
			return neffos.Reply([]byte(c.Conn.ID()))
		}}}
		w.host(nss)
		for i := 0; i < 40; i++ {
			cl := w.dial(fmt.Sprint("c", i), nss)
			_, err := cl.Connect(bg, "x")
			lib.Must("connect", err)
		}
		for i := 0; i < 40; i++ {
			r, err := w.srv.Ask(bg, neffos.Message{Namespace: "x", Event: "ask"})
			lib.Check(err == nil && strings.HasPrefix(string(r.Body), "c"), "Server.Ask returned %q, %v", r.Body, err)
			id := fmt.Sprint("c", i)
			r, err = w.srv.Ask(bg, neffos.Message{Namespace: "x", Event: "ask", To: id})
			lib.Check(err == nil && string(r.Body) == id, "Server.Ask to %s returned %q, %v", id, r.Body, err)
		}
	})
	reg("C14", "connections", polTwo, func() {
		w := newWorld()
		w.host(w.nss("x"))
		n := many / 3
		for _, id := range seq("c", n) {
			cl := w.dial(id, w.nss("x"))
			_, err := cl.Connect(bg, "x")
			lib.Must("connect", err)
		}
		lib.Settle()
		for i, id := range seq("c", n) {
			lib.Check(int(w.srv.GetTotalConnections()) == n-i && len(w.srv.GetConnections()) == n-i && len(w.srv.GetConnectionsByNamespace("x")) == n-i,
				"%d connections: %d, %d, %d", n-i, w.srv.GetTotalConnections(), len(w.srv.GetConnections()), len(w.srv.GetConnectionsByNamespace("x")))
			seen := 0
			w.srv.Do(func(*neffos.Conn) { seen++ }, false)
			lib.Check(seen == n-i, "Do visited %d of %d connections", seen, n-i)
			if i == n/2 {
				break
			}
			w.cli[id].Close()
			lib.Settle()
			lib.Check(w.sdisc.Count(id) == 1, "OnDisconnect of %s fired %d times", id, w.sdisc.Count(id))
		}
		w.srv.Close()
		lib.Settle()
		lib.Check(w.srv.GetTotalConnections() == 0 && len(w.sdisc.L) == n, "after Close %d connections remain, OnDisconnect fired %d times", w.srv.GetTotalConnections(), len(w.sdisc.L))
		for id, c := range w.cli {
			lib.Check(lib.ConnOf(c).IsClosed(), "the client %s is still open", id)
		}
	})
	reg("C20", "messages", polTwo, func() {
		f := newFleet()
		f.add(0, "a", "a", "x")
		f.add(1, "b", "b", "x")
		var ms []neffos.Message
		for i := 0; i < many; i++ {
			m := bmsg("x", "", fmt.Sprint(i))
			ms = append(ms, m)
			f.w[i%2].srv.Broadcast(nil, m)
			if i%2 == 1 {
				lib.Settle()
			}
		}
		f.expect("many broadcasts of both servers", ms, nil, "")
	})
}
