package main

import (
	"bytes"
	"fmt"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// native configurations
func (w *world) nativeHandler(cfg string) neffos.ConnHandler {
	rec := func(n *neffos.NSConn, m neffos.Message) error {
		k := lib.Side(n)
		lib.Check(m.Event != neffos.OnNativeMessage || m.IsNative && m.Namespace == "" && m.Room == "" && m.Err == nil && n.Conn != nil,
			"a native message arrived as %+v", m)
		w.log(k).Add("%s|%s|%v|%q", m.Namespace, m.Event, m.SetBinary, m.Body)
		return nil
	}
	any := func(n *neffos.NSConn, m neffos.Message) error {
		if neffos.IsSystemEvent(m.Event) && m.Event != neffos.OnNativeMessage {
			return nil
		}
		return rec(n, m)
	}
	switch cfg {
	case "only":
		return neffos.Events{neffos.OnNativeMessage: rec}
	case "only-ns":
		return neffos.Namespaces{"": neffos.Events{neffos.OnNativeMessage: rec}}
	case "only-timeout":
		return neffos.WithTimeout{ReadTimeout: time.Hour, WriteTimeout: time.Hour, Events: neffos.Events{neffos.OnNativeMessage: rec}}
	case "only-join":
		return neffos.JoinConnHandlers(neffos.Events{neffos.OnNativeMessage: rec}, neffos.Namespaces{})
	case "mixed-events":
		return neffos.Events{neffos.OnNativeMessage: rec, "m": rec}
	case "mixed-any":
		return neffos.Events{neffos.OnNativeMessage: rec, neffos.OnAnyEvent: any}
	case "mixed-ns":
		return neffos.Namespaces{"": {neffos.OnNativeMessage: rec}, "x": {neffos.OnAnyEvent: any, neffos.OnNativeMessage: rec}}
	case "none":
		return neffos.Events{"m": rec, neffos.OnAnyEvent: any}
	case "none-x": // declared, but not on the empty namespace
		return neffos.Namespaces{"": {neffos.OnAnyEvent: any}, "x": {neffos.OnNativeMessage: rec, neffos.OnAnyEvent: any}}
	}
	panic(cfg)
}

// payloads: everything up to a length over the alphabet, and messages and handshakes of the library itself
func payloads() [][]byte {
	alpha := []byte{';', 'M', 'A', 'H', '0', '1', '$', 'a', 0, 0xff}
	var out [][]byte
	level := [][]byte{{}}
	for n := 0; n < mc.Pick(3, 4); n++ {
		var next [][]byte
		for _, p := range level {
			for _, c := range alpha {
				next = append(next, append(append([]byte(nil), p...), c))
			}
		}
		out = append(out, next...)
		level = next
	}
	for n := 3; n <= 9; n++ {
		out = append(out, []byte(strings.Repeat(";", n)), []byte(strings.Repeat("a;", n)))
	}
	for _, s := range []string{"Aid", "Herror", "M;;;;;;", ";;;m;0;0;body", ";x;;m;0;0;body", ";;;m;1;0;error", "$1;;;_OnNamespaceConnect;0;0;", "1;;;;;;", "x!1;;;m;0;0;b",
		";;;_OnNativeMessage;0;0;inner", ";x;;_OnNativeMessage;0;0;inner", "neffos(0x1(a));;;m;0;0;b", "@%!semicolon@%!", "{\"a\":\"b;c;d;e;f;g;h\"}", "hello, world\n", "\u00e9\u4e16\u754c", strings.Repeat("long ", 2000)} {
		out = append(out, []byte(s))
	}
	return out
}

func init() {
	isLib := func(p []byte) bool { return bytes.Count(p, []byte(";")) >= 6 }
	// a raw peer (any websocket client) and a server
	rawPeer := func(cfg string) func() {
		return func() {
			w := newWorld()
			only := strings.HasPrefix(cfg, "only")
			var p *lib.End
			var a *lib.Accepted
			lib.Setup(func() {
				w.host(w.nativeHandler(cfg))
				p, a = w.h.Raw("a")
				if !only {
					p.WriteText([]byte("M"), 0)
					p.WriteText([]byte("$1;;;_OnNamespaceConnect;0;0;"), 0)
				}
			})
			vsched.Explore(false)
			for i, body := range payloads() {
				for _, bin := range []bool{false, true} {
					if !only && bytes.HasPrefix(body, []byte(";")) && bytes.Contains(body, []byte("_On")) {
						continue
					}
					if bytes.HasPrefix(body, []byte("$1;")) && !only {
						continue
					}
					w.log("S").L = nil
					n := len(a.Server.Sent)
					if bin {
						p.WriteBinary(body, 0)
					} else {
						p.WriteText(body, 0)
					}
					lib.Settle()
					want := []string{fmt.Sprintf("|%s|%v|%q", neffos.OnNativeMessage, bin, body)}
					if strings.HasPrefix(cfg, "none") {
						want = nil
					}
					if !only && isLib(body) {
						// a message of the library: it is not native
						for _, e := range w.log("S").L {
							lib.Check(!strings.Contains(e, neffos.OnNativeMessage), "%s: message %q was delivered as native", cfg, body)
						}
						continue
					}
					got := w.log("S").L
					lib.Check(fmt.Sprint(got) == fmt.Sprint(want), "%s: payload %d %q ran %v, expected %v", cfg, i, body, got, want)
					lib.Check(len(a.Server.Sent) == n, "%s: payload %q was answered with %q", cfg, body, texts(a.Server.Sent[n:]))
					mc.Cases(1)
				}
			}
			if only {
				lib.Check(len(a.Server.Sent) == 0, "%s: the server wrote %q on its own", cfg, texts(a.Server.Sent))
			}
			lib.Check(!a.Conn.IsClosed(), "%s: the connection was closed", cfg)
			// and back: what is written as native is the body alone
			for _, body := range payloads() {
				for _, bin := range []bool{false, true} {
					if strings.HasPrefix(cfg, "none") {
						break
					}
					n := len(a.Server.Sent)
					ok := a.Conn.Write(neffos.Message{Body: body, IsNative: true, SetBinary: bin})
					fs := a.Server.Sent[n:]
					lib.Check(ok && len(fs) == 1 && bytes.Equal(fs[0].Data, body) && (fs[0].Typ == neffos.BinaryMessage) == bin, "%s: native %q was written as %q", cfg, body, texts(fs))
					mc.Cases(1)
				}
			}
			if !strings.HasPrefix(cfg, "none") {
				n := len(a.Server.Sent)
				w.srv.Broadcast(nil, neffos.Message{Body: []byte("all;of;you"), IsNative: true})
				lib.Settle()
				fs := a.Server.Sent[n:]
				lib.Check(len(fs) == 1 && string(fs[0].Data) == "all;of;you", "%s: a native broadcast was written as %q", cfg, texts(fs))
			}
		}
	}
	// a neffos client and a neffos server of the same configuration, both directions, every schedule
	both := func(cfg string) func() {
		return func() {
			w := newWorld()
			only := strings.HasPrefix(cfg, "only")
			h := w.nativeHandler(cfg)
			var c, s *neffos.Conn
			lib.Setup(func() {
				w.host(h)
				c = lib.ConnOf(w.dial("a", h))
				s = w.conn("S", "a")
				if !only {
					_, err := c.Connect(bg, "")
					lib.Must("connect", err)
				}
			})
			ps := []string{"one", ";two;", "M", "A1", "H"}
			if only {
				ps = append(ps, ";;;m;0;0;b", "$1;;;_OnNamespaceConnect;0;0;")
			}
			i := vsched.Choose(len(ps))
			send := func(k *neffos.Conn, t string) func() {
				return func() {
					lib.Check(k.Write(neffos.Message{Body: []byte(ps[i]), IsNative: true}), "Write failed")
					lib.Check(k.Write(neffos.Message{Body: []byte(t), IsNative: true, SetBinary: true}), "Write failed")
				}
			}
			vsched.Par(send(c, "c1"), send(s, "s1"), func() { w.srv.Broadcast(nil, neffos.Message{Body: []byte("b"), IsNative: true}) })
			lib.Settle()
			nat := func(s string, bin bool) string {
				return fmt.Sprintf("|%s|%v|%q", neffos.OnNativeMessage, bin, s)
			}
			lib.Check(fmt.Sprint(w.log("S").L) == fmt.Sprint([]string{nat(ps[i], false), nat("c1", true)}), "%s: the server got %v", cfg, w.log("S"))
			var own []string
			for _, e := range w.log("C").L {
				if e != nat("b", false) {
					own = append(own, e)
				}
			}
			lib.Check(fmt.Sprint(own) == fmt.Sprint([]string{nat(ps[i], false), nat("s1", true)}) && len(w.log("C").L) == 3, "%s: the client got %v", cfg, w.log("C"))
			vsched.SetOutcome(w.log("C").String())
		}
	}
	// native payloads sent at once, before the server's OnConnect finished
	early := func(refuse bool) func() {
		return func() {
			w := newWorld()
			w.host(w.nativeHandler("only"))
			if refuse {
				w.onsrv = func(c *neffos.Conn) error { return veto("no") }
			}
			p, a := w.h.Raw("a")
			p.WriteText([]byte("M"), 0)
			p.WriteText([]byte("two"), 0)
			lib.Settle()
			if refuse {
				lib.Check(a.Server.Closed() && w.srv.GetTotalConnections() == 0, "a refused native connection stays open")
				return
			}
			lib.Check(a.Done && a.Conn != nil && !a.Conn.IsClosed(), "not connected")
			want := fmt.Sprintf("|%s|false|%q |%s|false|%q", neffos.OnNativeMessage, "M", neffos.OnNativeMessage, "two")
			lib.Check(w.log("S").String() == want, "got %s", w.log("S"))
		}
	}
	// a native message and library messages on one mixed connection keep apart and in order
	mixed := func() {
		w := newWorld()
		h := w.nativeHandler("mixed-ns")
		var c, s *neffos.Conn
		lib.Setup(func() {
			w.host(h)
			c = lib.ConnOf(w.dial("a", h))
			s = w.conn("S", "a")
			for _, n := range []string{"", "x"} {
				_, err := c.Connect(bg, n)
				lib.Must("connect", err)
			}
		})
		k, side := c, "S"
		if vsched.Choose(2) == 1 {
			k, side = s, "C"
		}
		lib.Check(k.Write(msg("x", "", "e", "1")) && k.Write(neffos.Message{Body: []byte("2"), IsNative: true}) && k.Write(msg("x", "", "e", "3")) &&
			k.Write(neffos.Message{Namespace: "x", Event: "e", Body: []byte("4;4"), IsNative: true}), "Write failed")
		lib.Settle()
		nat := "|" + neffos.OnNativeMessage + "|false|"
		want := fmt.Sprintf("x|e|false|%q %s%q x|e|false|%q %s%q", "1", nat, "2", "3", nat, "4;4")
		lib.Check(w.log(side).String() == want, "got %s, expected %s", w.log(side), want)
	}
	for _, cfg := range []string{"only", "only-ns", "only-timeout", "only-join", "mixed-events", "mixed-any", "mixed-ns", "none", "none-x"} {
		mc.Register("C16", &mc.Scenario{Name: "raw-" + cfg, Body: rawPeer(cfg), Bound: 0, Deep: 0, MaxSteps: 1 << 20})
		if !strings.HasPrefix(cfg, "none") {
			mc.Register("C16", &mc.Scenario{Name: "both-" + cfg, Body: both(cfg), Bound: 2, Deep: 3, Policies: polTwo})
		}
	}
	mc.Register("C16", &mc.Scenario{Name: "mixed-order", Body: mixed, Bound: 2, Deep: 3, Policies: polTwo})
	mc.Register("C16", &mc.Scenario{Name: "early", Body: early(false), Bound: 3, Deep: 4, Policies: polTwo})
	c16 := mc.Register("C16", &mc.Scenario{Name: "early-refused", Body: early(true), Bound: 3, Deep: 4, Policies: polTwo})
	c16.Rule = "all payloads up to length 3 (thorough: 4) over separators, handshake bytes, digits, NUL and non-UTF-8, and crafted library messages and handshakes, text and binary, from and to a raw peer, for nine native/mixed/plain configurations; native traffic of both sides and a broadcast interleaved up to the bound; payloads racing with the server's OnConnect."
}
