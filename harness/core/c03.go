package main

import (
	"errors"
	"fmt"
	"io"
	"net/http"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

func init() {
	// dial against every kind of OnConnect
	dial := func(kind string) func() {
		return func() {
			w := newWorld()
			w.host(w.nss("x"))
			if kind == "none" {
				w.srv.OnConnect = nil
			}
			var onErr error
			var seen []string
			w.onsrv = func(c *neffos.Conn) error {
				seen = append(seen, c.ID())
				switch kind {
				case "broadcast-refuse":
					w.srv.Broadcast(nil, msg("x", "", "m", "hi"))
					lib.Check(!c.Write(msg("x", "", "m", "hi")), "Write to a namespace that is not connected succeeds")
					return errors.New("nope: go away")
				case "refuse", "sync-broadcast+refuse", "broadcast+refuse", "do+refuse":
					return errors.New("nope: go away")
				case "refuse-empty":
					return errors.New("")
				case "connect", "connect-refuse":
					ns, err := c.Connect(bg, "x")
					onErr = err
					if err == nil {
						ns.Emit("m", []byte("welcome"))
					}
					if kind == "connect-refuse" {
						return errors.New("nope")
					}
				case "sleep":
					sleepV(30 * time.Millisecond)
				}
				return nil
			}
			var cl *neffos.Client
			var err error
			if other, _, ok := strings.Cut(kind, "+"); ok {
				w.srv.SyncBroadcaster = strings.HasPrefix(other, "sync")
				vsched.Par(func() { cl, err = neffos.Dial(nil, w.h.Dialer("a"), "ws://mem/", w.nss("x")) }, func() {
					if other == "do" {
						w.srv.Do(func(c *neffos.Conn) { c.Write(msg("x", "", "m", "hi")) }, false)
					} else {
						w.srv.Broadcast(nil, msg("x", "", "m", "hi"))
					}
				})
			} else {
				cl, err = neffos.Dial(nil, w.h.Dialer("a"), "ws://mem/", w.nss("x"))
			}
			a := w.h.Get("a")
			switch kind {
			case "refuse", "refuse-empty", "broadcast-refuse", "sync-broadcast+refuse", "broadcast+refuse", "do+refuse":
				want := "nope: go away"
				if kind == "refuse-empty" {
					want = ""
				}
				lib.Check(cl == nil && err != nil && err.Error() == want, "Dial of a refused connection returned %v, error %q, expected error %q", cl, errText(err), want)
				lib.Settle()
				lib.Check(a.Client.Closed() && a.Server.Closed(), "the refused connection was not ended (client closed %v, server closed %v)", a.Client.Closed(), a.Server.Closed())
				lib.Check(a.Done && a.Conn == nil && sameErr(a.Err, want), "Upgrade of a refused connection returned %v, %v", a.Conn, a.Err)
				lib.Check(w.srv.GetTotalConnections() == 0, "refused connection is still registered")
				lib.Check(w.sdisc.String() == "", "OnDisconnect fired for a refused connection")
			case "connect-refuse":
				// the OnConnect let the client through (it waited for its namespace) and then refused
				if err != nil {
					lib.Check(cl == nil, "Dial returned both a client and an error")
				}
				lib.Settle()
				vsched.Elapse(int64(time.Second))
				lib.Settle()
				lib.Check(a.Client.Closed() && a.Server.Closed(), "the refused connection was not ended")
				lib.Check(w.srv.GetTotalConnections() == 0, "refused connection is still registered")
				l := w.log("S:a").L
				lib.Check(count(l, "disconnect(") == count(l, "connected("), "server side tore down wrongly: %v", l)
			default:
				lib.Check(err == nil && cl != nil, "Dial failed: %v", err)
				lib.Check(cl.ID == "a", "Dial returned ID %q, the server chose %q", cl.ID, "a")
				ns, e := cl.Connect(bg, "x")
				lib.Check(e == nil, "Connect after Dial: %v", e)
				lib.Check(ns.Emit("m", []byte("1")) && ns.Emit("m", []byte("2")), "Emit after Dial failed")
				lib.Settle()
				vsched.Elapse(int64(time.Second))
				lib.Settle()
				lib.Check(a.Done && a.Err == nil && a.Conn != nil && a.Conn.ID() == cl.ID, "Upgrade returned %v, %v", a.Conn, a.Err)
				lib.Check(a.Conn == w.conn("S", "a") && lib.ConnOf(cl).ID() == "a", "the connection's ID differs between the sides")
				l := w.log("S:a").L
				lib.Check(count(l, "m(") == 2 && firstOf(l, "m(x)=1") < firstOf(l, "m(x)=2"), "messages sent after Dial: %v", l)
				if kind == "connect" {
					lib.Check(onErr == nil, "Connect inside OnConnect: %v", onErr)
					lc := w.log("C:a").L
					lib.Check(count(lc, "m(x)=welcome") == 1 && count(lc, "connected(") == 1, "client handled %v", lc)
				}
				if kind != "none" {
					lib.Check(strings.Join(seen, " ") == "a", "OnConnect calls: %v", seen)
				}
				lib.Check(w.srv.GetTotalConnections() == 1, "%d connections registered", w.srv.GetTotalConnections())
			}
			lib.Check(a.Client.MaxReaders <= 1 && a.Server.MaxReaders <= 1, "two readers on one socket")
			vsched.SetOutcome(fmt.Sprint(kind, errText(err), w.log("S:a"), w.log("C:a")))
		}
	}

	// every way to come in: reconnecting clients, other IDs, wrapped sockets, other contexts
	variants := func() {
		w := newWorld()
		var h neffos.ConnHandler = w.nss("x")
		if vsched.Choose(2) == 1 {
			h = neffos.WithTimeout{ReadTimeout: time.Hour, WriteTimeout: time.Minute, Namespaces: w.nss("x")}
		}
		w.host(h)
		id := []string{"a", "a;b", "A", "M", "neffos(0x", "x y/\u00e9", " a\n", "", strings.Repeat("id", 50), strings.Repeat("i", 5000)}[vsched.Choose(10)]
		verdict := []string{"ok", "refuse", "none"}[vsched.Choose(3)]
		refusal := "no " + id
		if verdict == "refuse" {
			refusal = []string{refusal, " no\n", "A", "bad namespace", "\x00;;", strings.Repeat("long ", 1000)}[vsched.Choose(6)]
		}
		hdr := http.Header{}
		if vsched.Choose(2) == 1 {
			hdr.Set("X-Websocket-Reconnect", "2")
		}
		wrapped := 0
		if vsched.Choose(2) == 1 {
			w.h.Wrap = func(s neffos.Socket) neffos.Socket { wrapped++; return s }
			w.h.IDGen = func(http.ResponseWriter, *http.Request) string { return "gen:" + id }
		}
		wantID := id
		if w.h.IDGen != nil {
			wantID = "gen:" + id
		}
		seen := ""
		w.srv.OnConnect = func(c *neffos.Conn) error {
			seen = c.ID()
			sleepV(time.Millisecond)
			if verdict == "refuse" {
				return errors.New(refusal)
			}
			return nil
		}
		if verdict == "none" {
			w.srv.OnConnect = nil
		}
		cl, err := neffos.Dial(nil, w.h.DialerHdr(id, hdr), "ws://mem/", h)
		if verdict == "refuse" {
			lib.Check(cl == nil && sameErr(err, refusal), "Dial of a refused connection returned %v, %v", cl, err)
			lib.Settle()
			lib.Check(w.h.Get(id).Client.Closed() && w.h.Get(id).Server.Closed() && w.srv.GetTotalConnections() == 0, "the refused connection was not ended")
			lib.Check(len(w.logs) == 0, "callbacks of a refused connection: %v", w.logs)
			return
		}
		lib.Check(err == nil && cl != nil, "Dial failed: %v", err)
		lib.Check(cl.ID == wantID && lib.ConnOf(cl).ID() == wantID, "Dial returned ID %q, the server chose %q", cl.ID, wantID)
		lib.Check(verdict == "none" || seen == wantID, "OnConnect saw ID %q, expected %q", seen, wantID)
		_, err = cl.Connect(bg, "x")
		lib.Check(err == nil, "Connect: %v", err)
		lib.Settle()
		sc := w.h.Get(id).Conn
		lib.Check(sc != nil && sc.ID() == wantID && w.srv.GetConnections()[wantID] == sc, "the server's connection is not the one with ID %q", wantID)
		lib.Check(sc.WasReconnected() == (len(hdr) > 0), "WasReconnected is %v", sc.WasReconnected())
		lib.Check((w.h.Wrap != nil) == (wrapped == 1), "the socket was wrapped %d times", wrapped)
	}

	// a raw peer that sends frames before, around and after the handshake byte
	early := func(refuse bool) func() {
		return func() {
			w := newWorld()
			w.host(w.nss("x"))
			w.onsrv = func(c *neffos.Conn) error {
				if refuse {
					return errors.New("nope")
				}
				return nil
			}
			before := vsched.Choose(5) // how many of the frames go out before the handshake
			frames := []string{"$1;x;;_OnNamespaceConnect;0;0;", ";x;;m;0;0;one", "$2;x;r;_OnRoomJoin;0;0;", ";x;r;m;0;0;two"}
			peer, acc := w.h.Raw("a")
			for i, f := range frames {
				if i == before {
					peer.WriteText([]byte("M"), 0)
				}
				peer.WriteText([]byte(f), 0)
			}
			if before == 4 {
				peer.WriteText([]byte("M"), 0)
			}
			lib.Settle()
			l := w.log("S:a").L
			if refuse {
				lib.Check(len(l) == 0, "a refused connection's messages reached callbacks: %v", l)
				lib.Check(len(acc.Server.Sent) == 1 && string(acc.Server.Sent[0].Data) == "Hnope", "a refused peer was sent %v", texts(acc.Server.Sent))
				lib.Check(acc.Server.Closed(), "refused connection was not ended")
				return
			}
			want := "connect(x) connected(x) m(x)=one join(x/r) joined(x/r) m(x/r)=two"
			lib.Check(strings.Join(l, " ") == want, "messages sent around the handshake (%d before it) were handled as %v, expected %s", before, l, want)
			s := texts(acc.Server.Sent)
			lib.Check(len(s) == 3 && s[0] == "Aa", "the peer was sent %q", s)
			lib.Check(strings.HasPrefix(s[1], "$1;") && strings.HasPrefix(s[2], "$2;"), "the peer was sent %q", s)
			vsched.SetOutcome(strings.Join(s, " "))
		}
	}

	// and a callback of one of these frames asks the peer, whose other frames are handled meanwhile, in order too
	earlyAsk := func() {
		w := newWorld()
		w.host(w.nss("x"))
		before, when := vsched.Choose(6), vsched.Choose(6) // frames before the handshake, and the one that asks
		frames := []string{"$1;x;;_OnNamespaceConnect;0;0;", ";x;;m;0;0;1", ";x;;m;0;0;2", ";x;;m;0;0;3", ";x;;m;0;0;4"}
		asked := ""
		var err error
		w.on = func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
			if when == 0 && m.Event == neffos.OnNamespaceConnected || string(m.Body) == fmt.Sprint(when) {
				r, e := c.Conn.Ask(bg, neffos.Message{Namespace: "x", Event: "q"})
				asked, err = string(r.Body), e
			}
			return nil
		}
		peer, acc := w.h.Raw("a")
		for i, f := range frames {
			if i == before {
				peer.WriteText([]byte("M"), 0)
			}
			peer.WriteText([]byte(f), 0)
		}
		if before == 5 {
			peer.WriteText([]byte("M"), 0)
		}
		lib.Settle()
		want := "connect(x) connected(x) m(x)=1 m(x)=2 m(x)=3 m(x)=4"
		got := strings.Join(w.log("S:a").L, " ")
		lib.Check(got == want, "frames sent around the handshake (%d before it; number %d makes its callback ask, which waits): handled %s, expected %s", before, when, got, want)
		for _, f := range texts(acc.Server.Sent) {
			if tok, rest, _ := strings.Cut(f, ";"); rest == "x;;q;0;0;" {
				peer.WriteText([]byte(tok+";x;;q;0;0;answer"), 0)
			}
		}
		peer.WriteText([]byte(";x;;m;0;0;end"), 0)
		lib.Settle()
		lib.Check(when == 5 || asked == "answer" && err == nil, "the ask inside the callback returned %q, %v", asked, err)
		got = strings.Join(w.log("S:a").L, " ")
		lib.Check(strings.HasPrefix(got, want+" m(x)=end"), "then handled %s, expected %s", got, want+" m(x)=end")
	}

	// the same on the client's side: a raw server that sends frames around its answer
	earlyClient := func(refuse bool) func() {
		return func() {
			w := newWorld()
			before := vsched.Choose(3)
			cli, srv := lib.Pair("cli", "srv")
			vsched.GoNamed("rawserver", func() {
				frames := []string{"1;x;;_OnNamespaceConnect;0;0;", ";x;;m;0;0;one"}
				ack := "Aa"
				if refuse {
					ack = "Hnope"
				}
				b, _, _ := srv.ReadData(0)
				lib.Check(string(b) == "M", "the client's first frame is %q", b)
				for i, f := range frames {
					if i == before {
						srv.WriteText([]byte(ack), 0)
					}
					srv.WriteText([]byte(f), 0)
				}
				if before == 2 {
					srv.WriteText([]byte(ack), 0)
				}
			})
			cl, err := neffos.Dial(nil, dialEnd(cli), "mem", w.nss("x"))
			lib.Settle()
			if refuse {
				lib.Check(cl == nil && sameErr(err, "nope"), "Dial returned %v, %v", cl, err)
				lib.Check(cli.Closed(), "the client's socket is left open")
				lib.Check(len(w.logs) == 0, "callbacks ran on a refused connection: %v", w.logs)
				return
			}
			lib.Check(err == nil && cl.ID == "a", "Dial returned %v", err)
			want := "connect(x) connected(x) m(x)=one"
			lib.Check(w.log("C:a").String() == want, "the client handled %v, expected %s", w.log("C:a"), want)
		}
	}

	// the connection breaks, or the server goes away, at every point of the handshake
	broken := func() {
		w := newWorld()
		w.host(w.nss("x"))
		fault := vsched.Choose(7)
		switch fault {
		case 0:
			w.h.Fail = errors.New("upgrade failed")
		}
		var cl *neffos.Client
		var err error
		returned := false
		vsched.GoNamed("dialer", func() {
			cl, err = neffos.Dial(nil, func2(w.h.Dialer("a"), func(e *lib.End) {
				switch fault {
				case 1:
					e.BreakWrite = io.ErrClosedPipe
				case 2:
					e.BreakRead = io.EOF
				case 3:
					e.Peer().BreakRead = io.EOF
				case 4:
					e.Peer().BreakWrite = io.ErrClosedPipe
				}
			}), "ws://mem/", w.nss("x"))
			returned = true
		})
		switch fault {
		case 5:
			vsched.GoNamed("closer", func() { w.srv.Close() })
		case 6:
			vsched.GoNamed("cutter", func() {
				vsched.Block("upgraded", func() bool { return len(w.h.Conns) > 0 })
				w.h.Conns[0].Server.Shut()
			})
		}
		lib.Settle()
		if fault == 4 {
			// writes that fail without the connection being broken: the server gives up after its answer failed
			lib.Check(returned, "Dial does not return although the server's answer failed")
		}
		lib.Check(returned, "Dial does not return (fault %d)", fault)
		lib.Check((cl == nil) == (err != nil), "Dial returned %v, %v", cl, err)
		if fault == 1 || fault == 2 || fault == 3 || fault == 4 {
			lib.Check(err != nil, "Dial succeeded over a broken connection (fault %d)", fault)
		}
		if err == nil {
			cl.Close()
		}
		lib.Settle()
		lib.Check(w.srv.GetTotalConnections() == 0, "connection registered after the end (fault %d)", fault)
		vsched.SetOutcome(fmt.Sprint(fault, errText(err)))
	}

	// two clients at once, one refused
	two := func() {
		w := newWorld()
		refuse := vsched.Choose(2) == 0
		w.host(w.nss("x"))
		w.onsrv = func(c *neffos.Conn) error {
			if c.ID() == "b" && refuse {
				return errors.New("not b")
			}
			return nil
		}
		var ca, cb *neffos.Client
		var ea, eb error
		vsched.Par(
			func() { ca, ea = neffos.Dial(nil, w.h.Dialer("a"), "ws://mem/", w.nss("x")) },
			func() { cb, eb = neffos.Dial(nil, w.h.Dialer("b"), "ws://mem/", w.nss("x")) })
		lib.Check(ea == nil && ca.ID == "a", "accepted client: %v", ea)
		if !refuse {
			lib.Check(eb == nil && cb.ID == "b", "second accepted client: %v", eb)
			lib.Settle()
			lib.Check(w.srv.GetTotalConnections() == 2, "%d connections registered", w.srv.GetTotalConnections())
			return
		}
		lib.Check(cb == nil && sameErr(eb, "not b"), "refused client: %v", eb)
		lib.Settle()
		lib.Check(w.srv.GetTotalConnections() == 1, "%d connections registered", w.srv.GetTotalConnections())
	}

	c := mc.Register("C03",
		&mc.Scenario{Name: "early-frames", Body: early(false), Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "early-frames-refused", Body: early(true), Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "early-frames-ask", Body: earlyAsk, Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "early-frames-client", Body: earlyClient(false), Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "early-frames-client-refused", Body: earlyClient(true), Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "broken", Body: broken, Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "variants", Body: variants, Bound: 1, Deep: 2, Policies: polTwo},
		&mc.Scenario{Name: "two-clients", Body: two, Bound: 2, Deep: 2, Policies: polTwo},
	)
	for _, k := range []string{"none", "ok", "refuse", "refuse-empty", "connect", "connect-refuse", "sleep", "broadcast-refuse", "sync-broadcast+refuse", "broadcast+refuse", "do+refuse"} {
		mc.Register("C03", &mc.Scenario{Name: "dial-" + k, Body: dial(k), Bound: 2, Deep: 3, Policies: polSome})
	}
	c.Rule = "dialing client, accepting server, both readers and the server loop interleaved up to the bound, for every behaviour of OnConnect; frames placed at every position around the handshake, faults at every frame of it."
}

func texts(fs []lib.Frame) []string {
	var out []string
	for _, f := range fs {
		out = append(out, string(f.Data))
	}
	return out
}
