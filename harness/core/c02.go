package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// recv is the reference model of how one side treats the frames of its (arbitrary) peer.
type recv struct {
	client  bool
	id      string
	acked   bool
	closed  bool
	queue   []string
	held    map[string]map[string]bool
	decl    map[string]bool
	events  []string // callbacks
	answers []string // frames written back: wait|error?|body
}

func (r *recv) answer(wait, err, body string) { r.answers = append(r.answers, wait+"|"+err+"|"+body) }
func (r *recv) fire(f string, a ...any)       { r.events = append(r.events, fmt.Sprintf(f, a...)) }

func (r *recv) frame(f string) {
	if r.closed || f == "" {
		return
	}
	if !r.acked {
		switch {
		case f[0] == 'M' && !r.client:
			r.acked = true
			r.answers = append(r.answers, "A"+r.id)
		case f[0] == 'A' && r.client:
			r.acked = true
		case f[0] == 'M' || f[0] == 'A' || f[0] == 'H':
			r.closed = true
			return
		default:
			r.queue = append(r.queue, f)
			return
		}
		for _, q := range r.queue {
			r.handle(q)
		}
		return
	}
	r.handle(f)
}

func (r *recv) handle(f string) {
	p := strings.SplitN(f, ";", 7)
	if len(p) != 7 {
		return
	}
	wait, ns, room, ev, isErr, noop, body := p[0], p[1], p[2], p[3], p[4] == "1", p[5] == "1", p[6]
	if strings.HasPrefix(wait, "neffos(0x") {
		wait = ""
	}
	if wait != "" && !r.client && wait[0] != '$' {
		return // a reply to nothing
	}
	where := "(" + ns
	if room != "" {
		where += "/" + room
	}
	where += ")"
	rooms, held := r.held[ns]
	ask := wait != "" && !noop
	switch ev {
	case "_OnNamespaceConnect":
		switch {
		case !ask:
		case held:
			r.answer(wait, "", "")
		case !r.decl[ns]:
			r.answer(wait, "1", "bad namespace")
		default:
			r.fire("connect%s", where)
			r.held[ns] = map[string]bool{}
			r.answer(wait, "", "")
			r.fire("connected%s", where)
		}
	case "_OnNamespaceDisconnect":
		if !ask {
			return
		}
		if held {
			leave := func() {
				var rs []string
				for x := range rooms {
					rs = append(rs, x)
				}
				sort.Strings(rs)
				for _, x := range rs {
					n := ns
					if x != "" {
						n += "/" + x
					}
					r.fire("leave(%s)F", n)
					r.fire("left(%s)F", n)
				}
			}
			if r.client {
				leave()
				r.fire("disconnect%s", where)
			} else {
				r.fire("disconnect%s", where)
				leave()
			}
			delete(r.held, ns)
		}
		r.answer(wait, "", "")
	case "_OnRoomJoin", "_OnRoomLeave":
		if !held {
			if wait != "" {
				r.answer(wait, "1", "bad namespace")
			}
			return
		}
		if !ask {
			return
		}
		join := ev == "_OnRoomJoin"
		if rooms[room] != join {
			name := map[bool]string{true: "join", false: "leave"}[join]
			past := map[bool]string{true: "joined", false: "left"}[join]
			r.fire("%s%s", name, where)
			r.fire("%s%s", past, where)
			if join {
				rooms[room] = true
			} else {
				delete(rooms, room)
			}
		}
		r.answer(wait, "", "")
	default:
		if !held {
			if wait != "" {
				r.answer(wait, "1", "bad namespace")
			}
			return
		}
		switch ev {
		case "m", "n", "ask":
			e := ev + where + "="
			if isErr {
				e += "!" + body
				body = ""
			} else {
				e += body
			}
			r.fire("%s", e)
			if ev == "ask" {
				if wait != "" || room == "" || rooms[room] {
					r.answer(wait, "", "re:"+body)
				}
			}
		}
	}
}

// sorted turns every run of forced leave/left pairs into a canonical order.
func parseAnswers(fs []lib.Frame) []string {
	var out []string
	for _, f := range fs {
		p := strings.SplitN(string(f.Data), ";", 7)
		if len(p) != 7 {
			out = append(out, string(f.Data))
			continue
		}
		e := ""
		if p[4] == "1" {
			e = "1"
		}
		out = append(out, p[0]+"|"+e+"|"+p[6])
	}
	return out
}

var hostile = []string{
	"M", "Azz", "Hno", "x", ";;;;;", ";;;;;;", "$;;;;;;", "",
	"$1;x;;_OnNamespaceConnect;0;0;", ";x;;_OnNamespaceConnect;0;0;", "$1;x;;_OnNamespaceConnect;0;1;", "$1;zz;;_OnNamespaceConnect;0;0;",
	"$1;x;;_OnNamespaceDisconnect;0;0;", ";x;;_OnNamespaceDisconnect;0;0;",
	"$1;x;r;_OnRoomJoin;0;0;", "$1;x;;_OnRoomJoin;0;0;", "$1;y;r;_OnRoomJoin;0;0;", "$1;x;r;_OnRoomLeave;0;0;", ";x;r;_OnRoomLeave;0;0;",
	";x;r;_OnRoomJoin;0;0;", "$1;x;r;_OnRoomJoin;0;1;", "$1;x;r;_OnRoomLeave;0;1;", "$1;x;;_OnNamespaceDisconnect;0;1;",
	";x;;m;0;0;b", ";y;;m;0;0;b", "$2;x;;ask;0;0;q", "$2;y;;ask;0;0;q", ";x;;ask;0;0;q",
	"77;x;;m;0;0;late", "#7;x;;m;0;0;late", ";x;;m;1;0;boom", "neffos(0x1);x;r;m;0;0;spoof", "9!9;x;;m;0;0;z",
	";x;;zzz;0;0;b", ";x;r;m;0;0;roommsg", "$3;x;;m;0;0;noreply", ";x;r;ask;0;0;q", ";x;;m;2;7;b",
}

// frames whose treatment is not specified beyond "no harm"
var harmless = []string{
	";x;;_OnNamespaceConnected;0;0;", "$1;x;;_OnNamespaceConnected;0;0;", ";x;r;_OnRoomJoined;0;0;", "$1;x;r;_OnRoomLeft;0;0;", ";x;;_OnNativeMessage;0;0;b",
	"$1;x;;_OnAnyEvent;0;0;", "$1;;;_OnNamespaceConnect;0;0;", "neffos(0x1);x;;ask;0;0;q", "$!5;x;;ask;0;0;q", "$1;x;;ask;1;1;q", "$1;x;;;0;0;", "#;x;;ask;0;0;q",
	"$1;x;;_OnNamespaceConnect;1;0;err", "$1;x;;_OnNamespaceDisconnect;1;0;err", "$1;x;r;_OnRoomJoin;1;0;e", "$1;x;r;_OnRoomLeave;1;0;e",
	"$1;x;;_OnNamespaceConnect;0;0;", "$1;x;;_OnNamespaceDisconnect;0;0;", "$1;x;r;_OnRoomJoin;0;0;", "$1;x;r;_OnRoomLeave;0;0;", "M", "A", "H", "$!", "$!;;;;;;", "!", "\x00\xff", ";x;;m;0;0;\xff\x00;",
}

func askReply(w *world) func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
	return func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
		if m.Event == "ask" {
			return neffos.Reply([]byte("re:" + string(m.Body)))
		}
		return nil
	}
}

func init() {
	// a raw peer sends every sequence of frames to the server; another client lives on
	server := func(handshake bool, depth func() int) func() {
		return func() {
			w := newWorld()
			w.on = askReply(w)
			var bns *neffos.NSConn
			var peer *lib.End
			var acc *lib.Accepted
			lib.Setup(func() {
				w.host(w.nss("x", "y"))
				b := w.dial("b", w.nss("x", "y"))
				var err error
				bns, err = b.Connect(bg, "x")
				lib.Must("connect of b", err)
				peer, acc = w.h.Raw("a")
			})
			m := &recv{id: "a", held: map[string]map[string]bool{}, decl: map[string]bool{"x": true, "y": true}}
			var sent []string
			send := func(f string) {
				m.frame(f)
				sent = append(sent, f)
				peer.WriteText([]byte(f), 0)
				lib.Settle()
			}
			if handshake {
				send("M")
			}
			for i := 0; i < depth() && !m.closed; i++ {
				send(hostile[vsched.Choose(len(hostile))])
				lib.Check(acc.Server.Closed() == m.closed, "after %q the connection is closed=%v, expected %v", sent, acc.Server.Closed(), m.closed)
			}
			if !m.closed && !m.acked {
				send("M")
			}
			if !m.closed {
				send("$9;y;;_OnNamespaceConnect;0;0;")
				send("$8;y;;ask;0;0;alive")
			}
			got, want := canon(w.log("S:a").L), canon(m.events)
			lib.Check(strings.Join(got, " ") == strings.Join(want, " "), "frames %q ran callbacks %v, expected %v", sent, got, want)
			ga, wa := parseAnswers(acc.Server.Sent), m.answers
			lib.Check(strings.Join(ga, "\n") == strings.Join(wa, "\n"), "frames %q were answered %q, expected %q", sent, ga, wa)
			r, err := bns.Ask(bg, "ask", []byte("b"))
			lib.Check(err == nil && string(r.Body) == "re:b", "another connection's Ask: %q, %v", r.Body, err)
			lib.Check(strings.Join(w.log("S:b").L, " ") == "connect(x) connected(x) ask(x)=b", "another connection's callbacks: %v", w.log("S:b"))
			if !m.closed {
				lib.Check(stateOf(acc.Conn, "x", "y") == r2s(m.held), "the connection holds %s, expected %s after %q", stateOf(acc.Conn, "x", "y"), r2s(m.held), sent)
			}
			peer.Shut()
			lib.Settle()
			lib.Check(w.srv.GetTotalConnections() == 1, "%d connections remain", w.srv.GetTotalConnections())
			vsched.SetOutcome(fmt.Sprint(m.events, m.answers))
		}
	}

	// the same for a client whose server is hostile
	client := func(depth func() int) func() {
		return func() {
			w := newWorld()
			w.on = askReply(w)
			var cl *neffos.Client
			cli, srv := lib.Pair("cli", "srv")
			lib.Setup(func() {
				vsched.GoNamed("rawserver", func() {
					b, _, _ := srv.ReadData(0)
					lib.Check(string(b) == "M", "the client's first frame is %q", b)
					srv.WriteText([]byte("Aa"), 0)
				})
				var err error
				cl, err = neffos.Dial(nil, dialEnd(cli), "mem", w.nss("x", "y"))
				lib.Must("Dial", err)
			})
			m := &recv{client: true, id: "a", acked: true, held: map[string]map[string]bool{}, decl: map[string]bool{"x": true, "y": true}}
			var sent []string
			send := func(f string) {
				if strings.HasPrefix(f, "$") {
					f = f[1:] // a request of the server
				}
				m.frame(f)
				sent = append(sent, f)
				srv.WriteText([]byte(f), 0)
				lib.Settle()
			}
			menu := hostile
			for i := 0; i < depth(); i++ {
				f := menu[vsched.Choose(len(menu))]
				if strings.HasPrefix(f, "77") || strings.HasPrefix(f, "#7") || strings.HasPrefix(f, "9!") || strings.HasPrefix(f, "$;") {
					f = "x;" // tokens mean something else here
				}
				send(f)
			}
			send("9;y;;_OnNamespaceConnect;0;0;")
			send("8;y;;ask;0;0;alive")
			got, want := canon(w.log("C:a").L), canon(m.events)
			lib.Check(strings.Join(got, " ") == strings.Join(want, " "), "frames %q ran callbacks %v, expected %v", sent, got, want)
			ga, wa := parseAnswers(cli.Sent[1:]), m.answers
			lib.Check(strings.Join(ga, "\n") == strings.Join(wa, "\n"), "frames %q were answered %q, expected %q", sent, ga, wa)
			lib.Check(stateOf(lib.ConnOf(cl), "x", "y") == r2s(m.held), "the connection holds %s, expected %s after %q", stateOf(lib.ConnOf(cl), "x", "y"), r2s(m.held), sent)
			cl.Close()
			vsched.SetOutcome(fmt.Sprint(m.events, m.answers))
		}
	}

	// spoofed system events and odd tokens: no harm is all that is asked
	spoof := func(depth func() int) func() {
		return func() {
			w := newWorld()
			w.on = askReply(w)
			var peer *lib.End
			var acc *lib.Accepted
			lib.Setup(func() {
				w.host(w.nss("x", "y"))
				peer, acc = w.h.Raw("a")
			})
			at := vsched.Choose(2) // handshake before or after
			hs := func() { peer.WriteText([]byte("M"), 0) }
			if at == 0 {
				hs()
			}
			for i := 0; i < depth(); i++ {
				f := harmless[vsched.Choose(len(harmless))]
				typ := neffos.TextMessage
				if f[0] > 127 || f[0] == 0 {
					typ = neffos.BinaryMessage
				}
				_ = typ
				peer.WriteBinary([]byte(f), 0)
				lib.Settle()
				for _, e := range w.log("S:a").L {
					lib.Check(!strings.Contains(e, "(y"), "callback %s of a namespace that is not connected", e)
				}
			}
			if at == 1 {
				hs()
			}
			peer.WriteText([]byte("$9;y;;_OnNamespaceConnect;0;0;"), 0)
			peer.WriteText([]byte("$8;y;;ask;0;0;alive"), 0)
			lib.Settle()
			s := parseAnswers(acc.Server.Sent)
			alive := len(s) > 1 && s[len(s)-1] == "$8||re:alive" && s[len(s)-2] == "$9||"
			lib.Check(alive || acc.Server.Closed(), "the connection neither answers nor ends: %q", s)
		}
	}

	// the server waits for a reply of a hostile peer, which answers with anything
	waiting := func(op string) func() {
		return func() {
			w := newWorld()
			w.on = askReply(w)
			var peer *lib.End
			var acc *lib.Accepted
			lib.Setup(func() {
				w.host(w.nss("x", "y"))
				peer, acc = w.h.Raw("a")
				peer.WriteText([]byte("M"), 0)
				vsched.Quiesce()
				if op != "connect" {
					peer.WriteText([]byte("$1;x;;_OnNamespaceConnect;0;0;"), 0)
				}
				if op == "leave" {
					vsched.Quiesce()
					peer.WriteText([]byte("$2;x;r;_OnRoomJoin;0;0;"), 0)
				}
				vsched.Quiesce()
			})
			base := len(acc.Server.Sent)
			answers := []string{"T;;;;;;", "T;x;;_OnNamespaceConnect;0;1;", "T;zz;r;m;0;0;odd", "T;x;;m;1;0;refused", "T", "T;;", "$T;;;;;;", "T0;;;;;;", "#T;;;;;;", "T;;;;1;0;", ";x;;m;0;0;b", "x", "CLOSE", "T;;;;;;b;b"}
			var tok string
			vsched.GoNamed("rawpeer", func() {
				vsched.Block("request", func() bool { return len(acc.Server.Sent) > base })
				f := string(acc.Server.Sent[base].Data)
				tok = f[:strings.Index(f, ";")]
				for i := 0; i < 2; i++ {
					a := answers[vsched.Choose(len(answers))]
					if a == "CLOSE" {
						peer.Shut()
						return
					}
					peer.WriteText([]byte(strings.Replace(a, "T", tok, 1)), 0)
				}
			})
			ctx, cancel := lib.WithTimeout(time.Second)
			defer cancel()
			var err error
			var body string
			c := acc.Conn
			switch op {
			case "connect":
				_, err = c.Connect(ctx, "x")
			case "disconnect":
				err = c.Namespace("x").Disconnect(ctx)
			case "join":
				_, err = c.Namespace("x").JoinRoom(ctx, "q")
			case "leave":
				err = c.Namespace("x").Room("r").Leave(ctx)
			case "ask":
				var r neffos.Message
				r, err = c.Namespace("x").Ask(ctx, "anything", []byte("?"))
				body = string(r.Body)
			}
			lib.Settle()
			if c.IsClosed() {
				lib.Check(stateOf(c, "x", "y") == "", "closed connection holds %s", stateOf(c, "x", "y"))
			} else {
				// the outcome and the state agree
				want := map[string]map[bool]string{"connect": {true: "x[]", false: ""}, "disconnect": {true: "", false: "x[]"}, "join": {true: "x[q]", false: "x[]"}, "leave": {true: "x[]", false: "x[r]"}, "ask": {true: "x[]", false: "x[]"}}[op][err == nil]
				lib.Check(stateOf(c, "x") == want, "%s returned %v and the connection holds %q, expected %q", op, err, stateOf(c, "x"), want)
				if err != nil {
					lib.Check(err == ctx.Err() || err.Error() == "refused", "%s returned %v", op, err)
				}
				peer.WriteText([]byte("$9;y;;_OnNamespaceConnect;0;0;"), 0)
				peer.WriteText([]byte("$8;y;;ask;0;0;alive"), 0)
				lib.Settle()
				s := parseAnswers(acc.Server.Sent)
				lib.Check(len(s) > 1 && s[len(s)-1] == "$8||re:alive" && s[len(s)-2] == "$9||", "the connection stopped answering: %q", s)
			}
			vsched.SetOutcome(fmt.Sprint(errText(err), "|", body, "|", stateOf(c, "x")))
		}
	}

	// every short byte string and every one-byte change of good frames, to a side that takes every event of two connected namespaces
	malformed := func(clientSide bool) func() {
		return func() {
			vsched.Explore(false)
			var ran []string
			nss := neffos.Namespaces{}
			for _, n := range []string{"", "x"} {
				nss[n] = neffos.Events{neffos.OnAnyEvent: func(c *neffos.NSConn, m neffos.Message) error {
					ran = append(ran, evStr(m))
					if m.Event == "ask" {
						return neffos.Reply([]byte("re:" + string(m.Body)))
					}
					return nil
				}}
			}
			var peer, mine *lib.End
			tok := "$"
			if clientSide {
				tok = ""
				mine, peer = lib.Pair("cli", "srv")
				peer.WriteText([]byte("Aa"), 0)
				_, err := neffos.Dial(nil, dialEnd(mine), "mem", nss)
				lib.Must("dial", err)
			} else {
				h := lib.NewHost(nss)
				p, acc := h.Raw("a")
				peer, mine = p, acc.Server
				peer.WriteText([]byte("M"), 0)
			}
			lib.Settle()
			up := func() {
				peer.WriteText([]byte(tok+"1;;;_OnNamespaceConnect;0;0;"), 0)
				peer.WriteText([]byte(tok+"2;x;;_OnNamespaceConnect;0;0;"), 0)
				lib.Settle()
				lib.Check(!mine.Closed(), "the connection ended")
				ran = nil
			}
			up()
			one := func(f string, sep int) {
				for _, bin := range []bool{false, true} {
					if bin {
						peer.WriteBinary([]byte(f), 0)
					} else {
						peer.WriteText([]byte(f), 0)
					}
					lib.Settle()
					lib.Check(sep >= 6 || len(ran) == 0, "the malformed frame %q ran the callbacks %v", f, ran)
					if sep >= 6 && len(ran) > 0 {
						ns := strings.Split(f, ";")[1]
						lib.Check(ns == "" || ns == "x", "the frame %q for a namespace that is not connected ran %v", f, ran)
						up() // it may have been a disconnect
					}
					ran = nil
					mc.Cases(1)
				}
			}
			alive := func(what string) {
				n := len(mine.Sent)
				peer.WriteText([]byte(tok+"8;x;;ask;0;0;alive"), 0)
				lib.Settle()
				s := parseAnswers(mine.Sent[n:])
				lib.Check(len(s) == 1 && s[0] == tok+"8||re:alive", "after %s the connection answers %q", what, s)
				ran = nil
			}
			syms := []string{";", "0", "$", "x", "m", "\x00", "\xff"}
			var all func(pre string, sep, n int)
			all = func(pre string, sep, n int) {
				if pre != "" {
					one(pre, sep)
				}
				if n == 0 {
					return
				}
				for _, y := range syms {
					all(pre+y, sep+strings.Count(y, ";"), n-1)
				}
			}
			all("", 0, mc.Pick(6, 7))
			alive("all short frames")
			for _, f := range []string{";x;;m;0;0;b", tok + "7;x;r;ask;0;0;q", tok + "7;x;;_OnNamespaceConnect;0;0;", tok + "7;x;r;_OnRoomJoin;0;0;", ";;;m;1;0;e"} {
				for i := 0; i <= len(f); i++ {
					vs := []string{f[:i]}
					if i < len(f) {
						vs = append(vs, f[:i]+f[i+1:], f[i:])
						for _, y := range syms {
							vs = append(vs, f[:i]+y+f[i+1:])
						}
					}
					for _, y := range syms {
						vs = append(vs, f[:i]+y+f[i:])
					}
					for _, v := range vs {
						if v != "" {
							one(v, strings.Count(v, ";"))
						}
					}
				}
				up()
				alive("changes of " + f)
			}
		}
	}

	d := func(q, t int) func() int { return func() int { return mc.Pick(q, t) } }
	for _, cs := range []bool{false, true} {
		mc.Register("C02", &mc.Scenario{Name: map[bool]string{false: "malformed-server", true: "malformed-client"}[cs], Body: malformed(cs), Bound: 0, Deep: 0, MaxSteps: 1 << 26})
	}
	c := mc.Register("C02",
		&mc.Scenario{Name: "server", Body: server(true, d(3, 4)), Bound: 0, Deep: 0},
		&mc.Scenario{Name: "server-before-handshake", Body: server(false, d(3, 4)), Bound: 0, Deep: 0},
		&mc.Scenario{Name: "server-schedules", Body: server(true, d(2, 2)), Bound: 1, Deep: 2, Policies: polTwo},
		&mc.Scenario{Name: "client", Body: client(d(3, 4)), Bound: 0, Deep: 0},
		&mc.Scenario{Name: "client-schedules", Body: client(d(2, 2)), Bound: 1, Deep: 2, Policies: polTwo},
		&mc.Scenario{Name: "spoof", Body: spoof(d(3, 4)), Bound: 0, Deep: 0, Policies: polTwo},
	)
	for _, op := range []string{"connect", "disconnect", "join", "leave", "ask"} {
		mc.Register("C02", &mc.Scenario{Name: "waiting-" + op, Body: waiting(op), Bound: 1, Deep: 2, Policies: polTwo})
	}
	c.Rule = "every sequence of frames from a menu of malformed, spoofed, duplicated and well-formed frames (34 frames, depth 3; thorough 4), sent by a raw peer to the real server and by a raw server to the real client, compared frame by frame with a reference model of callbacks and answers; every pair of answers a hostile peer can give to each request of the server; every byte string of up to 6 (thorough 7) of 7 symbols and every one-byte deletion, change, insertion and cut of 5 good frames, as text and binary, to both sides."
}

func r2s(held map[string]map[string]bool) string {
	var ns []string
	for n := range held {
		var rs []string
		for r := range held[n] {
			rs = append(rs, r)
		}
		sort.Strings(rs)
		ns = append(ns, n+"["+strings.Join(rs, ",")+"]")
	}
	sort.Strings(ns)
	return strings.Join(ns, " ")
}
