package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// joinedPair is a connected pair, in namespace x (and room r when rooms is set).
func joinedPair(rooms bool, nss ...string) (w *world, c, s *neffos.Conn) {
	lib.Setup(func() {
		w, c, s = pairWorld(nss...)
		for _, n := range nss {
			ns, err := c.Connect(bg, n)
			lib.Must("connect", err)
			if rooms {
				_, err = ns.JoinRoom(bg, "r")
				lib.Must("join", err)
			}
		}
	})
	return
}

func pick(side byte, c, s *neffos.Conn) *neffos.Conn {
	if side == 'C' {
		return c
	}
	return s
}

// answer replies to a question the way the scenarios expect: "e:..." is an error, "k" the known error.
func answer(m neffos.Message) error {
	q := string(m.Body)
	switch {
	case q == "k":
		return knownErr
	case strings.HasPrefix(q, "e:"):
		return errors.New(q[2:])
	case q == "ns":
		return neffos.ErrBadNamespace
	}
	return neffos.Reply([]byte("re:" + q))
}

// checkAnswer verifies what an Ask of q must return.
func checkAnswer(who, q string, r neffos.Message, err error) {
	switch {
	case q == "k":
		lib.Check(err == knownErr, "%s: Ask %q returned %q, %v, expected the known error itself", who, q, r.Body, err)
	case q == "ns":
		lib.Check(err == neffos.ErrBadNamespace, "%s: Ask %q returned %q, %v, expected ErrBadNamespace", who, q, r.Body, err)
	case strings.HasPrefix(q, "e:"):
		lib.Check(err != nil && err.Error() == q[2:], "%s: Ask %q returned %q, %v", who, q, r.Body, err)
	default:
		lib.Check(err == nil && string(r.Body) == "re:"+q, "%s: Ask %q returned %q, %v", who, q, r.Body, err)
	}
}

// every kind of answer to every kind of question
func contents() {
	vsched.Explore(false)
	w, c, s := joinedPair(true, "x", "")
	var give error
	var seen []string
	w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
		if m.Event == "ask" {
			seen = append(seen, fmt.Sprintf("%s %s/%s %v %q", side, m.Namespace, m.Room, m.SetBinary, m.Body))
			return give
		}
		return nil
	}
	bodies := []string{"", "b", ";", ";;;;;;", "1", "0;1;", "M", "A", "H", "$1;x;;ask;0;0;b", "\x00", "\xff\xfe", "error", "bad namespace", "bad room", strings.Repeat("long;", 3000)}
	errs := []error{knownErr, neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite}
	for _, b := range bodies[1:] {
		errs = append(errs, errors.New(b))
	}
	for _, side := range "CS" {
		for _, ns := range []string{"x", ""} {
			for _, room := range []string{"", "r"} {
				for _, bin := range []bool{false, true} {
					k := pick(byte(side), c, s)
					ask := func(q string) (neffos.Message, error) {
						if ns == "x" && room == "" && !bin {
							return k.Namespace(ns).Ask(bg, "ask", []byte(q))
						}
						return k.Ask(bg, neffos.Message{Namespace: ns, Room: room, Event: "ask", Body: []byte(q), SetBinary: bin})
					}
					check := func(q string) {
						want := fmt.Sprintf("%s %s/%s %v %q", other(string(side)), ns, room, bin, q)
						lib.Check(len(seen) == 1 && seen[0] == want, "Ask %.30q: the other side saw %.100q, expected %.100q", q, seen, want)
						seen = nil
						mc.Cases(1)
					}
					for _, b := range bodies {
						for _, q := range []string{"", b} {
							give = neffos.Reply([]byte(b))
							r, err := ask(q)
							lib.Check(err == nil && r.Err == nil && string(r.Body) == b, "%c: Ask in %s/%s (binary %v) answered with %.30q returned %.30q, %v", side, ns, room, bin, b, r.Body, err)
							check(q)
						}
					}
					give = neffos.Reply(nil)
					r, err := ask("q")
					lib.Check(err == nil && len(r.Body) == 0, "%c: Ask answered with a nil body returned %q, %v", side, r.Body, err)
					check("q")
					for _, e := range errs {
						give = e
						r, err := ask("q")
						same := err == e
						if e != knownErr && e != neffos.ErrBadNamespace && e != neffos.ErrBadRoom && e != neffos.ErrWrite {
							same = err != nil && err.Error() == e.Error()
						}
						lib.Check(same, "%c: Ask answered with the error %.30q returned %.30q, %v", side, e, r.Body, err)
						check("q")
					}
				}
			}
		}
	}
}

func init() {
	// several goroutines of the given sides ask at once, while others emit
	asks := func(sides string, qs ...string) func() {
		return func() {
			w, c, s := joinedPair(false, "x")
			w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				if m.Event == "ask" {
					return answer(m)
				}
				return nil
			}
			var fs []func()
			emits := map[string]int{}
			for i := range sides {
				side := sides[i]
				q := qs[i]
				fs = append(fs, func() {
					k := pick(side, c, s)
					if q == "emit" {
						emits[other(string(side))]++
						lib.Check(k.Namespace("x").Emit("m", []byte(fmt.Sprint(i))), "Emit failed")
						return
					}
					r, err := k.Namespace("x").Ask(bg, "ask", []byte(q))
					checkAnswer(fmt.Sprintf("%c%d", side, i), q, r, err)
				})
			}
			vsched.Par(fs...)
			lib.Settle()
			for _, sd := range []string{"C", "S"} {
				l := w.log(sd + ":a").L
				lib.Check(count(l, "m(") == emits[sd], "side %s handled %v, expected %d emitted messages", sd, l, emits[sd])
				n := 0
				for i := range sides {
					if qs[i] != "emit" && other(string(sides[i])) == sd {
						n++
						lib.Check(count(l, "ask(x)="+qs[i]) >= 1, "side %s never handled question %q: %v", sd, qs[i], l)
					}
				}
				lib.Check(count(l, "ask(") == n, "side %s handled %d questions, expected %d: %v", sd, count(l, "ask("), n, l)
				lib.Check(count(l, "") == n+emits[sd]+2, "side %s ran other callbacks: %v", sd, l)
			}
			vsched.SetOutcome(w.log("C:a").String() + "|" + w.log("S:a").String())
		}
	}

	// Ask called from inside callbacks: the answer to the outer question needs an answer to an inner one
	nested := func(who string) func() {
		return func() {
			w, c, s := joinedPair(false, "x")
			w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				if m.Event != "ask" {
					return nil
				}
				q := string(m.Body)
				if strings.HasPrefix(q, "n") { // nested: ask the asker
					r, err := n.Ask(bg, "ask", []byte(q[1:]))
					checkAnswer("inside "+side, q[1:], r, err)
					return neffos.Reply([]byte("re:" + q))
				}
				return answer(m)
			}
			var fs []func()
			for i := range who {
				fs = append(fs, func() {
					q := fmt.Sprintf("nnq%d", i)
					r, err := pick(who[i], c, s).Namespace("x").Ask(bg, "ask", []byte(q))
					checkAnswer(who[i:i+1], q, r, err)
				})
			}
			vsched.Par(fs...)
			lib.Settle()
			lib.Check(count(w.log("C:a").L, "ask(")+count(w.log("S:a").L, "ask(") == 3*len(who), "questions handled: %v %v", w.log("C:a"), w.log("S:a"))
			a := w.h.Get("a")
			lib.Check(a.Client.MaxReaders <= 1 && a.Server.MaxReaders <= 1, "two readers on one socket")
			vsched.SetOutcome(w.log("C:a").String() + "|" + w.log("S:a").String())
		}
	}

	// Ask from the callbacks of connecting and joining, both sides at once
	early := func() {
		var w *world
		var c, s *neffos.Conn
		lib.Setup(func() { w, c, s = pairWorld("x") })
		who := []string{"C", "S", "CS"}[vsched.Choose(3)]
		asked := 0
		w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			switch {
			case m.Event == "ask":
				return answer(m)
			case strings.HasPrefix(ev, "connected(") && strings.Contains(who, side), strings.HasPrefix(ev, "joined(") && strings.Contains(who, side):
				r, err := n.Ask(bg, "ask", []byte(ev))
				checkAnswer("inside "+ev+" of "+side, ev, r, err)
				asked++
			}
			return nil
		}
		initiator := pick("CS"[vsched.Choose(2)], c, s)
		ns, err := initiator.Connect(bg, "x")
		lib.Must("connect", err)
		_, err = ns.JoinRoom(bg, "r")
		lib.Must("join", err)
		lib.Settle()
		lib.Check(asked == 2*len(who), "%d of the %d questions asked inside callbacks returned", asked, 2*len(who))
		vsched.SetOutcome(who + w.log("C:a").String() + "|" + w.log("S:a").String())
	}

	// Ask of a namespace or room this side or the other is not in
	bad := func() {
		w, c, s := joinedPair(false, "x")
		w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error { return answer(m) }
		k := pick("CS"[vsched.Choose(2)], c, s)
		switch vsched.Choose(3) {
		case 0:
			_, err := k.Ask(bg, msg("nope", "", "ask", "1"))
			lib.Check(err != nil, "Ask of a namespace that is not connected returned no error")
		case 1:
			_, err := k.Ask(bg, msg("x", "nope", "ask", "1"))
			lib.Check(err != nil, "Ask of a room that is not joined returned no error")
		case 2:
			var n *neffos.NSConn
			_, err := n.Ask(bg, "ask", nil)
			lib.Check(err != nil, "Ask of a nil namespace connection returned no error")
		}
		r, err := k.Namespace("x").Ask(bg, "ask", []byte("then"))
		checkAnswer("after a failed Ask", "then", r, err)
		lib.Check(count(w.log("C:a").L, "ask(")+count(w.log("S:a").L, "ask(") == 1, "a failed Ask was handled: %v %v", w.log("C:a"), w.log("S:a"))
	}

	// a callback that refuses with an error on events nobody asked about: the error is delivered as a message
	inRoom := func() {
		w, c, s := joinedPair(true, "x", "y")
		w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if m.Event == "ask" {
				lib.Check(n.Conn.Namespace(m.Namespace) == n, "callback got the wrong namespace connection")
				return neffos.Reply([]byte(m.Namespace + "/" + m.Room + ":" + string(m.Body)))
			}
			return nil
		}
		q := func(side byte, ns, room, body string) func() {
			return func() {
				r, err := pick(side, c, s).Ask(bg, msg(ns, room, "ask", body))
				want := ns + "/" + room + ":" + body
				lib.Check(err == nil && string(r.Body) == want && r.Namespace == ns && r.Room == room, "Ask of %s/%s by %c returned %q (%s/%s), %v, expected %q", ns, room, side, r.Body, r.Namespace, r.Room, err, want)
			}
		}
		vsched.Par(q('C', "x", "r", "1"), q('C', "y", "", "2"), q('S', "y", "r", "3"))
	}

	c07 := mc.Register("C07",
		&mc.Scenario{Name: "contents", Body: contents, MaxSteps: 1 << 24},
		&mc.Scenario{Name: "two-askers-CC", Body: asks("CC", "1", "2"), Bound: 3, Deep: 4, Policies: polSome},
		&mc.Scenario{Name: "two-askers-SS", Body: asks("SS", "1", "2"), Bound: 3, Deep: 4, Policies: polSome},
		&mc.Scenario{Name: "two-askers-CS", Body: asks("CS", "1", "2"), Bound: 3, Deep: 4, Policies: polSome},
		&mc.Scenario{Name: "same-clock", Body: asks("CCS", "1", "2", "3"), Bound: 1, Deep: 2, Policies: polTwo, Frozen: true},
		&mc.Scenario{Name: "errors", Body: asks("CCSS", "k", "e:boom; x", "ns", "e:bad room "), Bound: 1, Deep: 2, Policies: polTwo},
		&mc.Scenario{Name: "asks-and-emits", Body: asks("CSCS", "1", "2", "emit", "emit"), Bound: 1, Deep: 2, Policies: polSome},
		&mc.Scenario{Name: "three-askers", Body: asks("CCC", "1", "e:2", "3"), Bound: 1, Deep: 2, Policies: polSome},
		&mc.Scenario{Name: "nested-C", Body: nested("C"), Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "nested-S", Body: nested("S"), Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "nested-CS", Body: nested("CS"), Bound: 1, Deep: 2, Policies: polSome},
		&mc.Scenario{Name: "nested-CC", Body: nested("CC"), Bound: 1, Deep: 2, Policies: polTwo},
		&mc.Scenario{Name: "inside-connected-joined", Body: early, Bound: 2, Deep: 3, Policies: polTwo},
		&mc.Scenario{Name: "not-entitled", Body: bad, Bound: 1, Policies: polTwo},
		&mc.Scenario{Name: "namespaces-and-rooms", Body: inRoom, Bound: 1, Deep: 2, Policies: polTwo},
	)
	c07.Rule = "2 to 4 concurrent askers and emitters of both sides, plain, nested inside callbacks three levels deep, and inside connected/joined callbacks; every schedule up to the bound from several default orders."

	// ---- C08 ----
	// one Ask against an event that ends it, at every possible moment, and a second Ask afterwards
	ends := func(side byte, how string) func() {
		return func() {
			w, c, s := joinedPair(false, "x")
			w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				if m.Event == "ask" {
					if how == "slow" && string(m.Body) == "q" {
						sleepV(2 * time.Second)
					}
					return answer(m)
				}
				return nil
			}
			k := pick(side, c, s)
			o := pick(other(string(side))[0], c, s)
			ns := k.Namespace("x")
			var r neffos.Message
			var err error
			ctx, cancel := lib.WithCancel()
			if how == "timeout" || how == "slow" {
				ctx, cancel = lib.WithTimeout(time.Second)
			}
			defer cancel()
			asker := func() { r, err = ns.Ask(ctx, "ask", []byte("q")) }
			closed := true
			switch how {
			case "cancel":
				vsched.Par(asker, cancel)
				closed = false
			case "timeout", "slow":
				asker()
				closed = false
			case "close-local":
				vsched.Par(asker, k.Close)
			case "close-remote":
				vsched.Par(asker, o.Close)
			case "close-both":
				vsched.Par(asker, o.Close, k.Close)
			case "break":
				vsched.Par(asker, func() { w.h.Get("a").Server.Shut() })
			case "cancel-close":
				vsched.Par(asker, cancel, k.Close)
			case "cancelled":
				cancel()
				asker()
				closed = false
			}
			if err == nil {
				lib.Check(string(r.Body) == "re:q", "Ask returned %q", r.Body)
			} else if !closed {
				lib.Check(err == ctx.Err(), "Ask returned %v, the context's error is %v", err, ctx.Err())
			}
			if how == "slow" {
				lib.Check(err == context.DeadlineExceeded, "Ask returned %v after its deadline", err)
			}
			lib.Settle()
			if closed {
				_, err2 := ns.Ask(bg, "ask", []byte("late"))
				lib.Check(err2 != nil, "Ask on a closed connection returned no error")
				lib.Settle()
			} else {
				vsched.Elapse(int64(5 * time.Second)) // the late reply arrives
				r, err2 := ns.Ask(bg, "ask", []byte("2"))
				checkAnswer("after an abandoned Ask", "2", r, err2)
				r, err2 = o.Namespace("x").Ask(bg, "ask", []byte("3"))
				checkAnswer("the other side after an abandoned Ask", "3", r, err2)
				lib.Settle()
				l := w.log(string(side) + ":a").L
				lib.Check(len(l) == 3 && l[2] == "ask(x)=3", "a late reply ran a callback: %v", l)
			}
			lib.Check(!closed || len(vsched.Live()) <= 1, "goroutines are left behind after the close: %v", vsched.Live())
			vsched.SetOutcome(errText(err) + string(r.Body))
		}
	}
	// the other operations that wait for a reply end the same way
	opsEnd := func(op, how string) func() {
		return func() {
			w, c, s := joinedPair(true, "x", "z")
			_ = w
			side := "CS"[vsched.Choose(2)]
			k := pick(side, c, s)
			o := pick(other(string(side))[0], c, s)
			ns := k.Namespace("x")
			room := ns.Room("r")
			if op == "connect" {
				lib.Setup(func() { lib.Must("disconnect", k.Namespace("z").Disconnect(bg)) })
			}
			ctx, cancel := lib.WithCancel()
			defer cancel()
			var err error
			call := func() {
				switch op {
				case "connect":
					_, err = k.Connect(ctx, "z")
				case "disconnect":
					err = ns.Disconnect(ctx)
				case "discall":
					err = k.DisconnectAll(ctx)
				case "join":
					_, err = ns.JoinRoom(ctx, "q")
				case "leave":
					err = room.Leave(ctx)
				case "leaveall":
					err = ns.LeaveAll(ctx)
				}
			}
			switch how {
			case "cancel":
				vsched.Par(call, cancel)
				lib.Check(err == nil || err == ctx.Err(), "%s returned %v, the context's error is %v", op, err, ctx.Err())
			case "close":
				vsched.Par(call, o.Close)
			case "stall":
				// the remote never answers
				w.h.Get("a").Server.Stall(true)
				w.h.Get("a").Client.Stall(true)
				vsched.GoNamed("canceller", func() { sleepV(time.Second); cancel() })
				call()
				lib.Check(err != nil && err == ctx.Err(), "%s returned %v although the remote did not answer, the context's error is %v", op, err, ctx.Err())
			}
			lib.Settle()
			vsched.SetOutcome(op + errText(err))
		}
	}
	// a raw peer that answers late, twice, or with another request's token
	raw := func() {
		w := newWorld()
		var peer *lib.End
		var acc *lib.Accepted
		lib.Setup(func() {
			w.host(w.nss("x"))
			peer, acc = w.h.Raw("a")
			peer.WriteText([]byte("M"), 0)
			peer.WriteText([]byte("$1;x;;_OnNamespaceConnect;0;0;"), 0)
		})
		ns := acc.Conn.Namespace("x")
		base := len(acc.Server.Sent)
		var toks []string
		gone := false
		read := func(n int) {
			vsched.Block("requests", func() bool { return len(acc.Server.Sent) >= base+n || acc.Server.Closed() || gone })
			for len(toks) < n && len(acc.Server.Sent) > base+len(toks) {
				f := string(acc.Server.Sent[base+len(toks)].Data)
				toks = append(toks, f[:strings.Index(f, ";")])
			}
		}
		reply := func(i int, body string) {
			if i >= len(toks) {
				return // the request was never sent
			}
			peer.WriteText([]byte(toks[i]+";x;;ask;0;0;"+body), 0)
		}
		var r1, r2, r3 neffos.Message
		var e1, e2, e3 error
		ctx, cancel := lib.WithTimeout(time.Second)
		defer cancel()
		switch vsched.Choose(4) {
		case 0: // the first times out, its reply comes during the second, twice
			r1, e1 = ns.Ask(ctx, "ask", []byte("1"))
			lib.Check(e1 == context.DeadlineExceeded, "Ask returned %q, %v", r1.Body, e1)
			vsched.Par(func() { r2, e2 = ns.Ask(bg, "ask", []byte("2")) }, func() {
				read(2)
				reply(0, "late")
				reply(0, "late again")
				reply(1, "two")
				reply(1, "two again")
			})
			lib.Check(e2 == nil && string(r2.Body) == "two", "second Ask returned %q, %v", r2.Body, e2)
		case 1: // replies in the opposite order, duplicated
			vsched.Par(func() { r1, e1 = ns.Ask(bg, "ask", []byte("1")) }, func() { r2, e2 = ns.Ask(bg, "ask", []byte("2")) }, func() {
				read(2)
				reply(1, toks[1])
				reply(1, "dup")
				reply(0, toks[0])
				reply(0, "dup")
			})
			ok := e1 == nil && e2 == nil && string(r1.Body) != string(r2.Body)
			lib.Check(ok, "replies: %q %v, %q %v", r1.Body, e1, r2.Body, e2)
			f := func(i int) string { return string(acc.Server.Sent[base+i].Data) }
			for i := 0; i < 2; i++ {
				want := r1.Body
				if strings.HasSuffix(f(i), ";2") {
					want = r2.Body
				}
				lib.Check(toks[i] == string(want), "the reply of request %q went to another Ask", f(i))
			}
		case 2: // reply at the same moment as the cancellation
			ctx2, cancel2 := lib.WithCancel()
			vsched.Par(func() { r1, e1 = ns.Ask(ctx2, "ask", []byte("1")); gone = true }, cancel2, func() { read(1); reply(0, "one"); reply(0, "one again") })
			lib.Check(e1 == nil && string(r1.Body) == "one" || e1 == context.Canceled, "Ask returned %q, %v", r1.Body, e1)
		case 3: // reply at the same moment as the close
			vsched.Par(func() { r1, e1 = ns.Ask(bg, "ask", []byte("1")) }, func() { read(1); reply(0, "one"); reply(0, "one again") }, acc.Conn.Close)
			lib.Check(e1 != nil || string(r1.Body) == "one", "Ask returned %q, %v", r1.Body, e1)
			return
		}
		base, toks, gone = len(acc.Server.Sent), nil, false
		vsched.Par(func() { r3, e3 = ns.Ask(bg, "ask", []byte("3")) }, func() { read(1); reply(0, "three") })
		lib.Check(e3 == nil && string(r3.Body) == "three", "a later Ask returned %q, %v", r3.Body, e3)
		lib.Settle()
		lib.Check(len(w.log("S:a").L) == 2, "replies ran callbacks: %v", w.log("S:a"))
	}

	c08 := mc.Register("C08",
		&mc.Scenario{Name: "replies-late-and-twice", Body: raw, Bound: 2, Deep: 3, Policies: polTwo, TimerDev: true},
	)
	for _, side := range "CS" {
		for _, how := range []string{"cancel", "timeout", "slow", "close-local", "close-remote", "close-both", "break", "cancel-close", "cancelled"} {
			b := 3
			if how == "close-both" || how == "cancel-close" {
				b = 2
			}
			mc.Register("C08", &mc.Scenario{Name: fmt.Sprintf("%c-%s", side, how), Body: ends(byte(side), how), Bound: b, Deep: b + 1, Policies: polTwo, TimerDev: how == "timeout"})
		}
	}
	for _, op := range []string{"connect", "disconnect", "discall", "join", "leave", "leaveall"} {
		for _, how := range []string{"cancel", "close", "stall"} {
			mc.Register("C08", &mc.Scenario{Name: op + "-" + how, Body: opsEnd(op, how), Bound: 2, Deep: 3, Policies: polTwo})
		}
	}
	c08.Rule = "one Ask ended by reply, context, local close, remote close, broken socket or several of them, each placed at every point up to the bound, on both sides; a raw peer that replies late, twice, out of order and during cancel/close; Connect, Disconnect, JoinRoom, Leave(All), DisconnectAll ended by context and close. After each, further requests must work."
}
