package main

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// askCrowd is a server whose connections answer "ask" the way reply says ("" means no answer).
func askCrowd(sync bool, reply func(id string, m neffos.Message) error, ids ...string) (*world, map[string]*neffos.Client) {
	w := newWorld()
	h := w.nss("x", "y")
	cs := map[string]*neffos.Client{}
	lib.Setup(func() {
		w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if side == "C" && m.Event == "ask" {
				return reply(id, m)
			}
			if side == "S" && m.Event == "ask" {
				return answer(m)
			}
			return nil
		}
		w.host(h)
		w.srv.SyncBroadcaster = sync
		for _, id := range ids {
			cs[id] = w.dial(id, h)
			ns, err := cs[id].Connect(bg, "x")
			lib.Must("connect", err)
			_, err = ns.JoinRoom(bg, "r")
			lib.Must("join", err)
		}
	})
	return w, cs
}

func init() {
	echo := func(id string, m neffos.Message) error {
		q := string(m.Body)
		switch {
		case strings.HasPrefix(q, "only-") && q[5:6] != id:
			return nil
		case strings.HasPrefix(q, "err"):
			return veto("no from " + id)
		case q == "known":
			return knownErr
		}
		return neffos.Reply([]byte(q + "@" + id))
	}
	am := func(room, to, q string) neffos.Message {
		m := msg("x", room, "ask", q)
		m.To = to
		return m
	}
	// after everything: every connection still works both ways and later questions get their own answers
	alive := func(w *world, cs map[string]*neffos.Client) {
		lib.Settle()
		var ids []string
		for id := range cs {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			r, err := cs[id].Connect(bg, "x")
			lib.Must("namespace of "+id, err)
			a, err := r.Ask(bg, "ask", []byte("still"))
			checkAnswer("afterwards "+id, "still", a, err)
			m, err := w.srv.Ask(bg, am("", id, "after"))
			lib.Check(err == nil && string(m.Body) == "after@"+id, "Server.Ask of %s afterwards returned %q, %v", id, m.Body, err)
		}
		lib.Settle()
		for _, id := range ids {
			for _, e := range received(w, "S:"+id) {
				lib.Check(strings.HasSuffix(e, "=still") || strings.HasSuffix(e, "=c") || strings.HasPrefix(e, "m("), "a reply ran a server callback: %v", w.log("S:"+id))
			}
		}
	}
	oneOf := func(q string, r neffos.Message, err error, ids ...string) {
		for _, id := range ids {
			if strings.HasPrefix(q, "err") {
				if err != nil && err.Error() == "no from "+id {
					return
				}
			} else if q == "known" && err == knownErr {
				return
			} else if err == nil && string(r.Body) == q+"@"+id {
				return
			}
		}
		vsched.Fail("Server.Ask %q returned %q, %v, expected an answer of one of %v", q, r.Body, err, ids)
	}

	// concurrent questions to all and to one
	concurrent := func(sync bool, qs ...string) func() {
		return func() {
			w, cs := askCrowd(sync, echo, "a", "b")
			var fs []func()
			var outs = make([]string, len(qs))
			for i, q := range qs {
				fs = append(fs, func() {
					body, to, _ := strings.Cut(q, ">")
					room := ""
					if strings.HasPrefix(body, "room") {
						room = "r"
					}
					r, err := w.srv.Ask(bg, am(room, to, body))
					if to == "" && strings.HasPrefix(body, "only-") {
						to = body[5:6]
					}
					if to != "" {
						oneOf(body, r, err, to)
					} else {
						oneOf(body, r, err, "a", "b")
					}
					outs[i] = string(r.Body) + errText(err)
				})
			}
			vsched.Par(fs...)
			alive(w, cs)
			vsched.SetOutcome(fmt.Sprint(outs))
		}
	}
	// the context ends first, or at the same moment
	ctxs := func(sync bool, how string) func() {
		return func() {
			slow := strings.HasPrefix(how, "slow")
			w, cs := askCrowd(sync, func(id string, m neffos.Message) error {
				if slow && string(m.Body) == "q" {
					sleepV(2 * time.Second)
				}
				return echo(id, m)
			}, "a", "b")
			ctx, cancel := lib.WithCancel()
			q := am("", "", "q")
			var r neffos.Message
			var err error
			switch how {
			case "cancel":
				vsched.Par(func() { r, err = w.srv.Ask(ctx, q) }, cancel)
				if err != nil {
					lib.Check(err == context.Canceled, "Ask returned %v", err)
				} else {
					oneOf("q", r, err, "a", "b")
				}
			case "slow":
				ctx, cancel = lib.WithTimeout(time.Second)
				r, err = w.srv.Ask(ctx, q)
				lib.Check(err == context.DeadlineExceeded, "Ask returned %q, %v after its deadline", r.Body, err)
				vsched.Elapse(int64(5 * time.Second))
			case "nobody-cancel", "slow-cancel":
				if how == "nobody-cancel" {
					q.To = "nobody"
				}
				vsched.GoNamed("cancel", func() { sleepV(time.Second); cancel() })
				r, err = w.srv.Ask(ctx, q)
				lib.Check(err == context.Canceled, "Ask returned %q, %v after it was cancelled", r.Body, err)
				vsched.Elapse(int64(5 * time.Second))
			case "nobody":
				ctx, cancel = lib.WithTimeout(time.Second)
				switch vsched.Choose(4) {
				case 0:
					q.To = "nobody"
				case 1:
					q.Room = "nope"
				case 2:
					q.Namespace = "y"
				case 3:
					q.Body = []byte("only-z")
				}
				r, err = w.srv.Ask(ctx, q)
				lib.Check(err == context.DeadlineExceeded, "Ask to nobody returned %q, %v", r.Body, err)
			case "cancelled":
				cancel()
				r, err = w.srv.Ask(ctx, q)
				lib.Check(err == context.Canceled || err == nil, "Ask returned %v", err)
			case "nil-context":
				r, err = w.srv.Ask(nil, q)
				oneOf("q", r, err, "a", "b")
			}
			cancel()
			alive(w, cs)
			vsched.SetOutcome(string(r.Body) + errText(err))
		}
	}
	// every kind of answer, of every way to address
	answers := func() {
		sync := vsched.Choose(2) == 1
		vsched.Explore(false)
		errs := []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload, knownErr}
		texts := []string{"no", "a;b", "write close", "\x00", strings.Repeat("long ", 2000)}
		bodies := []string{"", "b", ";;;;;;;", "0", "\x00\xff", strings.Repeat("long ", 20000), "bad namespace"}
		silent := false
		w, cs := askCrowd(sync, func(id string, m neffos.Message) error {
			var k int
			q := string(m.Body)
			if silent {
				return nil
			}
			if n, _ := fmt.Sscanf(q, "e%d", &k); n == 1 {
				return errs[k]
			}
			if n, _ := fmt.Sscanf(q, "t%d", &k); n == 1 {
				return veto(texts[k])
			}
			if n, _ := fmt.Sscanf(q, "b%d", &k); n == 1 {
				return neffos.Reply([]byte(bodies[k]))
			}
			return echo(id, m)
		}, "a", "b", "A")
		// "a" is in a room of its own, "A" and "b" are in none of it
		_, err := cs["a"].Connect(bg, "x")
		lib.Must("connect", err)
		_, err = lib.ConnOf(cs["a"]).Namespace("x").JoinRoom(bg, "own")
		lib.Must("join", err)
		lib.Settle()
		for _, to := range []string{"", "a", "b", "A"} {
			for _, room := range []string{"", "r", "own", "Own"} {
				nobody := room == "Own" || room == "own" && to != "" && to != "a"
				ask := func(body string) (neffos.Message, error) {
					ctx, cancel := lib.WithTimeout(time.Minute)
					defer cancel()
					m := am(room, to, body)
					m.SetBinary = to == "b"
					r, err := w.srv.Ask(ctx, m)
					lib.Settle()
					if nobody {
						lib.Check(err == context.DeadlineExceeded, "Ask %q to %q, room %q, which is nobody, returned %q, %v", body, to, room, r.Body, err)
					}
					mc.Cases(1)
					return r, err
				}
				for k, e := range errs {
					if r, err := ask(fmt.Sprint("e", k)); !nobody {
						lib.Check(err == e, "Ask to %q, room %q, answered with the error %q returned %q, %v", to, room, e, r.Body, err)
					}
				}
				for k, t := range texts {
					if r, err := ask(fmt.Sprint("t", k)); !nobody {
						lib.Check(err != nil && err.Error() == t, "Ask to %q, room %q, answered with the error %.40q returned %q, %.40v", to, room, t, r.Body, err)
					}
				}
				for k, b := range bodies {
					if r, err := ask(fmt.Sprint("b", k)); !nobody {
						lib.Check(err == nil && string(r.Body) == b, "Ask to %q, room %q, answered with %.40q returned %.40q, %v", to, room, b, r.Body, err)
					}
				}
				if r, err := ask("q"); !nobody {
					ids := []string{"a", "b", "A"}
					if room == "own" {
						ids = ids[:1]
					}
					if to != "" {
						ids = []string{to}
					}
					oneOf("q", r, err, ids...)
				}
			}
		}
		alive(w, cs)
	}
	mc.Register("C12", &mc.Scenario{Name: "answers", Body: answers, MaxSteps: 10000000})
	// a connection goes away while asked: the other one answers
	closing := func(sync bool, how string) func() {
		return func() {
			w, cs := askCrowd(sync, echo, "a", "b")
			var r neffos.Message
			var err error
			vsched.Par(func() { r, err = w.srv.Ask(bg, am("", "", "q")) }, func() {
				switch how {
				case "client":
					cs["a"].Close()
				case "server":
					w.conn("S", "a").Close()
				case "disconnect":
					lib.Must("disconnect", w.conn("C", "a").Namespace("x").Disconnect(bg))
				}
			})
			// a connection that just left the namespace answers so
			if how != "disconnect" || err != neffos.ErrBadNamespace {
				oneOf("q", r, err, "a", "b")
			}
			if how != "disconnect" {
				delete(cs, "a")
			}
			alive(w, cs)
			vsched.SetOutcome(string(r.Body))
		}
	}
	// questions of clients and of the server at once, on the same connections
	mixed := func(sync bool) func() {
		return func() {
			w, cs := askCrowd(sync, echo, "a", "b")
			vsched.Par(
				func() { r, err := w.srv.Ask(bg, am("", "", "q")); oneOf("q", r, err, "a", "b") },
				func() {
					r, err := w.conn("C", "a").Namespace("x").Ask(bg, "ask", []byte("c"))
					checkAnswer("client", "c", r, err)
				},
				func() {
					r, err := w.conn("S", "b").Namespace("x").Ask(bg, "ask", []byte("s"))
					oneOf("s", r, err, "b")
				})
			alive(w, cs)
		}
	}
	// asked from inside a server callback (default mode), of that very connection too
	inside := func() {
		w, cs := askCrowd(false, echo, "a", "b")
		on := w.on
		done := 0
		w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if side == "S" && m.Event == "m" {
				r, err := n.Conn.Server().Ask(bg, am("", "b", "in"))
				oneOf("in", r, err, "b")
				done++
			}
			return on(side, id, ev, n, m)
		}
		lib.Check(w.conn("C", "a").Namespace("x").Emit("m", []byte("1")) && w.conn("C", "a").Namespace("x").Emit("m", []byte("2")), "Emit failed")
		lib.Settle()
		lib.Check(done == 2, "%d of 2 callbacks got their answer", done)
		alive(w, cs)
	}
	// raw peers that answer late, twice and with made up tokens
	raw := func() {
		w := newWorld()
		var ps []*lib.End
		var as []*lib.Accepted
		lib.Setup(func() {
			w.host(w.nss("x"))
			for _, id := range []string{"a", "b"} {
				p, a := w.h.Raw(id)
				p.WriteText([]byte("M"), 0)
				p.WriteText([]byte("$1;x;;_OnNamespaceConnect;0;0;"), 0)
				ps, as = append(ps, p), append(as, a)
			}
		})
		base := []int{len(as[0].Server.Sent), len(as[1].Server.Sent)}
		tok := func(i, n int) string {
			vsched.Block("question", func() bool { return len(as[i].Server.Sent) > base[i]+n })
			f := string(as[i].Server.Sent[base[i]+n].Data)
			return f[:strings.Index(f, ";")]
		}
		rep := func(i int, t, body string) { ps[i].WriteText([]byte(t+";x;;ask;0;0;"+body), 0) }
		var r1, r2 neffos.Message
		var e1, e2 error
		switch vsched.Choose(3) {
		case 0: // both answer, twice, at once
			vsched.Par(func() { r1, e1 = w.srv.Ask(bg, msg("x", "", "ask", "1")) },
				func() { t := tok(0, 0); rep(0, t, "a"); rep(0, t, "a2") },
				func() { t := tok(1, 0); rep(1, t, "b"); rep(1, t, "b2") })
			lib.Check(e1 == nil && (string(r1.Body) == "a" || string(r1.Body) == "b"), "Ask returned %q, %v", r1.Body, e1)
		case 1: // the answer of the first question arrives during the second
			ctx, cancel := lib.WithTimeout(time.Second)
			r1, e1 = w.srv.Ask(ctx, msg("x", "", "ask", "1"))
			cancel()
			lib.Check(e1 == context.DeadlineExceeded, "Ask returned %q, %v", r1.Body, e1)
			vsched.Par(func() { r2, e2 = w.srv.Ask(bg, msg("x", "", "ask", "2")) },
				func() { t := tok(0, 0); rep(0, t, "late") },
				func() { t := tok(1, 1); rep(1, tok(1, 0), "late"); rep(1, t, "two"); rep(1, t, "two") })
			lib.Check(e2 == nil && string(r2.Body) == "two", "the second Ask returned %q, %v", r2.Body, e2)
		case 2: // two questions at once, answered by the two connections crosswise
			vsched.Par(func() { r1, e1 = w.srv.Ask(bg, msg("x", "", "ask", "1")) },
				func() { r2, e2 = w.srv.Ask(bg, msg("x", "", "ask", "2")) },
				func() {
					t0, t1 := tok(0, 0), tok(0, 1)
					rep(0, t1, t1)
					rep(0, t0, t0)
					rep(1, t0, "b"+t0)
					rep(1, t1, "b"+t1)
				})
			for i := 0; i < 2; i++ {
				f := string(as[0].Server.Sent[base[0]+i].Data)
				t := f[:strings.Index(f, ";")]
				got := r1
				if strings.HasSuffix(f, ";2") {
					got = r2
				}
				lib.Check(e1 == nil && e2 == nil && strings.TrimPrefix(string(got.Body), "b") == t, "the answer of a question went to another one")
			}
		}
		lib.Settle()
		base = []int{len(as[0].Server.Sent), len(as[1].Server.Sent)}
		r3, e3 := neffos.Message{}, error(nil)
		vsched.Par(func() { r3, e3 = w.srv.Ask(bg, msg("x", "", "ask", "3")) }, func() { t := tok(1, 0); rep(1, t, "three") })
		lib.Check(e3 == nil && string(r3.Body) == "three", "a later Ask returned %q, %v", r3.Body, e3)
		for i, p := range ps {
			n := len(as[i].Server.Sent)
			p.WriteText([]byte("$77;x;;_OnRoomJoin;0;0;"), 0)
			lib.Settle()
			lib.Check(len(as[i].Server.Sent) > n, "connection %d does not answer any more", i)
		}
		lib.Check(len(received(w, "S:a"))+len(received(w, "S:b")) == 0, "replies ran callbacks: %v %v", w.log("S:a"), w.log("S:b"))
	}

	for _, sync := range []bool{false, true} {
		pre := map[bool]string{true: "sync-"}[sync]
		reg := func(name string, body func(), bound int, pol []vsched.Policy, td bool) {
			mc.Register("C12", &mc.Scenario{Name: pre + name, Body: body, Bound: bound, Deep: bound + 1, Policies: pol, TimerDev: td})
		}
		reg("all-answer", concurrent(sync, "q"), 2, polTwo, false)
		reg("all-and-one", concurrent(sync, "q", "t>b"), 2, polTwo, false)
		reg("three-questions", concurrent(sync, "q", "room", "err>a"), 1, polTwo, false)
		reg("one-answers", concurrent(sync, "only-a", "only-b"), 2, polTwo, false)
		reg("errors", concurrent(sync, "err", "known"), 1, polTwo, false)
		for _, how := range []string{"cancel", "slow", "nobody", "cancelled", "nobody-cancel", "slow-cancel", "nil-context"} {
			reg(how, ctxs(sync, how), 2, polTwo, how == "slow")
		}
		for _, how := range []string{"client", "server", "disconnect"} {
			reg("while-"+how, closing(sync, how), 2, polTwo, false)
		}
		reg("mixed", mixed(sync), 1, polTwo, false)
	}
	mc.Register("C12", &mc.Scenario{Name: "same-clock", Body: concurrent(false, "q", "t>b"), Bound: 2, Deep: 3, Policies: polTwo, Frozen: true})
	mc.Register("C12", &mc.Scenario{Name: "inside-callbacks", Body: inside, Bound: 2, Deep: 3, Policies: polSome})
	c12 := mc.Register("C12", &mc.Scenario{Name: "raw-replies", Body: raw, Bound: 2, Deep: 3, Policies: polTwo})
	c12.Quick = 90 * time.Second
	c12.Rule = "one to three concurrent server-wide questions over two connections (addressed to all, to one, to a room, to nobody), against context cancellation and deadline, closing connections, client questions and raw peers that answer late, twice and crosswise; every schedule up to the bound, in both broadcaster modes; afterwards every connection must still answer in both directions."
}
