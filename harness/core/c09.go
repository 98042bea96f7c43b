package main

import (
	"errors"
	"fmt"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// received are the messages (not the life cycle) one side handled.
func received(w *world, key string) []string {
	var out []string
	for _, e := range w.log(key).L {
		if strings.Contains(e, "=") {
			out = append(out, e)
		}
	}
	return out
}

// perWriter checks that the messages of each writer, recognised by the body's first character, arrived once, in order.
func perWriter(side string, got []string, sent map[byte][]string) {
	n := 0
	for wtr, want := range sent {
		n += len(want)
		var mine []string
		for _, g := range got {
			if b := g[strings.Index(g, "=")+1:]; len(b) > 0 && b[0] == wtr {
				mine = append(mine, g)
			}
		}
		lib.Check(fmt.Sprint(mine) == fmt.Sprint(want), "side %s: writer %c wrote %.400q, handled %.400q (of %.400q)", side, wtr, want, mine, got)
	}
	lib.Check(n == len(got), "side %s: %d messages were written, handled %.400q", side, n, got)
}

// stream is one goroutine's sequence of writes; it returns how each must be recorded.
func stream(c *neffos.Conn, wtr byte, kinds string) (want []string) {
	for i, k := range kinds {
		b := fmt.Sprintf("%c%d", wtr, i)
		ok := false
		switch k {
		case 'e':
			ok = c.Namespace("x").Emit("m", []byte(b))
			want = append(want, "m(x)="+b)
		case 'b':
			ok = c.Namespace("x").EmitBinary("n", []byte(b))
			want = append(want, "n(x)="+b+"[bin]")
		case 'L', 'B': // long ones
			b += strings.Repeat(".", 70000)
			if k == 'L' {
				ok = c.Namespace("x").Emit("m", []byte(b))
				want = append(want, "m(x)="+b)
			} else {
				ok = c.Namespace("x").EmitBinary("n", []byte(b))
				want = append(want, "n(x)="+b+"[bin]")
			}
		case 'r':
			ok = c.Namespace("x").Room("r").Emit("m", []byte(b))
			want = append(want, "m(x/r)="+b)
		case 'y':
			ok = c.Write(msg("y", "", "n", b+";;;\x00"))
			want = append(want, "n(y)="+b+";;;\x00")
		case 'Y':
			m := msg("y", "r", "m", b)
			m.SetBinary = true
			ok = c.Write(m)
			want = append(want, "m(y/r)="+b+"[bin]")
		}
		lib.Check(ok, "write %d of writer %c failed", i, wtr)
	}
	return
}

func init() {
	// writers: "C:eeb" is a goroutine of the client that emits, emits, emits binary. what: what the callbacks do meanwhile
	writers := func(what string, ws ...string) func() {
		return func() {
			w, c, s := joinedPair(true, "x", "y")
			w.on = func(side, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				switch what {
				case "slow":
					sleepV(time.Duration(1+len(m.Body)%3) * time.Second)
				case "yield":
					vsched.Point("callback")
				case "emit": // answers with another message; the answer is not answered
					if !strings.HasPrefix(string(m.Body), "z") && m.Event == "m" {
						n.Emit("n", append([]byte("z"), m.Body...))
					}
				}
				return nil
			}
			sent := map[string]map[byte][]string{"C": {}, "S": {}}
			var fs []func()
			for i, x := range ws {
				side, kinds, _ := strings.Cut(x, ":")
				wtr := byte('a' + i)
				fs = append(fs, func() {
					l := stream(pick(side[0], c, s), wtr, kinds)
					sent[other(side)][wtr] = l
				})
			}
			vsched.Par(fs...)
			vsched.Elapse(int64(time.Minute))
			if what == "emit" { // the answers come back, in the order of the messages they answer
				for _, sd := range []string{"C", "S"} {
					for _, g := range received(w, other(sd)+":a") {
						if strings.HasPrefix(g, "m(") {
							ns := g[2:strings.IndexAny(g, "/)")]
							body := strings.TrimSuffix(g[strings.Index(g, "=")+1:], "[bin]")
							sent[sd]['z'] = append(sent[sd]['z'], "n("+ns+")=z"+body)
						}
					}
				}
			}
			perWriter("C", received(w, "C:a"), sent["C"])
			perWriter("S", received(w, "S:a"), sent["S"])
			lib.Check(w.maxRun == 1, "%d callbacks of one connection ran at the same time", w.maxRun)
			if len(w.log("C:a").String())+len(w.log("S:a").String()) < 2000 {
				vsched.SetOutcome(w.log("C:a").String() + "|" + w.log("S:a").String())
			}
		}
	}

	// one side writes and closes: everything written before the close is handled, in order, and nothing after the namespace's end
	thenClose := func(side byte) func() {
		return func() {
			w, c, s := joinedPair(true, "x", "y")
			k := pick(side, c, s)
			var want []string
			cut := vsched.Choose(2) == 1 // the close comes from another goroutine
			if !cut {
				want = stream(k, 'a', "erY")
				k.Close()
			} else {
				vsched.Par(func() {
					for i := 0; i < 3; i++ {
						b := fmt.Sprintf("a%d", i)
						if k.Namespace("x").Emit("m", []byte(b)) {
							want = append(want, "m(x)="+b)
						}
					}
				}, k.Close)
			}
			lib.Settle()
			o := other(string(side))
			lib.Check(fmt.Sprint(received(w, o+":a")) == fmt.Sprint(want), "%c wrote %v and closed, %s handled %v", side, want, o, w.log(o+":a"))
			lib.Check(w.maxRun == 1, "%d callbacks of one connection ran at the same time", w.maxRun)
			vsched.SetOutcome(fmt.Sprint(cut, want))
		}
	}

	// writes that fail report it and lose only themselves
	failing := func() {
		w, c, s := joinedPair(true, "x", "y")
		side := "CS"[vsched.Choose(2)]
		k := pick(side, c, s)
		e := w.h.Get("a").Client
		if side == 'S' {
			e = w.h.Get("a").Server
		}
		mask := vsched.Choose(8)
		i := 0
		e.FailWrite = func(f lib.Frame) error {
			i++
			if mask&(1<<(i-1)) != 0 {
				return []error{lib.ErrTimeout("write"), errors.New("frame too large")}[mask&1]
			}
			return nil
		}
		var want []string
		for j := 0; j < 3; j++ {
			b := fmt.Sprintf("a%d", j)
			ok := k.Namespace("x").Emit("m", []byte(b))
			lib.Check(ok == (mask&(1<<j) == 0), "Emit %d returned %v (failing writes %b)", j, ok, mask)
			if ok {
				want = append(want, "m(x)="+b)
			}
		}
		e.FailWrite = nil
		lib.Settle()
		o := other(string(side))
		lib.Check(fmt.Sprint(received(w, o+":a")) == fmt.Sprint(want), "wrote %v, handled %v", want, w.log(o+":a"))
	}

	// a callback that asks lets the next messages in: each is still handled once, and started in order
	asking := func(side byte) func() {
		return func() {
			w, c, s := joinedPair(true, "x", "y")
			me, oth := string(side), other(string(side))
			var order []string
			w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				if sd == oth && m.Event == "m" {
					order = append(order, string(m.Body))
					if string(m.Body) == "a0" {
						r, err := n.Ask(bg, "ask", []byte("q"))
						checkAnswer("inside the callback", "q", r, err)
					}
				}
				if m.Event == "ask" {
					return answer(m)
				}
				return nil
			}
			vsched.Par(func() { stream(pick(side, c, s), 'a', "eere") }, func() { stream(pick(side, c, s), 'b', "e") })
			lib.Settle()
			got := received(w, oth+":a")
			perWriter(oth, got, map[byte][]string{'a': {"m(x)=a0", "m(x)=a1", "m(x/r)=a2", "m(x)=a3"}, 'b': {"m(x)=b0"}})
			lib.Check(count(w.log(me+":a").L, "ask(") == 1, "the question was handled %v", w.log(me+":a"))
			a := w.h.Get("a")
			lib.Check(a.Client.MaxReaders <= 1 && a.Server.MaxReaders <= 1, "two readers on one socket")
			vsched.SetOutcome(fmt.Sprint(order))
		}
	}

	// a callback whose wait ends without an answer leaves one reader behind: the next messages are handled in order,
	// one after the other
	unanswered := func(side byte) func() {
		return func() {
			how := vsched.Choose(3)
			w, c, s := joinedPair(true, "x", "y")
			oth := other(string(side))
			running := 0
			w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
				if sd != oth || m.Event != "m" {
					return nil // no answer
				}
				if string(m.Body) == "a0" {
					ctx, cancel := lib.WithTimeout(20 * time.Millisecond)
					defer cancel()
					var err error
					switch how {
					case 0:
						_, err = n.Ask(ctx, "silent", nil)
					case 1:
						_, err = n.Conn.WaitConnect(ctx, "z")
					case 2:
						_, err = n.Ask(ctx, "silent", nil)
						lib.Check(err != nil, "an unanswered Ask succeeded")
						_, err = n.Ask(ctx, "silent", nil)
					}
					lib.Check(err != nil, "an unanswered wait succeeded")
					return nil
				}
				running++
				lib.Check(running == 1, "%d callbacks of one connection run at once", running)
				vsched.Sleep(int64(time.Millisecond))
				running--
				return nil
			}
			stream(pick(side, c, s), 'a', "e")
			vsched.Sleep(int64(100 * time.Millisecond))
			k := pick(side, c, s)
			for i := 1; i < 4; i++ {
				lib.Check(k.Namespace("x").Emit("m", []byte(fmt.Sprint("a", i))), "Emit failed")
			}
			vsched.Sleep(int64(100 * time.Millisecond))
			lib.Settle()
			got := received(w, oth+":a")
			perWriter(oth, got, map[byte][]string{'a': {"m(x)=a0", "m(x)=a1", "m(x)=a2", "m(x)=a3"}})
			a := w.h.Get("a")
			lib.Check(a.Client.MaxReaders <= 1 && a.Server.MaxReaders <= 1, "two readers on one socket")
		}
	}

	// the error or Reply of a callback nobody asked goes back once, as a message of the same event
	back := func() {
		w, c, s := joinedPair(true, "x", "y")
		side := "CS"[vsched.Choose(2)]
		what := vsched.Choose(4)
		oth := other(string(side))
		ret := []error{nil, errors.New("boom"), neffos.Reply([]byte("b;a;ck")), knownErr}[what]
		w.on = func(sd, id, ev string, n *neffos.NSConn, m neffos.Message) error {
			if sd == oth && m.Event == "m" {
				return ret
			}
			if sd == string(side) && m.Event == "m" && what == 3 {
				lib.Check(m.Err == knownErr, "the known error came back as %v", m.Err)
			}
			return nil
		}
		k := pick(side, c, s)
		lib.Check(k.Namespace("x").Emit("m", []byte("1")) && k.Namespace("y").Room("r").Emit("m", []byte("2")) && k.Namespace("x").Emit("n", []byte("3")), "Emit failed")
		lib.Settle()
		lib.Check(fmt.Sprint(received(w, oth+":a")) == "[m(x)=1 m(y/r)=2 n(x)=3]", "handled %v", w.log(oth+":a"))
		want := [][]string{nil, {"m(x)=!boom", "m(y/r)=!boom"}, {"m(x)=b;a;ck", "m(y/r)=b;a;ck"}, {"m(x)=!known; error", "m(y/r)=!known; error"}}[what]
		lib.Check(fmt.Sprint(received(w, string(side)+":a")) == fmt.Sprint(want), "%v returned by the callback came back as %v", ret, received(w, string(side)+":a"))
	}

	// every kind of content, end to end
	contents := func() {
		side := "CS"[vsched.Choose(2)]
		nss := []string{"", "x", "a;b", "$1", "_ns"}
		rooms := []string{"", "r", "r;s", "0"}
		evs := []string{"m", "e;v", ";", "1", "$x", "Message", "_custom", "neffos(0x"}
		bodies := []string{"", "b", ";", "M", "Aid", "H", "$1;x;;e;0;0;b", "\x00\xff", "{\"a\":1}", strings.Repeat("long;", 2000)}
		w := newWorld()
		all := neffos.Namespaces{}
		type key struct{ ns, room, ev, body, bin string }
		var got []key
		for _, n := range nss {
			e := neffos.Events{}
			for _, ev := range evs {
				e[ev] = func(c *neffos.NSConn, m neffos.Message) error {
					lib.Check(m.Event == ev, "the callback of %q got %q", ev, m.Event)
					lib.Check(c.Conn.Namespace(m.Namespace) == c && m.Err == nil && !m.IsLocal && !m.IsForced && !m.IsNative, "callback got %+v", m)
					got = append(got, key{m.Namespace, m.Room, m.Event, string(m.Body), fmt.Sprint(m.SetBinary)})
					return nil
				}
			}
			all[n] = e
		}
		lib.Setup(func() {
			w.host(all)
			w.dial("a", all)
			for _, n := range nss {
				ns, err := w.conn("C", "a").Connect(bg, n)
				lib.Must("connect", err)
				for _, r := range rooms[1:] {
					_, err := ns.JoinRoom(bg, r)
					lib.Must("join", err)
				}
			}
		})
		k := w.conn(string(side), "a")
		for _, n := range nss {
			for _, r := range rooms {
				for _, ev := range evs {
					vsched.Explore(false)
					got = nil
					var want []key
					for _, b := range bodies {
						for _, bin := range []bool{false, true} {
							m := neffos.Message{Namespace: n, Room: r, Event: ev, Body: []byte(b), SetBinary: bin}
							lib.Check(k.Write(m), "Write of %+v failed", m)
							want = append(want, key{n, r, ev, b, fmt.Sprint(bin)})
						}
					}
					lib.Settle()
					vsched.Explore(true)
					lib.Check(fmt.Sprint(got) == fmt.Sprint(want), "wrote %.300q, handled %.300q", fmt.Sprint(want), fmt.Sprint(got))
					mc.Cases(len(want))
				}
			}
		}
	}

	reg := func(name string, body func(), bound int, pol []vsched.Policy) {
		mc.Register("C09", &mc.Scenario{Name: name, Body: body, Bound: bound, Deep: bound + 1, Policies: pol})
	}
	reg("C-one-writer", writers("", "C:erbyY"), 2, polSome)
	reg("S-one-writer", writers("", "S:erbyY"), 2, polSome)
	reg("CC-two-writers", writers("yield", "C:eb", "C:ry"), 2, polSome)
	reg("SS-two-writers", writers("yield", "S:eb", "S:ry"), 2, polSome)
	reg("SSS-three-writers", writers("", "S:eb", "S:r", "S:e"), 1, polTwo)
	reg("both-directions", writers("yield", "C:er", "S:eb"), 2, polSome)
	reg("both-directions-two-writers", writers("", "C:er", "S:eb", "C:y", "S:e"), 1, polTwo)
	reg("long-messages", writers("yield", "C:LeB", "S:BeL"), 1, polTwo)
	reg("long-messages-slow", writers("slow", "C:LrBe"), 1, polTwo)
	reg("slow-callbacks", writers("slow", "C:eb", "S:re", "C:y"), 1, polTwo)
	reg("callbacks-that-emit", writers("emit", "C:ee", "S:re"), 2, polTwo)
	reg("write-then-close-C", thenClose('C'), 2, polSome)
	reg("write-then-close-S", thenClose('S'), 2, polSome)
	reg("failing-writes", failing, 1, polTwo)
	reg("asking-callback-C", asking('C'), 1, polSome)
	reg("asking-callback-S", asking('S'), 1, polSome)
	reg("unanswered-callback-C", unanswered('C'), 1, polSome)
	reg("unanswered-callback-S", unanswered('S'), 1, polSome)
	reg("errors-and-replies-come-back", back, 1, polTwo)
	c09 := mc.Register("C09", &mc.Scenario{Name: "contents", Body: contents, MaxSteps: 10000000})
	c09.Rule = "1 to 4 writing goroutines of both sides mixing text, binary, room and namespace messages against idle, slow, emitting and asking callbacks, closes and failing writes, every schedule up to the bound; every combination of namespace, room, event, body and kind end to end."
}
