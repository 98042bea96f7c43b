package main

import (
	"errors"
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

func bmsg(ns, room, body string) neffos.Message {
	return neffos.Message{Namespace: ns, Room: room, Event: "e", Body: []byte(body)}
}

// bodies of what a member received, in order.
func (cr *crowd) bodies(name string) []string {
	var out []string
	for _, g := range cr.got[name] {
		out = append(out, strings.TrimSuffix(g[strings.Index(g, "=")+1:], "false"))
	}
	return out
}

// subseq reports whether the bodies with the prefix are exactly the wanted, in order.
func only(l []string, prefix string) []string {
	var out []string
	for _, x := range l {
		if strings.HasPrefix(x, prefix) {
			out = append(out, x)
		}
	}
	return out
}

func init() {
	mode := func(sync bool) string {
		if sync {
			return "sync-"
		}
		return ""
	}
	// several goroutines broadcast at once
	concurrent := func(sync bool, conns, casters, each int) func() {
		return func() {
			cr := newCrowd(sync)
			lib.Setup(func() {
				for i := 0; i < conns; i++ {
					cr.add(string(rune('a'+i)), string(rune('a'+i)), "x x/r")
				}
			})
			var fs []func()
			want := map[string][]string{}
			for b := 0; b < casters; b++ {
				p := string(rune('p' + b))
				for i := 0; i < each; i++ {
					want[p] = append(want[p], fmt.Sprint(p, i))
				}
				fs = append(fs, func() {
					for i := 0; i < each; i++ {
						if b == 1 {
							cr.w.srv.Broadcast(nil, bmsg("x", "r", fmt.Sprint(p, i)))
						} else {
							cr.w.srv.Broadcast(nil, bmsg("x", "", fmt.Sprint(p, i)))
						}
					}
				})
			}
			vsched.Par(fs...)
			lib.Settle()
			for _, m := range cr.m {
				l := cr.bodies(m.name)
				lib.Check(len(l) == casters*each, "%s received %v", m.name, l)
				for p, w := range want {
					lib.Check(fmt.Sprint(only(l, p)) == fmt.Sprint(w), "%s received %v of %s, expected %v", m.name, l, p, w)
				}
			}
			vsched.SetOutcome(fmt.Sprint(cr.got))
		}
	}
	// broadcasts of one goroutine, several messages each, are never interleaved or reordered for a receiver
	batches := func(sync bool) func() {
		return func() {
			cr := newCrowd(sync)
			lib.Setup(func() { cr.add("a", "a", "x"); cr.add("b", "b", "x x/r") })
			vsched.Par(func() {
				cr.w.srv.Broadcast(nil, bmsg("x", "", "p0"), bmsg("x", "r", "p1"), bmsg("x", "", "p2"))
				cr.w.srv.Broadcast(nil, bmsg("x", "", "p3"))
			}, func() {
				cr.w.srv.Broadcast(neffos.Exclude("b"), bmsg("x", "", "q0"), bmsg("y", "", "q1"), bmsg("x", "", "q2"))
			})
			lib.Settle()
			a, b := cr.bodies("a"), cr.bodies("b")
			lib.Check(fmt.Sprint(only(a, "p")) == "[p0 p2 p3]" && fmt.Sprint(only(a, "q")) == "[q0 q2]", "a received %v", a)
			lib.Check(fmt.Sprint(b) == "[p0 p1 p2 p3]", "b received %v", b)
			vsched.SetOutcome(fmt.Sprint(a))
		}
	}
	// while another connection comes, goes, connects, fails
	churn := func(sync bool, what string) func() {
		return func() {
			cr := newCrowd(sync)
			lib.Setup(func() {
				cr.add("a", "a", "x")
				if what != "dial" {
					cr.add("z", "z", "x")
				}
				cr.add("b", "b", "x")
			})
			var late []string
			joined, total := 0, 0
			cast := func() {
				for i := 0; i < 2; i++ {
					total++
					if joined > 0 {
						late = append(late, fmt.Sprint("p", i)) // started after z had joined
					}
					cr.w.srv.Broadcast(nil, bmsg("x", "", fmt.Sprint("p", i)))
				}
			}
			act := func() {
				switch what {
				case "dial":
					cr.add("z", "z", "x")
					joined++
					cr.w.srv.Broadcast(nil, bmsg("x", "", "z"))
				case "close":
					cr.m[1].c.Close()
				case "server-close":
					cr.m[1].s.Close()
				case "reconnect":
					z := cr.m[1]
					lib.Must("disconnect", z.c.Namespace("x").Disconnect(bg))
					_, err := z.c.Connect(bg, "x")
					lib.Must("connect", err)
					joined++
					cr.w.srv.Broadcast(nil, bmsg("x", "", "z"))
				case "broken":
					cr.m[1].acc.Server.BreakWrite = opErr("write")
				case "failing":
					cr.m[1].acc.Server.FailWrite = func(lib.Frame) error { return lib.ErrTimeout("write") }
				}
			}
			vsched.Par(cast, act)
			lib.Settle()
			own := ""
			if what == "dial" || what == "reconnect" {
				own = "z"
				l := cr.bodies("z")
				lib.Check(count(l, "z") == 1, "the connection that just joined received %v", l)
				for _, x := range late {
					lib.Check(count(l, x) == 1, "the connection that joined before the broadcast of %s received %v", x, l)
				}
				lib.Check(len(only(l, "p0")) <= 1 && len(only(l, "p1")) <= 1, "received twice: %v", l)
				lib.Check(firstOf(l, "p1") < 0 || firstOf(l, "p0") < firstOf(l, "p1"), "out of order: %v", l)
			}
			for _, n := range []string{"a", "b"} {
				l := cr.bodies(n)
				lib.Check(fmt.Sprint(only(l, "p")) == "[p0 p1]" && len(l) == 2+len(own), "%s received %v while another connection did %s", n, l, what)
			}
			vsched.SetOutcome(fmt.Sprint(cr.got))
		}
	}
	// a connection whose network accepts nothing does not take the message from the others (default mode)
	slow := func() {
		cr := newCrowd(false)
		lib.Setup(func() { cr.add("a", "a", "x"); cr.add("z", "z", "x"); cr.add("b", "b", "x") })
		z := cr.m[1]
		z.acc.Server.Hold(true)
		for i := 0; i < 3; i++ {
			cr.w.srv.Broadcast(nil, bmsg("x", "", fmt.Sprint("p", i)))
		}
		lib.Settle()
		for _, n := range []string{"a", "b"} {
			lib.Check(fmt.Sprint(cr.bodies(n)) == "[p0 p1 p2]", "%s received %v while another connection is stuck", n, cr.bodies(n))
		}
		z.acc.Server.Hold(false)
		lib.Settle()
		lib.Check(fmt.Sprint(cr.bodies("z")) == "[p0 p1 p2]", "the slow connection received %v", cr.bodies("z"))
	}
	// broadcasts made inside callbacks, of every kind, on connects and closes
	callbacks := func(sync bool, what string) func() {
		return func() {
			cr := newCrowd(sync)
			lib.Setup(func() { cr.add("a", "a", "x x/r"); cr.add("b", "b", "x x/r") })
			z := 0
			cr.sys = func(c *neffos.NSConn, m neffos.Message) error {
				name := sysEvents[m.Event]
				if c.Conn.ID() == "z" {
					z++
					c.Conn.Server().Broadcast(c, bmsg("x", "", "p:"+name+m.Room))
				}
				return nil
			}
			cr.add("z", "z", "x x/r")
			lib.Settle()
			m := cr.m[2]
			switch what {
			case "close":
				m.c.Close()
			case "server-close":
				m.s.Close()
			case "leave":
				lib.Must("leave", m.c.Namespace("x").Room("r").Leave(bg))
				lib.Must("disconnect", m.c.Namespace("x").Disconnect(bg))
			case "write-fails":
				m.acc.Server.BreakWrite = opErr("write")
				cr.w.srv.Broadcast(nil, bmsg("x", "", "n"))
				lib.Settle()
				m.acc.Server.Shut()
			case "all":
				cr.w.srv.Close()
			}
			lib.Settle()
			for _, n := range []string{"a", "b"} {
				l := only(cr.bodies(n), "p:")
				want := "[p:connect p:connected p:joinr p:joinedr p:leaver p:leftr p:disconnect]"
				if what == "leave" {
					want = "[p:connect p:connected p:joinr p:joinedr p:leaver p:leftr p:disconnect]"
				}
				got := fmt.Sprint(l)
				if what == "all" {
					lib.Check(strings.HasPrefix(want, strings.TrimSuffix(got, "]")) && len(l) >= 4, "%s received %v", n, l)
					continue
				}
				lib.Check(got == want, "%s received %v, expected %s", n, l, want)
			}
			lib.Check(z == 7, "%d of the 7 callbacks of z ran", z)
			vsched.SetOutcome(fmt.Sprint(cr.got))
		}
	}
	for _, sync := range []bool{false, true} {
		reg := func(name string, body func(), bound int, pol []vsched.Policy) {
			mc.Register("C11", &mc.Scenario{Name: mode(sync) + name, Body: body, Bound: bound, Deep: bound + 1, Policies: pol})
		}
		reg("two-conns-one-caster", concurrent(sync, 2, 1, 3), 2, polTwo)
		reg("one-conn-two-casters", concurrent(sync, 1, 2, 2), 2, polSome)
		reg("two-conns-two-casters", concurrent(sync, 2, 2, 2), 2, polTwo)
		reg("three-conns-three-casters", concurrent(sync, 3, 3, 1), 1, polTwo)
		reg("batches", batches(sync), 2, polTwo)
		for _, what := range []string{"dial", "close", "server-close", "reconnect", "broken", "failing"} {
			b := 2
			if what == "dial" || what == "reconnect" {
				b = 1
			}
			reg("while-"+what, churn(sync, what), b, polTwo)
		}
		for _, what := range []string{"close", "server-close", "leave", "write-fails", "all"} {
			reg("in-callbacks-"+what, callbacks(sync, what), 1, polTwo)
		}
	}
	// messages that are not for a connection, one after another, do not take the next ones from it
	notFor := func() {
		sync := vsched.Choose(2) == 1
		cr := newCrowd(sync)
		vsched.Explore(false)
		cr.add("a", "a", "x x/r")
		cr.add("b", "b", "x")
		cr.add("c", "c", "")
		lib.Settle()
		for _, ex := range cr.excepts() {
			for _, msg := range addrMsgs {
				for _, bin := range []bool{false, true} {
					msg.SetBinary = bin
					cr.w.srv.Broadcast(ex.v, msg)
					cr.w.srv.Broadcast(nil, addrMsgs[0])
					lib.Settle()
					for _, m := range cr.m {
						n := 0
						for _, g := range cr.got[m.name] {
							if g == rendered(addrMsgs[0]) {
								n++
							}
						}
						want := 0
						if m.in["x"] {
							want = 1
						}
						if msg.To == "" && msg.Namespace == "x" && msg.Room == "" && !bin {
							if m.entitled(msg, ex.m, ex.id) {
								want++
							}
						}
						lib.Check(n == want, "a broadcast after Broadcast(%s, %s) was delivered %d times to %s", ex.name, msg.Body, n, m.name)
					}
					cr.got = map[string][]string{}
					mc.Cases(1)
				}
			}
		}
	}
	// a broadcast of nothing, and a write that fails without ending the connection, do not take the next ones from it
	hiccups := func() {
		sync := vsched.Choose(2) == 1
		cr := newCrowd(sync)
		vsched.Explore(false)
		for _, id := range []string{"a", "b", "c"} {
			cr.add(id, id, "x x/r")
		}
		lib.Settle()
		n := 0
		for i := 0; i < 4; i++ {
			who := vsched.Choose(4) // whose write fails, if any
			room := []string{"", "r"}[vsched.Choose(2)]
			fail := 0
			if who < 3 {
				at := vsched.Choose(3) // which message of the batch
				cr.m[who].acc.Server.FailWrite = func(lib.Frame) error {
					fail++
					if fail == at+1 {
						return lib.ErrTimeout("write")
					}
					return nil
				}
				cr.w.srv.Broadcast(nil, bmsg("x", room, "f0"), bmsg("x", room, "f1"), bmsg("x", room, "f2"))
				lib.Settle()
				cr.m[who].acc.Server.FailWrite = nil
				for k, m := range cr.m {
					if l := cr.bodies(m.name); k != who {
						lib.Check(fmt.Sprint(l) == "[f0 f1 f2]", "%s received %v while a write to another connection failed", m.name, l)
					}
				}
			} else {
				cr.w.srv.Broadcast(nil)
				cr.w.srv.Broadcast(neffos.Exclude("a"), []neffos.Message{}...)
				cr.w.srv.Broadcast(cr.m[1].s)
			}
			cr.got = map[string][]string{}
			n++
			cr.w.srv.Broadcast(nil, bmsg("x", room, fmt.Sprint("p", n)), bmsg("x", "", "q"))
			lib.Settle()
			for _, m := range cr.m {
				l := cr.bodies(m.name)
				lib.Check(fmt.Sprint(l) == fmt.Sprintf("[p%d q]", n), "%s received %v of the broadcast after that", m.name, l)
			}
			cr.got = map[string][]string{}
			mc.Cases(1)
		}
	}
	mc.Register("C11", &mc.Scenario{Name: "hiccups", Body: hiccups, MaxSteps: 1000000})
	mc.Register("C11", &mc.Scenario{Name: "not-for-all", Body: notFor, MaxSteps: 100000000})
	c11 := mc.Register("C11", &mc.Scenario{Name: "slow-connection", Body: slow, Bound: 2, Deep: 3, Policies: polTwo})
	c11.Quick = 90 * time.Second
	c11.Rule = "1 to 3 connections, 1 to 3 broadcasting goroutines, 1 to 3 broadcasts each, in both broadcaster modes, alone and during dial, close, reconnect, failing and stuck writes of another connection, and from inside every life cycle callback; every schedule up to the bound from several default orders."
}

func opErr(op string) error {
	return &net.OpError{Op: op, Net: "mem", Err: os.NewSyscallError(op, errors.New("broken pipe"))}
}
