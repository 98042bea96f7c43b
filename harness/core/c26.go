package main

import (
	"context"
	"fmt"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// waiting is a connection whose one side ("me") waits for the other one to connect the namespaces.
type waiting struct {
	w        *world
	me, peer string // "C" or "S"
	c, s     *neffos.Conn
	client   *neffos.Client
}

func newWaiting(me string) *waiting {
	peer := "S"
	if me == "S" {
		peer = "C"
	}
	return &waiting{w: newWorld(), me: me, peer: peer}
}

func (x *waiting) open() {
	x.w.host(x.w.nss("x", "y"))
	x.dial()
}

func (x *waiting) dial() {
	x.client = x.w.dial("a", x.w.nss("x", "y"))
	x.c, x.s = x.w.conn("C", "a"), x.w.conn("S", "a")
}

func (x *waiting) mine() *neffos.Conn {
	if x.me == "C" {
		return x.c
	}
	return x.s
}

func (x *waiting) other() *neffos.Conn {
	if x.me == "C" {
		return x.s
	}
	return x.c
}

// wait calls the method under test.
func (x *waiting) wait(ctx context.Context, ns string) (*neffos.NSConn, error) {
	if x.me == "C" && ns == "x" {
		return x.client.WaitServerConnect(ctx, ns)
	}
	return x.mine().WaitConnect(ctx, ns)
}

// good checks what a successful wait returned and uses it at once.
func (x *waiting) good(ns *neffos.NSConn, err error, name, tag string) {
	lib.Check(err == nil && ns != nil, "waiting for %s returned %v, %v", name, ns, err)
	lib.Check(ns.Conn == x.mine() && ns.Conn.Namespace(name) == ns, "waiting for %s returned something else than its connected namespace", name)
	lib.Check(ns.Emit("m", []byte("e"+tag)), "Emit right after the wait for %s was refused", name)
	got, err := ns.Ask(bg, "ask", []byte("q"+tag))
	lib.Check(err == nil && string(got.Body) == "r:q"+tag, "Ask right after the wait for %s returned %q, %v", name, got.Body, err)
}

// replies makes every "ask" answered.
func replies(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
	if m.Event == "ask" {
		return neffos.Reply([]byte("r:" + string(m.Body)))
	}
	return nil
}

// fired checks the life cycle events of both sides of a namespace the peer connected once.
func (x *waiting) fired(name string) {
	for _, side := range []string{"C", "S"} {
		l := x.w.log(side + ":a")
		suffix := "(" + name + ")"
		if side == x.peer {
			suffix += "L"
		}
		for _, ev := range []string{"connect", "connected"} {
			n := 0
			for _, e := range l.L {
				if strings.HasPrefix(e, ev+"("+name+")") {
					n++
				}
			}
			lib.Check(n == 1 && l.Count(ev+suffix) == 1, "side %s of a namespace that %s connected: %v", side, x.peer, l.L)
		}
	}
}

func (x *waiting) none(name string) {
	for _, side := range []string{"C", "S"} {
		for _, e := range x.w.log(side + ":a").L {
			lib.Check(!strings.Contains(e, "connect"), "a namespace nobody connected fired %s", e)
		}
	}
	lib.Check(x.c.Namespace(name) == nil && x.s.Namespace(name) == nil, "a wait connected %s by itself", name)
}

func (x *waiting) delivered(name string, tags ...string) {
	l := x.w.log(x.peer + ":a")
	for _, t := range tags {
		lib.Check(l.Count("m("+name+")=e"+t) == 1, "the message sent right after the wait is missing or repeated: %v", l.L)
	}
}

func init() {
	sides := []string{"C", "S"}
	reg := func(name string, body func(), bound int, pol []vsched.Policy, timers bool) *mc.Check {
		return mc.Register("C26", &mc.Scenario{Name: name, Body: body, Bound: bound, Deep: bound + 1, Policies: pol, TimerDev: timers})
	}
	var last *mc.Check
	for _, me := range sides {
		peer := map[string]string{"C": "server", "S": "client"}[me]
		// one or two waiters against one Connect of the other side, with a message of its own right after
		race := func(waiters int) func() {
			return func() {
				x := newWaiting(me)
				x.w.on = replies
				lib.Setup(x.open)
				var got []*neffos.NSConn
				fs := []func(){func() {
					ns, err := x.other().Connect(bg, "x")
					lib.Must("connect", err)
					lib.Check(ns.Emit("n", []byte("hi")), "Emit after Connect")
				}}
				var tags []string
				for i := 0; i < waiters; i++ {
					tag := fmt.Sprint(i)
					tags = append(tags, tag)
					fs = append(fs, func() {
						ns, err := x.wait(nil, "x")
						x.good(ns, err, "x", tag)
						got = append(got, ns)
					})
				}
				vsched.Par(fs...)
				lib.Settle()
				for _, g := range got {
					lib.Check(g == got[0], "two waiters got different namespaces")
				}
				x.delivered("x", tags...)
				lib.Check(x.w.log(me+":a").Count("n(x)=hi") == 1, "%v", x.w.log(me+":a").L)
				x.fired("x")
				vsched.SetOutcome(fmt.Sprint(x.w.log("C:a").L, x.w.log("S:a").L))
			}
		}
		reg(peer+"-connects", race(1), 3, polSome, true)
		reg(peer+"-connects-two-waiters", race(2), 2, polTwo, true)
		// two namespaces, waited for in the order they are not connected in
		reg(peer+"-connects-two-namespaces", func() {
			x := newWaiting(me)
			x.w.on = replies
			lib.Setup(x.open)
			vsched.Par(func() {
				for _, n := range []string{"y", "x"} {
					_, err := x.other().Connect(bg, n)
					lib.Must("connect", err)
				}
			}, func() {
				for _, n := range []string{"x", "y"} {
					ns, err := x.wait(bg, n)
					x.good(ns, err, n, n)
				}
			})
			lib.Settle()
			x.delivered("x", "x")
			x.delivered("y", "y")
			x.fired("x")
			x.fired("y")
		}, 2, polSome, true)
		// the namespace is there already: nothing to wait for
		reg(peer+"-connected-before", func() {
			x := newWaiting(me)
			x.w.on = replies
			lib.Setup(func() {
				x.open()
				_, err := x.other().Connect(bg, "x")
				lib.Must("connect", err)
			})
			t := vsched.NowNano()
			ns, err := x.wait(nil, "x")
			lib.Check(vsched.NowNano() == t, "waited %v for a connected namespace", time.Duration(vsched.NowNano()-t))
			x.good(ns, err, "x", "0")
			lib.Settle()
			x.delivered("x", "0")
			x.fired("x")
		}, 2, polTwo, false)
		// nobody connects: the context decides
		for _, how := range []string{"deadline", "cancel", "expired", "other-namespace", "unknown"} {
			reg(peer+"-never-"+how, func() {
				x := newWaiting(me)
				lib.Setup(x.open)
				name, want := "x", context.DeadlineExceeded
				ctx, cancel := lib.WithTimeout(100 * time.Millisecond)
				start := vsched.NowNano()
				limit := int64(150 * time.Millisecond)
				var fs []func()
				switch how {
				case "cancel":
					want = context.Canceled
					ctx, cancel = lib.WithCancel()
					fs = append(fs, func() { sleepV(40 * time.Millisecond); cancel() })
				case "expired":
					want = context.Canceled
					limit = 0
					cancel()
				case "other-namespace":
					fs = append(fs, func() {
						_, err := x.other().Connect(bg, "y")
						lib.Must("connect", err)
					})
				case "unknown":
					name = "z"
				}
				defer cancel()
				fs = append(fs, func() {
					ns, err := x.wait(ctx, name)
					lib.Check(ns == nil && err == want, "the wait for a namespace nobody connects returned %v, %v", ns, err)
					took := vsched.NowNano() - start
					lib.Check(took <= limit, "the wait ended %v after its context", time.Duration(took-limit))
					lib.Check(how == "expired" || how == "cancel" || took >= int64(100*time.Millisecond), "the wait ended after %v, before its context", time.Duration(took))
				})
				vsched.Par(fs...)
				lib.Settle()
				if how == "other-namespace" {
					x.fired("y")
					lib.Check(x.c.Namespace(name) == nil && x.s.Namespace(name) == nil, "connected %s", name)
				} else {
					x.none(name)
				}
				// a wait that failed leaves everything as it was
				if name == "x" {
					x.w.on = replies
					vsched.Par(func() {
						_, err := x.other().Connect(bg, "x")
						lib.Must("connect", err)
					}, func() {
						ns, err := x.wait(nil, "x")
						x.good(ns, err, "x", "0")
					})
					lib.Settle()
					x.delivered("x", "0")
					x.fired("x")
				}
			}, 2, polTwo, false)
		}
		// this side refuses the namespace first, accepts it later
		reg(peer+"-refused-then-accepted", func() {
			x := newWaiting(me)
			refuse := true
			x.w.on = func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
				if side == me && m.Event == neffos.OnNamespaceConnect && refuse {
					return veto("no")
				}
				return replies(side, id, ev, c, m)
			}
			lib.Setup(x.open)
			vsched.Par(func() {
				_, err := x.other().Connect(bg, "x")
				lib.Check(sameErr(err, "no"), "Connect that the waiting side refused returned %v", err)
				refuse = false
				_, err = x.other().Connect(bg, "x")
				lib.Must("connect", err)
			}, func() {
				ns, err := x.wait(nil, "x")
				lib.Check(!refuse, "the wait returned a refused namespace")
				x.good(ns, err, "x", "0")
			})
			lib.Settle()
			x.delivered("x", "0")
		}, 2, polSome, true)
		// the connection ends while waiting
		for _, who := range []string{"C", "S"} {
			reg(peer+"-closes-instead-by-"+who, func() {
				x := newWaiting(me)
				lib.Setup(x.open)
				done := 0
				vsched.Par(func() {
					if who == "C" {
						x.client.Close()
					} else {
						x.s.Close()
					}
				}, func() {
					ns, err := x.wait(nil, "x")
					lib.Check(ns == nil && err != nil, "waiting on a closed connection returned %v, %v", ns, err)
					done++
				}, func() {
					ctx, cancel := lib.WithTimeout(time.Second)
					defer cancel()
					ns, err := x.wait(ctx, "y")
					lib.Check(ns == nil && err != nil, "waiting on a closed connection returned %v, %v", ns, err)
					done++
				})
				lib.Settle()
				lib.Check(done == 2, "%d waits returned", done)
				x.none("x")
			}, 2, polTwo, false)
		}
		// inside a callback of another namespace: the connection keeps reading meanwhile
		reg(peer+"-connects-inside-callback", func() {
			x := newWaiting(me)
			done := 0
			x.w.on = func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
				if side == me && m.Event == "n" {
					ns, err := c.Conn.WaitConnect(nil, "x")
					x.good(ns, err, "x", "0")
					done++
					return nil
				}
				return replies(side, id, ev, c, m)
			}
			lib.Setup(func() {
				x.open()
				_, err := x.other().Connect(bg, "y")
				lib.Must("connect", err)
			})
			lib.Check(x.other().Namespace("y").Emit("n", nil), "emit")
			_, err := x.other().Connect(bg, "x")
			lib.Must("connect", err)
			vsched.Elapse(int64(50 * time.Millisecond))
			lib.Check(done == 1, "the callback that waits for x did not return")
			x.delivered("x", "0")
			x.fired("x")
		}, 2, polTwo, false)
	}
	// the documented use: the server connects the client inside its OnConnect, the client dials and waits
	for _, twice := range []bool{false, true} {
		name := "connect-inside-OnConnect"
		if twice {
			name += "-two"
		}
		last = reg(name, func() {
			x := newWaiting("C")
			x.w.on = replies
			accepted := 0
			x.w.onsrv = func(c *neffos.Conn) error {
				ns, err := c.Connect(nil, "x")
				lib.Must("connect inside OnConnect", err)
				lib.Check(ns.Emit("n", []byte("hi")), "Emit inside OnConnect")
				if twice {
					_, err = c.Connect(nil, "y")
					lib.Must("connect inside OnConnect", err)
				}
				accepted++
				return nil
			}
			lib.Setup(func() { x.w.host(x.w.nss("x", "y")) })
			x.client = x.w.dial("a", x.w.nss("x", "y"))
			x.c = x.w.conn("C", "a")
			ns, err := x.wait(nil, "x")
			x.good(ns, err, "x", "0")
			if twice {
				ns, err = x.wait(nil, "y")
				x.good(ns, err, "y", "1")
			}
			lib.Settle()
			x.s = x.w.conn("S", "a")
			lib.Check(accepted == 1, "OnConnect returned %d times", accepted)
			x.delivered("x", "0")
			x.fired("x")
			if twice {
				x.delivered("y", "1")
				x.fired("y")
			}
			lib.Check(x.w.log("C:a").Count("n(x)=hi") == 1, "%v", x.w.log("C:a").L)
		}, 2, polSome, true)
	}
	// connected and disconnected again while the other side polls: it returns that namespace or goes on waiting
	last = reg("connect-disconnect-connect", func() {
		x := newWaiting("C")
		x.w.on = replies
		lib.Setup(x.open)
		vsched.Par(func() {
			ns, err := x.s.Connect(bg, "x")
			lib.Must("connect", err)
			lib.Must("disconnect", ns.Disconnect(bg))
			sleepV(40 * time.Millisecond)
			_, err = x.s.Connect(bg, "x")
			lib.Must("connect", err)
		}, func() {
			ns, err := x.wait(nil, "x")
			lib.Check(err == nil && ns != nil, "the wait returned %v, %v", ns, err)
		})
		lib.Settle()
		lib.Check(x.c.Namespace("x") != nil && x.s.Namespace("x") != nil, "x is not connected at the end")
	}, 2, polTwo, false)
	last.Quick = 60 * time.Second
	last.Rule = "one connection, one or two namespaces, one or two waiters on either side, with the other side connecting before, during and after the wait, inside OnConnect, refused first, disconnecting again, never (deadline, cancelled, ended, unknown namespace) and closing instead; the returned namespace is used at once; every schedule up to the bound from several default orders, on a virtual clock."
}
