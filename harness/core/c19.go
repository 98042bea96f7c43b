package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// recExc is a stack exchange that records and judges what it is told.
type recExc struct {
	name    string
	log     lib.Rec
	refuse  func(c *neffos.Conn) error
	pubFail bool
	askErr  error
	noteErr error
	state   map[*neffos.Conn]*excConn
	onPub   func(msgs []neffos.Message)
	asked   []neffos.Message
	tokens  []string
	slow    bool // calls take time
}

type excConn struct {
	refused, withdrawn bool
	ns                 map[string]bool
}

func newExc(name string) *recExc { return &recExc{name: name, state: map[*neffos.Conn]*excConn{}} }

func (e *recExc) wait() {
	if e.slow {
		vsched.Yield()
	}
}

func (e *recExc) OnConnect(c *neffos.Conn) error {
	e.wait()
	lib.Check(c != nil && c.ID() != "" && !c.IsClient(), "exchange %s: OnConnect of a connection that is not ready", e.name)
	lib.Check(e.state[c] == nil, "exchange %s: %s was announced twice", e.name, c.ID())
	s := &excConn{ns: map[string]bool{}}
	e.state[c] = s
	e.log.Add("connect %s", c.ID())
	if e.refuse != nil {
		if err := e.refuse(c); err != nil {
			s.refused = true
			return err
		}
	}
	return nil
}

func (e *recExc) OnDisconnect(c *neffos.Conn) {
	e.wait()
	s := e.state[c]
	if s == nil { // an earlier exchange refused it: this one may be told too
		return
	}
	lib.Check(!s.withdrawn, "exchange %s: %s was withdrawn twice", e.name, c.ID())
	s.withdrawn = true
	e.log.Add("disconnect %s", c.ID())
}

func (e *recExc) Subscribe(c *neffos.Conn, ns string) {
	e.wait()
	s := e.state[c]
	lib.Check(s != nil && !s.refused, "exchange %s: %s subscribes to %q but it was never announced", e.name, c.ID(), ns)
	lib.Check(!s.ns[ns], "exchange %s: %s subscribes twice to %q", e.name, c.ID(), ns)
	s.ns[ns] = true
	e.log.Add("sub %s %s", c.ID(), ns)
}

func (e *recExc) Unsubscribe(c *neffos.Conn, ns string) {
	e.wait()
	s := e.state[c]
	lib.Check(s != nil && s.ns[ns], "exchange %s: %s unsubscribes from %q without a subscription", e.name, c.ID(), ns)
	s.ns[ns] = false
	e.log.Add("unsub %s %s", c.ID(), ns)
}

func (e *recExc) Publish(msgs []neffos.Message) bool {
	e.wait()
	var out []string
	for _, m := range msgs {
		f := "f"
		if m.FromExplicit == "" {
			f = ""
		}
		out = append(out, fmt.Sprintf("%s/%s/%s/%s/%s/%s", m.Namespace, m.Room, m.Event, m.Body, m.To, f))
	}
	e.log.Add("pub %s", strings.Join(out, ","))
	if e.onPub != nil {
		e.onPub(msgs)
	}
	return !e.pubFail
}

func (e *recExc) Ask(ctx context.Context, m neffos.Message, token string) (neffos.Message, error) {
	e.wait()
	e.asked = append(e.asked, m)
	e.tokens = append(e.tokens, token)
	e.log.Add("ask %s/%s/%s/%s/%s", m.Namespace, m.Room, m.Event, m.Body, m.To)
	if err := ctx.Err(); err != nil {
		return neffos.Message{Body: []byte("junk")}, err
	}
	if e.askErr != nil {
		return neffos.Message{Body: []byte("junk")}, e.askErr
	}
	return neffos.Message{Body: []byte("reply of " + e.name)}, nil
}

func (e *recExc) NotifyAsk(m neffos.Message, token string) error {
	e.wait()
	e.log.Add("notify %s %s %s", token, m.Body, m.Event)
	return e.noteErr
}

// settled compares an exchange with the connections as they are now.
func (e *recExc) settled() {
	for c, s := range e.state {
		if c.IsClosed() {
			lib.Check(s.withdrawn, "exchange %s: the ended connection %s was never withdrawn", e.name, c.ID())
			continue
		}
		lib.Check(!s.withdrawn, "exchange %s: the open connection %s was withdrawn", e.name, c.ID())
		for _, n := range []string{"x", "y", ""} {
			lib.Check(s.ns[n] == (c.Namespace(n) != nil), "exchange %s: %s connected to %q is %v, subscribed is %v", e.name, c.ID(), n, c.Namespace(n) != nil, s.ns[n])
		}
	}
}

// initExc also has an Init.
type initExc struct {
	*recExc
	err   error
	inits int
	nss   neffos.Namespaces
}

func (e *initExc) Init(n neffos.Namespaces) error {
	e.inits++
	e.nss = n
	return e.err
}

func init() {
	errX := errors.New("exchange says no")
	// install n exchanges; every second one has an Init
	install := func(w *world, n int) []*recExc {
		var out []*recExc
		lib.Must("UseStackExchange(nil)", w.srv.UseStackExchange(nil))
		for i := 0; i < n; i++ {
			e := newExc(fmt.Sprint("e", i))
			out = append(out, e)
			if i%2 == 1 {
				ie := &initExc{recExc: e}
				lib.Must("UseStackExchange", w.srv.UseStackExchange(ie))
				_, hasX := ie.nss["x"]
				lib.Check(ie.inits == 1 && hasX, "Init was called %d times with %v", ie.inits, ie.nss)
			} else {
				lib.Must("UseStackExchange", w.srv.UseStackExchange(e))
			}
			// one that fails to start is reported and not used
			bad := &initExc{recExc: newExc("bad"), err: errX}
			bad.refuse = func(*neffos.Conn) error { vsched.Fail("an exchange whose Init failed is used"); return nil }
			lib.Check(w.srv.UseStackExchange(bad) == errX && bad.inits == 1, "the failed Init is not reported")
		}
		return out
	}
	// every short history
	history := func(n, depth int) func() {
		return func() {
			vsched.Explore(false)
			w := newWorld()
			w.host(w.nss("x", ""))
			excs := install(w, n)
			vetoD := false
			w.on = func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
				if vetoD && side == "S" && m.Event == neffos.OnNamespaceDisconnect && !m.IsLocal {
					return veto("stay")
				}
				return nil
			}
			w.onsrv = func(c *neffos.Conn) error {
				if strings.HasPrefix(c.ID(), "r") {
					return errors.New("refused")
				}
				return nil
			}
			exp := make([][]string, n)
			all := func(f string, a ...any) {
				for i := range exp {
					exp[i] = append(exp[i], fmt.Sprintf(f, a...))
				}
			}
			var hist []string
			open := map[string]map[string]bool{}
			num := 0
			for step := 0; step < depth; step++ {
				ops := []string{"dial", "refused", "cast", "cast2"}
				for i := 0; i < n; i++ {
					ops = append(ops, fmt.Sprint("exc-refused", i))
				}
				for i := 0; i < n-1; i++ {
					ops = append(ops, fmt.Sprint("pub-fail", i))
				}
				var ids []string
				for id := range open {
					ids = append(ids, id)
				}
				sort.Strings(ids)
				for _, id := range ids {
					ops = append(ops, "close "+id, "sclose "+id, "break "+id)
					for _, nn := range []string{"x", ""} {
						if open[id][nn] {
							ops = append(ops, "dis "+id+" "+nn, "sdis "+id+" "+nn, "vdis "+id+" "+nn)
						} else {
							ops = append(ops, "con "+id+" "+nn, "scon "+id+" "+nn)
						}
					}
				}
				c := vsched.Choose(len(ops) + 1)
				if c == len(ops) {
					break
				}
				f := strings.Fields(ops[c])
				hist = append(hist, ops[c])
				id, nn := "", ""
				if len(f) > 1 {
					id = f[1]
				}
				if len(f) > 2 {
					nn = f[2]
				}
				num++
				switch {
				case f[0] == "dial":
					id = fmt.Sprint("c", num)
					w.dial(id, w.nss("x", ""))
					open[id] = map[string]bool{}
					all("connect %s", id)
				case f[0] == "refused":
					id = fmt.Sprint("r", num)
					_, err := neffos.Dial(nil, w.h.Dialer(id), "ws://mem/", w.nss("x", ""))
					lib.Check(errText(err) == "refused", "Dial returned %v", err)
					all("connect %s", id)
					all("disconnect %s", id)
				case strings.HasPrefix(f[0], "exc-refused"):
					k := int(f[0][len(f[0])-1] - '0')
					id = fmt.Sprint("c", num)
					excs[k].refuse = func(*neffos.Conn) error { return errX }
					_, err := neffos.Dial(nil, w.h.Dialer(id), "ws://mem/", w.nss("x", ""))
					lib.Check(errText(err) == errX.Error(), "Dial returned %v, the exchange refused with %v", err, errX)
					excs[k].refuse = nil
					for i := 0; i <= k; i++ {
						exp[i] = append(exp[i], "connect "+id, "disconnect "+id)
					}
				case f[0] == "cast" || f[0] == "cast2":
					ms := []neffos.Message{msg("x", "", "m", fmt.Sprint("b", num))}
					text := fmt.Sprintf("pub x//m/b%d//", num)
					if f[0] == "cast2" {
						m2 := msg("y", "r", "n", "z")
						m2.To = "c1"
						ms = append(ms, m2)
						text = fmt.Sprintf("pub x//m/b%d//f,y/r/n/z/c1/f", num)
						if len(ids) > 0 {
							w.srv.Broadcast(w.conn("S", ids[0]), ms...)
						} else {
							continue
						}
					} else {
						w.srv.Broadcast(nil, ms...)
					}
					all("%s", text)
				case strings.HasPrefix(f[0], "pub-fail"):
					k := int(f[0][len(f[0])-1] - '0')
					excs[k].pubFail = true
					w.srv.Broadcast(nil, msg("x", "", "m", "pf"))
					excs[k].pubFail = false
					all("pub x//m/pf//")
				case f[0] == "close" || f[0] == "sclose" || f[0] == "break":
					switch f[0] {
					case "close":
						w.cli[id].Close()
					case "sclose":
						w.conn("S", id).Close()
					case "break":
						w.h.Get(id).Client.Shut()
					}
					delete(open, id)
					all("disconnect %s", id)
				case f[0] == "con":
					_, err := w.conn("C", id).Connect(bg, nn)
					lib.Must("connect", err)
					open[id][nn] = true
					all("sub %s %s", id, nn)
				case f[0] == "scon":
					_, err := w.conn("S", id).Connect(bg, nn)
					lib.Must("connect", err)
					open[id][nn] = true
					all("sub %s %s", id, nn)
				case f[0] == "dis":
					lib.Must("disconnect", w.conn("C", id).Namespace(nn).Disconnect(bg))
					delete(open[id], nn)
					all("unsub %s %s", id, nn)
				case f[0] == "sdis":
					lib.Must("disconnect", w.conn("S", id).Namespace(nn).Disconnect(bg))
					delete(open[id], nn)
					all("unsub %s %s", id, nn)
				case f[0] == "vdis":
					vetoD = true
					err := w.conn("C", id).Namespace(nn).Disconnect(bg)
					vetoD = false
					lib.Check(errText(err) == "stay", "Disconnect returned %v", err)
				}
				lib.Settle()
				for i, e := range excs {
					lib.Check(reflect.DeepEqual(e.log.L, exp[i]) || len(exp[i])+len(e.log.L) == 0, "after %v exchange %d of %d was told\n%q\nexpected\n%q", hist, i+1, n, e.log.L, exp[i])
					e.settled()
				}
			}
			w.srv.Close()
			lib.Settle()
			for _, e := range excs {
				e.settled()
			}
			for k, l := range w.logs {
				lib.Check(len(l.Filter("m("))+len(l.Filter("n(")) == 0, "%s got %v although an exchange is installed", k, l.L)
			}
			mc.Cases(1)
		}
	}
	// every combination of exchanges that answer or fail an Ask, and of those that take a reply
	asks := func() {
		vsched.Explore(false)
		n := 1 + vsched.Choose(3)
		bits := vsched.Choose(1 << n)
		w := newWorld()
		w.host(w.nss("x"))
		excs := install(w, n)
		want, wantErr := "", ""
		asked := 0
		for i, e := range excs {
			if bits&(1<<i) != 0 {
				e.askErr = fmt.Errorf("no%d", i)
				e.noteErr = e.askErr
			}
			if want == "" {
				asked++
				if e.askErr == nil {
					want, wantErr = "reply of "+e.name, ""
				} else {
					wantErr = e.askErr.Error()
				}
			}
		}
		m := msg("x", "r", "ask", "q")
		m.To = "c1"
		ended, cancel := lib.WithCancel()
		cancel()
		r, err := w.srv.Ask(ended, m)
		lib.Check(err == context.Canceled, "Ask with an ended context returned %q, %v", r.Body, err)
		for _, e := range excs {
			e.log.L, e.asked, e.tokens = nil, nil, nil
		}
		r, err = w.srv.Ask(bg, m)
		lib.Check(errText(err) == wantErr && (err != nil || string(r.Body) == want), "Ask returned %q, %v; expected %q, %q", r.Body, err, want, wantErr)
		for i, e := range excs {
			exp := "ask x/r/ask/q/c1"
			if i >= asked {
				exp = ""
			}
			lib.Check(e.log.String() == exp, "exchange %d was asked %q, expected %q", i, e.log.String(), exp)
			if i < asked {
				lib.Check(e.tokens[0] != "" && e.tokens[0] == excs[0].tokens[0], "exchange %d was given token %q", i, e.tokens[0])
			}
			e.log.L = nil
		}
		// a reply that arrives on any connection is passed on with its token
		p, _ := w.h.Raw("a")
		p.WriteText([]byte("M"), 0)
		p.WriteText([]byte("1!23;x;;ask;0;0;body"), 0)
		lib.Settle()
		for i, e := range excs {
			exp := "connect a"
			if i < asked {
				exp += " notify 123 body ask"
			}
			lib.Check(e.log.String() == exp, "exchange %d was told %q, expected %q", i, e.log.String(), exp)
		}
		mc.Cases(1)
	}
	// schedules
	race := func(shape string) func() {
		return func() {
			w := newWorld()
			var excs []*recExc
			lib.Setup(func() {
				w.host(w.nss("x", "y"))
				excs = install(w, 2)
				for _, e := range excs {
					e.slow = true
				}
				if strings.HasPrefix(shape, "refuse") || shape == "dial-server-close" {
					return
				}
				w.dial("a", w.nss("x", "y"))
				if shape != "connect-connect" && shape != "connect-close" && shape != "connect-sclose" {
					_, err := w.conn("C", "a").Connect(bg, "x")
					lib.Must("connect", err)
				}
			})
			dialed := func() {
				_, err := neffos.Dial(nil, w.h.Dialer("a"), "ws://mem/", w.nss("x", "y"))
				_ = err
			}
			var cc, sc *neffos.Conn
			if w.cli["a"] != nil {
				cc, sc = w.conn("C", "a"), w.conn("S", "a")
			}
			con := func(c *neffos.Conn) func() { return func() { c.Connect(bg, "x") } }
			dis := func(c *neffos.Conn) func() { return func() { c.DisconnectAll(bg) } }
			switch shape {
			case "connect-connect":
				vsched.Par(con(cc), con(sc))
			case "connect-close":
				vsched.Par(con(cc), func() { cc.Close() })
			case "connect-sclose":
				vsched.Par(con(cc), func() { sc.Close() })
			case "dis-dis":
				vsched.Par(dis(cc), dis(sc))
			case "sdis-connect":
				vsched.Par(func() { cc.DisconnectAll(bg); cc.Connect(bg, "x") }, dis(sc))
			case "dis-sclose":
				vsched.Par(dis(cc), func() { sc.Close() })
			case "close-close":
				vsched.Par(func() { cc.Close() }, func() { sc.Close() }, func() { w.srv.Close() })
			case "refuse-close": // the server refuses while the client goes away
				w.onsrv = func(c *neffos.Conn) error { return errors.New("refused") }
				vsched.Par(dialed, func() {
					vsched.Block("accepted", func() bool { return w.h.Get("a") != nil })
					w.h.Get("a").Client.Shut()
				})
			case "refuse-exchange":
				excs[1].refuse = func(*neffos.Conn) error { return errX }
				vsched.Par(dialed, func() {
					vsched.Block("accepted", func() bool { return w.h.Get("a") != nil })
					w.h.Get("a").Client.Shut()
				})
			case "dial-server-close":
				vsched.Par(dialed, func() { w.srv.Close() })
			case "callback-asks", "callback-asks-both": // the callbacks themselves wait for the remote, so later messages overtake them
				w.on = func(side, id, ev string, c *neffos.NSConn, m neffos.Message) error {
					if side == "S" && (m.Event == neffos.OnNamespaceConnected || m.Event == neffos.OnNamespaceConnect || m.Event == neffos.OnNamespaceDisconnect) && m.Namespace == "y" {
						if x := c.Conn.Namespace("x"); x != nil {
							x.Ask(bg, "ask", nil)
						}
					}
					if m.Event == "ask" {
						return answer(m)
					}
					return nil
				}
				if shape == "callback-asks-both" {
					vsched.Par(func() { cc.Connect(bg, "y") }, func() { sc.Connect(bg, "y") })
					lib.Settle()
					lib.Check(cc.Namespace("y") != nil && sc.Namespace("y") != nil, "y is not connected")
					for _, e := range excs {
						lib.Check(e.log.Count("sub a y") == 1, "exchange %s was told %v", e.name, e.log.L)
					}
					break
				}
				vsched.Par(func() {
					cc.Connect(bg, "y")
					if n := cc.Namespace("y"); n != nil {
						n.Disconnect(bg)
					}
					cc.Connect(bg, "y")
				}, func() {
					if n := sc.Namespace("y"); n != nil {
						n.Disconnect(bg)
					}
				})
			}
			lib.Settle()
			for _, e := range excs {
				e.settled()
			}
			if a := w.h.Get("a"); a != nil {
				for _, e := range excs {
					lib.Check(e == excs[1] && shape == "refuse-exchange" || len(e.state) == 1 || a.Err != nil, "%s was announced %d times", e.name, len(e.state))
				}
			}
			vsched.SetOutcome(fmt.Sprint(excs[0].log.L))
		}
	}
	// a server of native messages only: its connections are in the empty namespace from the start
	natives := func() {
		vsched.Explore(false)
		n, hook, end := 1+vsched.Choose(3), vsched.Choose(3), vsched.Choose(4)
		refuse := vsched.Choose(n + 1) // by an exchange, or none
		w := newWorld()
		h := neffos.Events{neffos.OnNativeMessage: func(*neffos.NSConn, neffos.Message) error { return nil }}
		w.host(h)
		switch hook {
		case 0:
			w.srv.OnConnect = nil
		case 1:
			w.onsrv = func(c *neffos.Conn) error { return nil }
		case 2:
			w.onsrv = func(c *neffos.Conn) error { return errors.New("refused") }
		}
		var excs []*recExc
		for i := 0; i < n; i++ {
			e := newExc(fmt.Sprint("e", i))
			if i == refuse {
				e.refuse = func(*neffos.Conn) error { return errX }
			}
			excs = append(excs, e)
			lib.Must("UseStackExchange", w.srv.UseStackExchange(e))
		}
		var exp []string
		for round := 0; round < 2; round++ {
			id := fmt.Sprint("c", round)
			w.dial(id, h)
			lib.Settle()
			c := w.conn("S", id)
			open := refuse == n && hook != 2
			exp = append(exp, "connect "+id)
			if refuse == n {
				exp = append(exp, "sub "+id+" ")
			}
			if open {
				w.srv.Broadcast(nil, neffos.Message{Body: []byte("b"), IsNative: true})
				exp = append(exp, "pub ///b//")
				switch end {
				case 0:
					w.conn("C", id).Close()
				case 1:
					c.Close()
				case 2:
					w.h.Get(id).Server.Shut()
				case 3:
					if round == 1 {
						w.srv.Close()
					} else {
						c.Close()
					}
				}
			}
			lib.Settle()
			exp = append(exp, "disconnect "+id)
			for i, e := range excs {
				want := exp
				if i > refuse {
					want = nil // it never heard of it
				}
				lib.Check(fmt.Sprint(e.log.L) == fmt.Sprint(want), "native only, OnConnect %d, end %d, refused by exchange %d of %d: exchange %d was told %q, expected %q", hook, end, refuse, n, i, e.log.L, want)
			}
			mc.Cases(1)
		}
	}
	reg := func(name string, body func()) *mc.Check {
		return mc.Register("C19", &mc.Scenario{Name: name, Body: body, Bound: 0, Deep: 0, MaxSteps: 1 << 20})
	}
	reg("history-1", history(1, mc.Pick(5, 6)))
	reg("history-2", history(2, mc.Pick(4, 5)))
	reg("history-3", history(3, mc.Pick(4, 5)))
	reg("natives", natives)
	// exchanges stand in for local delivery, in both broadcaster modes, even when all of them fail
	reg("no-local-delivery", func() {
		vsched.Explore(false)
		n, mode, fails := 1+vsched.Choose(3), vsched.Choose(2), vsched.Choose(8)
		w := newWorld()
		w.host(w.nss("x", ""))
		w.srv.SyncBroadcaster = mode == 1
		excs := install(w, n)
		for i, e := range excs {
			e.pubFail = fails>>i&1 == 1
		}
		for _, id := range []string{"a", "b"} {
			w.dial(id, w.nss("x", ""))
			for _, nn := range []string{"x", ""} {
				_, err := w.conn("C", id).Connect(bg, nn)
				lib.Must("connect", err)
			}
		}
		lib.Settle()
		before := w.log("C:a").String() + w.log("C:b").String()
		for _, ex := range []fmt.Stringer{nil, w.conn("S", "a"), neffos.Exclude("b")} {
			for _, to := range []string{"", "a"} {
				m := msg("x", "", "m", "1")
				m.To = to
				for _, ms := range [][]neffos.Message{{m}, {m, msg("", "", "m", "2")}} {
					var had []int
					for _, e := range excs {
						had = append(had, len(e.log.L))
					}
					w.srv.Broadcast(ex, ms...)
					lib.Settle()
					for i, e := range excs {
						lib.Check(len(e.log.L) == had[i]+1, "%d exchanges (failing: %b): exchange %d was told %v of one broadcast", n, fails, i, e.log.L[had[i]:])
					}
					now := w.log("C:a").String() + w.log("C:b").String()
					lib.Check(now == before, "%d exchanges (failing: %b): the server delivered a broadcast by itself: %s", n, fails, now)
					mc.Cases(1)
				}
			}
		}
	})
	c := reg("asks", asks)
	for _, s := range []string{"connect-connect", "connect-close", "connect-sclose", "dis-dis", "sdis-connect", "dis-sclose", "close-close", "refuse-close", "refuse-exchange", "dial-server-close", "callback-asks", "callback-asks-both"} {
		mc.Register("C19", &mc.Scenario{Name: s, Body: race(s), Policies: polSome, Bound: 2, Deep: 3})
	}
	c.Quick = 60 * time.Second
	c.Rule = "every history of up to 5 (one exchange) or 4 (two, three exchanges) dials, refusals, exchange refusals, connects, disconnects (vetoed ones included), ends and broadcasts over recording exchanges, whose calls are compared with the expected ones after every step; every combination of exchanges that fail an Ask; races of connects, disconnects, ends and refusals in all schedules up to the bound."
}
