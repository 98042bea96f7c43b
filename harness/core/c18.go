package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// structWorld keeps what the callbacks of the struct handlers saw.
type structWorld struct {
	*world
	inst map[any]string // instance -> the connection it belongs to
	nsOf map[any]*neffos.NSConn
	made map[*neffos.NSConn]int // injector calls
}

func newStructWorld() *structWorld {
	return &structWorld{world: newWorld(), inst: map[any]string{}, nsOf: map[any]*neffos.NSConn{}, made: map[*neffos.NSConn]int{}}
}

// the state of one instance, and the fields a template carries over.
type payload struct {
	Title string
	Deps  map[string]int
	When  time.Time
	W     *structWorld
	N     int
	L     []string
	Arr   [2]int
	P     *int
	B     bool
	Any   any
	Func  func() string
}

var seven = 7

var epoch = time.Unix(1e9, 0)

func (w *structWorld) template() payload {
	return payload{Title: "t", Deps: map[string]int{"d": 1}, When: epoch, W: w, N: 7, L: []string{"l"}, Arr: [2]int{0, 1}, P: &seven, B: true, Any: 7, Func: func() string { return "f" }}
}

// see is called by every callback of a dynamic struct.
func (w *structWorld) see(self any, conn *neffos.NSConn, p *payload, private string, visits *int, what string, m neffos.Message) error {
	lib.Check(conn != nil, "%s runs on an instance without a connection", what)
	k := lib.Side(conn) + ":" + conn.Conn.ID()
	lib.Check(p.Title == "t" && p.Deps["d"] == 1 && p.When.Equal(epoch) && p.Func != nil && p.Func() == "f" && private == "p",
		"%s of %s: the template's fields are not carried over: %+v %q", what, k, *p, private)
	lib.Check(p.N == 7 && len(p.L) == 1 && p.L[0] == "l" && p.Arr == [2]int{0, 1} && p.P == &seven && p.B && p.Any == 7, "%s of %s: the template's fields are not carried over: %+v", what, k, *p)
	if prev, ok := w.inst[self]; ok {
		lib.Check(prev == k, "%s of %s runs on the instance of %s", what, k, prev)
		lib.Check(w.nsOf[self] == conn, "%s of %s: its instance changed connection", what, k)
	} else {
		w.inst[self], w.nsOf[self] = k, conn
		lib.Check(*visits == 0, "a new instance of %s starts with used state %d", k, *visits)
		for o, ns := range w.nsOf {
			lib.Check(o == self || ns != conn, "%s of %s runs on a second instance for the same connection", what, k)
		}
	}
	*visits++
	w.log(k).Add("%s#%d", what, *visits)
	if w.on != nil {
		return w.on(k[:1], conn.Conn.ID(), what, conn, m)
	}
	return nil
}

// dynField: a connection field.
type dynField struct {
	payload
	private string
	None    any // not set by anybody
	Name    fmt.Stringer
	Conn    *neffos.NSConn
	visits  int
	base    dynBase
}

type dynBase struct {
	t time.Time
	m map[string]string
}

func (d *dynField) s(what string, m neffos.Message) error {
	lib.Check(d.None == nil && d.Name == nil, "%s: a field of the instance that nobody set is %v, %v", what, d.None, d.Name)
	return d.W.see(d, d.Conn, &d.payload, d.private, &d.visits, what, m)
}
func (d *dynField) OnNamespaceConnect(m neffos.Message) error   { return d.s("connect", m) }
func (d *dynField) OnNamespaceConnected(m neffos.Message) error { return d.s("connected", m) }
func (d *dynField) OnNamespaceDisconnect(m neffos.Message) error {
	return d.s("disconnect", m)
}
func (d *dynField) OnRoomJoin(m neffos.Message) error   { return d.s("join", m) }
func (d *dynField) OnRoomJoined(m neffos.Message) error { return d.s("joined", m) }
func (d *dynField) OnRoomLeave(m neffos.Message) error  { return d.s("leave", m) }
func (d *dynField) OnRoomLeft(m neffos.Message) error   { return d.s("left", m) }
func (d *dynField) M(m neffos.Message) error            { return d.s("M", m) }
func (d *dynField) Ask(m neffos.Message) error {
	if err := d.s("Ask", m); err != nil {
		return err
	}
	return neffos.Reply([]byte(fmt.Sprint(lib.Side(d.Conn), d.Conn.Conn.ID(), d.visits)))
}
func (d *dynField) NotEvent(s string) error                            { panic("not an event") }
func (d *dynField) NotEvent2(m neffos.Message)                         { panic("not an event") }
func (d *dynField) NotEvent3(c *neffos.NSConn, m neffos.Message) error { panic("not an event") }

// dynEmbed: an embedded connection, and no OnNamespaceConnect.
type dynEmbed struct {
	*neffos.NSConn
	payload
	private string
	visits  int
}

func (d *dynEmbed) s(what string, m neffos.Message) error {
	return d.W.see(d, d.NSConn, &d.payload, d.private, &d.visits, what, m)
}
func (d *dynEmbed) OnNamespaceConnected(m neffos.Message) error  { return d.s("connected", m) }
func (d *dynEmbed) OnNamespaceDisconnect(m neffos.Message) error { return d.s("disconnect", m) }
func (d *dynEmbed) OnRoomJoin(m neffos.Message) error            { return d.s("join", m) }
func (d *dynEmbed) OnRoomJoined(m neffos.Message) error          { return d.s("joined", m) }
func (d *dynEmbed) OnRoomLeave(m neffos.Message) error           { return d.s("leave", m) }
func (d *dynEmbed) OnRoomLeft(m neffos.Message) error            { return d.s("left", m) }
func (d *dynEmbed) M(m neffos.Message) error                     { return d.s("M", m) }
func (d *dynEmbed) Ask(m neffos.Message) error {
	if err := d.s("Ask", m); err != nil {
		return err
	}
	return neffos.Reply([]byte(fmt.Sprint(lib.Side(d.NSConn), d.NSConn.Conn.ID(), d.visits)))
}

// handler makes one side's struct handler of the kind.
func (w *structWorld) handler(kind int) *neffos.Struct {
	switch kind {
	case 0:
		return neffos.NewStruct(&dynField{payload: w.template(), private: "p"}).SetNamespace("x")
	case 1:
		return neffos.NewStruct(&dynEmbed{payload: w.template(), private: "p"}).SetNamespace("x")
	default: // a custom injector is asked once per namespace connection, and its value is the one used
		return neffos.NewStruct(&dynField{private: "unused"}).SetNamespace("x").SetInjector(func(typ reflect.Type, c *neffos.NSConn) reflect.Value {
			lib.Check(typ == reflect.TypeOf(dynField{}) && c != nil, "injector called with %v, %v", typ, c)
			w.made[c]++
			lib.Check(w.made[c] == 1, "the injector was asked %d times for one namespace connection of %s", w.made[c], c)
			return reflect.ValueOf(&dynField{payload: w.template(), private: "p"})
		})
	}
}

func init() {
	kindName := []string{"field", "embedded", "injector"}
	// every history of two connections: the callbacks and the state they run on
	history := func(kind int) func() {
		ops := []string{"connect", "disconnect", "m", "ask", "room", "redial", "sm", "sask", "sdis"}
		depth := mc.Pick(5, 6)
		return func() {
			vsched.Explore(false)
			w := newStructWorld()
			w.host(w.handler(kind))
			w.dial("a", w.handler(kind))
			w.dial("b", w.handler(kind))
			type st struct {
				held   bool
				cv, sv int // callbacks seen by the current instance of either side
				joined bool
				cl, sl []string
			}
			m := map[string]*st{"a": {}, "b": {}}
			emb := kind == 1
			both := func(s *st, ev string) {
				if emb && ev == "connect" {
					return
				}
				s.cv++
				s.sv++
				s.cl = append(s.cl, fmt.Sprintf("%s#%d", ev, s.cv))
				s.sl = append(s.sl, fmt.Sprintf("%s#%d", ev, s.sv))
			}
			drop := func(s *st) {
				if s.joined {
					both(s, "leave")
					both(s, "left")
				}
				both(s, "disconnect")
				s.held, s.joined, s.cv, s.sv = false, false, 0, 0
			}
			var hist []string
			for i := 0; i < depth; i++ {
				c := vsched.Choose(2*len(ops) + 1)
				if c == 2*len(ops) {
					break
				}
				id, op := string("ab"[c%2]), ops[c/2]
				s := m[id]
				cl := w.cli[id]
				cc, sc := w.conn("C", id), w.conn("S", id)
				if !s.held && op != "connect" && op != "redial" || s.held && op == "connect" || op == "room" && s.joined {
					break // nothing new
				}
				hist = append(hist, op+"-"+id)
				switch op {
				case "connect":
					_, err := cl.Connect(bg, "x")
					lib.Must("connect", err)
					both(s, "connect")
					both(s, "connected")
					s.held = true
				case "disconnect", "sdis":
					if op == "disconnect" {
						lib.Must("disconnect", cc.Namespace("x").Disconnect(bg))
					} else {
						lib.Must("disconnect", sc.Namespace("x").Disconnect(bg))
					}
					drop(s)
				case "m":
					lib.Check(cc.Namespace("x").Emit("M", nil), "emit")
					s.sv++
					s.sl = append(s.sl, fmt.Sprintf("M#%d", s.sv))
				case "sm":
					lib.Check(sc.Namespace("x").Emit("M", nil), "emit")
					s.cv++
					s.cl = append(s.cl, fmt.Sprintf("M#%d", s.cv))
				case "ask":
					r, err := cc.Namespace("x").Ask(bg, "Ask", nil)
					lib.Must("ask", err)
					s.sv++
					s.sl = append(s.sl, fmt.Sprintf("Ask#%d", s.sv))
					lib.Check(string(r.Body) == fmt.Sprint("S", id, s.sv), "after %v the reply was %q", hist, r.Body)
				case "sask":
					r, err := sc.Namespace("x").Ask(bg, "Ask", nil)
					lib.Must("ask", err)
					s.cv++
					s.cl = append(s.cl, fmt.Sprintf("Ask#%d", s.cv))
					lib.Check(string(r.Body) == fmt.Sprint("C", id, s.cv), "after %v the reply was %q", hist, r.Body)
				case "room":
					_, err := cc.Namespace("x").JoinRoom(bg, "r")
					lib.Must("join", err)
					both(s, "join")
					both(s, "joined")
					s.joined = true
				case "redial":
					cl.Close()
					lib.Settle()
					if s.held {
						drop(s)
					}
					w.dial(id, w.handler(kind))
				}
				lib.Settle()
			}
			for id, s := range m {
				for side, want := range map[string][]string{"C": s.cl, "S": s.sl} {
					got := w.log(side + ":" + id).L
					if !sameCalls(got, want) {
						lib.Check(false, "after %v side %s of %s ran\n%v\nexpected\n%v", hist, side, id, got, want)
					}
				}
			}
			mc.Cases(1)
		}
	}
	// concurrent connects and traffic: every instance belongs to one connection
	race := func(kind, shape int) func() {
		return func() {
			w := newStructWorld()
			var ca, cb, sa *neffos.Conn
			lib.Setup(func() {
				w.host(w.handler(kind))
				w.dial("a", w.handler(kind))
				ca, sa = w.conn("C", "a"), w.conn("S", "a")
				if shape == 0 {
					w.dial("b", w.handler(kind))
					cb = w.conn("C", "b")
				}
				if shape == 3 {
					_, err := ca.Connect(bg, "x")
					lib.Must("connect", err)
				}
			})
			use := func(c *neffos.Conn, side string) {
				ns, err := c.Connect(bg, "x")
				lib.Must("connect", err)
				lib.Check(ns.Emit("M", nil), "emit")
				r, err := ns.Ask(bg, "Ask", nil)
				lib.Must("ask", err)
				lib.Check(strings.HasPrefix(string(r.Body), side+c.ID()), "the reply came from %q, not from %s", r.Body, side+c.ID())
			}
			switch shape {
			case 0: // two connections
				vsched.Par(func() { use(ca, "S") }, func() { use(cb, "S") })
			case 1: // both sides at once
				vsched.Par(func() { use(ca, "S") }, func() { use(sa, "C") })
			case 2: // the same side twice
				vsched.Par(func() { use(ca, "S") }, func() { use(ca, "S") })
			case 3: // a message that meets a disconnect and a reconnect
				vsched.Par(func() {
					ca.Namespace("x").Emit("M", nil)
					lib.Must("disconnect", ca.DisconnectAll(bg))
					_, err := ca.Connect(bg, "x")
					lib.Must("connect", err)
				}, func() {
					sa.Write(msg("x", "", "M", ""))
					sa.Write(msg("x", "", "M", ""))
				})
			}
			lib.Settle()
		}
	}
	for k := range kindName {
		mc.Register("C18", &mc.Scenario{Name: "history-" + kindName[k], Body: history(k), Bound: 0, Deep: 0, MaxSteps: 1 << 20})
	}
	for k := range kindName {
		for s, n := range []string{"two-conns", "both-sides", "same-side", "reconnect"} {
			if k == 2 && (s == 1 || s == 2) {
				continue // several attempts of one connection may ask the injector more than once
			}
			mc.Register("C18", &mc.Scenario{Name: "race-" + n + "-" + kindName[k], Body: race(k, s), Policies: polSome, Bound: 2, Deep: 3})
		}
	}
	mc.Register("C18", &mc.Scenario{Name: "matchers", Body: c18matchers, Bound: 0, Deep: 0, MaxSteps: 1 << 20})
	mc.Register("C18", &mc.Scenario{Name: "namespace", Body: c18namespace, Bound: 0, Deep: 0, MaxSteps: 1 << 20})
	c := mc.Register("C18", &mc.Scenario{Name: "static", Body: c18static, Bound: 0, Deep: 0, MaxSteps: 1 << 20})
	c.Quick = 60 * time.Second
	c.Rule = "every history of up to 5 (thorough: 6) of 9 operations on 2 connections with struct handlers on both sides (connection field, embedded connection, custom injector), each callback checked for its instance, its connection, its template fields and the state it finds; concurrent connects of two connections, of both sides and of one side, and a reconnect meeting messages, in all schedules up to the bound; every matcher x method set; every way to give a namespace."
}

// sameCalls compares two lists of calls, in order.
func sameCalls(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	// the forced events of a disconnect differ in order between the sides
	strip := func(l []string) []string {
		out := append([]string(nil), l...)
		for i := range out {
			if s := strings.SplitN(out[i], "#", 2); s[0] == "leave" || s[0] == "left" || s[0] == "disconnect" {
				out[i] = s[0]
			}
		}
		return out
	}
	x, y := strip(a), strip(b)
	for i := 0; i < len(x); {
		j := i
		for j < len(x) && (x[j] == "leave" || x[j] == "left" || x[j] == "disconnect") {
			j++
		}
		if j == i {
			if x[i] != y[i] {
				return false
			}
			i++
			continue
		}
		sort.Strings(x[i:j])
		sort.Strings(y[i:j])
		for ; i < j; i++ {
			if x[i] != y[i] {
				return false
			}
		}
	}
	return true
}

// matcher types: the same methods on a dynamic and a static struct

type matchDyn struct {
	Conn *neffos.NSConn
	Hit  *string
}

func (d *matchDyn) OnM(m neffos.Message) error                  { *d.Hit += "OnM"; return nil }
func (d *matchDyn) On(m neffos.Message) error                   { *d.Hit += "On"; return nil }
func (d *matchDyn) OM(m neffos.Message) error                   { *d.Hit += "OM"; return nil }
func (d *matchDyn) OnOnline(m neffos.Message) error             { *d.Hit += "OnOnline"; return nil }
func (d *matchDyn) OnnOnO(m neffos.Message) error               { *d.Hit += "OnnOnO"; return nil }
func (d *matchDyn) M(m neffos.Message) error                    { *d.Hit += "M"; return nil }
func (d *matchDyn) OnNamespaceConnect(m neffos.Message) error   { *d.Hit += "c"; return nil }
func (d *matchDyn) OnNamespaceConnected(m neffos.Message) error { *d.Hit += "cd"; return nil }
func (d *matchDyn) OnNamespaceDisconnect(m neffos.Message) error {
	*d.Hit += "d"
	return nil
}
func (d *matchDyn) OnRoomJoin(m neffos.Message) error   { *d.Hit += "j"; return nil }
func (d *matchDyn) OnRoomJoined(m neffos.Message) error { *d.Hit += "jd"; return nil }
func (d *matchDyn) OnRoomLeave(m neffos.Message) error  { *d.Hit += "l"; return nil }
func (d *matchDyn) OnRoomLeft(m neffos.Message) error   { *d.Hit += "lt"; return nil }
func (d *matchDyn) OnBad(s string) error                { panic("not an event") }
func (d *matchDyn) OnBad2(m neffos.Message)             { panic("not an event") }
func (d *matchDyn) hidden(m neffos.Message) error       { panic("not an event") }

type matchStatic struct{ Hit *string }

func (d *matchStatic) OnM(c *neffos.NSConn, m neffos.Message) error { *d.Hit += "OnM"; return nil }
func (d *matchStatic) On(c *neffos.NSConn, m neffos.Message) error  { *d.Hit += "On"; return nil }
func (d *matchStatic) OM(c *neffos.NSConn, m neffos.Message) error  { *d.Hit += "OM"; return nil }
func (d *matchStatic) OnOnline(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "OnOnline"
	return nil
}
func (d *matchStatic) OnnOnO(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "OnnOnO"
	return nil
}
func (d *matchStatic) M(c *neffos.NSConn, m neffos.Message) error { *d.Hit += "M"; return nil }
func (d *matchStatic) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "c"
	return nil
}
func (d *matchStatic) OnNamespaceConnected(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "cd"
	return nil
}
func (d *matchStatic) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "d"
	return nil
}
func (d *matchStatic) OnRoomJoin(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "j"
	return nil
}
func (d *matchStatic) OnRoomJoined(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "jd"
	return nil
}
func (d *matchStatic) OnRoomLeave(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "l"
	return nil
}
func (d *matchStatic) OnRoomLeft(c *neffos.NSConn, m neffos.Message) error {
	*d.Hit += "lt"
	return nil
}
func (d *matchStatic) OnBad(m neffos.Message) error                    { panic("not an event") }
func (d *matchStatic) OnBad2(c *neffos.NSConn, m neffos.Message)       { panic("not an event") }
func (d *matchStatic) hidden(c *neffos.NSConn, m neffos.Message) error { panic("not an event") }

func c18matchers() {
	sys := map[string]string{neffos.OnNamespaceConnect: "c", neffos.OnNamespaceConnected: "cd", neffos.OnNamespaceDisconnect: "d",
		neffos.OnRoomJoin: "j", neffos.OnRoomJoined: "jd", neffos.OnRoomLeave: "l", neffos.OnRoomLeft: "lt"}
	custom := []string{"OnM", "On", "OM", "M", "OnOnline", "OnnOnO"}
	type mt struct {
		name string
		f    neffos.EventMatcherFunc
		want func(string) (string, bool)
	}
	ms := []mt{{"none", nil, func(s string) (string, bool) { return s, true }},
		{"no method", func(string) (string, bool) { return "x", false }, func(s string) (string, bool) { return "", false }},
		{"renaming", func(s string) (string, bool) { return "<" + s + ">", s != "On" }, func(s string) (string, bool) { return "<" + s + ">", s != "On" }}}
	for _, p := range []string{"", "O", "On", "OnM", "M", "Z", "OnN", "OnNamespace", "OnRoomJoin"} {
		p := p
		ms = append(ms, mt{"prefix " + p, neffos.EventPrefixMatcher(p), func(s string) (string, bool) { return s, strings.HasPrefix(s, p) }})
		ms = append(ms, mt{"trim " + p, neffos.EventTrimPrefixMatcher(p), func(s string) (string, bool) { return strings.TrimPrefix(s, p), strings.HasPrefix(s, p) }})
	}
	for _, m := range ms {
		for dyn := 0; dyn < 2; dyn++ {
			var hit string
			want := map[string]string{}
			for k, v := range sys {
				want[k] = v
			}
			for _, c := range custom {
				if n, ok := m.want(c); ok {
					want[n] = c
				}
			}
			var s *neffos.Struct
			if dyn == 1 {
				s = neffos.NewStruct(&matchDyn{Hit: &hit})
			} else {
				s = neffos.NewStruct(&matchStatic{Hit: &hit})
			}
			nss := s.SetEventMatcher(m.f).SetNamespace("x").GetNamespaces()
			lib.Check(len(nss) == 1 && nss["x"] != nil, "matcher %s: namespaces %v", m.name, nss)
			evs := nss["x"]
			var got, exp []string
			c := &neffos.NSConn{}
			if f := evs[neffos.OnNamespaceConnect]; f != nil {
				lib.Must("OnNamespaceConnect", f(c, neffos.Message{}))
			}
			for e, f := range evs {
				hit = ""
				lib.Must(e, f(c, neffos.Message{Event: e}))
				got = append(got, e+"="+hit)
			}
			for e, h := range want {
				exp = append(exp, e+"="+h)
			}
			sort.Strings(got)
			sort.Strings(exp)
			lib.Check(reflect.DeepEqual(got, exp), "matcher %s on a struct (dynamic=%d) gives\n%v\nexpected\n%v", m.name, dyn, got, exp)
			mc.Cases(1)
		}
	}
}

type nsMethod struct{ Name string }

func (n *nsMethod) Namespace() string                          { return n.Name }
func (n *nsMethod) M(c *neffos.NSConn, m neffos.Message) error { return nil }

type nsField struct {
	Namespace string
	Conn      *neffos.NSConn
}

func (n *nsField) M(m neffos.Message) error { return neffos.Reply([]byte(n.Namespace)) }

type nsNone struct{}

func (n *nsNone) M(c *neffos.NSConn, m neffos.Message) error { return nil }

func c18namespace() {
	for _, n := range []string{"", "x", "y"} {
		for _, set := range []string{"", "x", "z"} {
			for kind, mk := range []func() *neffos.Struct{
				func() *neffos.Struct { return neffos.NewStruct(&nsMethod{n}) },
				func() *neffos.Struct { return neffos.NewStruct(&nsField{Namespace: n}) },
				func() *neffos.Struct { return neffos.NewStruct(&nsNone{}) },
				func() *neffos.Struct { return neffos.NewStruct(neffos.NewStruct(&nsMethod{n})) },
				func() *neffos.Struct { return neffos.NewStruct(reflect.ValueOf(&nsMethod{n})) },
			} {
				s := mk()
				want := n
				if kind == 2 {
					want = ""
				}
				if set != "" {
					s.SetNamespace(set)
					want = set
				}
				nss := s.GetNamespaces()
				lib.Check(len(nss) == 1 && nss[want]["M"] != nil, "kind %d with namespace %q, set to %q: %v", kind, n, set, nss)
				// joined with another handler
				j := neffos.JoinConnHandlers(mk().SetNamespace("j"), neffos.Namespaces{"k": {"e": nil}}).GetNamespaces()
				_, k := j["k"]["e"]
				lib.Check(len(j) == 2 && j["j"]["M"] != nil && k, "a joined struct gives %v", j)
				mc.Cases(1)
			}
		}
	}
	// Events() put under several namespaces: still one instance for each namespace connection
	w := newStructWorld()
	h := w.handler(vsched.Choose(2))
	vsched.Explore(false)
	w.host(neffos.Namespaces{"x": h.Events(), "y": h.Events()})
	w.dial("a", neffos.Namespaces{"x": {}, "y": {}})
	for i, n := range []string{"x", "y", "x"} {
		if i == 2 {
			lib.Must("disconnect", w.conn("C", "a").Namespace(n).Disconnect(bg))
		}
		ns, err := w.cli["a"].Connect(bg, n)
		lib.Must("connect", err)
		r, err := ns.Ask(bg, "Ask", nil)
		lib.Must("ask", err)
		lib.Check(strings.HasPrefix(string(r.Body), "Sa"), "reply %q", r.Body)
	}
	lib.Settle()
	lib.Check(len(w.inst) == 3, "%d instances for 3 namespace connections", len(w.inst))
}

type staticStruct struct {
	n    int
	log  []string
	self *staticStruct
}

func (s *staticStruct) see(c *neffos.NSConn, m neffos.Message) error {
	lib.Check(s == s.self, "a static struct's callback runs on another value")
	s.n++
	s.log = append(s.log, fmt.Sprintf("%s:%s#%d", c.Conn.ID(), strings.TrimPrefix(m.Event, "_On"), s.n))
	return nil
}
func (s *staticStruct) OnNamespaceConnect(c *neffos.NSConn, m neffos.Message) error {
	return s.see(c, m)
}
func (s *staticStruct) OnNamespaceDisconnect(c *neffos.NSConn, m neffos.Message) error {
	return s.see(c, m)
}
func (s *staticStruct) M(c *neffos.NSConn, m neffos.Message) error { return s.see(c, m) }

// a static struct is one value for all connections, and each call gets its connection.
func c18static() {
	vsched.Explore(false)
	s := &staticStruct{}
	s.self = s
	w := newWorld()
	w.host(neffos.NewStruct(s).SetNamespace("x"))
	cl := neffos.Namespaces{"x": {}}
	w.dial("a", cl)
	w.dial("b", cl)
	held := map[string]bool{}
	var want []string
	for i := 0; i < 6; i++ {
		c := vsched.Choose(7)
		if c == 6 {
			break
		}
		id := string("ab"[c%2])
		cc := w.conn("C", id)
		n := len(want) + 1
		switch c / 2 {
		case 0:
			if held[id] {
				return
			}
			held[id] = true
			_, err := cc.Connect(bg, "x")
			lib.Must("connect", err)
			want = append(want, fmt.Sprintf("%s:NamespaceConnect#%d", id, n))
		case 1:
			if !held[id] {
				return
			}
			held[id] = false
			lib.Must("disconnect", cc.DisconnectAll(bg))
			want = append(want, fmt.Sprintf("%s:NamespaceDisconnect#%d", id, n))
		case 2:
			if !held[id] {
				return
			}
			cc.Write(msg("x", "", "M", ""))
			lib.Settle()
			want = append(want, fmt.Sprintf("%s:M#%d", id, n))
		}
	}
	lib.Check(reflect.DeepEqual(s.log, want) || len(s.log)+len(want) == 0, "ran %v, expected %v", s.log, want)
	mc.Cases(1)
}
