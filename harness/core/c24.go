package main

import (
	"errors"
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"reflect"
	"strings"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// gate is a server whose every entry point is counted.
type gate struct {
	srv                                      *neffos.Server
	upgraded, ids, connected, failed, wraped int
	fail                                     error
	seen                                     http.Header
	lastErr                                  error
	peers                                    []*lib.End
}

func newGate() *gate {
	g := &gate{}
	g.srv = neffos.New(func(w http.ResponseWriter, r *http.Request) (neffos.Socket, error) {
		g.upgraded++
		g.seen = r.Header.Clone()
		if g.fail != nil {
			return nil, g.fail
		}
		c, s := lib.Pair("c", "s")
		g.peers = append(g.peers, c)
		return s, nil
	}, neffos.Namespaces{"x": {}})
	g.srv.IDGenerator = func(w http.ResponseWriter, r *http.Request) string {
		g.ids++
		return fmt.Sprint("gen", g.ids)
	}
	g.srv.OnConnect = func(c *neffos.Conn) error { g.connected++; return nil }
	g.srv.OnUpgradeError = func(err error) { g.failed++; g.lastErr = err }
	return g
}

const hdrPrefix = "X-Websocket-Header-"

func init() {
	methods := []string{"GET", "HEAD", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "CONNECT", "TRACE", "get", "Get", "GETT", "GE", "PROPFIND"}
	errUp := errors.New("bad handshake")
	// who is let in
	methodsBody := func() {
		vsched.Explore(false)
		for _, closed := range []bool{false, true} {
			for _, fail := range []bool{false, true} {
				for _, noHook := range []bool{false, true} {
					for _, form := range []int{0, 1, 2} {
						g := newGate()
						if fail {
							g.fail = errUp
						}
						if noHook {
							g.srv.OnUpgradeError = nil
						}
						if closed {
							g.srv.Close()
						}
						open := 0
						for _, m := range append(append([]string(nil), methods...), "HEAD", "GET", "POST") {
							before := *g
							rec := httptest.NewRecorder()
							r := httptest.NewRequest("GET", "/ws?"+hdrPrefix+"Q=1", nil)
							r.Method = m
							what := fmt.Sprintf("%s (closed %v, upgrader fails %v, form %d)", m, closed, fail, form)
							var c *neffos.Conn
							var err error
							wantID := fmt.Sprint("gen", g.ids+1)
							switch form {
							case 0:
								c, err = g.srv.Upgrade(rec, r, nil, nil)
							case 1:
								g.srv.ServeHTTP(rec, r)
							case 2:
								wantID = "custom"
								c, err = g.srv.Upgrade(rec, r, func(s neffos.Socket) neffos.Socket { g.wraped++; return &wrapped{s} },
									func(w http.ResponseWriter, r *http.Request) string { return "custom" })
							}
							lib.Settle()
							enters := m == "GET" && !closed
							accepted := enters && !fail
							lib.Check((g.upgraded-before.upgraded == 1) == enters && g.upgraded-before.upgraded <= 1, "%s: the upgrader was called %d times", what, g.upgraded-before.upgraded)
							wantFail := 0
							if enters && fail && !noHook {
								wantFail = 1
							}
							lib.Check(g.failed-before.failed == wantFail && (wantFail == 0 || g.lastErr == errUp), "%s: OnUpgradeError was called %d times (%v)", what, g.failed-before.failed, g.lastErr)
							n := 0
							if accepted {
								n = 1
							}
							open += n
							lib.Check(g.connected-before.connected == n, "%s: OnConnect was called %d times", what, g.connected-before.connected)
							if form == 2 {
								lib.Check(g.ids == before.ids && g.wraped-before.wraped == n, "%s: the server's ID generator was called %d times, the socket was wrapped %d times", what, g.ids-before.ids, g.wraped-before.wraped)
							} else {
								lib.Check(g.ids-before.ids == n, "%s: the ID generator was called %d times", what, g.ids-before.ids)
							}
							lib.Check(int(g.srv.GetTotalConnections()) == open, "%s: %d connections registered, expected %d", what, g.srv.GetTotalConnections(), open)
							if accepted {
								if form != 1 {
									lib.Check(err == nil && c != nil && c.ID() == wantID && c.Server() == g.srv && !c.WasReconnected(), "%s: Upgrade returned %v, %v", what, c, err)
									if form == 2 {
										_, ok := c.Socket().(*wrapped)
										lib.Check(ok, "%s: the wrapped socket is not used", what)
									}
								}
							} else if form != 1 {
								lib.Check(err != nil && c == nil, "%s: Upgrade returned %v, %v", what, c, err)
								lib.Check(neffos.IsTryingToReconnect(err) == (m == "HEAD" && !closed), "%s: IsTryingToReconnect(%v) is %v", what, err, neffos.IsTryingToReconnect(err))
								if enters {
									lib.Check(err == errUp, "%s: Upgrade returned %v", what, err)
								}
							}
							switch {
							case closed:
								lib.Check(rec.Code == 500, "%s: answered with %d", what, rec.Code)
							case m == "HEAD":
								lib.Check(rec.Code == 302, "%s: answered with %d", what, rec.Code)
							case m != "GET":
								lib.Check(rec.Code == 405 && strings.Contains(rec.Header().Get("Allow"), "GET"), "%s: answered with %d, Allow %q", what, rec.Code, rec.Header().Get("Allow"))
							}
							mc.Cases(1)
						}
					}
				}
			}
		}
	}
	// which parameters become headers
	params := func() {
		vsched.Explore(false)
		prefixes := []string{hdrPrefix, strings.ToLower(hdrPrefix), strings.ToUpper(hdrPrefix), "X-WebSocket-Header-", "x-Websocket-HEADER-",
			"X-Websocket-Header", "Websocket-Header-", "aX-Websocket-Header-", "X-Websocket-Header_", "X-Websocket-Headers-", " X-Websocket-Header-"}
		suffixes := []string{"", "A", "a", "a-b", "X-Foo", "AUTHORIZATION", "X-Websocket-Header-Z"}
		var keys []string
		for _, p := range prefixes {
			for _, s := range suffixes {
				keys = append(keys, p+s)
			}
		}
		keys = append(keys, "", "a", "token")
		vals := [][]string{{""}, {"1"}, {"1", "2"}, {"a b&=;", "é"}}
		first := vsched.Choose(len(keys))
		g := newGate()
		for k2 := range keys {
			for vi, v := range vals {
				for _, pre := range []int{0, 1, 2} {
					q := url.Values{}
					q[keys[first]] = v
					if k2 != first {
						q[keys[k2]] = vals[(vi+1)%len(vals)]
					}
					r := httptest.NewRequest("GET", "/ws?"+q.Encode(), nil)
					want := http.Header{}
					switch pre {
					case 0:
						r.Header = nil
					case 1:
						r.Header = http.Header{}
					case 2:
						r.Header = http.Header{"A": {"own"}, "X-Bar": {"1"}}
						want = r.Header.Clone()
					}
					// the order of equal names from different parameters is not specified
					multi := map[string]int{}
					for k, vs := range q {
						if len(k) > len(hdrPrefix) && strings.EqualFold(k[:len(hdrPrefix)], hdrPrefix) {
							n := http.CanonicalHeaderKey(k[len(hdrPrefix):])
							want[n] = append(want[n], vs...)
							multi[n]++
						}
					}
					_, err := g.srv.Upgrade(httptest.NewRecorder(), r, nil, nil)
					lib.Must("upgrade", err)
					what := fmt.Sprintf("query %q with headers %d", q.Encode(), pre)
					lib.Check(len(g.seen) == len(want), "%s: the upgrader saw the headers %v, expected %v", what, g.seen, want)
					for n, vs := range want {
						got := g.seen[n]
						if multi[n] < 2 {
							lib.Check(reflect.DeepEqual(got, vs), "%s: header %s is %q, expected %q", what, n, got, vs)
						} else {
							lib.Check(len(got) == len(vs), "%s: header %s is %q, expected %q", what, n, got, vs)
						}
					}
					mc.Cases(1)
				}
			}
		}
	}
	reconnect := func() {
		vsched.Explore(false)
		type tc struct {
			v    string
			want int
		}
		for _, t := range []tc{{"", 0}, {"0", 0}, {"1", 1}, {"2", 2}, {"10", 10}, {"007", 7}, {"2147483647", 2147483647}, {"abc", 0}, {"1x", 0}, {"1.5", 0}, {"010", 10}, {"08", 8}, {"0x5", 0}, {"0b1", 0}, {"0o7", 0}, {"1_000", 0}, {"+3", 3}, {"1e2", 0}, {"-", 0}} {
			for _, how := range []int{0, 1, 2, 3} {
				g := newGate()
				var tries int
				var was bool
				g.srv.OnConnect = func(c *neffos.Conn) error { tries, was = c.ReconnectTries, c.WasReconnected(); return nil }
				u := "/ws"
				switch how {
				case 1:
					u += "?" + hdrPrefix + "X-Websocket-Reconnect=" + url.QueryEscape(t.v)
				case 2:
					u += "?x-websocket-header-x-websocket-reconnect=" + url.QueryEscape(t.v)
				case 3:
					u += "?X-Websocket-Reconnect=5" // not prefixed: means nothing
				}
				r := httptest.NewRequest("GET", u, nil)
				if how == 0 && t.v != "" || how == 3 {
					r.Header.Set("x-websocket-reconnect", t.v)
				}
				c, err := g.srv.Upgrade(httptest.NewRecorder(), r, nil, nil)
				lib.Must("upgrade", err)
				lib.Check(c.ReconnectTries == t.want && c.WasReconnected() == (t.want > 0) && tries == t.want && was == (t.want > 0),
					"reconnect header %q (given in way %d): ReconnectTries is %d (%d in OnConnect), WasReconnected %v", t.v, how, c.ReconnectTries, tries, c.WasReconnected())
				mc.Cases(1)
			}
		}
	}
	// a request that meets Close: it is either turned away or ended, never left open
	closing := func(method string, fail bool) func() {
		return func() {
			g := newGate()
			if fail {
				g.fail = errUp
			}
			rec := httptest.NewRecorder()
			vsched.Par(func() {
				r := httptest.NewRequest("GET", "/ws", nil)
				r.Method = method
				c, err := g.srv.Upgrade(rec, r, nil, nil)
				lib.Check((c == nil) == (err != nil), "Upgrade returned %v, %v", c, err)
			}, func() { g.srv.Close() })
			lib.Settle()
			lib.Check(g.srv.GetTotalConnections() == 0, "%d connections are registered in a closed server", g.srv.GetTotalConnections())
			for _, p := range g.peers {
				lib.Check(p.Peer().Closed(), "a socket is left open by a closed server")
			}
			lib.Check(g.upgraded <= 1 && g.connected <= g.upgraded && g.failed <= g.upgraded && (!fail || g.connected == 0 && g.failed == g.upgraded), "%+v", g)
			vsched.SetOutcome(fmt.Sprint(rec.Code, g.upgraded, g.connected))
		}
	}
	reg := func(name string, body func()) *mc.Check {
		return mc.Register("C24", &mc.Scenario{Name: name, Body: body, Bound: 0, Deep: 0, MaxSteps: 1 << 22})
	}
	reg("methods", methodsBody)
	reg("params", params)
	c := reg("reconnect", reconnect)
	for _, m := range []string{"GET", "HEAD"} {
		mc.Register("C24", &mc.Scenario{Name: "closing-" + m, Body: closing(m, false), Policies: polAll, Bound: 3, Deep: 5})
	}
	mc.Register("C24", &mc.Scenario{Name: "closing-fail", Body: closing("GET", true), Policies: polAll, Bound: 3, Deep: 5})
	c.Quick = 40 * time.Second
	c.Rule = "14 methods x open/closed server x upgrader ok/failing x with/without OnUpgradeError x Upgrade/ServeHTTP/Upgrade with wrapper and ID; every pair of 80 query keys (spellings of the prefix x header names) x 4 value lists x 3 header states; 10 reconnect values given in 4 ways; a request meeting Server.Close in all schedules up to the bound."
}

type wrapped struct{ neffos.Socket }
