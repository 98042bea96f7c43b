package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"
	"time"

	"vharness/exch"
	"vharness/lib"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/stackexchange/nats"
	natsgo "github.com/nats-io/nats.go"
	"vsched"
	"vsched/mc"
	"vsched/vnet"
)

// broker is an in-memory nats server: CONNECT, PING, PUB, SUB, UNSUB.
type broker struct {
	l     *vnet.MemListener
	conns []*client
	down  bool
	deny  bool
	hold  bool
	slow  bool
	n     int
}

type client struct {
	c       *vnet.MemConn
	n       int
	echo    bool
	verbose bool
	subs    map[string]string // by sid
	held    []byte
}

const addr = "127.0.0.1:4222"

func newBroker() exch.Broker {
	b := &broker{}
	b.listen()
	return b
}

func (b *broker) listen() {
	l := vnet.ListenMem(addr)
	b.l = l
	vsched.GoNamed("nats", func() {
		vsched.Daemon()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b.n++
			cl := &client{c: c.(*vnet.MemConn), n: b.n, echo: true, subs: map[string]string{}}
			b.conns = append(b.conns, cl)
			vsched.GoNamed("nats-conn", func() { vsched.Daemon(); b.serve(cl) })
		}
	})
}

func (b *broker) Exchange() neffos.StackExchange {
	exc, err := nats.NewStackExchange("nats://"+addr, natsgo.ReconnectJitter(0, 0), natsgo.ReconnectWait(time.Second), natsgo.MaxReconnects(-1))
	lib.Must("NewStackExchange", err)
	return exc
}

func (b *broker) Subs() int {
	n := 0
	for _, c := range b.conns {
		n += len(c.subs)
	}
	return n
}

func (b *broker) Conns() int { return len(b.conns) }

func (b *broker) Drop() {
	for _, c := range b.conns {
		c.c.Close()
	}
	b.conns = nil
}

func (b *broker) Down(on bool) {
	if b.down == on {
		return
	}
	b.down = on
	if on {
		b.l.Close()
	} else {
		b.listen()
	}
}

// Deny makes the broker refuse subscriptions.
func (b *broker) Deny(on bool) { b.deny = on }

func (b *broker) Hold(on bool) {
	b.hold = on
	for _, c := range append([]*client(nil), b.conns...) {
		if h := c.held; len(h) > 0 && !on {
			c.held = nil
			c.c.Write(h)
		}
	}
}

func (b *broker) Slow(on bool) { b.slow = on }

// push delivers a message to a subscriber.
func (b *broker) push(c *client, msg string) {
	if b.hold {
		c.held = append(c.held, msg...)
		return
	}
	c.c.Write([]byte(msg))
}

func (b *broker) drop(c *client) {
	for i, x := range b.conns {
		if x == c {
			b.conns = append(b.conns[:i:i], b.conns[i+1:]...)
			return
		}
	}
}

// valid reports whether a subscription may have the subject.
func valid(subject string) bool {
	toks := strings.Split(subject, ".")
	for i, t := range toks {
		if t == "" || strings.ContainsAny(t, " \t\r\n") || t == ">" && i != len(toks)-1 {
			return false
		}
	}
	return true
}

func match(pattern, subject string) bool {
	p, s := strings.Split(pattern, "."), strings.Split(subject, ".")
	for i, t := range p {
		if t == ">" {
			return len(s) > i
		}
		if i >= len(s) || t != "*" && t != s[i] {
			return false
		}
	}
	return len(p) == len(s)
}

func (b *broker) serve(c *client) {
	defer func() {
		if !vsched.Aborting() {
			c.c.Close()
			b.drop(c)
		}
	}()
	send := func(format string, args ...any) { c.c.Write([]byte(fmt.Sprintf(format, args...))) }
	ok := func() {
		if c.verbose {
			send("+OK\r\n")
		}
	}
	send("INFO {\"server_id\":\"S\",\"version\":\"2.0.0\",\"proto\":1,\"host\":\"127.0.0.1\",\"port\":4222,\"max_payload\":1048576,\"client_id\":%d}\r\n", c.n)
	br := bufio.NewReader(c.c)
	for {
		line, err := br.ReadString('\n')
		if err != nil {
			return
		}
		line = strings.TrimRight(line, "\r\n")
		cmd, rest, _ := strings.Cut(line, " ")
		args := strings.FieldsFunc(rest, func(r rune) bool { return r == ' ' || r == '\t' })
		switch strings.ToUpper(cmd) {
		case "CONNECT":
			var o struct {
				Verbose bool  `json:"verbose"`
				Echo    *bool `json:"echo"`
			}
			lib.Must("CONNECT", json.Unmarshal([]byte(rest), &o))
			c.verbose = o.Verbose
			c.echo = o.Echo == nil || *o.Echo
			ok()
		case "PING":
			send("PONG\r\n")
		case "PONG":
		case "SUB":
			vsched.Block("subscribe", func() bool { return !b.slow })
			if len(args) < 2 || len(args) > 3 {
				send("-ERR 'Unknown Protocol Operation'\r\n")
				return
			}
			if b.deny {
				send("-ERR 'Permissions Violation for Subscription to \"%s\"'\r\n", args[0])
				continue
			}
			if !valid(args[0]) {
				send("-ERR 'Invalid Subject'\r\n")
				continue
			}
			c.subs[args[len(args)-1]] = args[0]
			ok()
		case "UNSUB":
			if len(args) == 1 { // the exchange never sets a limit
				delete(c.subs, args[0])
			}
			ok()
		case "PUB":
			if len(args) < 2 || len(args) > 3 {
				send("-ERR 'Unknown Protocol Operation'\r\n")
				return
			}
			size, err := strconv.Atoi(args[len(args)-1])
			if err != nil {
				send("-ERR 'Unknown Protocol Operation'\r\n")
				return
			}
			buf := make([]byte, size+2)
			if _, err := io.ReadFull(br, buf); err != nil {
				return
			}
			if string(buf[size:]) != "\r\n" {
				send("-ERR 'Unknown Protocol Operation'\r\n")
				return
			}
			ok()
			for _, x := range append([]*client(nil), b.conns...) {
				if x == c && !c.echo {
					continue
				}
				var sids []string
				for sid := range x.subs {
					sids = append(sids, sid)
				}
				sort.Strings(sids)
				for _, sid := range sids {
					if match(x.subs[sid], args[0]) {
						h := "MSG " + args[0] + " " + sid
						if len(args) == 3 {
							h += " " + args[1]
						}
						b.push(x, fmt.Sprintf("%s %d\r\n%s", h, size, buf))
					}
				}
			}
		default:
			send("-ERR 'Unknown Protocol Operation'\r\n")
			return
		}
	}
}

func init() { exch.Register("C22", newBroker, false, 2) }

func main() { mc.Main() }
