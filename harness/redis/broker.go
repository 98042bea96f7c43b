package main

import (
	"bufio"
	"fmt"
	"io"
	"path"
	"sort"
	"strconv"
	"strings"

	"vharness/exch"
	"vharness/lib"

	"github.com/kataras/neffos"
	"github.com/kataras/neffos/stackexchange/redis"
	"vsched"
	"vsched/mc"
	"vsched/vnet"
)

// broker is an in-memory redis: PUBLISH, (P)SUBSCRIBE, (P)UNSUBSCRIBE and PING.
type broker struct {
	l     *vnet.MemListener
	conns []*client
	down  bool
	hold  bool
	slow  bool
	n     int
}

type client struct {
	c         *vnet.MemConn
	n         int
	subs, pat map[string]bool
	held      []byte
}

const addr = "127.0.0.1:6379"

func newBroker() exch.Broker {
	b := &broker{}
	b.listen()
	return b
}

func (b *broker) listen() {
	l := vnet.ListenMem(addr)
	b.l = l
	vsched.GoNamed("redis", func() {
		vsched.Daemon()
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			b.n++
			cl := &client{c: c.(*vnet.MemConn), n: b.n, subs: map[string]bool{}, pat: map[string]bool{}}
			b.conns = append(b.conns, cl)
			vsched.GoNamed("redis-conn", func() { vsched.Daemon(); b.serve(cl) })
		}
	})
}

func (b *broker) Exchange() neffos.StackExchange {
	exc, err := redis.NewStackExchange(redis.Config{MaxActive: 1}, "ch")
	lib.Must("NewStackExchange", err)
	return exc
}

func (b *broker) Subs() int {
	n := 0
	for _, c := range b.conns {
		n += len(c.subs) + len(c.pat)
	}
	return n
}

func (b *broker) Conns() int { return len(b.conns) }

func (b *broker) Drop() {
	for _, c := range b.conns {
		c.c.Close()
	}
	b.conns = nil
}

func (b *broker) Down(on bool) {
	if b.down == on {
		return
	}
	b.down = on
	if on {
		b.l.Close()
	} else {
		b.listen()
	}
}

func (b *broker) Hold(on bool) {
	b.hold = on
	for _, c := range append([]*client(nil), b.conns...) {
		if h := c.held; len(h) > 0 && !on {
			c.held = nil
			c.c.Write(h)
		}
	}
}

func (b *broker) Slow(on bool) { b.slow = on }

// push delivers a message to a subscriber.
func (b *broker) push(c *client, msg string) {
	if b.hold {
		c.held = append(c.held, msg...)
		return
	}
	c.c.Write([]byte(msg))
}

func (b *broker) drop(c *client) {
	for i, x := range b.conns {
		if x == c {
			b.conns = append(b.conns[:i:i], b.conns[i+1:]...)
			return
		}
	}
}

func bulk(s ...string) string {
	out := fmt.Sprintf("*%d\r\n", len(s))
	for _, x := range s {
		if strings.HasPrefix(x, ":") {
			out += x + "\r\n"
		} else {
			x = strings.TrimPrefix(x, "$")
			out += fmt.Sprintf("$%d\r\n%s\r\n", len(x), x)
		}
	}
	return out
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// glob is redis's pattern matching (path.Match is close enough: no '/' appears in the names used here).
func glob(p, s string) bool {
	ok, err := path.Match(p, s)
	return ok && err == nil
}

func (b *broker) serve(c *client) {
	defer func() {
		if !vsched.Aborting() {
			c.c.Close()
			b.drop(c)
		}
	}()
	br := bufio.NewReader(c.c)
	for {
		args, err := command(br)
		if err != nil {
			return
		}
		switch cmd := strings.ToUpper(args[0]); cmd {
		case "PING":
			if len(c.subs)+len(c.pat) > 0 {
				c.c.Write([]byte(bulk("pong", "$")))
			} else {
				c.c.Write([]byte("+PONG\r\n"))
			}
		case "PUBLISH":
			n := 0
			for _, x := range append([]*client(nil), b.conns...) {
				if x.subs[args[1]] {
					b.push(x, bulk("message", "$"+args[1], "$"+args[2]))
					n++
				}
				for _, p := range keys(x.pat) {
					if glob(p, args[1]) {
						b.push(x, bulk("pmessage", "$"+p, "$"+args[1], "$"+args[2]))
						n++
					}
				}
			}
			c.c.Write([]byte(fmt.Sprintf(":%d\r\n", n)))
		case "SUBSCRIBE", "PSUBSCRIBE", "UNSUBSCRIBE", "PUNSUBSCRIBE":
			vsched.Block("subscribe", func() bool { return !b.slow })
			set := c.subs
			if strings.HasPrefix(cmd, "P") {
				set = c.pat
			}
			for _, ch := range args[1:] {
				if strings.HasSuffix(cmd, "UNSUBSCRIBE") {
					delete(set, ch)
				} else {
					set[ch] = true
				}
				c.c.Write([]byte(bulk(strings.ToLower(cmd), "$"+ch, fmt.Sprintf(":%d", len(c.subs)+len(c.pat)))))
			}
		default:
			vsched.Fail("redis: unknown command %q", args)
		}
	}
}

func command(br *bufio.Reader) ([]string, error) {
	n, err := count(br, '*')
	if err != nil {
		return nil, err
	}
	var args []string
	for i := 0; i < n; i++ {
		l, err := count(br, '$')
		if err != nil {
			return nil, err
		}
		buf := make([]byte, l+2)
		if _, err := io.ReadFull(br, buf); err != nil {
			return nil, err
		}
		args = append(args, string(buf[:l]))
	}
	return args, nil
}

func count(br *bufio.Reader, kind byte) (int, error) {
	s, err := br.ReadString('\n')
	if err != nil {
		return 0, err
	}
	if s[0] != kind {
		vsched.Fail("redis: protocol error: %q", s)
	}
	return strconv.Atoi(strings.TrimSpace(s[1:]))
}

func init() { exch.Register("C21", newBroker, true, 2) }

func main() { mc.Main() }
