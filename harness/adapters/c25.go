package main

import (
	"bufio"
	"bytes"
	"fmt"
	"net"
	"net/http"
	"reflect"
	"time"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
	"vsched/vnet"
)

var (
	polAll = []vsched.Policy{vsched.PolRun, vsched.PolLIFO, vsched.PolRotate, vsched.PolNewest, vsched.PolOldest}
	polTwo = []vsched.Policy{vsched.PolRun, vsched.PolRotate}
)

// splitter limits the bytes a Read returns so that no Read crosses a cut of the stream.
type splitter struct {
	pos  int
	cuts func(pos int) int // the first cut after pos
}

func (s *splitter) next(n int) int {
	if c := s.cuts(s.pos); c > s.pos && n > c-s.pos {
		n = c - s.pos
	}
	s.pos += n
	return n
}

// cutEvery cuts the stream every k bytes.
func cutEvery(k int) func(int) int {
	s := &splitter{cuts: func(pos int) int { return (pos/k + 1) * k }}
	return s.next
}

// cutAt cuts the stream once.
func cutAt(k int) func(int) int {
	s := &splitter{cuts: func(pos int) int { return k }}
	return s.next
}

func errOf(f func() error) (err error, pan any) {
	defer func() {
		if r := recover(); r != nil && !vsched.Aborting() {
			pan = r
		}
	}()
	return f(), nil
}

func isTimeout(err error) bool {
	ne, ok := err.(net.Error)
	return ok && ne.Timeout()
}

func init() {
	// every sequence of messages through every pairing, under every cut of the stream
	pairs := func() {
		vsched.Explore(false)
		c, s, up := vsched.Choose(2), vsched.Choose(2), vsched.Choose(2) == 0
		sizes := []int{0, 1, 125, 126, 127, 4096, 65535, 65536, 70001}
		var all []msg
		for i, n := range sizes {
			all = append(all, msg{false, fill(n, i)}, msg{true, fill(n, i+1)})
		}
		all = append(all, msg{true, "\x00\xff\xfe\x80"}, msg{false, "é€😀"})
		run := func(seq []msg, cut func(int) int, how string) {
			l := newLink(c, s)
			w, r, rc := l.cli, l.srv, l.sc
			if !up {
				w, r, rc = l.srv, l.cli, l.cc
			}
			rc.Split = cut
			for _, m := range seq {
				lib.Must("write of "+m.String(), writeMsg(w, m))
			}
			what := fmt.Sprintf("%s client, %s server, to the server %v, %v, %s", libName[c], libName[s], up, seq, how)
			var kept [][]byte
			for _, m := range seq {
				b, t, err := r.ReadData(0)
				lib.Check(err == nil, "%s: ReadData failed: %v", what, err)
				got := mkMsg(b, t)
				lib.Check(got == m, "%s: %v was read instead of %v", what, got, m)
				kept = append(kept, b)
			}
			for i, m := range seq {
				lib.Check(string(kept[i]) == m.data, "%s: the bytes of message %d changed after they were read", what, i)
			}
			lib.Check(rc.Buffered() == 0, "%s: %d bytes are left", what, rc.Buffered())
			l.cc.Close()
			l.sc.Close()
			mc.Cases(1)
		}
		// whole alphabet, sequences of up to 2 (3), joined; singles in pieces
		for _, a := range all {
			run([]msg{a}, nil, "joined")
			for _, k := range []int{1, 2, 3, 7, 1000, 4095, 4096, 4097} {
				if len(a.data)/k <= 5000 {
					run([]msg{a}, cutEvery(k), fmt.Sprint("in pieces of ", k))
				}
			}
			for _, b := range all {
				run([]msg{a, b}, nil, "joined")
				if len(a.data)+len(b.data) < 600 {
					run([]msg{a, b}, cutEvery(1), "in single bytes")
				}
			}
		}
		small := []msg{{false, ""}, {true, ""}, {false, "ab"}, {true, "\x80c"}, {false, fill(126, 3)}, {false, "é€"}}
		n := mc.Pick(2, 3)
		var rec func(seq []msg)
		rec = func(seq []msg) {
			if len(seq) > 0 {
				total := 0
				for _, m := range seq {
					total += 8 + len(m.data)
				}
				for k := 1; k < total; k++ {
					run(seq, cutAt(k), fmt.Sprint("cut at ", k))
				}
				if len(seq) <= 3 {
					run(seq, cutEvery(1), "in single bytes")
				}
			}
			if len(seq) < n {
				for _, m := range small {
					rec(append(seq[:len(seq):len(seq)], m))
				}
			}
		}
		rec(nil)
	}

	// every sequence of frames a peer may send
	type item struct {
		name string
		f    frame
		end  bool // ends the reading
		raw  []byte
		flip bool
	}
	items := []item{
		{name: "text", f: frame{true, 0, 1, []byte("ta")}},
		{name: "bin", f: frame{true, 0, 2, []byte{0xff, 0}}},
		{name: "empty", f: frame{true, 0, 1, nil}},
		{name: "text+", f: frame{false, 0, 1, []byte("c\xc3")}},
		{name: "bin+", f: frame{false, 0, 2, []byte("d")}},
		{name: "bin+empty", f: frame{false, 0, 2, nil}},
		{name: "cont+", f: frame{false, 0, 0, []byte("\xa9e")}},
		{name: "cont+2", f: frame{false, 0, 0, nil}},
		{name: "cont", f: frame{true, 0, 0, []byte("\xa9f")}},
		{name: "contempty", f: frame{true, 0, 0, nil}},
		{name: "ping", f: frame{true, 0, 9, nil}},
		{name: "pingp", f: frame{true, 0, 9, []byte("pp")}},
		{name: "pong", f: frame{true, 0, 10, nil}},
		{name: "pongq", f: frame{true, 0, 10, []byte("q")}},
		{name: "ping125", f: frame{true, 0, 9, []byte(fill(125, 0))}},
		{name: "close", f: frame{true, 0, 8, nil}, end: true},
		{name: "close1000", f: frame{true, 0, 8, []byte{3, 232}}, end: true},
		{name: "close1001", f: frame{true, 0, 8, []byte("\x03\xe9bye")}, end: true},
		{name: "close1", f: frame{true, 0, 8, []byte{3}}, end: true},
		{name: "close999", f: frame{true, 0, 8, []byte{3, 231}}, end: true},
		{name: "rsv", f: frame{true, 4, 1, []byte("r")}, end: true},
		{name: "rsv3", f: frame{true, 1, 2, []byte("r")}, end: true},
		{name: "op3", f: frame{true, 0, 3, []byte("r")}, end: true},
		{name: "op11", f: frame{true, 0, 11, []byte("r")}, end: true},
		{name: "ping+", f: frame{false, 0, 9, []byte("r")}, end: true},
		{name: "ping126", f: frame{true, 0, 9, []byte(fill(126, 0))}, end: true},
		{name: "badmask", f: frame{true, 0, 1, []byte("r")}, end: true, flip: true},
		{name: "eof", end: true},
	}
	frames := func() {
		vsched.Explore(false)
		which, client := vsched.Choose(2), vsched.Choose(2) == 0
		first := vsched.Choose(len(items))
		depth := mc.Pick(4, 5)
		run := func(seq []item, cut func(int) int, chop int, how string) {
			var stream []byte
			var want []msg
			var pongs []string
			// what a correct reader makes of it
			frag, bad := 0, false
			var acc []byte
			names := ""
			for i, it := range seq {
				names += it.name + " "
				if it.name == "eof" {
					break
				}
				enc := it.f.enc(!client != it.flip)
				if i == len(seq)-1 && chop >= 0 {
					stream = append(stream, enc[:chop]...)
					break
				}
				stream = append(stream, enc...)
				if it.end {
					break
				}
				switch it.f.op {
				case 1, 2:
					if frag != 0 {
						bad = true
						break
					}
					if it.f.fin {
						want = append(want, msg{it.f.op == 2, string(it.f.data)})
					} else {
						frag, acc = int(it.f.op), append([]byte(nil), it.f.data...)
					}
				case 0:
					if frag == 0 {
						bad = true
						break
					}
					acc = append(acc, it.f.data...)
					if it.f.fin {
						want = append(want, msg{frag == 2, string(acc)})
						frag = 0
					}
				case 9:
					pongs = append(pongs, string(it.f.data))
				}
				if bad {
					break
				}
			}
			p := newRaw(which, client, nil)
			p.far.Split = cut
			p.conn.Write(stream)
			p.conn.CloseWrite()
			what := fmt.Sprintf("%s (client %v), frames %s(%s)", libName[which], client, names, how)
			var got []msg
			var kept [][]byte
			for {
				var b []byte
				var t neffos.MessageType
				err, pan := errOf(func() (err error) { b, t, err = p.sock.ReadData(0); return })
				lib.Check(pan == nil, "%s: ReadData panicked: %v", what, pan)
				if err != nil {
					break
				}
				got = append(got, mkMsg(b, t))
				kept = append(kept, b)
				lib.Check(len(got) <= len(want), "%s: %v was read, expected only %v", what, got, want)
			}
			lib.Check(reflect.DeepEqual(got, want), "%s: %v was read, expected %v", what, got, want)
			for i := range got {
				lib.Check(string(kept[i]) == got[i].data, "%s: the bytes of message %d changed after they were read", what, i)
			}
			// the answers: pongs, and possibly the library's close frame
			out := p.take()
			var gotPongs []string
			for len(out) > 0 && out[0] != 0x88 {
				f, rest, err := dec(out, client)
				lib.Check(err == nil && f.op == 10 && f.fin && f.rsv == 0, "%s: the answer %v was sent (%v)", what, f, err)
				gotPongs = append(gotPongs, string(f.data))
				out = rest
			}
			if chop >= 0 && len(gotPongs) == len(pongs)+1 {
				gotPongs = gotPongs[:len(pongs)] // whether a truncated ping is answered does not matter
			}
			lib.Check(len(gotPongs) == 0 && len(pongs) == 0 || reflect.DeepEqual(gotPongs, pongs), "%s: pings were answered with %q, expected %q", what, gotPongs, pongs)
			p.conn.Close()
			p.far.Close()
			mc.Cases(1)
		}
		// invalid UTF-8 is not part of this
		utf8ok := func(seq []item) bool {
			frag := 0
			var acc []byte
			for _, it := range seq {
				switch {
				case it.end:
					return true
				case it.f.op == 1 || it.f.op == 2:
					if frag != 0 {
						return true
					}
					if !it.f.fin {
						frag, acc = int(it.f.op), append([]byte(nil), it.f.data...)
					}
				case it.f.op == 0:
					if frag == 0 {
						return true
					}
					acc = append(acc, it.f.data...)
					if frag == 1 && !validPrefix(acc, it.f.fin) {
						return false
					}
					if it.f.fin {
						frag = 0
					}
				}
			}
			return true
		}
		var rec func(seq []item)
		rec = func(seq []item) {
			if !utf8ok(seq) {
				return
			}
			last := seq[len(seq)-1]
			closed := seq
			if !last.end {
				closed = append(seq[:len(seq):len(seq)], items[len(items)-1])
			}
			run(closed, nil, -1, "joined")
			run(closed, cutEvery(1), -1, "in single bytes")
			if len(seq) <= 2 && last.name != "eof" {
				// the connection ends inside the last frame
				n := len(last.f.enc(!client != last.flip))
				for k := 1; k < n; k++ {
					if k > 12 && k < n-1 {
						continue
					}
					if last.end {
						continue
					}
					run(seq, nil, k, fmt.Sprint("ends after ", k, " bytes of the last frame"))
				}
			}
			if last.end || len(seq) == depth {
				return
			}
			for _, it := range items {
				if len(seq) >= 2 && (it.name == "ping125" || it.name == "close1001" || it.name == "rsv3" || it.name == "op11" || it.name == "ping126") {
					continue
				}
				rec(append(seq[:len(seq):len(seq)], it))
			}
		}
		full := depth
		if items[first].end {
			rec([]item{items[first]})
			return
		}
		second := vsched.Choose(len(items) + 1)
		if second == 0 {
			depth = 1
			rec([]item{items[first]})
			return
		}
		depth = full
		rec([]item{items[first], items[second-1]})
	}

	// whole messages on the wire, whoever writes at once
	writers := func(which int, client bool, three bool, a, b msg) func() {
		return func() {
			var p *raw
			lib.Setup(func() { p = newRaw(which, client, nil) })
			var wire bytes.Buffer
			p.far.WriteLog = func(b []byte) { wire.Write(b) }
			ping := frame{true, 0, 9, []byte("pi")}.enc(!client)
			text := frame{true, 0, 1, []byte("in")}.enc(!client)
			ms := []msg{a, b}
			fs := []func(){
				func() { lib.Must("write", writeIn(p.sock, a, 5*time.Second)) },
				func() { lib.Must("write", writeIn(p.sock, b, 5*time.Second)) },
			}
			if three {
				ms = append(ms, msg{true, "3"})
				fs = append(fs, func() { lib.Must("write", writeIn(p.sock, ms[2], 0)) })
			} else {
				p.conn.Write(append(append([]byte(nil), ping...), text...))
				fs = append(fs, func() {
					d, t, err := p.sock.ReadData(0)
					lib.Must("read", err)
					lib.Check(mkMsg(d, t) == msg{false, "in"}, "read %q", d)
				})
			}
			vsched.Par(fs...)
			sent, err := decAll(wire.Bytes(), client)
			lib.Check(err == nil, "%s (client %v): the stream is corrupt: %v", libName[which], client, err)
			got := messages(sent)
			count := func(m msg, l []msg) (n int) {
				for _, x := range l {
					if x == m {
						n++
					}
				}
				return
			}
			lib.Check(len(got) == len(ms), "%v was sent for %v", got, ms)
			for _, m := range ms {
				lib.Check(count(m, got) == count(m, ms), "%v was sent for %v", got, ms)
			}
			pongs := 0
			for _, f := range sent {
				if f.op >= 8 {
					lib.Check(f.op == 10 && string(f.data) == "pi", "%v was sent", f)
					pongs++
				}
			}
			lib.Check(three || pongs == 1, "%d pongs", pongs)
			o := ""
			for _, f := range sent {
				o += fmt.Sprint(f.op, len(f.data), " ")
			}
			vsched.SetOutcome(o)
		}
	}

	// a raw server's first frames arrive together with its handshake answer
	glued := func() {
		vsched.Explore(false)
		which := vsched.Choose(2)
		small := []frame{{true, 0, 1, []byte("hello")}, {true, 0, 2, []byte{1}}, {true, 0, 1, nil}, {true, 0, 9, []byte("p")}, {false, 0, 1, []byte("x")}, {true, 0, 0, []byte("y")}, {true, 0, 1, []byte(fill(300, 1))}, {true, 0, 2, []byte(fill(9000, 1))}}
		var rec func(seq []frame)
		rec = func(seq []frame) {
			if len(seq) > 0 {
				var b []byte
				for _, f := range seq {
					b = append(b, f.enc(false)...)
				}
				if _, err := decAll(b, false); err != nil {
					return
				}
				for _, late := range []bool{false, true} {
					open := false
					for _, f := range seq {
						if f.op < 8 {
							open = !f.fin
						}
					}
					if open {
						continue
					}
					p := newRaw(which, true, b)
					want := messages(seq)
					if late {
						p.conn.Write(frame{true, 0, 1, []byte("late")}.enc(false))
						want = append(want, msg{false, "late"})
					}
					p.conn.CloseWrite()
					var got []msg
					for {
						d, t, err := p.sock.ReadData(0)
						if err != nil {
							break
						}
						got = append(got, mkMsg(d, t))
					}
					lib.Check(reflect.DeepEqual(got, want), "%s client: frames %v sent with the handshake answer (more later: %v): %v was read", libName[which], seq, late, got)
					mc.Cases(1)
				}
			}
			if len(seq) < 3 {
				for _, f := range small {
					rec(append(seq[:len(seq):len(seq)], f))
				}
			}
		}
		rec(nil)
	}

	// timeouts
	timeouts := func() {
		vsched.Explore(false)
		which, client, kind := vsched.Choose(2), vsched.Choose(2) == 0, vsched.Choose(9)
		what := fmt.Sprintf("%s (client %v)", libName[which], client)
		p := newRaw(which, client, nil)
		text := frame{true, 0, 1, []byte("in")}.enc(!client)
		ping := frame{true, 0, 9, []byte("pi")}.enc(!client)
		T := 10 * time.Second
		start := vsched.NowNano()
		since := func() time.Duration { return time.Duration(vsched.NowNano() - start) }
		reader := func(to time.Duration) (res func() (bool, msg, error)) {
			var m msg
			var err error
			done := false
			vsched.GoNamed("reader", func() {
				d, t, e := p.sock.ReadData(to)
				if e == nil {
					m = mkMsg(d, t)
				}
				err = e
				done = true
			})
			return func() (bool, msg, error) { lib.Settle(); return done, m, err }
		}
		switch kind {
		case 0: // silence, and half a frame
			for _, cut := range []int{0, 1, 2, len(text) - 1} {
				p := newRaw(which, client, nil)
				p.conn.Write(text[:cut])
				start = vsched.NowNano()
				_, _, err := p.sock.ReadData(T)
				lib.Check(err != nil && isTimeout(err) && since() >= T && since() < T+time.Millisecond, "%s: a read with a timeout of %v and %d bytes of a frame ended after %v with %v", what, T, cut, since(), err)
			}
		case 1: // in time, again and again
			for i := 0; i < 4; i++ {
				r := reader(T)
				vsched.Elapse(int64(T - time.Millisecond))
				ok, _, err := r()
				lib.Check(!ok, "%s: read %d ended early with %v", what, i, err)
				p.conn.Write(text)
				ok, m, err := r()
				lib.Check(ok && err == nil && m.data == "in", "%s: read %d (message within the timeout) gave %v, %v, %v", what, i, ok, m, err)
				vsched.Elapse(int64(2 * T)) // nobody reads: the deadline of the last read passes
			}
		case 2: // no timeout
			r := reader(0)
			vsched.Elapse(int64(1000 * time.Hour))
			ok, _, err := r()
			lib.Check(!ok, "%s: a read without a timeout ended with %v", what, err)
			p.conn.Write(text)
			ok, m, err := r()
			lib.Check(ok && err == nil && m.data == "in", "%s: a read without a timeout gave %v, %v", what, m, err)
		case 3: // a write nobody takes
			p.far.SetSendBuffer(64)
			err := p.sock.WriteBinary([]byte(fill(1000, 0)), T)
			lib.Check(err != nil && isTimeout(err) && since() >= T && since() < T+time.Millisecond, "%s: a stuck write with a timeout of %v ended after %v with %v", what, T, since(), err)
		case 4: // a write taken late but in time, several times
			p.far.SetSendBuffer(64)
			for i := 0; i < 3; i++ {
				var err error
				done := false
				vsched.GoNamed("writer", func() {
					err = p.sock.WriteText([]byte(fill(100, i)), T)
					done = true
				})
				vsched.Elapse(int64(T - time.Millisecond))
				lib.Check(!done, "%s: write %d ended early with %v", what, i, err)
				var wire []byte
				for !done || p.conn.Buffered() > 0 {
					wire = append(wire, p.take()...)
					lib.Settle()
				}
				lib.Check(err == nil, "%s: write %d (taken within the timeout) failed: %v", what, i, err)
				fs, derr := decAll(wire, client)
				lib.Check(derr == nil && reflect.DeepEqual(messages(fs), []msg{{false, fill(100, i)}}), "%s: write %d sent %v (%v)", what, i, fs, derr)
				vsched.Elapse(int64(2 * T))
			}
		case 5: // no timeout
			p.far.SetSendBuffer(64)
			var err error
			done := false
			vsched.GoNamed("writer", func() {
				err = p.sock.WriteText([]byte(fill(100, 0)), 0)
				done = true
			})
			vsched.Elapse(int64(1000 * time.Hour))
			lib.Check(!done, "%s: a stuck write without a timeout ended with %v", what, err)
			for !done {
				p.take()
				lib.Settle()
			}
			lib.Must(what+": a write without a timeout", err)
		case 8: // frames that are no message, then silence
			for i, fs := range [][]frame{{{true, 0, 9, nil}}, {{true, 0, 9, []byte("p")}}, {{true, 0, 10, nil}}, {{true, 0, 10, []byte("p")}}, {{true, 0, 10, []byte("p")}, {true, 0, 9, []byte("p")}}, {{false, 0, 1, []byte("fra")}}, {{false, 0, 2, nil}, {true, 0, 10, nil}}, {{false, 0, 2, []byte("fra")}, {true, 0, 9, nil}, {false, 0, 0, []byte("g")}}} {
				p = newRaw(which, client, nil)
				start = vsched.NowNano()
				r := reader(T)
				for _, f := range fs {
					vsched.Elapse(int64(T / 4))
					p.conn.Write(f.enc(!client))
				}
				vsched.Elapse(int64(T + time.Millisecond))
				ok, m, err := r()
				lib.Check(ok && err != nil && isTimeout(err), "%s: a read with a timeout of %v, given only control frames or a part of a message (%d) and then silence for that long: ended %v, %v, %v", what, T, i, ok, m, err)
			}
		case 7: // a second writer waiting behind the first does not extend the first one's timeout
			p.far.SetSendBuffer(3000)
			var err error
			done := time.Duration(-1)
			vsched.GoNamed("writer1", func() {
				err = p.sock.WriteBinary([]byte(fill(20000, 0)), T)
				done = since()
			})
			vsched.Elapse(int64(T / 2))
			vsched.GoNamed("writer2", func() { p.sock.WriteBinary([]byte("second"), T) })
			lib.Settle()
			for i := 0; i < 4; i++ { // some of it is taken, then nothing more
				buf := make([]byte, 3000)
				p.conn.Read(buf)
				lib.Settle()
			}
			vsched.Elapse(int64(10 * T))
			lib.Check(err != nil && isTimeout(err) && done >= T && done < T+time.Millisecond, "%s: a stuck write with a timeout of %v, with another one waiting behind it, ended after %v with %v", what, T, done, err)
		case 6: // the timeout of a finished write does not concern what comes later: a ping is still answered
			lib.Must("write", p.sock.WriteText([]byte("out"), T))
			r := reader(0)
			vsched.Elapse(int64(3 * T))
			p.conn.Write(ping)
			p.conn.Write(text)
			ok, m, err := r()
			lib.Check(ok && err == nil && m.data == "in", "%s: a ping arriving %v after a write with a timeout of %v ends the reading: %v", what, 3*T, T, err)
			fs, derr := decAll(p.take(), client)
			lib.Check(derr == nil && len(fs) == 2 && fs[1].op == 10 && string(fs[1].data) == "pi", "%s: %v was sent (%v)", what, fs, derr)
			// and a later write without one is not bound by it
			lib.Must(what+": a later write", p.sock.WriteBinary([]byte("x"), T))
		}
		mc.Cases(1)
	}

	// the library on top of it
	stack := func(c, s, piece int) func() {
		return func() {
			cc, sc := vnet.NewPair("cli", "srv")
			if piece > 0 {
				cc.Split, sc.Split = cutEvery(piece), cutEvery(piece)
			}
			var got, events lib.Rec
			big := fill(5000, 0)
			h := func(c *neffos.NSConn, m neffos.Message) error {
				d := string(m.Body)
				if len(d) > 20 {
					lib.Check(d == big, "a body of %d bytes was changed", len(d))
					d = fmt.Sprint(len(d))
				}
				got.Add("%s:%s:%s:%v", lib.Side(c), m.Event, d, m.SetBinary)
				if m.Event == "ask" {
					return neffos.Reply([]byte("re" + string(m.Body)))
				}
				return nil
			}
			ev := func(c *neffos.NSConn, m neffos.Message) error { events.Add("%s:%s", lib.Side(c), m.Event); return nil }
			evs := neffos.Namespaces{"n": {"ev": h, "ask": h, neffos.OnNamespaceConnected: ev, neffos.OnNamespaceDisconnect: ev}}
			srv := neffos.New(upgrader(s), evs)
			vsched.GoNamed("http", func() {
				br := bufio.NewReader(sc)
				r, err := http.ReadRequest(br)
				lib.Must("request", err)
				_, err = srv.Upgrade(&hijacker{conn: sc, br: br, hdr: http.Header{}}, r, nil, nil)
				lib.Must("upgrade", err)
			})
			cli, err := neffos.Dial(nil, dialer(c, cc), "ws://mem/", evs)
			lib.Must("dial", err)
			ns, err := cli.Connect(nil, "n")
			lib.Must("connect", err)
			ns.Emit("ev", []byte(big))
			ns.EmitBinary("ev", []byte("\xff\x00"))
			m, err := ns.Ask(nil, "ask", []byte("q"))
			lib.Must("ask", err)
			lib.Check(string(m.Body) == "req", "the reply is %q", m.Body)
			srv.Broadcast(nil, neffos.Message{Namespace: "n", Event: "ev", Body: []byte(big)})
			lib.Settle()
			lib.Check(got.Count("S:ev:5000:false") == 1 && got.Count("S:ev:\xff\x00:true") == 1 && got.Count("S:ask:q:false") == 1 && got.Count("C:ev:5000:false") == 1 && len(got.L) == 4, "received: %v", got.L)
			vsched.Par(cli.Close, func() { srv.Close() })
			lib.Settle()
			n := map[string]int{}
			for _, e := range events.L {
				n[e]++
			}
			lib.Check(len(n) == 4 && len(events.L) == 4, "events: %v", events.L)
			lib.Check(cc.IsClosed() && sc.IsClosed(), "connections left open: client %v, server %v", !cc.IsClosed(), !sc.IsClosed())
			vsched.SetOutcome(fmt.Sprint(got.L))
		}
	}
	reg := func(name string, body func()) *mc.Check {
		return mc.Register("C25", &mc.Scenario{Name: name, Body: body, Bound: 0, Deep: 0, MaxSteps: 1 << 26})
	}
	c := reg("pairs", pairs)
	reg("frames", frames)
	reg("glued", glued)
	reg("timeouts", timeouts)
	for _, which := range []int{goblib, gorlib} {
		for _, client := range []bool{true, false} {
			n := fmt.Sprintf("%s-%v", libName[which], map[bool]string{true: "client", false: "server"}[client])
			mc.Register("C25",
				&mc.Scenario{Name: "writers-" + n, Body: writers(which, client, false, msg{false, "hello"}, msg{true, fill(300, 1)}), Policies: polAll, Bound: 3, Deep: 5, Fine: true},
				&mc.Scenario{Name: "writers-big-" + n, Body: writers(which, client, false, msg{false, fill(9000, 0)}, msg{true, ""}), Policies: polTwo, Bound: 3, Deep: 5},
				&mc.Scenario{Name: "writers3-" + n, Body: writers(which, client, true, msg{false, "hello"}, msg{false, fill(126, 1)}), Policies: polTwo, Bound: 3, Deep: 5},
			)
		}
	}
	for _, cl := range []int{goblib, gorlib} {
		for _, sv := range []int{goblib, gorlib} {
			n := fmt.Sprintf("stack-%s-%s", libName[cl], libName[sv])
			mc.Register("C25",
				&mc.Scenario{Name: n, Body: stack(cl, sv, 0), Policies: polTwo, Bound: 1, Deep: 2, MaxSteps: 1 << 20},
				&mc.Scenario{Name: n + "-pieces", Body: stack(cl, sv, 1), Policies: polTwo, Bound: 0, Deep: 1, MaxSteps: 1 << 20})
		}
	}
	c.Quick = 60 * time.Second
	c.Rule = "4 pairings x 2 directions: all sequences of up to 2 messages over 20 (sizes 0..70001, text and binary) joined, singles in pieces of 8 sizes, all sequences of up to 2 (thorough 3) small messages under every cut; all sequences of up to 3 (thorough 4) of 28 raw frames (data, fragments, control, close, corrupt, EOF, truncated) to each of the 4 sockets, joined and byte by byte, against an RFC 6455 oracle; 2 or 3 concurrent writers with an incoming ping in all schedules up to the bound; frames glued to the handshake answer; timeouts on the virtual clock; a neffos session over each pairing in all schedules up to the bound."
}

// validPrefix reports whether b may be the start of (or, when whole, is) valid UTF-8 in this alphabet.
func validPrefix(b []byte, whole bool) bool {
	for len(b) > 0 {
		switch {
		case b[0] < 0x80:
			b = b[1:]
		case b[0] == 0xc3:
			if len(b) == 1 {
				return !whole
			}
			if b[1] != 0xa9 {
				return false
			}
			b = b[2:]
		default:
			return false
		}
	}
	return true
}

var _ = vnet.NewPair
