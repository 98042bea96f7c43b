package main

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

type dynErr struct{ text string }

func (e *dynErr) Error() string                 { return "dyn:" + e.text }
func (e *dynErr) ResolveError(text string) bool { return strings.HasPrefix(text, "dyn:") }

var (
	knownErr = errors.New("known; error")
	knownDyn = &dynErr{"x"}
)

type preErr struct{ pre string }

func (e *preErr) Error() string                 { return "a dynamic error" }
func (e *preErr) ResolveError(text string) bool { return strings.HasPrefix(text, e.pre) }

var preErr1, preErr2 = &preErr{"pre1"}, &preErr{"pre2"}

func init() {
	neffos.RegisterKnownError(preErr1)
	neffos.RegisterKnownError(preErr2)
	neffos.RegisterKnownError(knownErr)
	neffos.RegisterKnownError(knownDyn)
	neffos.RegisterKnownError(knownErr) // twice is once
}

// words are all strings over the alphabet up to the length.
func words(alphabet string, max int) []string {
	out := []string{""}
	last := out
	for i := 0; i < max; i++ {
		var next []string
		for _, w := range last {
			for _, c := range strings.Split(alphabet, "") {
				next = append(next, w+c)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

type codecErr struct {
	err  error
	want error  // identical value expected, if known
	text string // expected text
	body []byte // expected body, for replies
}

func codecErrs() []codecErr {
	return []codecErr{
		{},
		{err: errors.New("boom"), text: "boom"},
		{err: errors.New(";a;0;1;;;;;"), text: ";a;0;1;;;;;"},
		{err: neffos.ErrBadNamespace, want: neffos.ErrBadNamespace, text: "bad namespace"},
		{err: errors.New("bad room"), want: neffos.ErrBadRoom, text: "bad room"},
		{err: neffos.ErrWrite, want: neffos.ErrWrite, text: neffos.ErrWrite.Error()},
		{err: neffos.ErrInvalidPayload, want: neffos.ErrInvalidPayload, text: neffos.ErrInvalidPayload.Error()},
		{err: knownErr, want: knownErr, text: "known; error"},
		{err: &dynErr{"y"}, want: knownDyn, text: "dyn:x"},
		{err: neffos.Reply([]byte("r;e;p")), body: []byte("r;e;p")},
		{err: neffos.Reply(nil), body: []byte{}},
	}
}

func checkCodec(m neffos.Message, e codecErr, typ neffos.MessageType) {
	in := m
	inBody := append([]byte(nil), m.Body...)
	b := m.Serialize()
	lib.Check(bytes.Equal(in.Body, inBody), "Serialize altered the body of %#v", in)

	// the documented layout
	f := bytes.SplitN(b, []byte(";"), 7)
	lib.Check(len(f) == 7, "%q does not have seven fields", b)
	for i, want := range []string{"", m.Namespace, m.Room, m.Event} {
		if i == 0 || !strings.Contains(want, ";") {
			lib.Check(string(f[i]) == want, "field %d of %q is %q, expected %q", i, b, f[i], want)
		}
	}
	isErr := e.err != nil && e.body == nil
	payload := inBody
	if isErr {
		payload = []byte(e.err.Error())
	} else if e.err != nil {
		payload = e.body
	}
	lib.Check(string(f[4]) == map[bool]string{true: "1", false: "0"}[isErr] && string(f[5]) == "0", "flags of %q (error %v)", b, isErr)
	lib.Check(bytes.Equal(f[6], payload), "last field of %q is %q, expected %q", b, f[6], payload)

	for _, native := range []bool{false, true} {
		keep := append([]byte(nil), b...)
		d := neffos.DeserializeMessage(typ, b, native, false)
		lib.Check(bytes.Equal(b, keep), "DeserializeMessage altered its input")
		lib.Check(d.Namespace == m.Namespace && d.Room == m.Room && d.Event == m.Event,
			"%q/%q/%q came back as %q/%q/%q", m.Namespace, m.Room, m.Event, d.Namespace, d.Room, d.Event)
		lib.Check(d.SetBinary == (typ == neffos.BinaryMessage), "kind %v came back as binary=%v", typ, d.SetBinary)
		lib.Check(d.To == "" && d.FromExplicit == "" && !d.FromStackExchange && !d.IsForced && !d.IsLocal, "%q came back with local fields set: %+v", b, d)
		lib.Check(d.IsNative == (native && m.Event == neffos.OnNativeMessage), "%q came back native=%v", b, d.IsNative)
		if isErr {
			lib.Check(d.Err != nil && d.Err.Error() == e.text, "error %q came back as %v", e.err, d.Err)
			lib.Check(e.want == nil || d.Err == e.want, "known error %q came back as another value", e.err)
			lib.Check(len(d.Body) == 0, "an error came back with body %q", d.Body)
			if len(inBody) > 0 {
				continue
			}
		} else {
			lib.Check(d.Err == nil && bytes.Equal(d.Body, payload), "body %q came back as %q, error %v", payload, d.Body, d.Err)
		}
		if !d.IsNative && (e.want == nil || e.want.Error() == e.err.Error()) {
			lib.Check(bytes.Equal(d.Serialize(), b), "%q is serialized again as %q", b, d.Serialize())
		}
	}
}

func init() {
	codec := func() {
		hdr := words("a;1@", mc.Pick(2, 3))
		ns := hdr[vsched.Choose(len(hdr))]
		room := hdr[vsched.Choose(len(hdr))]
		bodies := [][]byte{nil, {}, []byte("b"), []byte(";"), []byte(";;;;;;"), []byte("$1;x;y;z;1;1;q"), []byte("M"), []byte("Aid"), {0}, {255, 254, ';', 0}, []byte("neffos(0x"), []byte("@%!semicolon@%!")}
		events := append([]string{"event", "_OnNamespaceConnect", "_OnNativeMessage", "$1!x", "#", "a%!;semi;colon"}, hdr...)
		if mc.Thorough() {
			events = events[:27]
		}
		n := 0
		for _, ev := range events {
			for _, body := range bodies {
				for _, e := range codecErrs() {
					for _, typ := range []neffos.MessageType{neffos.TextMessage, neffos.BinaryMessage} {
						checkCodec(neffos.Message{Namespace: ns, Room: room, Event: ev, Body: body, Err: e.err, SetBinary: typ == neffos.BinaryMessage, To: "someone", IsLocal: true, IsForced: true}, e, typ)
						n++
					}
				}
			}
		}
		mc.Cases(n)
	}

	// texts next to those of the known errors must come back as themselves
	nearErrs := func() {
		all := []error{neffos.ErrBadNamespace, neffos.ErrBadRoom, neffos.ErrWrite, neffos.ErrInvalidPayload, knownErr}
		known := map[string]error{}
		for _, e := range all {
			known[e.Error()] = e
		}
		n := 0
		one := func(text string) {
			if text == "" {
				return
			}
			checkCodec(neffos.Message{Namespace: "x", Event: "e", Err: errors.New(text)}, codecErr{err: errors.New(text), want: known[text], text: text}, neffos.TextMessage)
			if known[text] == nil {
				d := neffos.DeserializeMessage(neffos.TextMessage, neffos.Message{Namespace: "x", Event: "e", Err: errors.New(text)}.Serialize(), false, false)
				for _, e := range all {
					lib.Check(d.Err != e, "error %q came back as the known error %q", text, e)
				}
			}
			n++
		}
		for _, e := range all {
			t := e.Error()
			one(t)
			one(strings.ToUpper(t))
			one(strings.Title(t))
			for i := 0; i <= len(t); i++ {
				one(t[:i])
				one(t[i:])
				for _, c := range []string{" ", ";", ":", "x", "\n", "\x00"} {
					one(t[:i] + c + t[i:])
					one(t[:i] + c)
					one(c + t[i:])
				}
				if i < len(t) {
					one(t[:i] + t[i+1:])
				}
				for _, o := range all {
					one(t + o.Error())
					one(t[:i] + o.Error())
				}
			}
		}
		for _, k := range []int{100, 255, 256, 1023, 1024, 1025, 4096, 65535, 65536, 70001} { // long ones
			one(strings.Repeat("e", k))
			one(strings.Repeat("e;", k/2) + "\x00")
		}
		mc.Cases(n)
	}

	// every body of up to two bytes (three in the thorough tier), and every single header byte
	bytesAll := func() {
		hi := byte(vsched.Choose(256))
		n := 0
		one := func(body []byte) {
			checkCodec(neffos.Message{Namespace: "x", Room: "r", Event: "e", Body: body}, codecErr{}, neffos.BinaryMessage)
			checkCodec(neffos.Message{Namespace: "x", Room: "r", Event: "e", Err: errors.New(string(body))}, codecErr{err: errors.New(string(body)), text: string(body)}, neffos.TextMessage)
			n += 2
		}
		one([]byte{hi})
		for lo := 0; lo < 256; lo++ {
			one([]byte{hi, byte(lo)})
			h := string([]byte{hi, byte(lo)})
			checkCodec(neffos.Message{Namespace: h, Room: "r" + h, Event: h + "e", Body: []byte(h)}, codecErr{}, neffos.TextMessage)
			n++
			if mc.Thorough() {
				for k := 0; k < 256; k++ {
					one([]byte{hi, byte(lo), byte(k)})
				}
			}
		}
		mc.Cases(n)
	}

	// frames as the other side writes them: every token, flag and field, there and back
	frames := func() {
		waits := []string{"", "1", "12", "$1", "$12345", "#12", "1!23", "$!23", "neffos(0x1-2(id0xc0))", "neffos(0x", "!!", "!!!"}
		wait := waits[vsched.Choose(len(waits))]
		hdr := []string{"", "a", "a.b", "@%!semicolon@%!", "x@%!semicolon@%!y", "$", "0"}
		n := 0
		known := map[string]error{neffos.ErrBadNamespace.Error(): neffos.ErrBadNamespace, neffos.ErrWrite.Error(): neffos.ErrWrite, knownErr.Error(): knownErr}
		for _, ns := range hdr {
			for _, room := range hdr {
				for _, ev := range []string{"", "e", "_OnRoomJoin", "_OnNativeMessage", "a@%!semicolon@%!"} {
					for _, isErr := range []string{"0", "1"} {
						for _, noop := range []string{"0", "1"} {
							for _, body := range []string{"b", ";;;", "\x00", "1;2;3;4;5;6;7", neffos.ErrBadNamespace.Error(), neffos.ErrWrite.Error(), knownErr.Error()} {
								f := strings.Join([]string{wait, ns, room, ev, isErr, noop, body}, ";")
								d := neffos.DeserializeMessage(neffos.TextMessage, []byte(f), false, false)
								un := func(s string) string { return strings.ReplaceAll(s, "@%!semicolon@%!", ";") }
								lib.Check(d.Namespace == un(ns) && d.Room == un(room) && d.Event == un(ev), "%q was read as %+v", f, d)
								if isErr == "1" {
									lib.Check(d.Err != nil && d.Err.Error() == body && len(d.Body) == 0, "%q was read as %+v", f, d)
								} else {
									lib.Check(d.Err == nil && string(d.Body) == body, "%q was read as %+v", f, d)
								}
								if e, known := known[body]; known && isErr == "1" {
									lib.Check(d.Err == e, "the known error of %q came back as %#v", f, d.Err)
								}
								lib.Check((d.FromExplicit != "") == strings.HasPrefix(wait, "neffos(0x"), "%q was read with sender %q", f, d.FromExplicit)
								if d.FromExplicit != "" {
									lib.Check(d.FromExplicit == wait, "%q was read with sender %q", f, d.FromExplicit)
								}
								lib.Check(string(d.Serialize()) == f, "%q is written again as %q", f, d.Serialize())
								n++
							}
						}
					}
				}
			}
		}
		mc.Cases(n)
	}

	// native payloads: any bytes, in and out
	native := func() {
		ws := words("a;M", mc.Pick(5, 9))
		part := vsched.Choose(16)
		n := 0
		for i := part; i < len(ws); i += 16 {
			p := []byte(ws[i])
			m := neffos.Message{Namespace: "n", Room: "r", Event: "e", Body: p, IsNative: true}
			lib.Check(bytes.Equal(m.Serialize(), p), "native body %q is written as %q", p, m.Serialize())
			only := neffos.DeserializeMessage(neffos.BinaryMessage, p, true, true)
			if len(p) > 0 {
				lib.Check(only.IsNative && only.Event == neffos.OnNativeMessage && bytes.Equal(only.Body, p) && only.SetBinary && only.Namespace == "" && only.Room == "" && only.Err == nil, "native-only payload %q was read as %+v", p, only)
			}
			mixed := neffos.DeserializeMessage(neffos.TextMessage, p, true, false)
			if c := strings.Count(ws[i], ";"); c < 6 && len(p) > 0 {
				lib.Check(mixed.IsNative && mixed.Event == neffos.OnNativeMessage && bytes.Equal(mixed.Body, p) && !mixed.SetBinary, "native payload %q was read as %+v", p, mixed)
				none := neffos.DeserializeMessage(neffos.TextMessage, p, false, false)
				lib.Check(!none.IsNative && none.Event == "" && none.Namespace == "" && len(none.Body) == 0, "invalid payload %q was read as %+v", p, none)
			} else if c >= 6 {
				lib.Check(!mixed.IsNative, "message %q was read as native", p)
			}
			n++
		}
		mc.Cases(n)
	}

	// what was written or read once stays as it is, whatever is written or read afterwards
	kept := func() {
		type pair struct {
			b, keep []byte
			d       neffos.Message
			body    string
		}
		kinds := []neffos.Message{
			{Namespace: "x", Room: "r", Event: "e", Body: []byte("first body")}, {Namespace: "xx", Event: "event", Body: []byte("b")}, {},
			{Namespace: "x", Event: "e", Err: errors.New("boom")}, {Namespace: "x", Event: "e", Err: neffos.Reply([]byte("re"))},
			{Namespace: "y;y", Room: "r;", Event: ";e", Body: bytes.Repeat([]byte("z"), 600)}, {Namespace: "x", Event: "e", Body: []byte("bin"), SetBinary: true},
			{Body: []byte("native"), IsNative: true}, {Namespace: "x", Event: "e", Body: []byte("sender"), FromExplicit: "neffos(0x1(a0xc))"},
		}
		var all []pair
		first := vsched.Choose(len(kinds))
		for i := range kinds {
			m := kinds[(first+i)%len(kinds)]
			b := m.Serialize()
			in := append([]byte(nil), b...)
			d := neffos.DeserializeMessage(neffos.TextMessage, in, true, false)
			all = append(all, pair{b, append([]byte(nil), b...), d, string(d.Body)})
			for _, p := range all {
				lib.Check(bytes.Equal(p.b, p.keep), "the bytes of a serialized message changed from %q to %q when another was serialized", p.keep, p.b)
				lib.Check(string(p.d.Body) == p.body, "the body of a message changed from %q to %q when another was deserialized", p.body, p.d.Body)
			}
			mc.Cases(1)
		}
	}

	// two dynamic known errors whose own texts are the same
	resolvers := func() {
		for _, t := range []string{"pre1: a", "pre2: b", "pre1", "pre2", "pre3", "x pre1"} {
			d := neffos.DeserializeMessage(neffos.TextMessage, neffos.Message{Namespace: "x", Event: "e", Err: errors.New(t)}.Serialize(), false, false)
			var want error
			if strings.HasPrefix(t, "pre1") {
				want = preErr1
			} else if strings.HasPrefix(t, "pre2") {
				want = preErr2
			}
			if want != nil {
				lib.Check(d.Err == want, "error %q came back as %v", t, d.Err)
			} else {
				lib.Check(d.Err != nil && d.Err.Error() == t, "error %q came back as %v", t, d.Err)
			}
			mc.Cases(1)
		}
	}

	objects := func() {
		type obj struct{ A, B string }
		vals := []string{"", ";", "a;b", "\"", "\\u0000"}
		for _, a := range vals {
			for _, b := range vals {
				in := obj{a, b}
				m := neffos.DeserializeMessage(neffos.TextMessage, neffos.Message{Namespace: "x", Event: "e", Body: neffos.Marshal(in)}.Serialize(), false, false)
				var out obj
				lib.Check(m.Unmarshal(&out) == nil && in == out, "object %v came back as %v", in, out)
				c := custom{a + b}
				m = neffos.DeserializeMessage(neffos.TextMessage, neffos.Message{Namespace: "x", Event: "e", Body: neffos.Marshal(&c)}.Serialize(), false, false)
				var d custom
				lib.Check(m.Unmarshal(&d) == nil && d == c && string(m.Body) == "custom:"+a+b, "custom object %v came back as %v", c, d)
				mc.Cases(2)
			}
		}
		lib.Check(string(neffos.Marshal(&custom{"fail"})) == "no: fail", "a failed Marshal is %q", neffos.Marshal(&custom{"fail"}))
	}

	c := mc.Register("C01",
		&mc.Scenario{Name: "fields", Body: codec, Bound: 0, Deep: 0},
		&mc.Scenario{Name: "errors-near-known-ones", Body: nearErrs, Bound: 0, Deep: 0},
		&mc.Scenario{Name: "bytes", Body: bytesAll, Bound: 0, Deep: 0},
		&mc.Scenario{Name: "frames", Body: frames, Bound: 0, Deep: 0},
		&mc.Scenario{Name: "native", Body: native, Bound: 0, Deep: 0},
		&mc.Scenario{Name: "kept", Body: kept, Bound: 0, Deep: 0},
		&mc.Scenario{Name: "resolvers", Body: resolvers, Bound: 0, Deep: 0},
		&mc.Scenario{Name: "objects", Body: objects, Bound: 0, Deep: 0},
	)
	c.Rule = "all header fields up to the word length over an alphabet with the separator, crossed with events, bodies, errors, replies and kinds (input_cases), compared with an independent decoder of the documented layout and with the original message; all bodies of one and two bytes (thorough: three)."
	c.Assumptions = []string{"header fields holding the front part of the reserved escape marker right before a separator, and errors with an empty text, are outside the format"}
}

type custom struct{ v string }

func (c *custom) Marshal() ([]byte, error) {
	if c.v == "fail" {
		return nil, fmt.Errorf("no: %s", c.v)
	}
	return []byte("custom:" + c.v), nil
}

func (c *custom) Unmarshal(b []byte) error {
	c.v = strings.TrimPrefix(string(b), "custom:")
	return nil
}
