package vsched

import (
	"runtime"
	"unsafe"
)

type chanKey = unsafe.Pointer

type waiter struct {
	g     *G
	fired bool
	done  bool
	idx   int
}

type sudog struct {
	w   *waiter
	idx int
	val unsafe.Pointer // *T: value to send, or slot to receive into
	ok  *bool
	vc  VC
}

type chanState struct {
	closed bool
	recvq  []*sudog
	sendq  []*sudog
	vc     VC // joined clocks of senders and closers
	rvc    VC // joined clocks of receivers (a receive happens before the completion of a blocked send)
}

func keyOf[T any](ch <-chan T) chanKey { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (s *Sched) chanState(k chanKey) *chanState {
	st := s.chans[k]
	if st == nil {
		st = &chanState{}
		s.chans[k] = st
	}
	return st
}

func first(q *[]*sudog, me *G) *sudog {
	l := *q
	for len(l) > 0 && (l[0].w.fired || l[0].w.done) {
		l = l[1:]
	}
	*q = l
	for _, x := range l {
		if !x.w.fired && !x.w.done && x.w.g != me {
			return x
		}
	}
	return nil
}

// Case is one communication of a select.
type Case interface {
	ready(s *Sched, g *G) bool
	fire(s *Sched, g *G)
	enqueue(s *Sched, w *waiter, idx int)
	completed(s *Sched, g *G) // after a partner fired this case
	native(block bool) bool
}

// RecvCase is a receive.
type RecvCase[T any] struct {
	ch  <-chan T
	Val T
	OK  bool
	sd  *sudog
}

// SendCase is a send.
type SendCase[T any] struct {
	ch  chan<- T
	val T
	sd  *sudog
}

// CRecv makes a receive case.
func CRecv[T any](ch <-chan T) *RecvCase[T] { return &RecvCase[T]{ch: ch} }

// CSend makes a send case: CSend(ch)(v).
func CSend[T any](ch chan<- T) func(T) *SendCase[T] {
	return func(v T) *SendCase[T] { return &SendCase[T]{ch: ch, val: v} }
}

func skey[T any](ch chan<- T) chanKey { return *(*unsafe.Pointer)(unsafe.Pointer(&ch)) }

func (c *RecvCase[T]) ready(s *Sched, g *G) bool {
	if c.ch == nil {
		return false
	}
	if len(c.ch) > 0 {
		return true
	}
	st := s.chanState(keyOf(c.ch))
	if st.closed {
		return true
	}
	if first(&st.sendq, g) != nil {
		return true
	}
	if cap(c.ch) == 0 || len(c.ch) == 0 {
		// closed natively (by code outside our control)?
		select {
		case _, ok := <-c.ch:
			if !ok {
				st.closed = true
				return true
			}
			panic("vsched: value received from an uncontrolled sender")
		default:
		}
	}
	return false
}

func (c *RecvCase[T]) fire(s *Sched, g *G) {
	st := s.chanState(keyOf(c.ch))
	if len(c.ch) > 0 {
		c.Val, c.OK = <-c.ch
		g.acquire(st.vc)
		st.rvc.join(g.vc)
		g.tick()
		return
	}
	if sd := first(&st.sendq, g); sd != nil && !st.closed {
		c.Val, c.OK = *(*T)(sd.val), true
		sd.w.fired, sd.w.idx = true, sd.idx
		g.acquire(sd.vc)
		sd.w.g.acquire(g.vc)
		g.tick()
		return
	}
	c.Val, c.OK = <-c.ch // closed
	g.acquire(st.vc)
}

func (c *RecvCase[T]) enqueue(s *Sched, w *waiter, idx int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	st := s.chanState(keyOf(c.ch))
	c.sd = &sudog{w: w, idx: idx, val: unsafe.Pointer(&c.Val), ok: &c.OK, vc: w.g.vc.clone()}
	st.recvq = append(st.recvq, c.sd)
}

func (c *RecvCase[T]) completed(s *Sched, g *G) {}

func (c *RecvCase[T]) native(block bool) bool {
	if block {
		c.Val, c.OK = <-c.ch
		return true
	}
	select {
	case c.Val, c.OK = <-c.ch:
		return true
	default:
		return false
	}
}

func (c *SendCase[T]) ready(s *Sched, g *G) bool {
	if c.ch == nil {
		return false
	}
	st := s.chanState(skey(c.ch))
	if st.closed {
		return true // will panic, as it must
	}
	if cap(c.ch) > 0 {
		return len(c.ch) < cap(c.ch)
	}
	return first(&st.recvq, g) != nil
}

func (c *SendCase[T]) fire(s *Sched, g *G) {
	st := s.chanState(skey(c.ch))
	if st.closed {
		panic("send on closed channel")
	}
	if cap(c.ch) > 0 {
		g.acquire(st.rvc)
		st.vc.join(g.vc)
		g.tick()
		c.ch <- c.val
		return
	}
	sd := first(&st.recvq, g)
	*(*T)(sd.val) = c.val
	*sd.ok = true
	sd.w.fired, sd.w.idx = true, sd.idx
	sd.w.g.acquire(g.vc)
	g.acquire(sd.vc)
	g.tick()
}

func (c *SendCase[T]) enqueue(s *Sched, w *waiter, idx int) {
	if c.ch == nil || cap(c.ch) > 0 {
		return
	}
	st := s.chanState(skey(c.ch))
	w.g.tick()
	c.sd = &sudog{w: w, idx: idx, val: unsafe.Pointer(&c.val), vc: w.g.vc.clone()}
	st.sendq = append(st.sendq, c.sd)
}

func (c *SendCase[T]) completed(s *Sched, g *G) {}

func (c *SendCase[T]) native(block bool) bool {
	if block {
		c.ch <- c.val
		return true
	}
	select {
	case c.ch <- c.val:
		return true
	default:
		return false
	}
}

// Select performs a select statement and returns the index of the case taken, or -1 for default.
func Select(hasDefault bool, cases ...Case) int {
	s := S
	if s == nil {
		for i, c := range cases {
			if c.native(false) {
				return i
			}
		}
		if hasDefault {
			return -1
		}
		if len(cases) == 1 {
			cases[0].native(true)
			return 0
		}
		panic("vsched: blocking select outside an execution")
	}
	s.point("select")
	return s.sel("select", hasDefault, cases)
}

func (s *Sched) sel(what string, hasDefault bool, cases []Case) int {
	g := s.cur
	var buf [8]int
	ready := buf[:0]
	for i, c := range cases {
		if c.ready(s, g) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if hasDefault {
			return -1
		}
		w := &waiter{g: g}
		for i, c := range cases {
			c.enqueue(s, w, i)
		}
		s.block(what, func() bool {
			if w.fired {
				return true
			}
			for _, c := range cases {
				if c.ready(s, g) {
					return true
				}
			}
			return false
		})
		w.done = true
		if w.fired {
			return w.idx
		}
		for i, c := range cases {
			if c.ready(s, g) {
				ready = append(ready, i)
			}
		}
	}
	k := 0
	if len(ready) > 1 {
		k = s.choose(KData, len(ready))
	}
	cases[ready[k]].fire(s, g)
	return ready[k]
}

// Recv is <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	s := S
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	s.point("recv")
	c := &RecvCase[T]{ch: ch}
	s.sel("recv", false, []Case{c})
	return c.Val, c.OK
}

// SendTo is ch <- v, written SendTo(ch)(v).
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		s := S
		if s == nil {
			ch <- v
			return
		}
		s.point("send")
		c := &SendCase[T]{ch: ch, val: v}
		s.sel("send", false, []Case{c})
		if s.opts.Trace && c.sd != nil {
			return
		}
	}
}

// TrySendNoPoint puts v into a buffered channel from scheduler context (timers).
func TrySendNoPoint[T any](ch chan T, v T, vc VC) bool {
	select {
	case ch <- v:
		if S != nil {
			S.chanState(keyOf[T](ch)).vc.join(vc)
		}
		return true
	default:
		return false
	}
}

// Close is close(ch).
func Close[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	s.point("close")
	CloseNoPoint(ch)
}

// CloseNoPoint closes ch without a scheduling point.
func CloseNoPoint[T any](ch chan<- T) {
	s := S
	if s == nil {
		close(ch)
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	if ch == nil {
		panic("close of nil channel")
	}
	st := s.chanState(skey(ch))
	if st.closed {
		panic("close of closed channel")
	}
	close(ch)
	st.closed = true
	st.vc.join(s.cur.vc)
	s.cur.tick()
}

// Range iterates over a channel.
func Range[T any](ch <-chan T) func(yield func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Closed reports whether ch is closed; not a scheduling point.
func Closed[T any](ch <-chan T) bool {
	if S == nil {
		select {
		case _, ok := <-ch:
			return !ok
		default:
			return false
		}
	}
	return S.chanState(keyOf(ch)).closed
}
