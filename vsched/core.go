// Package vsched is a controlled runtime: goroutines started through it run one at a time, and the decision
// which one runs next, which ready select case fires, in which order a map is ranged over, and when a timer
// fires are all taken from a choice list, so that an execution is a deterministic function of that list.
package vsched

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"unsafe"
)

// PointKind says what a choice is about.
type PointKind uint8

const (
	KSched PointKind = iota // which goroutine runs next
	KData                   // environment or library nondeterminism; a non-default answer is a deviation
	KFree                   // harness input; every answer is explored at no cost
)

// PointRec is one recorded choice.
type PointRec struct {
	Kind PointKind
	N    int // number of options
	Pick int // chosen option
	Hash uint32
}

// Dev is one non-default choice.
type Dev struct {
	Pos  int    `json:"pos"`
	Alt  int    `json:"alt"`
	Hash uint32 `json:"hash"` // state hash the choice was derived at (0: do not verify)
}

// Policy is a default scheduling order.
type Policy int

const (
	PolRun    Policy = iota // run the current goroutine until it blocks, then the next id (round robin)
	PolLIFO                 // run until it blocks, then the most recently created
	PolRotate               // switch to the next enabled goroutine at every point
	PolNewest               // always the most recently created enabled goroutine
	PolOldest               // always the oldest enabled goroutine
	NumPolicies
)

var PolicyNames = []string{"run", "lifo", "rotate", "newest", "oldest"}

// Options of one execution.
type Options struct {
	Policy      Policy
	Fine        bool // plain field accesses are scheduling points too
	TimerDev    bool // a pending timer may fire although goroutines are runnable (as a deviation)
	MaxSteps    int
	FrozenClock bool // consecutive clock readings may be equal
	Trace       bool
}

// G is one controlled goroutine.
type G struct {
	from    string // where it was started (traces only; never part of a failure message)
	id      int
	name    string
	wake    chan struct{}
	exited  chan struct{}
	pred    func() bool
	what    string
	quiesce bool
	daemon  bool
	done    bool
	vc      VC
	runLen  int
}

// Result of one execution.
type Result struct {
	Points   []PointRec
	Fail     string
	FailInfo string
	Diverged string
	Steps    int
	Horizon  bool
	Stuck    []string
	Outcome  string
	Trace    []string
	Races    int
}

// Sched is one execution.
type Sched struct {
	opts    Options
	devs    []Dev
	nextDev int
	gs      []*G // those that have not ended, by id
	nextID  int
	cur     *G
	points  []PointRec
	hash    uint32
	explore bool
	alarm   *G // runs as soon as steps reaches alarmAt
	alarmAt int
	steps   int
	now     int64
	timers  []*Timer
	tseq    int
	chans   map[chanKey]*chanState
	keyseq  map[any]int
	maps    map[uintptr]*mapState
	objseq  int
	abort   bool
	ended   bool
	endCh   chan struct{}
	res     Result
	main    *G
	epoch   uint64
	fields  map[uintptr]*mapState
	atomics map[unsafe.Pointer]*VC
}

// S is the running execution, nil outside Run.
var S *Sched
var epochs uint64

// Epoch identifies the current execution; objects that outlive an execution reset themselves on a new epoch.
func Epoch() uint64 {
	if S == nil {
		return 0
	}
	return S.epoch
}

// Active reports whether a controlled execution is running.
func Active() bool { return S != nil }

// Aborting reports whether the execution is being torn down.
func Aborting() bool { return S != nil && S.abort }

// Run executes main under the given deviations and returns what happened.
func Run(opts Options, devs []Dev, main func()) *Result {
	if opts.MaxSteps == 0 {
		opts.MaxSteps = 50000
	}
	epochs++
	s := &Sched{opts: opts, devs: devs, chans: map[chanKey]*chanState{}, keyseq: map[any]int{},
		maps: map[uintptr]*mapState{}, fields: map[uintptr]*mapState{}, atomics: map[unsafe.Pointer]*VC{}, endCh: make(chan struct{}, 1), epoch: epochs, explore: true, hash: 2166136261}
	S = s
	running.Store(true)
	progress.Add(1)
	g := s.newG("main", main)
	s.main = g
	s.cur = g
	g.wake <- struct{}{}
	<-s.endCh
	// Tear down: one goroutine at a time runs its deferred functions and exits.
	s.abort = true
	for i := 0; i < len(s.gs); i++ {
		g := s.gs[i]
		if !g.done {
			s.cur = g
			g.wake <- struct{}{}
			<-g.exited
		}
	}
	S = nil
	running.Store(false)
	s.res.Points = s.points
	s.res.Steps = s.steps
	if s.res.Diverged == "" && s.nextDev < len(s.devs) && s.res.Fail == "" {
		s.res.Diverged = fmt.Sprintf("deviation %d at point %d was never reached (%d points)", s.nextDev, s.devs[s.nextDev].Pos, len(s.points))
	}
	return &s.res
}

func (s *Sched) newG(name string, f func()) *G {
	g := &G{id: s.nextID, name: name, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
	s.nextID++
	s.gs = append(s.gs, g)
	if s.cur != nil {
		s.cur.tick()
		g.vc = s.cur.vc.clone()
	}
	g.tick()
	go func() {
		defer func() {
			r := recover()
			g.done = true
			g.pred = nil
			if s.abort {
				g.exited <- struct{}{}
				return
			}
			if r != nil {
				s.fail(fmt.Sprintf("panic: %v", r), string(debug.Stack()))
				s.end()
				g.exited <- struct{}{}
				return
			}
			s.drop(g)
			if g == s.main {
				s.end()
			} else {
				s.leave(g)
			}
			g.exited <- struct{}{}
		}()
		<-g.wake
		if s.abort {
			runtime.Goexit()
		}
		f()
	}()
	return g
}

// at is the position of g, or the one it had, among the goroutines that have not ended.
func (s *Sched) at(g *G) int {
	return sort.Search(len(s.gs), func(i int) bool { return s.gs[i].id >= g.id })
}

func (s *Sched) drop(g *G) {
	if i := s.at(g); i < len(s.gs) && s.gs[i] == g {
		s.gs = append(s.gs[:i], s.gs[i+1:]...)
	}
}

func (s *Sched) fail(msg, info string) {
	if s.res.Fail == "" {
		s.res.Fail = msg
		s.res.FailInfo = info
	}
}

func (s *Sched) end() {
	if !s.ended {
		s.ended = true
		s.endCh <- struct{}{}
	}
}

// Fail records a violation and ends the execution.
func Fail(format string, args ...any) {
	s := S
	if s == nil {
		panic(fmt.Sprintf(format, args...))
	}
	if s.abort {
		runtime.Goexit()
	}
	s.fail(fmt.Sprintf(format, args...), "")
	s.stop()
}

// stop ends the execution from a running goroutine; does not return.
func (s *Sched) stop() {
	g := s.cur
	s.end()
	<-g.wake
	runtime.Goexit()
}

// SetOutcome records what was observed, to count distinct outcomes.
func SetOutcome(o string) {
	if S != nil {
		S.res.Outcome = o
	}
}

// AddOutcome appends to the observed outcome.
func AddOutcome(o string) {
	if S != nil {
		S.res.Outcome += o
	}
}

// Explore switches scheduling choices on or off; when off every choice is the default (free choices remain).
func Explore(on bool) {
	if S != nil {
		S.explore = on
	}
}

// Failed reports whether a violation was recorded.
func Failed() bool { return S != nil && S.res.Fail != "" }

// Go starts a controlled goroutine.
func Go(f func()) { GoNamed("", f) }

// GoNamed starts a controlled goroutine with a name for traces.
func GoNamed(name string, f func()) *G {
	s := S
	if s == nil {
		go f()
		return nil
	}
	if s.abort {
		runtime.Goexit()
	}
	g := s.newG(name, f)
	if name == "" && s.opts.Trace {
		g.from = callerName(3)
	}
	s.point("go")
	return g
}

// Daemon marks the calling goroutine as one that is allowed to stay blocked forever.
func Daemon() {
	if S != nil {
		S.cur.daemon = true
	}
}

// CurID is the id of the running goroutine.
func CurID() int {
	if S == nil {
		return -1
	}
	return S.cur.id
}

func callerName(skip int) string {
	pc, file, line, ok := runtime.Caller(skip)
	if !ok {
		return "?"
	}
	fn := ""
	if f := runtime.FuncForPC(pc); f != nil {
		fn = f.Name()
		fn = fn[strings.LastIndexByte(fn, '/')+1:]
	}
	return fmt.Sprintf("%s %s:%d", fn, file[strings.LastIndexByte(file, '/')+1:], line)
}

func site() string {
	var pcs [12]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	for {
		f, more := fr.Next()
		if !strings.Contains(f.File, "/vsched/") {
			fn := f.Function
			fn = fn[strings.LastIndexByte(fn, '/')+1:]
			return fmt.Sprintf("%s (%s:%d)", fn, f.File[strings.LastIndexByte(f.File, '/')+1:], f.Line)
		}
		if !more {
			return "?"
		}
	}
}

func (s *Sched) tracef(what string) {
	if s.opts.Trace && len(s.res.Trace) < 20000 {
		s.res.Trace = append(s.res.Trace, fmt.Sprintf("#%d g%d[%s] %s @ %s", len(s.points), s.cur.id, s.cur.name+s.cur.from, what, site()))
	}
}

// choose takes the next recorded choice. n>1.
func (s *Sched) choose(kind PointKind, n int) int {
	if kind != KFree && !s.explore {
		return 0
	}
	pos := len(s.points)
	pick := 0
	s.hash = (s.hash ^ uint32(n)<<2 ^ uint32(kind)) * 16777619
	s.hash = (s.hash ^ uint32(s.cur.id)) * 16777619
	if s.nextDev < len(s.devs) && s.devs[s.nextDev].Pos == pos {
		d := s.devs[s.nextDev]
		s.nextDev++
		pick = d.Alt
		if d.Hash != 0 && d.Hash != s.hash && s.res.Diverged == "" {
			s.res.Diverged = fmt.Sprintf("replay diverged at point %d", pos)
		}
		if pick >= n {
			if s.res.Diverged == "" {
				s.res.Diverged = fmt.Sprintf("replay diverged at point %d: choice %d of %d", pos, pick, n)
			}
			pick = 0
		}
	}
	s.points = append(s.points, PointRec{Kind: kind, N: n, Pick: pick, Hash: s.hash})
	s.hash = (s.hash ^ uint32(pick)<<8) * 16777619
	return pick
}

func (g *G) enabled() bool {
	if g.done || g.quiesce {
		return false
	}
	return g.pred == nil || g.pred()
}

// options returns the enabled goroutines, default first. curOK says the current goroutine may continue.
func (s *Sched) options(curOK bool) []*G {
	cur := s.cur
	var out []*G
	n := len(s.gs)
	switch s.opts.Policy {
	case PolRun, PolRotate:
		if curOK && s.opts.Policy == PolRun {
			out = append(out, cur)
		}
		first := s.at(cur)
		for i := 0; i < n; i++ {
			if g := s.gs[(first+i)%n]; g != cur && g.enabled() {
				out = append(out, g)
			}
		}
		if curOK && s.opts.Policy == PolRotate {
			out = append(out, cur)
		}
	case PolLIFO, PolNewest:
		if curOK && s.opts.Policy == PolLIFO {
			out = append(out, cur)
		}
		for i := n - 1; i >= 0; i-- {
			g := s.gs[i]
			if g == cur {
				if curOK && s.opts.Policy == PolNewest {
					out = append(out, g)
				}
				continue
			}
			if g.enabled() {
				out = append(out, g)
			}
		}
	case PolOldest:
		for i := 0; i < n; i++ {
			g := s.gs[i]
			if g == cur {
				if curOK {
					out = append(out, g)
				}
				continue
			}
			if g.enabled() {
				out = append(out, g)
			}
		}
	}
	return out
}

// Point is a scheduling point of a running goroutine before a visible operation.
func Point(what string) {
	if S != nil {
		S.point(what)
	}
}

// Y is a weak scheduling point before a plain access to shared memory; active only in fine mode.
func Y() {
	if s := S; s != nil && s.opts.Fine && !s.abort && s.explore {
		s.point("mem")
	}
}

func (s *Sched) point(what string) {
	if s.abort {
		runtime.Goexit()
	}
	s.steps++
	if s.steps&255 == 0 {
		progress.Add(1)
	}
	if s.steps > s.opts.MaxSteps {
		s.res.Horizon = true
		s.stop()
	}
	if s.opts.Trace {
		s.tracef(what)
	}
	cur := s.cur
	if g := s.alarm; g != nil && s.steps >= s.alarmAt && g != cur {
		s.alarm = nil
		g.quiesce = false
		s.switchTo(g)
	}
	cur.runLen++
	if !s.explore && s.opts.Policy != PolRotate && cur.runLen < 300 {
		return
	}
	opts := s.options(true)
	if cur.runLen >= 300 && len(opts) > 1 {
		// Fairness: a goroutine that spins is made to let the others run.
		cur.runLen = 0
		k := 0
		if opts[0] == cur {
			k = 1
		}
		s.switchTo(opts[k])
		return
	}
	n := len(opts)
	if s.timerOption() {
		n++
	}
	if n <= 1 {
		if len(opts) == 1 && opts[0] != cur {
			s.switchTo(opts[0])
		}
		return
	}
	k := s.choose(KSched, n)
	if k == len(opts) {
		s.fireTimer()
		return
	}
	if g := opts[k]; g != cur {
		s.switchTo(g)
	}
}

func (s *Sched) timerOption() bool {
	return s.opts.TimerDev && s.explore && len(s.timers) > 0
}

func (s *Sched) switchTo(g *G) {
	cur := s.cur
	if g == cur {
		return
	}
	cur.runLen = 0
	g.runLen = 0
	s.cur = g
	g.wake <- struct{}{}
	<-cur.wake
	if s.abort {
		runtime.Goexit()
	}
}

// Block suspends the running goroutine until pred holds (evaluated whenever it might be scheduled).
func Block(what string, pred func() bool) {
	s := S
	if s == nil {
		if !pred() {
			panic("vsched: blocking operation outside an execution: " + what)
		}
		return
	}
	s.block(what, pred)
}

func (s *Sched) block(what string, pred func() bool) {
	if s.abort {
		runtime.Goexit()
	}
	if pred() {
		return
	}
	g := s.cur
	g.pred = pred
	g.what = what
	if s.opts.Trace {
		s.tracef("BLOCK " + what)
		g.what = what + " @ " + site()
	}
	s.reschedule(g)
	g.pred = nil
	if s.opts.Trace {
		s.tracef("RESUME " + what)
	}
}

// reschedule picks the next goroutine after g stopped being runnable, and waits until g is resumed.
func (s *Sched) reschedule(g *G) {
	if !s.pickNext(g) {
		s.end()
	}
	<-g.wake
	if s.abort {
		runtime.Goexit()
	}
}

// leave is called when g has finished.
func (s *Sched) leave(g *G) {
	if !s.pickNext(g) {
		s.end()
	}
}

// pickNext hands control to some goroutine. It reports false if none can ever run again.
func (s *Sched) pickNext(from *G) bool {
	for {
		opts := s.options(false)
		if !from.done && from.enabled() {
			// only possible after a timer fired below
			opts = append(opts, from)
		}
		if len(opts) > 0 {
			k := 0
			n := len(opts)
			if s.timerOption() {
				n++
			}
			if n > 1 {
				k = s.choose(KSched, n)
			}
			if k == len(opts) {
				s.fireTimer()
				continue
			}
			s.resume(opts[k])
			return true
		}
		for _, g := range s.gs {
			if g.quiesce && !g.done {
				g.quiesce = false
				s.resume(g)
				return true
			}
		}
		if len(s.timers) > 0 {
			s.steps++
			if s.steps > s.opts.MaxSteps {
				s.res.Horizon = true
				return false
			}
			s.fireTimer()
			continue
		}
		for _, g := range s.gs {
			if !g.done && !g.daemon {
				s.res.Stuck = append(s.res.Stuck, fmt.Sprintf("g%d[%s] blocked on %s", g.id, g.name+g.from, g.what))
			}
		}
		if !s.main.done {
			s.fail("deadlock: the scenario cannot make progress; main is blocked on "+s.main.what, strings.Join(s.res.Stuck, "\n"))
		}
		return false
	}
}

func (s *Sched) resume(g *G) {
	s.cur = g
	g.runLen = 0
	g.wake <- struct{}{}
}

// Quiesce waits until no other goroutine can run (without letting time pass).
func Quiesce() {
	s := S
	if s == nil {
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	g := s.cur
	g.what = "quiesce"
	g.quiesce = true
	s.reschedule(g)
}

// AtPoint suspends the running goroutine until the others have passed n scheduling points (or none can run), and then
// runs it at once: a harness that chooses n places an action at every point of an execution without using deviations.
// One goroutine at a time may wait so.
func AtPoint(n int) {
	s := S
	if s == nil {
		return
	}
	if s.abort {
		runtime.Goexit()
	}
	g := s.cur
	g.what = "at point"
	g.quiesce = true
	s.alarm, s.alarmAt = g, s.steps+n
	s.reschedule(g)
	if s.alarm == g {
		s.alarm = nil
	}
}

// Elapse lets virtual time pass by d nanoseconds, running everything due, and then waits for quiescence.
func Elapse(d int64) {
	s := S
	end := s.now + d
	for {
		Quiesce()
		if len(s.timers) == 0 || s.timers[s.nextTimer()].when > end {
			break
		}
		s.fireTimer()
	}
	if s.now < end {
		s.now = end
	}
}

// Choose is a harness input with n possible values, all of which are explored.
func Choose(n int) int {
	if n <= 1 {
		return 0
	}
	s := S
	if s == nil {
		return 0
	}
	if s.abort {
		runtime.Goexit()
	}
	return s.choose(KFree, n)
}

// Deviate is an environment answer with n possible values; a non-zero answer costs one deviation.
func Deviate(n int) int {
	if n <= 1 {
		return 0
	}
	s := S
	if s == nil {
		return 0
	}
	if s.abort {
		runtime.Goexit()
	}
	return s.choose(KData, n)
}

// Par runs the functions concurrently and waits for all of them.
func Par(fs ...func()) {
	n := len(fs)
	done := 0
	for i, f := range fs {
		GoNamed(fmt.Sprintf("par%d", i), func() {
			f()
			done++
		})
	}
	Block("par", func() bool { return done == n })
}

// ---- virtual time ----

// Timer is a virtual timer.
type Timer struct {
	when int64
	seq  int
	fn   func() // runs in scheduler context and must not block
	vc   VC
}

// NowNano is the virtual clock.
func NowNano() int64 {
	if S == nil {
		return 0
	}
	return S.now
}

// AddTimer registers fn to run at time when.
func AddTimer(d int64, fn func()) *Timer {
	s := S
	if d < 0 {
		d = 0
	}
	s.tseq++
	t := &Timer{when: s.now + d, seq: s.tseq, fn: fn}
	if s.cur != nil {
		s.cur.tick()
		t.vc = s.cur.vc.clone()
	}
	s.timers = append(s.timers, t)
	return t
}

// DelTimer removes a timer, reporting whether it was pending.
func DelTimer(t *Timer) bool {
	s := S
	if s == nil {
		return false
	}
	for i, x := range s.timers {
		if x == t {
			s.timers = append(s.timers[:i], s.timers[i+1:]...)
			return true
		}
	}
	return false
}

func (s *Sched) nextTimer() int {
	b := 0
	for i, t := range s.timers {
		if t.when < s.timers[b].when || t.when == s.timers[b].when && t.seq < s.timers[b].seq {
			b = i
		}
	}
	return b
}

func (s *Sched) fireTimer() {
	i := s.nextTimer()
	t := s.timers[i]
	s.timers = append(s.timers[:i], s.timers[i+1:]...)
	if t.when > s.now {
		s.now = t.when
	}
	t.fn()
}

// SpawnFromTimer starts a goroutine from a timer callback (no scheduling point).
func SpawnFromTimer(name string, f func()) {
	s := S
	s.newG(name, f)
}

// Sleep suspends the goroutine for d virtual nanoseconds.
func Sleep(d int64) {
	s := S
	if s == nil {
		return
	}
	s.point("sleep")
	if d <= 0 {
		return
	}
	fired := false
	AddTimer(d, func() { fired = true })
	s.block("sleep", func() bool { return fired })
}

// Yield lets other goroutines run.
func Yield() { Point("yield") }

// BlockForever never returns.
func BlockForever() { Block("select{}", func() bool { return false }) }

// Live lists the goroutines that are not finished, for leak checks.
func Live() []string {
	s := S
	var out []string
	for _, g := range s.gs {
		if !g.done && g != s.cur {
			out = append(out, fmt.Sprintf("g%d %s: %s", g.id, g.name, g.what))
		}
	}
	sort.Strings(out)
	return out
}

// NumLive is the number of unfinished goroutines.
func NumLive() int {
	n := 0
	for _, g := range S.gs {
		if !g.done {
			n++
		}
	}
	return n
}

// Fatal is an unrecoverable runtime error of the program under test.
func Fatal(msg string) {
	if S == nil {
		panic(msg)
	}
	Fail("fatal error: %s", msg)
}

// After is called after an operation that can only enable others; it is not a scheduling point.
func After(what string) {
	if s := S; s != nil && s.opts.Trace && !s.abort {
		s.tracef(what)
	}
}

// AtomicOp is the scheduling point and synchronisation edge of an atomic operation on p.
func AtomicOp(p unsafe.Pointer) {
	s := S
	if s == nil || s.abort {
		return
	}
	s.point("atomic")
	v := s.atomics[p]
	if v == nil {
		v = new(VC)
		s.atomics[p] = v
	}
	s.cur.acquire(*v)
	v.join(s.cur.vc)
	s.cur.tick()
}

// ReadClock is a reading of the virtual clock; unless the clock is frozen every reading is later than the last.
func ReadClock() int64 {
	s := S
	if s == nil {
		return 0
	}
	if !s.opts.FrozenClock {
		s.now++
	}
	return s.now
}

var progress atomic.Uint64
var running atomic.Bool

// Progress changes whenever an execution makes a step; Running says whether one is under way.
func Progress() uint64 { return progress.Load() }

// Running reports whether an execution is under way.
func Running() bool { return running.Load() }
