// Package mc explores every execution of a scenario up to a deviation bound, level by level, on worker processes,
// and reports what was covered.
package mc

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"vsched"
)

// Scenario is one closed system to explore.
type Scenario struct {
	Name     string
	Body     func()
	Policies []vsched.Policy // default scheduling orders to explore from (default: PolRun)
	Fine     bool            // accesses to mutable fields are scheduling points too
	TimerDev bool            // timers may fire early, as a deviation
	Frozen   bool            // clock readings may repeat
	Bound    int             // deviations, quick tier
	Deep     int             // deviations, thorough tier (default Bound+1)
	MaxSteps int
	Spins    bool // reaching the step horizon is not a failure
}

// Check is the set of scenarios deciding one property.
type Check struct {
	Property    string
	Title       string
	Scenarios   []*Scenario
	Quick       time.Duration // exploration budget
	Thorough    time.Duration
	Rule        string
	Assumptions []string
}

var checks = map[string]*Check{}

// Register adds scenarios to a property's check.
func Register(prop string, scs ...*Scenario) *Check {
	c := checks[prop]
	if c == nil {
		c = &Check{Property: prop, Quick: 40 * time.Second, Thorough: 10 * time.Minute}
		checks[prop] = c
	}
	c.Scenarios = append(c.Scenarios, scs...)
	return c
}

// Thorough reports whether the thorough tier runs; scenario bodies may ask for longer histories then.
func Thorough() bool { return thorough }

// Pick is q in the quick tier and t in the thorough one.
func Pick(q, t int) int {
	if thorough {
		return t
	}
	return q
}

var thorough bool

// Cases counts n input cases evaluated by the running execution (bodies that enumerate inputs in a loop).
func Cases(n int) { cases += int64(n) }

var cases int64

type config struct {
	sc  *Scenario
	pol vsched.Policy
}

func (c config) opts(trace bool) vsched.Options {
	return vsched.Options{Policy: c.pol, Fine: c.sc.Fine, TimerDev: c.sc.TimerDev, FrozenClock: c.sc.Frozen, MaxSteps: c.sc.MaxSteps, Trace: trace}
}

func (c config) name() string { return c.sc.Name + "/" + vsched.PolicyNames[c.pol] }

type task struct {
	Cfg      int
	Devs     []vsched.Dev
	Cost     int
	Target   int
	Split    bool
	Deadline int64 // unix ms
	Trace    bool
}

type child struct {
	Devs []vsched.Dev
	Cost int
}

type failure struct {
	Devs  []vsched.Dev
	Msg   string
	Info  string
	Trace []string
}

type reply struct {
	Runs       int
	NewStates  int64
	Steps      int64
	MaxPoints  int
	Outcomes   map[uint64]string
	Children   []child
	Fail       *failure
	Diverged   string
	Incomplete bool
	Horizon    int
	Cases      int64
}

var (
	fProp    = flag.String("prop", "", "property to check")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fWorker  = flag.Bool("worker", false, "internal")
	fOut     = flag.String("out", "", "evidence directory")
	fKnown   = flag.String("known", "", "known findings file")
	fReplay  = flag.String("replay", "", "replay a violation file")
	fBudget  = flag.Duration("budget", 0, "override the exploration budget")
	fOnly    = flag.String("only", "", "only scenarios matching this regexp")
	fJobs    = flag.Int("jobs", 0, "worker processes")
	fBound   = flag.Int("bound", -1, "override the deviation bound")
	fVerbose = flag.Bool("v", false, "print progress")
	fList    = flag.Bool("list", false, "list properties")
	fShow    = flag.String("show", "", "run one scenario's default schedule with a trace: scenario/policy")
)

// Main is the entry point of a check binary.
func Main() {
	flag.Parse()
	if *fList {
		var ps []string
		for p := range checks {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			fmt.Println(p, len(checks[p].Scenarios))
		}
		return
	}
	thorough = *fTier == "thorough"
	if *fReplay != "" {
		os.Exit(replayFile(*fReplay))
	}
	c := checks[*fProp]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *fProp)
		os.Exit(2)
	}
	var cfgs []config
	for _, s := range c.Scenarios {
		pols := s.Policies
		if len(pols) == 0 {
			pols = []vsched.Policy{vsched.PolRun}
		}
		for _, p := range pols {
			cfgs = append(cfgs, config{s, p})
		}
	}
	if *fWorker {
		worker(cfgs)
		return
	}
	if *fShow != "" {
		for _, cf := range cfgs {
			if cf.name() == *fShow {
				r := vsched.Run(cf.opts(true), nil, cf.sc.Body)
				for _, t := range r.Trace {
					fmt.Println(t)
				}
				fmt.Printf("points=%d steps=%d fail=%q outcome=%q horizon=%v\n%s\n%s\n", len(r.Points), r.Steps, r.Fail, r.Outcome, r.Horizon, r.FailInfo, strings.Join(r.Stuck, "\n"))
			}
		}
		return
	}
	os.Exit(master(c, cfgs))
}

// ---- worker ----

func costOf(k vsched.PointKind) int {
	if k == vsched.KFree {
		return 0
	}
	return 1
}

type wstate struct {
	cfg      config
	deadline time.Time
	rep      *reply
	target   int
}

func runOne(cfg config, devs []vsched.Dev, trace bool) *vsched.Result {
	return vsched.Run(cfg.opts(trace), devs, cfg.sc.Body)
}

func (w *wstate) node(devs []vsched.Dev, cost int, split bool) {
	if w.rep.Fail != nil || w.rep.Diverged != "" {
		return
	}
	if !w.deadline.IsZero() && time.Now().After(w.deadline) {
		w.rep.Incomplete = true
		return
	}
	res := runOne(w.cfg, devs, false)
	from := 0
	if len(devs) > 0 {
		from = devs[len(devs)-1].Pos + 1
	}
	if cost == w.target {
		w.rep.Runs++
		w.rep.Steps += int64(res.Steps)
		w.rep.NewStates += int64(len(res.Points) - from + 1)
		if len(res.Points) > w.rep.MaxPoints {
			w.rep.MaxPoints = len(res.Points)
		}
		if len(w.rep.Outcomes) < 4096 {
			h := fnv.New64a()
			io.WriteString(h, res.Outcome)
			k := h.Sum64()
			if _, ok := w.rep.Outcomes[k]; !ok {
				o := res.Outcome
				if len(o) > 300 {
					o = o[:300]
				}
				if len(w.rep.Outcomes) > 8 {
					o = ""
				}
				w.rep.Outcomes[k] = o
			}
		}
	}
	if res.Diverged != "" && res.Fail == "" {
		w.rep.Diverged = fmt.Sprintf("%s: %s devs=%v", w.cfg.name(), res.Diverged, devs)
		return
	}
	if res.Horizon {
		w.rep.Horizon++
		if !w.cfg.sc.Spins && res.Fail == "" {
			res.Fail = "livelock: the execution does not end"
		}
	}
	if res.Fail != "" {
		if cost == w.target {
			w.rep.Fail = &failure{Devs: devs, Msg: res.Fail, Info: res.FailInfo}
		}
		return // do not explore beyond a failure
	}
	for i := from; i < len(res.Points); i++ {
		p := res.Points[i]
		cc := cost + costOf(p.Kind)
		if cc > w.target {
			continue
		}
		for alt := 0; alt < p.N; alt++ {
			if alt == p.Pick {
				continue
			}
			nd := append(append(make([]vsched.Dev, 0, len(devs)+1), devs...), vsched.Dev{Pos: i, Alt: alt, Hash: p.Hash})
			if split {
				w.rep.Children = append(w.rep.Children, child{nd, cc})
			} else {
				w.node(nd, cc, false)
			}
		}
	}
}

func worker(cfgs []config) {
	runtime.GOMAXPROCS(1)
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	dec := json.NewDecoder(in)
	var mu sync.Mutex
	var started time.Time
	lastEpoch := uint64(0)
	lastChange := time.Now()
	_ = started
	go func() {
		// An execution that neither finishes nor reaches a scheduling point is stuck in a loop of its own.
		for {
			time.Sleep(time.Second)
			mu.Lock()
			e := vsched.Progress()
			if e != lastEpoch || !vsched.Running() {
				lastEpoch, lastChange = e, time.Now()
			} else if time.Since(lastChange) > 40*time.Second {
				fmt.Fprintln(os.Stderr, "HANG: an execution makes no progress")
				os.Exit(3)
			}
			mu.Unlock()
		}
	}()
	for {
		var t task
		if err := dec.Decode(&t); err != nil {
			return
		}
		rep := &reply{Outcomes: map[uint64]string{}}
		if t.Trace {
			res := runOne(cfgs[t.Cfg], t.Devs, true)
			if res.Horizon && !cfgs[t.Cfg].sc.Spins && res.Fail == "" {
				res.Fail = "livelock: the execution does not end"
			}
			rep.Diverged = res.Diverged
			if res.Fail != "" {
				tr := res.Trace
				if len(tr) > 3000 {
					tr = tr[len(tr)-3000:]
				}
				rep.Fail = &failure{Devs: t.Devs, Msg: res.Fail, Info: res.FailInfo, Trace: tr}
			}
		} else {
			w := &wstate{cfg: cfgs[t.Cfg], rep: rep, target: t.Target}
			if t.Deadline > 0 {
				w.deadline = time.UnixMilli(t.Deadline)
			}
			w.node(t.Devs, t.Cost, t.Split)
		}
		rep.Cases, cases = cases, 0
		b, _ := json.Marshal(rep)
		out.Write(b)
		out.WriteByte('\n')
		out.Flush()
	}
}

// ---- master ----

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	stderr *tail
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 16384 {
		t.b = append([]byte(nil), t.b[:8192]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func startProc() *proc {
	p := &proc{stderr: &tail{}}
	p.cmd = exec.Command(os.Args[0], "-worker", "-prop", *fProp, "-tier", *fTier)
	p.cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOGC=400", "GOTRACEBACK=single")
	p.cmd.Stderr = p.stderr
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(o, 1<<20)
	if err := p.cmd.Start(); err != nil {
		panic(err)
	}
	return p
}

func (p *proc) do(t task) (*reply, string) {
	b, _ := json.Marshal(t)
	p.in.Write(append(b, '\n'))
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		p.cmd.Wait()
		p.stderr.mu.Lock()
		msg := string(p.stderr.b)
		p.stderr.mu.Unlock()
		return nil, "worker died: " + firstLines(msg, 40)
	}
	r := &reply{}
	if err := json.Unmarshal(line, r); err != nil {
		return nil, "bad reply: " + err.Error()
	}
	return r, ""
}

func (p *proc) kill() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

type cfgStat struct {
	done     int // highest completed level, -1 none
	capped   int // level that hit the time cap, -1 none
	runs     int64
	byLevel  []int64
	outcomes map[uint64]string
	steps    int64
	states   int64
	maxPts   int
	horizon  int
	cases    int64
	known    map[string]bool
}

func (s *cfgStat) clone() *cfgStat {
	c := *s
	c.byLevel = append([]int64(nil), s.byLevel...)
	c.outcomes = map[uint64]string{}
	for k, v := range s.outcomes {
		c.outcomes[k] = v
	}
	return &c
}

type known struct {
	Property string `json:"property"`
	Scenario string `json:"scenario"` // regexp
	Message  string `json:"message"`  // regexp
	What     string `json:"what"`
	Status   string `json:"status"` // "finding" or "fixed"
}

func loadKnown(path, prop string) []known {
	var out []known
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var all struct {
		Findings []known `json:"findings"`
	}
	if json.Unmarshal(b, &all) != nil {
		return nil
	}
	for _, k := range all.Findings {
		if k.Property == prop && k.Status == "finding" {
			out = append(out, k)
		}
	}
	return out
}

type violation struct {
	Property string       `json:"property"`
	Scenario string       `json:"scenario"`
	Devs     []vsched.Dev `json:"deviations"`
	Message  string       `json:"message"`
	Info     string       `json:"info,omitempty"`
	Trace    []string     `json:"trace,omitempty"`
	Tier     string       `json:"tier"`
	How      string       `json:"how_to_replay"`
}

func master(c *Check, cfgs []config) int {
	start := time.Now()
	budget := c.Quick
	if *fTier == "thorough" {
		budget = c.Thorough
	}
	if *fBudget > 0 {
		budget = *fBudget
	}
	end := start.Add(budget)
	jobs := *fJobs
	if jobs == 0 {
		jobs = runtime.NumCPU()
	}
	kn := loadKnown(*fKnown, c.Property)
	procs := make([]*proc, jobs)
	for i := range procs {
		procs[i] = startProc()
	}
	defer func() {
		for _, p := range procs {
			if p != nil {
				p.kill()
			}
		}
	}()
	stats := make([]*cfgStat, len(cfgs))
	maxLevel := 0
	bounds := make([]int, len(cfgs))
	active := make([]bool, len(cfgs))
	only := regexp.MustCompile(*fOnly)
	for i, cf := range cfgs {
		stats[i] = &cfgStat{done: -1, capped: -1, outcomes: map[uint64]string{}, known: map[string]bool{}}
		b := cf.sc.Bound
		if *fTier == "thorough" {
			b = cf.sc.Deep
			if b == 0 {
				b = cf.sc.Bound + 1
			}
		}
		if *fBound >= 0 {
			b = *fBound
		}
		bounds[i] = b
		active[i] = only.MatchString(cf.name())
		if active[i] && b > maxLevel {
			maxLevel = b
		}
	}
	var viol *violation
	broken := ""
	knownHit := map[string]bool{}
	retry := map[int]func(time.Duration) bool{}
levels:
	for level := 0; level <= maxLevel; level++ {
		var todo []int
		for i := range cfgs {
			if active[i] && bounds[i] >= level && stats[i].capped < 0 {
				todo = append(todo, i)
			}
		}
		// Every scenario gets an equal share of what is left; those that need more try again afterwards.
		for pass := 0; pass < 4 && len(todo) > 0; pass++ {
			var again []int
			for k, i := range todo {
				cf := cfgs[i]
				rem := time.Until(end)
				slice := rem / time.Duration(len(todo)-k)
				if level < 2 {
					slice = rem // the shallow levels come first, for every scenario
				}
				if rem < 50*time.Millisecond {
					stats[i].capped = level
					continue
				}
				t0 := time.Now()
				before := stats[i].clone()
				f, div, inc := exploreLevel(procs, i, cf, level, time.Now().Add(slice), stats[i], kn, c.Property, knownHit)
				if *fVerbose {
					fmt.Fprintf(os.Stderr, "%-40s level %d: runs=%d (total %d) maxpts=%d outcomes=%d %.1fs inc=%v\n", cf.name(), level, stats[i].byLevel[level], stats[i].runs, stats[i].maxPts, len(stats[i].outcomes), time.Since(t0).Seconds(), inc)
				}
				if div != "" {
					broken = div
					break levels
				}
				if f != nil {
					viol = confirm(i, cf, f, c.Property)
					if viol == nil {
						broken = fmt.Sprintf("%s: unconfirmed failure: %s", cf.name(), f.Msg)
						break levels
					}
					break levels
				}
				if !inc {
					stats[i].done, stats[i].capped = level, -1
					continue
				}
				stats[i].capped = level
				if k+1 < len(todo) && time.Since(t0) >= slice && pass < 3 {
					// worth another try when at least twice the time is left for it
					partial := stats[i]
					retry[i] = func(share time.Duration) bool {
						if share < 2*slice {
							return false
						}
						*partial = *before
						return true
					}
					again = append(again, i)
				}
			}
			// as many of them as can get enough time
			todo = todo[:0]
			for n := len(again); n > 0 && len(todo) == 0; n-- {
				share := time.Until(end) / time.Duration(n)
				for _, i := range again[:n] {
					if len(todo) < n && retry[i](share) {
						todo = append(todo, i)
					}
				}
			}
		}
	}
	writeEvidence(c, cfgs, stats, active, bounds, viol, time.Since(start), broken, knownHit)
	for k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Property, k)
	}
	if viol != nil {
		path := filepath.Join(*fOut, "replay-"+c.Property+".json")
		b, _ := json.MarshalIndent(viol, "", " ")
		os.MkdirAll(*fOut, 0o755)
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s\n", viol.Scenario, viol.Message)
		if viol.Info != "" {
			fmt.Println(firstLines(viol.Info, 30))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, path)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "check error:", broken)
		return 2
	}
	var runs int64
	for i := range cfgs {
		runs += stats[i].runs
	}
	fmt.Printf("OK property=%s executions=%d wall=%.1fs\n", c.Property, runs, time.Since(start).Seconds())
	return 0
}

func exploreLevel(procs []*proc, idx int, cf config, level int, deadline time.Time, st *cfgStat, kn []known, prop string, knownHit map[string]bool) (*failure, string, bool) {
	for len(st.byLevel) <= level {
		st.byLevel = append(st.byLevel, 0)
	}
	type item struct {
		devs []vsched.Dev
		cost int
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []item{{nil, 0}}
	busy := 0
	var fail *failure
	div := ""
	inc := false
	var wg sync.WaitGroup
	for pi := range procs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				for len(queue) == 0 && busy > 0 && fail == nil && div == "" {
					cond.Wait()
				}
				if len(queue) == 0 || fail != nil || div != "" {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if time.Now().After(deadline) {
					inc = true
					queue = nil
					mu.Unlock()
					cond.Broadcast()
					return
				}
				it := queue[0]
				queue = queue[1:]
				busy++
				split := len(it.devs) < 2 && len(queue) < 4096
				mu.Unlock()
				t := task{Cfg: idx, Devs: it.devs, Cost: it.cost, Target: level, Split: split, Deadline: deadline.UnixMilli()}
				r, died := procs[pi].do(t)
				if died != "" {
					procs[pi].kill()
					procs[pi] = startProc()
					mu.Lock()
					busy--
					if fail == nil {
						fail = &failure{Devs: it.devs, Msg: "crash: " + died}
					}
					mu.Unlock()
					cond.Broadcast()
					return
				}
				mu.Lock()
				busy--
				st.runs += int64(r.Runs)
				st.byLevel[level] += int64(r.Runs)
				st.steps += r.Steps
				st.states += r.NewStates
				st.horizon += r.Horizon
				st.cases += r.Cases
				if r.MaxPoints > st.maxPts {
					st.maxPts = r.MaxPoints
				}
				for k, v := range r.Outcomes {
					if len(st.outcomes) < 100000 {
						st.outcomes[k] = v
					}
				}
				if r.Incomplete {
					inc = true
				}
				if r.Diverged != "" && div == "" {
					div = r.Diverged
				}
				if r.Fail != nil {
					if w := matchKnown(kn, cf.name(), r.Fail.Msg); w != "" {
						knownHit[w] = true
						if !split {
							inc = true // the rest of this subtree was not explored
						}
					} else if fail == nil || len(r.Fail.Devs) < len(fail.Devs) {
						fail = r.Fail
					}
				}
				for _, ch := range r.Children {
					queue = append(queue, item{ch.Devs, ch.Cost})
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	return fail, div, inc
}

func matchKnown(kn []known, sc, msg string) string {
	for _, k := range kn {
		if ok, _ := regexp.MatchString(k.Scenario, sc); !ok {
			continue
		}
		if ok, _ := regexp.MatchString(k.Message, msg); ok {
			return k.What
		}
	}
	return ""
}

// confirm replays a failure five times in fresh processes; it must fail every time (the text may differ in addresses and the like).
func confirm(idx int, cf config, f *failure, prop string) *violation {
	v := &violation{Property: prop, Scenario: cf.name(), Devs: f.Devs, Message: f.Msg, Info: f.Info,
		Tier: *fTier, How: "bash /verif/check.sh replay <this file>"}
	for k := 0; k < 5; k++ {
		p := startProc()
		r, died := p.do(task{Cfg: idx, Devs: f.Devs, Trace: true, Cost: 0, Target: 99})
		if died != "" && strings.HasPrefix(f.Msg, "crash: ") {
			p.kill()
			continue
		}
		if strings.HasPrefix(f.Msg, "crash: ") && died == "" {
			// the crash may be deeper in the subtree of this node: explore it again
			t := task{Cfg: idx, Devs: f.Devs, Cost: 0, Target: len(f.Devs) + 1, Deadline: time.Now().Add(60 * time.Second).UnixMilli()}
			_, died = p.do(t)
			p.kill()
			if died == "" {
				return nil
			}
			continue
		}
		p.kill()
		if died != "" {
			v.Message = f.Msg + " (and on replay: " + firstLines(died, 5) + ")"
			continue
		}
		if r.Fail == nil {
			fmt.Fprintf(os.Stderr, "replay %d of %s differs: first %q now %q diverged=%q\n", k, cf.name(), f.Msg, failMsg(r.Fail), r.Diverged)
			return nil
		}
		v.Trace = r.Fail.Trace
		v.Info = r.Fail.Info
	}
	return v
}

func replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	thorough = v.Tier == "thorough"
	c := checks[v.Property]
	for _, s := range c.Scenarios {
		for p := vsched.Policy(0); p < vsched.NumPolicies; p++ {
			cf := config{s, p}
			if cf.name() != v.Scenario {
				continue
			}
			r := runOne(cf, v.Devs, true)
			for _, t := range r.Trace {
				fmt.Println(t)
			}
			fmt.Printf("fail=%q\n%s\n%s\n", r.Fail, r.FailInfo, strings.Join(r.Stuck, "\n"))
			if r.Fail != "" {
				return 1
			}
			return 0
		}
	}
	fmt.Fprintln(os.Stderr, "no such scenario")
	return 2
}

func writeEvidence(c *Check, cfgs []config, stats []*cfgStat, active []bool, bounds []int, viol *violation, wall time.Duration, broken string, knownHit map[string]bool) {
	if *fOut == "" {
		return
	}
	exhaustive := viol == nil && broken == ""
	var runs, steps, states int64
	outcomes := 0
	var per []map[string]any
	var samples []any
	for i, cf := range cfgs {
		if !active[i] {
			continue
		}
		st := stats[i]
		runs += st.runs
		steps += st.steps
		states += st.states
		outcomes += len(st.outcomes)
		if st.done < bounds[i] {
			exhaustive = false
		}
		m := map[string]any{"scenario": cf.name(), "executions": st.runs, "executions_per_deviation_level": st.byLevel,
			"deviation_bound_completed": st.done, "deviation_bound_wanted": bounds[i], "choice_points_max": st.maxPts, "distinct_outcomes": len(st.outcomes)}
		if st.cases > 0 {
			m["input_cases"] = st.cases
		}
		if st.capped >= 0 {
			m["time_capped_at_level"] = st.capped
		}
		per = append(per, m)
		n := 0
		var ks []uint64
		for k := range st.outcomes {
			ks = append(ks, k)
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a] < ks[b] })
		for _, k := range ks {
			if o := st.outcomes[k]; o != "" && n < 2 && len(samples) < 40 {
				samples = append(samples, map[string]any{"scenario": cf.name(), "observed": o})
				n++
			}
		}
	}
	if len(samples) == 0 {
		samples = append(samples, "see scenarios")
	}
	nv := 0
	if viol != nil {
		nv = 1
		samples = append(samples, map[string]any{"violation": viol.Message, "scenario": viol.Scenario})
	}
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]any{
		"property": c.Property, "tier": *fTier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": states, "transitions": steps, "traces_validated_against_impl": runs,
			"samples": samples, "exhaustive": exhaustive, "distinct_outcomes": outcomes, "scenarios": per,
			"rule": "every execution of each scenario on the real (instrumented) code with at most the stated number of deviations from the default schedule/environment; free inputs are enumerated completely. states = distinct choice-tree nodes, transitions = scheduler steps executed, traces = complete executions, all of them on the implementation itself. " + c.Rule,
		},
		"assumptions": c.Assumptions, "wall_s": wall.Seconds(), "violations": nv,
	}
	if c.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if broken != "" {
		ev["coverage"].(map[string]any)["error"] = broken
	}
	var buf bytes.Buffer
	e := json.NewEncoder(&buf)
	e.SetIndent("", " ")
	e.SetEscapeHTML(false)
	e.Encode(ev)
	os.MkdirAll(*fOut, 0o755)
	os.WriteFile(filepath.Join(*fOut, c.Property+".json"), buf.Bytes(), 0o644)
}

func failMsg(f *failure) string {
	if f == nil {
		return "no failure"
	}
	return f.Msg
}
