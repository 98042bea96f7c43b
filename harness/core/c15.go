package main

import (
	"fmt"
	"sort"
	"strings"

	"vharness/lib"

	"github.com/kataras/neffos"
	"vsched"
	"vsched/mc"
)

// one store operation and its observed result
type sop struct {
	kind string // inc dec set get
	key  string
	val  any
	res  any
	b, e int // begin and end stamps
}

func (o *sop) String() string {
	return fmt.Sprintf("%s(%s,%v)=%v[%d,%d]", o.kind, o.key, o.val, o.res, o.b, o.e)
}

// storeModel is the documented behaviour of the store.
func storeModel(st map[string]any, o *sop) any {
	switch o.kind {
	case "set":
		st[o.key] = o.val
		return nil
	case "get":
		return st[o.key]
	case "inc":
		v, ok := st[o.key].(int)
		if !ok {
			v = 0
		}
		st[o.key] = v + 1
		return v + 1
	case "dec":
		v, ok := st[o.key].(int)
		if !ok {
			v = 0
		}
		st[o.key] = v - 1
		return v - 1
	}
	panic(o.kind)
}

// linearizable searches for a sequential order that respects real time and explains every result.
func linearizable(init map[string]any, ops []*sop) bool {
	used := make([]bool, len(ops))
	var rec func(st map[string]any, n int) bool
	rec = func(st map[string]any, n int) bool {
		if n == len(ops) {
			return true
		}
		for i, o := range ops {
			if used[i] {
				continue
			}
			ok := true
			for j, p := range ops {
				if !used[j] && j != i && p.e < o.b {
					ok = false
				}
			}
			if !ok {
				continue
			}
			s2 := map[string]any{}
			for k, v := range st {
				s2[k] = v
			}
			if storeModel(s2, o) != o.res {
				continue
			}
			used[i] = true
			if rec(s2, n+1) {
				return true
			}
			used[i] = false
		}
		return false
	}
	return rec(init, 0)
}

func doStore(c *neffos.Conn, o *sop, clock *int) {
	*clock++
	o.b = *clock
	switch o.kind {
	case "set":
		c.Set(o.key, o.val)
	case "get":
		o.res = c.Get(o.key)
	case "inc":
		o.res = c.Increment(o.key)
	case "dec":
		o.res = c.Decrement(o.key)
	}
	*clock++
	o.e = *clock
}

func init() {
	menu := []sop{{kind: "inc", key: "k"}, {kind: "dec", key: "k"}, {kind: "set", key: "k", val: 7}, {kind: "set", key: "k", val: "text"}, {kind: "get", key: "k"}}
	two := append(append([]sop(nil), menu...), sop{kind: "inc", key: "j"}, sop{kind: "set", key: "j", val: 9}, sop{kind: "get", key: "j"})
	inits := []any{nil, 5, "str"}
	conn := func() *neffos.Conn {
		side := vsched.Choose(2)
		var c *neffos.Conn
		lib.Setup(func() {
			h := lib.NewHost(neffos.Namespaces{})
			cl := h.Dial("a", neffos.Namespaces{})
			c = h.SConn("a")
			if side == 1 {
				c = lib.ConnOf(cl)
			}
		})
		return c
	}
	// shape gives the number of operations of each goroutine
	conc := func(menu []sop, shape ...int) func() {
		return func() {
			c := conn()
			iv := inits[vsched.Choose(len(inits))]
			st := map[string]any{}
			if iv != nil {
				c.Set("k", iv)
				st["k"] = iv
			}
			var ops []*sop
			var fs []func()
			clock := 0
			var names []string
			last := -1
			for _, n := range shape {
				var mine []*sop
				id := 0
				for i := 0; i < n; i++ {
					k := vsched.Choose(len(menu))
					id = id*len(menu) + k
					o := menu[k]
					names = append(names, o.kind)
					mine = append(mine, &o)
				}
				_ = last
				ops = append(ops, mine...)
				fs = append(fs, func() {
					for _, o := range mine {
						doStore(c, o, &clock)
					}
				})
			}
			vsched.Par(fs...)
			for _, k := range []string{"k", "j"} {
				final := &sop{kind: "get", key: k}
				doStore(c, final, &clock)
				ops = append(ops, final)
			}
			lib.Check(linearizable(st, ops), "no sequential order of the store operations explains what they returned (initial %v): %v", iv, ops)
			var rs []string
			for _, o := range ops {
				rs = append(rs, fmt.Sprint(o.kind, o.res))
			}
			sort.Strings(rs)
			vsched.SetOutcome(fmt.Sprint(iv, strings.Join(names, ","), rs))
		}
	}
	seq := func() {
		c := conn()
		st := map[string]any{}
		clock := 0
		m2 := append(append([]sop(nil), menu...), sop{kind: "inc", key: "j"}, sop{kind: "get", key: "j"}, sop{kind: "set", key: "k", val: nil}, sop{kind: "set", key: "k", val: int64(3)})
		var done []string
		for i := 0; i < mc.Pick(4, 5); i++ {
			o := m2[vsched.Choose(len(m2))]
			doStore(c, &o, &clock)
			done = append(done, o.String())
			want := storeModel(st, &o)
			lib.Check(o.res == want, "%v: expected %v", done, want)
		}
		for _, k := range []string{"k", "j", "never"} {
			lib.Check(c.Get(k) == st[k], "%v: Get(%s)=%v, expected %v", done, k, c.Get(k), st[k])
		}
		vsched.SetOutcome(strings.Join(done, " "))
	}
	// the stores of two connections, and of the two sides of one, are separate
	separate := func() {
		h := lib.NewHost(neffos.Namespaces{})
		a, b := h.Dial("a", neffos.Namespaces{}), h.Dial("b", neffos.Namespaces{})
		cs := []*neffos.Conn{h.SConn("a"), h.SConn("b"), lib.ConnOf(a), lib.ConnOf(b)}
		i := vsched.Choose(4)
		cs[i].Set("k", i)
		cs[i].Increment("n")
		for j, c := range cs {
			if j != i {
				lib.Check(c.Get("k") == nil && c.Get("n") == nil, "a store of one connection shows up in another")
			}
		}
	}
	c := mc.Register("C15",
		&mc.Scenario{Name: "two-by-one", Body: conc(two, 1, 1), Bound: 3, Deep: 4, Fine: true, Policies: polTwo},
		&mc.Scenario{Name: "two-by-two", Body: conc(menu, 2, 2), Bound: 1, Deep: 2, Fine: true, Policies: polTwo},
		&mc.Scenario{Name: "three-by-one", Body: conc(menu, 1, 1, 1), Bound: 2, Deep: 3, Fine: true, Policies: polOne},
		&mc.Scenario{Name: "sequences", Body: seq, MaxSteps: 100000},
		&mc.Scenario{Name: "separate", Body: separate},
	)
	c.Rule = "every combination of operations from {Increment, Decrement, Set int, Set text, Get} on one key (and, for pairs, on a second one) from three initial values, every schedule up to the bound (plain memory accesses are scheduling points), checked for linearizability against a plain map."
}
