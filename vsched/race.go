package vsched

import (
	"cmp"
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// VC is a vector clock indexed by goroutine id.
type VC []uint32

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v *VC) join(o VC) {
	for len(*v) < len(o) {
		*v = append(*v, 0)
	}
	for i, x := range o {
		if x > (*v)[i] {
			(*v)[i] = x
		}
	}
}

func (v VC) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func (g *G) tick() {
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (g *G) acquire(v VC) { g.vc.join(v) }

// Acquire and Release add happens-before edges for the running goroutine.
func Acquire(v VC) {
	if S != nil {
		S.cur.acquire(v)
	}
}

// Release joins the running goroutine's clock into v.
func Release(v *VC) {
	if S != nil {
		v.join(S.cur.vc)
		S.cur.tick()
	}
}

// CurVC is a copy of the running goroutine's clock.
func CurVC() VC {
	if S == nil {
		return nil
	}
	S.cur.tick()
	return S.cur.vc.clone()
}

type mapState struct {
	wg, wt uint32 // last writer
	hasW   bool
	wsite  string
	reads  map[int]uint32
	keep   any
}

// MR records a read of map m, MW a write. Unordered conflicting accesses are what makes the Go runtime abort the
// process with "concurrent map read and map write".
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && !s.abort && m != nil {
		s.access(s.maps, *(*uintptr)(unsafe.Pointer(&m)), m, false, "map")
	}
	return m
}

// MW records a write.
func MW[M ~map[K]V, K comparable, V any](m M) M {
	if s := S; s != nil && !s.abort && m != nil {
		s.access(s.maps, *(*uintptr)(unsafe.Pointer(&m)), m, true, "map")
	}
	return m
}

func (s *Sched) access(tab map[uintptr]*mapState, key uintptr, keep any, write bool, what string) {
	g := s.cur
	st := tab[key]
	if st == nil {
		st = &mapState{reads: map[int]uint32{}, keep: keep}
		tab[key] = st
	}
	race := ""
	if st.hasW && int(st.wg) != g.id && g.vc.at(int(st.wg)) < st.wt {
		race = "write"
	}
	if write && race == "" {
		for r, t := range st.reads {
			if r != g.id && g.vc.at(r) < t {
				race = "read"
			}
		}
	}
	if race != "" {
		kind := "read"
		if write {
			kind = "write"
		}
		s.res.Races++
		if s.res.Fail == "" {
			s.fail(fmt.Sprintf("concurrent %s %s and %s %s (the Go runtime aborts the process): %s", what, race, what, kind, site()), "")
			s.stop()
		}
	}
	t := g.vc.at(g.id)
	if write {
		st.hasW, st.wg, st.wt = true, uint32(g.id), t
		clear(st.reads)
	} else {
		st.reads[g.id] = t
	}
}

// K remembers the insertion order of map keys that have no natural order (pointers), so that iteration over the
// map is a function of the execution and not of addresses.
func K[T comparable](k T) T {
	if s := S; s != nil {
		if _, ok := s.keyseq[any(k)]; !ok {
			s.keyseq[any(k)] = len(s.keyseq) + 1
		}
	}
	return k
}

// RangeMap iterates over m in a controlled order: sorted (or insertion) order by default, any other order being a
// deviation.
func RangeMap[M ~map[K2]V, K2 comparable, V any](m M) func(yield func(K2, V) bool) {
	return func(yield func(K2, V) bool) {
		s := S
		if s == nil {
			for k, v := range m {
				if !yield(k, v) {
					return
				}
			}
			return
		}
		MR(m)
		keys := make([]K2, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sortKeys(s, keys)
		for len(keys) > 0 {
			i := 0
			if len(keys) > 1 && !s.abort {
				i = s.choose(KData, len(keys))
			}
			k := keys[i]
			keys = append(keys[:i:i], keys[i+1:]...)
			v, ok := m[k]
			if !ok {
				continue
			}
			if !yield(k, v) {
				return
			}
			if !s.abort {
				MR(m)
			}
		}
	}
}

func sortKeys[T comparable](s *Sched, keys []T) {
	if len(keys) < 2 {
		return
	}
	switch reflect.TypeOf(keys[0]).Kind() {
	case reflect.String:
		sort.Slice(keys, func(i, j int) bool { return reflect.ValueOf(keys[i]).String() < reflect.ValueOf(keys[j]).String() })
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		sort.Slice(keys, func(i, j int) bool {
			return cmp.Less(reflect.ValueOf(keys[i]).Int(), reflect.ValueOf(keys[j]).Int())
		})
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		sort.Slice(keys, func(i, j int) bool {
			return cmp.Less(reflect.ValueOf(keys[i]).Uint(), reflect.ValueOf(keys[j]).Uint())
		})
	default:
		sort.Slice(keys, func(i, j int) bool {
			a, b := s.keyseq[any(keys[i])], s.keyseq[any(keys[j])]
			if a != b {
				return a < b
			}
			return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j])
		})
	}
}
