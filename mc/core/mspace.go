package core

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
)

// Content is the model of a map: the value of each key of the universe, or -1.
type Content [12]int8

// EmptyContent has no keys.
func EmptyContent() Content {
	var c Content
	for i := range c {
		c[i] = -1
	}
	return c
}

// With returns c with key k set to v (-1 removes).
func (c Content) With(k int, v int8) Content {
	c[k] = v
	return c
}

// Count returns the number of keys present.
func (c Content) Count() int {
	n := 0
	for _, v := range c {
		if v >= 0 {
			n++
		}
	}
	return n
}

func (c Content) String() string {
	var ss []string
	for k, v := range c {
		if v >= 0 {
			ss = append(ss, fmt.Sprintf("e%d:%d", k, v))
		}
	}
	return "(" + strings.Join(ss, ", ") + ")"
}

// Update is the model of Map.Update.
func (c Content) Update(d Content) Content {
	for k, v := range d {
		if v >= 0 {
			c[k] = v
		}
	}
	return c
}

// Merge is the model of Map.Merge.
func (c Content) Merge(d Content, f func(k int, a, b int8) int8) Content {
	for k, v := range d {
		if v >= 0 {
			if c[k] >= 0 {
				c[k] = f(k, c[k], v)
			} else {
				c[k] = v
			}
		}
	}
	return c
}

// MapState is one implementation state of a Map with its model.
type MapState[K any] struct {
	M    frozen.Map[K, int]
	C    Content
	Prov MProv
}

// MProv records how a state was first reached.
type MProv struct {
	Op   string
	A, B int32
	Args [][2]int // key, value
}

// MapSpace is the set of reachable Map values.
type MapSpace[K any] struct {
	U      Univ[K]
	NV     int
	Unit   *Unit
	States []MapState[K]
	ByC    map[Content][]int32
	index  map[string]int32
	buf    []byte
}

// Expr renders the history of state i.
func (sp *MapSpace[K]) Expr(i int32) string { return sp.ExprProv(sp.States[i].Prov) }

// ExprProv renders a history.
func (sp *MapSpace[K]) ExprProv(p MProv) string {
	var ss []string
	for _, a := range p.Args {
		if a[1] < 0 {
			ss = append(ss, fmt.Sprintf("e%d", a[0]))
		} else {
			ss = append(ss, fmt.Sprintf("e%d:%d", a[0], a[1]))
		}
	}
	args := strings.Join(ss, ", ")
	switch p.Op {
	case "NewMap":
		return "NewMap(" + args + ")"
	case "With", "Without":
		return sp.Expr(p.A) + "." + p.Op + "(" + args + ")"
	default:
		return sp.Expr(p.A) + "." + p.Op + "(" + sp.Expr(p.B) + ")"
	}
}

// ObserveMap reads all contents of m and compares them with c.
func ObserveMap[K any](u Univ[K], m frozen.Map[K, int], c Content) string {
	n := c.Count()
	if got := m.Count(); got != n {
		return fmt.Sprintf("Count() = %d, want %d", got, n)
	}
	if got := m.IsEmpty(); got != (n == 0) {
		return fmt.Sprintf("IsEmpty() = %v with %d entries", got, n)
	}
	for i, k := range u.El {
		v, has := m.Get(k)
		if has != (c[i] >= 0) || has && v != int(c[i]) || !has && v != 0 {
			return fmt.Sprintf("Get(e%d) = %d, %v", i, v, has)
		}
		if m.Has(k) != has {
			return fmt.Sprintf("Has(e%d) = %v", i, !has)
		}
	}
	return ObserveMapRange(u, m.Range(), c)
}

// ObserveMapRange drains it and compares with c.
func ObserveMapRange[K any](u Univ[K], it frozen.MapIterator[K, int], c Content) string {
	seen := EmptyContent()
	for it.Next() {
		k, v := it.Entry()
		i := u.ID(k)
		if i < 0 || i >= len(u.El) {
			return fmt.Sprintf("Range yields key %v, which is not in the universe", k)
		}
		if seen[i] >= 0 {
			return fmt.Sprintf("Range yields e%d twice", i)
		}
		if u.ID(it.Key()) != i || it.Value() != v {
			return fmt.Sprintf("Entry() = %v, %v but Key() = %v, Value() = %v", k, v, it.Key(), it.Value())
		}
		if v < 0 || v > 100 {
			return fmt.Sprintf("Range yields e%d:%d", i, v)
		}
		seen[i] = int8(v)
	}
	if seen != c {
		return fmt.Sprintf("Range yields %v, want %v", seen, c)
	}
	return ""
}

// Add records the result of an executed transition.
func (sp *MapSpace[K]) Add(m frozen.Map[K, int], c Content, prov MProv) int32 {
	sp.Unit.Trans++
	sp.buf = Dump(sp.buf[:0], m)
	if i, has := sp.index[string(sp.buf)]; has {
		if sp.States[i].C != c {
			sp.Unit.Failf("%s\n%s has contents %v, want %v", sp.U.Describe(), sp.ExprProv(prov), sp.States[i].C, c)
		}
		return i
	}
	if d := ObserveMap(sp.U, m, c); d != "" {
		sp.Unit.Failf("%s\n%s: %s; expected contents %v", sp.U.Describe(), sp.ExprProv(prov), d, c)
	}
	i := int32(len(sp.States))
	sp.States = append(sp.States, MapState[K]{M: m, C: c, Prov: prov})
	sp.index[string(sp.buf)] = i
	sp.ByC[c] = append(sp.ByC[c], i)
	sp.Unit.States++
	return i
}

// MSpaceOpts selects the transition relation.
type MSpaceOpts struct {
	NewMaps bool
	Max     int
}

// NewMapSpace explores With(k, v), Without(k) and NewMap to a fixpoint; the
// values are 0..nv-1.
func NewMapSpace[K any](u Univ[K], nv int, unit *Unit, o MSpaceOpts) *MapSpace[K] {
	sp := &MapSpace[K]{U: u, NV: nv, Unit: unit, index: map[string]int32{}, ByC: map[Content][]int32{}}
	var prov MProv
	unit.Case(func() string { return sp.ExprProv(prov) })
	do := func(p MProv, c Content, f func() frozen.Map[K, int]) {
		prov = p
		unit.Tick()
		sp.Add(f(), c, p)
	}
	do(MProv{Op: "NewMap"}, EmptyContent(), func() frozen.Map[K, int] { return frozen.Map[K, int]{} })
	n := len(u.El)
	if o.NewMaps {
		Arrangements(n, n, func(a []int) {
			for v := 0; v < nv; v++ {
				var kvs []frozen.KeyValue[K, int]
				c := EmptyContent()
				p := MProv{Op: "NewMap"}
				for i, k := range a {
					x := (v + i) % nv
					kvs = append(kvs, frozen.KV(u.El[k], x))
					c[k] = int8(x)
					p.Args = append(p.Args, [2]int{k, x})
				}
				do(p, c, func() frozen.Map[K, int] { return frozen.NewMap(kvs...) })
			}
		})
	}
	for i := int32(0); int(i) < len(sp.States); i++ {
		if o.Max > 0 && len(sp.States) > o.Max {
			unit.Capped(fmt.Sprintf("state cap %d", o.Max))
			break
		}
		m, c := sp.States[i].M, sp.States[i].C
		for k := 0; k < n; k++ {
			for v := 0; v < nv; v++ {
				do(MProv{Op: "With", A: i, Args: [][2]int{{k, v}}}, c.With(k, int8(v)),
					func() frozen.Map[K, int] { return m.With(u.El[k], v) })
			}
			do(MProv{Op: "Without", A: i, Args: [][2]int{{k, -1}}}, c.With(k, -1),
				func() frozen.Map[K, int] { return m.Without(u.El[k]) })
		}
	}
	return sp
}

// Select picks at most n states (but one per content), the contents taking
// turns.
func (sp *MapSpace[K]) Select(n int) []int32 {
	var cs []Content
	for c := range sp.ByC {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool {
		for k := range cs[i] {
			if cs[i][k] != cs[j][k] {
				return cs[i][k] < cs[j][k]
			}
		}
		return false
	})
	var out []int32
	for round := 0; ; round++ {
		more := false
		for _, c := range cs {
			l := sp.ByC[c]
			if round < len(l) {
				if round > 0 && len(out) >= n {
					return out
				}
				k := round
				if round == 1 {
					k = len(l) - 1
				} else if round > 1 {
					k = round - 1
				}
				out = append(out, l[k])
				more = true
			}
		}
		if !more {
			return out
		}
	}
}

// Rebuild replays the history of state i.
func (sp *MapSpace[K]) Rebuild(i int32) frozen.Map[K, int] {
	p := sp.States[i].Prov
	switch p.Op {
	case "NewMap":
		var kvs []frozen.KeyValue[K, int]
		for _, a := range p.Args {
			kvs = append(kvs, frozen.KV(sp.U.El[a[0]], a[1]))
		}
		return frozen.NewMap(kvs...)
	case "With":
		return sp.Rebuild(p.A).With(sp.U.El[p.Args[0][0]], p.Args[0][1])
	case "Without":
		return sp.Rebuild(p.A).Without(sp.U.El[p.Args[0][0]])
	case "Update":
		return sp.Rebuild(p.A).Update(sp.Rebuild(p.B))
	}
	panic("unknown op " + p.Op)
}

// ReplayAll rebuilds every state and re-reads the stored ones.
func (sp *MapSpace[K]) ReplayAll() {
	for i := range sp.States {
		i := int32(i)
		sp.Unit.Case(func() string { return "replay " + sp.Expr(i) })
		fresh := sp.Rebuild(i)
		sp.Unit.Traces++
		if d := ObserveMap(sp.U, fresh, sp.States[i].C); d != "" {
			sp.Unit.Failf("%s\nreplayed %s: %s; expected contents %v", sp.U.Describe(), sp.Expr(i), d, sp.States[i].C)
		}
		if d := ObserveMap(sp.U, sp.States[i].M, sp.States[i].C); d != "" {
			sp.Unit.Failf("%s\n%s changed after later operations: %s; expected contents %v",
				sp.U.Describe(), sp.Expr(i), d, sp.States[i].C)
		}
	}
}
