package core

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
)

// SetState is one implementation state of a Set together with its model: the
// bitmask of the elements it must contain.
type SetState[T any] struct {
	Set  frozen.Set[T]
	Mask uint32
	Prov Prov
}

// Prov records how a state was first reached.
type Prov struct {
	Op   string
	A, B int32 // operand states
	Arg  []int // element arguments
}

// SetSpace is the set of structurally distinct Set values reachable in a
// universe, found by breadth-first search to a fixpoint.
type SetSpace[T any] struct {
	U      Univ[T]
	Unit   *Unit
	States []SetState[T]
	index  map[string]int32
	buf    []byte
	// ByMask lists the states with a given content.
	ByMask map[uint32][]int32
}

// Expr renders the history of state i as an expression.
func (sp *SetSpace[T]) Expr(i int32) string {
	return sp.exprProv(sp.States[i].Prov)
}

func (sp *SetSpace[T]) exprProv(p Prov) string {
	els := func() string {
		var ss []string
		for _, a := range p.Arg {
			ss = append(ss, fmt.Sprintf("e%d", a))
		}
		return strings.Join(ss, ",")
	}
	switch p.Op {
	case "NewSet":
		return "NewSet(" + els() + ")"
	case "Builder":
		return "Builder(" + els() + ").Finish()"
	case "With", "Without":
		return sp.Expr(p.A) + "." + p.Op + "(" + els() + ")"
	case "Where":
		return sp.Expr(p.A) + ".Where(in{" + els() + "})"
	default:
		return sp.Expr(p.A) + "." + p.Op + "(" + sp.Expr(p.B) + ")"
	}
}

// Describe lists the hashes of the universe, for reports.
func (u Univ[T]) Describe() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "universe %s:", u.Name)
	for i, e := range u.El {
		fmt.Fprintf(&sb, " %d=%+v", i, e)
	}
	return sb.String()
}

// ObserveSet reads the complete observable contents of s and compares them
// with the model mask; it returns a description of the first disagreement.
func ObserveSet[T any](u Univ[T], s frozen.Set[T], mask uint32) string {
	n := popcount(mask)
	if c := s.Count(); c != n {
		return fmt.Sprintf("Count() = %d, want %d", c, n)
	}
	if e := s.IsEmpty(); e != (n == 0) {
		return fmt.Sprintf("IsEmpty() = %v with %d elements", e, n)
	}
	if d := ObserveRange(u, s.Range(), mask); d != "" {
		return d
	}
	for i, e := range u.El {
		if h := s.Has(e); h != (mask>>uint(i)&1 != 0) {
			return fmt.Sprintf("Has(e%d) = %v", i, h)
		}
	}
	return ""
}

// ObserveRange drains it and compares with the mask.
func ObserveRange[T any](u Univ[T], it frozen.Iterator[T], mask uint32) string {
	var seen uint32
	for it.Next() {
		v := it.Value()
		i := u.ID(v)
		if i < 0 || i >= len(u.El) {
			return fmt.Sprintf("Range yields %v, which is not in the universe", v)
		}
		if seen>>uint(i)&1 != 0 {
			return fmt.Sprintf("Range yields e%d twice", i)
		}
		seen |= 1 << uint(i)
	}
	if seen != mask {
		return fmt.Sprintf("Range yields %s, want %s", MaskString(seen), MaskString(mask))
	}
	return ""
}

// MaskString renders a mask as a set of elements.
func MaskString(m uint32) string {
	var ss []string
	for i := 0; m != 0; i, m = i+1, m>>1 {
		if m&1 != 0 {
			ss = append(ss, fmt.Sprintf("e%d", i))
		}
	}
	return "{" + strings.Join(ss, ",") + "}"
}

func popcount(m uint32) int {
	n := 0
	for ; m != 0; m &= m - 1 {
		n++
	}
	return n
}

// Add records the result of one executed transition: the state must have the
// content mask. It returns the index of the state.
func (sp *SetSpace[T]) Add(s frozen.Set[T], mask uint32, prov Prov) int32 {
	sp.Unit.Trans++
	sp.buf = Dump(sp.buf[:0], s)
	if i, has := sp.index[string(sp.buf)]; has {
		if sp.States[i].Mask != mask {
			sp.Unit.Failf("%s\n%s contains %s, want %s", sp.U.Describe(), sp.exprProv(prov),
				MaskString(sp.States[i].Mask), MaskString(mask))
		}
		return i
	}
	if d := ObserveSet(sp.U, s, mask); d != "" {
		sp.Unit.Failf("%s\n%s: %s; expected contents %s", sp.U.Describe(), sp.exprProv(prov), d, MaskString(mask))
	}
	i := int32(len(sp.States))
	sp.States = append(sp.States, SetState[T]{Set: s, Mask: mask, Prov: prov})
	sp.index[string(sp.buf)] = i
	sp.ByMask[mask] = append(sp.ByMask[mask], i)
	sp.Unit.States++
	return i
}

// SpaceOpts selects the transition relation of the closure.
type SpaceOpts struct {
	Binary  bool // union, intersection, difference of all pairs
	Where   bool // all predicates over the universe
	NewSets bool // NewSet of every arrangement of elements
	Max     int  // cap on the number of states (0: none)
	// MaxBinary bounds the number of states whose pairs are combined: beyond
	// it, at most that many states are combined, the contents taking turns, so
	// that every pair of contents still occurs (0: no bound).
	MaxBinary int
}

// NewSetSpace explores to a fixpoint.
func NewSetSpace[T any](u Univ[T], unit *Unit, o SpaceOpts) *SetSpace[T] {
	sp := &SetSpace[T]{U: u, Unit: unit, index: map[string]int32{}, ByMask: map[uint32][]int32{}}
	var prov Prov
	unit.Case(func() string { return sp.exprProv(prov) })
	do := func(p Prov, mask uint32, f func() frozen.Set[T]) {
		prov = p
		unit.Tick()
		sp.Add(f(), mask, p)
	}
	do(Prov{Op: "NewSet"}, 0, func() frozen.Set[T] { return frozen.Set[T]{} })
	n := len(u.El)
	if o.NewSets {
		Arrangements(n, n, func(a []int) {
			els := make([]T, len(a))
			var mask uint32
			for i, x := range a {
				els[i] = u.El[x]
				mask |= 1 << uint(x)
			}
			do(Prov{Op: "NewSet", Arg: append([]int(nil), a...)}, mask, func() frozen.Set[T] { return frozen.NewSet(els...) })
		})
	}
	for i := int32(0); int(i) < len(sp.States); i++ {
		if o.Max > 0 && len(sp.States) > o.Max {
			unit.Capped(fmt.Sprintf("state cap %d", o.Max))
			break
		}
		s, mask := sp.States[i].Set, sp.States[i].Mask
		for e := 0; e < n; e++ {
			bit := uint32(1) << uint(e)
			do(Prov{Op: "With", A: i, Arg: []int{e}}, mask|bit, func() frozen.Set[T] { return s.With(u.El[e]) })
			do(Prov{Op: "Without", A: i, Arg: []int{e}}, mask&^bit, func() frozen.Set[T] { return s.Without(u.El[e]) })
		}
		if o.Where {
			for keep := uint32(0); keep < 1<<uint(n); keep++ {
				if keep&^mask != 0 {
					continue
				}
				k := keep
				do(Prov{Op: "Where", A: i, Arg: maskArgs(k)}, mask&k, func() frozen.Set[T] {
					return s.Where(func(v T) bool { return k>>uint(u.ID(v))&1 != 0 })
				})
			}
		}
		if o.Binary && o.MaxBinary == 0 {
			for j := int32(0); j <= i; j++ {
				sp.pair(do, i, j)
				if i != j {
					sp.pair(do, j, i)
				}
			}
		}
	}
	if o.Binary && o.MaxBinary > 0 {
		sel := sp.Select(o.MaxBinary)
		if len(sel) < len(sp.States) {
			unit.Cover("states not combined pairwise", int64(len(sp.States)-len(sel)))
		}
		for _, i := range sel {
			for _, j := range sel {
				sp.pair(do, i, j)
			}
		}
	}
	return sp
}

// Select picks at most n states (but one per content), the contents taking
// turns.
func (sp *SetSpace[T]) Select(n int) []int32 {
	var out []int32
	masks := make([]uint32, 0, len(sp.ByMask))
	for m := range sp.ByMask {
		masks = append(masks, m)
	}
	sort.Slice(masks, func(i, j int) bool { return masks[i] < masks[j] })
	for round := 0; ; round++ {
		more := false
		for _, m := range masks {
			l := sp.ByMask[m]
			if round < len(l) {
				if round > 0 && len(out) >= n {
					return out
				}
				// first, last, then the ones between
				k := round
				if round == 1 {
					k = len(l) - 1
				} else if round > 1 {
					k = round - 1
				}
				out = append(out, l[k])
				more = true
			}
		}
		if !more {
			return out
		}
	}
}

func (sp *SetSpace[T]) pair(do func(Prov, uint32, func() frozen.Set[T]), i, j int32) {
	s, a := sp.States[i].Set, sp.States[i].Mask
	t, b := sp.States[j].Set, sp.States[j].Mask
	do(Prov{Op: "Union", A: i, B: j}, a|b, func() frozen.Set[T] { return s.Union(t) })
	do(Prov{Op: "Intersection", A: i, B: j}, a&b, func() frozen.Set[T] { return s.Intersection(t) })
	do(Prov{Op: "Difference", A: i, B: j}, a&^b, func() frozen.Set[T] { return s.Difference(t) })
}

func maskArgs(m uint32) []int {
	var out []int
	for i := 0; m != 0; i, m = i+1, m>>1 {
		if m&1 != 0 {
			out = append(out, i)
		}
	}
	return out
}

// Arrangements calls f with every sequence of at most k distinct numbers below
// n, the empty one included.
func Arrangements(n, k int, f func([]int)) {
	var rec func(a []int, used uint32)
	rec = func(a []int, used uint32) {
		f(a)
		if len(a) == k {
			return
		}
		for i := 0; i < n; i++ {
			if used>>uint(i)&1 == 0 {
				rec(append(a, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
}

// Rebuild replays the recorded history of state i from scratch.
func (sp *SetSpace[T]) Rebuild(i int32) frozen.Set[T] {
	p := sp.States[i].Prov
	args := func() []T {
		var els []T
		for _, a := range p.Arg {
			els = append(els, sp.U.El[a])
		}
		return els
	}
	switch p.Op {
	case "NewSet":
		return frozen.NewSet(args()...)
	case "With":
		return sp.Rebuild(p.A).With(sp.U.El[p.Arg[0]])
	case "Without":
		return sp.Rebuild(p.A).Without(sp.U.El[p.Arg[0]])
	case "Where":
		var k uint32
		for _, a := range p.Arg {
			k |= 1 << uint(a)
		}
		return sp.Rebuild(p.A).Where(func(v T) bool { return k>>uint(sp.U.ID(v))&1 != 0 })
	case "Union":
		return sp.Rebuild(p.A).Union(sp.Rebuild(p.B))
	case "Intersection":
		return sp.Rebuild(p.A).Intersection(sp.Rebuild(p.B))
	case "Difference":
		return sp.Rebuild(p.A).Difference(sp.Rebuild(p.B))
	}
	panic("unknown op " + p.Op)
}

// ReplayAll rebuilds every state from scratch along its recorded history and
// checks that the same state results: the search is deterministic and no state
// was disturbed by later operations.
func (sp *SetSpace[T]) ReplayAll() {
	for i := range sp.States {
		i := int32(i)
		sp.Unit.Case(func() string { return "replay " + sp.Expr(i) })
		fresh := sp.Rebuild(i)
		sp.Unit.Traces++
		if d := ObserveSet(sp.U, fresh, sp.States[i].Mask); d != "" {
			sp.Unit.Failf("%s\nreplayed %s: %s; expected contents %s", sp.U.Describe(), sp.Expr(i), d, MaskString(sp.States[i].Mask))
		}
		if d := ObserveSet(sp.U, sp.States[i].Set, sp.States[i].Mask); d != "" {
			sp.Unit.Failf("%s\n%s changed after later operations: %s; expected contents %s",
				sp.U.Describe(), sp.Expr(i), d, MaskString(sp.States[i].Mask))
		}
	}
}
