//go:build !sel || c27

package main

import (
	"encoding/json"
	"fmt"
	"runtime"
	"strings"
	"sync/atomic"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
	"github.com/arr-ai/frozen/pkg/rel"

	"verif/mc/core"
)

func init() { checks["C27"] = c27 }

// fault makes the k-th call of a callback panic. Only one exists at a time.
type fault struct {
	at     int64 // 0: never
	n      atomic.Int64
	thrown atomic.Bool
	last   atomic.Pointer[string] // what panicked
	err    atomic.Pointer[error]  // with what
}

const faultText = "the callback's panic"

var theFault atomic.Pointer[fault]

func called(what string) {
	f := theFault.Load()
	if f == nil {
		return
	}
	if f.n.Add(1) == f.at {
		f.last.Store(&what)
		f.thrown.Store(true)
		err := fmt.Errorf("%s (call %d: %s)", faultText, f.at, what)
		f.err.Store(&err)
		panic(err)
	}
}

// pE is an element whose methods can panic.
type pE struct {
	ID int
	H  uint64
}

func (e pE) Hash(seed uintptr) uintptr { called("Hash"); return E{H: e.H}.Hash(seed) }
func (e pE) Equal(f pE) bool           { called("Equal"); return e.ID == f.ID }
func (e pE) Same(a any) bool {
	called("Same")
	f, is := a.(pE)
	return is && e.ID == f.ID
}
func (e pE) String() string { return fmt.Sprintf("p%d", e.ID) }
func (e pE) MarshalJSON() ([]byte, error) {
	called("MarshalJSON")
	return []byte(fmt.Sprint(e.ID)), nil
}

type pWorld struct {
	el   []pE
	a, b frozen.Set[pE]
	m, n frozen.Map[pE, pE]
	i    frozen.IntSet[int]
	ss   frozen.Set[frozen.Set[pE]]
	la   lazy.Set
	lb   lazy.Set
	lw   lazy.Set
	r, q rel.Relation
	kept []frozen.Set[pE] // derived from a, sharing its structure
}

func newPWorld(s core.Shape) *pWorld {
	w := &pWorld{}
	for i, h := range s.H {
		w.el = append(w.el, pE{i, h})
	}
	n := len(w.el)
	w.a = frozen.NewSet(w.el...).Without(w.el[1])
	w.b = frozen.NewSet(w.el[1:]...).Without(w.el[n-1])
	w.kept = []frozen.Set[pE]{w.a.With(w.el[1]), w.a.Without(w.el[0]), w.a.With(pE{90, s.H[0]})}
	for i, e := range w.el {
		if i != 1 {
			w.m = w.m.With(e, w.el[(i+1)%n])
		}
		if i != 0 {
			w.n = w.n.With(e, w.el[(i+2)%n])
		}
	}
	w.i = frozen.NewIntSet(1, 2, 64, 65, 200)
	w.ss = frozen.NewSet(w.a, w.b)
	w.la, w.lb = lazy.Frozen(w.a.AsSetAny()), lazy.Frozen(w.b.AsSetAny())
	w.lw = w.la.Where(func(v any) bool { called("lazy predicate"); return v.(pE).ID != 0 }).
		Map(func(v any) any { called("lazy mapper"); return w.el[(v.(pE).ID+1)%n] })
	w.r = rel.New([]string{"x", "y"}, []any{w.el[0], 1}, []any{w.el[1], 1}, []any{w.el[1], 2})
	w.q = rel.New([]string{"x", "z"}, []any{w.el[1], 1}, []any{w.el[0], 3})
	return w
}

func (w *pWorld) show(s frozen.Set[pE]) string {
	var out strings.Builder
	n := 0
	for r := s.Range(); r.Next(); n++ {
	}
	fmt.Fprintf(&out, "%d,%d:", s.Count(), n)
	for _, e := range w.el {
		if s.Has(e) {
			fmt.Fprintf(&out, " %d", e.ID)
		}
	}
	return out.String()
}

func (w *pWorld) showMap(m frozen.Map[pE, pE]) string {
	var out strings.Builder
	n := 0
	for r := m.Range(); r.Next(); n++ {
	}
	fmt.Fprintf(&out, "%d,%d:", m.Count(), n)
	for _, e := range w.el {
		if v, has := m.Get(e); has {
			fmt.Fprintf(&out, " %d=%d", e.ID, v.ID)
		}
	}
	return out.String()
}

func (w *pWorld) showLazy(s lazy.Set) string {
	var out strings.Builder
	n := 0
	for r := s.Range(); r.Next(); n++ {
	}
	fmt.Fprintf(&out, "%d,%d:", s.Count(), n)
	for _, e := range w.el {
		if s.Has(e) {
			fmt.Fprintf(&out, " %d", e.ID)
		}
	}
	return out.String()
}

// operands shows everything that exists before an operation; lazy sets are
// shown through another way than the one that an operation takes.
func (w *pWorld) operands() string {
	var out strings.Builder
	fmt.Fprintln(&out, "a", w.show(w.a))
	fmt.Fprintln(&out, "b", w.show(w.b))
	for i, k := range w.kept {
		fmt.Fprintln(&out, "kept", i, w.show(k))
	}
	fmt.Fprintln(&out, "m", w.showMap(w.m))
	fmt.Fprintln(&out, "n", w.showMap(w.n))
	fmt.Fprintln(&out, "i", w.i.Count(), w.i.Has(1), w.i.Has(200), w.i.Has(3))
	fmt.Fprintln(&out, "ss", w.ss.Count(), w.ss.Has(w.a), w.ss.Has(w.b), w.ss.Has(w.kept[0]))
	fmt.Fprintln(&out, "lazy", w.showLazy(w.la), w.showLazy(w.lb))
	fmt.Fprintln(&out, "rel", w.r.Count(), w.q.Count(), rel.Join(w.r, w.q).Count())
	return out.String()
}

// pOp starts an operation; the function it returns shows the result.
type pOp struct {
	name string
	do   func(w *pWorld) func(w *pWorld) string
	// early operations compare sets, which a parallel evaluation can decide
	// before all calls have returned
	early bool
}

func pSet(s frozen.Set[pE]) func(*pWorld) string {
	return func(w *pWorld) string { return w.show(s) }
}

func pMap(m frozen.Map[pE, pE]) func(*pWorld) string {
	return func(w *pWorld) string { return w.showMap(m) }
}

func pLazy(s lazy.Set) func(*pWorld) string {
	return func(w *pWorld) string { return w.showLazy(s) }
}

func pVal(x ...any) func(*pWorld) string {
	return func(*pWorld) string { return fmt.Sprint(x...) }
}

func pLess(a, b pE) bool { called("less"); return a.ID < b.ID }

func pKeep(mod int) func(e pE) bool {
	return func(e pE) bool { called("predicate"); return e.ID%mod != 0 }
}

func ids(es []pE) string {
	out := ""
	for _, e := range es {
		out += fmt.Sprint(e.ID, " ")
	}
	return out
}

func pResolve(k, x, y pE) pE {
	called("resolver")
	return pE{ID: x.ID*10 + y.ID, H: k.H}
}

var pOps = []pOp{
	{name: "a.Has", do: func(w *pWorld) func(*pWorld) string { return pVal(w.a.Has(w.el[2]), w.a.Has(w.el[1])) }},
	{name: "a.With(new)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.With(w.el[1])) }},
	{name: "a.With(old)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.With(w.el[0])) }},
	{name: "a.Without(old)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.Without(w.el[2])) }},
	{name: "a.Without(new)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.Without(w.el[1])) }},
	{name: "a.Where", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.Where(pKeep(2))) }},
	{name: "a.Where(all)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.Where(pKeep(99))) }},
	{name: "SetMap", do: func(w *pWorld) func(*pWorld) string {
		return pSet(frozen.SetMap(w.a, func(e pE) pE { called("mapper"); return w.el[(e.ID+1)%len(w.el)] }))
	}},
	{name: "SetMap(constant)", do: func(w *pWorld) func(*pWorld) string {
		return pSet(frozen.SetMap(w.a, func(e pE) pE { called("mapper"); return w.el[1] }))
	}},
	{name: "Reduce", do: func(w *pWorld) func(*pWorld) string {
		r, ok := w.a.Reduce(func(es ...pE) pE {
			called("reducer")
			t := 0
			for _, e := range es {
				t += e.ID
			}
			return pE{ID: t}
		})
		return pVal(r.ID, ok)
	}},
	{name: "Reduce2", do: func(w *pWorld) func(*pWorld) string {
		r, ok := w.a.Reduce2(func(x, y pE) pE { called("reducer"); return pE{ID: x.ID + y.ID} })
		return pVal(r.ID, ok)
	}},
	{name: "OrderedElements", do: func(w *pWorld) func(*pWorld) string { return pVal(ids(w.a.OrderedElements(pLess))) }},
	{name: "OrderedRange", do: func(w *pWorld) func(*pWorld) string { return pVal(ids(sortIt[pE](w.a.OrderedRange(pLess)))) }},
	{name: "OrderedFirstN", do: func(w *pWorld) func(*pWorld) string { return pVal(ids(w.a.OrderedFirstN(2, pLess))) }},
	{name: "FirstN", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.FirstN(2, pLess)) }},
	{name: "First", do: func(w *pWorld) func(*pWorld) string { return pVal(w.a.First(pLess).(pE).ID) }},
	{name: "a.Union(b)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.Union(w.b)) }},
	{name: "b.Union(a)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.b.Union(w.a)) }},
	{name: "a.Intersection(b)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.Intersection(w.b)) }},
	{name: "a.Difference(b)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.a.Difference(w.b)) }},
	{name: "b.SymmetricDifference(a)", do: func(w *pWorld) func(*pWorld) string { return pSet(w.b.SymmetricDifference(w.a)) }},
	{name: "Union(a, b, a)", do: func(w *pWorld) func(*pWorld) string { return pSet(frozen.Union(w.a, w.b, w.kept[0])) }},
	{name: "Intersection(a, b, a)", do: func(w *pWorld) func(*pWorld) string { return pSet(frozen.Intersection(w.a, w.kept[0], w.b)) }},
	{name: "a.Equal(b)", early: true, do: func(w *pWorld) func(*pWorld) string { return pVal(w.a.Equal(w.b)) }},
	{name: "a.Equal(a rebuilt)", do: func(w *pWorld) func(*pWorld) string { return pVal(w.a.Equal(w.kept[0].Without(w.el[1]))) }},
	{name: "a.Same(a rebuilt)", do: func(w *pWorld) func(*pWorld) string { return pVal(w.a.Same(w.kept[0].Without(w.el[1]))) }},
	{name: "a.IsSubsetOf(b)", early: true, do: func(w *pWorld) func(*pWorld) string { return pVal(w.a.IsSubsetOf(w.b)) }},
	{name: "a.IsSubsetOf(a and another)", do: func(w *pWorld) func(*pWorld) string { return pVal(w.a.IsSubsetOf(w.kept[0])) }},
	{name: "a.Hash", do: func(w *pWorld) func(*pWorld) string { return pVal(w.a.Hash(7)) }},
	{name: "NewSet", do: func(w *pWorld) func(*pWorld) string { return pSet(frozen.NewSet(w.el...)) }},
	{name: "SetBuilder", do: func(w *pWorld) func(*pWorld) string {
		var b frozen.SetBuilder[pE]
		for _, e := range w.el {
			b.Add(e)
		}
		b.Remove(w.el[2])
		b.Has(w.el[1])
		return pSet(b.Finish())
	}},
	{name: "Powerset", early: true, do: func(w *pWorld) func(*pWorld) string {
		p := frozen.Powerset(w.a.Where(func(e pE) bool { return e.ID < 4 }))
		return func(w *pWorld) string { return fmt.Sprint(p.Count(), p.Has(w.a)) }
	}},
	{name: "SetGroupBy", early: true, do: func(w *pWorld) func(*pWorld) string {
		g := frozen.SetGroupBy(w.a, func(e pE) pE { called("key function"); return w.el[e.ID%2] })
		return func(w *pWorld) string { return w.show(g.MustGet(w.el[0])) + w.show(g.MustGet(w.el[1])) }
	}},
	{name: "AsSetAny", do: func(w *pWorld) func(*pWorld) string {
		s := w.a.AsSetAny()
		return func(w *pWorld) string { return fmt.Sprint(s.Count(), s.Has(w.el[0]), s.Has(w.el[1])) }
	}},
	{name: "SetAs", do: func(w *pWorld) func(*pWorld) string { return pSet(frozen.SetAs[pE](w.a.AsSetAny())) }},
	{name: "a.String", do: func(w *pWorld) func(*pWorld) string { return pVal(len(w.a.String())) }},
	{name: "JSON of a", do: func(w *pWorld) func(*pWorld) string {
		b, err := w.a.MarshalJSON()
		return pVal(len(b), err)
	}},
	{name: "ss.Has", early: true, do: func(w *pWorld) func(*pWorld) string { return pVal(w.ss.Has(w.a), w.ss.Has(w.kept[1])) }},
	{name: "ss.With, Without", early: true, do: func(w *pWorld) func(*pWorld) string {
		s := w.ss.With(w.kept[1]).Without(w.a)
		return func(w *pWorld) string { return fmt.Sprint(s.Count(), s.Has(w.b), s.Has(w.a)) }
	}},
	{name: "m.Get", do: func(w *pWorld) func(*pWorld) string {
		v, has := w.m.Get(w.el[2])
		return pVal(v.ID, has)
	}},
	{name: "m.GetElseFunc", do: func(w *pWorld) func(*pWorld) string {
		return pVal(w.m.GetElseFunc(w.el[1], func() pE { called("default"); return w.el[0] }).ID)
	}},
	{name: "m.With(new)", do: func(w *pWorld) func(*pWorld) string { return pMap(w.m.With(w.el[1], w.el[0])) }},
	{name: "m.With(old)", do: func(w *pWorld) func(*pWorld) string { return pMap(w.m.With(w.el[2], w.el[0])) }},
	{name: "m.Without", do: func(w *pWorld) func(*pWorld) string { return pMap(w.m.Without(w.el[2])) }},
	{name: "m.Update(n)", do: func(w *pWorld) func(*pWorld) string { return pMap(w.m.Update(w.n)) }},
	{name: "m.Merge(n)", do: func(w *pWorld) func(*pWorld) string { return pMap(w.m.Merge(w.n, pResolve)) }},
	{name: "n.Merge(m)", do: func(w *pWorld) func(*pWorld) string { return pMap(w.n.Merge(w.m, pResolve)) }},
	{name: "m.Equal(n)", early: true, do: func(w *pWorld) func(*pWorld) string { return pVal(w.m.Equal(w.n)) }},
	{name: "m.Equal(m rebuilt)", do: func(w *pWorld) func(*pWorld) string {
		return pVal(w.m.Equal(w.m.With(w.el[1], w.el[1]).Without(w.el[1])))
	}},
	{name: "m.Hash", do: func(w *pWorld) func(*pWorld) string { return pVal(w.m.Hash(3)) }},
	{name: "m.Keys", do: func(w *pWorld) func(*pWorld) string { return pSet(w.m.Keys()) }},
	{name: "m.Values", do: func(w *pWorld) func(*pWorld) string { return pSet(w.m.Values()) }},
	{name: "m.Project", do: func(w *pWorld) func(*pWorld) string { return pMap(w.m.Project(w.el[0], w.el[2])) }},
	{name: "m.Where", do: func(w *pWorld) func(*pWorld) string {
		return pMap(w.m.Where(func(k, v pE) bool { called("predicate"); return k.ID%2 == 0 }))
	}},
	{name: "MapMap", do: func(w *pWorld) func(*pWorld) string {
		return pMap(frozen.MapMap(w.m, func(k, v pE) pE { called("mapper"); return k }))
	}},
	{name: "NewMapFromKeys", do: func(w *pWorld) func(*pWorld) string {
		return pMap(frozen.NewMapFromKeys(w.a, func(k pE) pE { called("key function"); return k }))
	}},
	{name: "NewMap", do: func(w *pWorld) func(*pWorld) string {
		return pMap(frozen.NewMap(frozen.KV(w.el[0], w.el[1]), frozen.KV(w.el[1], w.el[2]), frozen.KV(w.el[0], w.el[2])))
	}},
	{name: "MapBuilder", do: func(w *pWorld) func(*pWorld) string {
		var b frozen.MapBuilder[pE, pE]
		for _, e := range w.el {
			b.Put(e, e)
		}
		b.Remove(w.el[2])
		b.Get(w.el[1])
		return pMap(b.Finish())
	}},
	{name: "m.String", do: func(w *pWorld) func(*pWorld) string { return pVal(len(w.m.String())) }},
	{name: "JSON of m", do: func(w *pWorld) func(*pWorld) string {
		b, err := json.Marshal(w.m)
		return pVal(len(b), err != nil)
	}},
	{name: "IntSet.Where", do: func(w *pWorld) func(*pWorld) string {
		s := w.i.Where(func(x int) bool { called("predicate"); return x > 2 })
		return pVal(s.Count(), s.Has(64))
	}},
	{name: "IntSet.Map", do: func(w *pWorld) func(*pWorld) string {
		s := w.i.Map(func(x int) int { called("mapper"); return x / 2 })
		return pVal(s.Count(), s.Has(100))
	}},
	{name: "lazy Where: Range", do: func(w *pWorld) func(*pWorld) string {
		n := 0
		for r := w.lw.Range(); r.Next(); n++ {
		}
		return pVal(n)
	}},
	{name: "lazy Where: Count", do: func(w *pWorld) func(*pWorld) string { return pVal(w.lw.Count()) }},
	{name: "lazy Where: Has", do: func(w *pWorld) func(*pWorld) string { return pVal(w.lw.Has(w.el[0]), w.lw.Has(w.el[1])) }},
	{name: "lazy Where: IsEmpty, Freeze", do: func(w *pWorld) func(*pWorld) string {
		e := w.lw.IsEmpty()
		f := w.lw.Freeze()
		return func(w *pWorld) string { return fmt.Sprint(e) + w.showLazy(f) }
	}},
	{name: "lazy Where: EqualSet, Hash", early: true, do: func(w *pWorld) func(*pWorld) string {
		return pVal(w.lw.EqualSet(w.la), w.lw.Hash(3))
	}},
	{name: "lazy Union", do: func(w *pWorld) func(*pWorld) string {
		s := w.lw.Union(w.lb)
		s.Count()
		return pLazy(s)
	}},
	{name: "lazy Intersection", do: func(w *pWorld) func(*pWorld) string {
		s := w.la.Intersection(w.lw)
		s.Count()
		return pLazy(s)
	}},
	{name: "lazy Difference", do: func(w *pWorld) func(*pWorld) string {
		s := w.la.Difference(w.lw)
		s.IsEmpty()
		return pLazy(s.Freeze())
	}},
	{name: "lazy SymmetricDifference", do: func(w *pWorld) func(*pWorld) string {
		s := w.lb.SymmetricDifference(w.lw)
		s.Count()
		return pLazy(s)
	}},
	{name: "lazy With, Without", do: func(w *pWorld) func(*pWorld) string {
		return pLazy(w.lw.With(w.el[0]).Without(w.el[2]).Freeze())
	}},
	{name: "lazy Powerset", early: true, do: func(w *pWorld) func(*pWorld) string {
		n := 0
		for r := w.lw.Where(func(v any) bool { called("predicate"); return v.(pE).ID < 3 }).Powerset().Range(); r.Next(); n++ {
		}
		return pVal(n)
	}},
	{name: "rel.Join", early: true, do: func(w *pWorld) func(*pWorld) string { return pVal(rel.Join(w.r, w.q).Count()) }},
	{name: "rel.Project", early: true, do: func(w *pWorld) func(*pWorld) string { return pVal(rel.Project(w.r, "x").Count()) }},
	{name: "rel.Nest, Unnest", early: true, do: func(w *pWorld) func(*pWorld) string {
		n := rel.Nest(w.r, frozen.NewMap(frozen.KV("s", frozen.NewSet("y"))))
		return pVal(n.Count(), rel.Unnest(n, "s").Equal(w.r))
	}},
	{name: "rel.CartesianProduct", early: true, do: func(w *pWorld) func(*pWorld) string {
		return pVal(rel.CartesianProduct(rel.Project(w.r, "x"), rel.Project(w.q, "z")).Count())
	}},
	{name: "rel.New", early: true, do: func(w *pWorld) func(*pWorld) string {
		return pVal(rel.New([]string{"x", "y"}, []any{w.el[0], w.el[1]}, []any{w.el[2], w.el[1]}, []any{w.el[0], w.el[1]}).Count())
	}},
}

// pQuiet waits until no goroutine of an earlier operation, which has returned
// or panicked before all of them had ended, can call a callback.
func pQuiet() {
	for c27Sched == nil && runtime.NumGoroutine() > pGoroutines {
		runtime.Gosched()
	}
}

// pGoroutines run besides those of operations.
var pGoroutines int

// pRun runs the operation with the fault and recovers its panic.
func pRun(w *pWorld, o pOp, f *fault) (res func(*pWorld) string, p any) {
	pQuiet()
	theFault.Store(f)
	defer func() {
		theFault.Store(nil)
		p = recover()
	}()
	return o.do(w), nil
}

// judge says what is wrong after the operation ran with fault f.
func (w *pWorld) judge(o pOp, f *fault, res func(*pWorld) string, p any, want, operands string) string {
	switch {
	case p != nil && !f.thrown.Load():
		return fmt.Sprintf("panics by itself: %v", p)
	case p != nil && p != any(*f.err.Load()):
		return fmt.Sprintf("panics with %T %v, not with the value the callback panicked with", p, p)
	case p == nil && f.thrown.Load() && !o.early:
		return fmt.Sprintf("the panic of call %d (%s) does not reach the caller", f.at, *f.last.Load())
	case p == nil:
		if got := res(w); got != want {
			return fmt.Sprintf("result %s, want %s", got, want)
		}
	}
	if got := w.operands(); got != operands {
		return fmt.Sprintf("after the panic, values have changed:\n%swere\n%s", got, operands)
	}
	res, p = pRun(w, o, nil)
	if p != nil {
		return fmt.Sprintf("after the panic, the operation panics without a callback's panic: %v", p)
	}
	if got := res(w); got != want {
		return fmt.Sprintf("after the panic, the operation gives %s, want %s", got, want)
	}
	if got := w.operands(); got != operands {
		return fmt.Sprintf("after repeating the operation, values have changed:\n%swere\n%s", got, operands)
	}
	return ""
}

func c27Shapes(c *Ctx) []core.Shape {
	g := geom(c)
	shapes := []core.Shape{
		groupShape("spread", g, [2]int{1, 1}, [2]int{1, 1}, [2]int{1, 1}, [2]int{1, 1}),
		groupShape("2+1+2", g, [2]int{2, 1}, [2]int{1, 1}, [2]int{2, 2}),
		groupShape("3 colliding, 2 others", g, [2]int{3, g.Max}, [2]int{1, 1}, [2]int{1, 1}),
		groupShape("5 colliding", g, [2]int{5, g.Max}),
		groupShape("2 colliding, 2 deep", g, [2]int{2, g.Max}, [2]int{2, g.Max - 1}),
	}
	if c27Sched == nil || c.Thorough() {
		shapes = append(shapes, core.EnumShapes(5, lcps(g, false), g)...)
		shapes = append(shapes, wideShape(12, g), groupShape("9 colliding", g, [2]int{9, g.Max}))
	}
	return shapes
}

// c27Sched, if set, explores the schedules of the operation with each fault.
var c27Sched func(c *Ctx, u *Unit, s core.Shape, o pOp, want, operands string, calls int64)

func c27(c *Ctx) {
	for _, s := range c27Shapes(c) {
		for _, o := range pOps {
			c.Unit(fmt.Sprintf("C27/%s/%s", s.Name, o.name), func(u *Unit) {
				if n := runtime.NumGoroutine(); pGoroutines == 0 || n < pGoroutines {
					pGoroutines = n
				}
				w := newPWorld(s)
				operands := w.operands()
				f := &fault{at: -1}
				res, p := pRun(w, o, f)
				if p != nil {
					panic(p)
				}
				want := res(w)
				calls := f.n.Load()
				u.Cover("calls of callbacks made to panic", calls)
				if c27Sched != nil {
					c27Sched(c, u, s, o, want, operands, calls)
					return
				}
				k := int64(0)
				u.Case(func() string { return fmt.Sprintf("%s (%s): call %d of %d panics", o.name, s.Name, k, calls) })
				w = newPWorld(s)
				for k = 1; k <= calls; k++ {
					f := &fault{at: k}
					res, p := pRun(w, o, f)
					u.Trans++
					u.Evals++
					u.Tick()
					if d := w.judge(o, f, res, p, want, operands); d != "" {
						u.Failf("%s", d)
					}
					// lazy sets that are still unevaluated
					if k%2 == 0 {
						w = newPWorld(s)
					}
				}
				u.States++
				u.Sample("%s: each of %d calls panics", o.name, calls)
			})
		}
	}
}
