//go:build vsched && (!sel || c15)

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"
	"github.com/arr-ai/frozen/zzvsched"

	"verif/mc/core"
)

func init() { checks["C15"] = c15 }

// yE is an element whose String method lets other goroutines run, so that
// operations that print overlap.
type yE struct {
	ID int
	H  uint64
}

func (e yE) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }
func (e yE) String() string {
	zzvsched.Yield()
	return fmt.Sprintf("y%d", e.ID)
}

// shared is what the goroutines of one execution share.
type shared struct {
	el   []yE
	a, b frozen.Set[yE]
	m, n frozen.Map[yE, int]
	sm   frozen.Map[string, int]
	i, j frozen.IntSet[int]
	ss   frozen.Set[frozen.Set[yE]]
	ms   frozen.Map[frozen.Set[yE], frozen.Map[yE, int]]
	r, q rel.Relation
	sa   frozen.Set[any]
}

func newShared(s core.Shape) *shared {
	w := &shared{}
	for i, h := range s.H {
		w.el = append(w.el, yE{i, h})
	}
	n := len(w.el)
	// the last two elements are not in a, so that goroutines can add them
	for i, e := range w.el[:n-2] {
		w.a = w.a.With(e)
		w.m = w.m.With(e, i)
		w.sa = w.sa.With(e)
	}
	w.b = frozen.NewSet(w.el[1:]...).Without(w.el[n-3])
	for _, e := range w.el[1:] {
		w.n = w.n.With(e, 10)
	}
	w.sm = frozen.NewMap(frozen.KV("x", 1), frozen.KV("y", 2), frozen.KV("z", 3))
	w.i = frozen.NewIntSet(1, 2, 70, 200)
	w.j = frozen.NewIntSet(2, 70, 71, -3)
	w.ss = frozen.NewSet(w.a, w.b, frozen.NewSet[yE]())
	w.ms = frozen.NewMap(frozen.KV(w.a, w.m), frozen.KV(w.b, w.n))
	w.r = rel.New([]string{"p", "q"}, []any{1, 2}, []any{1, 3}, []any{2, 2})
	w.q = rel.New([]string{"q", "s"}, []any{2, 5}, []any{3, 6})
	return w
}

func (w *shared) show(s frozen.Set[yE]) string {
	var out strings.Builder
	fmt.Fprint(&out, s.Count(), ":")
	for _, e := range w.el {
		if s.Has(e) {
			fmt.Fprint(&out, " ", e.ID)
		}
	}
	n := 0
	for r := s.Range(); r.Next(); {
		n++
	}
	fmt.Fprint(&out, " /", n)
	return out.String()
}

func (w *shared) showMap(m frozen.Map[yE, int]) string {
	var out strings.Builder
	fmt.Fprint(&out, m.Count(), ":")
	for _, e := range w.el {
		if v, has := m.Get(e); has {
			fmt.Fprint(&out, " ", e.ID, "=", v)
		}
	}
	return out.String()
}

func lessY(a, b yE) bool { return a.ID > b.ID }

type shareOp struct {
	name string
	do   func(w *shared) string
}

func marshal(v any) string {
	b, err := json.Marshal(v)
	return fmt.Sprint(sorted(string(b)), err)
}

// sorted makes a text that depends on the order of elements comparable.
func sorted(s string) string {
	b := []byte(s)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return string(b)
}

var shareOps = []shareOp{
	{"a.Has", func(w *shared) string { return fmt.Sprint(w.a.Has(w.el[0]), w.a.Has(w.el[len(w.el)-1])) }},
	{"a.Count,IsEmpty,Any", func(w *shared) string { return fmt.Sprint(w.a.Count(), w.a.IsEmpty(), w.a.Has(w.a.Any())) }},
	{"a.Range", func(w *shared) string {
		n := 0
		for r := w.a.Range(); r.Next(); {
			n += 1 << r.Value().ID
		}
		return fmt.Sprint(n)
	}},
	{"a.Elements", func(w *shared) string { return fmt.Sprint(len(w.a.Elements())) }},
	{"a.OrderedElements", func(w *shared) string { return fmt.Sprint(w.a.OrderedElements(lessY)[0].ID) }},
	{"a.OrderedFirstN", func(w *shared) string { return fmt.Sprint(len(w.a.OrderedFirstN(2, lessY))) }},
	{"a.First,FirstN,AnyN", func(w *shared) string {
		return fmt.Sprint(w.a.First(lessY).(yE).ID, w.show(w.a.FirstN(2, lessY)), w.a.AnyN(2).Count())
	}},
	{"a.String", func(w *shared) string { return sorted(w.a.String()) }},
	{"Sprintf(%+v, b)", func(w *shared) string { return sorted(fmt.Sprintf("%+v", w.b)) }},
	{"a.MarshalJSON", func(w *shared) string { return marshal(w.a) }},
	{"a.Hash", func(w *shared) string { return fmt.Sprint(w.a.Hash(1), w.a.Hash(2)) }},
	{"a.Equal(b)", func(w *shared) string { return fmt.Sprint(w.a.Equal(w.b), w.a.Equal(w.a), w.b.Same(w.a)) }},
	{"a.IsSubsetOf(b)", func(w *shared) string { return fmt.Sprint(w.a.IsSubsetOf(w.b), w.b.IsSubsetOf(w.a)) }},
	{"a.With(last)", func(w *shared) string { return w.show(w.a.With(w.el[len(w.el)-1])) }},
	{"a.With(last but one)", func(w *shared) string { return w.show(w.a.With(w.el[len(w.el)-2]).With(w.el[len(w.el)-1])) }},
	{"a.With(first)", func(w *shared) string { return w.show(w.a.With(w.el[0])) }},
	{"a.Without(first)", func(w *shared) string { return w.show(w.a.Without(w.el[0])) }},
	{"a.Without(second).With(last)", func(w *shared) string { return w.show(w.a.Without(w.el[1]).With(w.el[len(w.el)-1])) }},
	{"a.Where", func(w *shared) string { return w.show(w.a.Where(func(e yE) bool { return e.ID != 1 })) }},
	{"a.Where(all)", func(w *shared) string { return w.show(w.a.Where(func(e yE) bool { return true })) }},
	{"SetMap(a)", func(w *shared) string {
		return w.show(frozen.SetMap(w.a, func(e yE) yE { return w.el[(e.ID+1)%len(w.el)] }))
	}},
	{"a.Reduce", func(w *shared) string {
		r, ok := w.a.Reduce(func(es ...yE) yE {
			var t yE
			for _, e := range es {
				t.ID += e.ID
			}
			return t
		})
		return fmt.Sprint(r.ID, ok)
	}},
	{"a.Reduce2", func(w *shared) string {
		r, ok := w.a.Reduce2(func(x, y yE) yE { return yE{ID: x.ID + y.ID} })
		return fmt.Sprint(r.ID, ok)
	}},
	{"a.Union(b)", func(w *shared) string { return w.show(w.a.Union(w.b)) }},
	{"b.Union(a)", func(w *shared) string { return w.show(w.b.Union(w.a)) }},
	{"a.Intersection(b)", func(w *shared) string { return w.show(w.a.Intersection(w.b)) }},
	{"a.Difference(b)", func(w *shared) string { return w.show(w.a.Difference(w.b)) }},
	{"b.SymmetricDifference(a)", func(w *shared) string { return w.show(w.b.SymmetricDifference(w.a)) }},
	{"Union, Intersection(a, b, a)", func(w *shared) string {
		return w.show(frozen.Union(w.a, w.b, w.a)) + w.show(frozen.Intersection(w.a, w.b, w.a))
	}},
	{"Powerset(a)", func(w *shared) string {
		p := frozen.Powerset(w.a)
		return fmt.Sprint(p.Count(), p.Has(w.a), p.Has(w.b))
	}},
	{"SetGroupBy(a)", func(w *shared) string {
		g := frozen.SetGroupBy(w.a, func(e yE) int { return e.ID & 1 })
		return w.show(g.MustGet(0)) + w.show(g.MustGet(1))
	}},
	{"AsSetAny, SetAs", func(w *shared) string {
		return fmt.Sprint(w.a.AsSetAny().Equal(w.sa), w.show(frozen.SetAs[yE](w.sa)))
	}},
	{"NewSet, builder", func(w *shared) string {
		var b frozen.SetBuilder[yE]
		for _, e := range w.el {
			b.Add(e)
		}
		b.Remove(w.el[0])
		s := b.Finish()
		return w.show(s) + w.show(frozen.NewSet(w.el...))
	}},
	{"m.Get", func(w *shared) string { return w.showMap(w.m) }},
	{"m.With(last)", func(w *shared) string { return w.showMap(w.m.With(w.el[len(w.el)-1], 7)) }},
	{"m.With(last but one)", func(w *shared) string { return w.showMap(w.m.With(w.el[len(w.el)-2], 8)) }},
	{"m.With(first)", func(w *shared) string { return w.showMap(w.m.With(w.el[0], 9)) }},
	{"m.Without(first)", func(w *shared) string { return w.showMap(w.m.Without(w.el[0])) }},
	{"m.Update(n)", func(w *shared) string { return w.showMap(w.m.Update(w.n)) }},
	{"n.Update(m)", func(w *shared) string { return w.showMap(w.n.Update(w.m)) }},
	{"m.Merge(n)", func(w *shared) string {
		return w.showMap(w.m.Merge(w.n, func(_ yE, x, y int) int { return 100*x + y }))
	}},
	{"m.Equal(n)", func(w *shared) string { return fmt.Sprint(w.m.Equal(w.n), w.m.Equal(w.m), w.n.Same(w.m)) }},
	{"m.Keys", func(w *shared) string { return w.show(w.m.Keys()) }},
	{"m.Values", func(w *shared) string { return fmt.Sprint(w.m.Values().Count(), w.m.Values().Has(1)) }},
	{"m.Project", func(w *shared) string { return w.showMap(w.m.Project(w.el[0], w.el[len(w.el)-1])) }},
	{"m.Where", func(w *shared) string { return w.showMap(w.m.Where(func(k yE, v int) bool { return v != 1 })) }},
	{"MapMap(m)", func(w *shared) string {
		return w.showMap(frozen.MapMap(w.m, func(k yE, v int) int { return 5 * v }))
	}},
	{"m.Range", func(w *shared) string {
		n := 0
		for r := w.m.Range(); r.Next(); {
			n += 1 << r.Value()
		}
		return fmt.Sprint(n)
	}},
	{"m.String", func(w *shared) string { return sorted(w.m.String()) }},
	{"JSON of m", func(w *shared) string { return marshal(w.m) }},
	{"JSON of sm", func(w *shared) string { return marshal(w.sm) }},
	{"m.Hash", func(w *shared) string { return fmt.Sprint(w.m.Hash(1)) }},
	{"MapToGoMap(m)", func(w *shared) string { return fmt.Sprint(len(frozen.MapToGoMap(w.m))) }},
	{"NewMap, builder", func(w *shared) string {
		var b frozen.MapBuilder[yE, int]
		for i, e := range w.el {
			b.Put(e, i)
		}
		b.Remove(w.el[1])
		return w.showMap(b.Finish()) + w.showMap(frozen.NewMapFromKeys(w.a, func(e yE) int { return e.ID }))
	}},
	{"i.Has,Count,Any", func(w *shared) string { return fmt.Sprint(w.i.Has(70), w.i.Count(), w.i.IsEmpty(), w.i.Has(w.i.Any())) }},
	{"i.Elements,Range", func(w *shared) string {
		n := 0
		for r := w.i.Range(); r.Next(); {
			n += r.Value()
		}
		return fmt.Sprint(n, len(w.i.Elements()))
	}},
	{"i.With", func(w *shared) string { s := w.i.With(3).With(300); return fmt.Sprint(s.Count(), s.Has(3), s.Has(300)) }},
	{"i.Without", func(w *shared) string { s := w.i.Without(1).Without(200); return fmt.Sprint(s.Count(), s.Has(1)) }},
	{"i.Union(j)", func(w *shared) string { s := w.i.Union(w.j); return fmt.Sprint(s.Count(), s.Has(-3), s.Has(200)) }},
	{"i.Intersection(j)", func(w *shared) string { s := w.i.Intersection(w.j); return fmt.Sprint(s.Count(), s.Has(70)) }},
	{"i.Equal,IsSubsetOf(j)", func(w *shared) string { return fmt.Sprint(w.i.Equal(w.j), w.i.IsSubsetOf(w.j), w.i.EqualSet(w.i)) }},
	{"i.Where,Map", func(w *shared) string {
		return fmt.Sprint(w.i.Where(func(x int) bool { return x > 1 }).Count(), w.i.Map(func(x int) int { return x / 2 }).Count())
	}},
	{"i.String,Hash", func(w *shared) string { return fmt.Sprint(len(w.i.String()), w.i.Hash(3)) }},
	{"ss.Has(a)", func(w *shared) string { return fmt.Sprint(w.ss.Has(w.a), w.ss.Has(w.b.With(w.el[0])), w.ss.Count()) }},
	{"ss.With,Without", func(w *shared) string {
		return fmt.Sprint(w.ss.Without(w.b).Count(), w.ss.With(w.a.Without(w.el[0])).Count())
	}},
	{"ms.Get(b)", func(w *shared) string {
		m, has := w.ms.Get(w.b)
		return fmt.Sprint(has, m.Count(), w.ms.Equal(w.ms))
	}},
	{"rel.Join(r, q)", func(w *shared) string {
		j := rel.Join(w.r, w.q)
		return fmt.Sprint(j.Count(), rel.Project(j, "p").Count())
	}},
	{"rel.Nest, Unnest", func(w *shared) string {
		n := rel.Nest(w.r, frozen.NewMap(frozen.KV("z", frozen.NewSet("q"))))
		return fmt.Sprint(n.Count(), rel.Unnest(n, "z").Equal(w.r))
	}},
	{"rel.CartesianProduct", func(w *shared) string { return fmt.Sprint(rel.CartesianProduct(w.r, rel.Project(w.q, "s")).Count()) }},
}

// c15: every pair of operations by two goroutines on the same values, under
// all schedules of the synchronisation operations inside them, in a build with
// the race detector (whose verdict depends only on how these order accesses).
func c15(c *Ctx) {
	schedCtx()
	g := geom(c)
	par := strings.HasPrefix(c.Config, "parallel")
	sp := full
	if par {
		sp = delay(1)
		if c.Thorough() {
			sp = delay(2)
		}
	}
	shapes := []core.Shape{
		groupShape("2 in one slot, 4 in others", g, [2]int{2, 1}, [2]int{1, 1}, [2]int{1, 1}, [2]int{1, 1}, [2]int{1, 1}),
	}
	if !par {
		shapes = append(shapes,
			groupShape("6 colliding", g, [2]int{6, g.Max}),
			groupShape("7 colliding", g, [2]int{7, g.Max}),
			groupShape("8 colliding", g, [2]int{8, g.Max}),
			groupShape("3 below level 2, 4 colliding", g, [2]int{3, 2}, [2]int{4, g.Max}),
			groupShape("4", g, [2]int{2, 1}, [2]int{2, 1}))
	} else {
		shapes = append(shapes, groupShape("4+3", g, [2]int{4, 1}, [2]int{3, g.Max}))
	}
	c15Big(c, par)
	alone := map[string][]string{}
	for _, s := range shapes {
		w := newShared(s)
		var exp []string
		for _, o := range shareOps {
			exp = append(exp, o.do(w))
		}
		alone[s.Name] = exp
	}
	for _, s := range shapes {
		for i := range shareOps {
			s, i := s, i
			c.Unit(fmt.Sprintf("C15/%s/%s/%s", s.Name, shareOps[i].name, sp), func(u *Unit) {
				exp := alone[s.Name]
				for j := i; j < len(shareOps); j++ {
					ops := []int{i, j}
					c15Case(u, sp, s, ops, exp)
				}
				u.Sample("%s with every other operation: %d executions", shareOps[i].name, u.Traces)
			})
		}
	}
	if c.Thorough() && !par {
		for _, s := range shapes {
			for i := range shareOps {
				s, i := s, i
				c.Unit(fmt.Sprintf("C15/three/%s/%s/%s", s.Name, shareOps[i].name, sp), func(u *Unit) {
					exp := alone[s.Name]
					for j := i; j < len(shareOps); j++ {
						for k := j; k < len(shareOps); k++ {
							c15Case(u, preempt(1), s, []int{i, j, k}, exp)
						}
					}
				})
			}
		}
	}
}

func c15Case(u *Unit, sp zzvsched.Space, s core.Shape, ops []int, exp []string) {
	got := make([]string, len(ops))
	explore(u, sp, func() string {
		t := "goroutines on the same values (" + s.Name + "):"
		for _, o := range ops {
			t += " " + shareOps[o].name + ";"
		}
		return t + " " + sp.String()
	}, func() []func() {
		w := newShared(s)
		var bodies []func()
		for k, o := range ops {
			bodies = append(bodies, func() { got[k] = shareOps[o].do(w) })
		}
		return bodies
	}, false, func(*exec) string {
		for k, o := range ops {
			if got[k] != exp[o] {
				return fmt.Sprintf("%s returned %s, alone it returns %s", shareOps[o].name, got[k], exp[o])
			}
		}
		return ""
	})
}
