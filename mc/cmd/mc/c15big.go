//go:build vsched && (!sel || c15)

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
	"github.com/arr-ai/frozen/pkg/rel"
	"github.com/arr-ai/frozen/zzvsched"

	"verif/mc/core"
)

// bigShared is what the goroutines of one execution share: values of a size
// at which an implementation may change its ways.
type bigShared struct {
	n      int
	a, b   frozen.Set[E]
	m, k   frozen.Map[E, int]
	si, sj frozen.Set[int]
	ss     frozen.Set[string]
	sm     frozen.Map[string, int]
	i, j   frozen.IntSet[int]
	sa     frozen.Set[any]
	l      lazy.Set
	r      rel.Relation
}

func bigEl(i int) E { return E{ID: int32(i), H: core.Mix(uint64(i))} }

func newBigShared(n int) *bigShared {
	w := &bigShared{n: n}
	var ab, bb frozen.SetBuilder[E]
	var mb, kb frozen.MapBuilder[E, int]
	var sib, sjb frozen.SetBuilder[int]
	var ssb frozen.SetBuilder[string]
	var smb frozen.MapBuilder[string, int]
	var sab frozen.SetBuilder[any]
	for i := 0; i < n; i++ {
		ab.Add(bigEl(i))
		bb.Add(bigEl(i + n/2))
		mb.Put(bigEl(i), i)
		kb.Put(bigEl(i+n/2), -i)
		sib.Add(i)
		sjb.Add(i + n/2)
		ssb.Add(fmt.Sprint(i))
		smb.Put(fmt.Sprint(i), i)
		sab.Add(bigEl(i))
	}
	w.a, w.b, w.m, w.k = ab.Finish(), bb.Finish(), mb.Finish(), kb.Finish()
	w.si, w.sj, w.ss, w.sm, w.sa = sib.Finish(), sjb.Finish(), ssb.Finish(), smb.Finish(), sab.Finish()
	is, js := make([]int, n), make([]int, n)
	for i := range is {
		is[i], js[i] = i*7, i*14
	}
	w.i, w.j = frozen.NewIntSet(is...), frozen.NewIntSet(js...)
	w.l = lazy.Frozen(w.sa)
	var rows [][]any
	for i := 0; i < n; i++ {
		rows = append(rows, []any{i, i / 3})
	}
	w.r = rel.New([]string{"p", "q"}, rows...)
	return w
}

func digSet(s frozen.Set[E]) string {
	sum, n := uint64(0), 0
	for r := s.Range(); r.Next(); {
		sum += core.Mix(uint64(r.Value().ID) + 1)
		n++
	}
	return fmt.Sprint(s.Count(), n, sum, " ")
}

func digMap(m frozen.Map[E, int]) string {
	sum, n := uint64(0), 0
	for r := m.Range(); r.Next(); {
		sum += core.Mix(uint64(r.Key().ID)<<32 ^ uint64(uint32(r.Value())))
		n++
	}
	return fmt.Sprint(m.Count(), n, sum, " ")
}

func digInt(s frozen.IntSet[int]) string {
	sum, n := 0, 0
	for r := s.Range(); r.Next(); {
		sum += r.Value()
		n++
	}
	return fmt.Sprint(s.Count(), n, sum, " ")
}

type bigOp struct {
	name string
	do   func(w *bigShared) string
}

var bigOps = []bigOp{
	{"a.Has", func(w *bigShared) string { return fmt.Sprint(w.a.Has(bigEl(1)), w.a.Has(bigEl(-1)), w.a.Count()) }},
	{"a.Range", func(w *bigShared) string { return digSet(w.a) }},
	{"a.Elements", func(w *bigShared) string { return fmt.Sprint(len(w.a.Elements())) }},
	{"a.OrderedElements", func(w *bigShared) string {
		return fmt.Sprint(w.a.OrderedElements(func(x, y E) bool { return x.ID > y.ID })[0].ID)
	}},
	{"a.First, FirstN, AnyN", func(w *bigShared) string {
		less := func(x, y E) bool { return x.ID < y.ID }
		return fmt.Sprint(w.a.First(less).(E).ID, digSet(w.a.FirstN(3, less)), w.a.AnyN(5).Count(), w.a.Has(w.a.Any()))
	}},
	{"a.String", func(w *bigShared) string { return fmt.Sprint(len(w.a.String())) }},
	{"a.MarshalJSON", func(w *bigShared) string { return fmt.Sprint(len(marshal(w.a))) }},
	{"a.Hash", func(w *bigShared) string { return fmt.Sprint(w.a.Hash(1), w.a.Hash(2)) }},
	{"a.Equal", func(w *bigShared) string {
		return fmt.Sprint(w.a.Equal(w.b), w.a.Equal(w.b.Union(w.a).Intersection(w.a)), w.a.Same(w.b))
	}},
	{"a.IsSubsetOf", func(w *bigShared) string { return fmt.Sprint(w.a.IsSubsetOf(w.b), w.a.IsSubsetOf(w.a.With(bigEl(-1)))) }},
	{"a.With", func(w *bigShared) string { return digSet(w.a.With(bigEl(-1))) }},
	{"a.With(member)", func(w *bigShared) string { return digSet(w.a.With(bigEl(0))) }},
	{"a.Without", func(w *bigShared) string { return digSet(w.a.Without(bigEl(2))) }},
	{"a.Where", func(w *bigShared) string { return digSet(w.a.Where(func(e E) bool { return e.ID%3 == 0 })) }},
	{"a.Where(all)", func(w *bigShared) string { return digSet(w.a.Where(func(e E) bool { return true })) }},
	{"SetMap(a)", func(w *bigShared) string {
		return digSet(frozen.SetMap(w.a, func(e E) E { return bigEl(int(e.ID) + 5) }))
	}},
	{"SetReduce, Reduce(a)", func(w *bigShared) string {
		r, ok := w.a.Reduce2(func(x, y E) E { return E{ID: x.ID + y.ID} })
		q, ok2 := w.a.Reduce(func(es ...E) E {
			var t E
			for _, e := range es {
				t.ID += e.ID
			}
			return t
		})
		return fmt.Sprint(r.ID, ok, q.ID, ok2)
	}},
	{"a.Union(b)", func(w *bigShared) string { return digSet(w.a.Union(w.b)) }},
	{"b.Intersection(a)", func(w *bigShared) string { return digSet(w.b.Intersection(w.a)) }},
	{"a.Difference(b)", func(w *bigShared) string { return digSet(w.a.Difference(w.b)) }},
	{"a.SymmetricDifference(b)", func(w *bigShared) string { return digSet(w.a.SymmetricDifference(w.b)) }},
	{"Union, Intersection(a, b, a)", func(w *bigShared) string {
		return digSet(frozen.Union(w.a, w.b, w.a)) + digSet(frozen.Intersection(w.a, w.b, w.a))
	}},
	{"SetGroupBy(a)", func(w *bigShared) string {
		g := frozen.SetGroupBy(w.a, func(e E) int { return int(e.ID) % 2 })
		return digSet(g.MustGet(0)) + digSet(g.MustGet(1))
	}},
	{"SetAs(sa), AsSetAny(a)", func(w *bigShared) string {
		return digSet(frozen.SetAs[E](w.sa)) + fmt.Sprint(w.a.AsSetAny().Equal(w.sa))
	}},
	{"NewSet", func(w *bigShared) string {
		els := make([]E, w.n)
		for i := range els {
			els[i] = bigEl(3 * i)
		}
		return digSet(frozen.NewSet(els...))
	}},
	{"SetBuilder", func(w *bigShared) string {
		var b frozen.SetBuilder[E]
		for i := 0; i < w.n; i++ {
			b.Add(bigEl(2 * i))
		}
		b.Remove(bigEl(0))
		return digSet(b.Finish())
	}},
	{"si.Union(sj), sj.Difference(si)", func(w *bigShared) string {
		return fmt.Sprint(w.si.Union(w.sj).Count(), w.sj.Difference(w.si).Count(), w.si.Hash(3) == w.si.With(0).Hash(3))
	}},
	{"ss.Where, ss.With", func(w *bigShared) string {
		return fmt.Sprint(w.ss.Where(func(s string) bool { return len(s) == 2 }).Count(), w.ss.With("x").Count(), w.ss.Has("7"))
	}},
	{"m.Get", func(w *bigShared) string {
		v, has := w.m.Get(bigEl(3))
		return fmt.Sprint(v, has, w.m.Has(bigEl(-1)), w.m.Count())
	}},
	{"m.Range", func(w *bigShared) string { return digMap(w.m) }},
	{"m.With", func(w *bigShared) string { return digMap(w.m.With(bigEl(-1), 4)) + digMap(w.m.With(bigEl(0), 9)) }},
	{"m.Without", func(w *bigShared) string { return digMap(w.m.Without(bigEl(1))) }},
	{"m.Update(k)", func(w *bigShared) string { return digMap(w.m.Update(w.k)) }},
	{"m.Merge(k)", func(w *bigShared) string {
		return digMap(w.m.Merge(w.k, func(_ E, x, y int) int { return 100*x + y }))
	}},
	{"m.Equal(k)", func(w *bigShared) string {
		return fmt.Sprint(w.m.Equal(w.k), w.m.Equal(w.m.With(bigEl(0), 0)), w.m.Same(w.k))
	}},
	{"m.Keys, Values", func(w *bigShared) string { return digSet(w.m.Keys()) + fmt.Sprint(w.m.Values().Count()) }},
	{"m.Project", func(w *bigShared) string {
		return digMap(w.m.Project(bigEl(0), bigEl(5))) + fmt.Sprint(w.m.Project(w.a.Elements()...).Count())
	}},
	{"m.Where, MapMap(m)", func(w *bigShared) string {
		return digMap(w.m.Where(func(_ E, v int) bool { return v%2 == 1 })) + digMap(frozen.MapMap(w.m, func(_ E, v int) int { return 5 * v }))
	}},
	{"m.String, Hash", func(w *bigShared) string { return fmt.Sprint(len(w.m.String()), w.m.Hash(1)) }},
	{"JSON of sm", func(w *bigShared) string { return fmt.Sprint(len(marshal(w.sm)), len(frozen.MapToGoMap(w.sm))) }},
	{"MapBuilder, NewMapFromKeys", func(w *bigShared) string {
		var b frozen.MapBuilder[E, int]
		for i := 0; i < w.n; i++ {
			b.Put(bigEl(i), i)
		}
		return digMap(b.Finish()) + digMap(frozen.NewMapFromKeys(w.a, func(e E) int { return int(e.ID) }))
	}},
	{"i.Has, Range", func(w *bigShared) string { return fmt.Sprint(w.i.Has(7), digInt(w.i), len(w.i.Elements())) }},
	{"i.With, Without", func(w *bigShared) string { return digInt(w.i.With(3)) + digInt(w.i.Without(7)) }},
	{"i.Union, Intersection(j)", func(w *bigShared) string { return digInt(w.i.Union(w.j)) + digInt(w.i.Intersection(w.j)) }},
	{"i.Equal, IsSubsetOf(j), Hash", func(w *bigShared) string {
		return fmt.Sprint(w.i.Equal(w.j), w.j.IsSubsetOf(w.i), w.i.Hash(1), len(w.i.String()))
	}},
	{"i.Where, Map", func(w *bigShared) string {
		return digInt(w.i.Where(func(x int) bool { return x%2 == 0 })) + digInt(w.i.Map(func(x int) int { return x / 2 }))
	}},
	{"l.Has, Count, With", func(w *bigShared) string {
		return fmt.Sprint(w.l.Has(bigEl(0)), w.l.Count(), w.l.IsEmpty(), w.l.With(bigEl(-1)).Count())
	}},
	{"l.Union, Where, Frozen", func(w *bigShared) string {
		u := w.l.Union(lazy.Frozen(w.b.AsSetAny())).Where(func(e any) bool { return e.(E).ID%2 == 0 })
		return fmt.Sprint(u.Count(), u.Has(bigEl(2)), w.l.Equal(w.l), w.l.IsSubsetOf(u))
	}},
	{"rel.Join, Project(r)", func(w *bigShared) string {
		return fmt.Sprint(rel.Project(w.r, "q").Count(), rel.Join(w.r, rel.Project(w.r, "q")).Count())
	}},
	{"rel.Nest, Unnest(r)", func(w *bigShared) string {
		n := rel.Nest(w.r, frozen.NewMap(frozen.KV("z", frozen.NewSet("p"))))
		return fmt.Sprint(n.Count(), rel.Unnest(n, "z").Count())
	}},
}

// c15Big: every pair of operations, in both orders, on the same large values.
// The detector orders accesses by synchronisation alone, so one schedule of an
// operation that does not synchronise stands for all.
func c15Big(c *Ctx, par bool) {
	sizes := []int{65, 200, 1001, 2500}
	if par {
		sizes = []int{200, 1001}
	}
	if c.Thorough() {
		sizes = []int{65, 129, 200, 257, 513, 1001, 2500, 4097, 10001}
	}
	sp := full
	if par {
		sp = delay(0)
	}
	for _, n := range sizes {
		n := n
		for i := range bigOps {
			i := i
			c.Unit(fmt.Sprintf("C15/large %d/%s/%s", n, bigOps[i].name, sp), func(u *Unit) {
				for j := range bigOps {
					c15BigCase(u, sp, n, i, j)
				}
				u.Sample("%d elements: %s before every operation: %d executions", n, bigOps[i].name, u.Traces)
			})
		}
	}
}

var bigAlone = map[[2]int]string{}

func c15BigCase(u *Unit, sp zzvsched.Space, n, i, j int) {
	for _, o := range []int{i, j} {
		if _, has := bigAlone[[2]int{n, o}]; !has {
			bigAlone[[2]int{n, o}] = bigOps[o].do(newBigShared(n))
		}
	}
	ops := []int{i, j}
	got := make([]string, 2)
	explore(u, sp, func() string {
		return fmt.Sprintf("goroutines on the same values of %d elements: %s; %s; %s", n, bigOps[i].name, bigOps[j].name, sp)
	}, func() []func() {
		w := newBigShared(n)
		return []func(){
			func() { got[0] = bigOps[i].do(w) },
			func() { got[1] = bigOps[j].do(w) },
		}
	}, false, func(*exec) string {
		for k, o := range ops {
			if got[k] != bigAlone[[2]int{n, o}] {
				return fmt.Sprintf("%s returned %s, alone it returns %s", bigOps[o].name, got[k], bigAlone[[2]int{n, o}])
			}
		}
		return ""
	})
}
