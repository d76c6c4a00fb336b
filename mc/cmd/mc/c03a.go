//go:build !sel || c03

package main

import (
	"fmt"
	"reflect"
	"sort"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"

	"verif/mc/core"
)

// argSlice makes a slice of n values with spare capacity in use by the caller.
func argSlice[T any](n int, f func(i int) T, spare T) []T {
	s := make([]T, n+4)
	for i := range s {
		if i < n {
			s[i] = f(i)
		} else {
			s[i] = spare
		}
	}
	return s[:n]
}

// kept says whether a slice and the capacity beyond it are as argSlice made
// them.
func kept[T any](s []T, f func(i int) T, spare T, same func(a, b T) bool) (int, bool) {
	for i, x := range s[:cap(s)] {
		want := spare
		if i < len(s) {
			want = f(i)
		}
		if !same(x, want) {
			return i, false
		}
	}
	return 0, true
}

func scribble[T any](s []T, x T) {
	s = s[:cap(s)]
	for i := range s {
		s[i] = x
	}
}

// c03Arguments: every function that takes a list, for lists of every length:
// the list is left alone, the result does not depend on what happens to it.
func c03Arguments(c *Ctx) {
	var lens []int
	top := 48
	if c.Thorough() {
		top = 160
	}
	for n := 0; n <= top; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 200, 257, 1000)
	same := func(a, b any) bool { return reflect.DeepEqual(a, b) }
	for _, sh := range sizeHash {
		el := func(i int) E { return E{ID: int32(i), H: sh.h(i)} }
		// orders of a list, with repetitions
		orders := []struct {
			name string
			at   func(i, n int) int
		}{
			{"ascending", func(i, n int) int { return i }},
			{"descending", func(i, n int) int { return n - 1 - i }},
			{"shuffled, with repetitions", func(i, n int) int { return i * i % n }},
		}
		for _, o := range orders {
			c.Unit(fmt.Sprintf("C03/arguments/%s/%s", sh.name, o.name), func(u *Unit) {
				what, n := "", 0
				u.Case(func() string { return fmt.Sprintf("hashes %s: %s with a list of %d, %s", sh.name, what, n, o.name) })
				for _, n = range lens {
					u.Tick()
					at := func(i int) int { return o.at(i, n) }
					in := map[int]int{} // numbers with their last position
					for i := 0; i < n; i++ {
						in[at(i)] = i
					}
					has := func(i int) bool { _, is := in[i]; return is }

					what = "NewSet"
					ef := func(i int) E { return el(at(i)) }
					es := argSlice(n, ef, E{ID: 97})
					s := frozen.NewSet(es...)
					if i, ok := kept(es, ef, E{ID: 97}, func(a, b E) bool { return a == b }); !ok {
						u.Failf("element %d of the list is now %v", i, es[:cap(es)][i])
					}
					t := frozen.NewSet(es...)
					scribble(es, E{ID: 99})
					setIs(u, "NewSet, the list then overwritten", s, el, n, has)
					setIs(u, "NewSet, the list then overwritten", t, el, n, has)

					what = "Elements"
					e1, e2 := s.Elements(), s.Elements()
					scribble(e1, E{ID: 99})
					sort.Slice(e2, func(i, j int) bool { return e2[i].ID < e2[j].ID })
					for i := range e2 {
						if !has(int(e2[i].ID)) || i > 0 && e2[i] == e2[i-1] {
							u.Failf("two results of Elements share memory: %v", e2)
						}
					}
					o1, o2 := s.OrderedElements(lessE), s.OrderedFirstN(n, lessE)
					scribble(o1, E{ID: 98})
					scribble(o2, E{ID: 97})
					setIs(u, "a set whose Elements were overwritten", s, el, n, has)
					setIs(u, "a set with the same elements", t, el, n, has)

					what = "NewMap"
					kf := func(i int) frozen.KeyValue[E, int] { return frozen.KV(el(at(i)), i) }
					kvs := argSlice(n, kf, frozen.KV(E{ID: 97}, -1))
					m := frozen.NewMap(kvs...)
					if i, ok := kept(kvs, kf, frozen.KV(E{ID: 97}, -1), func(a, b frozen.KeyValue[E, int]) bool { return a == b }); !ok {
						u.Failf("element %d of the list is now %v", i, kvs[:cap(kvs)][i])
					}
					scribble(kvs, frozen.KV(E{ID: 99}, 99))
					val := func(i int) (int, bool) { v, is := in[i]; return v, is }
					mapIs(u, "NewMap, the list then overwritten", m, el, n, val)

					what = "MapToGoMap and NewMapFromGoMap"
					gm := frozen.MapToGoMap(m)
					m2 := frozen.NewMapFromGoMap(gm)
					u.Check(len(gm) == len(in), "a Go map of %d entries has %d now", len(in), len(gm))
					for k, v := range gm {
						u.Check(in[int(k.ID)] == v && has(int(k.ID)), "the Go map has %v: %d", k, v)
						gm[k] = -3
					}
					gm[E{ID: 99}] = 5
					mapIs(u, "a map made from a Go map, changed since", m2, el, n, val)
					mapIs(u, "a map whose Go map was changed", m, el, n, val)

					what = "Project"
					pf := func(i int) E { return el(at(i) &^ 1) }
					ps := argSlice(n, pf, E{ID: 96})
					pm := m.Project(ps...)
					if i, ok := kept(ps, pf, E{ID: 96}, func(a, b E) bool { return a == b }); !ok {
						u.Failf("element %d of the list is now %v", i, ps[:cap(ps)][i])
					}
					scribble(ps, E{ID: 99})
					mapIs(u, "Project, the list then overwritten", pm, el, n, func(i int) (int, bool) {
						// i is listed if it is even and it or its successor is a number of the list
						if i&1 != 0 || !has(i) && !has(i+1) {
							return 0, false
						}
						return val(i)
					})
					mapIs(u, "the map projected", m, el, n, val)

					what = "NewIntSet"
					xf := func(i int) int { return 37*at(i) - 100 }
					xs := argSlice(n, xf, 12345)
					is := frozen.NewIntSet(xs...)
					if i, ok := kept(xs, xf, 12345, func(a, b int) bool { return a == b }); !ok {
						u.Failf("element %d of the list is now %v", i, xs[:cap(xs)][i])
					}
					js := is
					ints := is.Elements()
					scribble(xs, 77777)
					scribble(ints, 88888)
					u.Trans++
					u.Check(is.Count() == len(in) && js.Equal(is) && !is.Has(77777) && !is.Has(88888), "NewIntSet, the list then overwritten: %d elements, want %d", is.Count(), len(in))
					for i := range in {
						u.Check(is.Has(37*i-100), "NewIntSet, the list then overwritten: %d is missing", 37*i-100)
					}

					what = "NewTuple"
					tf := func(i int) frozen.KeyValue[string, any] { return frozen.KV[string, any](fmt.Sprint("k", at(i)), i) }
					sp := frozen.KV[string, any]("spare", nil)
					kts := argSlice(n, tf, sp)
					tup := rel.NewTuple(kts...)
					if i, ok := kept(kts, tf, sp, func(a, b frozen.KeyValue[string, any]) bool { return same(a, b) }); !ok {
						u.Failf("element %d of the list is now %v", i, kts[:cap(kts)][i])
					}
					scribble(kts, sp)
					u.Check(tup.Count() == len(in) && !tup.Has("spare"), "NewTuple, the list then overwritten: %v", tup)
					for i, p := range in {
						v, has := tup.Get(fmt.Sprint("k", i))
						u.Check(has && v == p, "NewTuple, the list then overwritten: %v", tup)
					}

					if n > 300 {
						continue
					}
					what = "rel.Project"
					af := func(i int) string { return fmt.Sprint("k", at(i)) }
					as := argSlice(n, af, "spare")
					str := func(a, b string) bool { return a == b }
					pr := rel.Project(frozen.NewSet(tup), as...)
					if i, ok := kept(as, af, "spare", str); !ok {
						u.Failf("element %d of the list is now %v", i, as[:cap(as)][i])
					}
					scribble(as, "x")
					u.Check(pr.Equal(frozen.NewSet(tup)), "rel.Project to all %d attributes gave %v", len(in), pr)

					what = "rel.New"
					hf := func(i int) string { return fmt.Sprint("k", i) }
					hd := argSlice(min(n, 12), hf, "spare")
					cell := func(r int) func(i int) any { return func(i int) any { return 1000*at(r) + i } }
					row := func(r int) []any { return argSlice(len(hd), cell(r), any("spare")) }
					rows := argSlice(n, row, nil)
					rr := rel.New(hd, rows...)
					u.Check(len(rows) == n && rows[:cap(rows)][n] == nil, "the capacity beyond the rows was used")
					for r := range rows {
						if i, ok := kept(rows[r], cell(r), any("spare"), same); !ok {
							u.Failf("row %d, column %d is now %v", r, i, rows[r][:cap(rows[r])][i])
						}
					}
					if i, ok := kept(hd, hf, "spare", str); !ok {
						u.Failf("column %d of the header is now %v", i, hd[:cap(hd)][i])
					}
					for r := range rows {
						scribble(rows[r], any("spare"))
					}
					scribble(hd, "spare")
					scribble(rows, nil)
					want := len(in)
					if len(hd) == 0 {
						want = min(n, 1)
					}
					u.Check(rr.Count() == want, "rel.New, the rows then overwritten: %d rows, want %d", rr.Count(), want)
					for r := rr.Range(); r.Next(); {
						t := r.Value()
						for i := range hd {
							v, _ := t.Get(hf(i))
							x, is := v.(int)
							v0, _ := t.Get(hf(0))
							u.Check(is && t.Count() == len(hd) && x == v0.(int)+i && has((x-i)/1000), "rel.New, the rows then overwritten, has %v", t)
						}
					}
				}
				u.Sample("every function that takes or returns a list or Go map, for lists of %d lengths up to %d", len(lens), lens[len(lens)-1])
			})
		}
	}
	narySizes(c, "C03", func(u *Unit, how string, sets []frozen.Set[E], el func(int) E, total int, or, and func(i int) bool) {
		orig := append([]frozen.Set[E]{}, sets...)
		mark := frozen.NewSet(el(total + 5))
		check := func(what string) {
			for i, s := range sets[:cap(sets)] {
				u.Trans++
				switch {
				case i < len(sets):
					u.Check(s.Equal(orig[i]), "%s: operand %d of the list changed from %v to %v", what, i, orig[i], s)
				case i < cap(sets):
					u.Check(s.Equal(mark), "%s: the capacity beyond the list was used", what)
				}
			}
		}
		for i := len(sets); i < cap(sets); i++ {
			sets[:cap(sets)][i] = mark
		}
		x := frozen.Union(sets...)
		check("frozen.Union")
		y := frozen.Set[E]{}
		if len(sets) > 0 {
			y = frozen.Intersection(sets...)
			check("frozen.Intersection")
		}
		for i := range sets {
			sets[i] = mark
		}
		setIs(u, "frozen.Union, the list then overwritten", x, el, total, or)
		if len(sets) > 0 {
			setIs(u, "frozen.Intersection, the list then overwritten", y, el, total, and)
		}
	})
	c.Unit("C03/arguments/relations", c03Relations)
}

// c03Relations: lists of every length given to Join and CartesianProduct.
func c03Relations(u *Unit) {
	what, n := "", 0
	u.Case(func() string { return fmt.Sprintf("%s with a list of %d relations", what, n) })
	attr := func(i int) string { return fmt.Sprint("k", i) }
	families := []struct {
		name string
		rel  func(i int) rel.Relation
	}{
		{"{(k_i)}", func(i int) rel.Relation { return rel.New([]string{attr(i)}, []any{i}) }},
		{"{(k_i, k_i+1)}", func(i int) rel.Relation {
			return rel.New([]string{attr(i), attr(i + 1)}, []any{i, i + 1}, []any{-i - 1, -i - 2})
		}},
		{"two rows every fourth", func(i int) rel.Relation {
			if i%4 == 3 && i < 20 {
				return rel.New([]string{attr(i)}, []any{0}, []any{1})
			}
			return rel.New([]string{attr(i)}, []any{"x"})
		}},
	}
	mark := rel.New([]string{"spare"}, []any{1})
	for n = 1; n <= 24; n++ {
		for fi, fam := range families {
			u.Tick()
			eq := func(a, b rel.Relation) bool { return a.Equal(b) }
			for _, op := range []struct {
				name string
				f    func(...rel.Relation) rel.Relation
			}{{"rel.Join", rel.Join}, {"rel.CartesianProduct", rel.CartesianProduct}} {
				if fi == 1 && op.name != "rel.Join" {
					continue // attributes in common
				}
				what = op.name + " of " + fam.name
				rs := argSlice(n, fam.rel, mark)
				r := op.f(rs...)
				u.Trans++
				if i, ok := kept(rs, fam.rel, mark, eq); !ok {
					u.Failf("element %d of the list is now %v", i, rs[:cap(rs)][i])
				}
				scribble(rs, mark)
				want, cols := 1, n
				switch fi {
				case 1:
					want, cols = 2, n+1
				case 2:
					want = 1 << uint(min((n+0)/4, 5))
				}
				u.Check(r.Count() == want, "the result, the list then overwritten, has %d rows, want %d: %v", r.Count(), want, r)
				for q := r.Range(); q.Next(); {
					u.Check(q.Value().Count() == cols && !q.Value().Has("spare"), "the result, the list then overwritten, has %v", q.Value())
				}
			}
		}
	}
	u.Sample("Join and CartesianProduct of up to 24 relations")
}

var _ = core.Mix
