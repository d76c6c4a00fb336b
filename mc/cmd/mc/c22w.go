//go:build !sel || c22 || c23

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"
)

// wtup is a tuple of the model with any number of attributes.
type wtup map[string]int

func (t wtup) key() string {
	var ss []string
	for a, v := range t {
		ss = append(ss, fmt.Sprintf("%s=%d", a, v))
	}
	sort.Strings(ss)
	return strings.Join(ss, " ")
}

type wrel map[string]wtup

func (r wrel) add(t wtup) { r[t.key()] = t }

func (r wrel) rel() rel.Relation {
	var b rel.RelationBuilder
	for _, t := range r {
		var tb frozen.MapBuilder[string, any]
		for a, v := range t {
			tb.Put(a, v)
		}
		b.Add(tb.Finish())
	}
	return b.Finish()
}

func wtuple(u *Unit, what string, t rel.Tuple) wtup {
	m := wtup{}
	for i := t.Range(); i.Next(); {
		if _, has := m[i.Key()]; has {
			u.Failf("%s: attribute %s occurs twice in a tuple", what, i.Key())
		}
		v, is := i.Value().(int)
		if !is {
			u.Failf("%s: attribute %s is %v", what, i.Key(), i.Value())
		}
		m[i.Key()] = v
	}
	if len(m) != t.Count() {
		u.Failf("%s: a tuple counts %d attributes and has %d", what, t.Count(), len(m))
	}
	return m
}

func wcheck(u *Unit, what string, got rel.Relation, want wrel) {
	u.Trans++
	n := 0
	seen := map[string]bool{}
	for i := got.Range(); i.Next(); n++ {
		k := wtuple(u, what, i.Value()).key()
		if _, has := want[k]; !has || seen[k] {
			u.Failf("%s: tuple %s does not belong there or occurs twice", what, k)
		}
		seen[k] = true
	}
	if n != len(want) || got.Count() != n {
		u.Failf("%s: %d tuples, Count() = %d, want %d", what, n, got.Count(), len(want))
	}
}

func wjoin(a, b wrel) wrel {
	out := wrel{}
	for _, s := range a {
	next:
		for _, t := range b {
			x := wtup{}
			for k, v := range s {
				x[k] = v
			}
			for k, v := range t {
				if w, has := x[k]; has && w != v {
					continue next
				}
				x[k] = v
			}
			out.add(x)
		}
	}
	return out
}

func wproject(a wrel, in func(string) bool) wrel {
	out := wrel{}
	for _, s := range a {
		x := wtup{}
		for k, v := range s {
			if in(k) {
				x[k] = v
			}
		}
		out.add(x)
	}
	return out
}

// wideRel has a tuple of zeros over the k attributes c0, c1... and the
// attributes own, and for every attribute at[i] one that differs there.
func wideRel(k int, own string, at []int, base bool) wrel {
	r := wrel{}
	mk := func(flip int) {
		t := wtup{}
		for i := 0; i < k; i++ {
			t[fmt.Sprintf("c%d", i)] = 0
		}
		for _, o := range own {
			t[string(o)] = flip + 100
		}
		if flip >= 0 {
			t[fmt.Sprintf("c%d", flip)] = 1
		}
		r.add(t)
	}
	if base {
		mk(-1)
	}
	for _, f := range at {
		mk(f)
	}
	return r
}

func wideWidths(c *Ctx) []int {
	ks := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 17, 33, 65}
	if c.Thorough() {
		ks = append(ks, 11, 12, 13, 14, 15, 31, 32, 63, 64, 66, 128, 129)
	}
	return ks
}

// c22Wide: relations with many attributes in common, tuples of which differ in
// any one of them, and joins and products of many relations.
func c22Wide(c *Ctx) {
	for _, k := range wideWidths(c) {
		k := k
		c.Unit(fmt.Sprintf("C22/wide/%d", k), func(u *Unit) {
			what := ""
			u.Case(func() string { return fmt.Sprintf("relations with %d common attributes: %s", k, what) })
			all := make([]int, k)
			for i := range all {
				all[i] = i
			}
			var kinds []wrel
			var names []string
			for _, own := range []string{"", "x", "xy", "z"} {
				kinds = append(kinds, wideRel(k, own, all, true), wideRel(k, own, nil, true), wideRel(k, own, all[k-1:], false))
				names = append(names, own+" all", own+" base", own+" last differs")
			}
			rels := make([]rel.Relation, len(kinds))
			for i, m := range kinds {
				rels[i] = m.rel()
			}
			for i := range kinds {
				for j := range kinds {
					if k > 20 && (i+j)%3 != 0 {
						continue
					}
					what = fmt.Sprintf("Join of (%s) and (%s)", names[i], names[j])
					wcheck(u, what, rel.Join(rels[i], rels[j]), wjoin(kinds[i], kinds[j]))
					u.Tick()
				}
			}
			// two single tuples that agree everywhere but at one place
			for f := 0; f < k; f++ {
				what = fmt.Sprintf("Join of single tuples that differ in c%d", f)
				a, b := wideRel(k, "x", nil, true), wideRel(k, "z", all[f:f+1], false)
				wcheck(u, what, rel.Join(a.rel(), b.rel()), wrel{})
				wcheck(u, what, rel.Join(b.rel(), a.rel()), wrel{})
				u.States += 2
			}
			// projections that keep or drop one attribute, or a half
			m := wideRel(k, "x", all, true)
			r := m.rel()
			for f := 0; f < k; f++ {
				one := fmt.Sprintf("c%d", f)
				what = "Project on all but " + one
				var rest, half []string
				for i := range all {
					if i != f {
						rest = append(rest, fmt.Sprintf("c%d", i))
					}
					if i <= f {
						half = append(half, fmt.Sprintf("c%d", i))
					}
				}
				wcheck(u, what, rel.Project(r, rest...), wproject(m, func(a string) bool { return a != one && a != "x" }))
				what = "Project on " + one
				wcheck(u, what, rel.Project(r, one, one, "none"), wproject(m, func(a string) bool { return a == one }))
				what = "Project on those up to " + one
				in := map[string]bool{}
				for _, h := range half {
					in[h] = true
				}
				wcheck(u, what, rel.Project(r, half...), wproject(m, func(a string) bool { return in[a] }))
			}
			u.Sample("%d common attributes: %d kinds of relations joined with each other", k, len(kinds))
		})
	}
	// chains, stars and products of n relations
	top := 7
	if c.Thorough() {
		top = 10
	}
	for n := 1; n <= top; n++ {
		n := n
		c.Unit(fmt.Sprintf("C22/many/%d", n), func(u *Unit) {
			what := ""
			u.Case(func() string { return fmt.Sprintf("%d relations: %s", n, what) })
			at := func(i int) string { return fmt.Sprintf("c%d", i) }
			shapes := []struct {
				name string
				mk   func(i int) wrel
			}{
				{"chain", func(i int) wrel {
					r := wrel{}
					r.add(wtup{at(i): 0, at(i + 1): 0})
					r.add(wtup{at(i): 0, at(i + 1): 1})
					r.add(wtup{at(i): 1, at(i + 1): i % 2})
					return r
				}},
				{"star", func(i int) wrel {
					r := wrel{}
					r.add(wtup{"hub": 0, at(i): 0})
					r.add(wtup{"hub": 0, at(i): 1})
					r.add(wtup{"hub": 1 + i/3, at(i): 2})
					return r
				}},
				{"product", func(i int) wrel {
					r := wrel{}
					r.add(wtup{at(i): 0})
					r.add(wtup{at(i): 1})
					return r
				}},
				{"same attributes", func(i int) wrel {
					r := wrel{}
					for v := 0; v < 12; v++ {
						if v%(i+2) != 1 {
							r.add(wtup{"p": v, "q": v / 2})
						}
					}
					return r
				}},
			}
			for _, sh := range shapes {
				var ms []wrel
				for i := 0; i < n; i++ {
					ms = append(ms, sh.mk(i))
				}
				// all rotations, both directions, and with one operand empty
				for rot := 0; rot < n; rot++ {
					for _, rev := range []bool{false, true} {
						for empty := -1; empty < n; empty++ {
							want := wrel{"": wtup{}}
							var rs []rel.Relation
							for i := range ms {
								j := (i + rot) % n
								if rev {
									j = (rot - i + n) % n
								}
								m := ms[j]
								if i == empty {
									m = wrel{}
								}
								rs = append(rs, m.rel())
								want = wjoin(want, m)
							}
							what = fmt.Sprintf("%s, rotated by %d, reversed %v, operand %d empty", sh.name, rot, rev, empty)
							wcheck(u, what+": Join", rel.Join(rs...), want)
							if sh.name == "product" {
								wcheck(u, what+": CartesianProduct", rel.CartesianProduct(rs...), want)
							}
							u.States++
							u.Tick()
						}
					}
				}
			}
		})
	}
}

// c23Wide nests any number of many attributes.
func c23Wide(c *Ctx) {
	for _, k := range wideWidths(c) {
		k := k
		c.Unit(fmt.Sprintf("C23/wide/%d", k), func(u *Unit) {
			what := ""
			u.Case(func() string { return fmt.Sprintf("a relation with %d attributes: %s", k, what) })
			all := make([]int, k)
			for i := range all {
				all[i] = i
			}
			m := wideRel(k, "", all, true)
			m.add(func() wtup {
				t := wtup{}
				for i := range all {
					t[fmt.Sprintf("c%d", i)] = 1
				}
				return t
			}())
			r := m.rel()
			for n := 1; n <= k; n++ {
				if k > 20 && n%7 != 1 && n != k {
					continue
				}
				for from := 0; from < k; from += max(1, k/4) {
					in := map[string]bool{}
					var names []string
					for i := 0; i < n; i++ {
						a := fmt.Sprintf("c%d", (from+i)%k)
						in[a] = true
						names = append(names, a)
					}
					what = fmt.Sprintf("Nest of %d attributes from c%d on", n, from)
					groups := map[string]wrel{}
					for _, t := range m {
						rest, sub := wtup{}, wtup{}
						for a, v := range t {
							if in[a] {
								sub[a] = v
							} else {
								rest[a] = v
							}
						}
						g := groups[rest.key()]
						if g == nil {
							g = wrel{}
							groups[rest.key()] = g
						}
						g.add(sub)
					}
					nested := rel.Nest(r, frozen.NewMap(frozen.KV("nested", frozen.NewSet(names...))))
					u.Trans++
					seen := map[string]bool{}
					for i := nested.Range(); i.Next(); {
						sub, is := i.Value().MustGet("nested").(rel.Relation)
						rest := wtuple(u, what, i.Value().Without("nested")).key()
						g, has := groups[rest]
						if !is || !has || seen[rest] {
							u.Failf("%s: the tuple %s does not belong there or occurs twice", what, rest)
						}
						seen[rest] = true
						wcheck(u, what+": sub-relation of "+rest, sub, g)
					}
					if len(seen) != len(groups) || nested.Count() != len(groups) {
						u.Failf("%s: %d tuples, want %d", what, nested.Count(), len(groups))
					}
					wcheck(u, what+": Unnest", rel.Unnest(nested, "nested"), m)
					u.States++
					u.Tick()
				}
			}
			u.Sample("%d attributes: %d ways to nest", k, u.States)
		})
	}
}
