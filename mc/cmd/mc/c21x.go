//go:build !sel || c18 || c19 || c20 || c21

package main

import (
	"fmt"

	"github.com/arr-ai/frozen/lazy"
)

// xexpr is an expression over objects that other expressions share.
type xexpr struct {
	name  string
	model uint64
	mk    func(objs []lazy.Set) lazy.Set
	uses  int // one of the objects
}

// xworld has objects for expressions to share: eager sets, sets still to be
// evaluated, and evaluated ones.
type xworld struct {
	w     *lworld
	names []string
	model []uint64
	mk    []func() lazy.Set
}

func newXworld(w *lworld) *xworld {
	x := &xworld{w: w}
	add := func(e lexpr) {
		x.names = append(x.names, fmt.Sprintf("o%d", len(x.names)))
		x.model = append(x.model, e.model)
		x.mk = append(x.mk, e.mk)
	}
	f := w.frozenExpr
	add(f(3))
	add(f(6))
	add(w.where(f(7), 5))
	add(w.bin("Union", f(1), f(2)))
	add(w.evaluated(w.mapTo(f(7), []int{1, 2, 1})))
	add(f(4))
	return x
}

func (x *xworld) objects() []lazy.Set {
	out := make([]lazy.Set, len(x.mk))
	for i, mk := range x.mk {
		out[i] = mk()
	}
	return out
}

func (x *xworld) exprs() []xexpr {
	var out []xexpr
	for i := range x.mk {
		i := i
		o := xexpr{x.names[i], x.model[i], func(objs []lazy.Set) lazy.Set { return objs[i] }, i}
		out = append(out, o)
		for _, keep := range []uint64{1, 6} {
			keep := keep
			out = append(out, xexpr{
				fmt.Sprintf("%s.Where(in %s)", o.name, x.w.show(keep)), o.model & keep,
				func(objs []lazy.Set) lazy.Set {
					return objs[i].Where(func(v any) bool { return keep>>uint(x.w.id(v))&1 != 0 })
				}, i,
			})
		}
		out = append(out, xexpr{
			o.name + ".With(number 2)", o.model | 4,
			func(objs []lazy.Set) lazy.Set { return objs[i].With(x.w.vals[2]) }, i,
		}, xexpr{
			o.name + ".Without(number 1)", o.model &^ 2,
			func(objs []lazy.Set) lazy.Set { return objs[i].Without(x.w.vals[1]) }, i,
		})
		for j := range x.mk {
			for _, op := range lazyBinary {
				j, op := j, op
				b := xexpr{
					"(" + o.name + " " + op + " " + x.names[j] + ")", lazyBinModel(op, o.model, x.model[j]),
					func(objs []lazy.Set) lazy.Set { return lazyBin(op, objs[i], objs[j]) }, i,
				}
				out = append(out, b)
				if k := (i + j + len(op)) % len(x.mk); (i+2*j)%5 == 0 {
					out = append(out, xexpr{
						"(" + b.name + " Union " + x.names[k] + ")", b.model | x.model[k],
						func(objs []lazy.Set) lazy.Set { return b.mk(objs).Union(objs[k]) }, i,
					}, xexpr{
						"(" + x.names[k] + " Difference " + b.name + ")", x.model[k] &^ b.model,
						func(objs []lazy.Set) lazy.Set { return objs[k].Difference(b.mk(objs)) }, k,
					})
				}
			}
		}
	}
	return out
}

// lazyShared compares every two expressions that are built on the same objects,
// and queries the second after the first was iterated in part or completely.
func lazyShared(c *Ctx, prop string) {
	unis := lazyUniverses()
	for _, name := range lazyUniverseNames {
		base := unis[name]
		const parts = 8
		for part := 0; part < parts; part++ {
			part := part
			c.Unit(fmt.Sprintf("%s/shared/%s/%d", prop, name, part), func(u *Unit) {
				x := newXworld(newLworld(u, base))
				exprs := x.exprs()
				qs := lazyQueries(true)
				var s, t *xexpr
				what := ""
				u.Case(func() string {
					return fmt.Sprintf("objects %v of elements %v\ns = %s, t = %s on the same objects\n%s", x.names, x.model, s.name, t.name, what)
				})
				for i := part; i < len(exprs); i += parts {
					s = &exprs[i]
					u.States++
					for j := range exprs {
						t = &exprs[j]
						if !c.Thorough() && s.uses != t.uses && (i+j)%3 != 0 {
							continue
						}
						u.Tick()
						u.Trans++
						eq, sub := s.model == t.model, s.model&^t.model == 0
						switch prop {
						case "C21":
							what = "comparisons"
							objs := x.objects()
							a, b := s.mk(objs), t.mk(objs)
							u.Check(a.Equal(b) == eq, "s.Equal(t) = %v", !eq)
							u.Check(b.Equal(a) == eq, "t.Equal(s) = %v after s.Equal(t)", !eq)
							u.Check(a.Equal(a) && b.Equal(b), "s.Equal(s) or t.Equal(t) = false")
							objs = x.objects()
							a, b = s.mk(objs), t.mk(objs)
							u.Check(!eq || a.Hash(1) == b.Hash(1), "the hashes differ")
						case "C18":
							what = "comparisons"
							objs := x.objects()
							a, b := s.mk(objs), t.mk(objs)
							u.Check(a.EqualSet(b) == eq, "s.EqualSet(t) = %v", !eq)
							objs = x.objects()
							a, b = s.mk(objs), t.mk(objs)
							u.Check(a.IsSubsetOf(b) == sub, "s.IsSubsetOf(t) = %v", !sub)
							objs = x.objects()
							a, b = s.mk(objs), t.mk(objs)
							what = "s iterated up to its second element"
							for n, r := 0, a.Range(); n < 2 && r.Next(); n++ {
								r.Value()
							}
							e := lexpr{name: t.name, model: t.model}
							q := qs[(i+j)%len(qs)]
							what += ", then " + q.name + " of t"
							q.run(x.w, b, &e)
							e = lexpr{name: s.name, model: s.model}
							q = qs[(i+2*j+1)%len(qs)]
							what += ", then " + q.name + " of s"
							q.run(x.w, a, &e)
							for k, o := range objs {
								e := lexpr{name: x.names[k], model: x.model[k]}
								x.w.rangeAll(o, &e)
							}
						case "C19":
							what = "s iterated completely"
							objs := x.objects()
							a, b := s.mk(objs), t.mk(objs)
							es, et := lexpr{name: s.name, model: s.model}, lexpr{name: t.name, model: t.model}
							x.w.fastChecks(b, &et, false)
							x.w.rangeAll(a, &es)
							x.w.fastChecks(a, &es, true)
							x.w.fastChecks(b, &et, false)
							for k, o := range objs {
								e := lexpr{name: x.names[k], model: x.model[k]}
								x.w.fastChecks(o, &e, false)
							}
						}
					}
				}
				u.Sample("%d expressions on %d shared objects", len(exprs), len(x.mk))
			})
		}
	}
}
