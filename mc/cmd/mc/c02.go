//go:build !sel || c01 || c02

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

// c02Derived checks SymmetricDifference on all pairs of (a selection of) the
// states and n-ary Union and Intersection on all lists of up to three.
func c02Derived(u *Unit, sp *core.SetSpace[E]) {
	sel := sp.Select(48)
	cur := ""
	u.Case(func() string { return cur })
	observe := func(what func() string, s frozen.Set[E], mask uint32) {
		u.Trans++
		u.Tick()
		if d := core.ObserveSet(sp.U, s, mask); d != "" {
			cur = what()
			u.Failf("%s\n%s; expected contents %s", sp.U.Describe(), d, core.MaskString(mask))
		}
	}
	for _, i := range sel {
		for _, j := range sel {
			a, b := &sp.States[i], &sp.States[j]
			observe(func() string {
				return fmt.Sprintf("(%s).SymmetricDifference(%s)", sp.Expr(i), sp.Expr(j))
			}, a.Set.SymmetricDifference(b.Set), a.Mask^b.Mask)
		}
	}
	small := sp.Select(1)
	if len(small) > 12 {
		small = small[:12]
	}
	list := func(l ...int32) ([]frozen.Set[E], uint32, uint32) {
		var sets []frozen.Set[E]
		or, and := uint32(0), ^uint32(0)
		for _, i := range l {
			sets = append(sets, sp.States[i].Set)
			or |= sp.States[i].Mask
			and &= sp.States[i].Mask
		}
		return sets, or, and
	}
	nary := func(l ...int32) {
		sets, or, and := list(l...)
		what := func(op string) func() string {
			return func() string {
				s := op + "("
				for _, i := range l {
					s += sp.Expr(i) + "; "
				}
				return s + ")"
			}
		}
		observe(what("frozen.Union"), frozen.Union(sets...), or)
		if len(l) > 0 {
			observe(what("frozen.Intersection"), frozen.Intersection(sets...), and)
		}
	}
	nary()
	for _, i := range small {
		nary(i)
		for _, j := range small {
			nary(i, j)
			for _, k := range small {
				nary(i, j, k)
			}
		}
	}
}
