//go:build !sel || c01 || c02

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() {
	checks["C01"] = c01
	checks["C02"] = c02
}

// c01: closure of the reachable states under With, Without, NewSet (and Where,
// which produces states that the others do not).
func c01(c *Ctx) {
	g := geom(c)
	add := func(s core.Shape, o core.SpaceOpts) {
		c.Unit(fmt.Sprintf("C01/%s/%+v", s.Name, o), func(u *Unit) {
			sp := core.NewSetSpace(core.UnivE(s), u, o)
			for i := range sp.States {
				st := &sp.States[i]
				u.Case(func() string { return "Elements of " + sp.Expr(int32(i)) })
				checkElements(u, sp.U, st.Set.Elements(), st.Mask)
			}
			sp.ReplayAll()
			sampleSpace(u, sp)
		})
	}
	maxN, wide := 5, false
	if c.Thorough() {
		maxN, wide = 6, true
	}
	for n := 1; n <= maxN; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, wide || n <= 4), g) {
			add(s, core.SpaceOpts{NewSets: true, Where: n <= 5})
		}
	}
	if !c.Thorough() {
		for _, s := range core.EnumShapes(6, lcps(g, false), g) {
			add(s, core.SpaceOpts{NewSets: true})
		}
	}
	add(wideShape(10, g), core.SpaceOpts{})
	add(groupShape("3+3 twigs", g, [2]int{3, g.Max}, [2]int{3, g.Max}), core.SpaceOpts{NewSets: true})
	add(groupShape("4+4 twigs", g, [2]int{4, g.Max}, [2]int{4, g.Max}), core.SpaceOpts{})
	add(groupShape("7-element twig", g, [2]int{7, g.Max}), core.SpaceOpts{Max: 60000})
	add(groupShape("8 below level 3", g, [2]int{8, 3}), core.SpaceOpts{})
	add(groupShape("4 below 5, 3 below 21, 2", g, [2]int{4, 5}, [2]int{2, 21}, [2]int{2, 7}), core.SpaceOpts{})
	for _, s := range deepShapes(c, 2, 4) {
		add(s, core.SpaceOpts{})
	}
	add(edgeShape(), core.SpaceOpts{NewSets: true, Where: true})
	if c.Thorough() {
		add(wideShape(14, g), core.SpaceOpts{})
		add(groupShape("8-element twig", g, [2]int{8, g.Max}), core.SpaceOpts{Max: 400000})
	}
	for n := 2; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, false), g) {
			s := s
			c.Unit(fmt.Sprintf("C01/EQ/%s", s.Name), func(u *Unit) {
				sp := core.NewSetSpace(core.UnivEQ(s), u, core.SpaceOpts{NewSets: true, Where: true})
				sp.ReplayAll()
			})
		}
	}
}

func checkElements[T any](u *Unit, un core.Univ[T], els []T, mask uint32) {
	var seen uint32
	for _, e := range els {
		i := un.ID(e)
		u.Check(i >= 0 && i < len(un.El) && seen>>uint(i)&1 == 0, "Elements() = %v, want %s once each", els, core.MaskString(mask))
		seen |= 1 << uint(i)
	}
	u.Check(seen == mask, "Elements() = %v, want %s", els, core.MaskString(mask))
}

// c02: closure under the binary operations as well; SymmetricDifference and
// the n-ary functions on all pairs and triples.
func c02(c *Ctx) {
	g := geom(c)
	add := func(s core.Shape, o core.SpaceOpts) {
		c.Unit(fmt.Sprintf("C02/%s/%+v", s.Name, o), func(u *Unit) {
			sp := core.NewSetSpace(core.UnivE(s), u, o)
			c02Derived(u, sp)
			sp.ReplayAll()
			sampleSpace(u, sp)
		})
	}
	bin := core.SpaceOpts{Binary: true, NewSets: true}
	for n := 1; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, n <= 3 || c.Thorough()), g) {
			add(s, bin)
		}
	}
	max5, max6 := 160, 100
	if c.Thorough() {
		max5, max6 = 3000, 1200
	} else if c.Config == "parallel" {
		max5 = 64
	}
	for _, s := range core.EnumShapes(5, lcps(g, c.Thorough()), g) {
		add(s, core.SpaceOpts{Binary: true, NewSets: true, MaxBinary: max5})
	}
	if c.Config == "default" || c.Thorough() {
		for _, s := range core.EnumShapes(6, []int{0, 1, g.Max}, g) {
			add(s, core.SpaceOpts{Binary: true, MaxBinary: max6})
		}
	}
	add(edgeShape(), bin)
	add(groupShape("3+3 twigs", g, [2]int{3, g.Max}, [2]int{3, g.Max}), core.SpaceOpts{Binary: true, MaxBinary: 2 * max5})
	add(groupShape("6-element twig", g, [2]int{6, g.Max}), core.SpaceOpts{Binary: true, MaxBinary: 2 * max5})
	add(groupShape("3+2+2", g, [2]int{3, 4}, [2]int{2, 9}, [2]int{2, g.Max}), core.SpaceOpts{Binary: true, MaxBinary: 2 * max5})
	for _, s := range deepShapes(c, 2, 5) {
		s := s
		c.Unit("C02/deep/"+s.Name, func(u *Unit) {
			deepPairs(u, s, func(un core.Univ[E], _ []frozen.Set[E], r frozen.Set[E], m uint32) {
				if d := core.ObserveSet(un, r, m); d != "" {
					u.Failf("%s; expected contents %s", d, core.MaskString(m))
				}
			})
		})
	}
	sizeUnits(c, "C02", setSizes)
	narySizes(c, "C02", naryOps)
	wide := 8
	if c.Thorough() {
		wide = 10
	} else if c.Config == "parallel" {
		wide = 6
	}
	add(wideShape(wide, g), core.SpaceOpts{Binary: true})
	add(groupShape(fmt.Sprintf("%d below level 2", wide-1), g, [2]int{wide - 1, 2}), core.SpaceOpts{Binary: true})
}
