//go:build !sel || c03

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() { checks["C03"] = c03 }

// setVers is a growing list of versions of sets with their models.
type setVers struct {
	u     *Unit
	un    core.Univ[E]
	base  func() string
	sets  []frozen.Set[E]
	masks []uint32
	exprs []func() string
}

func (v *setVers) push(s frozen.Set[E], mask uint32, expr func() string) {
	v.sets = append(v.sets, s)
	v.masks = append(v.masks, mask)
	v.exprs = append(v.exprs, expr)
}

func (v *setVers) pop() {
	n := len(v.sets) - 1
	v.sets, v.masks, v.exprs = v.sets[:n], v.masks[:n], v.exprs[:n]
}

func (v *setVers) history() string {
	var sb strings.Builder
	for i, e := range v.exprs {
		fmt.Fprintf(&sb, "v%d = %s\n", i, e())
	}
	return sb.String()
}

// observe re-reads every version.
func (v *setVers) observe(after func() string) {
	v.u.Tick()
	for i, s := range v.sets {
		v.u.Evals++
		if d := core.ObserveSet(v.un, s, v.masks[i]); d != "" {
			v.u.Failf("%s\n%safter %s: v%d no longer has its contents %s: %s", v.un.Describe(), v.history(), after(), i, core.MaskString(v.masks[i]), d)
		}
	}
}

// explore applies every operation to every version (and pair of versions), and
// recurses.
func (v *setVers) explore(depth int, ext []int32, sp *core.SetSpace[E]) {
	if depth == 0 {
		return
	}
	n := len(v.un.El)
	step := func(s frozen.Set[E], mask uint32, expr func() string) {
		v.u.Trans++
		v.push(s, mask, expr)
		v.observe(func() string { return "the last step" })
		v.explore(depth-1, nil, sp)
		v.pop()
	}
	nv := len(v.sets)
	for i := 0; i < nv; i++ {
		i := i
		s, m := v.sets[i], v.masks[i]
		for e := 0; e < n; e++ {
			e := e
			bit := uint32(1) << uint(e)
			step(s.With(v.un.El[e]), m|bit, func() string { return fmt.Sprintf("v%d.With(e%d)", i, e) })
			step(s.Without(v.un.El[e]), m&^bit, func() string { return fmt.Sprintf("v%d.Without(e%d)", i, e) })
			if m&bit != 0 {
				step(s.Where(func(x E) bool { return int(x.ID) != e }), m&^bit, func() string { return fmt.Sprintf("v%d.Where(not e%d)", i, e) })
			}
		}
		pair := func(a, b frozen.Set[E], am, bm uint32, name func(op string) string) {
			step(a.Union(b), am|bm, func() string { return name("Union") })
			step(a.Intersection(b), am&bm, func() string { return name("Intersection") })
			step(a.Difference(b), am&^bm, func() string { return name("Difference") })
			step(a.SymmetricDifference(b), am^bm, func() string { return name("SymmetricDifference") })
		}
		for j := 0; j < nv; j++ {
			j := j
			pair(s, v.sets[j], m, v.masks[j], func(op string) string { return fmt.Sprintf("v%d.%s(v%d)", i, op, j) })
		}
		for _, x := range ext {
			x := x
			st := &sp.States[x]
			pair(s, st.Set, m, st.Mask, func(op string) string { return fmt.Sprintf("v%d.%s(%s)", i, op, sp.Expr(x)) })
			pair(st.Set, s, st.Mask, m, func(op string) string { return fmt.Sprintf("(%s).%s(v%d)", sp.Expr(x), op, i) })
		}
	}
	if depth == 1 {
		// operations that only read
		v.u.Trans += int64(len(readers) * nv)
		for i := 0; i < nv; i++ {
			for _, o := range readers {
				o.f(v.sets[i])
			}
		}
		v.observe(func() string { return "read-only operations on all versions" })
	}
}

func lessE(a, b E) bool { return a.ID < b.ID }

// readers are operations that have no business changing anything, used in ways
// that scribble over everything they hand to the caller.
var readers = []struct {
	name string
	f    func(frozen.Set[E])
}{
	{"Elements, overwritten by the caller,", func(s frozen.Set[E]) {
		els := s.Elements()
		for i := range els {
			els[i] = E{ID: 99}
		}
		_ = append(els, E{ID: 98})
	}},
	{"OrderedElements, overwritten by the caller,", func(s frozen.Set[E]) {
		els := s.OrderedElements(lessE)
		for i := range els {
			els[i] = E{ID: 99}
		}
	}},
	{"OrderedFirstN, overwritten by the caller,", func(s frozen.Set[E]) {
		els := s.OrderedFirstN(2, func(a, b E) bool { return a.ID > b.ID })
		for i := range els {
			els[i] = E{ID: 99}
		}
	}},
	{"partial iteration", func(s frozen.Set[E]) {
		r := s.Range()
		r.Next()
		q := s.OrderedRange(lessE)
		q.Next()
	}},
	{"Hash, Equal, IsSubsetOf", func(s frozen.Set[E]) {
		s.Hash(7)
		s.Equal(s)
		s.IsSubsetOf(s)
		s.Same(s)
	}},
	{"String and MarshalJSON", func(s frozen.Set[E]) {
		_ = s.String()
		_ = fmt.Sprintf("%v", s)
		_, _ = s.MarshalJSON()
	}},
	{"FirstN, AnyN", func(s frozen.Set[E]) {
		s.FirstN(1, lessE)
		s.AnyN(1)
		s.AnyN(2)
	}},
	{"Reduce", func(s frozen.Set[E]) {
		s.Reduce(func(els ...E) E { return els[0] })
		s.Reduce2(func(a, b E) E { return b })
	}},
	{"SetMap, SetGroupBy, SetAs, AsSetAny", func(s frozen.Set[E]) {
		frozen.SetMap(s, func(e E) E { return E{ID: e.ID / 2, H: e.H} })
		g := frozen.SetGroupBy(s, func(e E) int { return int(e.ID) % 2 })
		for r := g.Range(); r.Next(); {
			r.Value().Without(E{ID: 1})
		}
		frozen.SetAs[any](s).With(3)
		s.AsSetAny().With(4)
	}},
	{"Powerset", func(s frozen.Set[E]) {
		if s.Count() <= 5 {
			frozen.Powerset(s)
		}
	}},
}

func c03(c *Ctx) {
	g := geom(c)
	maxStart := 64
	if c.Thorough() {
		maxStart = 100000
	} else if c.Config == "parallel" {
		maxStart = 20
	}
	add := func(s core.Shape, depth, extN int, o core.SpaceOpts) {
		c.Unit(fmt.Sprintf("C03/set/%s/depth%d", s.Name, depth), func(u *Unit) {
			sp := core.NewSetSpace(core.UnivE(s), u, o)
			ext := sp.Select(extN)
			if len(ext) > extN {
				ext = ext[:extN]
			}
			starts := sp.Select(maxStart)
			if len(starts) < len(sp.States) {
				u.Cover("states not used as the root of a version tree", int64(len(sp.States)-len(starts)))
			}
			for _, i := range starts {
				i := i
				// a fresh value, so that the versions' own history is in play
				v := &setVers{u: u, un: sp.U}
				v.push(sp.Rebuild(i), sp.States[i].Mask, func() string { return sp.Expr(i) })
				u.Case(func() string { return "versions of " + sp.Expr(i) + "\n" + v.history() })
				v.explore(depth, ext, sp)
				v.pop()
				u.Traces++
			}
			sp.ReplayAll() // every state of the closure still has its contents
			u.Sample("%d start states, every sequence of %d further operations on any version", len(starts), depth)
		})
	}
	o := core.SpaceOpts{NewSets: true}
	few := []int{0, g.Max - 1, g.Max}
	if c.Thorough() {
		few = lcps(g, false)
	}
	for n := 1; n <= 3; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, false), g) {
			add(s, 3, 0, o)
			add(s, 2, 12, o)
		}
	}
	for _, s := range core.EnumShapes(4, few, g) {
		add(s, 2, 3, o)
		if c.Thorough() {
			add(s, 3, 0, o)
		}
	}
	for _, s := range core.EnumShapes(5, few, g) {
		add(s, 2, 0, core.SpaceOpts{})
	}
	add(groupShape("6-element twig", g, [2]int{6, g.Max}), 1, 4, core.SpaceOpts{})
	add(groupShape("4+2 twigs", g, [2]int{4, g.Max}, [2]int{2, g.Max}), 2, 0, core.SpaceOpts{})
	add(groupShape("9 wide", g, [2]int{8, 0}, [2]int{1, 0}), 1, 16, core.SpaceOpts{})
	if c.Thorough() {
		add(groupShape("6-element twig", g, [2]int{6, g.Max}), 2, 0, core.SpaceOpts{})
	}

	// maps
	addM := func(s core.Shape, nv, depth int) {
		c.Unit(fmt.Sprintf("C03/map/%s/depth%d", s.Name, depth), func(u *Unit) {
			sp := core.NewMapSpace(core.UnivE(s), nv, u, core.MSpaceOpts{NewMaps: len(s.H) <= 3})
			for _, i := range sp.Select(maxStart) {
				i := i
				v := &mapVers{u: u, un: sp.U, nv: nv}
				v.push(sp.Rebuild(i), sp.States[i].C, func() string { return sp.Expr(i) })
				u.Case(func() string { return "versions of " + sp.Expr(i) + "\n" + v.history() })
				v.explore(depth)
				u.Traces++
			}
			sp.ReplayAll()
		})
	}
	for n := 1; n <= 3; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, false), g) {
			addM(s, 2, 2)
		}
	}
	for n := 4; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, false), g) {
			if c.Thorough() {
				addM(s, 2, 2)
			} else {
				addM(s, 1, 2)
			}
		}
	}
	addM(groupShape("6-element twig", g, [2]int{6, g.Max}), 1, 2)

	// the caller's slice given to NewSet, and builders that go on after Finish
	for n := 1; n <= 5; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, false), g) {
			s := s
			c.Unit("C03/slices/"+s.Name, func(u *Unit) { c03Slices(u, s) })
		}
	}
	c.Unit("C03/slices/twig8", func(u *Unit) { c03Builders(u, groupShape("8-element twig", g, [2]int{8, g.Max})) })

	c03Arguments(c)
	c.Unit("C03/intset", c03IntSet)
	c.Unit("C03/intset-twig", func(u *Unit) { c03IntSet2(u) })
}

func c03Slices(u *Unit, s core.Shape) {
	un := core.UnivE(s)
	n := len(un.El)
	core.Arrangements(n, n, func(a []int) {
		els := make([]E, len(a), len(a)+3)
		var mask uint32
		var c = core.EmptyContent()
		var kvs []frozen.KeyValue[E, int]
		for i, x := range a {
			els[i] = un.El[x]
			mask |= 1 << uint(x)
			c[x] = int8(x)
			kvs = append(kvs, frozen.KV(un.El[x], x))
		}
		u.Case(func() string { return fmt.Sprintf("NewSet/NewMap of %v, the slice then overwritten", a) })
		set := frozen.NewSet(els...)
		m := frozen.NewMap(kvs...)
		for i := range els {
			els[i] = E{ID: 77}
			kvs[i] = frozen.KV(E{ID: 77}, 77)
		}
		els = append(els, E{ID: 78})
		u.Trans += 2
		if d := core.ObserveSet(un, set, mask); d != "" {
			u.Failf("%s\nthe set changed: %s", un.Describe(), d)
		}
		if d := core.ObserveMap(un, m, c); d != "" {
			u.Failf("%s\nthe map changed: %s", un.Describe(), d)
		}
		_ = els
		gm := frozen.MapToGoMap(m)
		for k := range gm {
			gm[k] = 55
		}
		gm2 := map[E]int{}
		for _, x := range a {
			gm2[un.El[x]] = x
		}
		m2 := frozen.NewMapFromGoMap(gm2)
		for k := range gm2 {
			gm2[k] = 44
		}
		if d := core.ObserveMap(un, m, c); d != "" {
			u.Failf("%s\nthe map changed with the result of MapToGoMap: %s", un.Describe(), d)
		}
		if d := core.ObserveMap(un, m2, c); d != "" {
			u.Failf("%s\nthe map changed with the argument of NewMapFromGoMap: %s", un.Describe(), d)
		}
	})
	c03Builders(u, s)
	u.Sample("all arrangements of %d elements, the slice overwritten afterwards; builders reused after Finish", n)
}

// c03Builders: two rounds of building with the same builder; the result of the
// first must not change in the second, nor when operations are applied to it.
func c03Builders(u *Unit, s core.Shape) {
	un := core.UnivE(s)
	n := len(un.El)
	var rec func(ops []int, left int)
	run := func(ops []int) {
		var b frozen.SetBuilder[E]
		var mb frozen.MapBuilder[E, int]
		mask := uint32(0)
		c := core.EmptyContent()
		apply := func(op int) {
			e := op / 2
			if op%2 == 0 {
				b.Add(un.El[e])
				mb.Put(un.El[e], e)
				mask |= 1 << uint(e)
				c[e] = int8(e)
			} else {
				b.Remove(un.El[e])
				mb.Remove(un.El[e])
				mask &^= 1 << uint(e)
				c[e] = -1
			}
		}
		for e := 0; e < n; e++ { // start from a full builder, in both orders of use
			apply(2 * e)
		}
		for _, op := range ops {
			apply(op)
		}
		s1, m1 := b.Finish(), mb.Finish()
		mask1, c1 := mask, c
		mask, c = 0, core.EmptyContent()
		check := func(what string) {
			u.Trans++
			if d := core.ObserveSet(un, s1, mask1); d != "" {
				u.Failf("%s\n%s: the finished set changed: %s", un.Describe(), what, d)
			}
			if d := core.ObserveMap(un, m1, c1); d != "" {
				u.Failf("%s\n%s: the finished map changed: %s", un.Describe(), what, d)
			}
		}
		check("Finish")
		for e := n - 1; e >= 0; e-- {
			apply(2 * e)
			check("Add after Finish")
		}
		for e := 0; e < n; e++ {
			apply(2*e + 1)
			check("Remove after Finish")
		}
		// the finished values are operands of operations
		for e := 0; e < n; e++ {
			s1.With(un.El[e])
			s1.Without(un.El[e])
			m1.With(un.El[e], 9)
			m1.Without(un.El[e])
			check("With and Without on the finished value")
		}
	}
	rec = func(ops []int, left int) {
		u.Case(func() string {
			var ss []string
			for _, o := range ops {
				ss = append(ss, fmt.Sprintf("%s(e%d)", [2]string{"Add", "Remove"}[o%2], o/2))
			}
			return fmt.Sprintf("builder: Add all %d elements, then %s, Finish, reuse", n, strings.Join(ss, " "))
		})
		run(ops)
		if left == 0 {
			return
		}
		for op := 0; op < 2*n; op++ {
			rec(append(ops, op), left-1)
		}
	}
	rec(nil, 2)
}

// mapVers is setVers for maps.
type mapVers struct {
	u     *Unit
	un    core.Univ[E]
	nv    int
	maps  []frozen.Map[E, int]
	cs    []core.Content
	exprs []func() string
}

func (v *mapVers) push(m frozen.Map[E, int], c core.Content, expr func() string) {
	v.maps = append(v.maps, m)
	v.cs = append(v.cs, c)
	v.exprs = append(v.exprs, expr)
}

func (v *mapVers) history() string {
	var sb strings.Builder
	for i, e := range v.exprs {
		fmt.Fprintf(&sb, "v%d = %s\n", i, e())
	}
	return sb.String()
}

func (v *mapVers) observe(after string) {
	v.u.Tick()
	for i, m := range v.maps {
		v.u.Evals++
		if d := core.ObserveMap(v.un, m, v.cs[i]); d != "" {
			v.u.Failf("%s\n%safter %s: v%d no longer has its contents %v: %s", v.un.Describe(), v.history(), after, i, v.cs[i], d)
		}
	}
}

func (v *mapVers) explore(depth int) {
	if depth == 0 {
		for i := range v.maps {
			m := v.maps[i]
			_ = m.String()
			m.Hash(3)
			ks, vs := m.Keys(), m.Values()
			ks.With(E{ID: 50})
			vs.With(1)
			_, _ = m.MarshalJSON()
			r := m.Range()
			r.Next()
			m.Equal(m)
			v.observe(fmt.Sprintf("reading v%d", i))
		}
		return
	}
	step := func(m frozen.Map[E, int], c core.Content, expr func() string) {
		v.u.Trans++
		v.push(m, c, expr)
		v.observe("the last step")
		v.explore(depth - 1)
		n := len(v.maps) - 1
		v.maps, v.cs, v.exprs = v.maps[:n], v.cs[:n], v.exprs[:n]
	}
	nv := len(v.maps)
	for i := 0; i < nv; i++ {
		i := i
		m, c := v.maps[i], v.cs[i]
		for k := range v.un.El {
			k := k
			for x := 0; x <= v.nv; x++ { // nv: a value not used in the start states
				x := x
				step(m.With(v.un.El[k], x), c.With(k, int8(x)), func() string { return fmt.Sprintf("v%d.With(e%d, %d)", i, k, x) })
			}
			step(m.Without(v.un.El[k]), c.With(k, -1), func() string { return fmt.Sprintf("v%d.Without(e%d)", i, k) })
		}
		half := c
		for k := range v.un.El {
			if k%2 == 1 {
				half[k] = -1
			}
		}
		step(m.Where(func(k E, _ int) bool { return k.ID%2 == 0 }), half, func() string { return fmt.Sprintf("v%d.Where(even)", i) })
		for j := 0; j < nv; j++ {
			j := j
			step(m.Update(v.maps[j]), c.Update(v.cs[j]), func() string { return fmt.Sprintf("v%d.Update(v%d)", i, j) })
			step(m.Merge(v.maps[j], func(_ E, a, b int) int { return a*4 + b + 1 }),
				c.Merge(v.cs[j], func(_ int, a, b int8) int8 { return a*4 + b + 1 }),
				func() string { return fmt.Sprintf("v%d.Merge(v%d, a*4+b+1)", i, j) })
		}
	}
}

// c03IntSet: version trees over an IntSet with members in three cells.
func c03IntSet(u *Unit) {
	c03IntSetOver(u, []int{0, 1, 64, 200}, 3)
	u.Sample("IntSet over 0,1,64,200: all sequences of 3 operations on any version")
}

func c03IntSet2(u *Unit) { c03IntSetOver(u, []int{5, 70, 135, 300}, 3) }

func c03IntSetOver(u *Unit, vals []int, depth int) {
	type ver struct {
		s    frozen.IntSet[int]
		mask uint32
		expr string
	}
	var vers []ver
	observe := func() {
		u.Tick()
		for i, v := range vers {
			u.Evals++
			bad := v.s.Count() != bitsOf(v.mask) || v.s.IsEmpty() != (v.mask == 0)
			for j, x := range vals {
				bad = bad || v.s.Has(x) != (v.mask>>uint(j)&1 != 0)
			}
			els := v.s.Elements()
			sort.Ints(els)
			var want []int
			for j, x := range vals {
				if v.mask>>uint(j)&1 != 0 {
					want = append(want, x)
				}
			}
			if bad || fmt.Sprint(els) != fmt.Sprint(want) {
				u.Failf("version %d no longer has its contents %v: Elements() = %v, Count() = %d", i, want, els, v.s.Count())
			}
		}
	}
	u.Case(func() string {
		var ss []string
		for i, v := range vers {
			ss = append(ss, fmt.Sprintf("v%d = %s", i, v.expr))
		}
		return strings.Join(ss, "\n")
	})
	var rec func(d int)
	rec = func(d int) {
		if d == 0 {
			return
		}
		step := func(s frozen.IntSet[int], m uint32, expr string) {
			u.Trans++
			vers = append(vers, ver{s, m, expr})
			observe()
			rec(d - 1)
			vers = vers[:len(vers)-1]
		}
		for i := range vers {
			v := vers[i]
			for j, x := range vals {
				step(v.s.With(x), v.mask|1<<uint(j), fmt.Sprintf("v%d.With(%d)", i, x))
				step(v.s.Without(x), v.mask&^(1<<uint(j)), fmt.Sprintf("v%d.Without(%d)", i, x))
			}
			step(v.s.Where(func(x int) bool { return x%2 == 1 }), func() (m uint32) {
				for j, x := range vals {
					if x%2 == 1 {
						m |= v.mask & (1 << uint(j))
					}
				}
				return
			}(), fmt.Sprintf("v%d.Where(odd)", i))
			for j := range vers {
				w := vers[j]
				step(v.s.Union(w.s), v.mask|w.mask, fmt.Sprintf("v%d.Union(v%d)", i, j))
				step(v.s.Intersection(w.s), v.mask&w.mask, fmt.Sprintf("v%d.Intersection(v%d)", i, j))
			}
		}
	}
	for start := uint32(0); start < 1<<uint(len(vals)); start++ {
		var xs []int
		for j, x := range vals {
			if start>>uint(j)&1 != 0 {
				xs = append(xs, x)
			}
		}
		s := frozen.NewIntSet(xs...)
		for i := range xs {
			xs[i] = 12345
		}
		vers = []ver{{s, start, fmt.Sprintf("NewIntSet(values of mask %b)", start)}}
		u.States++
		observe()
		rec(depth)
		u.Traces++
	}
}
