//go:build vsched && (!sel || c14)

package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/zzvsched"

	"verif/mc/core"
)

func init() { checks["C14"] = c14 }

// parOp is an operation that may be evaluated by several goroutines. do runs in
// the controlled thread; the function it returns judges the result later.
type parOp struct {
	name   string
	binary bool
	do     func(cs *parCase) func() string
}

type parCase struct {
	un   core.Univ[E]
	a, b frozen.Set[E]
	ma   uint32
	mb   uint32
	m, n frozen.Map[E, int]
	m2   frozen.Map[E, int]
	v    *verifier
}

func (cs *parCase) set(s frozen.Set[E], want uint32) func() string {
	return func() string {
		return cs.v.check(s, core.MaskString(want), func() string { return digestSet(cs.un, s) })
	}
}

func (cs *parCase) truth(got, want bool) func() string {
	return func() string {
		if got != want {
			return fmt.Sprintf("result %v, want %v", got, want)
		}
		return ""
	}
}

func (cs *parCase) mapping(m frozen.Map[E, int], want func(i int) (int, bool)) func() string {
	var w []string
	for i := range cs.un.El {
		if v, has := want(i); has {
			w = append(w, fmt.Sprint(v))
		} else {
			w = append(w, "-")
		}
	}
	return func() string {
		return cs.v.check(m, strings.Join(w, ","), func() string { return digestMap(cs.un, m) })
	}
}

func bit(m uint32, i int) bool { return m>>uint(i)&1 != 0 }

var parOps = []parOp{
	{"a.Union(b)", true, func(c *parCase) func() string { return c.set(c.a.Union(c.b), c.ma|c.mb) }},
	{"a.Intersection(b)", true, func(c *parCase) func() string { return c.set(c.a.Intersection(c.b), c.ma&c.mb) }},
	{"a.Difference(b)", true, func(c *parCase) func() string { return c.set(c.a.Difference(c.b), c.ma&^c.mb) }},
	{"a.SymmetricDifference(b)", true, func(c *parCase) func() string { return c.set(c.a.SymmetricDifference(c.b), c.ma^c.mb) }},
	{"a.Equal(b)", true, func(c *parCase) func() string { return c.truth(c.a.Equal(c.b), c.ma == c.mb) }},
	{"a.IsSubsetOf(b)", true, func(c *parCase) func() string { return c.truth(c.a.IsSubsetOf(c.b), c.ma&^c.mb == 0) }},
	{"m.Merge(n)", true, func(c *parCase) func() string {
		r := c.m.Merge(c.n, func(k E, x, y int) int { return 1000*x + y })
		return c.mapping(r, func(i int) (int, bool) {
			switch {
			case bit(c.ma, i) && bit(c.mb, i):
				return 1000*(i+1) + 100 + i, true
			case bit(c.ma, i):
				return i + 1, true
			default:
				return 100 + i, bit(c.mb, i)
			}
		})
	}},
	{"m.Update(n)", true, func(c *parCase) func() string {
		return c.mapping(c.m.Update(c.n), func(i int) (int, bool) {
			if bit(c.mb, i) {
				return 100 + i, true
			}
			return i + 1, bit(c.ma, i)
		})
	}},
	{"m.Equal(n)", true, func(c *parCase) func() string {
		return c.truth(c.m.Equal(c.n), c.ma == 0 && c.mb == 0)
	}},
	{"m.Equal(m of b)", true, func(c *parCase) func() string {
		return c.truth(c.m.Equal(c.m2), c.ma == c.mb)
	}},
	{"a.Where(in b)", true, func(c *parCase) func() string {
		return c.set(c.a.Where(func(e E) bool { return bit(c.mb, int(e.ID)) }), c.ma&c.mb)
	}},
	{"m.Where(in b)", true, func(c *parCase) func() string {
		r := c.m.Where(func(k E, v int) bool { return bit(c.mb, int(k.ID)) && v == int(k.ID)+1 })
		return c.mapping(r, func(i int) (int, bool) { return i + 1, bit(c.ma&c.mb, i) })
	}},
	{"a.Reduce(sum)", false, func(c *parCase) func() string {
		r, ok := c.a.Reduce(func(es ...E) E {
			var t E
			for _, e := range es {
				t.ID += e.ID
				t.H += e.H
			}
			return t
		})
		return func() string { return c.sum(r, ok) }
	}},
	{"a.Reduce2(sum)", false, func(c *parCase) func() string {
		r, ok := c.a.Reduce2(func(x, y E) E { return E{ID: x.ID + y.ID, H: x.H + y.H} })
		return func() string { return c.sum(r, ok) }
	}},
	{"SetMap(a, half)", false, func(c *parCase) func() string {
		var want uint32
		for i := range c.un.El {
			if bit(c.ma, i) {
				want |= 1 << uint(i/2)
			}
		}
		return c.set(frozen.SetMap(c.a, func(e E) E { return c.un.El[e.ID/2] }), want)
	}},
	{"MapMap(m)", false, func(c *parCase) func() string {
		r := frozen.MapMap(c.m, func(k E, v int) int { return 10*v + int(k.ID) })
		return c.mapping(r, func(i int) (int, bool) { return 10*(i+1) + i, bit(c.ma, i) })
	}},
	{"SetGroupBy(a, odd)", false, func(c *parCase) func() string {
		g := frozen.SetGroupBy(c.a, func(e E) int { return int(e.ID) & 1 })
		return func() string {
			n := 0
			for k := 0; k < 2; k++ {
				m := c.ma & (0x55555555 << uint(k))
				s, has := g.Get(k)
				if has != (m != 0) {
					return fmt.Sprintf("group %d: present=%v", k, has)
				}
				if m != 0 {
					n++
					if d := digestSet(c.un, s); d != core.MaskString(m) {
						return fmt.Sprintf("group %d is %s, want %s", k, d, core.MaskString(m))
					}
				}
			}
			if g.Count() != n {
				return fmt.Sprintf("%d groups, want %d", g.Count(), n)
			}
			return ""
		}
	}},
	{"Values, Keys of m", false, func(c *parCase) func() string {
		ks, vs := c.m.Keys(), c.m.Values()
		return func() string {
			if d := digestSet(c.un, ks); d != core.MaskString(c.ma) {
				return "keys " + d
			}
			for i := range c.un.El {
				if vs.Has(i+1) != bit(c.ma, i) {
					return fmt.Sprintf("Values().Has(%d) = %v", i+1, vs.Has(i+1))
				}
			}
			if vs.Count() != bitsOf(c.ma) {
				return fmt.Sprintf("%d values", vs.Count())
			}
			return ""
		}
	}},
}

func (cs *parCase) sum(r E, ok bool) string {
	var t E
	for i, e := range cs.un.El {
		if bit(cs.ma, i) {
			t.ID += e.ID
			t.H += e.H
		}
	}
	if ok != (cs.ma != 0) || ok && r != t {
		return fmt.Sprintf("result %+v, %v, want %+v", r, ok, t)
	}
	return ""
}

func newParCase(un core.Univ[E], ma, mb uint32, v *verifier) *parCase {
	cs := &parCase{un: un, ma: ma, mb: mb, v: v, a: subset(un, ma), b: subset(un, mb)}
	for i, e := range un.El {
		if bit(ma, i) {
			cs.m = cs.m.With(e, i+1)
		}
		if bit(mb, i) {
			cs.n = cs.n.With(e, 100+i)
			cs.m2 = cs.m2.With(e, i+1)
		}
	}
	return cs
}

func c14Case(u *Unit, sp zzvsched.Space, cs *parCase, o parOp) {
	var judge func() string
	explore(u, sp, func() string {
		return fmt.Sprintf("%s; a and the keys of m: %s, b and the keys of n: %s; %s; %s",
			o.name, core.MaskString(cs.ma), core.MaskString(cs.mb), cs.un.Describe(), sp)
	}, func() []func() {
		judge = nil
		return []func(){func() { judge = o.do(cs) }}
	}, false, func(*exec) string { return judge() })
}

// c14: all schedules of each operation on small operands whose evaluation is
// forced to fan out over one or two levels.
func c14(c *Ctx) {
	schedCtx()
	g := geom(c)
	race := zzvsched.RaceBuild
	deep := strings.Contains(c.Config, "two-levels")
	unit := func(name string, s core.Shape, sp zzvsched.Space, pairs func(n int, f func(a, b uint32))) {
		for _, o := range parOps {
			o := o
			c.Unit(fmt.Sprintf("C14/%s/%s/%s/%s", name, s.Name, o.name, sp), func(u *Unit) {
				un := core.UnivE(s)
				v := newVerifier()
				last := uint32(1 << 31)
				pairs(len(un.El), func(a, b uint32) {
					if !o.binary {
						if a == last {
							return
						}
						last, b = a, 0
					}
					c14Case(u, sp, newParCase(un, a, b, v), o)
				})
				u.Sample("%s on all listed pairs: %d schedules, %d steps", o.name, u.Traces, u.Trans)
			})
		}
	}
	all := func(n int, f func(a, b uint32)) {
		for a := uint32(0); a < 1<<uint(n); a++ {
			for b := uint32(0); b < 1<<uint(n); b++ {
				f(a, b)
			}
		}
	}
	// big operands: all or all but one or two elements, against each other and
	// against halves
	big := func(n int, f func(a, b uint32)) {
		f1 := uint32(1)<<uint(n) - 1
		ms := []uint32{f1, f1 &^ 1, f1 &^ (1 << uint(n-1)), f1 & 0x55555555, f1 & 0x33333333, f1 >> uint(n/2)}
		for _, a := range ms {
			for _, b := range ms {
				f(a, b)
			}
		}
	}
	one := func(n int, f func(a, b uint32)) {
		f1 := uint32(1)<<uint(n) - 1
		f(f1, f1)
		f(f1, f1&^1)
		f(f1&^2, f1&^1)
	}
	ls := []int{0, 1, g.Max}
	if strings.Contains(c.Config, "processors") {
		// what fits the machine rather than the trie shows in any schedule
		for n := 3; n <= 4; n++ {
			for _, s := range core.EnumShapes(n, ls, g) {
				if rooted(s, g) {
					unit("all pairs", s, delay(1), all)
				}
			}
		}
		unit("wide", wideShape(5, g), full, one)
		unit("wide", wideShape(8, g), delay(1), big)
		unit("two levels", groupShape("3+3", g, [2]int{3, 1}, [2]int{3, 1}), delay(1), big)
		if c.Thorough() {
			unit("wide", wideShape(8, g), delay(3), big)
			unit("two levels", groupShape("3+3", g, [2]int{3, 1}, [2]int{3, 1}), full, big)
		}
		return
	}
	if !deep {
		if !race {
			c14explorer(c)
		}
		for n := 3; n <= 4; n++ {
			for _, s := range core.EnumShapes(n, ls, g) {
				if rooted(s, g) {
					unit("all pairs", s, full, all)
				}
			}
		}
		for _, s := range core.EnumShapes(5, []int{0, g.Max}, g) {
			if rooted(s, g) {
				unit("big", s, full, big)
			}
		}
		unit("wide", wideShape(6, g), full, one)
		if race {
			unit("wide", wideShape(8, g), delay(1), big)
		} else {
			unit("wide", wideShape(8, g), delay(2), big)
		}
		if c.Thorough() {
			unit("wide", wideShape(7, g), full, one)
			unit("wide", wideShape(8, g), delay(4), big)
			for _, s := range core.EnumShapes(5, ls, g) {
				if rooted(s, g) {
					unit("all pairs", s, full, all)
				}
			}
			if !race {
				unit("wide", wideShape(8, g), full, one)
			}
		}
		return
	}
	// every slot of the root has a branch below it, so that all goroutines of
	// the first level wait for those of the second at the same time; first,
	// since these find in few schedules what no full exploration gets to
	crowd := func(k, l int) core.Shape {
		var gs [][2]int
		for i := 0; i < g.Slots; i++ {
			gs = append(gs, [2]int{k, l})
		}
		return groupShape(fmt.Sprintf("%d times %d", g.Slots, k), g, gs...)
	}
	few := func(n int, f func(a, b uint32)) {
		f1 := uint32(1)<<uint(n) - 1
		if n == 32 {
			f1 = ^uint32(0)
		}
		f(f1, f1)
		f(f1, f1&^0x10001)
		f(f1&^0x842, f1)
	}
	unit("crowd", crowd(32/g.Slots, 1), delay(0), few)
	unit("crowd", crowd(3, 1), delay(1), one)
	if c.Thorough() {
		unit("crowd", crowd(32/g.Slots, 1), delay(1), few)
		unit("crowd", crowd(3, 1), delay(2), one)
	}
	// two levels: branches below branches
	unit("two levels", groupShape("3+3", g, [2]int{3, 1}, [2]int{3, 1}), full, big)
	unit("two levels", groupShape("3+2+1", g, [2]int{3, 1}, [2]int{2, 1}, [2]int{1, 1}), full, big)
	unit("two levels", groupShape("3+3 deep", g, [2]int{3, 1}, [2]int{3, g.Max}), full, big)
	if race {
		unit("two levels", groupShape("3+3+3", g, [2]int{3, 1}, [2]int{3, 1}, [2]int{3, 1}), delay(1), big)
	} else {
		unit("two levels", groupShape("4+3", g, [2]int{4, 1}, [2]int{3, 1}), full, one)
		unit("two levels", groupShape("3+3+3", g, [2]int{3, 1}, [2]int{3, 1}, [2]int{3, 1}), delay(2), big)
	}
	unit("two levels", groupShape("4+4+4", g, [2]int{4, 1}, [2]int{4, 1}, [2]int{4, 1}), delay(1), big)
	if c.Thorough() {
		unit("two levels", groupShape("4+3", g, [2]int{4, 1}, [2]int{3, 1}), full, big)
		unit("two levels", groupShape("3+3 all", g, [2]int{3, 1}, [2]int{3, 1}), full, all)
		unit("two levels", groupShape("3+3+3", g, [2]int{3, 1}, [2]int{3, 1}, [2]int{3, 1}), full, one)
		unit("two levels", groupShape("4+4", g, [2]int{4, 1}, [2]int{4, 1}), full, one)
		unit("two levels", groupShape("3+3+3", g, [2]int{3, 1}, [2]int{3, 1}, [2]int{3, 1}), delay(4), big)
	}
}
