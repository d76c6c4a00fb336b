package main

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

// deepShape has n1 elements that part from all others at level d1 and n2
// elements that stay together down to level d2 and part there, so that the
// trie has a branch of up to n2 elements below one of up to n1+1 children.
func deepShape(g core.HashGeom, n1, d1, n2, d2 int) core.Shape {
	s := core.Shape{Name: fmt.Sprintf("%d at level %d, %d at level %d", n1, d1, n2, d2)}
	const base = 0x5a3c96e1d2b4780f
	digit := func(h uint64, d int, v int) uint64 {
		sh := 64 - (d+1)*g.Bits
		if sh < 0 { // the last level has fewer bits
			return h&^1 | uint64(v&1)
		}
		m := uint64(g.Slots-1) << uint(sh)
		return h&^m | uint64(v%g.Slots)<<uint(sh)
	}
	at := func(h uint64, d int) int {
		sh := 64 - (d+1)*g.Bits
		if sh < 0 {
			return int(h & 1)
		}
		return int(h >> uint(sh) & uint64(g.Slots-1))
	}
	for i := 0; i < n1; i++ {
		s.H = append(s.H, digit(base, d1, at(base, d1)+1+i))
	}
	for i := 0; i < n2; i++ {
		if d2 >= g.Max {
			s.H = append(s.H, base)
		} else {
			s.H = append(s.H, digit(base, d2, i))
		}
	}
	return s
}

// deepShapes lists deep shapes: the inner group at every level (in the quick
// tier only in the default configuration), the outer one just above and at the
// root (in the thorough tier both, and half way).
func deepShapes(c *Ctx, n1, n2 int) []core.Shape {
	g, all := geom(c), c.Thorough()
	step := 1
	if c.Config != "default" && !all {
		step = 3
	}
	var out []core.Shape
	for d2 := g.Max; d2 >= 1; d2 -= step {
		n := n2
		if d2 < g.Max && d2*g.Bits+g.Bits > 64 {
			n = 2
		}
		if n > g.Slots && d2 < g.Max {
			n = g.Slots
		}
		m := min(n1, g.Slots-1)
		last := -1
		for _, d1 := range []int{0, d2 / 2, d2 - 1} {
			if d1 == last || !all && d1 != (d2-1)*(d2&1) {
				continue
			}
			last = d1
			k := m
			if d1*g.Bits+g.Bits > 64 {
				k = 1
			}
			out = append(out, deepShape(g, k, d1, n, d2))
		}
	}
	return out
}

// deepOps are set operations on two operands, the second also serving as a
// predicate or a list.
var deepOps = []struct {
	name string
	mask func(a, b uint32) uint32
	do   func(un core.Univ[E], a, b frozen.Set[E], mb uint32) frozen.Set[E]
}{
	{"a.Union(b)", func(a, b uint32) uint32 { return a | b },
		func(_ core.Univ[E], a, b frozen.Set[E], _ uint32) frozen.Set[E] { return a.Union(b) }},
	{"a.Intersection(b)", func(a, b uint32) uint32 { return a & b },
		func(_ core.Univ[E], a, b frozen.Set[E], _ uint32) frozen.Set[E] { return a.Intersection(b) }},
	{"a.Difference(b)", func(a, b uint32) uint32 { return a &^ b },
		func(_ core.Univ[E], a, b frozen.Set[E], _ uint32) frozen.Set[E] { return a.Difference(b) }},
	{"a.SymmetricDifference(b)", func(a, b uint32) uint32 { return a ^ b },
		func(_ core.Univ[E], a, b frozen.Set[E], _ uint32) frozen.Set[E] { return a.SymmetricDifference(b) }},
	{"a.Where(in b)", func(a, b uint32) uint32 { return a & b },
		func(_ core.Univ[E], a, _ frozen.Set[E], mb uint32) frozen.Set[E] {
			return a.Where(func(e E) bool { return mb>>uint(e.ID)&1 != 0 })
		}},
	{"a without the elements of b, one by one", func(a, b uint32) uint32 { return a &^ b },
		func(un core.Univ[E], a, _ frozen.Set[E], mb uint32) frozen.Set[E] {
			for i, e := range un.El {
				if mb>>uint(i)&1 != 0 {
					a = a.Without(e)
				}
			}
			return a
		}},
	{"a with the elements of b, one by one", func(a, b uint32) uint32 { return a | b },
		func(un core.Univ[E], a, _ frozen.Set[E], mb uint32) frozen.Set[E] {
			for i := len(un.El) - 1; i >= 0; i-- {
				if mb>>uint(i)&1 != 0 {
					a = a.With(un.El[i])
				}
			}
			return a
		}},
	{"builder: elements of a added, those of b removed", func(a, b uint32) uint32 { return a &^ b },
		func(un core.Univ[E], a, _ frozen.Set[E], mb uint32) frozen.Set[E] {
			var sb frozen.SetBuilder[E]
			for r := a.Range(); r.Next(); {
				sb.Add(r.Value())
			}
			for i, e := range un.El {
				if mb>>uint(i)&1 != 0 {
					sb.Remove(e)
				}
			}
			return sb.Finish()
		}},
}

// deepPairs executes every operation on all pairs of contents of a shape and
// hands each structurally new result to see, together with the sets built from
// lists, by content.
func deepPairs(u *Unit, s core.Shape, see func(un core.Univ[E], canon []frozen.Set[E], r frozen.Set[E], mask uint32)) {
	un := core.UnivE(s)
	n := len(un.El)
	canon := make([]frozen.Set[E], 1<<uint(n))
	for m := range canon {
		canon[m] = frozen.NewSet(maskElems(un, uint32(m))...)
	}
	var a, b uint32
	op := 0
	u.Case(func() string {
		return fmt.Sprintf("%s\n%s, a = NewSet%s, b = NewSet%s", un.Describe(), deepOps[op].name, core.MaskString(a), core.MaskString(b))
	})
	seen := map[string]uint32{}
	var buf []byte
	for a = 0; int(a) < len(canon); a++ {
		u.Tick()
		for b = 0; int(b) < len(canon); b++ {
			for op = range deepOps {
				if op >= 5 && a&b != b && deepOps[op].mask(a, b) != a|b {
					continue // removing absent elements: covered elsewhere
				}
				o := &deepOps[op]
				r := o.do(un, canon[a], canon[b], b)
				m := o.mask(a, b)
				u.Trans++
				buf = core.Dump(buf[:0], r)
				if m2, has := seen[string(buf)]; has {
					if m2 != m {
						u.Failf("the result has %s, want %s", core.MaskString(m2), core.MaskString(m))
					}
					continue
				}
				see(un, canon, r, m)
				seen[string(buf)] = m
				u.States++
			}
		}
	}
}

// deepMaps is deepPairs for maps: m has value 1 for the keys in a, n has 2 for
// those in b. Each structurally new result is handed to see.
func deepMaps(u *Unit, s core.Shape, see func(un core.Univ[E], r frozen.Map[E, int], c core.Content)) {
	un := core.UnivE(s)
	n := len(un.El)
	build := func(m uint32, v int) (frozen.Map[E, int], core.Content) {
		c := core.EmptyContent()
		var r frozen.Map[E, int]
		for i, e := range un.El {
			if m>>uint(i)&1 != 0 {
				r = r.With(e, v)
				c[i] = int8(v)
			}
		}
		return r, c
	}
	ms, ns := make([]frozen.Map[E, int], 1<<uint(n)), make([]frozen.Map[E, int], 1<<uint(n))
	mc, nc := make([]core.Content, len(ms)), make([]core.Content, len(ms))
	for m := range ms {
		ms[m], mc[m] = build(uint32(m), 1)
		ns[m], nc[m] = build(uint32(m), 2)
	}
	var a, b uint32
	what := ""
	u.Case(func() string {
		return fmt.Sprintf("%s\n%s, m = %v, n = %v", un.Describe(), what, mc[a], nc[b])
	})
	seen := map[string]core.Content{}
	var buf []byte
	got := func(r frozen.Map[E, int], c core.Content) {
		u.Trans++
		buf = core.Dump(buf[:0], r)
		if c2, has := seen[string(buf)]; has {
			if c2 != c {
				u.Failf("the result has %v, want %v", c2, c)
			}
			return
		}
		see(un, r, c)
		seen[string(buf)] = c
		u.States++
	}
	for a = 0; int(a) < len(ms); a++ {
		u.Tick()
		for b = 0; int(b) < len(ms); b++ {
			what = "m.Update(n)"
			got(ms[a].Update(ns[b]), mc[a].Update(nc[b]))
			what = "m.Merge(n, (k, x, y) -> 10x+y+k)"
			got(ms[a].Merge(ns[b], func(k E, x, y int) int { return 10*x + y + int(k.ID) }),
				mc[a].Merge(nc[b], func(k int, x, y int8) int8 { return 10*x + y + int8(k) }))
			if a&b != b {
				continue
			}
			// b is a part of a
			c := mc[a]
			for i := range un.El {
				if b>>uint(i)&1 != 0 {
					c[i] = -1
				}
			}
			what = "m.Where(key not in n)"
			got(ms[a].Where(func(k E, _ int) bool { return b>>uint(k.ID)&1 == 0 }), c)
			what = "m without the keys of n, one by one"
			r := ms[a]
			for i, e := range un.El {
				if b>>uint(i)&1 != 0 {
					r = r.Without(e)
				}
			}
			got(r, c)
		}
	}
}
