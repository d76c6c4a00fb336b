//go:build !sel || c04 || c05

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() {
	checks["C04"] = c04
	checks["C05"] = c05
}

func c04(c *Ctx) {
	g := geom(c)
	add := func(s core.Shape, maxPairs int, o core.SpaceOpts) {
		c.Unit(fmt.Sprintf("C04/%s", s.Name), func(u *Unit) {
			sp := core.NewSetSpace(core.UnivE(s), u, o)
			c04Pairs(u, sp, maxPairs)
			sampleSpace(u, sp)
		})
	}
	full := core.SpaceOpts{NewSets: true, Where: true, Binary: true, MaxBinary: 40}
	for n := 1; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, c.Thorough() || n <= 3), g) {
			add(s, 1000, full)
		}
	}
	cap5, cap6 := 260, 160
	if c.Thorough() {
		cap5, cap6 = 2000, 1000
	}
	for _, s := range core.EnumShapes(5, lcps(g, false), g) {
		add(s, cap5, core.SpaceOpts{NewSets: true, Where: true})
	}
	for _, s := range core.EnumShapes(6, []int{0, g.Max - 1, g.Max}, g) {
		add(s, cap6, core.SpaceOpts{Where: true})
	}
	add(edgeShape(), 1000, full)
	add(groupShape("6-element twig", g, [2]int{6, g.Max}), 2*cap5, core.SpaceOpts{})
	add(groupShape("4+4 twigs", g, [2]int{4, g.Max}, [2]int{4, g.Max}), 2*cap5, core.SpaceOpts{})
	add(wideShape(9, g), 1000, core.SpaceOpts{Where: false})
	add(groupShape("8 below level 2", g, [2]int{8, 2}), 1000, core.SpaceOpts{})
	for _, s := range deepShapes(c, 2, 5) {
		s := s
		c.Unit("C04/deep/"+s.Name, func(u *Unit) { c04Deep(u, s) })
	}
	sizeUnits(c, "C04", setSizesEqual)
	for n := 2; n <= 3; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, false), g) {
			s := s
			c.Unit("C04/EQ/"+s.Name, func(u *Unit) {
				sp := core.NewSetSpace(core.UnivEQ(s), u, core.SpaceOpts{NewSets: true, Where: true})
				c04Pairs(u, sp, 1000)
			})
		}
	}
}

func c04Pairs[T any](u *Unit, sp *core.SetSpace[T], max int) {
	sel := sp.Select(max)
	if len(sel) < len(sp.States) {
		u.Cover("states not compared pairwise", int64(len(sp.States)-len(sel)))
	}
	var i, j int32
	u.Case(func() string { return fmt.Sprintf("s = %s\nt = %s", sp.Expr(i), sp.Expr(j)) })
	for _, i = range sel {
		a := &sp.States[i]
		u.Tick()
		for _, j = range sel {
			b := &sp.States[j]
			u.Trans += 3
			if got := a.Set.Equal(b.Set); got != (a.Mask == b.Mask) {
				u.Failf("%s\ns has %s, t has %s, but s.Equal(t) = %v", sp.U.Describe(), core.MaskString(a.Mask), core.MaskString(b.Mask), got)
			}
			if got := a.Set.Same(b.Set); got != (a.Mask == b.Mask) {
				u.Failf("%s\ns has %s, t has %s, but s.Same(t) = %v", sp.U.Describe(), core.MaskString(a.Mask), core.MaskString(b.Mask), got)
			}
			if got := a.Set.IsSubsetOf(b.Set); got != (a.Mask&^b.Mask == 0) {
				u.Failf("%s\ns has %s, t has %s, but s.IsSubsetOf(t) = %v", sp.U.Describe(), core.MaskString(a.Mask), core.MaskString(b.Mask), got)
			}
		}
		// values of other types
		for _, o := range []any{
			nil, 0, "x", struct{}{}, []T{}, a, &a.Set, frozen.Map[T, int]{}, frozen.NewIntSet[int](),
			frozen.Set[string]{}, frozen.Set[any]{}, a.Set.AsSetAny(), frozen.Set[frozen.Set[T]]{}, a.Set.Elements(),
		} {
			u.Trans++
			if a.Set.Same(o) {
				u.Failf("s has %s, but s.Same(%T) = true", core.MaskString(a.Mask), o)
			}
		}
	}
}

// c04Deep compares every structurally different result of the operations with
// the set of that content built from a list and with those that differ from it
// in one element.
func c04Deep(u *Unit, s core.Shape) {
	deepPairs(u, s, func(un core.Univ[E], canon []frozen.Set[E], r frozen.Set[E], m uint32) {
		cmp := func(x uint32) {
			t := canon[x]
			if r.Equal(t) != (x == m) || t.Equal(r) != (x == m) || r.Same(t) != (x == m) {
				u.Failf("the result should have %s; compared with NewSet%s: Equal = %v, the other way %v, Same = %v",
					core.MaskString(m), core.MaskString(x), r.Equal(t), t.Equal(r), r.Same(t))
			}
			if r.IsSubsetOf(t) != (m&^x == 0) || t.IsSubsetOf(r) != (x&^m == 0) {
				u.Failf("the result should have %s; compared with NewSet%s: IsSubsetOf = %v, the other way %v",
					core.MaskString(m), core.MaskString(x), r.IsSubsetOf(t), t.IsSubsetOf(r))
			}
			u.Evals += 5
		}
		cmp(m)
		for i := range un.El {
			cmp(m ^ 1<<uint(i))
		}
	})
}

var seeds = []uintptr{0, 1, 42, 1 << 63, ^uintptr(0), 0x9e3779b97f4a7c15}

func c05(c *Ctx) {
	g := geom(c)
	sizeUnits(c, "C05", setSizesHash)
	for n := 1; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, c.Thorough()), g) {
			s := s
			c.Unit("C05/sets/"+s.Name, func(u *Unit) {
				sp := core.NewSetSpace(core.UnivE(s), u, core.SpaceOpts{NewSets: true, Where: true, Binary: true, MaxBinary: 30})
				hashesAgree(u, sp)
				c05Sets(u, sp)
				sampleSpace(u, sp)
			})
			if n <= 3 {
				c.Unit("C05/maps/"+s.Name, func(u *Unit) {
					sp := core.NewMapSpace(core.UnivE(s), 2, u, core.MSpaceOpts{NewMaps: true})
					c05Maps(u, sp)
				})
			}
		}
	}
	for n := 5; n <= 6; n++ {
		for _, s := range core.EnumShapes(n, []int{0, 1, g.Max}, g) {
			s := s
			c.Unit("C05/hash/"+s.Name, func(u *Unit) {
				sp := core.NewSetSpace(core.UnivE(s), u, core.SpaceOpts{Where: true})
				hashesAgree(u, sp)
			})
		}
	}
	for _, s := range deepShapes(c, 2, 4) {
		s := s
		c.Unit("C05/deep/"+s.Name, func(u *Unit) {
			deepPairs(u, s, func(un core.Univ[E], canon []frozen.Set[E], r frozen.Set[E], m uint32) {
				for _, seed := range seeds {
					u.Check(r.Hash(seed) == canon[m].Hash(seed), "the result hashes (seed %d) unlike NewSet%s", seed, core.MaskString(m))
				}
			})
		})
	}
	for slice := 0; slice < 8; slice++ {
		c.Unit(fmt.Sprintf("C05/sizes/%d", slice), func(u *Unit) { c05Sizes(u, slice, 8, c.Thorough()) })
	}
	c.Unit("C05/intsets", c05IntSets)
	c.Unit("C05/plain", c05Plain)
}

func hashesAgree(u *Unit, sp *core.SetSpace[E]) {
	var i, j int32
	u.Case(func() string { return fmt.Sprintf("s = %s\nt = %s", sp.Expr(i), sp.Expr(j)) })
	for _, l := range sp.ByMask {
		for _, seed := range seeds {
			i = l[0]
			h := sp.States[i].Set.Hash(seed)
			for _, j = range l[1:] {
				u.Trans++
				u.Check(sp.States[j].Set.Hash(seed) == h, "s.Hash(%d) != t.Hash(%d), though both have %s", seed, seed, core.MaskString(sp.States[i].Mask))
			}
		}
	}
}

// c05Sets uses every representation of a set as an element and as a key.
func c05Sets(u *Unit, sp *core.SetSpace[E]) {
	var i, j int32
	u.Case(func() string { return fmt.Sprintf("s = %s\nt = %s", sp.Expr(i), sp.Expr(j)) })
	sel := sp.Select(60)
	type SS = frozen.Set[E]
	for _, i = range sel {
		a := &sp.States[i]
		one := frozen.NewSet(a.Set)
		anyOne := frozen.NewSet[any](a.Set, 7)
		m := frozen.NewMap(frozen.KV(a.Set, int(i)))
		kvs := frozen.NewSet(frozen.KV(a.Set, 1))
		kvs2 := frozen.NewSet(frozen.KV(1, a.Set))
		nested := frozen.NewSet(frozen.NewSet(a.Set))
		for _, j = range sel {
			b := &sp.States[j]
			same := a.Mask == b.Mask
			u.Trans += 8
			u.Check(one.Has(b.Set) == same, "NewSet(s).Has(t) = %v", !same)
			u.Check(anyOne.Has(b.Set) == same, "NewSet[any](s, 7).Has(t) = %v", !same)
			_, has := m.Get(b.Set)
			u.Check(has == same, "NewMap(s: i).Get(t) reports %v", has)
			u.Check(kvs.Has(frozen.KV(b.Set, 1)) == same, "NewSet(KV(s, 1)).Has(KV(t, 1)) = %v", !same)
			u.Check(kvs2.Has(frozen.KV(1, b.Set)) == same, "NewSet(KV(1, s)).Has(KV(1, t)) = %v", !same)
			u.Check(nested.Has(frozen.NewSet(b.Set)) == same, "NewSet(NewSet(s)).Has(NewSet(t)) = %v", !same)
			two := one.With(b.Set)
			want := 2
			if same {
				want = 1
			}
			u.Check(two.Count() == want, "NewSet(s).With(t) has Count %d", two.Count())
			u.Check(m.With(b.Set, 5).Count() == want, "NewMap(s: i).With(t, 5) has the wrong Count")
			u.Check(two.Without(a.Set).Count() == want-1, "NewSet(s, t).Without(s) has the wrong Count")
			ui := one.Union(frozen.NewSet(b.Set))
			u.Check(ui.Count() == want && ui.Equal(two), "NewSet(s).Union(NewSet(t)) = %v", ui)
		}
		u.Tick()
	}
	// all representations at once
	var b frozen.SetBuilder[SS]
	var mb frozen.MapBuilder[SS, uint32]
	for _, i = range sel {
		b.Add(sp.States[i].Set)
		mb.Put(sp.States[i].Set, sp.States[i].Mask)
	}
	s, m := b.Finish(), mb.Finish()
	u.Check(s.Count() == len(sp.ByMask) && m.Count() == len(sp.ByMask), "a Set/Map keyed by all sets has Count %d/%d, want %d", s.Count(), m.Count(), len(sp.ByMask))
	for _, i = range sel {
		u.Trans += 2
		j = i
		u.Check(s.Has(sp.States[i].Set), "the set of all sets does not have s")
		v, has := m.Get(sp.States[i].Set)
		u.Check(has && v == sp.States[i].Mask, "the map keyed by all sets has %v, %v for s", v, has)
	}
	// sets of sets with the same content built from different representations
	for m1 := range sp.ByMask {
		for m2 := range sp.ByMask {
			l1, l2 := sp.ByMask[m1], sp.ByMask[m2]
			x := frozen.NewSet(sp.States[l1[0]].Set, sp.States[l2[0]].Set)
			y := frozen.NewSet(sp.States[l2[len(l2)-1]].Set, sp.States[l1[len(l1)-1]].Set)
			u.Trans++
			u.Check(x.Equal(y) && y.Equal(x) && x.Hash(3) == y.Hash(3), "sets of sets %v and %v differ", x, y)
		}
	}
}

func c05Maps(u *Unit, sp *core.MapSpace[E]) {
	var i, j int32
	u.Case(func() string { return fmt.Sprintf("m = %s\nn = %s", sp.Expr(i), sp.Expr(j)) })
	for _, l := range sp.ByC {
		for _, seed := range seeds {
			i = l[0]
			h := sp.States[i].M.Hash(seed)
			for _, j = range l[1:] {
				u.Trans++
				u.Check(sp.States[j].M.Hash(seed) == h, "m.Hash(%d) != n.Hash(%d), though both have %v", seed, seed, sp.States[i].C)
			}
		}
	}
	sel := sp.Select(80)
	all := frozen.Set[frozen.Map[E, int]]{}
	for _, i = range sel {
		u.Tick()
		a := &sp.States[i]
		all = all.With(a.M)
		one := frozen.NewSet(a.M)
		key := frozen.NewMap(frozen.KV(a.M, 1))
		val := frozen.NewMap(frozen.KV(1, a.M))
		anys := frozen.NewSet[any](a.M, "x")
		for _, j = range sel {
			b := &sp.States[j]
			same := a.C == b.C
			u.Trans += 4
			u.Check(one.Has(b.M) == same, "NewSet(m).Has(n) = %v", !same)
			u.Check(anys.Has(b.M) == same, "NewSet[any](m).Has(n) = %v", !same)
			u.Check(key.Has(b.M) == same, "NewMap(m: 1).Has(n) = %v", !same)
			other := frozen.NewMap(frozen.KV(1, b.M))
			u.Check(val.Equal(other) == same, "NewMap(1: m).Equal(NewMap(1: n)) = %v", !same)
			if same {
				u.Check(val.Hash(9) == other.Hash(9), "NewMap(1: m) and NewMap(1: n) hash differently")
				kv1, kv2 := frozen.KV(a.M, b.M), frozen.KV(b.M, a.M)
				u.Check(kv1.Equal(kv2) && kv1.Hash(5) == kv2.Hash(5), "KV(m, n) and KV(n, m) differ")
			}
		}
	}
	u.Check(all.Count() == len(sp.ByC), "the set of all maps has Count %d, want %d", all.Count(), len(sp.ByC))
}

// c05IntSets: all subsets of a universe of integers over several cells, each
// built in several ways.
func c05IntSets(u *Unit) {
	c05Int(u, []int{0, 1, 63, 64, 1 << 40, -1, -64})
	c05Int(u, []int8{-128, -65, -1, 0, 64, 127})
	c05Int(u, []uint8{0, 63, 64, 128, 255})
	c05Int(u, []int16{-32768, -64, 0, 63, 32767})
	c05Int(u, []uint16{0, 64, 65535})
	c05Int(u, []int32{-1 << 31, -1, 0, 1<<31 - 1})
	c05Int(u, []uint32{0, 63, 1<<32 - 1})
	c05Int(u, []int64{-1 << 63, -1, 0, 1<<63 - 1})
	c05Int(u, []uint64{0, 64, 1<<64 - 1})
	c05Int(u, []uint{0, 64, 1<<64 - 1})
	c05Int(u, []uintptr{0, 64, 1<<64 - 1})
}

func c05Int[I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](u *Unit, vals []I) {
	n := len(vals)
	reps := map[uint32][]frozen.IntSet[I]{}
	full := frozen.NewIntSet(vals...)
	for m := uint32(0); m < 1<<uint(n); m++ {
		up, down, less := frozen.IntSet[I]{}, frozen.IntSet[I]{}, full
		var xs []I
		for i, v := range vals {
			if m>>uint(i)&1 != 0 {
				xs = append(xs, v)
				up = up.With(v)
			} else {
				less = less.Without(v)
			}
			if j := n - 1 - i; m>>uint(j)&1 != 0 {
				down = down.With(vals[j])
			}
		}
		mm := m
		w := full.Where(func(v I) bool {
			for i := range vals {
				if vals[i] == v {
					return mm>>uint(i)&1 != 0
				}
			}
			return false
		})
		reps[m] = []frozen.IntSet[I]{frozen.NewIntSet(xs...), up, down, less, w, up.Union(down), full.Intersection(up)}
		u.States += int64(len(reps[m]))
	}
	var m1, m2 uint32
	u.Case(func() string { return fmt.Sprintf("IntSet[%T] over %v: subsets %b and %b", vals[0], vals, m1, m2) })
	outer := frozen.Set[frozen.IntSet[I]]{}
	for m1 = 0; m1 < 1<<uint(n); m1++ {
		for x, a := range reps[m1] {
			outer = outer.With(a)
			one := frozen.NewSet(a)
			for _, seed := range seeds {
				u.Trans++
				u.Check(a.Hash(seed) == reps[m1][0].Hash(seed), "construction %d hashes differently", x)
			}
			for m2 = 0; m2 < 1<<uint(n); m2++ {
				b := reps[m2][(x+1)%len(reps[m2])]
				u.Trans++
				u.Check(one.Has(b) == (m1 == m2), "NewSet(a).Has(b) = %v", m1 != m2)
				u.Check(frozen.NewMap(frozen.KV(a, 1)).Has(b) == (m1 == m2), "NewMap(a: 1).Has(b) = %v", m1 != m2)
			}
		}
		u.Tick()
	}
	u.Check(outer.Count() == 1<<uint(n), "the set of all IntSets has Count %d, want %d", outer.Count(), 1<<uint(n))
}

// c05Plain: elements of predeclared types, hashed by the library's hash.
func c05Plain(u *Unit) {
	check := func(name string, a, b frozen.Set[any]) {
		u.Trans++
		u.Case(func() string { return name })
		u.Check(a.Equal(b) && b.Equal(a), "%v and %v are not Equal", a, b)
		for _, s := range seeds {
			u.Check(a.Hash(s) == b.Hash(s), "%v and %v hash differently", a, b)
		}
		u.Check(frozen.NewSet(a).Has(b) && frozen.NewSet[any](a).Has(b), "NewSet(%v) does not have %v", a, b)
	}
	vals := []any{
		0, 1, "", "a", 1.5, int8(3), uint16(4), true, frozen.NewSet(1, 2), frozen.NewMap(frozen.KV("k", 1)),
		[2]int{1, 2}, frozen.KV("x", 1), frozen.NewIntSet(3, 400),
	}
	n := len(vals)
	for m := 0; m < 1<<uint(n); m++ {
		var fwd, back []any
		up := frozen.Set[any]{}
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 != 0 {
				fwd = append(fwd, vals[i])
				back = append([]any{vals[i]}, back...)
				up = up.With(vals[i])
			}
		}
		name := fmt.Sprintf("NewSet[any] of %v in both orders", fwd)
		a, b := frozen.NewSet(fwd...), frozen.NewSet(back...)
		check(name, a, b)
		check(name+" (With)", up, b)
		if m%64 == 0 {
			u.Tick()
		}
		m1 := frozen.Map[any, any]{}
		m2 := frozen.Map[any, any]{}
		for i := range fwd {
			m1 = m1.With(fwd[i], vals[(i*3)%n])
		}
		for i := len(fwd) - 1; i >= 0; i-- {
			m2 = m2.With(fwd[i], "other").With(fwd[i], vals[(i*3)%n])
		}
		u.Check(m1.Equal(m2) && m2.Equal(m1) && m1.Hash(1) == m2.Hash(1), "maps with the same entries differ: %v %v", m1, m2)
		u.Check(frozen.NewSet(m1).Has(m2), "NewSet(m1) does not have m2")
	}
	u.Sample("all %d subsets of %v as Set[any] and Map[any,any] in two orders", 1<<uint(n), vals)
}

// c05Sizes: sets and maps of every size whose elements are iterated in
// different orders, since those with equal hashes come in insertion order.
func c05Sizes(u *Unit, slice, slices int, thorough bool) {
	top := 200
	if thorough {
		top = 1000
	}
	what := ""
	u.Case(func() string { return what })
	for _, f := range []struct {
		name string
		hash func(i int) uint64
	}{
		{"pairs collide", func(i int) uint64 { return core.Mix(uint64(i / 2)) }},
		{"triples collide", func(i int) uint64 { return core.Mix(uint64(i / 3)) }},
		{"groups of 7 collide", func(i int) uint64 { return core.Mix(uint64(i / 7)) }},
		{"no collisions", func(i int) uint64 { return core.Mix(uint64(i)) }},
		{"all collide up to 64", func(i int) uint64 { return core.Mix(uint64(i / 64)) }},
	} {
		for n := 2 + slice; n <= top; n += slices {
			el := func(i int) E { return E{ID: int32(i), H: f.hash(i)} }
			orders := []struct {
				name string
				at   func(i int) int
			}{
				{"upwards", func(i int) int { return i }},
				{"downwards", func(i int) int { return n - 1 - i }},
				{"from the middle", func(i int) int { return (i + n/2) % n }},
				{"even ones last", func(i int) int {
					if i < n/2 {
						return 2*i + 1
					}
					return 2 * (i - n/2)
				}},
			}
			var s0 frozen.Set[E]
			var m0 frozen.Map[E, int]
			var a0 frozen.Set[any]
			for k, o := range orders {
				what = fmt.Sprintf("%d elements (%s), added upwards and added %s", n, f.name, o.name)
				var s frozen.Set[E]
				var m frozen.Map[E, int]
				var a frozen.Set[any]
				var b frozen.SetBuilder[E]
				for i := 0; i < n; i++ {
					e := el(o.at(i))
					s = s.With(e)
					m = m.With(e, int(e.ID)%5)
					a = a.With(e)
					b.Add(e)
				}
				if k == 0 {
					s0, m0, a0 = s, m, a
				}
				t := b.Finish()
				// the same, less some that were there for a while
				less := s.With(el(n)).With(el(n + 1)).Without(el(n)).Without(el(n + 1))
				u.States += 4
				for _, seed := range seeds {
					u.Trans += 5
					u.Check(s.Hash(seed) == s0.Hash(seed) && t.Hash(seed) == s0.Hash(seed) && less.Hash(seed) == s0.Hash(seed), "the sets hash differently (seed %d)", seed)
					u.Check(m.Hash(seed) == m0.Hash(seed), "the maps hash differently (seed %d)", seed)
					u.Check(a.Hash(seed) == a0.Hash(seed), "the Set[any]s hash differently (seed %d)", seed)
				}
				u.Check(frozen.NewSet(s0).Has(s) && frozen.NewSet(s0, t, less, s).Count() == 1, "the sets are different elements")
				u.Check(frozen.NewMap(frozen.KV(m0, 1)).Has(m), "the maps are different keys")
				u.Check(frozen.NewSet[any](s0, m0, a0).Has(a), "the Set[any]s are different elements")
			}
			u.Tick()
		}
	}
}
