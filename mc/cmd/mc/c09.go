//go:build !sel || c09 || c10 || c28

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() {
	checks["C09"] = c09
	checks["C10"] = c10
	checks["C28"] = c28
}

func mapUnits(c *Ctx, prefix string, f func(u *Unit, sp *core.MapSpace[E], n int)) {
	g := geom(c)
	add := func(s core.Shape, nv, max int, o core.MSpaceOpts) {
		c.Unit(prefix+"/"+s.Name, func(u *Unit) {
			o.Max = max
			sp := core.NewMapSpace(core.UnivE(s), nv, u, o)
			f(u, sp, len(s.H))
			if len(sp.States) > 3 {
				u.Sample("%d map states; e.g. %s", len(sp.States), sp.Expr(int32(len(sp.States)-1)))
			}
		})
	}
	for n := 1; n <= 4; n++ {
		nv := 2
		if n <= 2 {
			nv = 3
		}
		for _, s := range core.EnumShapes(n, lcps(g, c.Thorough() || n <= 3), g) {
			add(s, nv, 0, core.MSpaceOpts{NewMaps: true})
		}
	}
	max5 := 8000
	if c.Thorough() {
		max5 = 0
	}
	for _, s := range core.EnumShapes(5, []int{0, 1, g.Max}, g) {
		add(s, 2, max5, core.MSpaceOpts{})
	}
	add(edgeShape(), 2, max5, core.MSpaceOpts{NewMaps: true})
	add(wideShape(9, g), 1, 0, core.MSpaceOpts{})
	add(groupShape("6-element twig", g, [2]int{6, g.Max}), 1, 3000, core.MSpaceOpts{})
	add(groupShape("4+3 twigs", g, [2]int{4, g.Max}, [2]int{3, g.Max}), 1, 8000, core.MSpaceOpts{})
}

func c09(c *Ctx) {
	mapUnits(c, "C09", func(u *Unit, sp *core.MapSpace[E], n int) {
		var k int
		var i int32
		u.Case(func() string { return fmt.Sprintf("m = %s, key e%d", sp.Expr(i), k) })
		for i = 0; int(i) < len(sp.States); i++ {
			st := &sp.States[i]
			for k = 0; k < n; k++ {
				u.Trans += 3
				key, want := sp.U.El[k], int(st.C[k])
				called := 0
				els := func() int { called++; return -7 }
				if want >= 0 {
					if got := st.M.MustGet(key); got != want {
						u.Failf("MustGet = %d, want %d", got, want)
					}
					if got := st.M.GetElse(key, -5); got != want {
						u.Failf("GetElse = %d, want %d", got, want)
					}
					if got := st.M.GetElseFunc(key, els); got != want || called != 0 {
						u.Failf("GetElseFunc = %d, want %d (function called %d times)", got, want, called)
					}
				} else {
					if u.Panics(func() { st.M.MustGet(key) }) == nil {
						u.Failf("MustGet of an absent key does not panic")
					}
					if got := st.M.GetElse(key, -5); got != -5 {
						u.Failf("GetElse of an absent key = %d, want the default", got)
					}
					if got := st.M.GetElseFunc(key, els); got != -7 || called != 1 {
						u.Failf("GetElseFunc of an absent key = %d (function called %d times)", got, called)
					}
				}
			}
			if i%64 == 0 {
				u.Tick()
			}
		}
		sp.ReplayAll()
	})
	g := geom(c)
	c.Unit("C09/long", func(u *Unit) { c09Long(u, g) })
	// values of other types; the zero value must be distinguishable from absence
	c.Unit("C09/values", func(u *Unit) {
		for _, s := range core.EnumShapes(3, []int{0, 1, g.Max}, g) {
			els := core.UnivE(s).El
			c09Values(u, s.Name, els, []string{"", "x", "y"})
			c09Values(u, s.Name, els, []any{nil, 0, "", struct{}{}})
			c09Values(u, s.Name, els, []frozen.Set[E]{{}, frozen.NewSet(els...), frozen.NewSet(els[0])})
			c09Values(u, s.Name, els, []*int{nil, new(int), new(int)})
			c09Values(u, s.Name, els, []EQ{{}, {ID: 1, Tag: 5}, {ID: 1, Tag: 6}})
		}
		c09Values(u, "strings", []string{"", "a", "b"}, []int{0, 1, 2})
		c09Values(u, "ints", []int{0, -1, 1 << 62}, []int{0, 1, 2})
		c09Values(u, "any", []any{0, "0", int8(0)}, []int{0, 1, 2})
		c09Values(u, "arrays", [][2]int{{}, {0, 1}, {1, 0}}, []bool{false, true})
		c09Values(u, "floats", []float64{0, 1, -1e300}, []uint8{0, 255})
	})
}

// c09Values: all histories of up to 5 operations over 3 keys and the values.
func c09Values[K, V any](u *Unit, name string, keys []K, vals []V) {
	type op struct{ k, v int } // v < 0: Without
	var ops []op
	for k := range keys {
		for v := range vals {
			ops = append(ops, op{k, v})
		}
		ops = append(ops, op{k, -1})
	}
	var hist []op
	u.Case(func() string { return fmt.Sprintf("Map[%T, %T] (%s): %v", keys[0], vals[0], name, hist) })
	depth := 3
	var rec func(m frozen.Map[K, V], c [3]int)
	rec = func(m frozen.Map[K, V], c [3]int) {
		u.Trans++
		n := 0
		for k := range keys {
			v, has := m.Get(keys[k])
			want := c[k]
			if want >= 0 {
				n++
			}
			// identity of the value, not equality: the latest one must be there
			if has != (want >= 0) || has && fmt.Sprintf("%#v", v) != fmt.Sprintf("%#v", vals[want]) {
				u.Failf("Get(%v) = %v, %v", keys[k], v, has)
			}
		}
		if m.Count() != n || m.IsEmpty() != (n == 0) {
			u.Failf("Count() = %d, want %d", m.Count(), n)
		}
		if len(hist) == depth {
			return
		}
		for _, o := range ops {
			hist = append(hist, o)
			c2 := c
			c2[o.k] = o.v
			if o.v >= 0 {
				rec(m.With(keys[o.k], vals[o.v]), c2)
			} else {
				rec(m.Without(keys[o.k]), c2)
			}
			hist = hist[:len(hist)-1]
		}
	}
	rec(frozen.Map[K, V]{}, [3]int{-1, -1, -1})
	u.Tick()
}

func c09Long(u *Unit, g core.HashGeom) {
	hashes := map[string]func(i int) uint64{
		"spread":    func(i int) uint64 { return core.Mix(uint64(i)) },
		"collide 5": func(i int) uint64 { return core.Mix(uint64(i / 5)) },
		"low bits":  func(i int) uint64 { return uint64(i) },
	}
	for name, h := range hashes {
		const n = 300
		step := 0
		u.Case(func() string { return fmt.Sprintf("hashes %s, step %d", name, step) })
		el := func(i int) E { return E{ID: int32(i), H: h(i)} }
		var m frozen.Map[E, int]
		val := make([]int, n)
		for i := range val {
			val[i] = -1
		}
		cnt := 0
		for step = 0; step < 4*n; step++ {
			i := step * 7 % n
			u.Trans++
			switch {
			case step < n: // add
				m = m.With(el(i), step)
				cnt++
				val[i] = step
			case step < 2*n: // replace
				m = m.With(el(i), step)
				val[i] = step
			case step%3 == 0 && val[i] < 0: // add again
				m = m.With(el(i), step)
				val[i] = step
				cnt++
			default: // remove, also absent ones
				m = m.Without(el(i))
				if val[i] >= 0 {
					cnt--
				}
				val[i] = -1
			}
			if m.Count() != cnt {
				u.Failf("Count() = %d, want %d", m.Count(), cnt)
			}
			if step%10 == 0 || step%n < 12 {
				for i := range val {
					v, has := m.Get(el(i))
					if has != (val[i] >= 0) || has && v != val[i] {
						u.Failf("Get(e%d) = %d, %v, want %d", i, v, has, val[i])
					}
				}
			}
		}
		u.Tick()
	}
}

func resolve10(k int, a, b int8) int8 { return int8(10 + 4*k + 2*int(a) + int(b)) }

func c10(c *Ctx) {
	g := geom(c)
	mapUnits(c, "C10", func(u *Unit, sp *core.MapSpace[E], n int) {
		lim := 130
		if n >= 5 {
			lim = 90
		}
		if c.Thorough() {
			lim = 700
		}
		sel := sp.Select(lim)
		if len(sel) > 2*lim {
			// more contents than that: an even selection of them
			step := (len(sel) + 2*lim - 1) / (2 * lim)
			var s2 []int32
			for i := 0; i < len(sel); i += step {
				s2 = append(s2, sel[i])
			}
			sel = s2
		}
		if len(sel) < len(sp.States) {
			u.Cover("states not combined pairwise", int64(len(sp.States)-len(sel)))
		}
		c10Pairs(u, sp, sel, n)
		sp.ReplayAll()
	})
	for _, s := range deepShapes(c, 2, 4) {
		s := s
		c.Unit("C10/deep/"+s.Name, func(u *Unit) {
			deepMaps(u, s, func(un core.Univ[E], r frozen.Map[E, int], c core.Content) {
				if d := core.ObserveMap(un, r, c); d != "" {
					u.Failf("%s; want %v", d, c)
				}
			})
		})
	}
	sizeUnits(c, "C10", mapSizes)
	// keys with their own equality: the value must be n's whatever key is kept
	c.Unit("C10/EQ", func(u *Unit) {
		for _, s := range core.EnumShapes(3, []int{0, 1, g.Max}, g) {
			univ := core.UnivEQ(s)
			c10EQ(u, univ)
		}
	})
}

func c10Pairs(u *Unit, sp *core.MapSpace[E], sel []int32, n int) {
	var i, j int32
	what := ""
	u.Case(func() string {
		return fmt.Sprintf("%s\nm = %s\nn = %s\n%s", sp.U.Describe(), sp.Expr(i), sp.Expr(j), what)
	})
	obs := func(w string, m frozen.Map[E, int], c core.Content) {
		u.Trans++
		what = w
		if d := core.ObserveMap(sp.U, m, c); d != "" {
			u.Failf("%s: %s; want %v", w, d, c)
		}
	}
	resolve := func(k E, a, b int) int { return int(resolve10(int(k.ID), int8(a), int8(b))) }
	fresh := func(c core.Content) frozen.Map[E, int] {
		var m frozen.Map[E, int]
		for k := n - 1; k >= 0; k-- {
			if c[k] >= 0 {
				m = m.With(sp.U.El[k], int(c[k]))
			}
		}
		return m
	}
	for _, i = range sel {
		u.Tick()
		for _, j = range sel {
			a, b := &sp.States[i], &sp.States[j]
			what = "m.Update(n)"
			up := a.M.Update(b.M)
			cu := a.C.Update(b.C)
			obs("m.Update(n)", up, cu)
			what = "m.Merge(n, resolve)"
			cm := a.C.Merge(b.C, resolve10)
			mg := a.M.Merge(b.M, resolve)
			obs("m.Merge(n, resolve)", mg, cm)
			if (int(i)*31+int(j))%4 != 0 {
				continue
			}
			// the results serve as operands
			what = "m.Update(n) compared with a map built by With"
			f := fresh(cu)
			if !up.Equal(f) || !f.Equal(up) || up.Hash(3) != f.Hash(3) {
				u.Failf("m.Update(n) differs from a map with the same entries built by With")
			}
			f = fresh(cm)
			if !mg.Equal(f) || !f.Equal(mg) {
				u.Failf("m.Merge(n, resolve) differs from a map with the same entries built by With")
			}
			for k := 0; k < n; k++ {
				obs(fmt.Sprintf("m.Update(n).Without(e%d)", k), up.Without(sp.U.El[k]), cu.With(k, -1))
				obs(fmt.Sprintf("m.Merge(n, resolve).Without(e%d)", k), mg.Without(sp.U.El[k]), cm.With(k, -1))
				obs(fmt.Sprintf("m.Merge(n, resolve).With(e%d, 1)", k), mg.With(sp.U.El[k], 1), cm.With(k, 1))
			}
			obs("m.Update(n).Update(m)", up.Update(a.M), cu.Update(a.C))
			obs("n.Update(m.Merge(n, resolve))", b.M.Update(mg), b.C.Update(cm))
		}
	}
}

func c10EQ(u *Unit, univ core.Univ[EQ]) {
	n := len(univ.El)
	type mm struct {
		m frozen.Map[EQ, int]
		c [3]int
	}
	var ms []mm
	var rec func(k int, x mm)
	rec = func(k int, x mm) {
		if k == n {
			ms = append(ms, x)
			return
		}
		rec(k+1, x)
		for v := 1; v <= 2; v++ {
			y := x
			key := univ.El[k]
			key.Tag += int32(v)
			y.m = x.m.With(key, v)
			y.c[k] = v
			rec(k+1, y)
		}
	}
	rec(0, mm{})
	var a, b *mm
	u.Case(func() string { return fmt.Sprintf("m = %v, n = %v", a.m, b.m) })
	check := func(what string, m frozen.Map[EQ, int], want [3]int) {
		u.Trans++
		cnt := 0
		for k := range want {
			v, has := m.Get(univ.El[k])
			if has != (want[k] > 0) || has && v != want[k] {
				u.Failf("%s: Get(q%d) = %d, %v, want %v", what, k, v, has, want)
			}
			if want[k] > 0 {
				cnt++
			}
		}
		got := 0
		for r := m.Range(); r.Next(); got++ {
			if want[univ.ID2(r.Key())] != r.Value() {
				u.Failf("%s: Range yields %v: %d, want %v", what, r.Key(), r.Value(), want)
			}
		}
		if m.Count() != cnt || got != cnt {
			u.Failf("%s: Count() = %d, %d entries, want %d", what, m.Count(), got, cnt)
		}
	}
	for i := range ms {
		for j := range ms {
			a, b = &ms[i], &ms[j]
			up, mg := a.c, a.c
			for k := range up {
				if b.c[k] > 0 {
					up[k] = b.c[k]
					if mg[k] > 0 {
						mg[k] = 100 + 10*mg[k] + b.c[k]
					} else {
						mg[k] = b.c[k]
					}
				}
			}
			check("m.Update(n)", a.m.Update(b.m), up)
			check("m.Merge(n)", a.m.Merge(b.m, func(_ EQ, x, y int) int { return 100 + 10*x + y }), mg)
		}
	}
	u.Tick()
}

func c28(c *Ctx) {
	g := geom(c)
	mapUnits(c, "C28", func(u *Unit, sp *core.MapSpace[E], n int) {
		lim := 900
		if c.Thorough() {
			lim = 5000
		}
		sel := sp.Select(lim)
		var i, j int32
		u.Case(func() string { return fmt.Sprintf("%s\nm = %s\nn = %s", sp.U.Describe(), sp.Expr(i), sp.Expr(j)) })
		for _, i = range sel {
			a := &sp.States[i]
			u.Tick()
			for _, j = range sel {
				b := &sp.States[j]
				u.Trans += 2
				if got := a.M.Equal(b.M); got != (a.C == b.C) {
					u.Failf("m has %v, n has %v, but m.Equal(n) = %v", a.C, b.C, got)
				}
				if got := a.M.Same(b.M); got != (a.C == b.C) {
					u.Failf("m has %v, n has %v, but m.Same(n) = %v", a.C, b.C, got)
				}
			}
			for _, o := range []any{
				nil, 0, "", struct{}{}, a, &a.M, map[E]int{}, frozen.Set[E]{}, frozen.Map[E, any]{}, frozen.Map[any, int]{},
				frozen.Map[int, E]{}, frozen.MapMap(a.M, func(_ E, v int) int64 { return int64(v) }), a.M.Keys(), frozen.NewSet(a.M),
			} {
				u.Trans++
				if a.M.Same(o) {
					u.Failf("m has %v, but m.Same(%T) = true", a.C, o)
				}
			}
		}
	})
	for _, s := range deepShapes(c, 2, 4) {
		s := s
		c.Unit("C28/deep/"+s.Name, func(u *Unit) {
			deepMaps(u, s, func(un core.Univ[E], r frozen.Map[E, int], c core.Content) {
				cmp := func(d core.Content) {
					var m frozen.Map[E, int]
					for k := len(un.El) - 1; k >= 0; k-- {
						if d[k] >= 0 {
							m = m.With(un.El[k], int(d[k]))
						}
					}
					u.Evals += 3
					if r.Equal(m) != (c == d) || m.Equal(r) != (c == d) || r.Same(m) != (c == d) {
						u.Failf("the result should have %v; compared with a map of %v: Equal = %v, the other way %v, Same = %v",
							c, d, r.Equal(m), m.Equal(r), r.Same(m))
					}
				}
				cmp(c)
				for k := range un.El {
					if c[k] >= 0 {
						cmp(c.With(k, -1))
						cmp(c.With(k, c[k]+1))
					} else {
						cmp(c.With(k, 0))
					}
				}
			})
		})
	}
	sizeUnits(c, "C28/int", mapSizesEqual(func(i, _ int) int { return i }))
	sizeUnits(c, "C28/own", mapSizesEqual(func(i, r int) EQ { return EQ{ID: int32(i), H: core.Mix(uint64(i)), Tag: int32(r)} }))
	sizeUnits(c, "C28/unhashed", mapSizesEqual(func(i, r int) loose { return loose{i, &r} }))
	sizeUnits(c, "C28/sets", mapSizesEqual(func(i, r int) frozen.Set[int] {
		if r > 0 {
			return frozen.NewSet(-1, i).Without(-1)
		}
		return frozen.NewSet(i)
	}))
	// values that are collections or define their own equality
	c.Unit("C28/values", func(u *Unit) {
		for _, s := range core.EnumShapes(3, []int{0, g.Max - 1, g.Max}, g) {
			els := core.UnivE(s).El
			c28Values(u, s.Name, els, [][]frozen.Set[E]{
				{{}, frozen.NewSet(els[0]).Without(els[0])},
				{frozen.NewSet(els[0], els[1], els[2]), frozen.NewSet(els[2], els[0], els[1])},
				{frozen.NewSet(els[0])},
			})
			c28Values(u, s.Name, els, [][]EQ{{{ID: 1, Tag: 1}, {ID: 1, Tag: 2}}, {{ID: 2}}})
			c28Values(u, s.Name, els, [][]ES{{{ID: 1, Tag: 1}, {ID: 1, Tag: 2}}, {{ID: 2}}})
			c28Values(u, s.Name, els, [][]any{{nil}, {0}, {int8(0)}, {EQ{ID: 1}}, {ES{ID: 1, Tag: 3}, ES{ID: 1}}})
			c28Values(u, s.Name, els, [][]frozen.Map[E, int]{
				{{}}, {frozen.NewMap(frozen.KV(els[0], 1))}, {frozen.NewMap(frozen.KV(els[0], 2))},
				{frozen.NewMap(frozen.KV(els[0], 1), frozen.KV(els[1], 1)), frozen.NewMap(frozen.KV(els[1], 1), frozen.KV(els[0], 1))},
			})
		}
	})
}

// loose has an equality of its own but no hash to go with it.
type loose struct {
	id   int
	more *int
}

func (l loose) Equal(m loose) bool { return l.id == m.id }

// c28Values: classes of equal values; all maps over three keys.
func c28Values[V any](u *Unit, name string, keys []E, classes [][]V) {
	type mm struct {
		m frozen.Map[E, V]
		c [3]int
	}
	var ms []mm
	var rec func(k, how int, x mm)
	rec = func(k, how int, x mm) {
		if k == len(keys) {
			ms = append(ms, x)
			return
		}
		rec(k+1, how, x)
		for cl, vs := range classes {
			y := x
			key := (k*2 + how) % 3
			y.m = x.m.With(keys[key], vs[how%len(vs)])
			y.c[key] = cl + 1
			rec(k+1, how, y)
		}
	}
	rec(0, 0, mm{})
	rec(0, 1, mm{})
	u.States += int64(len(ms))
	var a, b *mm
	u.Case(func() string { return fmt.Sprintf("keys %v: m = %v, n = %v", keys, a.m, b.m) })
	for i := range ms {
		for j := range ms {
			a, b = &ms[i], &ms[j]
			u.Trans += 2
			want := a.c == b.c
			if a.m.Equal(b.m) != want || a.m.Same(b.m) != want {
				u.Failf("Equal, Same = %v, %v, want %v", a.m.Equal(b.m), a.m.Same(b.m), want)
			}
		}
		u.Tick()
	}
}
