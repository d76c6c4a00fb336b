//go:build !sel || c11

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() { checks["C11"] = c11 }

func c11(c *Ctx) {
	g := geom(c)
	for n := 1; n <= 4; n++ {
		nv := 2
		for _, s := range core.EnumShapes(n, lcps(g, c.Thorough() || n <= 3), g) {
			s := s
			n := n
			c.Unit("C11/"+s.Name, func(u *Unit) {
				sp := core.NewMapSpace(core.UnivE(s), nv, u, core.MSpaceOpts{NewMaps: true})
				lim := 200
				if n == 4 && !c.Thorough() {
					lim = 81
				}
				c11Maps(u, sp, sp.Select(lim), nv, n <= 3 || c.Thorough())
				c11New(u, sp.U, nv)
				c11FromKeys(u, sp.U)
				sp.ReplayAll()
				u.Sample("%d map states, all entry predicates, value functions and key lists", len(sp.States))
			})
			if n <= 3 {
				c.Unit("C11/values/"+s.Name, func(u *Unit) { c11Values(u, s) })
			}
		}
	}
	for _, s := range core.EnumShapes(3, []int{0, 1, g.Max}, g) {
		s := s
		c.Unit("C11/EQ/"+s.Name, func(u *Unit) { c11EQ(u, s) })
	}
	c.Unit("C11/long", func(u *Unit) { c11Long(u) })
}

func c11Maps(u *Unit, sp *core.MapSpace[E], sel []int32, nv int, all bool) {
	n := len(sp.U.El)
	var i int32
	what := func() string { return "" }
	u.Case(func() string { return fmt.Sprintf("%s\nm = %s\n%s", sp.U.Describe(), sp.Expr(i), what()) })
	obs := func(m frozen.Map[E, int], c core.Content) {
		u.Trans++
		if d := core.ObserveMap(sp.U, m, c); d != "" {
			u.Failf("%s; want %v", d, c)
		}
	}
	for _, i = range sel {
		u.Tick()
		st := &sp.States[i]
		// Keys and Values
		what = func() string { return "m.Keys()" }
		if d := core.ObserveSet(sp.U, st.M.Keys(), contentMask(st.C)); d != "" {
			u.Failf("%s", d)
		}
		what = func() string { return "m.Values()" }
		want := map[int]bool{}
		for _, v := range st.C {
			if v >= 0 {
				want[int(v)] = true
			}
		}
		vs := st.M.Values()
		got := map[int]bool{}
		for r := vs.Range(); r.Next(); {
			if got[r.Value()] || !want[r.Value()] {
				u.Failf("Values() = %v", vs)
			}
			got[r.Value()] = true
		}
		u.Check(len(got) == len(want) && vs.Count() == len(want), "Values() = %v (Count %d), want %v", vs, vs.Count(), want)
		// Go maps
		what = func() string { return "MapToGoMap(m), NewMapFromGoMap of it" }
		gm := frozen.MapToGoMap(st.M)
		u.Check(len(gm) == st.C.Count(), "MapToGoMap has %d entries", len(gm))
		for k, v := range gm {
			u.Check(st.C[k.ID] == int8(v), "MapToGoMap has %v: %v", k, v)
		}
		obs(frozen.NewMapFromGoMap(gm), st.C)
		// Project
		var keys []int
		what = func() string { return fmt.Sprintf("m.Project of keys %v", keys) }
		var rec func(k int)
		rec = func(k int) {
			var ks []E
			c := core.EmptyContent()
			for _, x := range keys {
				ks = append(ks, sp.U.El[x])
				c[x] = st.C[x]
			}
			obs(st.M.Project(ks...), c)
			if k == 0 {
				return
			}
			for x := 0; x < n; x++ {
				keys = append(keys, x)
				rec(k - 1)
				keys = keys[:len(keys)-1]
			}
		}
		rec(3)
		// predicates on entries and functions of entries: one bit per (key, value)
		bitsN := n * nv
		step := uint32(1)
		if !all && bitsN > 6 {
			step = 3 // an even selection
		}
		var f uint32
		bit := func(k E, v int) int { return int(f>>uint(int(k.ID)*nv+v)) & 1 }
		what = func() string {
			return fmt.Sprintf("m.Where(p) and MapMap(m, p), p true for entries (bit = key*%d+value) %b", nv, f)
		}
		for f = 0; f < 1<<uint(bitsN); f += step {
			c, cm := st.C, st.C
			for k, v := range c {
				if v >= 0 {
					b := bit(E{ID: int32(k)}, int(v))
					if b == 0 {
						c[k] = -1
					}
					cm[k] = int8(b)
				}
			}
			obs(st.M.Where(func(k E, v int) bool { return bit(k, v) == 1 }), c)
			obs(frozen.MapMap(st.M, bit), cm)
		}
		f = 0
		// a change of the value type
		sm := frozen.MapMap(st.M, func(k E, v int) string { return fmt.Sprint(k.ID, "-", v) })
		u.Check(sm.Count() == st.C.Count(), "MapMap to strings has Count %d", sm.Count())
		for k, e := range sp.U.El {
			v, has := sm.Get(e)
			u.Check(has == (st.C[k] >= 0) && (!has || v == fmt.Sprint(k, "-", st.C[k])), "MapMap to strings has %q for e%d", v, k)
		}
		// results are ordinary maps
		w := st.M.Where(func(k E, _ int) bool { return k.ID%2 == 0 })
		cw := st.C
		for k := range cw {
			if k%2 == 1 {
				cw[k] = -1
			}
		}
		what = func() string { return "operations on m.Where(even keys)" }
		obs(w, cw)
		obs(w.Update(st.M), st.C)
		obs(st.M.Update(w), st.C)
		u.Check(w.Equal(st.M) == (cw == st.C) && st.M.Equal(w) == (cw == st.C), "m.Where(even).Equal(m) is wrong")
		for k := range sp.U.El {
			obs(w.With(sp.U.El[k], 1), cw.With(k, 1))
			obs(w.Without(sp.U.El[k]), cw.With(k, -1))
		}
	}
}

// c11New: NewMap of every list of up to 4 pairs, repeated keys included.
func c11New(u *Unit, univ core.Univ[E], nv int) {
	var kvs []frozen.KeyValue[E, int]
	u.Case(func() string { return fmt.Sprintf("%s\nNewMap(%v)", univ.Describe(), kvs) })
	depth := 4
	if len(univ.El) == 4 {
		depth = 3
	}
	var rec func(c core.Content)
	rec = func(c core.Content) {
		u.Trans++
		if d := core.ObserveMap(univ, frozen.NewMap(kvs...), c); d != "" {
			u.Failf("%s; want %v", d, c)
		}
		if len(kvs) == depth {
			return
		}
		for k, e := range univ.El {
			for v := 0; v < nv; v++ {
				kvs = append(kvs, frozen.KV(e, v))
				rec(c.With(k, int8(v)))
				kvs = kvs[:len(kvs)-1]
			}
		}
	}
	rec(core.EmptyContent())
}

func c11FromKeys(u *Unit, univ core.Univ[E]) {
	sp := core.NewSetSpace(univ, u, core.SpaceOpts{})
	n := len(univ.El)
	var i int32
	var f uint32
	u.Case(func() string { return fmt.Sprintf("NewMapFromKeys(%s, f), f = bits %b", sp.Expr(i), f) })
	for i = 0; int(i) < len(sp.States); i++ {
		st := &sp.States[i]
		for f = 0; f < 1<<uint(n); f++ {
			c := core.EmptyContent()
			for k := 0; k < n; k++ {
				if st.Mask>>uint(k)&1 != 0 {
					c[k] = int8(f >> uint(k) & 1)
				}
			}
			u.Trans++
			m := frozen.NewMapFromKeys(st.Set, func(k E) int { return int(f >> uint(k.ID) & 1) })
			if d := core.ObserveMap(univ, m, c); d != "" {
				u.Failf("%s; want %v", d, c)
			}
		}
		u.Tick()
	}
}

// c11Values: maps from the universe to itself, so that the values collide like
// the keys do.
func c11Values(u *Unit, s core.Shape) {
	univ := core.UnivE(s)
	n := len(univ.El)
	assign := make([]int, n) // n: absent
	u.Case(func() string {
		return fmt.Sprintf("%s\nmap with e(i) -> e(a[i]), a = %v (%d: absent)", univ.Describe(), assign, n)
	})
	var rec func(k int, m frozen.Map[E, E])
	rec = func(k int, m frozen.Map[E, E]) {
		if k == n {
			u.States++
			var keys, vals uint32
			for i, v := range assign {
				if v < n {
					keys |= 1 << uint(i)
					vals |= 1 << uint(v)
				}
			}
			u.Trans += 3
			if d := core.ObserveSet(univ, m.Values(), vals); d != "" {
				u.Failf("Values(): %s", d)
			}
			if d := core.ObserveSet(univ, m.Keys(), keys); d != "" {
				u.Failf("Keys(): %s", d)
			}
			inv := frozen.MapMap(m, func(k, v E) [2]E { return [2]E{v, k} })
			for i, e := range univ.El {
				p, has := inv.Get(e)
				if has != (assign[i] < n) || has && (p[1] != e || int(p[0].ID) != assign[i]) {
					u.Failf("MapMap pairs e%d with %v", i, p)
				}
			}
			eq := m.Where(func(k, v E) bool { return k == v })
			for i, e := range univ.El {
				if v, has := eq.Get(e); has != (assign[i] == i) || has && v != e {
					u.Failf("Where(k == v) has %v, %v for e%d", v, has, i)
				}
			}
			return
		}
		for v := 0; v <= n; v++ {
			assign[k] = v
			if v < n {
				rec(k+1, m.With(univ.El[k], univ.El[v]))
			} else {
				rec(k+1, m)
			}
		}
		assign[k] = 0
	}
	rec(0, frozen.Map[E, E]{})
	u.Tick()
}

func c11Long(u *Unit) {
	for size := 0; size <= 200; size++ {
		for how := 0; how < 2; how++ {
			size, how := size, how
			u.Case(func() string { return fmt.Sprintf("map of %d entries, hashes %d", size, how) })
			el := func(i int) E {
				if how == 0 {
					return E{ID: int32(i), H: core.Mix(uint64(i))}
				}
				return E{ID: int32(i), H: uint64(i/4) << 50}
			}
			gm := map[E]int{}
			var kvs []frozen.KeyValue[E, int]
			for i := 0; i < size; i++ {
				gm[el(i)] = i % 7
				kvs = append(kvs, frozen.KV(el(i), -1))
			}
			for i := size - 1; i >= 0; i-- {
				kvs = append(kvs, frozen.KV(el(i), i%7))
			}
			for _, m := range []frozen.Map[E, int]{frozen.NewMapFromGoMap(gm), frozen.NewMap(kvs...)} {
				u.States++
				u.Trans += 6
				check := func(what string, m frozen.Map[E, int], in func(i int) bool) {
					n := 0
					for i := 0; i < size; i++ {
						v, has := m.Get(el(i))
						if has != in(i) || has && v != i%7 {
							u.Failf("%s: Get(%d) = %d, %v", what, i, v, has)
						}
						if has {
							n++
						}
					}
					k := 0
					for r := m.Range(); r.Next(); k++ {
						if !in(int(r.Key().ID)) || r.Value() != int(r.Key().ID)%7 {
							u.Failf("%s: Range yields %v: %d", what, r.Key(), r.Value())
						}
					}
					if m.Count() != n || k != n {
						u.Failf("%s: Count() = %d, %d entries, want %d", what, m.Count(), k, n)
					}
				}
				check("construction", m, func(i int) bool { return true })
				for mod := 1; mod < 5; mod++ {
					check("Where", m.Where(func(k E, _ int) bool { return int(k.ID)%mod == 0 }), func(i int) bool { return i%mod == 0 })
				}
				var keys []E
				for i := 0; i < size; i += 3 {
					keys = append(keys, el(i), el(i+size))
				}
				check("Project", m.Project(keys...), func(i int) bool { return i%3 == 0 })
				want := size
				if want > 7 {
					want = 7
				}
				if m.Keys().Count() != size || m.Values().Count() != want || len(frozen.MapToGoMap(m)) != size {
					u.Failf("Keys/Values/MapToGoMap have the wrong size")
				}
			}
		}
		u.Tick()
	}
}

// c11EQ: keys that define Equal, given in two forms each; all maps, all lists
// of up to 4 keys.
func c11EQ(u *Unit, s core.Shape) {
	un := core.UnivEQ(s)
	n := len(un.El)
	form := func(x int) EQ { e := un.El[x/2]; e.Tag += int32(x % 2); return e }
	var list []int
	var built []int
	what := ""
	u.Case(func() string {
		return fmt.Sprintf("%s: map of keys (form 0 of key i is 2i, form 1 is 2i+1) %v; %s of keys %v", un.Describe(), built, what, list)
	})
	is := func(m frozen.Map[EQ, int], want [3]int) {
		u.Trans++
		cnt := 0
		for x := 0; x < 2*n; x++ {
			v, has := m.Get(form(x))
			if has != (want[x/2] >= 0) || has && v != want[x/2] {
				u.Failf("Get(key %d, form %d) = %d, %v, want %v", x/2, x%2, v, has, want)
			}
			if x%2 == 0 && want[x/2] >= 0 {
				cnt++
			}
		}
		k := 0
		for r := m.Range(); r.Next(); k++ {
			if want[un.ID2(r.Key())] != r.Value() {
				u.Failf("Range yields %+v: %d, want %v", r.Key(), r.Value(), want)
			}
		}
		if m.Count() != cnt || k != cnt {
			u.Failf("Count() = %d, %d entries, want %d", m.Count(), k, cnt)
		}
	}
	var maps func(k int, m frozen.Map[EQ, int], c [3]int)
	maps = func(k int, m frozen.Map[EQ, int], c [3]int) {
		if k < n {
			maps(k+1, m, c)
			for f := 0; f < 2; f++ {
				d := c
				d[k] = 10*k + f
				built = append(built, 2*k+f)
				maps(k+1, m.With(form(2*k+f), d[k]), d)
				built = built[:len(built)-1]
			}
			return
		}
		u.States++
		what = "Where, NewMapFromKeys"
		for keep := 0; keep < 1<<uint(n); keep++ {
			d := c
			for i := range d {
				if keep>>uint(i)&1 == 0 {
					d[i] = -1
				}
			}
			is(m.Where(func(k EQ, _ int) bool { return keep>>uint(k.ID)&1 != 0 }), d)
		}
		is(frozen.NewMapFromKeys(m.Keys(), func(k EQ) int { return c[k.ID] }), c)
		is(frozen.MapMap(m, func(k EQ, v int) int { return v }), c)
		what = "Project"
		list = list[:0]
		var rec func(k int)
		rec = func(k int) {
			var ks []EQ
			d := [3]int{-1, -1, -1}
			for _, x := range list {
				ks = append(ks, form(x))
				d[x/2] = c[x/2]
			}
			is(m.Project(ks...), d)
			if k == 0 {
				return
			}
			for x := 0; x < 2*n; x++ {
				list = append(list, x)
				rec(k - 1)
				list = list[:len(list)-1]
			}
		}
		rec(4)
		u.Tick()
	}
	maps(0, frozen.Map[EQ, int]{}, [3]int{-1, -1, -1})
	// NewMap of lists of keys in both forms
	what = "NewMap (values are positions)"
	built, list = nil, nil
	var rec func(kvs []frozen.KeyValue[EQ, int], c [3]int)
	rec = func(kvs []frozen.KeyValue[EQ, int], c [3]int) {
		is(frozen.NewMap(kvs...), c)
		if len(kvs) == 4 {
			return
		}
		for x := 0; x < 2*n; x++ {
			d := c
			d[x/2] = len(kvs)
			list = append(list, x)
			rec(append(kvs[:len(kvs):len(kvs)], frozen.KV(form(x), len(kvs))), d)
			list = list[:len(list)-1]
		}
	}
	rec(nil, [3]int{-1, -1, -1})
}
