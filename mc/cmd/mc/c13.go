//go:build !sel || c13

package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() { checks["C13"] = c13 }

// R is an element for reductions: a reduction adds up Cnt, in which every
// element owns 8 bits, so that the result tells how often each was combined.
type R struct {
	ID  int32
	H   uint64
	Cnt uint64
}

func (r R) Hash(seed uintptr) uintptr { return uintptr(r.H) ^ seed }

func (r R) Equal(s R) bool { return r.ID == s.ID && r.Cnt == s.Cnt }

func c13(c *Ctx) {
	g := geom(c)
	for n := 1; n <= 5; n++ {
		ls := lcps(g, c.Thorough() || n <= 3)
		if n == 5 {
			ls = []int{0, 1, g.Max}
			if c.Thorough() {
				ls = lcps(g, false)
			}
		}
		for _, s := range core.EnumShapes(n, ls, g) {
			s := s
			n := n
			c.Unit("C13/"+s.Name, func(u *Unit) {
				o := core.SpaceOpts{NewSets: n <= 4, Where: n <= 4, Binary: n <= 4, MaxBinary: 20}
				sp := core.NewSetSpace(core.UnivE(s), u, o)
				lim := 200
				if n >= 4 && !c.Thorough() {
					lim = 40
				}
				sel := sp.Select(lim)
				c13Where(u, sp, sel, n <= 4)
				c13Map(u, sp, sel, n, g, c.Thorough())
				c13Reduce(u, sp, s)
				c13Group(u, sp, sel, n, g)
				c13Misc(u, sp, sel)
				sp.ReplayAll()
				sampleSpace(u, sp)
			})
		}
	}
	c.Unit("C13/iota", c13Iota)
	c.Unit("C13/mask64", c13Mask)
	c.Unit("C13/powerset", func(u *Unit) { c13Power(u, g, c.Thorough()) })
	c.Unit("C13/sizes", func(u *Unit) { c13Sizes(u, g) })
}

func c13Where(u *Unit, sp *core.SetSpace[E], sel []int32, follow bool) {
	n := uint(len(sp.U.El))
	var i int32
	var p uint32
	what := ""
	u.Case(func() string {
		return fmt.Sprintf("%s\ns = %s, predicate true for %s: %s", sp.U.Describe(), sp.Expr(i), core.MaskString(p), what)
	})
	obs := func(w string, s frozen.Set[E], m uint32) {
		u.Trans++
		what = w
		if d := core.ObserveSet(sp.U, s, m); d != "" {
			u.Failf("%s: %s; want %s", w, d, core.MaskString(m))
		}
	}
	for _, i = range sel {
		st := &sp.States[i]
		u.Tick()
		for p = 0; p < 1<<n; p++ {
			what = "s.Where(p)"
			w := st.Set.Where(func(e E) bool { return p>>uint(e.ID)&1 != 0 })
			m := st.Mask & p
			obs("s.Where(p)", w, m)
			if !follow {
				continue
			}
			what = "comparison with s"
			if w.Equal(st.Set) != (m == st.Mask) || !w.IsSubsetOf(st.Set) || st.Set.IsSubsetOf(w) != (m == st.Mask) {
				u.Failf("s.Where(p) compares wrongly with s")
			}
			obs("s.Where(p).Union(s)", w.Union(st.Set), st.Mask)
			obs("s.Difference(s.Where(p))", st.Set.Difference(w), st.Mask&^m)
			for e := range sp.U.El {
				obs("s.Where(p).With", w.With(sp.U.El[e]), m|1<<uint(e))
				obs("s.Where(p).Without", w.Without(sp.U.El[e]), m&^(1<<uint(e)))
			}
		}
	}
}

// functions calls f with every function from n numbers to m numbers.
func functions(n, m int, f func([]int)) {
	a := make([]int, n)
	var rec func(k int)
	rec = func(k int) {
		if k == n {
			f(a)
			return
		}
		for v := 0; v < m; v++ {
			a[k] = v
			rec(k + 1)
		}
	}
	rec(0)
}

func c13Map(u *Unit, sp *core.SetSpace[E], sel []int32, n int, g core.HashGeom, thorough bool) {
	targets := []core.Univ[E]{sp.U, core.UnivE(wideShape(n, g))}
	if n >= 2 {
		all := core.EnumShapes(n, []int{g.Max}, g)
		targets = append(targets, core.UnivE(all[0]))
		if n >= 3 && n < 5 {
			shapes := core.EnumShapes(n, []int{0, 1, g.Max - 1, g.Max}, g)
			targets = append(targets, core.UnivE(shapes[len(shapes)/2]))
		}
	}
	if n == 5 {
		targets = targets[:2]
	}
	if n >= 4 && !thorough {
		// one representation per content, all of the full set
		var s2 []int32
		full := uint32(1)<<uint(n) - 1
		for m := uint32(0); m <= full; m++ {
			if l := sp.ByMask[m]; len(l) > 0 && (n < 5 || bitsOf(m) >= 4) {
				s2 = append(s2, l[len(l)-1])
			}
		}
		sel = s2
	}
	var i int32
	var fn []int
	var t core.Univ[E]
	u.Case(func() string {
		return fmt.Sprintf("%s\nSetMap(%s, e(i) -> f[i] of %s), f = %v", sp.U.Describe(), sp.Expr(i), t.Describe(), fn)
	})
	m := n
	if n == 5 {
		m = 3
	}
	for _, t = range targets {
		functions(n, m, func(a []int) {
			fn = a
			u.Tick()
			for _, i = range sel {
				st := &sp.States[i]
				var img uint32
				for k := range a {
					if st.Mask>>uint(k)&1 != 0 {
						img |= 1 << uint(a[k])
					}
				}
				u.Trans += 2
				r := frozen.SetMap(st.Set, func(e E) E { return t.El[a[e.ID]] })
				if d := core.ObserveSet(t, r, img); d != "" {
					u.Failf("%s; want %s", d, core.MaskString(img))
				}
				ri := frozen.SetMap(st.Set, func(e E) int { return a[e.ID] })
				if ri.Count() != bitsOf(img) {
					u.Failf("mapped to ints: %v, want %b", ri, img)
				}
				for x := 0; x < n; x++ {
					if ri.Has(x) != (img>>uint(x)&1 != 0) {
						u.Failf("mapped to ints: %v, want %b", ri, img)
					}
				}
			}
		})
	}
}

func c13Reduce(u *Unit, sp *core.SetSpace[E], s core.Shape) {
	// the same space over R elements: rebuild each representation
	n := len(s.H)
	el := func(e E) R { return R{ID: e.ID, H: e.H, Cnt: 1 << uint(8*e.ID)} }
	var i int32
	u.Case(func() string { return fmt.Sprintf("%s\nreduction of %s", sp.U.Describe(), sp.Expr(i)) })
	conv := map[int32]frozen.Set[R]{}
	var build func(i int32) frozen.Set[R]
	build = func(i int32) frozen.Set[R] {
		if x, has := conv[i]; has {
			return x
		}
		p := sp.States[i].Prov
		var args []R
		for _, a := range p.Arg {
			args = append(args, el(sp.U.El[a]))
		}
		var x frozen.Set[R]
		switch p.Op {
		case "NewSet":
			x = frozen.NewSet(args...)
		case "With":
			x = build(p.A).With(args[0])
		case "Without":
			x = build(p.A).Without(args[0])
		case "Where":
			x = build(p.A).Where(func(r R) bool {
				for _, a := range p.Arg {
					if int(r.ID) == a {
						return true
					}
				}
				return false
			})
		case "Union":
			x = build(p.A).Union(build(p.B))
		case "Intersection":
			x = build(p.A).Intersection(build(p.B))
		case "Difference":
			x = build(p.A).Difference(build(p.B))
		}
		conv[i] = x
		return x
	}
	for i = 0; int(i) < len(sp.States); i++ {
		x := build(i)
		var want uint64
		for k := 0; k < n; k++ {
			if sp.States[i].Mask>>uint(k)&1 != 0 {
				want += 1 << uint(8*k)
			}
		}
		check := func(what string, r R, ok bool) {
			u.Trans++
			if ok != (want != 0) {
				u.Failf("%s reports %v", what, ok)
			}
			if r.Cnt != want {
				u.Failf("%s combined the elements these numbers of times (hex digits, e0 last): %x, want %x", what, r.Cnt, want)
			}
		}
		r, ok := x.Reduce(func(els ...R) R {
			if len(els) == 0 {
				return R{Cnt: 0x8080808080808080}
			}
			a := R{ID: -1, H: els[0].H}
			for _, e := range els {
				a.Cnt += e.Cnt
			}
			return a
		})
		check("Reduce", r, ok)
		r, ok = x.Reduce2(func(a, b R) R { return R{ID: -1, H: b.H, Cnt: a.Cnt + b.Cnt} })
		check("Reduce2", r, ok)
	}
	u.Tick()
}

func c13Group(u *Unit, sp *core.SetSpace[E], sel []int32, n int, g core.HashGeom) {
	m := n
	if n >= 4 {
		m = 3
		if n == 5 {
			m = 2
		}
	}
	var keyU core.Univ[E]
	var i int32
	var fn []int
	u.Case(func() string {
		return fmt.Sprintf("%s\nSetGroupBy(%s, e(i) -> f[i] of %s), f = %v", sp.U.Describe(), sp.Expr(i), keyU.Describe(), fn)
	})
	for _, keyU = range []core.Univ[E]{sp.U, core.UnivE(wideShape(n, g))} {
		functions(n, m, func(a []int) {
			fn = a
			u.Tick()
			for _, i = range sel {
				st := &sp.States[i]
				u.Trans++
				gr := frozen.SetGroupBy(st.Set, func(e E) E { return keyU.El[a[e.ID]] })
				cnt := 0
				for k := 0; k < m; k++ {
					var want uint32
					for x := range a {
						if a[x] == k && st.Mask>>uint(x)&1 != 0 {
							want |= 1 << uint(x)
						}
					}
					v, has := gr.Get(keyU.El[k])
					if has != (want != 0) {
						u.Failf("the group of key e%d: present = %v, want %s", k, has, core.MaskString(want))
					}
					if has {
						cnt++
						if d := core.ObserveSet(sp.U, v, want); d != "" {
							u.Failf("the group of key e%d: %s; want %s", k, d, core.MaskString(want))
						}
					}
				}
				if gr.Count() != cnt {
					u.Failf("%d groups, want %d", gr.Count(), cnt)
				}
			}
		})
	}
}

func c13Misc(u *Unit, sp *core.SetSpace[E], sel []int32) {
	n := len(sp.U.El)
	var i int32
	what := ""
	u.Case(func() string { return fmt.Sprintf("%s\ns = %s: %s", sp.U.Describe(), sp.Expr(i), what) })
	for _, i = range sel {
		st := &sp.States[i]
		size := bitsOf(st.Mask)
		u.Tick()
		for k := 0; k <= n+2; k++ {
			what = fmt.Sprintf("s.AnyN(%d)", k)
			u.Trans++
			x := st.Set.AnyN(k)
			want := k
			if want > size {
				want = size
			}
			var m uint32
			for r := x.Range(); r.Next(); {
				m |= 1 << uint(r.Value().ID)
			}
			if m&^st.Mask != 0 || bitsOf(m) != want {
				u.Failf("AnyN yields %s", core.MaskString(m))
			}
			if d := core.ObserveSet(sp.U, x, m); d != "" {
				u.Failf("%s", d)
			}
		}
		what = "SetAs, AsSetAny"
		u.Trans += 3
		anyU := core.Univ[any]{Name: "any", ID: func(v any) int {
			if e, is := v.(E); is {
				return int(e.ID)
			}
			return 99
		}}
		for _, e := range sp.U.El {
			anyU.El = append(anyU.El, e)
		}
		a, b := frozen.SetAs[any](st.Set), st.Set.AsSetAny()
		if d := core.ObserveSet(anyU, a, st.Mask); d != "" {
			u.Failf("SetAs[any]: %s", d)
		}
		if d := core.ObserveSet(anyU, b, st.Mask); d != "" {
			u.Failf("AsSetAny: %s", d)
		}
		if d := core.ObserveSet(sp.U, frozen.SetAs[E](a), st.Mask); d != "" {
			u.Failf("SetAs[E](SetAs[any]): %s", d)
		}
		what = "Powerset(s)"
		u.Trans++
		ps := frozen.Powerset(st.Set)
		seen := map[uint32]bool{}
		for r := ps.Range(); r.Next(); {
			var m uint32
			for q := r.Value().Range(); q.Next(); {
				m |= 1 << uint(q.Value().ID)
			}
			if d := core.ObserveSet(sp.U, r.Value(), m); d != "" {
				u.Failf("a subset: %s", d)
			}
			if seen[m] || m&^st.Mask != 0 {
				u.Failf("yields %s twice, or it is no subset", core.MaskString(m))
			}
			seen[m] = true
		}
		if len(seen) != 1<<uint(size) || ps.Count() != 1<<uint(size) {
			u.Failf("%d subsets, Count() = %d", len(seen), ps.Count())
		}
		for m := uint32(0); m < 1<<uint(n); m++ {
			l := sp.ByMask[m]
			if len(l) > 0 && ps.Has(sp.States[l[len(l)-1]].Set) != (m&^st.Mask == 0) {
				u.Failf("Has(%s) = %v", core.MaskString(m), m&^st.Mask != 0)
			}
		}
	}
}

type myInt int

func c13Iota(u *Unit) {
	var a, b, c int
	u.Case(func() string { return fmt.Sprintf("Iota3(%d, %d, %d)", a, b, c) })
	check := func(s frozen.Set[int], want []int) {
		u.Trans++
		if s.Count() != len(want) {
			u.Failf("Count() = %d, want %d", s.Count(), len(want))
		}
		for _, w := range want {
			if !s.Has(w) {
				u.Failf("%d is missing", w)
			}
		}
		got := s.Elements()
		sort.Ints(got)
		if len(got) != len(want) {
			u.Failf("elements %v, want %v", got, want)
		}
	}
	one := func() {
		if c == 0 {
			r := u.Panics(func() {
				u.Check(a == b && frozen.Iota3(a, b, 0).IsEmpty() || a != b && frozen.Iota3(a, b, 0).IsEmpty() && false, "the result is not empty")
			})
			u.Check((r != nil) == (a != b), "panics: %v", r)
			return
		}
		var want []int
		if c > 0 {
			for i := a; i < b; {
				want = append(want, i)
				if i > math.MaxInt-c {
					break
				}
				i += c
			}
		} else {
			for i := a; i > b; {
				want = append(want, i)
				if i < math.MinInt-c {
					break
				}
				i += c
			}
		}
		check(frozen.Iota3(a, b, c), want)
		if c == 1 {
			check(frozen.Iota2(a, b), want)
			if a == 0 {
				check(frozen.Iota(b), want)
			}
		}
		m := frozen.Iota3(myInt(a), myInt(b), myInt(c))
		u.Trans++
		u.Check(m.Count() == len(want), "of another int type: Count() = %d, want %d", m.Count(), len(want))
		for _, w := range want {
			u.Check(m.Has(myInt(w)), "of another int type: %d is missing", w)
		}
	}
	for a = -6; a <= 6; a++ {
		for b = -6; b <= 6; b++ {
			for c = -7; c <= 7; c++ {
				one()
			}
		}
		u.Tick()
	}
	// near the ends of the range
	for da := 0; da <= 5; da++ {
		for db := 0; db <= 5; db++ {
			for c = 1; c <= 7; c++ {
				a, b = math.MaxInt-da, math.MaxInt-db
				one()
				a, b, c = math.MinInt+da, math.MinInt+db, -c
				one()
				c = -c
			}
		}
	}
	for _, c = range []int{math.MaxInt, math.MaxInt - 1, math.MaxInt/2 + 1, math.MinInt, math.MinInt + 1, math.MinInt / 2} {
		for _, a = range []int{math.MinInt, -1, 0, 1, math.MaxInt} {
			for _, b = range []int{math.MinInt, -1, 0, 1, math.MaxInt} {
				one()
			}
		}
		u.Tick()
	}
	a, b, c = 0, 5000, 1
	one()
	u.Sample("Iota3 over all start, stop in [-6,6], step in [-7,7]; 5 values at either end of the int range")
}

func c13Mask(u *Unit) {
	var m uint64
	u.Case(func() string { return fmt.Sprintf("NewSetFromMask64(%#x)", m) })
	check := func() {
		u.Trans++
		s := frozen.NewSetFromMask64(m)
		n := 0
		for i := -1; i <= 64; i++ {
			want := i >= 0 && i < 64 && m>>uint(i)&1 != 0
			if s.Has(i) != want {
				u.Failf("Has(%d) = %v", i, !want)
			}
			if want {
				n++
			}
		}
		k := 0
		for r := s.Range(); r.Next(); k++ {
			if r.Value() < 0 || r.Value() > 63 || m>>uint(r.Value())&1 == 0 {
				u.Failf("Range yields %d", r.Value())
			}
		}
		if s.Count() != n || k != n {
			u.Failf("Count() = %d, %d elements, want %d", s.Count(), k, n)
		}
		if n%16 == 0 {
			u.Tick()
		}
	}
	for m = 0; m < 1024; m++ {
		check()
	}
	for i := 0; i < 64; i++ {
		for j := 0; j <= i; j++ {
			for k := 0; k <= j; k += 9 {
				m = 1<<uint(i) | 1<<uint(j) | 1<<uint(k)
				check()
			}
			m = ^(uint64(1)<<uint(i) | 1<<uint(j))
			check()
			m = 1<<uint(i) - 1<<uint(j)
			check()
		}
		u.Tick()
	}
	m = ^uint64(0)
	check()
}

func c13Power(u *Unit, g core.HashGeom, thorough bool) {
	max := 9
	if thorough {
		max = 13
	}
	for n := 0; n <= max; n++ {
		s := frozen.Iota(n)
		u.Case(func() string { return fmt.Sprintf("Powerset(Iota(%d))", n) })
		ps := frozen.Powerset(s)
		u.Trans++
		seen := map[uint32]bool{}
		for r := ps.Range(); r.Next(); {
			var m uint32
			k := 0
			for q := r.Value().Range(); q.Next(); k++ {
				m |= 1 << uint(q.Value())
			}
			if k != bitsOf(m) || r.Value().Count() != k || m>>uint(n) != 0 || seen[m] {
				u.Failf("bad or repeated subset %v", r.Value())
			}
			seen[m] = true
		}
		if len(seen) != 1<<uint(n) || ps.Count() != 1<<uint(n) {
			u.Failf("%d subsets, Count() = %d", len(seen), ps.Count())
		}
		u.Tick()
	}
}

// c13Sizes: all operations at all sizes up to 300.
func c13Sizes(u *Unit, g core.HashGeom) {
	for how := 0; how < 3; how++ {
		s := frozen.Set[R]{}
		el := func(i int) R {
			h := core.Mix(uint64(i))
			switch how {
			case 1:
				h = uint64(i/6) << 44
			case 2:
				h = uint64(i % 7)
			}
			return R{ID: int32(i), H: h}
		}
		lim := 300
		if how == 2 {
			lim = 60
		}
		for n := 0; n <= lim; n++ {
			n, how := n, how
			u.Case(func() string { return fmt.Sprintf("%d elements, hashes %d", n, how) })
			u.States++
			u.Trans += 8
			sum, k := 0, 0
			r, ok := frozen.SetMap(s, func(r R) R { return R{ID: r.ID, H: r.H, Cnt: 1<<32 | uint64(r.ID)} }).Reduce(func(rs ...R) R {
				a := R{}
				for _, r := range rs {
					a.Cnt += r.Cnt
				}
				return a
			})
			for i := 0; i < n; i++ {
				sum += i
			}
			u.Check(ok == (n > 0) && r.Cnt == uint64(n)<<32+uint64(sum), "Reduce combined %d elements with sum %d", r.Cnt>>32, r.Cnt&(1<<32-1))
			for mod := 1; mod <= 4; mod++ {
				w := s.Where(func(r R) bool { return int(r.ID)%mod == 0 })
				u.Check(w.Count() == (n+mod-1)/mod, "Where(mod %d == 0) has Count %d", mod, w.Count())
				k = 0
				for it := w.Range(); it.Next(); k++ {
					u.Check(int(it.Value().ID)%mod == 0, "Where keeps %d", it.Value().ID)
				}
				u.Check(k == w.Count(), "Where yields %d elements", k)
			}
			for d := 1; d <= 3; d++ {
				m := frozen.SetMap(s, func(r R) R { return el(int(r.ID) / d) })
				u.Check(m.Count() == (n+d-1)/d, "SetMap(x/%d) has Count %d", d, m.Count())
				k = 0
				for it := m.Range(); it.Next(); k++ {
				}
				u.Check(k == m.Count(), "SetMap(x/%d) yields %d elements", d, k)
				gr := frozen.SetGroupBy(s, func(r R) int { return int(r.ID) / d })
				u.Check(gr.Count() == (n+d-1)/d, "SetGroupBy(x/%d) has %d groups", d, gr.Count())
				for it := gr.Range(); it.Next(); {
					want := d
					if it.Key()*d+d > n {
						want = n - it.Key()*d
					}
					u.Check(it.Value().Count() == want, "group %d has %d elements", it.Key(), it.Value().Count())
				}
			}
			for _, a := range []int{0, 1, n / 2, n - 1, n, n + 1} {
				if a >= 0 {
					want := a
					if a > n {
						want = n
					}
					x := s.AnyN(a)
					u.Check(x.Count() == want && x.IsSubsetOf(s), "AnyN(%d) has Count %d", a, x.Count())
				}
			}
			s = s.With(el(n))
			u.Tick()
		}
	}
}
