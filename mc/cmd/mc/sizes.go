package main

import (
	"fmt"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

// A sizePair says how many elements two operands have and share.
type sizePair struct{ n, m, common int }

// sizePairs lists all pairs of sizes up to top with several overlaps, then
// pairs of a small and a big size.
func sizePairs(top int, big []int) []sizePair {
	var out []sizePair
	add := func(n, m int) {
		last := -1
		for _, c := range []int{0, 1, min(n, m) / 2, min(n, m)} {
			if c <= last || c > min(n, m) {
				continue
			}
			last = c
			out = append(out, sizePair{n, m, c})
		}
	}
	for n := 0; n <= top; n++ {
		for m := 0; m <= top; m++ {
			add(n, m)
		}
	}
	for _, b := range big {
		for _, s := range []int{0, 1, 2, 3, 7, 8, 9, b / 64, b / 16, b / 8, b/4 + 1, b / 3, b/2 - 1, b/2 + 1, b - 1, b} {
			add(s, b)
			add(b, s)
		}
	}
	return out
}

// sizeHash are distributions of the hashes of numbered elements.
var sizeHash = []struct {
	name string
	h    func(i int) uint64
}{
	{"spread", func(i int) uint64 { return core.Mix(uint64(i)) }},
	{"pairs collide", func(i int) uint64 { return core.Mix(uint64(i / 2)) }},
	{"deep", func(i int) uint64 { return uint64(i) }},
}

// sizedOperands: the first operand has the elements below n, the second those
// from n-common on.
func (p sizePair) operands(h func(i int) uint64) (el func(i int) E, inA, inB func(i int) bool, total int) {
	el = func(i int) E { return E{ID: int32(i), H: h(i)} }
	inA = func(i int) bool { return i < p.n }
	inB = func(i int) bool { return i >= p.n-p.common && i < p.n-p.common+p.m }
	return el, inA, inB, p.n - p.common + p.m
}

// sizeUnits runs f on all pairs of sizes.
func sizeUnits(c *Ctx, prefix string, f func(u *Unit, p sizePair, h func(i int) uint64)) {
	top, big := 24, []int{64, 100, 257, 600}
	if c.Config != "default" {
		top, big = 12, []int{100, 300}
	}
	if c.Thorough() {
		top, big = 64, []int{64, 100, 257, 600, 1025, 3000, 9000}
	}
	ps := sizePairs(top, big)
	// groups of elements with the same hash are handled one by one
	top, big = 9, []int{64, 65, 66, 130}
	if c.Config != "default" {
		top, big = 5, []int{65}
	}
	if c.Thorough() {
		top, big = 24, []int{31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 200, 257}
	}
	colliding := sizePairs(top, big)
	const slices = 8
	run := func(name string, h func(i int) uint64, ps []sizePair) {
		for sl := 0; sl < slices; sl++ {
			c.Unit(fmt.Sprintf("%s/sizes/%s/%d", prefix, name, sl), func(u *Unit) {
				var p sizePair
				u.Case(func() string {
					return fmt.Sprintf("hashes %s: the first operand has %d elements, the second %d, %d of them in common", name, p.n, p.m, p.common)
				})
				for i := sl; i < len(ps); i += slices {
					p = ps[i]
					f(u, p, h)
					u.States += 2
					u.Tick()
				}
			})
		}
	}
	for _, sh := range sizeHash {
		run(sh.name, sh.h, ps)
	}
	run("all collide", func(int) uint64 { return core.Mix(1) }, colliding)
	run("three hashes", func(i int) uint64 { return core.Mix(uint64(i % 3)) }, colliding)
}

// setIs checks contents given by a predicate on the numbers below total.
func setIs(u *Unit, what string, s frozen.Set[E], el func(int) E, total int, in func(i int) bool) {
	u.Trans++
	k := 0
	for i := 0; i <= total; i++ {
		want := i < total && in(i)
		if s.Has(el(i)) != want {
			u.Failf("%s: Has(e%d) = %v", what, i, !want)
		}
		if want {
			k++
		}
	}
	if s.Count() != k || s.IsEmpty() != (k == 0) {
		u.Failf("%s: Count() = %d, IsEmpty() = %v, want %d", what, s.Count(), s.IsEmpty(), k)
	}
	for r := s.Range(); r.Next(); k-- {
		if i := int(r.Value().ID); i >= total || !in(i) {
			u.Failf("%s: Range yields e%d", what, i)
		}
	}
	if k != 0 {
		u.Failf("%s: Range yields %d elements too few", what, k)
	}
}

func mapIs(u *Unit, what string, m frozen.Map[E, int], el func(int) E, total int, val func(i int) (int, bool)) {
	u.Trans++
	k := 0
	for i := 0; i <= total; i++ {
		want, there := 0, false
		if i < total {
			want, there = val(i)
		}
		if v, has := m.Get(el(i)); has != there || has && v != want {
			u.Failf("%s: Get(e%d) = %d, %v, want %d, %v", what, i, v, has, want, there)
		}
		if there {
			k++
		}
	}
	if m.Count() != k || m.IsEmpty() != (k == 0) {
		u.Failf("%s: Count() = %d, want %d", what, m.Count(), k)
	}
	for r := m.Range(); r.Next(); k-- {
		i := int(r.Key().ID)
		if want, there := val(i); i >= total || !there || r.Value() != want {
			u.Failf("%s: Range yields e%d: %d", what, i, r.Value())
		}
	}
	if k != 0 {
		u.Failf("%s: Range yields %d entries too few", what, k)
	}
}

// sizedSets are the operands built in several ways: separately, one from the
// other, both from what they have in common, both from the union.
func sizedSets(u *Unit, p sizePair, h func(i int) uint64, f func(how string, a, b frozen.Set[E])) {
	el, inA, inB, total := p.operands(h)
	build := func(in func(int) bool) frozen.Set[E] {
		var b frozen.SetBuilder[E]
		for i := 0; i < total; i++ {
			if in(i) {
				b.Add(el(i))
			}
		}
		return b.Finish()
	}
	derive := func(s frozen.Set[E], has, in func(int) bool) frozen.Set[E] {
		for i := total - 1; i >= 0; i-- {
			if has(i) && !in(i) {
				s = s.Without(el(i))
			} else if !has(i) && in(i) {
				s = s.With(el(i))
			}
		}
		return s
	}
	either := func(i int) bool { return inA(i) || inB(i) }
	both := func(i int) bool { return inA(i) && inB(i) }
	a := build(inA)
	f("built separately", a, build(inB))
	f("the second made from the first", a, derive(a, inA, inB))
	c := build(both)
	f("made from the common part", derive(c, both, inA), derive(c, both, inB))
	c = build(either)
	f("made from the union", derive(c, either, inA), derive(c, either, inB))
}

func setSizes(u *Unit, p sizePair, h func(i int) uint64) {
	el, inA, inB, total := p.operands(h)
	sizedSets(u, p, h, func(how string, a, b frozen.Set[E]) {
		is := func(what string, s frozen.Set[E], in func(i int) bool) {
			setIs(u, how+": "+what, s, el, total, in)
		}
		or := func(i int) bool { return inA(i) || inB(i) }
		and := func(i int) bool { return inA(i) && inB(i) }
		is("a.Union(b)", a.Union(b), or)
		is("a.Intersection(b)", a.Intersection(b), and)
		is("a.Difference(b)", a.Difference(b), func(i int) bool { return inA(i) && !inB(i) })
		is("a.SymmetricDifference(b)", a.SymmetricDifference(b), func(i int) bool { return inA(i) != inB(i) })
		is("frozen.Union(a, b, a)", frozen.Union(a, b, a), or)
		is("frozen.Intersection(a, b, a)", frozen.Intersection(a, b, a), and)
		is("a", a, inA)
		is("b", b, inB)
	})
}

// setSizesEqual: comparisons of the operands, and of the first with sets of the
// same size that differ from it in one element.
func setSizesEqual(u *Unit, p sizePair, h func(i int) uint64) {
	el, inA, inB, total := p.operands(h)
	or := func(i int) bool { return inA(i) || inB(i) }
	inc := func(x, y func(int) bool) bool {
		for i := 0; i < total; i++ {
			if x(i) && !y(i) {
				return false
			}
		}
		return true
	}
	type named struct {
		name string
		s    frozen.Set[E]
		in   func(int) bool
	}
	sizedSets(u, p, h, func(how string, a, b frozen.Set[E]) {
		vs := []named{
			{"a", a, inA}, {"b", b, inB}, {"a.Union(b)", a.Union(b), or},
			{"a.Intersection(b)", a.Intersection(b), func(i int) bool { return inA(i) && inB(i) }},
			{"a.Difference(b)", a.Difference(b), func(i int) bool { return inA(i) && !inB(i) }},
		}
		if p.n > 0 && p.common < p.m { // one element of a exchanged for one of b
			last := total - 1
			for _, k := range []int{0, p.n / 2, p.n - 1} {
				vs = append(vs, named{
					fmt.Sprintf("a.Without(e%d).With(e%d)", k, last), a.Without(el(k)).With(el(last)),
					func(i int) bool { return inA(i) && i != k || i == last },
				})
			}
		}
		for i := range vs {
			for j := range vs {
				x, y := &vs[i], &vs[j]
				sub := inc(x.in, y.in)
				eq := sub && inc(y.in, x.in)
				u.Trans += 3
				if got := x.s.Equal(y.s); got != eq {
					u.Failf("%s: (%s).Equal(%s) = %v", how, x.name, y.name, got)
				}
				if got := x.s.Same(y.s); got != eq {
					u.Failf("%s: (%s).Same(%s) = %v", how, x.name, y.name, got)
				}
				if got := x.s.IsSubsetOf(y.s); got != sub {
					u.Failf("%s: (%s).IsSubsetOf(%s) = %v", how, x.name, y.name, got)
				}
			}
		}
	})
}

// setSizesHash: operands of the same contents have the same hash however they
// were built, and serve as the same element and key.
func setSizesHash(u *Unit, p sizePair, h func(i int) uint64) {
	var as, bs []frozen.Set[E]
	sizedSets(u, p, h, func(how string, a, b frozen.Set[E]) {
		as, bs = append(as, a), append(bs, b)
		or := a.Union(b)
		for _, seed := range []uintptr{0, 1, ^uintptr(0)} {
			u.Trans += 2
			if as[0].Hash(seed) != a.Hash(seed) || bs[0].Hash(seed) != b.Hash(seed) {
				u.Failf("%s: the hash for seed %#x differs from that of the operands built separately", how, seed)
			}
			if b.Union(a).Hash(seed) != or.Hash(seed) {
				u.Failf("%s: the hashes of a.Union(b) and b.Union(a) for seed %#x differ", how, seed)
			}
		}
	})
	n := 2
	if p.n == p.m && p.common == p.n {
		n = 1
	}
	if s := frozen.NewSet(append(as, bs...)...); s.Count() != n {
		u.Failf("NewSet of the operands, each built in %d ways, has %d elements", len(as), s.Count())
	}
	var m frozen.Map[frozen.Set[E], int]
	for i := range as {
		m = m.With(as[i], i).With(bs[i], i)
	}
	if m.Count() != n {
		u.Failf("a map with the operands as keys, each built in %d ways, has %d keys", len(as), m.Count())
	}
	u.Trans += 2
}

// sizedMaps is sizedSets for maps with values va and vb.
func sizedMaps[V any](p sizePair, h func(i int) uint64, va, vb func(i int) V, f func(how string, a, b frozen.Map[E, V])) {
	el, inA, inB, total := p.operands(h)
	build := func(in func(int) bool, v func(int) V) frozen.Map[E, V] {
		var b frozen.MapBuilder[E, V]
		for i := 0; i < total; i++ {
			if in(i) {
				b.Put(el(i), v(i))
			}
		}
		return b.Finish()
	}
	// the entries of what the map does not have in common with the other stay
	derive := func(m frozen.Map[E, V], has, in func(int) bool, v func(int) V) frozen.Map[E, V] {
		for i := total - 1; i >= 0; i-- {
			if has(i) && !in(i) {
				m = m.Without(el(i))
			} else if in(i) {
				m = m.With(el(i), v(i))
			}
		}
		return m
	}
	both := func(i int) bool { return inA(i) && inB(i) }
	a := build(inA, va)
	f("built separately", a, build(inB, vb))
	f("the second made from the first", a, derive(a, inA, inB, vb))
	c := build(both, va)
	f("made from the common part", derive(c, both, inA, va), derive(c, both, inB, vb))
}

func mapSizes(u *Unit, p sizePair, h func(i int) uint64) {
	el, inA, inB, total := p.operands(h)
	va := func(i int) int { return i + 1 }
	for _, vb := range []func(i int) int{func(i int) int { return -i }, func(i int) int { return i + 1 + i%2 }} {
		sizedMaps(p, h, va, vb, func(how string, m, n frozen.Map[E, int]) {
			mapIs(u, how+": m.Update(n)", m.Update(n), el, total, func(i int) (int, bool) {
				if inB(i) {
					return vb(i), true
				}
				return va(i), inA(i)
			})
			mapIs(u, how+": m.Merge(n, (k, x, y) -> 3x+y+k)", m.Merge(n, func(k E, x, y int) int { return 3*x + y + int(k.ID) }), el, total, func(i int) (int, bool) {
				switch {
				case inA(i) && inB(i):
					return 3*va(i) + vb(i) + i, true
				case inA(i):
					return va(i), true
				}
				return vb(i), inB(i)
			})
			mapIs(u, how+": m", m, el, total, func(i int) (int, bool) { return va(i), inA(i) })
			mapIs(u, how+": n", n, el, total, func(i int) (int, bool) { return vb(i), inB(i) })
		})
	}
}

// mapSizesEqual compares maps of numbered entries with each other and with maps
// that differ in one key, one value or one entry. form(i, r) is the i-th value
// in another form that is equal to it for every r, or for r = 0 only if the
// type has just one.
func mapSizesEqual[V any](form func(i, r int) V) func(u *Unit, p sizePair, h func(i int) uint64) {
	return func(u *Unit, p sizePair, h func(i int) uint64) {
		el, inA, inB, total := p.operands(h)
		type named struct {
			name string
			m    frozen.Map[E, V]
			val  func(i int) int // 1 + number of the value
		}
		id := func(in func(int) bool) func(int) int {
			return func(i int) int {
				if in(i) {
					return i + 1
				}
				return 0
			}
		}
		va, vb := func(i int) V { return form(i, 0) }, func(i int) V { return form(i, 1) }
		sizedMaps(p, h, va, vb, func(how string, a, b frozen.Map[E, V]) {
			vs := []named{
				{"a", a, id(inA)}, {"b", b, id(inB)},
				{"a.Update(b)", a.Update(b), id(func(i int) bool { return inA(i) || inB(i) })},
				{"b.Update(a)", b.Update(a), id(func(i int) bool { return inA(i) || inB(i) })},
			}
			if p.n > 0 {
				for _, k := range []int{0, p.n / 2, p.n - 1} {
					vs = append(vs, named{
						fmt.Sprintf("a with another value for e%d", k), a.With(el(k), form(total+7, 0)),
						func(i int) int {
							if i == k {
								return total + 8
							}
							return id(inA)(i)
						},
					}, named{
						fmt.Sprintf("a without e%d, with e%d", k, total), a.Without(el(k)).With(el(total), form(k, 1)),
						func(i int) int {
							switch i {
							case k:
								return 0
							case total:
								return k + 1
							}
							return id(inA)(i)
						},
					})
				}
			}
			for i := range vs {
				for j := range vs {
					x, y := &vs[i], &vs[j]
					eq := true
					for k := 0; k <= total && eq; k++ {
						eq = x.val(k) == y.val(k)
					}
					u.Trans += 2
					if got := x.m.Equal(y.m); got != eq {
						u.Failf("%s: (%s).Equal(%s) = %v", how, x.name, y.name, got)
					}
					if got := x.m.Same(y.m); got != eq {
						u.Failf("%s: (%s).Same(%s) = %v", how, x.name, y.name, got)
					}
				}
			}
		})
	}
}

// narySizes checks frozen.Union and frozen.Intersection of every number of
// operands.
func narySizes(c *Ctx, prefix string, f func(u *Unit, how string, sets []frozen.Set[E], el func(int) E, total int, or, and func(i int) bool)) {
	top := 70
	if c.Thorough() {
		top = 300
	}
	families := []struct {
		name string
		in   func(k, n, i int) bool // is i in the k-th of n operands
	}{
		{"{k}", func(k, n, i int) bool { return i == k }},
		{"{k, k+1}", func(k, n, i int) bool { return i == k || i == k+1 }},
		{"{k} and every third empty", func(k, n, i int) bool { return k%3 != 1 && i == k }},
		{"all but k", func(k, n, i int) bool { return i != k }},
		{"all but k, k+1", func(k, n, i int) bool { return i != k && i != k+1 }},
		{"everything above k", func(k, n, i int) bool { return i > k }},
		{"everything below k", func(k, n, i int) bool { return i < k }},
		{"the same", func(k, n, i int) bool { return i%2 == 0 }},
		{"the last big", func(k, n, i int) bool { return k == n-1 || i == k }},
		{"the first big", func(k, n, i int) bool { return k == 0 || i == k }},
		{"the last one empty", func(k, n, i int) bool { return k < n-1 && (i <= 3 || i == k) }},
	}
	for _, sh := range sizeHash {
		c.Unit(fmt.Sprintf("%s/nary/%s", prefix, sh.name), func(u *Unit) {
			how, n := "", 0
			u.Case(func() string {
				return fmt.Sprintf("hashes %s: %d sets, the k-th of them (k = 0, ...) of the elements below %d: %s", sh.name, n, n+2, how)
			})
			for n = 0; n <= top; n++ {
				u.Tick()
				total := n + 2
				el := func(i int) E { return E{ID: int32(i), H: sh.h(i)} }
				for _, fam := range families {
					how = fam.name
					sets := make([]frozen.Set[E], n, n+3)
					or := make([]bool, total)
					and := make([]bool, total)
					for i := range and {
						and[i] = n > 0
					}
					for k := range sets {
						var b frozen.SetBuilder[E]
						for i := 0; i < total; i++ {
							if fam.in(k, n, i) {
								b.Add(el(i))
								or[i] = true
							} else {
								and[i] = false
							}
						}
						sets[k] = b.Finish()
					}
					f(u, how, sets, el, total, func(i int) bool { return or[i] }, func(i int) bool { return and[i] })
					u.States += int64(n)
				}
			}
			u.Sample("every number of operands up to %d, %d families of operands", top, len(families))
		})
	}
}

func naryOps(u *Unit, _ string, sets []frozen.Set[E], el func(int) E, total int, or, and func(i int) bool) {
	setIs(u, "frozen.Union", frozen.Union(sets...), el, total, or)
	if len(sets) > 0 {
		setIs(u, "frozen.Intersection", frozen.Intersection(sets...), el, total, and)
	}
}
