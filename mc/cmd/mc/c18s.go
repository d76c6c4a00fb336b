//go:build !sel || c18 || c19 || c20 || c21

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
)

// lsize is an expression over operands of given sizes.
type lsize struct {
	name string
	mk   func() lazy.Set
	in   func(i int) bool
}

// lazySized lists expressions over two operands of the given sizes.
func lazySized(p sizePair, h func(i int) uint64) (el func(i int) E, total int, out []lsize) {
	el, inA, inB, total := p.operands(h)
	frz := func(in func(i int) bool) frozen.Set[any] {
		var b frozen.SetBuilder[any]
		for i := 0; i < total; i++ {
			if in(i) {
				b.Add(el(i))
			}
		}
		return b.Finish()
	}
	fa, fb := frz(inA), frz(inB)
	a, b := func() lazy.Set { return lazy.Frozen(fa) }, func() lazy.Set { return lazy.Frozen(fb) }
	// operands that are not eager: a filter and a map without effect
	wa := func() lazy.Set { return lazy.Frozen(fa).Where(func(any) bool { return true }) }
	mb := func() lazy.Set { return lazy.Frozen(fb).Map(func(v any) any { return v }) }
	for _, ops := range []struct {
		name string
		x, y func() lazy.Set
	}{{"a, b", a, b}, {"where(a), map(b)", wa, mb}} {
		x, y := ops.x, ops.y
		out = append(out,
			lsize{ops.name + ": union", func() lazy.Set { return x().Union(y()) }, func(i int) bool { return inA(i) || inB(i) }},
			lsize{ops.name + ": intersection", func() lazy.Set { return x().Intersection(y()) }, func(i int) bool { return inA(i) && inB(i) }},
			lsize{ops.name + ": difference", func() lazy.Set { return x().Difference(y()) }, func(i int) bool { return inA(i) && !inB(i) }},
			lsize{ops.name + ": symmetric difference", func() lazy.Set { return x().SymmetricDifference(y()) }, func(i int) bool { return inA(i) != inB(i) }},
		)
	}
	return el, total, append(out,
		lsize{"a with the first of b", func() lazy.Set { return a().With(el(p.n - p.common)) }, func(i int) bool { return inA(i) || i == p.n-p.common }},
		lsize{"where(a) without the first of b", func() lazy.Set { return wa().Without(el(p.n - p.common)) }, func(i int) bool { return inA(i) && i != p.n-p.common }},
		lsize{"where(a, in b)", func() lazy.Set { return a().Where(func(v any) bool { return inB(int(v.(E).ID)) }) }, func(i int) bool { return inA(i) && inB(i) }},
	)
}

// lazySizeUnits runs f on all expressions over operands of all pairs of sizes.
func lazySizeUnits(c *Ctx, prop string, f func(u *Unit, e *lsize, el func(i int) E, total int, eager lazy.Set)) {
	top, big := 7, []int{40, 130}
	if c.Thorough() {
		top, big = 20, []int{40, 130, 300, 700}
	}
	ps := sizePairs(top, big)
	const slices = 8
	for _, sh := range sizeHash[:2] {
		for sl := 0; sl < slices; sl++ {
			c.Unit(fmt.Sprintf("%s/sizes/%s/%d", prop, sh.name, sl), func(u *Unit) {
				var p sizePair
				var e *lsize
				u.Case(func() string {
					return fmt.Sprintf("hashes %s: a has %d elements, b %d, %d of them in common: %s", sh.name, p.n, p.m, p.common, e.name)
				})
				for i := sl; i < len(ps); i += slices {
					p = ps[i]
					el, total, es := lazySized(p, sh.h)
					for k := range es {
						e = &es[k]
						if p.n == 0 && e.name == "where(a) without the first of b" && p.m == 0 {
							continue
						}
						n := total + 1
						var b frozen.SetBuilder[any]
						for i := 0; i < n; i++ {
							if e.in(i) {
								b.Add(el(i))
							}
						}
						f(u, e, el, n, lazy.Frozen(b.Finish()))
						u.States++
						u.Trans++
						u.Tick()
					}
				}
			})
		}
	}
}

func (e *lsize) count(total int) int {
	n := 0
	for i := 0; i < total; i++ {
		if e.in(i) {
			n++
		}
	}
	return n
}

func sizeLimits(n int) []int {
	return []int{0, 1, 2, n / 2, max(n-1, 0), n, n + 1, 2*n + 3, 1 << 40}
}

func c18Sized(u *Unit, e *lsize, el func(i int) E, total int, eager lazy.Set) {
	n := e.count(total)
	rng := func(s lazy.Set, k int) {
		seen := map[int]bool{}
		it := s.Range()
		for len(seen) < k && it.Next() {
			i := int(it.Value().(E).ID)
			u.Check(i < total && !seen[i] && e.in(i), "Range yields e%d unexpectedly", i)
			seen[i] = true
		}
		u.Check(len(seen) == min(n, k), "Range yields %d elements, want %d", len(seen), min(n, k))
	}
	has := func(s lazy.Set, step int) {
		for i := 0; i < total; i += step {
			u.Check(s.Has(el(i)) == e.in(i), "Has(e%d) = %v", i, !e.in(i))
		}
	}
	// each query first, on a fresh set, then all on the same
	for q := 0; q < 8; q++ {
		s := e.mk()
		for _, q := range []int{q, (q + 3) % 8, (q + 4) % 8} {
			switch q {
			case 0:
				u.Check(s.Count() == n, "Count() = %d, want %d", s.Count(), n)
			case 1:
				for _, l := range sizeLimits(n) {
					u.Check(s.CountUpTo(l) == min(l, n), "CountUpTo(%d) = %d with %d elements", l, s.CountUpTo(l), n)
				}
			case 2:
				rng(s, total)
			case 3:
				rng(s, n/2)
				has(s, 1+total/9)
				rng(s, total)
			case 4:
				has(s, 1)
			case 5:
				u.Check(s.EqualSet(eager) && eager.EqualSet(s), "EqualSet(the same elements) = false")
				for _, i := range []int{0, n / 2, total - 1} {
					x := eager.With(el(i))
					if e.in(i) {
						x = eager.Without(el(i))
					}
					u.Check(!s.EqualSet(x) && !x.EqualSet(s), "EqualSet(the same but for e%d) = true", i)
					u.Check(s.IsSubsetOf(x) == !e.in(i) && x.IsSubsetOf(s) == e.in(i), "IsSubsetOf(the same but for e%d) is wrong", i)
				}
			case 6:
				u.Check(s.IsEmpty() == (n == 0), "IsEmpty() = %v", n != 0)
				f := s.Freeze()
				u.Check(f.Count() == n, "Freeze().Count() = %d, want %d", f.Count(), n)
				rng(f, total)
			case 7:
				u.Check(s.IsSubsetOf(eager) && eager.IsSubsetOf(s), "IsSubsetOf(the same elements) = false")
			}
		}
	}
}

func c19Sized(u *Unit, e *lsize, el func(i int) E, total int, _ lazy.Set) {
	n := e.count(total)
	fast := func(s lazy.Set, when string) {
		if v, ok := s.FastIsEmpty(); ok {
			u.Check(v == (n == 0), "%s: FastIsEmpty() = (%v, true) with %d elements", when, v, n)
		}
		if v, ok := s.FastCount(); ok {
			u.Check(v == n, "%s: FastCount() = (%d, true), want %d", when, v, n)
		}
		for _, l := range sizeLimits(n) {
			if v, ok := s.FastCountUpTo(l); ok {
				u.Check(v == min(l, n), "%s: FastCountUpTo(%d) = (%d, true), want %d", when, l, v, min(l, n))
			}
		}
		for i := 0; i < total; i++ {
			if v, ok := s.FastHas(el(i)); ok {
				u.Check(v == e.in(i), "%s: FastHas(e%d) = (%v, true)", when, i, v)
			}
		}
	}
	s := e.mk()
	fast(s, "unevaluated")
	it := s.Range()
	for i := 0; i < n/2 && it.Next(); i++ {
	}
	fast(s, "half iterated")
	for it.Next() {
	}
	fast(s, "iterated")
	s = e.mk()
	s.CountUpTo(n / 2)
	fast(s, "after CountUpTo")
	s.Has(el(0))
	s.IsEmpty()
	fast(s, "after Has and IsEmpty")
	fast(s.Freeze(), "frozen")
}

func c21Sized(u *Unit, e *lsize, el func(i int) E, total int, eager lazy.Set) {
	n := e.count(total)
	for ev := 0; ev < 2; ev++ {
		mk := func() lazy.Set {
			s := e.mk()
			if ev > 0 {
				for it := s.Range(); it.Next(); {
				}
			}
			return s
		}
		for _, seed := range lazySeeds {
			u.Check(mk().Hash(seed) == eager.Hash(seed), "Hash(%#x) differs from that of the eager set", seed)
		}
		u.Check(mk().Equal(eager) && eager.Equal(mk()), "not Equal to the eager set")
		for _, i := range []int{0, n / 2, total - 1} {
			x := eager.With(el(i))
			if e.in(i) {
				x = eager.Without(el(i))
			}
			u.Check(!mk().Equal(x) && !x.Equal(mk()), "Equal to the eager set but for e%d", i)
		}
	}
}

// bigPowersets: powersets of sets of every size up to 70, as far as they can be
// queried without enumerating all.
func bigPowersets(u *Unit, fastOnly bool) {
	size, kind := 0, ""
	u.Case(func() string { return fmt.Sprintf("powerset of a %s set of %d elements", kind, size) })
	for size = 1; size <= 70; size++ {
		var f frozen.Set[any]
		for i := 0; i < size; i++ {
			f = f.With(i)
		}
		half := func(odd int) lazy.Set {
			return lazy.Frozen(f.Where(func(v any) bool { return v.(int)&1 == odd }))
		}
		for _, k := range []struct {
			name string
			mk   func() lazy.Set
		}{
			{"eager", func() lazy.Set { return lazy.Frozen(f) }},
			{"filtered", func() lazy.Set { return lazy.Frozen(f).Where(func(any) bool { return true }) }},
			{"united", func() lazy.Set { return half(0).Union(half(1)) }},
			{"evaluated", func() lazy.Set { return half(0).Union(half(1)).Freeze() }},
		} {
			kind = k.name
			u.States++
			p := k.mk().Powerset()
			upTo := func(l int) int {
				if size < 62 {
					return min(l, 1<<uint(size))
				}
				return l
			}
			lims := []int{0, 1, 2, 3, 15, 16, 17, 100}
			for round := 0; round < 2; round++ {
				u.Trans++
				if v, ok := p.FastIsEmpty(); ok {
					u.Check(!v, "FastIsEmpty() = (true, true)")
				}
				var fc int
				var ok bool
				if r := u.Panics(func() { fc, ok = p.FastCount() }); r != nil {
					u.Check(size >= 63, "FastCount() panics: %v", r)
				} else if ok {
					u.Check(size < 63 && fc == 1<<uint(size), "FastCount() = (%d, true)", fc)
				}
				for _, l := range append(lims, 1<<40, 1<<61, 1<<62) {
					if size == 62 && l == 1<<62 {
						continue
					}
					if v, ok := p.FastCountUpTo(l); ok {
						u.Check(v == upTo(l), "FastCountUpTo(%d) = (%d, true), want %d", l, v, upTo(l))
					}
				}
				if v, ok := p.FastHas(lazy.Frozen(frozen.NewSet[any](0))); ok {
					u.Check(v, "FastHas({0}) = (false, true)")
				}
				if fastOnly {
					it := p.Range()
					for i := 0; i < 20; i++ {
						it.Next()
					}
					continue
				}
				for _, l := range lims {
					u.Check(p.CountUpTo(l) == upTo(l), "CountUpTo(%d) = %d, want %d", l, p.CountUpTo(l), upTo(l))
				}
				u.Check(!p.IsEmpty(), "IsEmpty() = true")
				if size < 63 && (size < 10 || k.name == "eager" || k.name == "evaluated") {
					u.Check(p.Count() == 1<<uint(size), "Count() = %d", p.Count())
				}
				u.Check(p.Has(k.mk()), "Has(the set itself) = false")
				u.Check(p.Has(lazy.EmptySet{}), "Has(EmptySet{}) = false")
				u.Check(p.Has(half(1)) && !p.Has(half(1).With(-1)) && !p.Has(0), "Has is wrong")
				seen := map[string]bool{}
				var all []lazy.Set
				it := p.Range()
				for i := 0; i < upTo(300); i++ {
					u.Check(it.Next(), "Range ends after %d elements", i)
					s := it.Value().(lazy.Set)
					key := make([]byte, size)
					for j := s.Range(); j.Next(); {
						key[j.Value().(int)] = 1
					}
					u.Check(!seen[string(key)], "Range yields %v twice", key)
					seen[string(key)] = true
					all = append(all, s)
				}
				if size <= 8 {
					u.Check(!it.Next(), "Range yields more than %d elements", upTo(300))
				}
				u.Check(p.Has(all[len(all)-1]), "Has(an element) = false")
			}
			u.Tick()
		}
	}
	u.Sample("powersets of sets of 1 to 70 elements")
}
