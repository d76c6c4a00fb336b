//go:build !sel || c16 || c17

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
)

// intSizes runs pairs of IntSets of all sizes, of numbered values.
func intSizes[I integer](c *Ctx, name string, top int, big []int, at func(i int) I) {
	if c.Config != "default" {
		top, big = top/2, []int{big[0]}
	}
	c.Unit("C17/sizes/"+name, func(u *Unit) {
		var p sizePair
		what := ""
		u.Case(func() string {
			return fmt.Sprintf("%s: IntSets of %d and %d elements, %d in common; element i is %d, %d, %d, %d, ...: %s", name, p.n, p.m, p.common, at(0), at(1), at(2), at(3), what)
		})
		num := map[I]int{}
		for i := 0; i < 4*big[len(big)-1]+10; i++ {
			if _, has := num[at(i)]; has {
				break
			}
			num[at(i)] = i
		}
		for _, p = range sizePairs(top, big) {
			_, inA, inB, total := p.operands(func(int) uint64 { return 0 })
			u.Tick()
			u.States += 2
			is := func(w string, s frozen.IntSet[I], in func(i int) bool) {
				what = w
				u.Trans++
				k := 0
				for i := 0; i <= total; i++ {
					want := i < total && in(i)
					if s.Has(at(i)) != want {
						u.Failf("Has(%d) = %v", at(i), !want)
					}
					if want {
						k++
					}
					if j, is := num[at(i)+1]; !is || j >= total {
						u.Check(!s.Has(at(i)+1), "Has(%d) = true", at(i)+1)
					}
				}
				if s.Count() != k || s.IsEmpty() != (k == 0) {
					u.Failf("Count() = %d, IsEmpty() = %v, want %d elements", s.Count(), s.IsEmpty(), k)
				}
				seen := make([]bool, total)
				for r := s.Range(); r.Next(); {
					i, is := num[r.Value()]
					if !is || i >= total || !in(i) || seen[i] {
						u.Failf("Range yields %d", r.Value())
					}
					seen[i] = true
					k--
				}
				if k != 0 || len(s.Elements()) != s.Count() {
					u.Failf("Range yields %d elements too few, Elements %d of %d", k, len(s.Elements()), s.Count())
				}
			}
			list := func(in func(int) bool) []I {
				var out []I
				for i := total - 1; i >= 0; i-- {
					if in(i) {
						out = append(out, at(i), at(i))
					}
				}
				return out
			}
			or := func(i int) bool { return inA(i) || inB(i) }
			and := func(i int) bool { return inA(i) && inB(i) }
			what = "building"
			s := frozen.NewIntSet(list(inA)...)
			// the second by itself, and made from the first
			t := s
			for i := 0; i < total; i++ {
				switch {
				case inA(i) && !inB(i):
					t = t.Without(at(i))
				case inB(i):
					t = t.With(at(i))
				}
			}
			for k, t := range []frozen.IntSet[I]{frozen.NewIntSet(list(inB)...), t} {
				if k > 0 {
					is("t made from s", t, inB)
				}
				is("s.Union(t)", s.Union(t), or)
				is("t.Union(s)", t.Union(s), or)
				is("s.Intersection(t)", s.Intersection(t), and)
				is("t.Intersection(s)", t.Intersection(s), and)
				is("s.Where(in t)", s.Where(func(v I) bool { return inB(num[v]) }), and)
				is("s", s, inA)
				is("t", t, inB)
				what = "comparing"
				eq := p.n == p.m && p.common == p.n
				u.Trans += 6
				u.Check(s.Equal(t) == eq && t.Equal(s) == eq && s.EqualSet(t) == eq && s.Same(t) == eq, "s.Equal(t) = %v, t.Equal(s) = %v, want %v", s.Equal(t), t.Equal(s), eq)
				u.Check(s.IsSubsetOf(t) == (p.common == p.n) && t.IsSubsetOf(s) == (p.common == p.m), "s.IsSubsetOf(t) = %v, t.IsSubsetOf(s) = %v", s.IsSubsetOf(t), t.IsSubsetOf(s))
				x, y := s.Union(t), t.Union(s)
				u.Check(x.Equal(y) && x.Hash(3) == y.Hash(3), "s.Union(t) and t.Union(s) differ")
				x, y = s.Intersection(t), t.Intersection(s)
				u.Check(x.Equal(y) && x.Hash(0) == y.Hash(0), "s.Intersection(t) and t.Intersection(s) differ")
				u.Check(x.IsSubsetOf(s) && x.IsSubsetOf(t) && s.IsSubsetOf(s.Union(t)), "results are no subsets")
				if p.n > 0 {
					k := p.n / 2
					q := s.Without(at(k)).With(at(total))
					u.Check(!q.Equal(s) && !s.IsSubsetOf(q) && !q.IsSubsetOf(s) && q.Count() == p.n, "with %d instead of %d it compares wrongly", at(total), at(k))
				}
			}
			is("s.Map(to half the numbers)", s.Map(func(v I) I { return at(num[v] / 2) }), func(i int) bool { return 2*i < p.n })
			is("s.Map(backwards)", s.Map(func(v I) I { return at(p.n - 1 - num[v]) }), inA)
		}
		u.Sample("all pairs of sizes up to %d and some up to %d", top, big[len(big)-1])
	})
}

func c17Sizes(c *Ctx) {
	top, big := 20, []int{64, 200, 700}
	small := []int{64, 100}
	if c.Thorough() {
		top, big = 40, []int{64, 200, 700, 3000}
	}
	intSizes(c, "int/adjacent", top, big, func(i int) int { return i - 100 })
	intSizes(c, "int/two a cell", top, big, func(i int) int { return 32*i - 640 })
	intSizes(c, "int/one a cell", top, big, func(i int) int { return 64*i - 640 + i%64 })
	intSizes(c, "int/every 37th", top, big, func(i int) int { return 37 * i })
	intSizes(c, "int64/far apart", top, big, func(i int) int64 { return int64(uint64(i) * 0x9e3779b97f4a7c15) })
	intSizes(c, "uint64/from the top", top, big, func(i int) uint64 { return ^uint64(0) - uint64(40*i) })
	intSizes(c, "uint32/one a cell", top, big, func(i int) uint32 { return uint32(64 * i) })
	intSizes(c, "int16/from the bottom", top, small, func(i int) int16 { return int16(-32768 + 97*i) })
	intSizes(c, "uint16", top, small, func(i int) uint16 { return uint16(65535 - 65*i) })
	intSizes(c, "int8", top, []int{30, 60}, func(i int) int8 { return int8(127 - i) })
	intSizes(c, "uint8", top, []int{30, 60}, func(i int) uint8 { return uint8(2 * i) })
	intSizes(c, "colliding cells", top, small, func(i int) hInt { return hInt(64*i - 640) })
	intSizes(c, "colliding cells of several", top, small, func(i int) hInt { return hInt(20*i - 640) })
	intSizes(c, "partly colliding cells", top, small, func(i int) hUint16 { return hUint16(70 * i) })
}
