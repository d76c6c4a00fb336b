//go:build !sel || c26

package main

import (
	"fmt"
	"math"
	"os"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/hash"

	"verif/mc/core"
)

func init() { checks["C26"] = c26 }

// reseed sets the random seeds of the hash functions for Go values.
func reseed(k uint64) {
	a, h := hash.GetSeeds()
	a, h = append([]byte(nil), a...), append([]uintptr(nil), h...)
	for i := range a {
		switch k {
		case 0:
			a[i] = 0
		case 1:
			a[i] = 0xff
		default:
			a[i] = byte(core.Mix(k*1000 + uint64(i)))
		}
	}
	for i := range h {
		h[i] = uintptr(core.Mix(k*1000+uint64(i))) | 1
	}
	if err := hash.SetSeeds(a, h); err != nil {
		panic(err)
	}
}

func c26Type[T any](c *Ctx, name string, seed uint64, el ...T) {
	c.Unit(fmt.Sprintf("C26/%s/hash seed %d", name, seed), func(u *Unit) {
		b := &bat[T]{u: u, name: name, reps: single(el...), eq: goEq[T]}
		b.run()
		u.Sample("%s, hash seed %d, FROZEN_CONCURRENCY=%q", name, seed, os.Getenv("FROZEN_CONCURRENCY"))
	})
}

// c26: one set of hash seeds per process; vrun starts one for every
// configuration of the build and the environment. All must agree with the model.
func c26(c *Ctx) {
	seed := uint64(0)
	fmt.Sscan(os.Getenv("VERIF_HASHSEED"), &seed)
	if os.Getenv("VERIF_HASHSEED") != "" {
		reseed(seed)
	}
	c26Type(c, "int", seed, 0, 1, -1, 64, math.MaxInt, math.MinInt)
	c26Type(c, "string", seed, "", "a", "b", "ab", "ba", "abcdefghijklmnopqrstuvwxyz")
	c26Type[any](c, "any", seed, 1, "1", 1.0, true, [2]int{1, 2}, E{ID: 1, H: 5})
	g := geom(c)
	for _, s := range []core.Shape{
		groupShape("spread", g, [2]int{2, 1}, [2]int{2, 2}, [2]int{1, 1}),
		groupShape("2+3 colliding", g, [2]int{2, g.Max}, [2]int{3, g.Max}),
		groupShape("deep", g, [2]int{2, g.Max - 1}, [2]int{2, 1}, [2]int{1, 1}),
		edgeShape(),
	} {
		var el []E
		for i, h := range s.H {
			el = append(el, E{ID: int32(i), H: h})
		}
		c26Type(c, "E "+s.Name, seed, el...)
	}
	// Hashes that agree in all but the last bits.
	c26Type(c, "E small hashes", seed, E{ID: 1}, E{ID: 2, H: 1}, E{ID: 3, H: 2}, E{ID: 4, H: 16}, E{ID: 5, H: 1 << 40})
	c.Unit("C26/deep sizes", func(u *Unit) { c26Deep(u, c.Thorough()) })
	c.Unit("C26/sizes", func(u *Unit) { c26Sizes(u, c.Thorough()) })
}

// c26Sizes crosses the sizes at which the numbers of parallel levels change.
func c26Sizes(u *Unit, thorough bool) {
	top := 8
	if thorough {
		top = 13
	}
	what := ""
	u.Case(func() string { return what })
	ints := func(s frozen.Set[int], n int, in func(i int) bool) {
		u.Evals++
		k := 0
		for i := -1; i <= n; i++ {
			want := i >= 0 && i < n && in(i)
			if s.Has(i) != want {
				u.Failf("Has(%d) = %v", i, !want)
			}
			if want {
				k++
			}
		}
		if s.Count() != k || s.IsEmpty() != (k == 0) {
			u.Failf("Count() = %d, want %d", s.Count(), k)
		}
		seen := 0
		for r := s.Range(); r.Next(); {
			seen++
		}
		if seen != k {
			u.Failf("Range yields %d elements, want %d", seen, k)
		}
	}
	for l := 0; l <= top; l++ {
		for d := -1; d <= 1; d++ {
			n := 1<<uint(l) + d
			var all []int
			for i := 0; i < n; i++ {
				all = append(all, i)
			}
			s := frozen.NewSet(all...)
			mods := []int{1, 2, 3, 7, n + 1, 1 << 30}
			sub := func(m, r int) (frozen.Set[int], func(int) bool) {
				in := func(i int) bool { return i%m == r }
				return s.Where(in), in
			}
			for _, m := range mods {
				for _, r := range []int{0, 1} {
					a, ina := sub(m, r)
					what = fmt.Sprintf("0..%d where i mod %d = %d", n-1, m, r)
					ints(a, n, ina)
					u.States++
					for _, k := range mods {
						b, inb := sub(k, 0)
						u.Trans += 7
						u.Tick()
						what = fmt.Sprintf("0..%d: i mod %d = %d and i mod %d = 0", n-1, m, r, k)
						ints(a.Union(b), n, func(i int) bool { return ina(i) || inb(i) })
						ints(a.Intersection(b), n, func(i int) bool { return ina(i) && inb(i) })
						ints(a.Difference(b), n, func(i int) bool { return ina(i) && !inb(i) })
						ints(a.SymmetricDifference(b), n, func(i int) bool { return ina(i) != inb(i) })
						same, sub := true, true
						for i := 0; i < n; i++ {
							same = same && ina(i) == inb(i)
							sub = sub && (!ina(i) || inb(i))
						}
						if a.Equal(b) != same {
							u.Failf("Equal = %v", !same)
						}
						if a.IsSubsetOf(b) != sub {
							u.Failf("IsSubsetOf = %v", !sub)
						}
						ma := frozen.NewMapFromKeys(a, func(i int) int { return i })
						mb := frozen.NewMapFromKeys(b, func(i int) int { return -i - 1 })
						up := ma.Update(mb)
						mg := ma.Merge(mb, func(k, x, y int) int { return x * y })
						cnt := 0
						for i := 0; i < n; i++ {
							v, has := up.Get(i)
							w, hasW := mg.Get(i)
							want, wantM := i, i
							switch {
							case ina(i) && inb(i):
								want, wantM = -i-1, -i*(i+1)
							case inb(i):
								want, wantM = -i-1, -i-1
							}
							in := ina(i) || inb(i)
							if in {
								cnt++
							}
							if has != in || hasW != in || in && (v != want || w != wantM) {
								u.Failf("Update: [%d] = %d, %v; Merge: %d, %v", i, v, has, w, hasW)
							}
						}
						if up.Count() != cnt || mg.Count() != cnt {
							u.Failf("Update: %d entries, Merge: %d, want %d", up.Count(), mg.Count(), cnt)
						}
						if ma.Equal(mb) != (a.IsEmpty() && b.IsEmpty()) {
							u.Failf("maps: Equal is wrong")
						}
					}
				}
			}
		}
	}
	u.Sample("int sets of 2^l-1, 2^l, 2^l+1 elements up to l=%d, all pairs of 12 subsets", top)
}

// c26Deep builds sets of elements whose hashes differ in few bits, wherever
// these bits are, in several ways, which must agree.
func c26Deep(u *Unit, thorough bool) {
	top, step := 20, 9
	if thorough {
		top, step = 70, 1
	}
	what := ""
	u.Case(func() string { return what })
	for shift := 0; shift < 64; shift += step {
		for n := 1; n <= top; n++ {
			u.Tick()
			u.States++
			var el []E
			for i := 0; i < n; i++ {
				el = append(el, E{ID: int32(i), H: uint64(i) << uint(shift)})
			}
			what = fmt.Sprintf("%d elements whose hashes are the multiples of 1<<%d", n, shift)
			all := frozen.NewSet(el...)
			var up, down frozen.Set[E]
			half := frozen.NewSet[E]()
			for i := range el {
				up = up.With(el[i])
				down = down.With(el[n-1-i])
				if i%2 == 0 {
					half = half.With(el[i])
				}
			}
			rest := all.Difference(half)
			ways := []frozen.Set[E]{all, up, down, half.Union(rest), rest.Union(half), all.Intersection(up), down.Intersection(all), half.SymmetricDifference(rest)}
			for w, s := range ways {
				for v, t := range ways {
					u.Trans++
					u.Check(s.Equal(t) && t.IsSubsetOf(s), "ways %d and %d to build the set: Equal = %v, IsSubsetOf = %v", w, v, s.Equal(t), t.IsSubsetOf(s))
				}
				u.Check(s.Hash(1) == all.Hash(1), "ways %d and 0 hash differently", w)
				seen := make([]bool, n)
				for r := s.Range(); r.Next(); {
					id := r.Value().ID
					u.Check(!seen[id], "way %d: element %d is yielded twice", w, id)
					seen[id] = true
				}
				for i := range el {
					u.Check(seen[i] && s.Has(el[i]), "way %d: element %d: Range %v, Has %v", w, i, seen[i], s.Has(el[i]))
				}
				u.Check(s.Count() == n && !s.Has(E{ID: int32(n), H: uint64(n) << uint(shift)}), "way %d: Count() = %d", w, s.Count())
				if n > 1 {
					o := s.Without(el[n/2])
					u.Check(o.Count() == n-1 && !o.Has(el[n/2]) && o.With(el[n/2]).Equal(all), "way %d: Without and With of element %d", w, n/2)
				}
			}
			u.Check(half.Intersection(rest).IsEmpty() && half.Count()+rest.Count() == n, "the halves overlap")
		}
	}
	u.Sample("hashes that are multiples of every power of two to a multiple of %d, sets of up to %d elements", step, top)
}
