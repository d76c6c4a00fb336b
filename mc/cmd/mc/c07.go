//go:build !sel || c07

package main

import (
	"fmt"
	"math"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() { checks["C07"] = c07 }

// weakOrders calls f with every ranking of n elements whose ranks are an
// initial segment of the numbers: every strict weak order, once.
func weakOrders(n int, f func(rank []int)) {
	rank := make([]int, n)
	var rec func(i int)
	rec = func(i int) {
		if i == n {
			max, seen := 0, 0
			for _, r := range rank {
				seen |= 1 << uint(r)
				if r > max {
					max = r
				}
			}
			if n == 0 || seen == 1<<uint(max+1)-1 {
				f(rank)
			}
			return
		}
		for r := 0; r < n; r++ {
			rank[i] = r
			rec(i + 1)
		}
	}
	rec(0)
}

func c07(c *Ctx) {
	g := geom(c)
	for n := 1; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, c.Thorough() || n <= 3), g) {
			s := s
			c.Unit("C07/"+s.Name, func(u *Unit) {
				sp := core.NewSetSpace(core.UnivE(s), u, core.SpaceOpts{NewSets: true, Where: true, Binary: true, MaxBinary: 20})
				lim := 1000
				if n == 4 && !c.Thorough() {
					lim = 60
				}
				c07Space(u, sp, sp.Select(lim))
				sampleSpace(u, sp)
			})
		}
	}
	for n := 5; n <= 6; n++ {
		ls := []int{0, 1, g.Max}
		if n == 6 {
			if !c.Thorough() {
				break
			}
			ls = []int{0, g.Max}
		}
		for _, s := range core.EnumShapes(n, ls, g) {
			s := s
			c.Unit("C07/"+s.Name, func(u *Unit) {
				sp := core.NewSetSpace(core.UnivE(s), u, core.SpaceOpts{})
				full := uint32(1)<<uint(len(sp.U.El)) - 1
				l := sp.ByMask[full]
				c07Space(u, sp, []int32{l[0], l[len(l)-1]})
			})
		}
	}
	for _, how := range []string{"wide", "collide", "deep", "ints"} {
		how := how
		c.Unit("C07/sizes/"+how, func(u *Unit) { c07Sizes(u, how, c.Thorough()) })
	}
}

func c07Space(u *Unit, sp *core.SetSpace[E], sel []int32) {
	n := len(sp.U.El)
	var k int32
	var rank []int
	u.Case(func() string {
		return fmt.Sprintf("%s\ns = %s, ranks of the elements: %v", sp.U.Describe(), sp.Expr(k), rank)
	})
	weakOrders(n, func(r []int) {
		rank = r
		u.Tick()
		for _, k = range sel {
			st := &sp.States[k]
			size := bitsOf(st.Mask)
			c07One(u, st.Set, size, func(e E) int {
				if int(e.ID) >= n || st.Mask>>uint(e.ID)&1 == 0 {
					u.Failf("%v is not in the set %s", e, core.MaskString(st.Mask))
				}
				return int(e.ID)
			}, func(i int) int { return r[i] }, n, size+2)
		}
	})
	sp.ReplayAll()
}

// c07One checks all ordered operations on s, which has size elements; id maps
// an element to a number below n and fails for elements not in s.
func c07One[T any](u *Unit, s frozen.Set[T], size int, id func(T) int, rank func(int) int, n, maxN int) {
	less := func(a, b T) bool { return rank(id(a)) < rank(id(b)) }
	seen := make([]int, n)
	stamp := 0
	// first checks that els are the first ones in order
	minRest := func() int {
		m := int(^uint(0) >> 1)
		for r := s.Range(); r.Next(); {
			if i := id(r.Value()); seen[i] != stamp && rank(i) < m {
				m = rank(i)
			}
		}
		return m
	}
	check := func(what string, els []T, want int) {
		u.Trans++
		stamp++
		if len(els) != want {
			u.Failf("%s has %d elements, want %d", what, len(els), want)
		}
		prev := -1
		for _, e := range els {
			i := id(e)
			if seen[i] == stamp {
				u.Failf("%s has %v twice: %v", what, e, els)
			}
			seen[i] = stamp
			if rank(i) < prev {
				u.Failf("%s is not in order: %v", what, els)
			}
			prev = rank(i)
		}
		if want < size && want > 0 && minRest() < prev {
			u.Failf("%s = %v, but there are smaller elements", what, els)
		}
	}
	check("OrderedElements", s.OrderedElements(less), size)
	it := s.OrderedRange(less)
	var els []T
	for it.Next() {
		els = append(els, it.Value())
		if id(it.Value()) != id(els[len(els)-1]) {
			u.Failf("OrderedRange: Value() changes when read twice")
		}
		if len(els) > size {
			break
		}
	}
	check("OrderedRange", els, size)
	if it.Next() || it.Next() {
		u.Failf("OrderedRange goes on after the end")
	}
	ks := make([]int, 0, maxN+3)
	for k := 0; k <= maxN; k++ {
		ks = append(ks, k)
	}
	for _, k := range append(ks, 1<<45, math.MaxInt) {
		want := k
		if want > size {
			want = size
		}
		check(fmt.Sprintf("OrderedFirstN(%d)", k), s.OrderedFirstN(k, less), want)
		f := s.FirstN(k, less)
		u.Trans++
		stamp++
		cnt, max := 0, -1
		for r := f.Range(); r.Next(); {
			i := id(r.Value())
			seen[i] = stamp
			cnt++
			if rank(i) > max {
				max = rank(i)
			}
		}
		if cnt != want || f.Count() != want {
			u.Failf("FirstN(%d) = %v with Count %d", k, f, f.Count())
		}
		if want > 0 && minRest() < max {
			u.Failf("FirstN(%d) = %v, but there are smaller elements", k, f)
		}
	}
	u.Trans++
	if size == 0 {
		if u.Panics(func() { s.First(less) }) == nil {
			u.Failf("First of the empty set does not panic")
		}
	} else {
		e, is := s.First(less).(T)
		if !is {
			u.Failf("First returns a %T", s.First(less))
		}
		stamp++
		if minRest() < rank(id(e)) {
			u.Failf("First = %v, but there are smaller elements", e)
		}
	}
}

func c07Sizes(u *Unit, how string, thorough bool) {
	limit := 48
	if thorough {
		limit = 100
	}
	sizes := []int{}
	for i := 0; i <= limit; i++ {
		sizes = append(sizes, i)
	}
	sizes = append(sizes, 64, 65, 127, 511, 513, 1000, 1025, 3000)
	if thorough {
		sizes = append(sizes, 4097, 10001, 70000)
	}
	for _, size := range sizes {
		orders := map[string]func(int) int{
			"ascending":   func(i int) int { return i },
			"descending":  func(i int) int { return size - i },
			"all equal":   func(int) int { return 0 },
			"mod 3":       func(i int) int { return i % 3 },
			"div 4":       func(i int) int { return i / 4 },
			"by hash":     func(i int) int { return int(core.Mix(uint64(i)) >> 2) },
			"bitreversed": func(i int) int { return i * 37 % 101 },
			"zigzag":      func(i int) int { return i ^ i<<1&0xff },
		}
		// one set for all orders, which are closures of one function that differ
		// in what they capture
		ints := frozen.Iota(size)
		var b frozen.SetBuilder[E]
		for i := 0; i < size; i++ {
			h := core.Mix(uint64(i))
			switch how {
			case "collide":
				h = uint64(i/7) << 61
			case "deep":
				h = uint64(i) & 1023
			}
			b.Add(E{ID: int32(i), H: h})
		}
		set := b.Finish()
		u.States++
		maxN := size + 2
		if size > limit {
			maxN = 3
		}
		for name, rank := range orders {
			name := name
			u.Case(func() string { return fmt.Sprintf("%d elements (%s), order %s", size, how, name) })
			u.Tick()
			if how == "ints" {
				c07One(u, ints, size, func(i int) int {
					if i < 0 || i >= size {
						u.Failf("%d is not in the set", i)
					}
					return i
				}, rank, size+1, maxN)
				continue
			}
			c07One(u, set, size, func(e E) int {
				if e.ID < 0 || int(e.ID) >= size {
					u.Failf("%v is not in the set", e)
				}
				return int(e.ID)
			}, rank, size+1, maxN)
		}
	}
}
