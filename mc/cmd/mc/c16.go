//go:build !sel || c16 || c17

package main

import (
	"fmt"
	"sort"
	"unsafe"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() {
	checks["C16"] = c16
	checks["C17"] = c17
}

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// integers whose hash collides completely, or in all but the lowest bits
type (
	hInt    int
	hInt8   int8
	hUint16 uint16
	hInt64  int64
)

func (hInt) Hash(uintptr) uintptr      { return 0x1234 }
func (h hInt8) Hash(uintptr) uintptr   { return uintptr(uint8(h)) & 1 }
func (h hUint16) Hash(uintptr) uintptr { return uintptr(h) & 3 << 61 }
func (h hInt64) Hash(uintptr) uintptr  { return uintptr(h&1) << 63 }

func bitsIn[I integer]() int {
	var z I
	return int(unsafe.Sizeof(z)) * 8
}

func isSigned[I integer]() bool {
	var z I
	return z-1 < z
}

func maxOf[I integer]() I {
	if isSigned[I]() {
		return ^minOf[I]()
	}
	return ^I(0)
}

func minOf[I integer]() I {
	if isSigned[I]() {
		return I(1) << (bitsIn[I]() - 1)
	}
	return 0
}

// intUniverses lists groups of integers around the places where something
// changes: the ends of the type, zero, multiples of 64 and powers of two.
func intUniverses[I integer](thorough bool) [][]I {
	lo, hi := minOf[I](), maxOf[I]()
	us := [][]I{
		{0, 1, 63, 64, 65, 127},
		{lo, lo + 1, lo + 63, lo + 64, hi - 64, hi - 63, hi},
		{0, hi, lo, hi - 1, hi/2 + 1, hi / 2},
		{2, 66, 100, 126, 101, 37}, // one bit in several cells, several in one
	}
	if isSigned[I]() {
		us = append(us,
			[]I{^I(0), ^I(0) - 1, 0, 1, ^I(63), ^I(62), 63},
			[]I{^I(64), ^I(63), ^I(127), ^I(126), lo, 64, 5},
			[]I{^I(99), ^I(35), 36, 100, 28, ^I(27)})
	}
	conv := func(xs ...uint64) []I {
		var out []I
		for _, x := range xs {
			out = append(out, I(x))
		}
		return out
	}
	if bitsIn[I]() > 8 {
		us = append(us, conv(0, 1<<6, 1<<7, 3<<6, 1<<8, 5<<6), conv(256, 255, 511, 512, 191, 192, 4095))
	}
	if bitsIn[I]() > 16 {
		us = append(us, conv(1<<12, 1<<13, 1<<14, 65535, 65536, 63))
	}
	for i, vs := range us {
		us[i] = nil
		seen := map[I]bool{}
		for _, v := range vs {
			if !seen[v] {
				seen[v] = true
				us[i] = append(us[i], v)
			}
		}
	}
	if thorough {
		for i := range us {
			for _, x := range []I{3, 62, 67, hi - 2, lo + 2} {
				has := false
				for _, y := range us[i] {
					has = has || x == y
				}
				if !has && len(us[i]) < 9 {
					us[i] = append(us[i], x)
				}
			}
		}
	}
	return us
}

type intState[I integer] struct {
	s    frozen.IntSet[I]
	mask uint32
	expr func() string
}

type intSpace[I integer] struct {
	u      *Unit
	vals   []I
	states []intState[I]
	index  map[string]int
	probes []I
	byMask map[uint32][]int
	max    int
}

// observe compares everything observable about s with the mask.
func (sp *intSpace[I]) observe(s frozen.IntSet[I], mask uint32) string {
	n := bitsOf(mask)
	if s.Count() != n {
		return fmt.Sprintf("Count() = %d, want %d", s.Count(), n)
	}
	if s.IsEmpty() != (n == 0) {
		return fmt.Sprintf("IsEmpty() = %v with %d elements", s.IsEmpty(), n)
	}
	for i, v := range sp.vals {
		if s.Has(v) != (mask>>uint(i)&1 != 0) {
			return fmt.Sprintf("Has(%d) = %v", v, s.Has(v))
		}
	}
	for _, v := range sp.probes {
		if s.Has(v) {
			return fmt.Sprintf("Has(%d), which was never added", v)
		}
	}
	if d := sp.members("Elements()", s.Elements(), mask); d != "" {
		return d
	}
	var els []I
	r := s.Range()
	for r.Next() {
		els = append(els, r.Value())
		if len(els) > n+2 {
			break
		}
	}
	if d := sp.members("Range()", els, mask); d != "" {
		return d
	}
	if n > 0 {
		a := s.Any()
		ok := false
		for i, v := range sp.vals {
			ok = ok || v == a && mask>>uint(i)&1 != 0
		}
		if !ok {
			return fmt.Sprintf("Any() = %d", a)
		}
	}
	return ""
}

func (sp *intSpace[I]) members(what string, els []I, mask uint32) string {
	var seen uint32
	for _, e := range els {
		found := false
		for i, v := range sp.vals {
			if v == e {
				if seen>>uint(i)&1 != 0 {
					return fmt.Sprintf("%s yields %d twice: %v", what, e, els)
				}
				seen |= 1 << uint(i)
				found = true
			}
		}
		if !found {
			return fmt.Sprintf("%s yields %d: %v", what, e, els)
		}
	}
	if seen != mask {
		return fmt.Sprintf("%s = %v, want %v", what, els, sp.content(mask))
	}
	return ""
}

func (sp *intSpace[I]) content(mask uint32) []I {
	out := []I{}
	for i, v := range sp.vals {
		if mask>>uint(i)&1 != 0 {
			out = append(out, v)
		}
	}
	return out
}

func (sp *intSpace[I]) add(s frozen.IntSet[I], mask uint32, expr func() string) int {
	sp.u.Trans++
	sp.u.Case(expr)
	key := string(core.Dump(nil, s))
	if i, has := sp.index[key]; has {
		if sp.states[i].mask != mask {
			sp.u.Failf("contents %v, want %v", sp.content(sp.states[i].mask), sp.content(mask))
		}
		return i
	}
	if d := sp.observe(s, mask); d != "" {
		sp.u.Failf("%s; want contents %v", d, sp.content(mask))
	}
	i := len(sp.states)
	sp.index[key] = i
	sp.states = append(sp.states, intState[I]{s, mask, expr})
	sp.byMask[mask] = append(sp.byMask[mask], i)
	sp.u.States++
	return i
}

func newIntSpace[I integer](u *Unit, vals []I, max int) *intSpace[I] {
	sp := &intSpace[I]{u: u, vals: vals, index: map[string]int{}, byMask: map[uint32][]int{}, max: max}
	in := map[I]bool{}
	for _, v := range vals {
		in[v] = true
	}
	for _, v := range vals {
		for _, p := range []I{v + 1, v - 1, v + 64, v - 64, ^v, v << 6, v >> 6, v ^ 64, v ^ 32} {
			if !in[p] {
				in[p] = true
				sp.probes = append(sp.probes, p)
			}
		}
	}
	n := len(vals)
	// constructors: every list of at most 3 values, repetitions included, and
	// the values of every mask in both directions
	var rec func(l []int, k int)
	rec = func(l []int, k int) {
		sp.list(l)
		if k == 0 {
			return
		}
		for x := 0; x < n; x++ {
			rec(append(l, x), k-1)
		}
	}
	rec(nil, 3)
	for m := uint32(0); m < 1<<uint(n); m++ {
		var up, down []int
		for x := 0; x < n; x++ {
			if m>>uint(x)&1 != 0 {
				up = append(up, x)
				down = append([]int{x}, down...)
			}
		}
		sp.list(up)
		sp.list(down)
	}
	sp.add(frozen.IntSet[I]{}, 0, func() string { return fmt.Sprintf("IntSet[%T]{}", vals[0]) })
	for i := 0; i < len(sp.states); i++ {
		if len(sp.states) > max {
			u.Capped(fmt.Sprintf("state cap %d", max))
			break
		}
		st := sp.states[i]
		for x := 0; x < n; x++ {
			v := vals[x]
			sp.add(st.s.With(v), st.mask|1<<uint(x), func() string { return fmt.Sprintf("%s.With(%d)", st.expr(), v) })
			sp.add(st.s.Without(v), st.mask&^(1<<uint(x)), func() string { return fmt.Sprintf("%s.Without(%d)", st.expr(), v) })
		}
		for _, p := range sp.probes {
			u.Trans++
			if s := st.s.Without(p); s.Count() != st.s.Count() || !s.Equal(st.s) {
				u.Failf("%s: Without(%d), which is not an element, gives %v", st.expr(), p, s.Elements())
			}
		}
	}
	return sp
}

func (sp *intSpace[I]) list(l []int) {
	var vs []I
	var m uint32
	for _, x := range l {
		vs = append(vs, sp.vals[x])
		m |= 1 << uint(x)
	}
	sp.add(frozen.NewIntSet(vs...), m, func() string { return fmt.Sprintf("NewIntSet[%T](%v)", sp.vals[0], vs) })
}

// again re-observes all states after everything that was done to them.
func (sp *intSpace[I]) again() {
	for _, st := range sp.states {
		sp.u.Case(st.expr)
		sp.u.Traces++
		if d := sp.observe(st.s, st.mask); d != "" {
			sp.u.Failf("changed after later operations: %s; want contents %v", d, sp.content(st.mask))
		}
	}
}

func (sp *intSpace[I]) sel(n int) []int {
	if len(sp.states) <= n {
		out := make([]int, len(sp.states))
		for i := range out {
			out[i] = i
		}
		return out
	}
	masks := make([]int, 0, len(sp.byMask))
	for m := range sp.byMask {
		masks = append(masks, int(m))
	}
	sort.Ints(masks)
	var out []int
	for round := 0; ; round++ {
		more := false
		for _, m := range masks {
			l := sp.byMask[uint32(m)]
			if round >= len(l) {
				continue
			}
			if round > 0 && len(out) >= n {
				return out
			}
			k := round
			if round == 1 {
				k = len(l) - 1
			} else if round > 1 {
				k = round - 1
			}
			out = append(out, l[k])
			more = true
		}
		if !more {
			return out
		}
	}
}

func c16Type[I integer](c *Ctx, name string) {
	for i, vals := range intUniverses[I](c.Thorough()) {
		vals := vals
		c.Unit(fmt.Sprintf("C16/%s/%d", name, i), func(u *Unit) {
			max := 20000
			if c.Thorough() {
				max = 200000
			}
			sp := newIntSpace(u, vals, max)
			sp.again()
			u.Sample("IntSet[%s] over %v: %d states", name, vals, len(sp.states))
		})
	}
}

func c16(c *Ctx) {
	c16Type[int](c, "int")
	c16Type[int8](c, "int8")
	c16Type[int16](c, "int16")
	c16Type[int32](c, "int32")
	c16Type[int64](c, "int64")
	c16Type[uint](c, "uint")
	c16Type[uint8](c, "uint8")
	c16Type[uint16](c, "uint16")
	c16Type[uint32](c, "uint32")
	c16Type[uint64](c, "uint64")
	c16Type[uintptr](c, "uintptr")
	c16Type[hInt](c, "colliding-int")
	c16Type[hInt8](c, "colliding-int8")
	c16Type[hUint16](c, "colliding-uint16")
	c16Type[hInt64](c, "colliding-int64")
	for part := 0; part < 8; part++ {
		part := part
		c.Unit(fmt.Sprintf("C16/all-pairs/int8/%d", part), func(u *Unit) { c16Pairs[int8](u, part) })
		c.Unit(fmt.Sprintf("C16/all-pairs/uint8/%d", part), func(u *Unit) { c16Pairs[uint8](u, part) })
	}
	c.Unit("C16/all-values/int16", func(u *Unit) { c16Sweep[int16](u, 65536, 1) })
	c.Unit("C16/all-values/uint16", func(u *Unit) { c16Sweep[uint16](u, 65536, 1) })
	c.Unit("C16/all-values/int8", func(u *Unit) { c16Sweep[int8](u, 256, 1) })
	c.Unit("C16/all-values/colliding-int8", func(u *Unit) { c16Sweep[hInt8](u, 256, 1) })
	c.Unit("C16/values-over-range/int64", func(u *Unit) { c16Sweep[int64](u, 40000, 0x6b8b4567327b23c) })
	c.Unit("C16/values-over-range/uint32", func(u *Unit) { c16Sweep[uint32](u, 40000, 0x1b4567b3) })
}

// c16Pairs: every pair of values of an 8-bit type.
func c16Pairs[I integer](u *Unit, part int) {
	all := make([]I, 256)
	for i := range all {
		all[i] = minOf[I]() + I(i)
	}
	var a, b I
	how := ""
	u.Case(func() string { return fmt.Sprintf("%s with a=%d b=%d (%T)", how, a, b, a) })
	check := func(s frozen.IntSet[I], want ...I) {
		u.Trans++
		n := 0
		for _, v := range all {
			w := false
			for _, x := range want {
				w = w || x == v
			}
			if w {
				n++
			}
			if s.Has(v) != w {
				u.Failf("Has(%d) = %v", v, s.Has(v))
			}
		}
		u.Evals += 256
		els := s.Elements()
		ok := len(els) == n && s.Count() == n && s.IsEmpty() == (n == 0)
		for _, e := range els {
			in := false
			for _, x := range want {
				in = in || x == e
			}
			ok = ok && in
		}
		ok = ok && (n < 2 || els[0] != els[1])
		if !ok {
			u.Failf("Elements() = %v, Count() = %d, want %v", els, s.Count(), want)
		}
	}
	for i, x := range all {
		if i%8 != part {
			continue
		}
		a = x
		for _, y := range all {
			b = y
			u.Tick()
			how = "NewIntSet(a, b)"
			s := frozen.NewIntSet(a, b)
			check(s, a, b)
			how = "NewIntSet(a, b).Without(a)"
			if a == b {
				check(s.Without(a))
			} else {
				check(s.Without(a), b)
			}
			how = "IntSet{}.With(a).With(b)"
			check(frozen.IntSet[I]{}.With(a).With(b), a, b)
			u.States++
		}
	}
	u.Sample("every pair of %T values congruent to %d", a, part)
}

// c16Sweep adds count values one by one and takes them away again; after every
// step the neighbourhood is probed, at intervals everything.
func c16Sweep[I integer](u *Unit, count int, stride I) {
	v := func(i int) I { return minOf[I]() + I(i)*stride }
	in := map[I]bool{}
	var s frozen.IntSet[I]
	step := 0
	what := "With"
	u.Case(func() string {
		return fmt.Sprintf("%s of the values min+i*%d of %T, i = 0...; step %d", what, stride, stride, step)
	})
	probe := func(x I) {
		for _, p := range []I{x, x + 1, x - 1, x + 64, x - 64, ^x, 0, minOf[I](), maxOf[I]()} {
			if s.Has(p) != in[p] {
				u.Failf("Has(%d) = %v", p, s.Has(p))
			}
		}
		u.Evals += 9
		if s.Count() != len(in) || s.IsEmpty() != (len(in) == 0) {
			u.Failf("Count() = %d, IsEmpty() = %v, want %d elements", s.Count(), s.IsEmpty(), len(in))
		}
	}
	full := func() {
		n := 0
		seen := map[I]bool{}
		for r := s.Range(); r.Next(); {
			if n++; n > len(in) || !in[r.Value()] || seen[r.Value()] {
				u.Failf("Range yields %d, element number %d of %d", r.Value(), n, len(in))
			}
			seen[r.Value()] = true
		}
		if n != len(in) {
			u.Failf("Range yields %d elements, want %d", n, len(in))
		}
		if els := s.Elements(); len(els) != n {
			u.Failf("Elements() has %d elements, want %d", len(els), n)
		}
		u.States++
	}
	for step = 0; step < count; step++ {
		x := v(step)
		one := frozen.NewIntSet(x)
		if e := one.Elements(); len(e) != 1 || e[0] != x || !one.Has(x) || one.Count() != 1 || one.Any() != x {
			u.Failf("NewIntSet(%d) has elements %v", x, e)
		}
		s = s.With(x)
		in[x] = true
		probe(x)
		u.Trans += 2
		u.Tick()
		if step&1023 == 0 {
			full()
		}
	}
	full()
	top := s
	what = "Without"
	for step = 0; step < count; step++ {
		// in another order than that of adding
		x := v((step*7919 + 11) % count)
		s = s.Without(x)
		delete(in, x)
		probe(x)
		u.Trans++
		u.Tick()
		if step&1023 == 0 {
			full()
		}
	}
	for i := 0; i < count; i++ {
		in[v(i)] = true
	}
	s = s.With(v(0))
	what, s = "everything again, after removing all", top
	full()
	u.Sample("%d values of %T added one by one and removed one by one", count, stride)
}

func c17(c *Ctx) {
	c17Sizes(c)
	c17Type[int](c, "int")
	c17Type[int8](c, "int8")
	c17Type[uint8](c, "uint8")
	c17Type[int64](c, "int64")
	c17Type[uint64](c, "uint64")
	c17Type[uint16](c, "uint16")
	c17Type[hInt](c, "colliding-int")
	c17Type[hInt8](c, "colliding-int8")
	c17Type[hUint16](c, "colliding-uint16")
	if c.Thorough() {
		c17Type[int16](c, "int16")
		c17Type[int32](c, "int32")
		c17Type[uint](c, "uint")
		c17Type[uint32](c, "uint32")
		c17Type[uintptr](c, "uintptr")
		c17Type[hInt64](c, "colliding-int64")
	}
	for part := 0; part < 8; part++ {
		part := part
		c.Unit(fmt.Sprintf("C17/ranges/%d", part), func(u *Unit) { c17Ranges(u, part) })
	}
}

func c17Type[I integer](c *Ctx, name string) {
	for i, vals := range intUniverses[I](c.Thorough()) {
		vals := vals
		c.Unit(fmt.Sprintf("C17/%s/%d", name, i), func(u *Unit) {
			lim, maxMap := 300, 90
			if c.Thorough() {
				lim, maxMap = 4000, 600
			}
			sp := newIntSpace(u, vals, 20000)
			c17Algebra(u, sp, sp.sel(lim))
			c17Where(u, sp, sp.sel(400))
			c17Map(u, sp, sp.sel(maxMap))
			sp.again()
			u.Sample("IntSet[%s] over %v: pairs of %d states", name, vals, len(sp.sel(lim)))
		})
	}
}

func c17Algebra[I integer](u *Unit, sp *intSpace[I], sel []int) {
	var a, b *intState[I]
	op := ""
	u.Case(func() string { return fmt.Sprintf("s = %s\nt = %s\n%s", a.expr(), b.expr(), op) })
	seen := map[string]uint32{}
	var buf []byte
	obs := func(name string, s frozen.IntSet[I], m uint32) {
		op = name
		u.Trans++
		// a result structurally identical to a checked one needs no second look
		buf = core.Dump(buf[:0], s)
		if w, has := seen[string(buf)]; has && w == m {
			return
		}
		if d := sp.observe(s, m); d != "" {
			u.Failf("%s; want contents %v", d, sp.content(m))
		}
		seen[string(buf)] = m
	}
	for _, i := range sel {
		a = &sp.states[i]
		for _, j := range sel {
			b = &sp.states[j]
			u.Tick()
			obs("s.Union(t)", a.s.Union(b.s), a.mask|b.mask)
			obs("s.Intersection(t)", a.s.Intersection(b.s), a.mask&b.mask)
			eq := a.mask == b.mask
			op = "comparison"
			u.Check(a.s.Equal(b.s) == eq, "s.Equal(t) = %v", !eq)
			u.Check(a.s.EqualSet(b.s) == eq, "s.EqualSet(t) = %v", !eq)
			u.Check(a.s.Same(b.s) == eq, "s.Same(t) = %v", !eq)
			u.Check(a.s.IsSubsetOf(b.s) == (a.mask&^b.mask == 0), "s.IsSubsetOf(t) = %v", a.mask&^b.mask != 0)
			u.Trans += 4
		}
		for _, o := range []any{nil, 1, "x", a.s.Elements(), frozen.Set[I]{}, frozen.Map[I, uint64]{}, &a.s} {
			u.Check(!a.s.Same(o), "s.Same(%T) = true", o)
		}
	}
}

func c17Where[I integer](u *Unit, sp *intSpace[I], sel []int) {
	var a *intState[I]
	var keep uint32
	u.Case(func() string { return fmt.Sprintf("s = %s\ns.Where(in %v)", a.expr(), sp.content(keep)) })
	for _, i := range sel {
		a = &sp.states[i]
		for keep = 0; keep < 1<<uint(len(sp.vals)); keep++ {
			if keep&^a.mask != 0 && keep != 1<<uint(len(sp.vals))-1 {
				continue
			}
			u.Tick()
			u.Trans++
			var asked uint32
			s := a.s.Where(func(v I) bool {
				for i, x := range sp.vals {
					if x == v {
						asked |= 1 << uint(i)
						return keep>>uint(i)&1 != 0
					}
				}
				u.Failf("the predicate was called with %d", v)
				return false
			})
			if d := sp.observe(s, a.mask&keep); d != "" {
				u.Failf("%s; want contents %v", d, sp.content(a.mask&keep))
			}
		}
	}
}

// c17Map: all functions from the elements to three values of the universe, and
// shifting functions.
func c17Map[I integer](u *Unit, sp *intSpace[I], sel []int) {
	var a *intState[I]
	img := make([]int, len(sp.vals))
	n := len(sp.vals)
	u.Case(func() string { return fmt.Sprintf("s = %s\ns.Map(value i of %v -> value %v)", a.expr(), sp.vals, img) })
	for _, i := range sel {
		a = &sp.states[i]
		els := []int{}
		for x := 0; x < n; x++ {
			if a.mask>>uint(x)&1 != 0 {
				els = append(els, x)
			}
		}
		total := 1
		for range els {
			total *= 3
		}
		step := 1
		for total/step > 300 {
			step += 2
		}
		for f := 0; f < total; f += step {
			g := f
			var want uint32
			for _, x := range els {
				img[x] = []int{0, n / 2, n - 1}[g%3]
				g /= 3
				want |= 1 << uint(img[x])
			}
			u.Tick()
			u.Trans++
			s := a.s.Map(func(v I) I {
				for i, x := range sp.vals {
					if x == v {
						return sp.vals[img[i]]
					}
				}
				u.Failf("the function was called with %d", v)
				return 0
			})
			if d := sp.observe(s, want); d != "" {
				u.Failf("%s; want contents %v", d, sp.content(want))
			}
		}
	}
}

// c17Ranges: all pairs of intervals with ends near multiples of 64, so that
// whole cells are combined.
func c17Ranges(u *Unit, part int) {
	ends := []int{-193, -192, -130, -128, -65, -64, -63, -1, 0, 1, 31, 63, 64, 65, 127, 128, 129, 192, 250}
	type iv struct{ a, b int }
	var ivs []iv
	for i, a := range ends {
		for _, b := range ends[i:] {
			ivs = append(ivs, iv{a, b})
		}
	}
	mk := func(v iv) frozen.IntSet[int] {
		var xs []int
		for x := v.a; x < v.b; x++ {
			xs = append(xs, x)
		}
		return frozen.NewIntSet(xs...)
	}
	sets := make([]frozen.IntSet[int], len(ivs))
	for i, v := range ivs {
		sets[i] = mk(v)
	}
	var p, q iv
	u.Case(func() string { return fmt.Sprintf("s = all of [%d,%d), t = all of [%d,%d)", p.a, p.b, q.a, q.b) })
	probe := ends
	check := func(op string, s frozen.IntSet[int], n int, in func(x int) bool) {
		u.Trans++
		if s.Count() != n || s.IsEmpty() != (n == 0) {
			u.Failf("%s: Count() = %d, IsEmpty() = %v, want %d elements", op, s.Count(), s.IsEmpty(), n)
		}
		k := 0
		for r := s.Range(); r.Next(); k++ {
			if !in(r.Value()) {
				u.Failf("%s yields %d", op, r.Value())
			}
		}
		if k != n {
			u.Failf("%s yields %d elements, want %d", op, k, n)
		}
		for _, x := range probe {
			if s.Has(x) != in(x) {
				u.Failf("%s: Has(%d) = %v", op, x, s.Has(x))
			}
		}
	}
	for i := range ivs {
		if i%8 != part {
			continue
		}
		p = ivs[i]
		s := sets[i]
		for j := range ivs {
			q = ivs[j]
			t := sets[j]
			u.Tick()
			inP := func(x int) bool { return p.a <= x && x < p.b }
			inQ := func(x int) bool { return q.a <= x && x < q.b }
			lo, hi := p.a, p.b
			if q.a > lo {
				lo = q.a
			}
			if q.b < hi {
				hi = q.b
			}
			ni := 0
			if hi > lo {
				ni = hi - lo
			}
			nu := p.b - p.a + q.b - q.a - ni
			check("s.Intersection(t)", s.Intersection(t), ni, func(x int) bool { return inP(x) && inQ(x) })
			check("s.Union(t)", s.Union(t), nu, func(x int) bool { return inP(x) || inQ(x) })
			eq := p == q || ni == 0 && nu == 0
			sub := ni == p.b-p.a
			u.Check(s.Equal(t) == eq && s.Same(t) == eq && s.EqualSet(t) == eq, "Equal = %v Same = %v EqualSet = %v, want %v",
				s.Equal(t), s.Same(t), s.EqualSet(t), eq)
			u.Check(s.IsSubsetOf(t) == sub, "s.IsSubsetOf(t) = %v", !sub)
			check("s.Where(in t)", s.Where(inQ), ni, func(x int) bool { return inP(x) && inQ(x) })
			u.States++
		}
	}
	u.Sample("pairs of intervals with ends in %v", ends)
}
