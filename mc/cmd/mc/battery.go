//go:build !sel || c26 || c29

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
)

// bat runs the whole interface on sets and maps over a small universe, given
// as classes of values that are one and the same element.
type bat[T any] struct {
	u    *Unit
	name string
	reps [][]T
	eq   func(a, b T) bool // the oracle's equality
	what string
	// noAny: as any, the elements have another notion of equality
	noAny bool
	// deep runs sets of sets
	deep func(b *bat[T])
}

func single[T any](el ...T) [][]T {
	var out [][]T
	for _, e := range el {
		out = append(out, []T{e})
	}
	return out
}

func goEq[T any](a, b T) bool { return any(a) == any(b) }

func (b *bat[T]) id(v T) int {
	for i, r := range b.reps {
		if b.eq(r[0], v) {
			return i
		}
	}
	b.u.Failf("%s: stray element %v", b.what, v)
	return -1
}

func (b *bat[T]) less(x, y T) bool { return b.id(x) > b.id(y) }

// rep is the k-th representation of element i.
func (b *bat[T]) rep(i, k int) T { return b.reps[i][k%len(b.reps[i])] }

const setVariants = 4

// set builds the set of a mask in one of several ways, of different
// representations of the elements.
func (b *bat[T]) set(mask uint32, variant int) frozen.Set[T] {
	n := len(b.reps)
	switch variant {
	case 0:
		var vs []T
		for i := 0; i < n; i++ {
			if mask>>uint(i)&1 != 0 {
				vs = append(vs, b.rep(i, 0))
			}
		}
		return frozen.NewSet(vs...)
	case 1:
		var s frozen.SetBuilder[T]
		for i := n - 1; i >= 0; i-- {
			if mask>>uint(i)&1 != 0 {
				s.Add(b.rep(i, 1))
			}
		}
		return s.Finish()
	case 2:
		var s frozen.Set[T]
		for i := 0; i < n; i++ {
			s = s.With(b.rep(i, i))
		}
		for i := 0; i < n; i++ {
			if mask>>uint(i)&1 == 0 {
				s = s.Without(b.rep(i, i+1))
			}
		}
		return s
	}
	var s frozen.Set[T]
	for i := n - 1; i >= 0; i-- {
		if mask>>uint(i)&1 != 0 {
			s = s.With(b.rep(i, 2)).With(b.rep(i, 0))
		}
	}
	return s
}

func (b *bat[T]) fail(format string, args ...any) {
	b.u.Failf("%s: %s: %s", b.name, b.what, fmt.Sprintf(format, args...))
}

func (b *bat[T]) mask(next func() (T, bool)) uint32 {
	var m uint32
	for {
		v, ok := next()
		if !ok {
			return m
		}
		bit := uint32(1) << uint(b.id(v))
		if m&bit != 0 {
			b.fail("%v occurs twice", v)
		}
		m |= bit
	}
}

func maskOf[T any](b *bat[T], vs []T) uint32 {
	i := 0
	return b.mask(func() (v T, ok bool) {
		if i == len(vs) {
			return v, false
		}
		i++
		return vs[i-1], true
	})
}

// is checks the contents of a set in every way.
func (b *bat[T]) is(s frozen.Set[T], want uint32) {
	b.u.Evals++
	if s.Count() != bitsOf(want) {
		b.fail("Count() = %d, want %d", s.Count(), bitsOf(want))
	}
	if s.IsEmpty() != (want == 0) {
		b.fail("IsEmpty() = %v", want != 0)
	}
	r := s.Range()
	if m := b.mask(func() (v T, ok bool) {
		if !r.Next() {
			return v, false
		}
		return r.Value(), true
	}); m != want {
		b.fail("contains %b, want %b", m, want)
	}
	for i, reps := range b.reps {
		for k, v := range reps {
			if s.Has(v) != (want>>uint(i)&1 != 0) {
				b.fail("Has(element %d, form %d) = %v", i, k, want>>uint(i)&1 == 0)
			}
		}
	}
}

func (b *bat[T]) masks() []uint32 {
	var out []uint32
	for m := uint32(0); m < 1<<uint(len(b.reps)); m++ {
		out = append(out, m)
	}
	return out
}

// run explores everything: all contents, all pairs of contents.
func (b *bat[T]) run() {
	b.u.Case(func() string { return b.name + ": " + b.what })
	for _, m := range b.masks() {
		for v := 0; v < setVariants; v++ {
			b.one(m, v)
		}
		b.maps(m)
	}
	if b.deep != nil {
		b.deep(b)
	}
	for _, m := range b.masks() {
		for _, k := range b.masks() {
			b.pair(m, k)
			b.u.Tick()
		}
	}
}

func (b *bat[T]) one(m uint32, v int) {
	u := b.u
	u.States++
	u.Tick()
	b.what = fmt.Sprintf("set %b built in way %d", m, v)
	s := b.set(m, v)
	b.is(s, m)
	n := len(b.reps)
	step := func(what string, t frozen.Set[T], want uint32) {
		u.Trans++
		b.what = fmt.Sprintf("set %b built in way %d: %s", m, v, what)
		b.is(t, want)
	}
	for i := 0; i < n; i++ {
		bit := uint32(1) << uint(i)
		for k := range b.reps[i] {
			step(fmt.Sprintf("With(element %d, form %d)", i, k), s.With(b.reps[i][k]), m|bit)
			step(fmt.Sprintf("Without(element %d, form %d)", i, k), s.Without(b.reps[i][k]), m&^bit)
		}
	}
	for _, keep := range []uint32{0, 1, 6, 0x2a, ^uint32(0)} {
		step(fmt.Sprintf("Where(in %b)", keep), s.Where(func(e T) bool { return keep>>uint(b.id(e))&1 != 0 }), m&keep)
	}
	rot := uint32(0)
	for i := 0; i < n; i++ {
		rot |= (m >> uint(i) & 1) << uint((i+1)%n)
	}
	step("SetMap(rotate)", frozen.SetMap(s, func(e T) T { i := b.id(e); return b.rep((i+1)%n, i) }), rot)
	one := uint32(0)
	if m != 0 {
		one = 2
	}
	if n > 1 {
		step("SetMap(constant)", frozen.SetMap(s, func(e T) T { return b.rep(1, b.id(e)) }), one)
	}
	b.what = fmt.Sprintf("set %b built in way %d", m, v)
	if got := maskOf(b, s.Elements()); got != m {
		b.fail("Elements() = %b", got)
	}
	ord := func(what string, vs []T, n int) {
		if len(vs) != n {
			b.fail("%s gives %d elements, want %d", what, len(vs), n)
		}
		want := m
		for _, v := range vs { // descending
			top := 31
			for want>>uint(top)&1 == 0 {
				top--
			}
			if b.id(v) != top {
				b.fail("%s gives %d, want %d", what, b.id(v), top)
			}
			want &^= 1 << uint(top)
		}
	}
	c := bitsOf(m)
	ord("OrderedElements", s.OrderedElements(b.less), c)
	ord("OrderedRange", sortIt[T](s.OrderedRange(b.less)), c)
	ord("OrderedFirstN(2)", s.OrderedFirstN(2, b.less), min(2, c))
	ord("OrderedFirstN(100)", s.OrderedFirstN(100, b.less), c)
	if t := s.FirstN(2, b.less); t.Count() != min(2, c) || !t.IsSubsetOf(s) {
		b.fail("FirstN(2) is wrong")
	}
	if t := s.AnyN(2); t.Count() != min(2, c) || !t.IsSubsetOf(s) {
		b.fail("AnyN(2) is wrong")
	}
	if c > 0 {
		if !s.Has(s.Any()) {
			b.fail("Any() is not an element")
		}
		ord("First", []T{s.First(b.less).(T)}, 1)
	}
	sum := 0
	big, ok := s.Reduce2(func(x, y T) T {
		sum++
		if b.less(x, y) {
			return x
		}
		return y
	})
	if ok != (c > 0) || c > 0 && (m>>uint(b.id(big)) != 1 || sum != c-1) {
		b.fail("Reduce2 is wrong")
	}
	big, ok = s.Reduce(func(vs ...T) T {
		best := vs[0]
		for _, v := range vs {
			if b.less(v, best) {
				best = v
			}
		}
		return best
	})
	if ok != (c > 0) || c > 0 && m>>uint(b.id(big)) != 1 {
		b.fail("Reduce is wrong")
	}
	if !b.noAny {
		b.is(frozen.SetAs[T](s.AsSetAny()), m)
	}
	var sb frozen.SetBuilder[T]
	for i := 0; i < n; i++ {
		sb.Add(b.rep(i, i))
		sb.Add(b.rep(i, i+1))
	}
	for i := 0; i < n; i++ {
		if m>>uint(i)&1 != 0 {
			sb.Remove(b.rep(i, i+2))
		}
	}
	all := uint32(1)<<uint(n) - 1
	if sb.Count() != bitsOf(all&^m) {
		b.fail("SetBuilder.Count() = %d after removing them", sb.Count())
	}
	for i := 0; i < n; i++ {
		for _, r := range b.reps[i] {
			if sb.Has(r) != (m>>uint(i)&1 == 0) {
				b.fail("SetBuilder.Has(%d) is wrong", i)
			}
		}
	}
	b.what = fmt.Sprintf("SetBuilder: removed %b", m)
	b.is(sb.Finish(), all&^m)
}

func (b *bat[T]) pair(m, k uint32) {
	u := b.u
	for v := 0; v < setVariants; v++ {
		s, t := b.set(m, v), b.set(k, (v+1+v/2)%setVariants)
		step := func(what string, x frozen.Set[T], want uint32) {
			u.Trans++
			b.what = fmt.Sprintf("sets %b and %b, way %d: %s", m, k, v, what)
			b.is(x, want)
		}
		step("Union", s.Union(t), m|k)
		step("Intersection", s.Intersection(t), m&k)
		step("Difference", s.Difference(t), m&^k)
		step("SymmetricDifference", s.SymmetricDifference(t), m^k)
		if v == 0 {
			step("Union()", frozen.Union(s, t, s), m|k)
			step("Intersection()", frozen.Intersection(s, t, s), m&k)
		}
		b.what = fmt.Sprintf("sets %b and %b, way %d", m, k, v)
		if s.Equal(t) != (m == k) || s.Same(t) != (m == k) {
			b.fail("Equal() = %v, Same() = %v", s.Equal(t), s.Same(t))
		}
		if s.IsSubsetOf(t) != (m&^k == 0) {
			b.fail("IsSubsetOf() = %v", m&^k != 0)
		}
		if m == k {
			for _, seed := range []uintptr{0, 1, 1 << 40} {
				if s.Hash(seed) != t.Hash(seed) {
					b.fail("hashes of equal sets differ for seed %x", seed)
				}
			}
		}
	}
}

// nested uses the sets as elements and keys.
func nested[T any](b *bat[T]) {
	ms := b.masks()
	for _, m := range ms {
		groups(b, m)
		values(b, m)
		if bitsOf(m) > 4 {
			continue
		}
		b.what = fmt.Sprintf("Powerset of %b", m)
		p := frozen.Powerset(b.set(m, 0))
		if p.Count() != 1<<uint(bitsOf(m)) {
			b.fail("%d elements", p.Count())
		}
		for _, k := range ms {
			if p.Has(b.set(k, 1)) != (k&^m == 0) {
				b.fail("Has(%b) = %v", k, k&^m != 0)
			}
		}
	}
	var ss frozen.Set[frozen.Set[T]]
	var mm frozen.MapBuilder[frozen.Set[T], int]
	in := func(m uint32) bool { return bitsOf(m)%2 == 1 || m == 0 }
	n := 0
	for _, m := range ms {
		if in(m) {
			n++
			ss = ss.With(b.set(m, 0)).With(b.set(m, 1))
			mm.Put(b.set(m, 2), -1)
			mm.Put(b.set(m, 3), int(m))
		}
	}
	sm := mm.Finish()
	b.what = "sets of sets"
	if ss.Count() != n || sm.Count() != n {
		b.fail("%d sets of elements, %d keys, want %d", ss.Count(), sm.Count(), n)
	}
	for _, m := range ms {
		for v := 0; v < setVariants; v++ {
			if ss.Has(b.set(m, v)) != in(m) {
				b.fail("a set of sets: Has(%b, way %d) = %v", m, v, !in(m))
			}
			x, has := sm.Get(b.set(m, v))
			if has != in(m) || has && x != int(m) {
				b.fail("a map of sets: Get(%b, way %d) = %v, %v", m, v, x, has)
			}
		}
	}
}

func groups[T any](b *bat[T], m uint32) {
	b.what = fmt.Sprintf("SetGroupBy of %b", m)
	s := b.set(m, int(m)%setVariants)
	g := frozen.SetGroupBy(s, func(e T) int { return b.id(e) % 2 })
	for k, in := range []uint32{0x55555555, 0xaaaaaaaa} {
		t, has := g.Get(k)
		if has != (m&in != 0) {
			b.fail("SetGroupBy: group %d: %v", k, has)
		}
		b.is(t, m&in)
	}
}

// values uses the elements as values of maps and parts of entries.
func values[T any](b *bat[T], mask uint32) {
	var x, y frozen.Map[int, T]
	for i := range b.reps {
		if mask>>uint(i)&1 != 0 {
			x = x.With(i/2, b.rep(i, 0))
			y = y.With(i/2, b.rep(i, 1))
		}
	}
	b.what = fmt.Sprintf("map with values %b", mask)
	if !x.Equal(y) || !y.Same(x) {
		b.fail("maps with equal values are not equal")
	}
	for i := range b.reps {
		if mask>>uint(i)&1 == 0 {
			// another value for an existing or a new key
			if x.Equal(y.With(i/2, b.rep(i, 2))) {
				b.fail("maps with different values are equal")
			}
		}
	}
	top := uint32(0)
	for i := range b.reps {
		if mask>>uint(i)&1 != 0 && (i%2 == 1 || mask>>uint(i+1)&1 == 0) {
			top |= 1 << uint(i)
		}
	}
	b.is(x.Values(), top)
	// as part of an entry used as an element
	if len(b.reps) > 1 {
		kv := frozen.NewSet(frozen.KV(b.rep(0, 0), 1), frozen.KV(b.rep(0, 1), 1), frozen.KV(b.rep(1, 0), 1), frozen.KV(b.rep(0, 2), 2))
		if kv.Count() != 3 || !kv.Has(frozen.KV(b.rep(1, 1), 1)) || !kv.Has(frozen.KV(b.rep(0, 1), 2)) || kv.Has(frozen.KV(b.rep(1, 0), 2)) {
			b.fail("a set of entries is wrong")
		}
	}
}

// mapOf builds the map with the keys of a mask, in one of several ways.
func (b *bat[T]) mapOf(mask uint32, mul, variant int) frozen.Map[T, int] {
	n := len(b.reps)
	switch variant % 3 {
	case 0:
		var kvs []frozen.KeyValue[T, int]
		for i := 0; i < n; i++ {
			if mask>>uint(i)&1 != 0 {
				kvs = append(kvs, frozen.KV(b.rep(i, 1), -7), frozen.KV(b.rep(i, 0), i*mul))
			}
		}
		return frozen.NewMap(kvs...)
	case 1:
		var s frozen.MapBuilder[T, int]
		for i := n - 1; i >= 0; i-- {
			if mask>>uint(i)&1 != 0 {
				s.Put(b.rep(i, 1), i*mul)
			} else {
				s.Put(b.rep(i, 2), 5)
				s.Remove(b.rep(i, 0))
			}
		}
		return s.Finish()
	}
	var s frozen.Map[T, int]
	for i := 0; i < n; i++ {
		s = s.With(b.rep(i, i), 1).With(b.rep(i, i+1), i*mul)
	}
	for i := 0; i < n; i++ {
		if mask>>uint(i)&1 == 0 {
			s = s.Without(b.rep(i, i+2))
		}
	}
	return s
}

// holds checks the contents of a map: want(i) for the keys in mask.
func (b *bat[T]) holds(m frozen.Map[T, int], mask uint32, want func(i int) int) {
	b.u.Evals++
	if m.Count() != bitsOf(mask) || m.IsEmpty() != (mask == 0) {
		b.fail("Count() = %d, IsEmpty() = %v, want %d entries", m.Count(), m.IsEmpty(), bitsOf(mask))
	}
	for i, reps := range b.reps {
		for k, key := range reps {
			v, has := m.Get(key)
			if has != (mask>>uint(i)&1 != 0) || has && v != want(i) || m.Has(key) != has {
				b.fail("Get(key %d, form %d) = %d, %v, want %d", i, k, v, has, want(i))
			}
			if e := m.GetElse(key, -99); has && e != v || !has && e != -99 {
				b.fail("GetElse(key %d) = %d", i, e)
			}
		}
	}
	r := m.Range()
	if got := b.mask(func() (k T, ok bool) {
		if !r.Next() {
			return k, false
		}
		k, v := r.Entry()
		if v != want(b.id(k)) {
			b.fail("Range has %d for key %d, want %d", v, b.id(k), want(b.id(k)))
		}
		return k, true
	}); got != mask {
		b.fail("keys %b, want %b", got, mask)
	}
}

func (b *bat[T]) maps(mask uint32) {
	u := b.u
	times := func(n int) func(int) int { return func(i int) int { return i * n } }
	for v := 0; v < 3; v++ {
		m := b.mapOf(mask, 10, v)
		say := func(format string, args ...any) {
			u.Trans++
			b.what = fmt.Sprintf("map with keys %b, way %d: %s", mask, v, fmt.Sprintf(format, args...))
		}
		say("as built")
		b.holds(m, mask, times(10))
		for i, reps := range b.reps {
			bit := uint32(1) << uint(i)
			for k, key := range reps {
				say("With(key %d, form %d)", i, k)
				b.holds(m.With(key, 777), mask|bit, func(j int) int {
					if j == i {
						return 777
					}
					return j * 10
				})
				say("Without(key %d, form %d)", i, k)
				b.holds(m.Without(key), mask&^bit, times(10))
			}
		}
		say("Keys")
		b.is(m.Keys(), mask)
		say("Values")
		if m.Values().Count() != bitsOf(mask) {
			b.fail("%d values", m.Values().Count())
		}
		say("Project")
		var ks []T
		for i := range b.reps {
			if i%2 == 0 {
				ks = append(ks, b.rep(i, 1), b.rep(i, 0))
			}
		}
		b.holds(m.Project(ks...), mask&0x55555555, times(10))
		for f := 0; f < 3; f++ {
			for times3 := 0; times3 < 2; times3++ {
				ks = ks[:0]
				for i := range b.reps {
					if i%2 == 0 {
						ks = append(ks, b.rep(i, f))
						if times3 > 0 {
							ks = append(ks, b.rep(i, f), b.rep(i, f))
						}
					}
				}
				say("Project of form %d, repeated %d", f, 2*times3)
				b.holds(m.Project(ks...), mask&0x55555555, times(10))
			}
		}
		say("Where")
		b.holds(m.Where(func(k T, v int) bool { return v >= 20 && b.id(k) != 3 }), mask&^0xb, times(10))
		say("MapMap")
		b.holds(frozen.MapMap(m, func(k T, v int) int { return v + b.id(k) }), mask, times(11))
		say("NewMapFromKeys")
		b.holds(frozen.NewMapFromKeys(b.set(mask, v), func(k T) int { return 3 * b.id(k) }), mask, times(3))
		for _, other := range b.masks() {
			if v > 0 && other%3 != 0 {
				continue
			}
			n := b.mapOf(other, 100, v+1)
			say("Update(%b)", other)
			b.holds(m.Update(n), mask|other, func(i int) int {
				if other>>uint(i)&1 != 0 {
					return 100 * i
				}
				return 10 * i
			})
			say("Merge(%b)", other)
			b.holds(m.Merge(n, func(k T, x, y int) int { return 1000*b.id(k) + y - x }), mask|other, func(i int) int {
				switch {
				case mask&other>>uint(i)&1 != 0:
					return 1000*i + 100*i - 10*i
				case other>>uint(i)&1 != 0:
					return 100 * i
				}
				return 10 * i
			})
			say("Equal(%b)", other)
			o := b.mapOf(other, 10, v+2)
			if m.Equal(o) != (mask == other) || m.Same(o) != (mask == other) {
				b.fail("is %v", mask != other)
			}
			if mask == other && m.Hash(5) != o.Hash(5) {
				b.fail("hashes of equal maps differ")
			}
		}
	}
}

// lazies uses the elements in lazy sets.
func (b *bat[T]) lazies() {
	n := len(b.reps)
	frz := func(m uint32, k int) lazy.Set {
		var s frozen.Set[any]
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 != 0 {
				s = s.With(b.rep(i, k))
			}
		}
		return lazy.Frozen(s)
	}
	check := func(s lazy.Set, want uint32) {
		b.u.Trans++
		r := s.Range()
		if got := b.mask(func() (v T, ok bool) {
			if !r.Next() {
				return v, false
			}
			return r.Value().(T), true
		}); got != want {
			b.fail("contains %b, want %b", got, want)
		}
		for i, reps := range b.reps {
			for k, v := range reps {
				if s.Has(v) != (want>>uint(i)&1 != 0) {
					b.fail("Has(element %d, form %d) = %v", i, k, want>>uint(i)&1 == 0)
				}
			}
		}
		b.u.Evals++
		if s.Count() != bitsOf(want) {
			b.fail("Count() = %d, want %d", s.Count(), bitsOf(want))
		}
		if !s.EqualSet(frz(want, 2)) || !frz(want, 1).EqualSet(s) {
			b.fail("EqualSet(the same elements) = false")
		}
	}
	for _, m := range b.masks() {
		for _, k := range b.masks() {
			for i, f := range []struct {
				name string
				want uint32
				mk   func(s, t lazy.Set) lazy.Set
			}{
				{"Union", m | k, lazy.Set.Union},
				{"Intersection", m & k, lazy.Set.Intersection},
				{"Difference", m &^ k, lazy.Set.Difference},
				{"SymmetricDifference", m ^ k, lazy.Set.SymmetricDifference},
			} {
				b.what = fmt.Sprintf("lazy sets %b and %b: %s", m, k, f.name)
				check(f.mk(frz(m, 0), frz(k, 1)), f.want)
				d := f.mk(frz(m, i), frz(k, i+1))
				for x, reps := range b.reps {
					for _, v := range reps {
						if d.Has(v) != (f.want>>uint(x)&1 != 0) {
							b.fail("unevaluated Has(%d) is wrong", x)
						}
					}
				}
			}
			b.u.Tick()
		}
		for i, reps := range b.reps {
			for k, v := range reps {
				b.what = fmt.Sprintf("lazy set %b: With, Without(element %d, form %d)", m, i, k)
				check(frz(m, 0).With(v), m|1<<uint(i))
				check(frz(m, 0).Without(v), m&^(1<<uint(i)))
				b.what = fmt.Sprintf("lazy set %b.Where(all): With, Without(element %d, form %d)", m, i, k)
				w := func() lazy.Set { return frz(m, 1).Where(func(any) bool { return true }) }
				check(w().With(v), m|1<<uint(i))
				check(w().Without(v), m&^(1<<uint(i)))
			}
		}
	}
}
