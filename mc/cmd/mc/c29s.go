//go:build !sel || c29

package main

import (
	"fmt"
	"math"
	"strconv"

	"github.com/arr-ai/frozen"
)

// forms gives numbered values in several forms that are one and the same
// element.
type forms[T any] struct {
	at  func(i, r int) T
	num func(T) int
}

// c29Sizes runs pairs of sets and maps of all sizes, one operand of elements
// in one form, the other in another.
func c29Sizes[T any](c *Ctx, name string, f forms[T]) {
	c.Unit("C29/sizes/"+name, func(u *Unit) {
		top, big := 12, []int{40, 130}
		if c.Config != "default" {
			top, big = 6, []int{40}
		}
		if c.Thorough() {
			top, big = 32, []int{64, 257, 700}
		}
		var p sizePair
		what := ""
		u.Case(func() string {
			return fmt.Sprintf("%s: %d and %d elements, %d in common, in different forms: %s", name, p.n, p.m, p.common, what)
		})
		for _, p = range sizePairs(top, big) {
			b := &c29Pair[T]{u: u, f: f, p: p, what: &what}
			b.run()
			u.Tick()
			u.States += 2
		}
		u.Sample("all pairs of sizes up to %d and some up to %d", top, big[len(big)-1])
	})
}

type c29Pair[T any] struct {
	u    *Unit
	f    forms[T]
	p    sizePair
	what *string
}

func (b *c29Pair[T]) inA(i int) bool { return i < b.p.n }
func (b *c29Pair[T]) inB(i int) bool { return i >= b.p.n-b.p.common && i < b.p.n-b.p.common+b.p.m }
func (b *c29Pair[T]) total() int     { return b.p.n - b.p.common + b.p.m }

func (b *c29Pair[T]) set(what string, s frozen.Set[T], in func(int) bool) {
	u := b.u
	*b.what = what
	u.Trans++
	k, n := 0, b.total()
	for i := 0; i <= n; i++ {
		want := i < n && in(i)
		if s.Has(b.f.at(i, i%3)) != want || s.Has(b.f.at(i, 1)) != want {
			u.Failf("Has(element %d) in two forms = %v, %v", i, s.Has(b.f.at(i, i%3)), s.Has(b.f.at(i, 1)))
		}
		if want {
			k++
		}
	}
	if s.Count() != k || s.IsEmpty() != (k == 0) {
		u.Failf("Count() = %d, want %d", s.Count(), k)
	}
	seen := make([]bool, n)
	for r := s.Range(); r.Next(); k-- {
		i := b.f.num(r.Value())
		if i < 0 || i >= n || !in(i) || seen[i] {
			u.Failf("Range yields element %d: %v", i, r.Value())
		}
		seen[i] = true
	}
	if k != 0 {
		u.Failf("Range yields %d elements too few", k)
	}
}

func (b *c29Pair[T]) mapIs(what string, m frozen.Map[T, int], val func(int) (int, bool)) {
	u := b.u
	*b.what = what
	u.Trans++
	k, n := 0, b.total()
	for i := 0; i <= n; i++ {
		want, there := 0, false
		if i < n {
			want, there = val(i)
		}
		for _, r := range []int{i % 3, 1} {
			if v, has := m.Get(b.f.at(i, r)); has != there || has && v != want {
				u.Failf("Get(key %d, form %d) = %d, %v, want %d, %v", i, r, v, has, want, there)
			}
		}
		if there {
			k++
		}
	}
	if m.Count() != k {
		u.Failf("Count() = %d, want %d", m.Count(), k)
	}
	for r := m.Range(); r.Next(); k-- {
		i := b.f.num(r.Key())
		if want, there := val(i); i < 0 || i >= n || !there || want != r.Value() {
			u.Failf("Range yields key %d: %d", i, r.Value())
		}
	}
	if k != 0 {
		u.Failf("Range yields %d entries too few", k)
	}
}

func (b *c29Pair[T]) run() {
	u, f, n := b.u, b.f, b.total()
	*b.what = "building"
	list := func(in func(int) bool, r int) []T {
		var out []T
		for i := 0; i < n; i++ {
			if in(i) {
				out = append(out, f.at(i, r))
			}
		}
		return out
	}
	s := frozen.NewSet(list(b.inA, 0)...)
	var sb frozen.SetBuilder[T]
	for i := n - 1; i >= 0; i-- {
		if b.inB(i) {
			sb.Add(f.at(i, i%3))
			sb.Add(f.at(i, 2))
		}
	}
	for i := 0; i <= n; i++ {
		if sb.Has(f.at(i, 1)) != b.inB(i) {
			u.Failf("SetBuilder.Has(element %d) = %v", i, !b.inB(i))
		}
	}
	t := sb.Finish()
	or := func(i int) bool { return b.inA(i) || b.inB(i) }
	and := func(i int) bool { return b.inA(i) && b.inB(i) }
	less := func(i int) bool { return b.inA(i) && !b.inB(i) }
	xor := func(i int) bool { return b.inA(i) != b.inB(i) }
	b.set("the first set", s, b.inA)
	b.set("the second set", t, b.inB)
	b.set("Union", s.Union(t), or)
	b.set("Intersection", s.Intersection(t), and)
	b.set("Difference", s.Difference(t), less)
	b.set("SymmetricDifference", s.SymmetricDifference(t), xor)
	b.set("frozen.Union", frozen.Union(s, t), or)
	b.set("NewSet of both", frozen.NewSet(append(list(b.inA, 1), list(b.inB, 2)...)...), or)
	all, none := s, s.Union(t)
	for i := 0; i < n; i++ {
		if b.inB(i) {
			all = all.With(f.at(i, 2))
			none = none.Without(f.at(i, 1))
		}
	}
	b.set("With each of the other", all, or)
	b.set("Without each of the other", none, less)
	b.set("Where in the other", s.Where(func(v T) bool { return t.Has(v) }), and)
	b.set("SetMap to other forms", frozen.SetMap(s, func(v T) T { return f.at(f.num(v), 2) }), b.inA)
	b.set("SetMap to half", frozen.SetMap(s, func(v T) T { i := f.num(v); return f.at(i/2, i%2) }), func(i int) bool { return 2*i < b.p.n })

	*b.what = "comparing"
	eq := b.p.n == b.p.m && b.p.common == b.p.n
	sub := b.p.common == b.p.n
	if s.Equal(t) != eq || t.Equal(s) != eq || s.Same(t) != eq {
		u.Failf("Equal = %v, %v, Same = %v, want %v", s.Equal(t), t.Equal(s), s.Same(t), eq)
	}
	if s.IsSubsetOf(t) != sub || t.IsSubsetOf(s) != (b.p.common == b.p.m) {
		u.Failf("IsSubsetOf = %v, %v", s.IsSubsetOf(t), t.IsSubsetOf(s))
	}
	if !all.Equal(t.Union(s)) || !s.Intersection(t).Equal(t.Intersection(s)) || !s.Union(t).Difference(t).Equal(none) {
		u.Failf("results of the same elements are not equal")
	}
	if all.Hash(5) != t.Union(s).Hash(5) || none.Hash(0) != s.Difference(t).Hash(0) {
		u.Failf("results of the same elements have different hashes")
	}
	if p := s.With(f.at(n, 0)); p.Equal(s) || s.Equal(p) || !s.IsSubsetOf(p) || p.IsSubsetOf(s) {
		u.Failf("a set with one element more compares wrongly")
	}
	if b.p.n > 0 {
		if p := s.Without(f.at(b.p.n/2, 2)).With(f.at(n, 0)); p.Equal(s) || s.Equal(p) || s.IsSubsetOf(p) {
			u.Failf("a set with another element compares wrongly")
		}
	}
	u.Trans += 14

	*b.what = "sets of the sets"
	want := 3
	if eq {
		want = 2 // t is s, and either all or a new one
	}
	sets := []frozen.Set[T]{s, t, s.Union(t).With(f.at(n, 0)), frozen.NewSet(list(b.inA, 2)...), frozen.NewSet(list(b.inB, 1)...)}
	if got := frozen.NewSet(sets...).Count(); got != want {
		u.Failf("a set of them has %d elements, want %d", got, want)
	}

	*b.what = "building maps"
	va, vb := func(i int) int { return i + 1 }, func(i int) int { return -i }
	var kvs []frozen.KeyValue[T, int]
	var mb frozen.MapBuilder[T, int]
	for i := 0; i < n; i++ {
		if b.inA(i) {
			kvs = append(kvs, frozen.KV(f.at(i, 0), -99), frozen.KV(f.at(i, 1), va(i)))
		}
		if b.inB(i) {
			mb.Put(f.at(i, 0), 99)
			mb.Put(f.at(i, 2), vb(i))
		}
	}
	for i := 0; i <= n; i++ {
		if v, has := mb.Get(f.at(i, 1)); has != b.inB(i) || has && v != vb(i) {
			u.Failf("MapBuilder.Get(key %d) = %d, %v", i, v, has)
		}
	}
	x, y := frozen.NewMap(kvs...), mb.Finish()
	when := func(in func(int) bool, v func(int) int) func(int) (int, bool) {
		return func(i int) (int, bool) { return v(i), in(i) }
	}
	b.mapIs("the first map", x, when(b.inA, va))
	b.mapIs("the second map", y, when(b.inB, vb))
	up := func(i int) (int, bool) {
		if b.inB(i) {
			return vb(i), true
		}
		return va(i), b.inA(i)
	}
	b.mapIs("Update", x.Update(y), up)
	b.mapIs("Merge", x.Merge(y, func(k T, p, q int) int { return 1000*p + q }), func(i int) (int, bool) {
		if and(i) {
			return 1000*va(i) + vb(i), true
		}
		return up(i)
	})
	w, wo := x, x.Update(y)
	for i := 0; i < n; i++ {
		if b.inB(i) {
			w = w.With(f.at(i, 1), vb(i))
			wo = wo.Without(f.at(i, 1))
		}
	}
	b.mapIs("With each of the other", w, up)
	b.mapIs("Without each of the other", wo, when(less, va))
	b.mapIs("Project", x.Project(list(b.inB, 2)...), when(and, va))
	b.mapIs("Where", x.Where(func(k T, v int) bool { return t.Has(k) }), when(and, va))
	b.set("Keys", x.Keys(), b.inA)
	b.mapIs("NewMapFromKeys", frozen.NewMapFromKeys(t, func(k T) int { return vb(f.num(k)) }), when(b.inB, vb))
	*b.what = "comparing maps"
	if !w.Equal(x.Update(y)) || !x.Update(y).Same(w) || w.Hash(1) != x.Update(y).Hash(1) {
		u.Failf("maps of the same entries are not equal")
	}
	if b.p.n > 0 {
		k := b.p.n - 1
		if q := x.With(f.at(k, 2), -77); q.Equal(x) || x.Equal(q) {
			u.Failf("a map with another value for key %d is equal", k)
		}
		if q := x.Without(f.at(k, 2)).With(f.at(n, 1), va(k)); q.Equal(x) || x.Equal(q) {
			u.Failf("a map with another key is equal")
		}
	}

	*b.what = "values of maps"
	var p, q frozen.MapBuilder[int, T]
	for i := 0; i < n; i++ {
		if b.inA(i) {
			p.Put(i, f.at(i, 0))
			q.Put(b.p.n-1-i, f.at(b.p.n-1-i, 2))
		}
	}
	vp, vq := p.Finish(), q.Finish()
	if !vp.Equal(vq) || !vq.Equal(vp) || !vp.Same(vq) {
		u.Failf("maps of equal values are not equal")
	}
	b.set("Values", vq.Values(), b.inA)
	if b.p.n > 0 {
		for _, k := range []int{0, b.p.n / 2, b.p.n - 1} {
			if r := vq.With(k, f.at(n, 0)); r.Equal(vp) || vp.Equal(r) {
				u.Failf("maps with different values for %d are equal", k)
			}
		}
	}
	g := frozen.SetGroupBy(s, func(v T) T { i := f.num(v); return f.at(i/3, i%3) })
	b.set("SetGroupBy's keys", g.Keys(), func(i int) bool { return 3*i < b.p.n })
	for i := 0; 3*i < b.p.n; i++ {
		gs, _ := g.Get(f.at(i, 1))
		b.set("a group of SetGroupBy", gs, func(j int) bool { return j/3 == i && b.inA(j) })
		if b.p.n > 30 {
			i += 7
		}
	}
}

func c29AllSizes(c *Ctx) {
	note := []string{"", "x", "yy"}
	for _, sh := range sizeHash {
		h := sh.h
		c29Sizes(c, "Equal/"+sh.name, forms[noteEq]{func(i, r int) noteEq { return noteEq{i, h(i), note[r]} }, func(e noteEq) int { return e.ID }})
		c29Sizes(c, "Same/"+sh.name, forms[noteSame]{func(i, r int) noteSame { return noteSame{i, h(i), note[r]} }, func(e noteSame) int { return e.ID }})
		c29Sizes(c, "Equal and Same/"+sh.name, forms[noteBoth]{func(i, r int) noteBoth { return noteBoth{i, h(i), note[r]} }, func(e noteBoth) int { return e.ID }})
		c29Sizes(c, "uncomparable/"+sh.name, forms[noteSlice]{func(i, r int) noteSlice { return noteSlice{i, h(i), note[:r]} }, func(e noteSlice) int { return e.ID }})
		c29Sizes(c, "pointer with Equal/"+sh.name, forms[*notePtr]{func(i, r int) *notePtr { return &notePtr{i, h(i)} }, func(e *notePtr) int { return e.ID }})
		c29Sizes(c, "pointer with Same/"+sh.name, forms[*samePtr]{func(i, r int) *samePtr { return &samePtr{i, h(i)} }, func(e *samePtr) int { return e.ID }})
		c29Sizes(c, "Equal for another type/"+sh.name, forms[otherEq]{func(i, r int) otherEq { return otherEq{i, h(i)} }, func(e otherEq) int { return e.ID }})
		c29Sizes(c, "any of different types/"+sh.name, forms[any]{func(i, r int) any {
			switch i % 4 {
			case 0:
				return noteSame{i, h(i), note[r]}
			case 1:
				return noteBoth{i, h(i), note[r]}
			case 2:
				return &samePtr{i, h(i)}
			}
			return otherEq{i, h(i)}
		}, func(e any) int {
			switch e := e.(type) {
			case noteSame:
				return e.ID
			case noteBoth:
				return e.ID
			case *samePtr:
				return e.ID
			}
			return e.(otherEq).ID
		}})
		c29Sizes(c, "interface of Same/"+sh.name, forms[shower]{func(i, r int) shower {
			if i%3 == 0 {
				return showB{i}
			}
			return showA{i, h(i), note[r]}
		}, func(e shower) int {
			if b, is := e.(showB); is {
				return b.ID
			}
			return e.(showA).ID
		}})
		c29Sizes(c, "interface with Equal/"+sh.name, forms[equaler]{func(i, r int) equaler {
			if r == 1 {
				return &numB{h(i), i}
			}
			return numA{i, h(i), note[r]}
		}, func(e equaler) int { return e.num() }})
		key := func(i, r int) noteEq { return noteEq{i, h(i), note[r]} }
		setAt := func(i, r int) frozen.Set[noteEq] {
			s := frozen.NewSet(key(i, r), key(i/2, 2-r))
			if r == 1 {
				s = s.With(key(i+1, 0)).Without(key(i+1, 1))
			}
			return s
		}
		setNum := func(s frozen.Set[noteEq]) (n int) {
			for r := s.Range(); r.Next(); {
				n = max(n, r.Value().ID)
			}
			return n
		}
		c29Sizes(c, "sets/"+sh.name, forms[frozen.Set[noteEq]]{setAt, setNum})
		c29Sizes(c, "any of sets/"+sh.name, forms[any]{func(i, r int) any { return setAt(i, r) }, func(s any) int { return setNum(s.(frozen.Set[noteEq])) }})
		c29Sizes(c, "maps/"+sh.name, forms[frozen.Map[noteEq, noteSame]]{func(i, r int) frozen.Map[noteEq, noteSame] {
			m := frozen.NewMap(frozen.KV(key(i/2, r), noteSame{i, h(i), note[r]}))
			if r == 1 {
				m = m.With(key(i+7, 0), noteSame{}).Without(key(i+7, 1))
			}
			return m
		}, func(m frozen.Map[noteEq, noteSame]) int { _, v := m.Any(); return v.ID }})
		c29Sizes(c, "entries/"+sh.name, forms[frozen.KeyValue[noteEq, noteSame]]{func(i, r int) frozen.KeyValue[noteEq, noteSame] {
			return frozen.KV(key(i/2, r), noteSame{i % 2, h(i % 2), note[2-r]})
		}, func(e frozen.KeyValue[noteEq, noteSame]) int { return 2*e.Key.ID + e.Value.ID }})
	}
	c29Sizes(c, "int", forms[int]{func(i, r int) int { return i - 5 }, func(i int) int { return i + 5 }})
	c29Sizes(c, "int16", forms[int16]{func(i, r int) int16 { return int16(i - 64) }, func(i int16) int { return int(i) + 64 }})
	c29Sizes(c, "uint64", forms[uint64]{func(i, r int) uint64 { return ^uint64(i) }, func(i uint64) int { return int(^i) }})
	c29Sizes(c, "string", forms[string]{func(i, r int) string { return "k" + strconv.Itoa(i) }, func(s string) int { i, _ := strconv.Atoi(s[1:]); return i }})
	neg := math.Copysign(0, -1)
	c29Sizes(c, "float64", forms[float64]{func(i, r int) float64 {
		if i == 0 && r == 1 {
			return neg
		}
		return float64(i) / 2
	}, func(f float64) int { return int(2 * f) }})
	c29Sizes(c, "struct", forms[plainS]{func(i, r int) plainS { return plainS{i / 4, strconv.Itoa(i / 2), i} }, func(s plainS) int { return s.C.(int) }})
	c29Sizes(c, "any of scalars", forms[any]{func(i, r int) any {
		switch i % 4 {
		case 0:
			return i
		case 1:
			return int64(i - 1)
		case 2:
			return strconv.Itoa(i)
		}
		if i == 3 && r == 1 {
			return neg
		}
		return float64(i - 3)
	}, func(e any) int {
		switch e := e.(type) {
		case int:
			return e
		case int64:
			return int(e) + 1
		case float64:
			return int(e) + 3
		}
		i, _ := strconv.Atoi(e.(string))
		return i
	}})
	c29Sizes(c, "IntSets", forms[frozen.IntSet[int]]{func(i, r int) frozen.IntSet[int] {
		s := frozen.NewIntSet(i, -i, 1000*(i/2))
		if r == 1 {
			s = s.With(5000 * (i + 1)).Without(5000 * (i + 1))
		}
		return s
	}, func(s frozen.IntSet[int]) int {
		for _, i := range s.Elements() {
			if i <= 0 && s.Has(-i) && s.Count() <= 3 && (i != 0 || s.Count() == 1) {
				return -i
			}
		}
		return 1 // {1, -1, 0}
	}})
}
