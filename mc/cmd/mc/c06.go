//go:build !sel || c06

package main

import (
	"fmt"
	"math/bits"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() { checks["C06"] = c06 }

// stepper advances one iterator; it returns the model identity of the element
// reached, or -1 at the end.
type stepper struct {
	next func() int
	// again re-reads the current element; it must be the same one even though
	// other iterators have moved meanwhile.
	again func() int
}

type iterSource struct {
	name string
	mask uint64 // model identities to be yielded
	n    int
	mk   func() stepper
}

func setSource[T any](name string, s frozen.Set[T], mask uint32, id func(T) int) iterSource {
	return iterSource{name: name, mask: uint64(mask), n: bits.OnesCount32(mask), mk: func() stepper {
		it := s.Range()
		cur := func() int { return id(it.Value()) }
		return stepper{
			next: func() int {
				if !it.Next() {
					return -1
				}
				return cur()
			},
			again: cur,
		}
	}}
}

// mapSource encodes an entry as key*4+value.
func mapSource[K any](name string, m frozen.Map[K, int], c core.Content, id func(K) int) iterSource {
	src := iterSource{name: name, n: c.Count()}
	for k, v := range c {
		if v >= 0 {
			src.mask |= 1 << uint(k*4+int(v))
		}
	}
	src.mk = func() stepper {
		it := m.Range()
		cur := func() int {
			k, v := it.Entry()
			if id(k) != id(it.Key()) || v != it.Value() {
				return 63
			}
			return id(k)*4 + v
		}
		return stepper{
			next: func() int {
				if !it.Next() {
					return -1
				}
				return cur()
			},
			again: cur,
		}
	}
	return src
}

// track follows one iterator against its model.
type track struct {
	src  *iterSource
	st   stepper
	seen uint64
	cur  int
	end  bool
}

func (t *track) step(u *Unit) {
	i := t.st.next()
	u.Trans++
	switch {
	case i < 0:
		if t.seen != t.src.mask {
			u.Failf("iterator over %s ended after %#x of %#x", t.src.name, t.seen, t.src.mask)
		}
		t.end = true
	case t.end:
		u.Failf("iterator over %s yields %d after the end", t.src.name, i)
	case i > 63 || t.src.mask>>uint(i)&1 == 0:
		u.Failf("iterator over %s yields %d, which is not in it", t.src.name, i)
	case t.seen>>uint(i)&1 != 0:
		u.Failf("iterator over %s yields %d twice", t.src.name, i)
	default:
		t.seen |= 1 << uint(i)
		t.cur = i
	}
}

func (t *track) still(u *Unit) {
	if t.seen != 0 && !t.end {
		if i := t.st.again(); i != t.cur {
			u.Failf("the current element of an iterator over %s changed from %d to %d", t.src.name, t.cur, i)
		}
	}
}

// interleavings runs all interleavings of two iterators, each going extra
// steps past its end.
func interleavings(u *Unit, a, b *iterSource, extra int) {
	na, nb := a.n+1+extra, b.n+1+extra
	total := na + nb
	var sched uint32
	u.Case(func() string {
		return fmt.Sprintf("iterators A over %s and B over %s, advanced in the order %0*b (1: A, right to left)", a.name, b.name, total, sched)
	})
	for sched = uint32(1)<<uint(na) - 1; sched < 1<<uint(total); {
		ta := track{src: a, st: a.mk()}
		tb := track{src: b, st: b.mk()}
		for i := 0; i < total; i++ {
			if sched>>uint(i)&1 != 0 {
				ta.step(u)
				tb.still(u)
			} else {
				tb.step(u)
				ta.still(u)
			}
		}
		u.Traces++
		// next word with the same number of ones
		c := sched & -sched
		r := sched + c
		sched = (r^sched)>>2/c | r
	}
	u.Tick()
}

func c06(c *Ctx) {
	g := geom(c)
	for n := 1; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, c.Thorough() || n <= 3), g) {
			s := s
			c.Unit("C06/sets/"+s.Name, func(u *Unit) {
				sp := core.NewSetSpace(core.UnivE(s), u, core.SpaceOpts{NewSets: true, Where: true, Binary: true, MaxBinary: 20})
				pairs, extra := 64, 2
				if n == 4 {
					pairs, extra = 18, 1
					if c.Thorough() {
						pairs = 48
					}
				}
				c06Set(u, sp, pairs, extra)
				sampleSpace(u, sp)
			})
			if n <= 3 {
				c.Unit("C06/maps/"+s.Name, func(u *Unit) {
					sp := core.NewMapSpace(core.UnivE(s), 2, u, core.MSpaceOpts{NewMaps: true})
					var srcs []iterSource
					for _, i := range sp.Select(40) {
						st := &sp.States[i]
						srcs = append(srcs, mapSource(sp.Expr(i), st.M, st.C, sp.U.ID))
					}
					for i := range srcs {
						for j := 0; j <= i; j++ {
							interleavings(u, &srcs[i], &srcs[j], 1)
						}
					}
					for i := range sp.States {
						st := &sp.States[i]
						u.Case(func() string { return sp.Expr(int32(i)) + ".Any()" })
						if st.C.Count() == 0 {
							u.Check(u.Panics(func() { st.M.Any() }) != nil, "Any() of the empty map does not panic")
						} else {
							k, v := st.M.Any()
							u.Check(st.C[k.ID] == int8(v), "Any() = %v, %d", k, v)
						}
					}
				})
			}
		}
	}
	for n := 5; n <= 6; n++ {
		ls := lcps(g, false)
		if n == 6 {
			ls = []int{0, 2, g.Max}
		}
		for _, s := range core.EnumShapes(n, ls, g) {
			s := s
			c.Unit("C06/sets/"+s.Name, func(u *Unit) {
				sp := core.NewSetSpace(core.UnivE(s), u, core.SpaceOpts{Where: true})
				full := uint32(1)<<uint(len(sp.U.El)) - 1
				for _, i := range sp.ByMask[full] {
					a := setSource(sp.Expr(i), sp.States[i].Set, full, sp.U.ID)
					interleavings(u, &a, &a, 0)
					if !c.Thorough() {
						break
					}
				}
			})
		}
	}
	c.Unit("C06/intsets", c06Int)
	c.Unit("C06/large", func(u *Unit) { c06Large(u, g) })
}

func c06Set(u *Unit, sp *core.SetSpace[E], pairs, extra int) {
	var srcs []iterSource
	for _, i := range sp.Select(pairs) {
		srcs = append(srcs, setSource(sp.Expr(i), sp.States[i].Set, sp.States[i].Mask, sp.U.ID))
	}
	for i := range srcs {
		for j := 0; j <= i; j++ {
			interleavings(u, &srcs[i], &srcs[j], extra)
		}
	}
	// every state: operations at every point of an iteration
	var op string
	var at int
	var k int32
	u.Case(func() string {
		return fmt.Sprintf("s = %s; after %d calls of Next: %s", sp.Expr(k), at, op)
	})
	els := sp.U.El
	for k = 0; int(k) < len(sp.States); k++ {
		st := &sp.States[k]
		src := setSource("s", st.Set, st.Mask, sp.U.ID)
		run := func(name string, f func()) {
			op = name
			for at = 0; at <= src.n+1; at++ {
				t := track{src: &src, st: src.mk()}
				for i := 0; i < src.n+3; i++ {
					if i == at {
						f()
						t.still(u)
					}
					t.step(u)
				}
				u.Traces++
			}
		}
		other := sp.States[(int(k)*7+3)%len(sp.States)].Set
		run("s.Elements(), overwritten", func() {
			l := st.Set.Elements()
			var m uint32
			for i, e := range l {
				m |= 1 << uint(e.ID)
				l[i] = E{ID: 99}
			}
			u.Check(m == st.Mask && len(l) == bitsOf(st.Mask), "Elements() has %s", core.MaskString(m))
		})
		run("Any", func() {
			if st.Mask == 0 {
				u.Check(u.Panics(func() { st.Set.Any() }) != nil, "Any() of the empty set does not panic")
			} else {
				u.Check(st.Mask>>uint(st.Set.Any().ID)&1 != 0, "Any() = %v", st.Set.Any())
			}
		})
		run("s.Union(t), s.Intersection(t), s.Difference(t)", func() {
			st.Set.Union(other)
			other.Union(st.Set)
			st.Set.Intersection(other)
			st.Set.Difference(other)
			st.Set.Equal(other)
		})
		for e := range els {
			e := e
			run(fmt.Sprintf("s.With(e%d), s.Without(e%d)", e, e), func() {
				st.Set.With(els[e]).With(els[(e+1)%len(els)])
				st.Set.Without(els[e]).With(els[e])
			})
		}
		u.Tick()
	}
	sp.ReplayAll()
}

func c06Int(u *Unit) {
	vals := []int{0, 5, 63, 64, 127, 1 << 30, -1, -64, -65}
	id := func(v int) int {
		for i, x := range vals {
			if x == v {
				return i
			}
		}
		return 62
	}
	mk := func(m uint32, how int) iterSource {
		var s frozen.IntSet[int]
		var xs []int
		for i, v := range vals {
			if m>>uint(i)&1 != 0 {
				xs = append(xs, v)
				s = s.With(v)
			}
		}
		if how == 0 {
			s = frozen.NewIntSet(xs...)
		}
		u.States++
		return iterSource{name: fmt.Sprintf("IntSet%v", xs), mask: uint64(m), n: len(xs), mk: func() stepper {
			it := s.Range()
			cur := func() int { return id(it.Value()) }
			return stepper{next: func() int {
				if !it.Next() {
					return -1
				}
				return cur()
			}, again: cur}
		}}
	}
	n := uint(len(vals))
	for m := uint32(0); m < 1<<n; m++ {
		if bitsOf(m) > 4 {
			continue
		}
		a, b := mk(m, 0), mk(m, 1)
		interleavings(u, &a, &b, 1)
		if bitsOf(m) <= 2 {
			for k := uint32(0); k < 1<<n; k++ {
				if bitsOf(k) <= 2 {
					b := mk(k, 1)
					interleavings(u, &a, &b, 1)
				}
			}
		}
		var s frozen.IntSet[int]
		for i, v := range vals {
			if m>>uint(i)&1 != 0 {
				s = s.With(v)
			}
		}
		u.Case(func() string { return fmt.Sprintf("Any/Elements of %v", s) })
		if m != 0 {
			u.Check(m>>uint(id(s.Any()))&1 != 0, "Any() = %d of %s", s.Any(), a.name)
		}
		var got uint32
		for _, v := range s.Elements() {
			u.Check(got>>uint(id(v))&1 == 0, "Elements() repeats %d", v)
			got |= 1 << uint(id(v))
		}
		u.Check(got == m, "Elements() = %v, want %s", s.Elements(), a.name)
	}
}

// c06Large: deep and wide sets; two and three iterators advanced in blocks of
// all sizes up to 9, and a complete iteration nested at every position.
func c06Large(u *Unit, g core.HashGeom) {
	shapes := []core.Shape{}
	comb := core.Shape{Name: "comb"}
	h := uint64(0x5a5a5a5a5a5a5a5a)
	for i := 0; i < g.Max; i++ {
		sh := 64 - (i+1)*g.Bits
		if sh < 0 {
			sh = 0
		}
		comb.H = append(comb.H, h^uint64(g.Slots-1)<<uint(sh))
	}
	comb.H = append(comb.H, h, h, h, h)
	shapes = append(shapes, comb)
	for _, d := range []int{1, 2, 3} {
		s := core.Shape{Name: fmt.Sprintf("full%d", d)}
		n := 1
		for i := 0; i < d; i++ {
			n *= g.Slots
		}
		for i := 0; i < n; i++ {
			s.H = append(s.H, uint64(i)<<uint(64-d*g.Bits))
		}
		shapes = append(shapes, s)
		if d < 3 { // with twigs
			t := core.Shape{Name: s.Name + "-twigs"}
			for _, h := range s.H {
				t.H = append(t.H, h, h, h)
			}
			shapes = append(shapes, t)
		}
	}
	sparse := core.Shape{Name: "random"}
	for i := 0; i < 300; i++ {
		sparse.H = append(sparse.H, core.Mix(uint64(i)))
	}
	shapes = append(shapes, sparse)
	for _, s := range shapes {
		s := s
		n := len(s.H)
		var b frozen.SetBuilder[E]
		var mb frozen.MapBuilder[E, int]
		for i, h := range s.H {
			b.Add(E{ID: int32(i), H: h})
			mb.Put(E{ID: int32(i), H: h}, i)
		}
		set, m := b.Finish(), mb.Finish()
		u.States += 2
		type it struct {
			next func() (int, bool)
			seen []bool
			n    int
			end  bool
		}
		var what string
		u.Case(func() string { return fmt.Sprintf("%d elements, shape %s: %s", n, s.Name, what) })
		mkIt := func(k int) *it {
			x := &it{seen: make([]bool, n)}
			if k%2 == 0 {
				r := set.Range()
				x.next = func() (int, bool) {
					if r.Next() {
						return int(r.Value().ID), true
					}
					return 0, false
				}
			} else {
				r := m.Range()
				x.next = func() (int, bool) {
					if r.Next() {
						if int(r.Key().ID) != r.Value() {
							u.Failf("entry %v: %d", r.Key(), r.Value())
						}
						return r.Value(), true
					}
					return 0, false
				}
			}
			return x
		}
		adv := func(x *it, k int) {
			for ; k > 0; k-- {
				i, ok := x.next()
				u.Trans++
				if !ok {
					if x.n != n {
						u.Failf("an iterator ended after %d of %d elements", x.n, n)
					}
					x.end = true
				} else if x.end {
					u.Failf("an iterator yields e%d after the end", i)
				} else if x.seen[i] {
					u.Failf("an iterator yields e%d twice", i)
				} else {
					x.seen[i] = true
					x.n++
				}
			}
		}
		for a := 1; a <= 9; a++ {
			for b := 1; b <= 9; b++ {
				what = fmt.Sprintf("three iterators advanced by %d, %d, 1 in turn", a, b)
				x, y, z := mkIt(0), mkIt(a+b), mkIt(0)
				for i := 0; i < n+4; i++ {
					adv(x, a)
					adv(y, b)
					adv(z, 1)
				}
				u.Check(x.end && y.end && z.end, "an iterator did not end")
				u.Traces++
				u.Tick()
			}
		}
		outer := mkIt(0)
		for i := 0; i <= n+1; i++ {
			what = fmt.Sprintf("a complete iteration after %d steps of another", i)
			inner := mkIt(i)
			adv(inner, n+2)
			u.Check(inner.end, "the inner iterator did not end")
			adv(outer, 1)
			u.Tick()
		}
		u.Check(outer.end, "the outer iterator did not end")
		u.Check(len(set.Elements()) == n, "Elements() has %d elements", len(set.Elements()))
		u.Sample("%s: %d elements, block interleavings 1..9 x 1..9", s.Name, n)
	}
}
