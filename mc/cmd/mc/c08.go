//go:build !sel || c08 || c12

package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() {
	checks["C08"] = func(c *Ctx) { cBuilder(c, "C08", 1, newSetBuilderSys) }
	checks["C12"] = func(c *Ctx) { cBuilder(c, "C12", 2, newMapBuilderSys) }
}

// A builder under test; a SetBuilder is driven as a map to the value 0.
type builder interface {
	put(k, v int)
	remove(k int)
	get(k int) (int, bool)
	count() int
	print() string
	dump(buf []byte) []byte
	finish() finished
}

// finished is the value a builder produced.
type finished interface {
	observe(c core.Content) string
}

// builderSys makes builders over a universe and compares finished values with
// values built in other ways.
type builderSys struct {
	mk   func(capacity int) builder // capacity < 0: the zero value
	deep func(u *Unit, f finished, c core.Content)
}

type bop struct {
	op   byte // P put, R remove, H probe, S print, F finish
	k, v int
}

func (o bop) String() string {
	switch o.op {
	case 'P':
		return fmt.Sprintf("Put(e%d, %d)", o.k, o.v)
	case 'R':
		return fmt.Sprintf("Remove(e%d)", o.k)
	case 'H':
		return "Has/Get of all, Count"
	case 'G':
		return fmt.Sprintf("Get(e%d)", o.k)
	case 'C':
		return "Count()"
	case 'S':
		return "print"
	default:
		return "Finish()"
	}
}

type bstate struct {
	c    core.Content
	from int
	op   bop
	cap  int
}

func cBuilder(c *Ctx, id string, nv int, sys func(u *Unit, univ core.Univ[E]) *builderSys) {
	g := geom(c)
	add := func(s core.Shape, deep bool, max int) {
		c.Unit(id+"/"+s.Name, func(u *Unit) {
			univ := core.UnivE(s)
			bs := sys(u, univ)
			if !deep {
				bs.deep = nil
			}
			exploreBuilder(u, univ, nv, bs, max)
		})
	}
	for n := 1; n <= 4; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, n <= 3 || c.Thorough()), g) {
			add(s, true, 0)
		}
	}
	max := 3000
	if c.Thorough() {
		max = 200000
	}
	if nv == 1 {
		for n := 5; n <= 6; n++ {
			for _, s := range core.EnumShapes(n, []int{0, 1, g.Max}, g) {
				if n == 6 && !c.Thorough() && !strings.Contains(s.Name, "···") {
					continue
				}
				add(s, n == 5, max)
			}
		}
	} else if c.Thorough() {
		for _, s := range core.EnumShapes(5, []int{0, g.Max}, g) {
			add(s, false, max)
		}
	}
	add(edgeShape(), false, max)
	if nv == 1 || c.Thorough() {
		add(wideShape(9, g), false, max)
	} else {
		add(wideShape(7, g), false, max)
	}
	for n := 2; n <= 3; n++ {
		for _, s := range core.EnumShapes(n, lcps(g, n == 2), g) {
			s := s
			depth := 8 - n
			if c.Thorough() {
				depth++
			}
			c.Unit(id+"/histories/"+s.Name, func(u *Unit) {
				univ := core.UnivE(s)
				bs := sys(u, univ)
				builderHistories(u, univ, nv, bs, depth, -1)
			})
			if n == 2 {
				c.Unit(id+"/capacities/"+s.Name, func(u *Unit) {
					univ := core.UnivE(s)
					bs := sys(u, univ)
					for _, cp := range builderCaps {
						builderHistories(u, univ, nv, bs, depth-2, cp)
					}
				})
			}
		}
	}
	c.Unit(id+"/capacities/long", func(u *Unit) { builderFill(u, c.Thorough()) })
	c.Unit(id+"/long", func(u *Unit) { builderLong(u, g, nv, sys) })
}

func exploreBuilder(u *Unit, univ core.Univ[E], nv int, sys *builderSys, max int) {
	n := len(univ.El)
	var states []bstate
	index := map[string]int{}
	path := func(i int) (int, []bop) {
		var rev []bop
		for ; states[i].from >= 0; i = states[i].from {
			rev = append(rev, states[i].op)
		}
		for a, b := 0, len(rev)-1; a < b; a, b = a+1, b-1 {
			rev[a], rev[b] = rev[b], rev[a]
		}
		return states[i].cap, rev
	}
	apply := func(b builder, o bop) {
		switch o.op {
		case 'P':
			b.put(o.k, o.v)
		case 'R':
			b.remove(o.k)
		case 'H':
			for k := 0; k < n; k++ {
				b.get(k)
			}
			b.count()
		case 'S':
			b.print()
		case 'F':
			b.finish()
		}
	}
	build := func(i int) builder {
		cp, ops := path(i)
		b := sys.mk(cp)
		for _, o := range ops {
			apply(b, o)
		}
		return b
	}
	next := func(c core.Content, o bop) core.Content {
		switch o.op {
		case 'P':
			return c.With(o.k, int8(o.v))
		case 'R':
			return c.With(o.k, -1)
		case 'F':
			return core.EmptyContent()
		}
		return c
	}
	cur, curOp, tail := -1, bop{}, ""
	u.Case(func() string {
		if cur < 0 {
			return "a new builder"
		}
		cp, ops := path(cur)
		return fmt.Sprintf("%s\nbuilder (capacity %d, -1: zero value) after %v, then %v %s", univ.Describe(), cp, ops, curOp, tail)
	})
	observe := func(b builder, c core.Content) {
		if got := b.count(); got != c.Count() {
			u.Failf("Count() = %d, want %d (%v)", got, c.Count(), c)
		}
		for k := 0; k < n; k++ {
			v, has := b.get(k)
			if has != (c[k] >= 0) || has && v != int(c[k]) || !has && v != 0 {
				u.Failf("membership of e%d: %d, %v; want contents %v", k, v, has, c)
			}
		}
	}
	var buf []byte
	add := func(b builder, c core.Content, from int, o bop, cp int) {
		u.Trans++
		u.Tick()
		observe(b, c)
		buf = b.dump(buf[:0])
		if j, has := index[string(buf)]; has {
			if states[j].c != c {
				u.Failf("two histories lead to the same builder but different contents %v and %v", states[j].c, c)
			}
			return
		}
		index[string(buf)] = len(states)
		states = append(states, bstate{c: c, from: from, op: o, cap: cp})
		u.States++
	}
	for _, cp := range []int{-1, 0, 1, 8} {
		add(sys.mk(cp), core.EmptyContent(), -1, bop{}, cp)
	}
	var ops []bop
	for k := 0; k < n; k++ {
		for v := 0; v < nv; v++ {
			ops = append(ops, bop{'P', k, v})
		}
		ops = append(ops, bop{'R', k, 0})
	}
	ops = append(ops, bop{op: 'H'}, bop{op: 'S'}, bop{op: 'F'})
	for i := 0; i < len(states); i++ {
		if max > 0 && len(states) > max {
			u.Capped(fmt.Sprintf("state cap %d", max))
			break
		}
		cur = i
		c := states[i].c
		for _, o := range ops {
			curOp, tail = o, ""
			b := build(i)
			apply(b, o)
			add(b, next(c, o), i, o, 0)
		}
		// Finish: the value is right, the builder is empty and reusable, and the
		// value is not affected by what the builder does afterwards
		curOp, tail = bop{op: 'F'}, ""
		b := build(i)
		f := b.finish()
		u.Trans++
		check := func() {
			if d := f.observe(c); d != "" {
				u.Failf("finished value: %s; want contents %v", d, c)
			}
		}
		check()
		observe(b, core.EmptyContent())
		if sys.deep != nil {
			sys.deep(u, f, c)
		}
		check()
		for a, o1 := range ops {
			b := build(i)
			f = b.finish()
			c1 := next(core.EmptyContent(), o1)
			apply(b, o1)
			o2 := ops[(a*5+i)%len(ops)]
			tail = fmt.Sprintf("then %v, %v", o1, o2)
			c2 := next(c1, o2)
			apply(b, o2)
			u.Trans += 2
			observe(b, c2)
			check()
			if d := b.finish().observe(c2); d != "" {
				u.Failf("value finished second: %s; want contents %v", d, c2)
			}
			check()
		}
		u.Traces++
	}
	if len(states) > 2 {
		cp, p := path(len(states) - 1)
		u.Sample("%d builder states; last one: capacity %d, %v", len(states), cp, p)
	}
}

// builderHistories replays every sequence of operations up to a length on a
// fresh builder. Nothing but the sequence touches the builder (the exploration
// of states probes every key after every step, which would reset whatever a
// lookup leaves behind), every answer on the way is compared, and every value
// finished on the way is observed after the last step.
func builderHistories(u *Unit, univ core.Univ[E], nv int, sys *builderSys, depth, capacity int) {
	n := len(univ.El)
	var ops []bop
	for k := 0; k < n; k++ {
		for v := 0; v < nv; v++ {
			ops = append(ops, bop{'P', k, v})
		}
		ops = append(ops, bop{'R', k, 0}, bop{'G', k, 0})
	}
	ops = append(ops, bop{op: 'F'})
	if nv == 1 {
		ops = append(ops, bop{op: 'C'})
	}
	seq := make([]bop, 0, depth)
	u.Case(func() string {
		return fmt.Sprintf("%s\na builder of capacity %d (-1: zero value): %v, then Finish", univ.Describe(), capacity, seq)
	})
	type fin struct {
		f finished
		c core.Content
	}
	var fins []fin
	run := func() {
		b := sys.mk(capacity)
		c := core.EmptyContent()
		fins = fins[:0]
		for i, o := range seq {
			switch o.op {
			case 'P':
				b.put(o.k, o.v)
				c = c.With(o.k, int8(o.v))
			case 'R':
				b.remove(o.k)
				c = c.With(o.k, -1)
			case 'G':
				v, has := b.get(o.k)
				if has != (c[o.k] >= 0) || has && v != int(c[o.k]) || !has && v != 0 {
					u.Failf("step %d: membership of e%d: %d, %v; want contents %v", i, o.k, v, has, c)
				}
			case 'C':
				if b.count() != c.Count() {
					u.Failf("step %d: Count() = %d, want %d", i, b.count(), c.Count())
				}
			case 'F':
				fins = append(fins, fin{b.finish(), c})
				c = core.EmptyContent()
			}
		}
		u.Trans += int64(len(seq))
		if b.count() != c.Count() {
			u.Failf("Count() = %d, want %d", b.count(), c.Count())
		}
		fins = append(fins, fin{b.finish(), c})
		for i, f := range fins {
			if d := f.f.observe(f.c); d != "" {
				u.Failf("value finished as number %d: %s; want contents %v", i, d, f.c)
			}
		}
		u.Traces++
		u.Tick()
	}
	var rec func()
	rec = func() {
		if len(seq) == depth {
			run()
			return
		}
		for _, o := range ops {
			seq = append(seq, o)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

var builderCaps = []int{0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 500, 512, 1000, 1024, 1025, 2049, 4096, 10000}

// builderFill fills builders of every capacity with elements, some of them
// repeated or removed on the way, and asks for one thing after each step: the
// Count, an element, or nothing until the end.
func builderFill(u *Unit, thorough bool) {
	hashes := []struct {
		name string
		h    func(i int) uint64
	}{
		{"spread", func(i int) uint64 { return core.Mix(uint64(i)) }},
		{"collide 5", func(i int) uint64 { return core.Mix(uint64(i / 5)) }},
		{"low bits", func(i int) uint64 { return uint64(i) }},
	}
	type script struct {
		name string
		// of puts i = 0, 1, ...: which element, and whether to remove one instead
		at func(i, n int) (k int, remove bool)
	}
	scripts := []script{
		{"each once", func(i, n int) (int, bool) { return i % n, false }},
		{"each twice", func(i, n int) (int, bool) { return i / 2 % n, false }},
		{"each twice, far apart", func(i, n int) (int, bool) { return i % n, false }},
		{"every third one removed", func(i, n int) (int, bool) { return i / 3 * 2 % n, i%3 == 2 }},
		{"backwards, removed from the front", func(i, n int) (int, bool) {
			if i < n {
				return n - 1 - i, false
			}
			return i % n, true
		}},
	}
	caps := append([]int{-1}, builderCaps...)
	n, cp, how, what := 0, 0, "", ""
	u.Case(func() string {
		return fmt.Sprintf("builders of capacity %d (-1: zero value) filled with %d elements: %s; %s", cp, n, how, what)
	})
	for _, cp = range caps {
		ns := []int{cp - 1, cp, cp + 1, 2*cp + 1, 3, 20, 40, 150}
		for _, n = range ns {
			if n < 1 || n > 1100 && !thorough {
				continue
			}
			for _, hs := range hashes {
				for _, sc := range scripts {
					for _, ask := range []string{"nothing", "count", "has"} {
						how = fmt.Sprintf("%s, hashes %s, asking for %s after each step", sc.name, hs.name, ask)
						u.Tick()
						el := func(i int) E { return E{ID: int32(i), H: hs.h(i)} }
						var sb frozen.SetBuilder[E]
						var mb frozen.MapBuilder[E, int]
						if cp >= 0 {
							sb, mb = *frozen.NewSetBuilder[E](cp), *frozen.NewMapBuilder[E, int](cp)
						}
						vals := make([]int, n) // 1 + value, 0: absent
						cnt := 0
						for i := 0; i < 2*n; i++ {
							k, remove := sc.at(i, n)
							if remove {
								sb.Remove(el(k))
								mb.Remove(el(k))
								if vals[k] != 0 {
									cnt--
								}
								vals[k] = 0
							} else {
								sb.Add(el(k))
								mb.Put(el(k), i)
								if vals[k] == 0 {
									cnt++
								}
								vals[k] = i + 1
							}
							u.Trans += 2
							switch ask {
							case "count":
								what = fmt.Sprintf("step %d", i)
								if sb.Count() != cnt || mb.Count() != cnt {
									u.Failf("Count() = %d, %d, want %d", sb.Count(), mb.Count(), cnt)
								}
							case "has":
								what = fmt.Sprintf("step %d", i)
								q := i * 7 % n
								v, has := mb.Get(el(q))
								if sb.Has(el(q)) != (vals[q] != 0) || has != (vals[q] != 0) || has && v != vals[q]-1 {
									u.Failf("element %d: Has() = %v, Get() = %d, %v", q, sb.Has(el(q)), v, has)
								}
							}
						}
						what = "at the end"
						setIs(u, "SetBuilder.Finish()", sb.Finish(), el, n, func(i int) bool { return vals[i] != 0 })
						mapIs(u, "MapBuilder.Finish()", mb.Finish(), el, n, func(i int) (int, bool) { return vals[i] - 1, vals[i] != 0 })
						u.Traces++
					}
				}
			}
		}
	}
	u.Sample("capacities %v", caps)
}

// SetBuilder

type setB struct {
	b    *frozen.SetBuilder[E]
	univ core.Univ[E]
}

func (s *setB) put(k, _ int) { s.b.Add(s.univ.El[k]) }
func (s *setB) remove(k int) { s.b.Remove(s.univ.El[k]) }
func (s *setB) get(k int) (int, bool) {
	return 0, s.b.Has(s.univ.El[k])
}
func (s *setB) count() int { return s.b.Count() }
func (s *setB) print() string {
	return fmt.Sprintf("%v%s", *s.b, s.b.String())
}
func (s *setB) dump(buf []byte) []byte { return core.Dump(buf, s.b) }
func (s *setB) finish() finished       { return &finSet{s.b.Finish(), s.univ} }

type finSet struct {
	s    frozen.Set[E]
	univ core.Univ[E]
}

func (f *finSet) observe(c core.Content) string {
	return core.ObserveSet(f.univ, f.s, contentMask(c))
}

func newSetBuilderSys(u *Unit, univ core.Univ[E]) *builderSys {
	n := len(univ.El)
	// other constructions of every content
	type ref struct {
		s    frozen.Set[E]
		mask uint32
		how  string
	}
	var refs []ref
	for m := uint32(0); m < 1<<uint(n); m++ {
		els := maskElems(univ, m)
		up, down := frozen.Set[E]{}, frozen.NewSet(univ.El...)
		for _, e := range els {
			up = up.With(e)
		}
		for i, e := range univ.El {
			if m>>uint(i)&1 == 0 {
				down = down.Without(e)
			}
		}
		refs = append(refs, ref{frozen.NewSet(els...), m, "NewSet"}, ref{up, m, "With"}, ref{down, m, "Without"})
	}
	obs := func(u *Unit, what string, s frozen.Set[E], m uint32) {
		u.Trans++
		if d := core.ObserveSet(univ, s, m); d != "" {
			u.Failf("%s: %s; want %s", what, d, core.MaskString(m))
		}
	}
	return &builderSys{
		mk: func(cp int) builder {
			if cp < 0 {
				return &setB{&frozen.SetBuilder[E]{}, univ}
			}
			return &setB{frozen.NewSetBuilder[E](cp), univ}
		},
		deep: func(u *Unit, f finished, c core.Content) {
			s, m := f.(*finSet).s, contentMask(c)
			for i := range refs {
				r := &refs[i]
				u.Trans += 3
				if s.Equal(r.s) != (m == r.mask) || r.s.Equal(s) != (m == r.mask) {
					u.Failf("the finished set %s and the set %s built by %s compare wrongly", core.MaskString(m), core.MaskString(r.mask), r.how)
				}
				if m == r.mask && s.Hash(7) != r.s.Hash(7) {
					u.Failf("the finished set %s hashes unlike one built by %s", core.MaskString(m), r.how)
				}
				if s.IsSubsetOf(r.s) != (m&^r.mask == 0) || r.s.IsSubsetOf(s) != (r.mask&^m == 0) {
					u.Failf("IsSubsetOf of the finished set %s and the set %s built by %s is wrong", core.MaskString(m), core.MaskString(r.mask), r.how)
				}
				if r.how != "With" {
					continue
				}
				obs(u, "finished.Union", s.Union(r.s), m|r.mask)
				obs(u, "Union(finished)", r.s.Union(s), m|r.mask)
				obs(u, "finished.Intersection", s.Intersection(r.s), m&r.mask)
				obs(u, "finished.Difference", s.Difference(r.s), m&^r.mask)
				obs(u, "Difference(finished)", r.s.Difference(s), r.mask&^m)
				obs(u, "finished.Where", s.Where(func(e E) bool { return r.mask>>uint(e.ID)&1 != 0 }), m&r.mask)
			}
			for i, e := range univ.El {
				obs(u, "finished.With", s.With(e), m|1<<uint(i))
				obs(u, "finished.Without", s.Without(e), m&^(1<<uint(i)))
			}
		},
	}
}

// MapBuilder

type mapB struct {
	b    *frozen.MapBuilder[E, int]
	univ core.Univ[E]
}

func (s *mapB) put(k, v int) { s.b.Put(s.univ.El[k], v) }
func (s *mapB) remove(k int) { s.b.Remove(s.univ.El[k]) }
func (s *mapB) get(k int) (int, bool) {
	v, has := s.b.Get(s.univ.El[k])
	if has != s.b.Has(s.univ.El[k]) {
		return -99, !has
	}
	return v, has
}
func (s *mapB) count() int             { return s.b.Count() }
func (s *mapB) print() string          { return fmt.Sprintf("%v", *s.b) }
func (s *mapB) dump(buf []byte) []byte { return core.Dump(buf, s.b) }
func (s *mapB) finish() finished       { return &finMap{s.b.Finish(), s.univ} }

type finMap struct {
	m    frozen.Map[E, int]
	univ core.Univ[E]
}

func (f *finMap) observe(c core.Content) string { return core.ObserveMap(f.univ, f.m, c) }

func newMapBuilderSys(u *Unit, univ core.Univ[E]) *builderSys {
	n := len(univ.El)
	type ref struct {
		m frozen.Map[E, int]
		c core.Content
	}
	var refs []ref
	// every content over two values (three of them for small universes)
	var rec func(k int, m frozen.Map[E, int], c core.Content)
	rec = func(k int, m frozen.Map[E, int], c core.Content) {
		if k == n {
			refs = append(refs, ref{m, c})
			return
		}
		rec(k+1, m, c)
		rec(k+1, m.With(univ.El[k], 0), c.With(k, 0))
		if k < 3 {
			rec(k+1, m.With(univ.El[k], 1), c.With(k, 1))
		}
	}
	rec(0, frozen.Map[E, int]{}, core.EmptyContent())
	obs := func(u *Unit, what string, m frozen.Map[E, int], c core.Content) {
		u.Trans++
		if d := core.ObserveMap(univ, m, c); d != "" {
			u.Failf("%s: %s; want %v", what, d, c)
		}
	}
	return &builderSys{
		mk: func(cp int) builder {
			if cp < 0 {
				return &mapB{&frozen.MapBuilder[E, int]{}, univ}
			}
			return &mapB{frozen.NewMapBuilder[E, int](cp), univ}
		},
		deep: func(u *Unit, f finished, c core.Content) {
			m := f.(*finMap).m
			for i := range refs {
				r := &refs[i]
				u.Trans += 2
				if m.Equal(r.m) != (c == r.c) || r.m.Equal(m) != (c == r.c) {
					u.Failf("the finished map %v and the map %v compare wrongly", c, r.c)
				}
				if c == r.c && m.Hash(7) != r.m.Hash(7) {
					u.Failf("the finished map %v hashes unlike one built by With", c)
				}
				obs(u, "finished.Update", m.Update(r.m), c.Update(r.c))
				obs(u, "Update(finished)", r.m.Update(m), r.c.Update(c))
			}
			for i, e := range univ.El {
				obs(u, "finished.With", m.With(e, 1), c.With(i, 1))
				obs(u, "finished.Without", m.Without(e), c.With(i, -1))
			}
		},
	}
}

// builderLong grows a builder to several hundred entries and shrinks it again
// in every one of a family of orders, checking at each step.
func builderLong(u *Unit, g core.HashGeom, nv int, sys func(*Unit, core.Univ[E]) *builderSys) {
	hashes := map[string]func(i int) uint64{
		"spread":    func(i int) uint64 { return core.Mix(uint64(i)) },
		"collide 5": func(i int) uint64 { return core.Mix(uint64(i / 5)) },
		"low bits":  func(i int) uint64 { return uint64(i) },
		"all equal": func(i int) uint64 { return 77 },
		"two halves": func(i int) uint64 {
			return uint64(i&1)<<63 | uint64(i/2)<<uint(64-3*g.Bits-6)
		},
	}
	for name, h := range hashes {
		n := 300
		if name == "all equal" {
			n = 60
		}
		for order := 0; order < 3; order++ {
			name, order := name, order
			step, what := 0, ""
			u.Case(func() string {
				return fmt.Sprintf("builder with hashes %q, removal order %d: %s of element %d of %d", name, order, what, step, n)
			})
			var b frozen.SetBuilder[E]
			var m frozen.MapBuilder[E, int]
			el := func(i int) E { return E{ID: int32(i), H: h(i)} }
			at := func(i int) int {
				switch order {
				case 0:
					return i
				case 1:
					return n - 1 - i
				default:
					return i * 7 % n
				}
			}
			in := make([]bool, n)
			cnt := 0
			check := func() {
				u.Trans++
				if b.Count() != cnt || m.Count() != cnt {
					u.Failf("Count() = %d/%d, want %d", b.Count(), m.Count(), cnt)
				}
				if step%16 != 0 && step > 12 {
					return
				}
				for i := 0; i < n; i++ {
					v, has := m.Get(el(i))
					if b.Has(el(i)) != in[i] || has != in[i] || has && v != i {
						u.Failf("membership of element %d is wrong, want %v", i, in[i])
					}
				}
			}
			what = "addition"
			for step = 0; step < n; step++ {
				b.Add(el(step))
				b.Add(el(step / 2))
				m.Put(el(step), -1)
				m.Put(el(step), step)
				in[step] = true
				cnt++
				check()
			}
			what = "removal"
			for step = 0; step < n; step++ {
				i := at(step)
				if order == 2 && n%7 == 0 {
					i = step
				}
				b.Remove(el(i))
				m.Remove(el(i))
				b.Remove(el(i))
				m.Remove(el(i))
				if in[i] {
					cnt--
				}
				in[i] = false
				check()
				if step%37 == 0 {
					// finish a copy-like value and go on with a rebuilt builder
					s, mm := b.Finish(), m.Finish()
					u.Traces++
					if s.Count() != cnt || mm.Count() != cnt || b.Count() != 0 || m.Count() != 0 {
						u.Failf("Finish: Count() = %d/%d, want %d", s.Count(), mm.Count(), cnt)
					}
					k := 0
					for r := s.Range(); r.Next(); k++ {
						if !in[r.Value().ID] {
							u.Failf("the finished set has element %d", r.Value().ID)
						}
						b.Add(r.Value())
						v, _ := mm.Get(r.Value())
						m.Put(r.Value(), v)
					}
					if k != cnt {
						u.Failf("the finished set yields %d elements, want %d", k, cnt)
					}
				}
			}
			u.Tick()
		}
	}
}
