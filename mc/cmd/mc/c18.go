//go:build !sel || c18 || c19 || c20 || c21

package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"

	"verif/mc/core"
)

func init() {
	checks["C18"] = c18
	checks["C19"] = c19
	checks["C21"] = c21
}

// lworld numbers the values that occur: elements of the universe and sets of
// numbered values. A set is modelled by the mask of its members' numbers.
type lworld struct {
	u    *Unit
	base []any
	sets map[uint64]int // mask of members -> number
	vals []any          // value of each number
	// onCall, if set, is called by every predicate and mapper
	onCall func()
	other  lazy.Set
	// few limits the arguments of queries
	few bool
}

func newLworld(u *Unit, base []any) *lworld {
	return &lworld{u: u, base: base, sets: map[uint64]int{}, vals: append([]any(nil), base...)}
}

func (w *lworld) call() {
	if w.onCall != nil {
		w.onCall()
	}
}

// setID numbers the set with the given members.
func (w *lworld) setID(mask uint64) int {
	if i, has := w.sets[mask]; has {
		return i
	}
	i := len(w.vals)
	if i > 63 {
		panic("too many values")
	}
	w.sets[mask] = i
	w.vals = append(w.vals, w.frozen(mask))
	return i
}

// frozen makes a fresh eager set of numbered values.
func (w *lworld) frozen(mask uint64) lazy.Set {
	var s frozen.Set[any]
	for i := 0; mask>>uint(i) != 0; i++ {
		if mask>>uint(i)&1 != 0 {
			s = s.With(w.vals[i])
		}
	}
	return lazy.Frozen(s)
}

func (w *lworld) id(v any) int {
	if s, is := v.(lazy.Set); is {
		var m uint64
		for i := s.Range(); i.Next(); {
			b := uint64(1) << uint(w.id(i.Value()))
			if m&b != 0 {
				w.u.Failf("a nested set yields an element twice")
			}
			m |= b
		}
		return w.setID(m)
	}
	for i, b := range w.base {
		if b == v {
			return i
		}
	}
	w.u.Failf("%T value %v is not in the universe", v, v)
	return -1
}

func (w *lworld) show(mask uint64) string {
	var ss []string
	for i := 0; i < 64; i++ {
		if mask>>uint(i)&1 == 0 {
			continue
		}
		if i < len(w.base) {
			ss = append(ss, fmt.Sprint(w.base[i]))
			continue
		}
		for m, k := range w.sets {
			if k == i {
				ss = append(ss, w.show(m))
			}
		}
	}
	return "{" + strings.Join(ss, ",") + "}"
}

func count64(m uint64) int {
	n := 0
	for ; m != 0; m &= m - 1 {
		n++
	}
	return n
}

// lexpr is a lazy expression: mk builds it afresh.
type lexpr struct {
	name  string
	model uint64
	mk    func() lazy.Set
	// emptyP marks a powerset of an empty set, whose FastIsEmpty is a recorded
	// finding; it is not used as an operand.
	emptyP bool
	hasP   bool
}

func (w *lworld) frozenExpr(mask uint64) lexpr {
	return lexpr{name: "F" + w.show(mask), model: mask, mk: func() lazy.Set { return w.frozen(mask) }}
}

func emptyExpr() lexpr {
	return lexpr{name: "EmptySet{}", mk: func() lazy.Set { return lazy.EmptySet{} }}
}

var lazyBinary = []string{"Union", "Intersection", "Difference", "SymmetricDifference"}

func lazyBin(op string, x, y lazy.Set) lazy.Set {
	switch op {
	case "Union":
		return x.Union(y)
	case "Intersection":
		return x.Intersection(y)
	case "Difference":
		return x.Difference(y)
	}
	return x.SymmetricDifference(y)
}

func lazyBinModel(op string, x, y uint64) uint64 {
	switch op {
	case "Union":
		return x | y
	case "Intersection":
		return x & y
	case "Difference":
		return x &^ y
	}
	return x ^ y
}

func (w *lworld) bin(op string, x, y lexpr) lexpr {
	return lexpr{
		name: "(" + x.name + " " + op + " " + y.name + ")", model: lazyBinModel(op, x.model, y.model),
		mk: func() lazy.Set { return lazyBin(op, x.mk(), y.mk()) }, hasP: x.hasP || y.hasP,
	}
}

// same applies op to one and the same object.
func (w *lworld) same(op string, x lexpr) lexpr {
	return lexpr{
		name: "(let x = " + x.name + " in x " + op + " x)", model: lazyBinModel(op, x.model, x.model),
		mk: func() lazy.Set { s := x.mk(); return lazyBin(op, s, s) }, hasP: x.hasP,
	}
}

// where keeps the values numbered in keep. Its predicate need not accept other
// values than the elements of x.
func (w *lworld) where(x lexpr, keep uint64) lexpr {
	return lexpr{
		name: fmt.Sprintf("%s.Where(in %s)", x.name, w.show(keep)), model: x.model & keep,
		mk: func() lazy.Set {
			return x.mk().Where(func(v any) bool {
				w.call()
				id := uint(w.id(v))
				if x.model>>id&1 == 0 {
					w.u.Failf("the predicate of %s.Where is called with %v, which is not an element (one that accepts elements only panics)", x.name, v)
				}
				return keep>>id&1 != 0
			})
		},
		hasP: x.hasP,
	}
}

// mapTo maps the value numbered i to the base value img[i % len(img)].
func (w *lworld) mapTo(x lexpr, img []int) lexpr {
	var m uint64
	for i := 0; i < 64; i++ {
		if x.model>>uint(i)&1 != 0 {
			m |= 1 << uint(img[i%len(img)])
		}
	}
	return lexpr{
		name: fmt.Sprintf("%s.Map(number i -> %v)", x.name, img), model: m,
		mk:   func() lazy.Set { return x.mk().Map(func(v any) any { w.call(); return w.base[img[w.id(v)%len(img)]] }) },
		hasP: x.hasP,
	}
}

func (w *lworld) with(x lexpr, id int) lexpr {
	return lexpr{
		name: fmt.Sprintf("%s.With(%s)", x.name, w.show(1<<uint(id))), model: x.model | 1<<uint(id),
		mk: func() lazy.Set { return x.mk().With(w.vals[id]) }, hasP: x.hasP,
	}
}

func (w *lworld) without(x lexpr, id int) lexpr {
	return lexpr{
		name: fmt.Sprintf("%s.Without(%s)", x.name, w.show(1<<uint(id))), model: x.model &^ (1 << uint(id)),
		mk: func() lazy.Set { return x.mk().Without(w.vals[id]) }, hasP: x.hasP,
	}
}

func (w *lworld) powerset(x lexpr) lexpr {
	var m uint64
	sub := x.model
	for {
		m |= 1 << uint(w.setID(sub))
		if sub == 0 {
			break
		}
		sub = (sub - 1) & x.model
	}
	return lexpr{
		name: x.name + ".Powerset()", model: m, mk: func() lazy.Set { return x.mk().Powerset() },
		emptyP: x.model == 0 && x.name != "EmptySet{}", hasP: true,
	}
}

func (w *lworld) freeze(x lexpr) lexpr {
	return lexpr{name: x.name + ".Freeze()", model: x.model, mk: func() lazy.Set { return x.mk().Freeze() }, hasP: x.hasP}
}

// evaluated is x after it was iterated.
func (w *lworld) evaluated(x lexpr) lexpr {
	return lexpr{name: "evaluated(" + x.name + ")", model: x.model, hasP: x.hasP, emptyP: x.emptyP, mk: func() lazy.Set {
		s := x.mk()
		for i := s.Range(); i.Next(); {
		}
		return s
	}}
}

// unary lists the one-operand expressions over x.
func (w *lworld) unary(x lexpr, wide bool) []lexpr {
	if x.emptyP {
		return nil
	}
	n := len(w.base)
	all := uint64(1)<<uint(n) - 1
	var out []lexpr
	keeps := []uint64{0, all &^ 1, 2, ^uint64(0)}
	imgs := [][]int{{0}, {1, 0}, {0, 0, 1}}
	if wide {
		keeps = append(keeps, 1, 4, 5, 6)
		imgs = append(imgs, []int{1, 2, 0}, []int{1, 1, 2})
	}
	for _, k := range keeps {
		out = append(out, w.where(x, k))
	}
	for _, img := range imgs {
		out = append(out, w.mapTo(x, img))
	}
	for id := 0; id < n; id++ {
		if id == 0 || wide || id == n-1 {
			out = append(out, w.with(x, id), w.without(x, id))
		}
	}
	return append(out, w.freeze(x))
}

// lexprs lists the expressions of one level over the bases.
func (w *lworld) level1(bases []lexpr, wide bool) []lexpr {
	var out []lexpr
	for _, x := range bases {
		for _, y := range bases {
			for _, op := range lazyBinary {
				out = append(out, w.bin(op, x, y))
			}
		}
		out = append(out, w.unary(x, wide)...)
		out = append(out, w.powerset(x))
	}
	return out
}

func (w *lworld) subsets(masks ...uint64) []lexpr {
	out := []lexpr{emptyExpr()}
	for _, m := range masks {
		out = append(out, w.frozenExpr(m))
	}
	return out
}

// powersets lists expressions whose elements are sets.
func (w *lworld) powersets(bases []lexpr, level1 []lexpr) []lexpr {
	var ps []lexpr
	for _, x := range append(append([]lexpr(nil), bases...), level1...) {
		if count64(x.model) <= 3 && !x.hasP {
			if p := w.powerset(x); !p.emptyP {
				ps = append(ps, p)
			}
		}
	}
	return ps
}

// queries ------------------------------------------------------------------

type lquery struct {
	name string
	run  func(w *lworld, s lazy.Set, e *lexpr)
}

// probes lists the numbered values asked for.
func (w *lworld) probes(e *lexpr) []int {
	var out []int
	for i := range w.vals {
		if i < len(w.base) || e.hasP && i < 14 || e.model>>uint(i)&1 != 0 {
			out = append(out, i)
		}
	}
	if w.few {
		out = append(out[:2:2], out[len(out)-1])
	}
	return out
}

func lazyQueries(full bool) []lquery {
	qs := []lquery{
		{"IsEmpty", func(w *lworld, s lazy.Set, e *lexpr) {
			w.u.Check(s.IsEmpty() == (e.model == 0), "IsEmpty() = %v", e.model != 0)
		}},
		{"Count", func(w *lworld, s lazy.Set, e *lexpr) {
			c := s.Count()
			w.u.Check(c == count64(e.model), "Count() = %d, want %d", c, count64(e.model))
		}},
		{"CountUpTo", func(w *lworld, s lazy.Set, e *lexpr) {
			n := count64(e.model)
			for _, lim := range []int{0, 1, n - 1, n, n + 1, 1 << 40} {
				if lim < 0 || w.few && lim != 1 && lim != n {
					continue
				}
				want := n
				if lim < n {
					want = lim
				}
				c := s.CountUpTo(lim)
				w.u.Check(c == want, "CountUpTo(%d) = %d, want %d", lim, c, want)
			}
		}},
		{"Range", func(w *lworld, s lazy.Set, e *lexpr) { w.rangeAll(s, e) }},
		{"Range to the 1st", func(w *lworld, s lazy.Set, e *lexpr) { w.rangeSome(s, e, 1) }},
		{"Range to the last", func(w *lworld, s lazy.Set, e *lexpr) { w.rangeSome(s, e, count64(e.model)) }},
		{"Freeze", func(w *lworld, s lazy.Set, e *lexpr) {
			f := s.Freeze()
			w.rangeAll(f, e)
			w.u.Check(f.Count() == count64(e.model), "Freeze().Count() = %d", f.Count())
			for _, i := range w.probes(e) {
				w.u.Check(f.Has(w.vals[i]) == (e.model>>uint(i)&1 != 0), "Freeze().Has(%s) is wrong", w.show(1<<uint(i)))
			}
		}},
		{"EqualSet", func(w *lworld, s lazy.Set, e *lexpr) {
			w.u.Check(s.EqualSet(w.frozen(e.model)), "EqualSet(the same elements) = false")
			for _, m := range w.neighbours(e) {
				w.u.Check(!s.EqualSet(w.frozen(m)), "EqualSet(%s) = true", w.show(m))
			}
		}},
		{"reverse EqualSet", func(w *lworld, s lazy.Set, e *lexpr) {
			w.u.Check(w.frozen(e.model).EqualSet(s), "the same elements.EqualSet = false")
			for _, m := range w.neighbours(e) {
				w.u.Check(!w.frozen(m).EqualSet(s), "%s.EqualSet = true", w.show(m))
			}
		}},
		{"IsSubsetOf", func(w *lworld, s lazy.Set, e *lexpr) {
			w.u.Check(s.IsSubsetOf(w.frozen(e.model)), "IsSubsetOf(the same elements) = false")
			for _, m := range w.neighbours(e) {
				want := e.model&^m == 0
				w.u.Check(s.IsSubsetOf(w.frozen(m)) == want, "IsSubsetOf(%s) = %v", w.show(m), !want)
			}
		}},
		{"reverse IsSubsetOf", func(w *lworld, s lazy.Set, e *lexpr) {
			w.u.Check(w.frozen(e.model).IsSubsetOf(s), "the same elements.IsSubsetOf = false")
			w.u.Check(lazy.EmptySet{}.IsSubsetOf(s), "EmptySet{}.IsSubsetOf = false")
			for _, m := range w.neighbours(e) {
				want := m&^e.model == 0
				w.u.Check(w.frozen(m).IsSubsetOf(s) == want, "%s.IsSubsetOf = %v", w.show(m), !want)
			}
		}},
		{"Has", func(w *lworld, s lazy.Set, e *lexpr) {
			for _, i := range w.probes(e) {
				want := e.model>>uint(i)&1 != 0
				w.u.Check(s.Has(w.vals[i]) == want, "Has(%s) = %v", w.show(1<<uint(i)), !want)
			}
		}},
		{"Hash", func(w *lworld, s lazy.Set, e *lexpr) { s.Hash(0) }},
	}
	if full {
		qs = append(qs,
			lquery{"two iterators", func(w *lworld, s lazy.Set, e *lexpr) { w.twoIterators(s, e) }},
			lquery{"Fast queries", func(w *lworld, s lazy.Set, e *lexpr) {
				s.FastIsEmpty()
				s.FastCount()
				s.FastCountUpTo(2)
				s.FastHas(w.base[0])
			}})
	}
	return qs
}

// neighbours lists contents that differ from the expression's in one value.
func (w *lworld) neighbours(e *lexpr) []uint64 {
	var out []uint64
	for i := range w.vals {
		b := uint64(1) << uint(i)
		if e.model&b != 0 || i < len(w.base) || e.hasP && i < 8 {
			out = append(out, e.model^b)
		}
	}
	if w.few && len(out) > 1 {
		out = []uint64{out[len(out)-1]}
	}
	return out
}

func (w *lworld) rangeAll(s lazy.Set, e *lexpr) {
	var seen uint64
	it := s.Range()
	for it.Next() {
		b := uint64(1) << uint(w.id(it.Value()))
		if seen&b != 0 {
			w.u.Failf("Range yields %s twice", w.show(b))
		}
		seen |= b
	}
	w.u.Check(seen == e.model, "Range yields %s, want %s", w.show(seen), w.show(e.model))
	w.u.Check(!it.Next() && !it.Next(), "Next() after the end = true")
}

func (w *lworld) rangeSome(s lazy.Set, e *lexpr, n int) {
	var seen uint64
	it := s.Range()
	for i := 0; i < n && e.model != 0; i++ {
		w.u.Check(it.Next(), "Range ends after %d of %d elements", i, count64(e.model))
		b := uint64(1) << uint(w.id(it.Value()))
		if seen&b != 0 || e.model&b == 0 {
			w.u.Failf("Range yields %s, after %s", w.show(b), w.show(seen))
		}
		seen |= b
	}
}

// twoIterators advances two iterators in every interleaving that gives each
// turns of one or all steps.
func (w *lworld) twoIterators(s lazy.Set, e *lexpr) {
	n := count64(e.model)
	a, b := s.Range(), s.Range()
	var sa, sb uint64
	step := func(it lazy.SetIterator, seen *uint64, i int) {
		if i < n {
			w.u.Check(it.Next(), "with two iterators: Next() = false after %d of %d", i, n)
			bit := uint64(1) << uint(w.id(it.Value()))
			w.u.Check(*seen&bit == 0 && e.model&bit != 0, "with two iterators: %s after %s", w.show(bit), w.show(*seen))
			*seen |= bit
		} else {
			w.u.Check(!it.Next(), "with two iterators: Next() = true after %d of %d", i, n)
		}
	}
	for i := 0; i <= n; i++ {
		step(a, &sa, i)
		step(b, &sb, i)
	}
}

// interleavings of the steps of two iterators over one fresh set.
func (w *lworld) interleavings(e *lexpr) {
	n := count64(e.model)
	if n > 4 {
		return
	}
	total := 2 * (n + 1)
	for sched := 0; sched < 1<<uint(total); sched++ {
		if bitsOf(uint32(sched)) != n+1 {
			continue
		}
		s := e.mk()
		its := [2]lazy.SetIterator{s.Range(), s.Range()}
		var seen [2]uint64
		var step [2]int
		for k := 0; k < total; k++ {
			x := sched >> uint(k) & 1
			ok := its[x].Next()
			w.u.Check(ok == (step[x] < n), "two iterators, schedule %b: step %d of iterator %d: Next() = %v", sched, step[x], x, ok)
			if ok {
				b := uint64(1) << uint(w.id(its[x].Value()))
				w.u.Check(seen[x]&b == 0 && e.model&b != 0, "two iterators, schedule %b: iterator %d yields %s after %s",
					sched, x, w.show(b), w.show(seen[x]))
				seen[x] |= b
			}
			step[x]++
		}
		w.rangeAll(s, e)
		w.u.Traces++
	}
}

func lazyUniverses() map[string][]any {
	return map[string][]any{
		"spread":    {E{ID: 0, H: 0}, E{ID: 1, H: 1 << 62}, E{ID: 2, H: 1 << 63}},
		"colliding": {E{ID: 0, H: 5}, E{ID: 1, H: 5}, E{ID: 2, H: 5}},
		// the union of two elements hashes like nothing at all
		"cancelling": {E{ID: 0, H: 7}, E{ID: 1, H: 7}, E{ID: 2, H: 0}},
		"mixed":      {1, "1", E{ID: 2, H: 3}},
	}
}

var lazyUniverseNames = []string{"spread", "colliding", "cancelling", "mixed"}

// sequences calls f with every sequence of k of n numbers.
func sequences(n, k int, f func([]int)) {
	seq := make([]int, k)
	var rec func(i int)
	rec = func(i int) {
		if i == k {
			f(seq)
			return
		}
		for x := 0; x < n; x++ {
			seq[i] = x
			rec(i + 1)
		}
	}
	rec(0)
}

func (w *lworld) runSeqs(e *lexpr, qs []lquery, k int) {
	u := w.u
	var done []string
	u.Case(func() string {
		return fmt.Sprintf("s = %s = %s\nqueries: %s", e.name, w.show(e.model), strings.Join(done, "; "))
	})
	sequences(len(qs), k, func(seq []int) {
		s := e.mk()
		done = done[:0]
		for _, q := range seq {
			done = append(done, qs[q].name)
			qs[q].run(w, s, e)
			u.Trans++
		}
		u.Tick()
	})
	u.States++
}

func lazyPart(list []lexpr, part, parts int) []lexpr {
	var out []lexpr
	for i, e := range list {
		if i%parts == part {
			out = append(out, e)
		}
	}
	return out
}

func allMasks(n int) []uint64 {
	var out []uint64
	for m := uint64(0); m < 1<<uint(n); m++ {
		out = append(out, m)
	}
	return out
}

// level2 calls f with the expressions over level-1 operands that fall to part.
func (w *lworld) level2(bases, l1 []lexpr, part, parts int, f func(e lexpr)) {
	ops := append(append([]lexpr(nil), bases...), l1...)
	i := 0
	for _, x := range ops {
		if x.emptyP {
			continue
		}
		for _, y := range ops {
			if y.emptyP || x.hasP && y.hasP {
				continue
			}
			if i++; i%parts != part {
				continue
			}
			for _, op := range lazyBinary {
				f(w.bin(op, x, y))
			}
		}
		if i++; i%parts == part {
			for _, e := range w.unary(x, false) {
				f(e)
			}
			for _, op := range lazyBinary {
				f(w.same(op, x))
			}
		}
	}
}

func c18(c *Ctx) {
	unis := lazyUniverses()
	for _, name := range lazyUniverseNames {
		base := unis[name]
		const parts = 4
		for part := 0; part < parts; part++ {
			part := part
			c.Unit(fmt.Sprintf("C18/sequences/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				bases := w.subsets(allMasks(3)...)
				exprs := append(bases, w.level1(bases, true)...)
				k := 2
				if name == "colliding" || c.Thorough() {
					k = 3
				}
				if name == "colliding" && c.Thorough() {
					k = 4
				}
				qs := lazyQueries(true)
				for _, e := range lazyPart(exprs, part, parts) {
					e := e
					w.runSeqs(&e, qs, k)
					u.Case(func() string { return "s = " + e.name })
					w.interleavings(&e)
				}
				u.Sample("all sequences of %d of %d queries on %d expressions, e.g. %s", k, len(qs), len(exprs)/parts, exprs[len(exprs)/2].name)
			})
			c.Unit(fmt.Sprintf("C18/depth2/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				masks := []uint64{0, 3, 6}
				if c.Thorough() {
					masks = []uint64{0, 1, 3, 6, 7}
				}
				bases := w.subsets(masks...)
				l1 := w.level1(bases, c.Thorough())
				qs := lazyQueries(false)
				k := 1
				if name == "colliding" && c.Thorough() {
					k = 2
				}
				n := 0
				w.level2(bases, l1, part, parts, func(e lexpr) {
					w.runSeqs(&e, qs, k)
					n++
				})
				u.Sample("%d expressions of depth 2, every query on each", n)
			})
			c.Unit(fmt.Sprintf("C18/powersets/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				for i, e := range lazyPart(w.powerExprs(), part, parts) {
					e := e
					k := 1
					if i%6 == 0 || c.Thorough() {
						k = 2
					}
					w.runSeqs(&e, lazyQueries(true), k)
				}
				u.Sample("expressions whose elements are sets")
			})
			c.Unit(fmt.Sprintf("C18/shared/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				c18Shared(w, part, parts, c.Thorough())
			})
		}
	}
	c.Unit("C18/known", func(u *Unit) {
		w := newLworld(u, unis["spread"])
		p := w.powerset(w.frozenExpr(0))
		one := w.frozenExpr(p.model)
		for _, e := range []lexpr{w.bin("Intersection", p, one), w.bin("Difference", p, one), w.bin("Difference", one, p)} {
			s := e.mk()
			u.Trans++
			u.Case(func() string { return e.name })
			if s.Count() != count64(e.model) {
				u.Finding("operand:"+e.name, "%s has %d elements, want %d", e.name, s.Count(), count64(e.model))
			}
		}
		u.Sample("operations on the powerset of an empty set")
	})
	c.Unit("C18/large", c18Large)
	lazySizeUnits(c, "C18", c18Sized)
	lazyShared(c, "C18")
	c.Unit("C18/big powersets", func(u *Unit) { bigPowersets(u, false) })
}

// powerExprs lists expressions whose elements are sets.
func (w *lworld) powerExprs() []lexpr {
	bases := w.subsets(1, 3, 6, 7)
	var out []lexpr
	ps := w.powersets(bases, []lexpr{
		w.bin("Union", w.frozenExpr(1), w.frozenExpr(3)), w.bin("Difference", w.frozenExpr(7), w.frozenExpr(1)),
		w.where(w.frozenExpr(7), 5), w.mapTo(w.frozenExpr(7), []int{0, 0, 1}),
	})
	eager := []lexpr{w.frozenExpr(ps[1].model), w.frozenExpr(ps[2].model | 1), w.frozenExpr(1 << uint(w.setID(0)))}
	out = append(out, ps...)
	for _, x := range ps {
		for _, y := range append(append([]lexpr(nil), ps...), eager...) {
			for _, op := range lazyBinary {
				out = append(out, w.bin(op, x, y), w.bin(op, y, x))
			}
		}
		for _, m := range []uint64{0, 1, 3} {
			id := w.setID(m)
			out = append(out, w.with(x, id), w.without(x, id), w.where(x, 1<<uint(id)))
		}
		out = append(out, w.with(x, 0), w.without(x, 0), w.mapTo(x, []int{0, 1, 2}), w.mapTo(x, []int{1}), w.freeze(x))
	}
	// powersets of powersets
	for _, m := range []uint64{1, 3} {
		out = append(out, w.powerset(w.powerset(w.frozenExpr(m))))
	}
	out = append(out, w.powerset(w.powerset(emptyExpr())))
	return out
}

// c18Shared: a set and sets derived from it are queried alternately.
func c18Shared(w *lworld, part, parts int, thorough bool) {
	u := w.u
	bases := w.subsets(3, 6)
	l1 := w.level1(bases, false)
	qs := lazyQueries(false)
	var few []lquery
	for _, q := range qs {
		switch q.name {
		case "Count", "Range to the 1st", "Range", "Freeze", "Has", "IsEmpty":
			few = append(few, q)
		}
	}
	b := w.frozenExpr(5)
	derived := []struct {
		name string
		f    func(x lazy.Set) lazy.Set
		m    func(x uint64) uint64
	}{
		{"x.Union(F5)", func(x lazy.Set) lazy.Set { return x.Union(b.mk()) }, func(x uint64) uint64 { return x | 5 }},
		{"F5.Difference(x)", func(x lazy.Set) lazy.Set { return b.mk().Difference(x) }, func(x uint64) uint64 { return 5 &^ x }},
		{"x.SymmetricDifference(F5)", func(x lazy.Set) lazy.Set { return x.SymmetricDifference(b.mk()) }, func(x uint64) uint64 { return x ^ 5 }},
		{"x.Where(not 0)", func(x lazy.Set) lazy.Set {
			return x.Where(func(v any) bool { return w.id(v) != 0 })
		}, func(x uint64) uint64 { return x &^ 1 }},
		{"x.Intersection(x)", func(x lazy.Set) lazy.Set { return x.Intersection(x) }, func(x uint64) uint64 { return x }},
	}
	k := 3
	if thorough {
		k = 4
	}
	for i := range l1 {
		x := l1[i]
		if i%parts != part || x.emptyP {
			continue
		}
		for _, d := range derived {
			y := lexpr{name: d.name, model: d.m(x.model), hasP: x.hasP}
			var done []string
			u.Case(func() string {
				return fmt.Sprintf("x = %s = %s\ny = %s\nqueries: %s", x.name, w.show(x.model), y.name, strings.Join(done, "; "))
			})
			sequences(2*len(few), k, func(seq []int) {
				sx := x.mk()
				sy := d.f(sx)
				done = done[:0]
				for _, q := range seq {
					u.Trans++
					if q%2 == 0 {
						done = append(done, "x."+few[q/2].name)
						few[q/2].run(w, sx, &x)
					} else {
						done = append(done, "y."+few[q/2].name)
						few[q/2].run(w, sy, &y)
					}
				}
				u.Tick()
			})
			u.States++
		}
	}
	u.Sample("a set and one derived from it, all sequences of %d queries on either", k)
}

// c18Large: sets of dozens of elements.
func c18Large(u *Unit) {
	n := 0
	u.Case(func() string { return fmt.Sprintf("lazy sets over 0..%d", n) })
	for _, n = range []int{5, 9, 17, 40, 100} {
		mk := func(f func(i int) bool) (lazy.Set, map[any]bool) {
			m := map[any]bool{}
			var s frozen.Set[any]
			for i := 0; i < n; i++ {
				if f(i) {
					s = s.With(i)
					m[i] = true
				}
			}
			return lazy.Frozen(s), m
		}
		a, am := mk(func(i int) bool { return i%2 == 0 })
		b, bm := mk(func(i int) bool { return i%3 == 0 })
		check := func(what string, s lazy.Set, in func(i int) bool) {
			for round := 0; round < 2; round++ {
				got := map[any]bool{}
				for it := s.Range(); it.Next(); {
					u.Check(!got[it.Value()], "%s yields %v twice", what, it.Value())
					got[it.Value()] = true
				}
				want := 0
				for i := 0; i < n; i++ {
					if in(i) {
						want++
					}
					u.Check(got[i] == in(i) && s.Has(i) == in(i), "%s: element %d", what, i)
				}
				u.Check(len(got) == want && s.Count() == want && s.IsEmpty() == (want == 0) && s.CountUpTo(3) == min(3, want),
					"%s: %d elements, Count %d, want %d", what, len(got), s.Count(), want)
				u.Trans++
			}
		}
		check("a|b", a.Union(b), func(i int) bool { return am[i] || bm[i] })
		check("a&b", a.Intersection(b), func(i int) bool { return am[i] && bm[i] })
		check("a-b", a.Difference(b), func(i int) bool { return am[i] && !bm[i] })
		check("a^b", a.SymmetricDifference(b), func(i int) bool { return am[i] != bm[i] })
		check("(a|b)-a", a.Union(b).Difference(a), func(i int) bool { return bm[i] && !am[i] })
		check("a.Map", a.Map(func(v any) any { return v.(int) / 4 }), func(i int) bool {
			for j := range am {
				if j.(int)/4 == i {
					return true
				}
			}
			return false
		})
		check("a.Where", a.Union(b).Where(func(v any) bool { return v.(int) > n/2 }), func(i int) bool { return (am[i] || bm[i]) && i > n/2 })
		u.States += 7
	}
	u.Sample("sets of up to 100 numbers")
}

// fastChecks verifies whatever the fast queries claim to know.
func (w *lworld) fastChecks(s lazy.Set, e *lexpr, evaluated bool) (known [4]bool) {
	u := w.u
	n := count64(e.model)
	if v, ok := s.FastIsEmpty(); ok {
		known[0] = true
		if v != (n == 0) {
			if e.emptyP && !evaluated {
				u.Finding("Powerset of an empty set: FastIsEmpty", "FastIsEmpty() = (%v, true) with %d elements", v, n)
			} else {
				u.Failf("FastIsEmpty() = (%v, true) with %d elements", v, n)
			}
		}
	}
	if v, ok := s.FastCount(); ok {
		known[1] = true
		u.Check(v == n, "FastCount() = (%d, true), want %d", v, n)
	}
	for _, lim := range []int{0, 1, 2, n - 1, n, n + 1, 1 << 40} {
		if lim < 0 {
			continue
		}
		if v, ok := s.FastCountUpTo(lim); ok {
			known[2] = true
			u.Check(v == min(lim, n), "FastCountUpTo(%d) = (%d, true), want %d", lim, v, min(lim, n))
		}
	}
	for _, i := range w.probes(e) {
		if v, ok := s.FastHas(w.vals[i]); ok {
			known[3] = true
			want := e.model>>uint(i)&1 != 0
			u.Check(v == want, "FastHas(%s) = (%v, true)", w.show(1<<uint(i)), v)
		}
	}
	return
}

func (w *lworld) fastSeq(e *lexpr, qs []lquery, k int) {
	u := w.u
	var done []string
	u.Case(func() string {
		return fmt.Sprintf("s = %s = %s\nfast queries after: %s", e.name, w.show(e.model), strings.Join(done, "; "))
	})
	sequences(len(qs), k, func(seq []int) {
		s := e.mk()
		done = done[:0]
		known := w.fastChecks(s, e, false)
		for _, q := range seq {
			done = append(done, qs[q].name)
			qs[q].run(w, s, e)
			w.fastChecks(s, e, false)
			u.Trans++
		}
		done = append(done, "Range to the end")
		w.rangeAll(s, e)
		after := w.fastChecks(s, e, true)
		for i := range known {
			u.Check(after[i] || !known[i], "a fast query (number %d) that had an answer has none after a full iteration", i)
		}
		w.fastChecks(s.Freeze(), e, true)
		u.Tick()
	})
	u.States++
}

func c19(c *Ctx) {
	lazySizeUnits(c, "C19", c19Sized)
	lazyShared(c, "C19")
	c.Unit("C19/big powersets", func(u *Unit) { bigPowersets(u, true) })
	unis := lazyUniverses()
	for _, name := range lazyUniverseNames {
		base := unis[name]
		const parts = 4
		for part := 0; part < parts; part++ {
			part := part
			c.Unit(fmt.Sprintf("C19/sequences/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				bases := w.subsets(allMasks(3)...)
				exprs := append(bases, w.level1(bases, true)...)
				k := 2
				if c.Thorough() {
					k = 3
				}
				qs := lazyQueries(false)
				for _, e := range lazyPart(exprs, part, parts) {
					e := e
					w.fastSeq(&e, qs, k)
				}
				u.Sample("fast queries after all sequences of %d of %d queries on %d expressions", k, len(qs), len(exprs)/parts)
			})
			c.Unit(fmt.Sprintf("C19/depth2/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				masks := []uint64{0, 3, 6}
				if c.Thorough() {
					masks = []uint64{0, 1, 3, 6, 7}
				}
				bases := w.subsets(masks...)
				l1 := w.level1(bases, c.Thorough())
				// operands that were evaluated before have other fast answers
				var ev []lexpr
				for i, e := range l1 {
					if i%3 == 0 && !e.emptyP {
						ev = append(ev, w.evaluated(e))
					}
				}
				n := 0
				w.level2(append(bases, ev...), l1, part, parts, func(e lexpr) {
					w.fastSeq(&e, nil, 0)
					n++
				})
				u.Sample("%d expressions of depth 2 over evaluated and unevaluated operands", n)
			})
			c.Unit(fmt.Sprintf("C19/powersets/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				for _, e := range lazyPart(w.powerExprs(), part, parts) {
					e := e
					w.fastSeq(&e, lazyQueries(false), 1)
				}
				u.Sample("expressions whose elements are sets")
			})
		}
	}
}

func c21(c *Ctx) {
	lazySizeUnits(c, "C21", c21Sized)
	lazyShared(c, "C21")
	unis := lazyUniverses()
	for _, name := range lazyUniverseNames {
		base := unis[name]
		const parts = 8
		for part := 0; part < parts; part++ {
			part := part
			c.Unit(fmt.Sprintf("C21/pairs/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				bases := w.subsets(0, 1, 3, 5, 6, 7)
				exprs := append(bases, w.level1(bases, c.Thorough())...)
				c21Pairs(w, lazyPart(exprs, part, parts), exprs)
			})
			c.Unit(fmt.Sprintf("C21/powersets/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				exprs := w.powerExprs()
				step := 8
				if c.Thorough() {
					step = 1
				}
				var sel []lexpr
				for i := range exprs {
					if i%step == 0 || i < 12 {
						sel = append(sel, exprs[i])
					}
				}
				c21Pairs(w, lazyPart(sel, part, parts), sel)
			})
			c.Unit(fmt.Sprintf("C21/depth2/%s/%d", name, part), func(u *Unit) {
				w := newLworld(u, base)
				masks := []uint64{0, 3, 6}
				if c.Thorough() {
					masks = []uint64{0, 1, 3, 6, 7}
				}
				bases := w.subsets(masks...)
				l1 := w.level1(bases, false)
				n := 0
				w.level2(bases, l1, part, parts, func(e lexpr) {
					n++
					c21One(w, &e)
				})
				u.Sample("%d expressions of depth 2 against eager sets", n)
			})
		}
		c.Unit("C21/elements/"+name, func(u *Unit) { c21Elements(newLworld(u, base)) })
	}
}

var lazySeeds = []uintptr{0, 1, 0x9e3779b97f4a7c15, ^uintptr(0)}

// c21One compares one expression with eager sets.
func c21One(w *lworld, e *lexpr) {
	u := w.u
	u.Case(func() string { return fmt.Sprintf("s = %s = %s", e.name, w.show(e.model)) })
	f := w.frozen(e.model)
	for _, ev := range []bool{false, true} {
		mk := e.mk
		if ev {
			mk = w.evaluated(*e).mk
		}
		s := mk()
		u.Check(s.Hash(3) == f.Hash(3), "hash differs from that of the eager set (evaluated: %v)", ev)
		u.Check(f.Equal(mk()), "eager.Equal(s) = false (evaluated: %v)", ev)
		u.Check(mk().Equal(f), "s.Equal(eager) = false (evaluated: %v)", ev)
		for _, m := range w.neighbours(e) {
			u.Check(!mk().Equal(w.frozen(m)) && !w.frozen(m).Equal(mk()), "Equal to %s (evaluated: %v)", w.show(m), ev)
		}
		u.Trans += 3
	}
	u.States++
	u.Tick()
}

func c21Pairs(w *lworld, left, right []lexpr) {
	u := w.u
	var x, y *lexpr
	var ex, ey bool
	u.Case(func() string {
		return fmt.Sprintf("s = %s = %s, evaluated: %v\nt = %s = %s, evaluated: %v", x.name, w.show(x.model), ex, y.name, w.show(y.model), ey)
	})
	build := func(e *lexpr, ev bool) lazy.Set {
		if ev {
			return w.evaluated(*e).mk()
		}
		return e.mk()
	}
	for i := range left {
		x = &left[i]
		u.States++
		for j := range right {
			y = &right[j]
			u.Tick()
			eq := x.model == y.model
			for st := 0; st < 4; st++ {
				ex, ey = st&1 != 0, st&2 != 0
				u.Trans++
				if g := build(x, ex).Equal(build(y, ey)); g != eq {
					u.Failf("s.Equal(t) = %v", g)
				}
				s, t := build(x, ex), build(y, ey)
				if g := s.EqualSet(t); g != eq {
					u.Failf("s.EqualSet(t) = %v", g)
				}
				// both directions of the same objects
				if g := t.Equal(s); g != eq {
					u.Failf("t.Equal(s) = %v after s.EqualSet(t)", g)
				}
				if eq {
					seed := lazySeeds[(i+j+st)%len(lazySeeds)]
					a, b := build(x, ex).Hash(seed), build(y, ey).Hash(seed)
					u.Check(a == b, "hashes %#x and %#x for seed %#x", a, b, seed)
				}
			}
		}
		for _, o := range []any{nil, 1, "x", w.base[0], []any{}, frozen.Set[any]{}, frozen.NewSet(w.base...), map[any]bool{}} {
			ex, y = false, x
			u.Check(!build(x, false).Equal(o) && !build(x, true).Equal(o), "Equal(%T) = true", o)
		}
	}
	u.Sample("%d expressions against %d, in all states of evaluation", len(left), len(right))
}

// c21Elements: lazy sets as elements and keys.
func c21Elements(w *lworld) {
	u := w.u
	bases := w.subsets(allMasks(3)...)
	exprs := append(bases, w.level1(w.subsets(0, 3, 6), false)...)
	var x *lexpr
	u.Case(func() string { return "element " + x.name })
	var set frozen.Set[any]
	m := map[uint64]bool{}
	for i := range exprs {
		x = &exprs[i]
		set = set.With(x.mk())
		m[x.model] = true
		u.Check(set.Count() == len(m), "a set of lazy sets has Count %d, want %d", set.Count(), len(m))
		for j := range exprs {
			y := &exprs[j]
			u.Check(set.Has(y.mk()) == m[y.model], "Has(%s) = %v", y.name, !m[y.model])
			u.Trans++
		}
		u.Tick()
	}
	var mp frozen.Map[any, int]
	want := map[uint64]int{}
	for i := range exprs {
		x = &exprs[i]
		mp = mp.With(x.mk(), i)
		want[x.model] = i
		u.Check(mp.Count() == len(want), "a map from lazy sets has Count %d, want %d", mp.Count(), len(want))
		for j := 0; j < len(exprs); j += 3 {
			y := &exprs[j]
			v, has := mp.Get(y.mk())
			wv, whas := want[y.model]
			u.Check(has == whas && v == wv, "Get(%s) = %d %v, want %d %v", y.name, v, has, wv, whas)
			u.Trans++
		}
		u.Tick()
	}
	u.States = int64(len(exprs))
	u.Sample("%d lazy sets as elements and keys", len(exprs))
}

var _ = core.E{}
