//go:build !sel || c22 || c23

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"
)

func init() {
	checks["C22"] = c22
	checks["C23"] = c23
}

// mtup is a tuple of the model: the index of the value of each attribute, or
// -1 where the tuple lacks it.
type mtup [5]int8

var noTup = mtup{-1, -1, -1, -1, -1}

// mrel is a relation of the model.
type mrel map[mtup]bool

// rworld fixes the names of the attributes and the values.
type rworld struct {
	u     *Unit
	attrs []string
	vals  []any
}

func (w *rworld) tuple(t mtup) rel.Tuple {
	var kvs []frozen.KeyValue[string, any]
	for a, v := range t {
		if v >= 0 {
			kvs = append(kvs, frozen.KV(w.attrs[a], w.vals[v]))
		}
	}
	return rel.NewTuple(kvs...)
}

// relation builds the header and rows through rel.New.
func (w *rworld) relation(head []int, tuples []mtup) rel.Relation {
	names := make([]string, len(head))
	for i, a := range head {
		names[i] = w.attrs[a]
	}
	rows := make([][]any, len(tuples))
	for i, t := range tuples {
		rows[i] = make([]any, len(head))
		for j, a := range head {
			rows[i][j] = w.vals[t[a]]
		}
	}
	return rel.New(names, rows...)
}

func (w *rworld) value(v any) int8 {
	for i, x := range w.vals {
		if w.same(x, v) {
			return int8(i)
		}
	}
	return -2
}

func (w *rworld) same(a, b any) bool {
	if r, is := a.(rel.Relation); is {
		return r.Same(b)
	}
	if _, is := b.(rel.Relation); is {
		return false
	}
	return a == b
}

// read converts a relation to the model by ranging over it.
func (w *rworld) read(r rel.Relation) (mrel, string) {
	m := mrel{}
	n := 0
	for i := r.Range(); i.Next(); n++ {
		t := noTup
		for j := i.Value().Range(); j.Next(); {
			a := -1
			for k, name := range w.attrs {
				if name == j.Key() {
					a = k
				}
			}
			if a < 0 {
				return m, fmt.Sprintf("a tuple has attribute %q", j.Key())
			}
			v := w.value(j.Value())
			if v < 0 {
				return m, fmt.Sprintf("a tuple has value %v", j.Value())
			}
			t[a] = v
		}
		if m[t] {
			return m, fmt.Sprintf("tuple %v occurs twice", w.tuple(t))
		}
		m[t] = true
	}
	if n != r.Count() || r.IsEmpty() != (n == 0) {
		return m, fmt.Sprintf("Count() = %d, IsEmpty() = %v with %d tuples", r.Count(), r.IsEmpty(), n)
	}
	return m, ""
}

func (w *rworld) show(m mrel) string {
	var ss []string
	for t := range m {
		var kv []string
		for a, v := range t {
			if v >= 0 {
				kv = append(kv, fmt.Sprintf("%s:%v", w.attrs[a], w.vals[v]))
			}
		}
		ss = append(ss, "("+strings.Join(kv, ",")+")")
	}
	sort.Strings(ss)
	return "{" + strings.Join(ss, " ") + "}"
}

func (w *rworld) check(op string, r rel.Relation, want mrel) {
	w.u.Trans++
	got, d := w.read(r)
	if d == "" {
		for t := range want {
			if !got[t] {
				d = "a tuple is missing"
			}
		}
		if len(got) != len(want) {
			d = "wrong tuples"
		}
	}
	if d != "" {
		w.u.Failf("%s: %s: %s; want %s", op, d, w.show(got), w.show(want))
	}
	for t := range want {
		w.u.Check(r.Has(w.tuple(t)), "%s: Has(%v) = false", op, w.tuple(t))
	}
}

func joinTuples(s, t mtup) (mtup, bool) {
	for a := range s {
		if s[a] >= 0 && t[a] >= 0 && s[a] != t[a] {
			return s, false
		}
		if t[a] >= 0 {
			s[a] = t[a]
		}
	}
	return s, true
}

func joinModel(a, b mrel) mrel {
	out := mrel{}
	for s := range a {
		for t := range b {
			if u, ok := joinTuples(s, t); ok {
				out[u] = true
			}
		}
	}
	return out
}

func project(m mrel, attrs uint) mrel {
	out := mrel{}
	for t := range m {
		for a := range t {
			if attrs>>uint(a)&1 == 0 {
				t[a] = -1
			}
		}
		out[t] = true
	}
	return out
}

type relInst struct {
	head []int
	hm   uint
	m    mrel
	r    rel.Relation
}

func (w *rworld) desc(r *relInst) string { return w.show(r.m) + " over " + w.headNames(r.hm) }

func (w *rworld) headNames(hm uint) string {
	var ss []string
	for a, n := range w.attrs {
		if hm>>uint(a)&1 != 0 {
			ss = append(ss, n)
		}
	}
	return "[" + strings.Join(ss, ",") + "]"
}

// rows lists all tuples over a header.
func rows(head []int, nv int) []mtup {
	out := []mtup{noTup}
	for _, a := range head {
		var next []mtup
		for _, t := range out {
			for v := 0; v < nv; v++ {
				t[a] = int8(v)
				next = append(next, t)
			}
		}
		out = next
	}
	return out
}

func headOf(hm uint) []int {
	var h []int
	for a := 0; a < 5; a++ {
		if hm>>uint(a)&1 != 0 {
			h = append(h, a)
		}
	}
	return h
}

// all lists all relations over the header, keep selecting the row masks.
func (w *rworld) all(hm uint, nv int, keep func(rowMask uint64, n int) bool) []*relInst {
	head := headOf(hm)
	ts := rows(head, nv)
	var out []*relInst
	if len(ts) > 20 {
		panic("too many rows")
	}
	for mask := uint64(0); mask < 1<<uint(len(ts)); mask++ {
		if keep != nil && !keep(mask, len(ts)) {
			continue
		}
		ri := &relInst{head: head, hm: hm, m: mrel{}}
		var sel []mtup
		for i, t := range ts {
			if mask>>uint(i)&1 != 0 {
				sel = append(sel, t)
				ri.m[t] = true
			}
		}
		ri.r = w.relation(head, sel)
		out = append(out, ri)
	}
	return out
}

// few keeps relations with at most k rows or lacking at most one.
func few(k int) func(uint64, int) bool {
	return func(m uint64, n int) bool {
		c := bitsOf(uint32(m))
		return c <= k || c >= n-1
	}
}

// relValues are the value alphabets: the hashes of E values are chosen so that
// tuples collide.
func relValues() map[string][]any {
	return map[string][]any{
		"ints": {10, 11, 12},
		// the hash of a tuple combines the hashes of the values: these tuples
		// all hash alike
		"colliding": {E{ID: 0, H: 0}, E{ID: 1, H: 0}, E{ID: 2, H: 0}},
		// tuples hash alike when their values are permuted
		"partial": {E{ID: 0, H: 1 << 63}, E{ID: 1, H: 1}, E{ID: 2, H: 3 << 60}},
		"mixed":   {1, "1", nil},
		"nested":  {rel.New([]string{"q"}, []any{1}), rel.Relation{}, rel.New([]string{}, []any{})},
	}
}

var relValueNames = []string{"ints", "colliding", "partial", "mixed", "nested"}

func c22(c *Ctx) {
	all := relValues()
	c22Sizes(c)
	c22Wide(c)
	for _, vn := range relValueNames {
		vals := all[vn]
		if vn == "mixed" {
			vals = []any{1, "1"} // nil elements of interface type are outside the contract
		}
		for hm := uint(0); hm < 8; hm++ {
			hm := hm
			parts := 1
			if hm == 7 {
				parts = 6
			}
			for part := 0; part < parts; part++ {
				part := part
				c.Unit(fmt.Sprintf("C22/pairs/%s/header%d.%d", vn, hm, part), func(u *Unit) {
					w := &rworld{u: u, attrs: []string{"a", "b", "c", "d"}, vals: vals}
					var sel func(uint64, int) bool
					if vn != "ints" && !c.Thorough() {
						sel = few(3)
					}
					var left []*relInst
					for i, l := range w.all(hm, 2, sel) {
						if i%parts == part {
							left = append(left, l)
						}
					}
					c22Pairs(w, left, func(h uint) []*relInst { return w.all(h, 2, sel) })
				})
			}
		}
		c.Unit("C22/nary/"+vn, func(u *Unit) {
			w := &rworld{u: u, attrs: []string{"a", "b", "c", "d"}, vals: vals}
			c22Nary(w, c.Thorough())
		})
		c.Unit("C22/project/"+vn, func(u *Unit) {
			w := &rworld{u: u, attrs: []string{"a", "b", "c", "d"}, vals: vals}
			c22Project(w)
		})
	}
	for part := 0; part < 8; part++ {
		part := part
		c.Unit(fmt.Sprintf("C22/3values/%d", part), func(u *Unit) {
			w := &rworld{u: u, attrs: []string{"a", "b", "c", "d"}, vals: all["ints"]}
			k := 3
			if c.Thorough() {
				k = 9
			}
			left := w.all(3, 3, few(k))
			var mine []*relInst
			for i, l := range left {
				if i%8 == part {
					mine = append(mine, l)
				}
			}
			right := w.all(6, 3, few(k))
			c22Pairs(w, mine, func(h uint) []*relInst {
				if h == 6 {
					return right
				}
				return nil
			})
		})
	}
}

func c22Pairs(w *rworld, left []*relInst, right func(h uint) []*relInst) {
	u := w.u
	var s, t *relInst
	u.Case(func() string { return fmt.Sprintf("s = %s\nt = %s", w.desc(s), w.desc(t)) })
	for h := uint(0); h < 8; h++ {
		rs := right(h)
		for _, s = range left {
			for _, t = range rs {
				u.Tick()
				want := joinModel(s.m, t.m)
				w.check("Join(s, t)", rel.Join(s.r, t.r), want)
				w.check("Join(t, s)", rel.Join(t.r, s.r), want)
				if s.hm&t.hm == 0 {
					w.check("CartesianProduct(s, t)", rel.CartesianProduct(s.r, t.r), want)
				}
			}
		}
		u.States += int64(len(rs))
	}
	for _, s = range left {
		t = s
		w.check("s afterwards", s.r, s.m)
		u.Traces++
	}
	u.Sample("%d relations joined with all relations over the headers", len(left))
}

// c22Nary: three and four operands, one and none.
func c22Nary(w *rworld, thorough bool) {
	u := w.u
	var ops []*relInst
	u.Case(func() string {
		var ss []string
		for _, o := range ops {
			ss = append(ss, w.desc(o))
		}
		return "operands " + strings.Join(ss, "\n  ")
	})
	byH := map[uint][]*relInst{}
	k := 1
	if thorough {
		k = 2
	}
	for h := uint(0); h < 16; h++ {
		if bitsOf(uint32(h)) <= 2 {
			byH[h] = w.all(h, 2, few(k))
		}
	}
	run := func() {
		u.Tick()
		want := mrel{noTup: true}
		var rs []rel.Relation
		disjoint := true
		var hm uint
		for _, o := range ops {
			want = joinModel(want, o.m)
			rs = append(rs, o.r)
			disjoint = disjoint && hm&o.hm == 0
			hm |= o.hm
		}
		if len(ops) > 0 {
			w.check("Join", rel.Join(rs...), want)
		}
		if disjoint {
			w.check("CartesianProduct", rel.CartesianProduct(rs...), want)
		}
	}
	run()
	chains := [][]uint{{1}, {3}, {0}, {3, 6, 5}, {1, 2, 4}, {1, 2, 3}, {3, 6, 12}, {1, 2, 4, 8}, {0, 1, 2}, {3, 3, 3}, {1, 6, 8}}
	for _, ch := range chains {
		var rec func(i int)
		rec = func(i int) {
			if i == len(ch) {
				run()
				u.States++
				return
			}
			for _, r := range byH[ch[i]] {
				ops = append(ops, r)
				rec(i + 1)
				ops = ops[:len(ops)-1]
			}
		}
		ops = nil
		rec(0)
	}
	u.Sample("operands over headers %v", chains)
}

func c22Project(w *rworld) {
	u := w.u
	var s *relInst
	var names []string
	u.Case(func() string { return fmt.Sprintf("s = %s\nProject(s, %v)", w.desc(s), names) })
	for h := uint(0); h < 16; h++ {
		if bitsOf(uint32(h)) == 4 {
			continue
		}
		for _, s = range w.all(h, 2, nil) {
			u.States++
			for am := uint(0); am < 16; am++ {
				names = nil
				for _, a := range headOf(am) {
					names = append(names, w.attrs[a])
				}
				u.Tick()
				w.check("Project", rel.Project(s.r, names...), project(s.m, am))
			}
			// repetitions and other orders
			names = []string{"b", "a", "b"}
			w.check("Project", rel.Project(s.r, names...), project(s.m, 3))
		}
	}
	u.Sample("all projections of all relations over up to 3 of 4 attributes")
}

func c23(c *Ctx) {
	all := relValues()
	c23Sizes(c)
	c23Wide(c)
	for _, vn := range relValueNames {
		vals := all[vn][:2]
		for hm := uint(0); hm < 8; hm++ {
			hm := hm
			c.Unit(fmt.Sprintf("C23/nest/%s/header%d", vn, hm), func(u *Unit) {
				w := &rworld{u: u, attrs: []string{"a", "b", "c", "d"}, vals: vals}
				c23Nest(w, w.all(hm, 2, nil))
			})
		}
		c.Unit("C23/unnest/"+vn, func(u *Unit) {
			w := &rworld{u: u, attrs: []string{"a", "b", "c", "d"}, vals: vals}
			c23Unnest(w, c.Thorough())
		})
	}
	for part := 0; part < 8; part++ {
		part := part
		c.Unit(fmt.Sprintf("C23/nest/3values/%d", part), func(u *Unit) {
			w := &rworld{u: u, attrs: []string{"a", "b", "c", "d"}, vals: all["ints"]}
			var mine []*relInst
			for i, r := range w.all(3, 3, nil) {
				if i%8 == part {
					mine = append(mine, r)
				}
			}
			c23Nest(w, mine)
		})
		if c.Thorough() {
			c.Unit(fmt.Sprintf("C23/nest/4attributes/%d", part), func(u *Unit) {
				w := &rworld{u: u, attrs: []string{"a", "b", "c", "d"}, vals: all["ints"]}
				var mine []*relInst
				for i, r := range w.all(15, 2, nil) {
					if i%8 == part {
						mine = append(mine, r)
					}
				}
				c23Nest(w, mine)
			})
		}
	}
}

// groupModel is the result of nesting: remaining tuple to sub-relation.
func (w *rworld) checkNested(op string, r rel.Relation, name string, want map[mtup]mrel) {
	u := w.u
	u.Trans++
	u.Check(r.Count() == len(want), "%s has %d tuples, want %d", op, r.Count(), len(want))
	seen := map[mtup]bool{}
	for i := r.Range(); i.Next(); {
		t := i.Value()
		v, has := t.Get(name)
		u.Check(has, "%s: tuple %v lacks attribute %q", op, t, name)
		sub, is := v.(rel.Relation)
		u.Check(is, "%s: attribute %q is a %T", op, name, v)
		rest, d := w.read(frozen.NewSet(t.Without(name)))
		if d != "" || len(rest) != 1 {
			u.Failf("%s: tuple %v: %s", op, t, d)
		}
		for rt := range rest {
			u.Check(!seen[rt], "%s: the combination %s occurs twice", op, w.show(rest))
			seen[rt] = true
			g, has := want[rt]
			u.Check(has, "%s: unexpected combination %s", op, w.show(rest))
			w.check(op+": the sub-relation of "+w.show(rest), sub, g)
			// the tuple can be looked up
			u.Check(r.Has(w.tuple(rt).With(name, any(w.relOf(g)))), "%s: Has of the expected tuple of %s is false", op, w.show(rest))
		}
	}
}

func (w *rworld) relOf(m mrel) rel.Relation {
	var b rel.RelationBuilder
	for t := range m {
		b.Add(w.tuple(t))
	}
	return b.Finish()
}

func c23Nest(w *rworld, rs []*relInst) {
	u := w.u
	var s *relInst
	var am uint
	name := ""
	u.Case(func() string { return fmt.Sprintf("s = %s\nNest(s, {%s: %s})", w.desc(s), name, w.headNames(am)) })
	for _, s = range rs {
		u.States++
		for am = 1; am <= s.hm; am++ {
			if am&^s.hm != 0 {
				continue
			}
			attrs := headOf(am)
			names := make([]string, len(attrs))
			for i, a := range attrs {
				names[i] = w.attrs[a]
			}
			want := map[mtup]mrel{}
			for t := range s.m {
				rest, in := t, noTup
				for _, a := range attrs {
					in[a], rest[a] = t[a], -1
				}
				if want[rest] == nil {
					want[rest] = mrel{}
				}
				want[rest][in] = true
			}
			// a new name and that of one of the nested attributes
			for _, name = range []string{"n", names[0]} {
				u.Tick()
				r := rel.Nest(s.r, frozen.NewMap(frozen.KV(name, frozen.NewSet(names...))))
				w.checkNested("Nest", r, name, want)
				back := rel.Unnest(r, name)
				w.check("Unnest(Nest(s))", back, s.m)
				u.Check(back.Equal(s.r), "Unnest(Nest(s)) is not Equal to s")
			}
		}
		w.check("s afterwards", s.r, s.m)
		u.Traces++
	}
	if len(rs) > 0 {
		u.Sample("%d relations over %s, every non-empty subset of the attributes nested", len(rs), w.headNames(rs[0].hm))
	}
}

// c23Unnest: nested relations that are not the result of Nest, with empty and
// overlapping sub-relations.
func c23Unnest(w *rworld, thorough bool) {
	u := w.u
	type ntup struct {
		rest mtup
		sub  *relInst
	}
	for _, heads := range [][2]uint{{0, 1}, {1, 2}, {1, 0}, {1, 1}, {1, 3}, {3, 4}, {3, 6}, {0, 3}} {
		rest, sub := heads[0], heads[1]
		var cand []ntup
		subs := w.all(sub, 2, few(2))
		for _, t := range rows(headOf(rest), 2) {
			for _, s := range subs {
				cand = append(cand, ntup{t, s})
			}
		}
		max := 3
		if len(cand) > 24 && !thorough {
			max = 2
		}
		if len(cand) <= 8 {
			max = 8
		}
		var pick []ntup
		u.Case(func() string {
			s := "Unnest of"
			for _, p := range pick {
				s += "\n  " + w.show(mrel{p.rest: true}) + " n: " + w.desc(p.sub)
			}
			return s
		})
		run := func() {
			u.Tick()
			var b rel.RelationBuilder
			want := mrel{}
			for _, p := range pick {
				b.Add(w.tuple(p.rest).With("n", any(p.sub.r)))
				for t := range joinModel(mrel{p.rest: true}, p.sub.m) {
					want[t] = true
				}
			}
			s := b.Finish()
			w.check("Unnest", rel.Unnest(s, "n"), want)
			u.States++
		}
		var rec func(from int)
		rec = func(from int) {
			run()
			if len(pick) == max {
				return
			}
			for i := from; i < len(cand); i++ {
				pick = append(pick, cand[i])
				rec(i + 1)
				pick = pick[:len(pick)-1]
			}
		}
		rec(0)
	}
	u.Sample("all nested relations of up to 2-8 tuples over several headers")
}
