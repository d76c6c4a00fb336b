//go:build !sel || c22 || c23

package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/pkg/rel"

	"verif/mc/core"
)

// A brel is a relation of the model with numbers for values.
type brel struct {
	head []string
	rows [][]int
}

func (b brel) key(i int, attrs []string) string {
	var sb strings.Builder
	for _, a := range attrs {
		for j, h := range b.head {
			if h == a {
				fmt.Fprintf(&sb, "%s=%d,", a, b.rows[i][j])
			}
		}
	}
	return sb.String()
}

// distinct drops repeated rows.
func (b brel) distinct() brel {
	seen := map[string]bool{}
	out := brel{head: b.head}
	for i := range b.rows {
		if k := b.key(i, b.head); !seen[k] {
			seen[k] = true
			out.rows = append(out.rows, b.rows[i])
		}
	}
	return out
}

func commonOf(a, b []string) []string {
	var out []string
	for _, x := range a {
		for _, y := range b {
			if x == y {
				out = append(out, x)
			}
		}
	}
	return out
}

func bjoin(a, b brel) brel {
	common := commonOf(a.head, b.head)
	out := brel{head: append([]string{}, a.head...)}
	var extra []int
	for j, h := range b.head {
		if len(commonOf([]string{h}, common)) == 0 {
			out.head = append(out.head, h)
			extra = append(extra, j)
		}
	}
	by := map[string][]int{}
	for i := range b.rows {
		k := b.key(i, common)
		by[k] = append(by[k], i)
	}
	for i, r := range a.rows {
		for _, k := range by[a.key(i, common)] {
			row := append([]int{}, r...)
			for _, j := range extra {
				row = append(row, b.rows[k][j])
			}
			out.rows = append(out.rows, row)
		}
	}
	return out.distinct()
}

func (b brel) project(attrs ...string) brel {
	out := brel{head: commonOf(b.head, attrs)}
	for _, r := range b.rows {
		var row []int
		for j, h := range b.head {
			if len(commonOf([]string{h}, attrs)) > 0 {
				row = append(row, r[j])
			}
		}
		out.rows = append(out.rows, row)
	}
	return out.distinct()
}

// bvals turns numbers into values and back.
type bvals struct {
	name string
	val  func(i int) any
	num  func(v any) int
}

var bvalss = []bvals{
	{"ints", func(i int) any { return i }, func(v any) int { return v.(int) }},
	{"strings", func(i int) any { return fmt.Sprint("v", i) }, func(v any) (n int) { fmt.Sscan(v.(string)[1:], &n); return n }},
	{"pairs collide", func(i int) any { return E{ID: int32(i), H: core.Mix(uint64(i / 2))} }, func(v any) int { return int(v.(E).ID) }},
	{"all collide", func(i int) any { return E{ID: int32(i), H: 5} }, func(v any) int { return int(v.(E).ID) }},
}

func (v bvals) rel(b brel) rel.Relation {
	rows := make([][]any, len(b.rows))
	for i, r := range b.rows {
		for _, x := range r {
			rows[i] = append(rows[i], v.val(x))
		}
	}
	return rel.New(b.head, rows...)
}

func (v bvals) tuple(b brel, i int) rel.Tuple {
	var t rel.Tuple
	for j := len(b.head) - 1; j >= 0; j-- {
		t = t.With(b.head[j], v.val(b.rows[i][j]))
	}
	return t
}

// is compares a relation with the model.
func (v bvals) is(u *Unit, what string, r rel.Relation, want brel) {
	u.Trans++
	head := append([]string{}, want.head...)
	sort.Strings(head)
	in := map[string]int{}
	for i := range want.rows {
		in[want.key(i, head)] = i
	}
	if r.Count() != len(in) || r.IsEmpty() != (len(in) == 0) {
		u.Failf("%s has %d tuples, want %d", what, r.Count(), len(in))
	}
	n := 0
	for q := r.Range(); q.Next(); n++ {
		t := q.Value()
		var sb strings.Builder
		for _, h := range head {
			x, has := t.Get(h)
			if !has {
				u.Failf("%s: the tuple %v lacks %s", what, t, h)
			}
			fmt.Fprintf(&sb, "%s=%d,", h, v.num(x))
		}
		if _, is := in[sb.String()]; !is || t.Count() != len(head) {
			u.Failf("%s has the tuple %v, too often or without reason", what, t)
		}
		delete(in, sb.String())
	}
	if len(in) > 0 || n != r.Count() {
		u.Failf("%s lacks %v", what, in)
	}
	step := max(1, len(want.rows)/12)
	for i := 0; i < len(want.rows); i += step {
		if !r.Has(v.tuple(want, i)) {
			u.Failf("%s: Has(%v) = false", what, v.tuple(want, i))
		}
	}
}

// makeRel: n rows, column j of row i has the value f[j](i).
func makeRel(n int, head []string, f ...func(i int) int) brel {
	b := brel{head: head}
	for i := 0; i < n; i++ {
		var row []int
		for j := range head {
			row = append(row, f[j](i))
		}
		b.rows = append(b.rows, row)
	}
	return b.distinct()
}

func relSizes(c *Ctx, top int, big ...int) [][2]int {
	var out [][2]int
	for n := 0; n <= top; n++ {
		for m := 0; m <= top; m++ {
			out = append(out, [2]int{n, m})
		}
	}
	for _, b := range big {
		for _, s := range []int{0, 1, 2, 9, b / 4, b - 1, b} {
			out = append(out, [2]int{s, b}, [2]int{b, s})
		}
	}
	return out
}

func c22Sizes(c *Ctx) {
	id := func(i int) int { return i }
	neg := func(i int) int { return 1000 - i }
	div := func(k int) func(int) int { return func(i int) int { return i / k } }
	mod := func(k int) func(int) int { return func(i int) int { return i % k } }
	off := func(k int) func(int) int { return func(i int) int { return i + k } }
	families := []struct {
		name string
		s, t func(n int) brel
	}{
		{"one to one", func(n int) brel { return makeRel(n, []string{"k", "a"}, id, neg) }, func(n int) brel { return makeRel(n, []string{"b", "k"}, id, off(1)) }},
		{"one to three", func(n int) brel { return makeRel(n, []string{"k", "a"}, id, mod(2)) }, func(n int) brel { return makeRel(n, []string{"k", "b"}, div(3), id) }},
		{"few keys", func(n int) brel { return makeRel(n, []string{"a", "k"}, id, mod(5)) }, func(n int) brel { return makeRel(n, []string{"k", "b"}, mod(7), id) }},
		{"one key", func(n int) brel { return makeRel(n, []string{"a", "k"}, id, mod(1)) }, func(n int) brel { return makeRel(n, []string{"k", "b"}, div(400), id) }},
		{"two common attributes", func(n int) brel { return makeRel(n, []string{"a", "k", "l"}, id, mod(3), div(2)) }, func(n int) brel { return makeRel(n, []string{"l", "k", "b"}, div(3), mod(2), id) }},
		{"permuted values", func(n int) brel { return makeRel(n, []string{"k", "l"}, id, off(1)) }, func(n int) brel { return makeRel(n, []string{"l", "k"}, id, off(1)) }},
		{"the same attributes", func(n int) brel { return makeRel(n, []string{"k", "l"}, id, mod(4)) }, func(n int) brel { return makeRel(n, []string{"k", "l"}, off(2), mod(4)) }},
		{"a part of the attributes", func(n int) brel { return makeRel(n, []string{"k", "l"}, id, mod(4)) }, func(n int) brel { return makeRel(n, []string{"k"}, off(3)) }},
		{"nothing in common", func(n int) brel { return makeRel(n, []string{"a"}, id) }, func(n int) brel { return makeRel(n, []string{"b", "c"}, id, mod(2)) }},
	}
	top, big := 10, []int{40, 100}
	if c.Config != "default" {
		top, big = 6, []int{40}
	}
	if c.Thorough() {
		top, big = 24, []int{40, 100, 300}
	}
	for _, v := range bvalss {
		for _, fam := range families {
			c.Unit(fmt.Sprintf("C22/sizes/%s/%s", v.name, fam.name), func(u *Unit) {
				var nm [2]int
				u.Case(func() string {
					return fmt.Sprintf("%s, values %s: relations of %d and %d rows", fam.name, v.name, nm[0], nm[1])
				})
				for _, nm = range relSizes(c, top, big...) {
					if v.name == "all collide" && nm[0]+nm[1] > 60 || nm[0]*nm[1] > 12000 && (fam.name == "one key" || fam.name == "nothing in common") {
						continue
					}
					u.Tick()
					u.States += 2
					bs, bt := fam.s(nm[0]), fam.t(nm[1])
					s, t := v.rel(bs), v.rel(bt)
					want := bjoin(bs, bt)
					v.is(u, "Join(s, t)", rel.Join(s, t), want)
					v.is(u, "Join(t, s)", rel.Join(t, s), want)
					if len(commonOf(bs.head, bt.head)) == 0 {
						v.is(u, "CartesianProduct(s, t)", rel.CartesianProduct(s, t), want)
						v.is(u, "CartesianProduct(t, s)", rel.CartesianProduct(t, s), want)
					}
					if nm[1] == nm[0] || nm[1] == 0 {
						for m := 0; m < 1<<uint(len(bs.head)); m++ {
							var as []string
							for j, h := range bs.head {
								if m>>uint(j)&1 != 0 {
									as = append(as, h)
								}
							}
							p := bs.project(as...)
							v.is(u, fmt.Sprintf("Project(s, %v)", as), rel.Project(s, as...), p)
							v.is(u, fmt.Sprintf("Join(s, Project(s, %v))", as), rel.Join(s, rel.Project(s, as...)), bs)
						}
					}
					v.is(u, "s afterwards", s, bs)
					v.is(u, "t afterwards", t, bt)
				}
				u.Sample("all pairs of numbers of rows up to %d and some up to %d", top, big[len(big)-1])
			})
		}
		c.Unit("C22/operands/"+v.name, func(u *Unit) { c22Operands(u, v, c.Thorough()) })
	}
}

// c22Operands: every number of operands.
func c22Operands(u *Unit, v bvals, thorough bool) {
	attr := func(i int) string { return fmt.Sprint("a", i) }
	var what string
	n := 0
	u.Case(func() string { return fmt.Sprintf("%d relations, %s, values %s", n, what, v.name) })
	top := 14
	if thorough {
		top = 24
	}
	families := []struct {
		name string
		rel  func(i, n int) brel
	}{
		{"a chain of one to one", func(i, n int) brel {
			return makeRel(3, []string{attr(i), attr(i + 1)}, func(r int) int { return r }, func(r int) int { return (r + 1) % 3 })
		}},
		{"a chain that thins out", func(i, n int) brel {
			return makeRel(n+3-i, []string{attr(i + 1), attr(i)}, func(r int) int { return r }, func(r int) int { return r })
		}},
		{"a star", func(i, n int) brel {
			return makeRel(3, []string{attr(i + 1), "k"}, func(r int) int { return 10*i + r }, func(r int) int { return r })
		}},
		{"the same attributes", func(i, n int) brel {
			return makeRel(n+2, []string{"k", "l"}, func(r int) int { return r + i/2 }, func(r int) int { return (r + i/2) % 3 })
		}},
		{"nothing in common", func(i, n int) brel {
			return makeRel(1+i%5/4, []string{attr(i)}, func(r int) int { return r + i })
		}},
		{"nothing in common, true in between", func(i, n int) brel {
			if i%3 == 1 {
				return makeRel(1, nil)
			}
			return makeRel(1+i%6/5, []string{attr(i)}, func(r int) int { return r + i })
		}},
		{"the last one empty", func(i, n int) brel {
			k := 2
			if i == n-1 {
				k = 0
			}
			return makeRel(k, []string{attr(i), attr(i + 1)}, func(r int) int { return r }, func(r int) int { return r })
		}},
		{"the last one odd", func(i, n int) brel {
			k := 0
			if i == n-1 {
				k = 1
			}
			return makeRel(2, []string{attr(i), attr(i + 1)}, func(r int) int { return r }, func(r int) int { return r + k })
		}},
	}
	for n = 1; n <= top; n++ {
		for _, fam := range families {
			var bs []brel
			var rs []rel.Relation
			for i := 0; i < n; i++ {
				bs = append(bs, fam.rel(i, n))
				rs = append(rs, v.rel(bs[i]))
			}
			orders := []struct {
				name string
				at   func(i int) int
			}{{"in order", func(i int) int { return i }}, {"backwards", func(i int) int { return n - 1 - i }}, {"from the middle", func(i int) int { return (i + n/2) % n }}}
			for _, o := range orders {
				if strings.HasPrefix(fam.name, "a chain of one") && o.name == "from the middle" && n > 8 {
					continue
				}
				what = fam.name + ", " + o.name
				u.Tick()
				want := brel{rows: [][]int{nil}}
				var list []rel.Relation
				for i := 0; i < n; i++ {
					want = bjoin(want, bs[o.at(i)])
					list = append(list, rs[o.at(i)])
				}
				v.is(u, "Join", rel.Join(list...), want)
				if strings.HasPrefix(fam.name, "nothing") {
					v.is(u, "CartesianProduct", rel.CartesianProduct(list...), want)
				}
			}
			u.States++
		}
	}
	u.Sample("up to %d operands", top)
}

// c23Sizes: nesting and unnesting relations of every number of rows.
func c23Sizes(c *Ctx) {
	top, big := 30, []int{65, 130, 300}
	if c.Config != "default" {
		top, big = 12, []int{65}
	}
	if c.Thorough() {
		top, big = 100, []int{130, 300, 1000}
	}
	id := func(i int) int { return i }
	families := []struct {
		name string
		f    func(n int) brel
	}{
		{"one group", func(n int) brel {
			return makeRel(n, []string{"k", "a", "b"}, func(i int) int { return 0 }, id, func(i int) int { return i % 3 })
		}},
		{"a group each", func(n int) brel {
			return makeRel(n, []string{"k", "a", "b"}, id, id, func(i int) int { return -i })
		}},
		{"groups of three", func(n int) brel {
			return makeRel(n, []string{"k", "a", "b"}, func(i int) int { return i / 3 }, id, func(i int) int { return i % 2 })
		}},
		{"a few groups", func(n int) brel {
			return makeRel(n, []string{"k", "a", "b"}, func(i int) int { return i % 5 }, func(i int) int { return i / 2 }, func(i int) int { return i % 2 })
		}},
		{"groups with the same rows", func(n int) brel {
			return makeRel(n, []string{"k", "a", "b"}, func(i int) int { return i / 4 }, func(i int) int { return i % 2 }, func(i int) int { return i / 2 % 2 })
		}},
		{"groups of growing sizes", func(n int) brel {
			return makeRel(n, []string{"k", "a", "b"}, func(i int) int {
				k := 0
				for s := 0; s+k+1 <= i; k++ {
					s += k + 1
				}
				return k
			}, id, id)
		}},
	}
	for _, v := range bvalss {
		for _, fam := range families {
			c.Unit(fmt.Sprintf("C23/sizes/%s/%s", v.name, fam.name), func(u *Unit) {
				n := 0
				var nested []string
				u.Case(func() string { return fmt.Sprintf("%s, values %s, %d rows; nesting %v", fam.name, v.name, n, nested) })
				var ns []int
				for i := 0; i <= top; i++ {
					ns = append(ns, i)
				}
				for _, n = range append(ns, big...) {
					if v.name == "all collide" && n > 30 {
						continue
					}
					u.Tick()
					u.States++
					b := fam.f(n)
					r := v.rel(b)
					for _, nested = range [][]string{{"a"}, {"a", "b"}, {"b"}, {"k"}, {"k", "a"}, {"k", "a", "b"}} {
						rest := commonOf(b.head, complement(b.head, nested))
						groups := b.project(rest...)
						subs := map[string]brel{}
						for i := range b.rows {
							k := b.key(i, rest)
							s := subs[k]
							s.head = commonOf(b.head, nested)
							one := brel{head: b.head, rows: b.rows[i : i+1]}.project(nested...)
							s.rows = append(s.rows, one.rows...)
							subs[k] = s
						}
						res := rel.Nest(r, frozen.NewMap(frozen.KV("sub", frozen.NewSet(nested...))))
						u.Trans++
						u.Check(res.Count() == len(groups.rows), "Nest gives %d rows, want %d", res.Count(), len(groups.rows))
						for i := range groups.rows {
							k := groups.key(i, rest)
							sub := v.rel(subs[k].distinct())
							u.Check(res.Has(v.tuple(groups, i).With("sub", sub)), "Nest: there is no tuple %v", v.tuple(groups, i).With("sub", sub))
						}
						for q := res.Range(); q.Next(); {
							u.Check(q.Value().Count() == len(rest)+1 && q.Value().Has("sub"), "Nest has a tuple %v", q.Value())
						}
						back := rel.Unnest(res, "sub")
						v.is(u, "Unnest of Nest", back, b)
						u.Check(back.Equal(r) && r.Equal(back), "Unnest of Nest is not Equal to the relation")
						v.is(u, "the relation afterwards", r, b)
					}
				}
				u.Sample("every number of rows up to %d, and %v", top, big)
			})
		}
	}
}

func complement(head, attrs []string) []string {
	var out []string
	for _, h := range head {
		if len(commonOf([]string{h}, attrs)) == 0 {
			out = append(out, h)
		}
	}
	return out
}
