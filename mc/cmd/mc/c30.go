//go:build !sel || c30

package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() { checks["C30"] = c30 }

// szE is element number N.
type szE struct {
	N int
	H uint64
}

func (e szE) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }

// family is a distribution of hashes over any number of elements.
type family struct {
	name string
	max  int // sizes beyond would be slow
	hash func(i int) uint64
}

func families() []family {
	return []family{
		{"spread", 1 << 30, func(i int) uint64 { return core.Mix(uint64(i)) }},
		{"first digits only", 4096, func(i int) uint64 { return core.Mix(uint64(i)) &^ (1<<52 - 1) }},
		{"last digits only", 4096, func(i int) uint64 { return uint64(i) & 0xfff }},
		{"dense", 1 << 30, func(i int) uint64 { return uint64(i) * 0x9e3779b97f4a7c15 }},
		{"groups of 20 colliding", 1024, func(i int) uint64 { return core.Mix(uint64(i / 20)) }},
		{"all colliding", 100, func(i int) uint64 { return 77 }},
		{"skewed", 2048, func(i int) uint64 {
			if i%4 == 0 {
				return core.Mix(uint64(i))
			}
			return core.Mix(uint64(i))>>20 | 5<<60
		}},
	}
}

type sizer struct {
	u    *Unit
	f    family
	el   []szE
	what string
}

func newSizer(u *Unit, f family, n int) *sizer {
	z := &sizer{u: u, f: f}
	for i := 0; i < n; i++ {
		z.el = append(z.el, szE{i, f.hash(i)})
	}
	u.Case(func() string { return f.name + " hashes: " + z.what })
	return z
}

func (z *sizer) fail(format string, args ...any) { z.u.Failf(format, args...) }

type pred func(i int) bool

// is checks a set of elements below n.
func (z *sizer) is(s frozen.Set[szE], n int, in pred) {
	z.u.Evals++
	k := 0
	for i := range z.el[:min(n+2, len(z.el))] {
		want := i < n && in(i)
		if s.Has(z.el[i]) != want {
			z.fail("Has(%d) = %v", i, !want)
		}
		if want {
			k++
		}
	}
	if s.Count() != k || s.IsEmpty() != (k == 0) {
		z.fail("Count() = %d, IsEmpty() = %v, want %d", s.Count(), s.IsEmpty(), k)
	}
	seen := make([]bool, n)
	r := s.Range()
	for r.Next() {
		e := r.Value()
		if e.N >= n || seen[e.N] || !in(e.N) || e.H != z.el[e.N].H {
			z.fail("Range yields %d unexpectedly", e.N)
		}
		seen[e.N] = true
		k--
	}
	if k != 0 {
		z.fail("Range misses %d elements", k)
	}
}

func (z *sizer) holds(m frozen.Map[szE, int], n int, in pred, val func(i int) int) {
	z.u.Evals++
	k := 0
	for i := range z.el[:min(n+2, len(z.el))] {
		want := i < n && in(i)
		v, has := m.Get(z.el[i])
		if has != want || has && v != val(i) {
			z.fail("Get(%d) = %d, %v", i, v, has)
		}
		if want {
			k++
		}
	}
	if m.Count() != k || m.IsEmpty() != (k == 0) {
		z.fail("Count() = %d, want %d", m.Count(), k)
	}
	for r := m.Range(); r.Next(); k-- {
		e, v := r.Entry()
		if e.N >= n || !in(e.N) || v != val(e.N) {
			z.fail("Range yields %d: %d unexpectedly", e.N, v)
		}
	}
	if k != 0 {
		z.fail("Range has %d entries too few", k)
	}
}

func (z *sizer) build(n int, in pred) frozen.Set[szE] {
	var b frozen.SetBuilder[szE]
	for i := 0; i < n; i++ {
		if in(i) {
			b.Add(z.el[i])
		}
	}
	return b.Finish()
}

func (z *sizer) buildMap(n int, in pred, val func(i int) int) frozen.Map[szE, int] {
	var b frozen.MapBuilder[szE, int]
	for i := n - 1; i >= 0; i-- {
		if in(i) {
			b.Put(z.el[i], val(i))
		}
	}
	return b.Finish()
}

func always(int) bool { return true }
func never(int) bool  { return false }

type part struct {
	name string
	in   func(n int) pred
}

var parts = []part{
	{"all", func(int) pred { return always }},
	{"none", func(int) pred { return never }},
	{"even", func(int) pred { return func(i int) bool { return i%2 == 0 } }},
	{"first half", func(n int) pred { return func(i int) bool { return i < n/2 } }},
	{"all but the last", func(n int) pred { return func(i int) bool { return i != n-1 } }},
	{"the first", func(n int) pred { return func(i int) bool { return i == 0 } }},
	{"one in 7", func(n int) pred { return func(i int) bool { return i%7 == 3 } }},
	{"all but one in 9", func(n int) pred { return func(i int) bool { return i%9 != 4 } }},
}

// grow builds up to size n and shrinks again, one element at a time, watching
// sets, maps and builders at every size.
func (z *sizer) grow(n int, order func(k int) int) {
	in := make([]bool, n+2)
	has := func(i int) bool { return in[i] }
	val := func(i int) int { return i * 3 }
	var s frozen.Set[szE]
	var m frozen.Map[szE, int]
	for k := 0; k < n; k++ {
		i := order(k)
		z.what = fmt.Sprintf("growing: size %d, adding %d", k, i)
		old, oldM := s, m
		s = s.With(z.el[i])
		m = m.With(z.el[i], i*3)
		if k%5 == 0 {
			z.is(old, n, has)
			z.holds(oldM, n, has, val)
		}
		in[i] = true
		z.is(s, n, has)
		z.holds(m, n, has, val)
		z.u.States++
		z.u.Trans += 2
		z.u.Tick()
	}
	for k := 0; k < n; k++ {
		i := order((k*5 + 3) % n)
		if n%5 == 0 {
			i = order(k)
		}
		z.what = fmt.Sprintf("shrinking: size %d, removing %d", n-k, i)
		old, oldM := s, m
		s = s.Without(z.el[i])
		m = m.Without(z.el[i])
		if k%5 == 0 {
			z.is(old, n, has)
			z.holds(oldM, n, has, val)
		}
		in[i] = false
		z.is(s, n, has)
		z.holds(m, n, has, val)
		z.u.States++
		z.u.Trans += 2
		z.u.Tick()
	}
	// the same with one builder, never finished in between
	var b frozen.SetBuilder[szE]
	var mb frozen.MapBuilder[szE, int]
	look := func(k int) {
		if b.Count() != k || mb.Count() != k {
			z.fail("Count() = %d, %d, want %d", b.Count(), mb.Count(), k)
		}
		for i := 0; i < n; i++ {
			v, ok := mb.Get(z.el[i])
			if b.Has(z.el[i]) != in[i] || ok != in[i] || mb.Has(z.el[i]) != in[i] || ok && v != i*3 {
				z.fail("Has(%d), Get(%d) are wrong", i, i)
			}
		}
		z.u.Evals++
	}
	for k := 0; k < n; k++ {
		i := order(k)
		z.what = fmt.Sprintf("builder: size %d, adding %d", k, i)
		b.Add(z.el[i])
		mb.Put(z.el[i], i*3)
		in[i] = true
		look(k + 1)
	}
	for k := 0; k < n-1; k++ {
		i := order(n - 1 - k)
		z.what = fmt.Sprintf("builder: size %d, removing %d", n-k, i)
		b.Remove(z.el[i])
		mb.Remove(z.el[i])
		in[i] = false
		look(n - k - 1)
	}
	z.what = "builder: finished with one element"
	z.is(b.Finish(), n, has)
	z.holds(mb.Finish(), n, has, val)
}

// ops runs every operation on pairs of parts of size n.
func (z *sizer) ops(n int, few bool) {
	u := z.u
	ps := parts
	if few {
		ps = []part{parts[0], parts[2], parts[4], parts[7], parts[5]}
		if n > 1<<16 {
			ps = ps[:3]
		}
	}
	val := func(k int) func(int) int { return func(i int) int { return i * k } }
	for pi, p := range ps {
		a := p.in(n)
		var s, t frozen.Set[szE]
		z.what = fmt.Sprintf("%s of %d", p.name, n)
		s = z.build(n, a)
		z.is(s, n, a)
		z.unary(s, n, a, few)
		m := z.buildMap(n, a, val(1))
		z.holds(m, n, a, val(1))
		z.what = fmt.Sprintf("%s of %d: Keys, Where, MapMap, NewMapFromKeys", p.name, n)
		z.is(m.Keys(), n, a)
		z.holds(m.Where(func(k szE, v int) bool { return v%3 != 1 }), n, func(i int) bool { return a(i) && i%3 != 1 }, val(1))
		z.holds(frozen.MapMap(m, func(k szE, v int) int { return v + k.N }), n, a, val(2))
		z.holds(frozen.NewMapFromKeys(s, func(k szE) int { return 5 * k.N }), n, a, val(5))
		for qi, q := range ps {
			if few && (pi+qi)%2 == 1 && qi > 0 {
				continue
			}
			b := q.in(n)
			t = z.build(n, b)
			say := func(op string) {
				z.what = fmt.Sprintf("%s and %s of %d: %s", p.name, q.name, n, op)
				u.Trans++
				u.Tick()
			}
			say("Union")
			z.is(s.Union(t), n, func(i int) bool { return a(i) || b(i) })
			say("Intersection")
			z.is(s.Intersection(t), n, func(i int) bool { return a(i) && b(i) })
			say("Difference")
			z.is(s.Difference(t), n, func(i int) bool { return a(i) && !b(i) })
			say("SymmetricDifference")
			z.is(s.SymmetricDifference(t), n, func(i int) bool { return a(i) != b(i) })
			say("Equal, IsSubsetOf")
			same, sub := true, true
			for i := 0; i < n; i++ {
				same = same && a(i) == b(i)
				sub = sub && (!a(i) || b(i))
			}
			if s.Equal(t) != same || s.Same(t) != same {
				z.fail("Equal() = %v, Same() = %v", s.Equal(t), s.Same(t))
			}
			if s.IsSubsetOf(t) != sub {
				z.fail("IsSubsetOf() = %v", !sub)
			}
			o := z.buildMap(n, b, val(-1))
			say("Update")
			z.holds(m.Update(o), n, func(i int) bool { return a(i) || b(i) }, func(i int) int {
				if b(i) {
					return -i
				}
				return i
			})
			say("Merge")
			z.holds(m.Merge(o, func(k szE, x, y int) int { return 2*x - y + k.N }), n, func(i int) bool { return a(i) || b(i) }, func(i int) int {
				switch {
				case a(i) && b(i):
					return 4 * i
				case b(i):
					return -i
				}
				return i
			})
			say("Map.Equal")
			if m.Equal(z.buildMap(n, b, val(1))) != same {
				z.fail("is %v", !same)
			}
			say("Map.Project")
			if n <= 2000 {
				z.holds(m.Project(t.Elements()...), n, func(i int) bool { return a(i) && b(i) }, val(1))
			}
		}
		// differences in one element only
		for _, i := range []int{0, n / 3, n - 1} {
			if n == 0 {
				continue
			}
			z.what = fmt.Sprintf("%s of %d, differing in %d", p.name, n, i)
			o := s.With(z.el[i])
			oin := func(j int) bool { return a(j) || j == i }
			if a(i) {
				o = s.Without(z.el[i])
				oin = func(j int) bool { return a(j) && j != i }
			}
			if !few {
				z.is(o, n, oin)
			}
			if o.Equal(s) || s.Equal(o) || s.IsSubsetOf(o) == a(i) || o.IsSubsetOf(s) != a(i) {
				z.fail("Equal or IsSubsetOf is wrong")
			}
			if d := s.SymmetricDifference(o); d.Count() != 1 || !d.Has(z.el[i]) {
				z.fail("SymmetricDifference has %d elements", d.Count())
			}
			om := m.With(z.el[i], -5)
			if om.Equal(m) || m.Equal(om) {
				z.fail("Map.Equal = true")
			}
		}
	}
}

func lessN(a, b szE) bool { return a.N < b.N }

func (z *sizer) unary(s frozen.Set[szE], n int, a pred, few bool) {
	var want []int
	for i := 0; i < n; i++ {
		if a(i) {
			want = append(want, i)
		}
	}
	c := len(want)
	ord := func(what string, got []szE, k int) {
		if len(got) != k {
			z.fail("%s gives %d elements, want %d", what, len(got), k)
		}
		for j, e := range got {
			if e.N != want[j] {
				z.fail("%s: element %d is %d, want %d", what, j, e.N, want[j])
			}
		}
	}
	ord("OrderedElements", s.OrderedElements(lessN), c)
	ns := []int{0, 1, 2, 5, c / 2, c - 1, c, c + 1}
	if few {
		ns = []int{1, 10, c / 2, c - 1, c + 1}
	}
	for _, k := range ns {
		if k < 0 {
			continue
		}
		ord(fmt.Sprintf("OrderedFirstN(%d)", k), s.OrderedFirstN(k, lessN), min(k, c))
		if f := s.FirstN(k, lessN); f.Count() != min(k, c) || k > 0 && c > 0 && !f.Has(z.el[want[min(k, c)-1]]) {
			z.fail("FirstN(%d) is wrong", k)
		}
		if f := s.AnyN(k); f.Count() != min(k, c) || !f.IsSubsetOf(s) {
			z.fail("AnyN(%d) is wrong", k)
		}
	}
	j := 0
	for r := s.OrderedRange(lessN); r.Next(); j++ {
		if j >= c || r.Value().N != want[j] {
			z.fail("OrderedRange: element %d is %d", j, r.Value().N)
		}
		if few && j == 1000 {
			j = c
			break
		}
	}
	if j != c {
		z.fail("OrderedRange ends after %d of %d", j, c)
	}
	if c > 0 {
		if s.First(lessN).(szE).N != want[0] {
			z.fail("First is wrong")
		}
		if !s.Has(s.Any()) {
			z.fail("Any is wrong")
		}
	}
	if len(s.Elements()) != c {
		z.fail("Elements() has %d elements", len(s.Elements()))
	}
	z.is(s.Where(func(e szE) bool { return e.N%3 == 0 }), n, func(i int) bool { return a(i) && i%3 == 0 })
	z.is(s.Where(func(e szE) bool { return true }), n, a)
	z.is(frozen.SetMap(s, func(e szE) szE { return z.el[e.N/2] }), n, func(i int) bool {
		return 2*i < n && a(2*i) || 2*i+1 < n && a(2*i+1)
	})
	sum, wsum := 0, 0
	for _, i := range want {
		wsum += i
	}
	r, ok := s.Reduce(func(es ...szE) szE {
		t := 0
		for _, e := range es {
			t += e.N
		}
		return szE{N: t}
	})
	sum = r.N
	r2, ok2 := s.Reduce2(func(x, y szE) szE { return szE{N: x.N + y.N} })
	if ok != (c > 0) || ok2 != ok || ok && (sum != wsum || r2.N != wsum) {
		z.fail("Reduce = %d, Reduce2 = %d, want %d", sum, r2.N, wsum)
	}
	g := frozen.SetGroupBy(s, func(e szE) int { return e.N % 3 })
	for k := 0; k < 3; k++ {
		t, _ := g.Get(k)
		z.is(t, n, func(i int) bool { return a(i) && i%3 == k })
	}
	if !few {
		z.is(frozen.SetAs[szE](s.AsSetAny()), n, a)
	}
	if s.Hash(3) != z.build(n, a).Hash(3) {
		z.fail("hashes differ")
	}
}

func c30(c *Ctx) {
	par := strings.HasPrefix(c.Config, "parallel")
	n := 500
	if c.Thorough() {
		n = 1500
	}
	orders := map[string]func(n int) func(k int) int{
		"upwards":   func(n int) func(k int) int { return func(k int) int { return k } },
		"downwards": func(n int) func(k int) int { return func(k int) int { return n - 1 - k } },
		"scattered": func(n int) func(k int) int { return func(k int) int { return k * 7 % n } },
	}
	for _, f := range families() {
		top := 12
		if !par && !strings.HasPrefix(c.Config, "branch4") {
			top = 18
		}
		if c.Thorough() {
			top += 2
		}
		for l := top; l >= 6; l-- {
			if 1<<uint(l) > f.max || l > 12 && (f.name != "spread" && (f.name != "dense" || !c.Thorough())) {
				continue
			}
			for d := -1; d <= 1; d++ {
				if l > 14 && d == 0 {
					continue
				}
				size := 1<<uint(l) + d
				c.Unit(fmt.Sprintf("C30/operations at size %d/%s", size, f.name), func(u *Unit) {
					z := newSizer(u, f, size+2)
					z.ops(size, l > 9)
					u.States++
				})
			}
		}
	}
	for _, f := range families() {
		f := f
		for _, name := range []string{"upwards", "downwards", "scattered"} {
			c.Unit(fmt.Sprintf("C30/every size/%s/%s", f.name, name), func(u *Unit) {
				n := min(n, f.max)
				if n%7 == 0 {
					n--
				}
				z := newSizer(u, f, n+2)
				z.grow(n, orders[name](n))
				u.Sample("%s hashes, elements %s: every size up to %d and back", f.name, name, n)
			})
		}
		const slices = 8
		for sl := 0; sl < slices; sl++ {
			c.Unit(fmt.Sprintf("C30/operations at every size/%s/%d", f.name, sl), func(u *Unit) {
				top := min(100, f.max)
				if c.Thorough() {
					top = min(300, f.max)
				}
				z := newSizer(u, f, top+2)
				for n := sl; n <= top; n += slices {
					z.ops(n, false)
				}
				u.States += int64(top / slices)
			})
		}
	}
	hi := 3000
	if c.Thorough() {
		hi = 10500
	}
	const slices = 24
	for i := 0; i < slices; i++ {
		c.Unit(fmt.Sprintf("C30/every function at every size/%d", i), func(u *Unit) { c30Every(u, i, hi, slices) })
	}
	c.Unit("C30/IntSet", func(u *Unit) { c30Int(u, n) })
}

// c30Int: IntSets of every size.
func c30Int(u *Unit, n int) {
	what := ""
	u.Case(func() string { return what })
	for _, f := range []struct {
		name string
		at   func(i int) int
	}{
		{"consecutive", func(i int) int { return i - n/2 }},
		{"scattered", func(i int) int { return int(core.Mix(uint64(i))) }},
		{"one in a cell", func(i int) int { return (i - 5) * 64 }},
	} {
		var s frozen.IntSet[int]
		is := func(s frozen.IntSet[int], lo, hi int) {
			u.Evals++
			if s.Count() != hi-lo || s.IsEmpty() != (hi == lo) {
				u.Failf("Count() = %d, want %d", s.Count(), hi-lo)
			}
			for i := 0; i < n; i++ {
				if s.Has(f.at(i)) != (i >= lo && i < hi) {
					u.Failf("Has(%d) is wrong", f.at(i))
				}
			}
			k := 0
			for r := s.Range(); r.Next(); k++ {
			}
			if k != hi-lo {
				u.Failf("Range yields %d elements, want %d", k, hi-lo)
			}
		}
		all := frozen.NewIntSet[int]()
		for i := 0; i < n; i++ {
			all = all.With(f.at(i))
		}
		for i := 0; i < n; i++ {
			what = fmt.Sprintf("%s: size %d", f.name, i)
			is(s, 0, i)
			u.States++
			half := s
			for j := 0; j < i/2 && j < 20; j++ {
				half = half.Without(f.at(j))
			}
			is(half, min(i/2, 20), i)
			is(half.Union(s), 0, i)
			is(half.Intersection(all), min(i/2, 20), i)
			if !half.IsSubsetOf(s) || !s.IsSubsetOf(all) || all.IsSubsetOf(s) || s.Equal(all) || half.Equal(s) != (i < 2) {
				u.Failf("IsSubsetOf or Equal is wrong")
			}
			u.Trans += 5
			s = s.With(f.at(i))
			u.Tick()
		}
		for i := 0; i < n; i++ {
			what = fmt.Sprintf("%s: shrinking to size %d", f.name, n-i)
			is(s, i, n)
			s = s.Without(f.at(i))
		}
		is(s, n, n)
	}
	u.Sample("IntSets of every size up to %d", n)
}
