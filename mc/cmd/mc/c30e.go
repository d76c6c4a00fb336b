//go:build !sel || c30

package main

import (
	"encoding/json"
	"fmt"
	"sync/atomic"

	"github.com/arr-ai/frozen"
	"github.com/arr-ai/frozen/lazy"
)

// c30Every runs every function that takes or gives a whole collection once at
// each of the given sizes, on ints.
func c30Every(u *Unit, lo, hi, step int) {
	what := ""
	u.Case(func() string { return what })
	seen := make([]int, 3*hi+10)
	stamp := 0
	// list checks that xs are a, a+d, ..., n of them, in any order
	list := func(xs []int, n, a, d int) {
		stamp++
		u.Evals++
		if len(xs) != n {
			u.Failf("%d elements, want %d", len(xs), n)
		}
		for _, x := range xs {
			i := (x - a) / d
			if i < 0 || i >= n || a+i*d != x || seen[i] == stamp {
				u.Failf("element %d is wrong or there twice", x)
			}
			seen[i] = stamp
		}
	}
	up := make([]int, hi)
	for i := range up {
		up[i] = i
	}
	for n := lo; n <= hi; n += step {
		var s frozen.Set[int]
		say := func(format string, args ...any) {
			what = fmt.Sprintf("size %d: ", n) + fmt.Sprintf(format, args...)
			u.Trans++
			u.Tick()
		}
		set := func(op string, s frozen.Set[int], n, a, d int) {
			say("%s", op)
			list(s.Elements(), n, a, d)
			if s.Count() != n || s.IsEmpty() != (n == 0) {
				u.Failf("Count() = %d, want %d", s.Count(), n)
			}
			for i := -1; i <= n; i++ {
				if s.Has(a+i*d) != (i >= 0 && i < n) {
					u.Failf("Has(%d) is wrong", a+i*d)
				}
			}
		}
		mp := func(op string, m frozen.Map[int, int], n, a, d, f int) {
			say("%s", op)
			stamp++
			u.Evals++
			if m.Count() != n || m.IsEmpty() != (n == 0) {
				u.Failf("Count() = %d, want %d", m.Count(), n)
			}
			k := 0
			for r := m.Range(); r.Next(); k++ {
				i := (r.Key() - a) / d
				if i < 0 || i >= n || a+i*d != r.Key() || seen[i] == stamp || r.Value() != r.Key()*f {
					u.Failf("entry %d: %d is wrong or there twice", r.Key(), r.Value())
				}
				seen[i] = stamp
			}
			if k != n {
				u.Failf("%d entries, want %d", k, n)
			}
			for i := -1; i <= n; i++ {
				v, has := m.Get(a + i*d)
				if has != (i >= 0 && i < n) || has && v != (a+i*d)*f {
					u.Failf("Get(%d) is wrong", a+i*d)
				}
			}
		}
		xs := make([]int, n)
		kvs := make([]frozen.KeyValue[int, int], n)
		gm := make(map[int]int, n)
		for i := range xs {
			j := i
			if n%7 != 0 {
				j = i * 7 % n
			}
			xs[i] = j
			kvs[i] = frozen.KV(j, 2*j)
			gm[j] = 2 * j
		}
		s = frozen.NewSet(xs...)
		set("NewSet", s, n, 0, 1)
		set("NewSet, everything twice", frozen.NewSet(append(xs[:n:n], xs...)...), n, 0, 1)
		m := frozen.NewMap(kvs...)
		mp("NewMap", m, n, 0, 1, 2)
		mp("NewMapFromKeys", frozen.NewMapFromKeys(s, func(i int) int { return 3 * i }), n, 0, 1, 3)
		mp("NewMapFromGoMap", frozen.NewMapFromGoMap(gm), n, 0, 1, 2)
		say("MapToGoMap")
		if back := frozen.MapToGoMap(m); len(back) != n {
			u.Failf("%d entries", len(back))
		}
		set("Iota", frozen.Iota(n), n, 0, 1)
		set("Iota3", frozen.Iota3(3*n, 0, -3), n, 3*n, -3)
		set("Keys", m.Keys(), n, 0, 1)
		set("Values", m.Values(), n, 0, 2)
		mp("Project", m.Project(up[:(n+1)/2]...), (n+1)/2, 0, 1, 2)
		mp("Map.Where", m.Where(func(k, v int) bool { return k >= n/2 }), n-n/2, n/2, 1, 2)
		mp("MapMap", frozen.MapMap(m, func(k, v int) int { return v + k }), n, 0, 1, 3)
		t := frozen.Iota2(n/2, n/2+n)
		set("Union", s.Union(t), n/2+n, 0, 1)
		set("n-ary Union", frozen.Union(s, t, frozen.NewSet(n/2+n)), n/2+n+1, 0, 1)
		set("Intersection", s.Intersection(t), n-n/2, n/2, 1)
		set("Difference", s.Difference(t), n/2, 0, 1)
		set("SymmetricDifference", s.SymmetricDifference(t).Where(func(i int) bool { return i >= n/2 }), n/2, n, 1)
		mp("Update", m.Update(frozen.NewMapFromKeys(t, func(i int) int { return 2 * i })), n/2+n, 0, 1, 2)
		var calls int64
		mp("Merge", m.Merge(frozen.NewMapFromKeys(t, func(i int) int { return 2 * i }), func(k, a, b int) int {
			atomic.AddInt64(&calls, 1)
			return (a + b) / 2
		}), n/2+n, 0, 1, 2)
		if calls < int64(n-n/2) {
			u.Failf("%d calls of the resolver for %d common keys", calls, n-n/2)
		}
		set("Where", s.Where(func(i int) bool { return i%3 == 0 }), (n+2)/3, 0, 3)
		set("SetMap", frozen.SetMap(s, func(i int) int { return i / 2 }), (n+1)/2, 0, 1)
		set("SetAs, AsSetAny", frozen.SetAs[int](s.AsSetAny()), n, 0, 1)
		say("AnyN")
		if a := s.AnyN(n - n/3); a.Count() != n-n/3 || !a.IsSubsetOf(s) {
			u.Failf("wrong")
		}
		say("OrderedElements")
		less := func(a, b int) bool { return a > b }
		for i, x := range s.OrderedElements(less) {
			if x != n-1-i {
				u.Failf("element %d is %d", i, x)
			}
		}
		set("FirstN", s.FirstN(n-n/3, less), n-n/3, n/3, 1)
		say("OrderedFirstN")
		list(s.OrderedFirstN(n/2, less), n/2, n-n/2, 1)
		say("Reduce")
		sum, ok := s.Reduce2(func(a, b int) int { return a + b })
		if ok != (n > 0) || sum != n*(n-1)/2 {
			u.Failf("%d, %v", sum, ok)
		}
		say("SetGroupBy")
		g := frozen.SetGroupBy(s, func(i int) int { return i % 5 })
		for k := 0; k < 5; k++ {
			p, has := g.Get(k)
			if has != (k < n) || p.Count() != (n+4-k)/5 || has && !p.Has(k) {
				u.Failf("group %d has %d elements", k, p.Count())
			}
		}
		say("Equal, Hash, IsSubsetOf")
		o := frozen.Iota(n)
		p := o.Without(n / 2)
		if !s.Equal(o) || s.Hash(1) != o.Hash(1) || !s.IsSubsetOf(o) || n > 0 && (p.Equal(s) || s.Equal(p) || s.IsSubsetOf(p) || !p.IsSubsetOf(s)) {
			u.Failf("wrong")
		}
		say("Map.Equal, Hash")
		mo := frozen.NewMapFromGoMap(gm)
		if !m.Equal(mo) || m.Hash(1) != mo.Hash(1) || n > 0 && m.Equal(mo.With(n/2, -1)) {
			u.Failf("wrong")
		}
		say("JSON")
		var js []int
		if data, err := json.Marshal(s); err != nil || json.Unmarshal(data, &js) != nil {
			u.Failf("%v", err)
		}
		list(js, n, 0, 1)
		say("IntSet")
		is := frozen.NewIntSet(xs...)
		list(is.Elements(), n, 0, 1)
		it := frozen.NewIntSet(t.Elements()...)
		list(is.Union(it).Elements(), n/2+n, 0, 1)
		list(is.Intersection(it).Elements(), n-n/2, n/2, 1)
		list(is.Where(func(i int) bool { return i%3 == 0 }).Elements(), (n+2)/3, 0, 3)
		list(is.Map(func(i int) int { return i / 2 }).Elements(), (n+1)/2, 0, 1)
		if is.Count() != n || is.Union(it).Count() != n/2+n || is.Intersection(it).Count() != n-n/2 || !is.Equal(frozen.NewIntSet(o.Elements()...)) {
			u.Failf("Count or Equal is wrong")
		}
		say("lazy")
		l := lazy.Frozen(s.AsSetAny())
		lu := l.Where(func(el any) bool { return el.(int) < n-n/2 }).Union(lazy.Frozen(t.AsSetAny()))
		if k := lu.Count(); k != n/2+n {
			u.Failf("%d elements", k)
		}
		u.States++
	}
	u.Sample("every function once at each of the sizes %d, %d, ..., %d", lo, lo+step, hi)
}
