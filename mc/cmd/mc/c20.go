//go:build vsched && (!sel || c20)

package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/frozen/lazy"
	"github.com/arr-ai/frozen/zzvsched"

	"verif/mc/core"
)

func init() { checks["C20"] = c20 }

// client is what one goroutine uses: the numbered values are shared, read
// only; its checks are its own.
func (w *lworld) client() *lworld {
	v := *w
	v.u = &core.Unit{Name: w.u.Name}
	return &v
}

// c20Queries are what a goroutine does with a shared lazy set.
func c20Queries(w *lworld) []lquery {
	var qs []lquery
	for _, q := range lazyQueries(true) {
		switch q.name {
		case "Range", "two iterators", "Range to the last":
			continue
		}
		qs = append(qs, q)
	}
	derived := func(name string, model func(m uint64) uint64, mk func(w *lworld, s lazy.Set) lazy.Set) {
		qs = append(qs, lquery{name, func(w *lworld, s lazy.Set, e *lexpr) {
			d := *e
			d.model = model(e.model)
			t := mk(w, s)
			w.yieldRange(t, &d)
			w.u.Check(t.Count() == count64(d.model), "%s: Count() is wrong", name)
		}})
	}
	first := []lquery{
		{"Range", func(w *lworld, s lazy.Set, e *lexpr) { w.yieldRange(s, e) }},
		{"Range twice", func(w *lworld, s lazy.Set, e *lexpr) { w.yieldRange(s, e); w.yieldRange(s, e) }},
		{"two Ranges", func(w *lworld, s lazy.Set, e *lexpr) { w.twoIterators(s, e) }},
	}
	for _, op := range lazyBinary {
		derived("s "+op+" {0,2}", func(m uint64) uint64 { return lazyBinModel(op, m, 5) },
			func(w *lworld, s lazy.Set) lazy.Set { return lazyBin(op, s, w.frozen(5)) })
		derived("{0,1} "+op+" s", func(m uint64) uint64 { return lazyBinModel(op, 3, m) },
			func(w *lworld, s lazy.Set) lazy.Set { return lazyBin(op, w.frozen(3), s) })
		derived("s "+op+" s", func(m uint64) uint64 { return lazyBinModel(op, m, m) },
			func(w *lworld, s lazy.Set) lazy.Set { return lazyBin(op, s, s) })
	}
	derived("s.With(1)", func(m uint64) uint64 { return m | 2 }, func(w *lworld, s lazy.Set) lazy.Set { return s.With(w.vals[1]) })
	derived("s.Without(1)", func(m uint64) uint64 { return m &^ 2 }, func(w *lworld, s lazy.Set) lazy.Set { return s.Without(w.vals[1]) })
	derived("s.Where(not 0)", func(m uint64) uint64 { return m &^ 1 }, func(w *lworld, s lazy.Set) lazy.Set {
		return s.Where(func(v any) bool { w.call(); return w.id(v) != 0 })
	})
	derived("s.Map(to 0)", func(m uint64) uint64 {
		if m == 0 {
			return 0
		}
		return 1
	}, func(w *lworld, s lazy.Set) lazy.Set { return s.Map(func(v any) any { w.call(); return w.base[0] }) })
	qs = append(qs, lquery{"s.Powerset()", func(w *lworld, s lazy.Set, e *lexpr) {
		n := 0
		for i := s.Powerset().Range(); i.Next(); n++ {
			zzvsched.Yield()
		}
		w.u.Check(n == 1<<uint(count64(e.model)), "Powerset() has %d elements", n)
	}})
	return append(first, qs...)
}

// yieldRange is rangeAll with a scheduling point between the steps.
func (w *lworld) yieldRange(s lazy.Set, e *lexpr) {
	var seen uint64
	it := s.Range()
	for {
		zzvsched.Yield()
		if !it.Next() {
			break
		}
		zzvsched.Yield()
		b := uint64(1) << uint(w.id(it.Value()))
		if seen&b != 0 {
			w.u.Failf("Range yields %s twice", w.show(b))
		}
		seen |= b
	}
	w.u.Check(seen == e.model, "Range yields %s, want %s", w.show(seen), w.show(e.model))
	zzvsched.Yield()
	w.u.Check(!it.Next(), "Next() after the end = true")
}

func (w *lworld) afterwards(s lazy.Set, e *lexpr) {
	w.rangeAll(s, e)
	w.u.Check(s.Count() == count64(e.model), "afterwards Count() = %d, want %d", s.Count(), count64(e.model))
	w.u.Check(s.IsEmpty() == (e.model == 0), "afterwards IsEmpty() = %v", e.model != 0)
	for i := range w.base {
		want := e.model>>uint(i)&1 != 0
		w.u.Check(s.Has(w.vals[i]) == want, "afterwards Has(%s) = %v", w.show(1<<uint(i)), !want)
	}
	w.u.Check(s.EqualSet(w.frozen(e.model)), "afterwards EqualSet(the same elements) = false")
	w.rangeAll(s.Freeze(), e)
}

// c20Run: goroutines with the given programs (query numbers) on one fresh set
// s, and another one, t.
func (w *lworld) c20Run(sp zzvsched.Space, e, t *lexpr, qs []lquery, progs [][]int) {
	u := w.u
	var s lazy.Set
	explore(u, sp, func() string {
		var ps []string
		for _, p := range progs {
			var names []string
			for _, q := range p {
				names = append(names, qs[q].name)
			}
			ps = append(ps, strings.Join(names, ", then "))
		}
		out := "goroutines sharing s = " + e.name + " = " + w.show(e.model)
		if t != nil {
			out += ", t = " + t.name + " = " + w.show(t.model)
		}
		return fmt.Sprintf("%s: %s (%s)", out, strings.Join(ps, " | "), sp)
	}, func() []func() {
		s = e.mk()
		var o lazy.Set
		if t != nil {
			o = t.mk()
		}
		var bodies []func()
		for _, p := range progs {
			mine := s
			bodies = append(bodies, func() {
				c := w.client()
				c.other = o
				for _, q := range p {
					zzvsched.Yield()
					qs[q].run(c, mine, e)
				}
			})
		}
		return bodies
	}, false, func(*exec) string {
		w.afterwards(s, e)
		return ""
	})
}

// pairQueries use both sets.
func pairQueries(t *lexpr) []lquery {
	var qs []lquery
	for _, op := range lazyBinary {
		qs = append(qs,
			lquery{"s " + op + " t", func(w *lworld, s lazy.Set, e *lexpr) {
				d := lexpr{model: lazyBinModel(op, e.model, t.model)}
				w.yieldRange(lazyBin(op, s, w.other), &d)
			}},
			lquery{"t " + op + " s, counted", func(w *lworld, s lazy.Set, e *lexpr) {
				c := lazyBin(op, w.other, s).Count()
				w.u.Check(c == count64(lazyBinModel(op, t.model, e.model)), "Count() = %d", c)
			}})
	}
	return append(qs,
		lquery{"s.EqualSet(t)", func(w *lworld, s lazy.Set, e *lexpr) {
			w.u.Check(s.EqualSet(w.other) == (e.model == t.model), "s.EqualSet(t) = %v", e.model != t.model)
		}},
		lquery{"t.EqualSet(s)", func(w *lworld, s lazy.Set, e *lexpr) {
			w.u.Check(w.other.EqualSet(s) == (e.model == t.model), "t.EqualSet(s) = %v", e.model != t.model)
		}},
		lquery{"s.IsSubsetOf(t)", func(w *lworld, s lazy.Set, e *lexpr) {
			want := e.model&^t.model == 0
			w.u.Check(s.IsSubsetOf(w.other) == want, "s.IsSubsetOf(t) = %v", !want)
		}},
		lquery{"t.IsSubsetOf(s)", func(w *lworld, s lazy.Set, e *lexpr) {
			want := t.model&^e.model == 0
			w.u.Check(w.other.IsSubsetOf(s) == want, "t.IsSubsetOf(s) = %v", !want)
		}},
		lquery{"s with Range in t.Where", func(w *lworld, s lazy.Set, e *lexpr) {
			d := lexpr{model: e.model & t.model}
			w.yieldRange(w.other.Where(func(v any) bool { return s.Has(v) }), &d)
		}},
		lquery{"t evaluated", func(w *lworld, s lazy.Set, e *lexpr) { w.yieldRange(w.other, t) }},
	)
}

// c20Exprs lists lazy sets with one and with two memoised levels.
func (w *lworld) c20Exprs(thorough bool) []lexpr {
	bases := []lexpr{w.frozenExpr(3), w.frozenExpr(6)}
	f7 := w.frozenExpr(7)
	imgs := [][]int{{0, 0, 1}}
	var out []lexpr
	for _, op := range lazyBinary {
		out = append(out, w.bin(op, bases[0], bases[1]))
	}
	out = append(out,
		w.where(f7, 5), w.mapTo(f7, imgs[0]), w.powerset(bases[0]), w.where(bases[0], 4),
		// two levels
		w.bin("Union", w.where(f7, 3), w.mapTo(f7, imgs[0])),
		w.bin("Difference", w.bin("Union", bases[0], bases[1]), w.where(f7, 2)),
		w.mapTo(w.bin("SymmetricDifference", bases[0], bases[1]), imgs[0]),
		w.where(w.powerset(bases[1]), ^uint64(0)),
		w.evaluated(w.bin("Union", bases[0], bases[1])),
		w.same("Union", w.where(f7, 6)),
		w.same("SymmetricDifference", w.where(f7, 6)),
	)
	if thorough {
		var more []lexpr
		for _, x := range w.level1([]lexpr{bases[0], bases[1]}, false) {
			if !x.emptyP {
				more = append(more, x)
			}
		}
		out = append(out, more...)
		for i, x := range more {
			for j, y := range more {
				if (i+j)%5 == 0 && !(x.hasP && y.hasP) {
					out = append(out, w.bin(lazyBinary[(i+2*j)%4], x, y))
				}
			}
		}
	}
	return out
}

func c20(c *Ctx) {
	schedCtx()
	unis := lazyUniverses()
	race := zzvsched.RaceBuild
	names := []string{"spread", "colliding"}
	for _, name := range names {
		base := unis[name]
		probe := newLworld(&core.Unit{}, base)
		n := len(probe.c20Exprs(c.Thorough()))
		for k := 0; k < n; k++ {
			const parts = 7
			for part := 0; part < parts; part++ {
				c.Unit(fmt.Sprintf("C20/%s/expression %d/%d", name, k, part), func(u *Unit) {
					turn := 0
					mine := func() bool { turn++; return turn%parts == part }
					w := newLworld(u, base)
					w.few = !c.Thorough()
					w.onCall = zzvsched.Yield
					exprs := w.c20Exprs(c.Thorough())
					e := &exprs[k]
					qs := c20Queries(w)
					single, sp := full, preempt(2)
					if race && !c.Thorough() {
						sp = preempt(1)
						if k >= 8 { // two memoised levels
							single = preempt(1)
						}
					}
					// pairs of single queries in every schedule of the accesses
					for a := range qs {
						for b := a; b < len(qs); b++ {
							if !mine() {
								continue
							}
							w.c20Run(single, e, nil, qs, [][]int{{a}, {b}})
						}
					}
					// every schedule of iteration steps and callbacks too
					few := []int{0, 1, 2, 3, 5, 12, 14, 16, 18}
					for _, a := range few {
						for _, b := range few {
							if !mine() {
								continue
							}
							w.c20Run(sp, e, nil, qs, [][]int{{a}, {b}})
						}
					}
					if !race && c.Thorough() {
						for a := range few {
							for b := range few {
								for x := range few {
									if !mine() {
										continue
									}
									w.c20Run(preempt(1), e, nil, qs, [][]int{{few[a], few[b]}, {few[x]}, {few[x], few[a]}})
								}
							}
						}
					}
					for _, j := range []int{0, 2, 4, 5} {
						t := &exprs[j]
						ps := pairQueries(t)
						for a := range ps {
							for b := a; b < len(ps); b++ {
								if !mine() {
									continue
								}
								w.c20Run(single, e, t, ps, [][]int{{a}, {b}})
							}
						}
					}
					u.Sample("%s: %d executions", e.name, u.Traces)
				})
			}
		}
	}
}
