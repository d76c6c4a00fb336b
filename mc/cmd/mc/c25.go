//go:build !sel || c25

package main

import (
	"fmt"

	"github.com/arr-ai/frozen"
)

func init() { checks["C25"] = c25 }

// c25: BitIterator against a boolean array, on every mask of 18 (24) positions
// laid over the word in several ways, with every position as the argument.
func c25(c *Ctx) {
	layouts := map[string]func(i int) int{
		"low":    func(i int) int { return i },
		"high":   func(i int) int { return 63 - i },
		"middle": func(i int) int { return i + 24 },
		"spread": func(i int) int { return i * 63 / 17 },
		"halves": func(i int) int { return (i%2)*63 + (1-i%2*2)*(i/2) },
		"bytes":  func(i int) int { return i*8%64 + i/8 },
	}
	for _, name := range []string{"low", "high", "middle", "spread", "halves", "bytes"} {
		pos := make([]int, 18)
		for i := range pos {
			pos[i] = layouts[name](i)
		}
		for part := 0; part < 4; part++ {
			part := part
			c.Unit(fmt.Sprintf("C25/%s/%d", name, part), func(u *Unit) { c25Masks(u, pos, part, c.Thorough()) })
		}
	}
	c.Unit("C25/few-bits", func(u *Unit) { c25Few(u) })
	c.Unit("C25/sequences", func(u *Unit) { c25Seq(u, c.Thorough()) })
}

type bitModel [64]bool

func (m *bitModel) word() frozen.BitIterator {
	var w frozen.BitIterator
	for i, b := range m {
		if b {
			w += frozen.BitIterator(1) << uint(i)
		}
	}
	return w
}

// observeBits compares everything observable with the model.
func observeBits(b frozen.BitIterator, m *bitModel) string {
	n := 0
	for i, want := range m {
		if b.Has(i) != want {
			return fmt.Sprintf("Has(%d) = %v", i, b.Has(i))
		}
		if want {
			n++
		}
	}
	if b.Count() != n {
		return fmt.Sprintf("Count() = %d, want %d", b.Count(), n)
	}
	next := 0
	k := 0
	for it := b; it != 0; it = it.Next() {
		for next < 64 && !m[next] {
			next++
		}
		if it.Index() != next {
			return fmt.Sprintf("step %d of the enumeration is %d, want %d", k, it.Index(), next)
		}
		if it.Count() != n-k {
			return fmt.Sprintf("Count() = %d after %d of %d steps", it.Count(), k, n)
		}
		next++
		if k++; k > n {
			return fmt.Sprintf("more than %d steps", n)
		}
	}
	if k != n {
		return fmt.Sprintf("the enumeration has %d steps, want %d", k, n)
	}
	return ""
}

func c25Masks(u *Unit, pos []int, part int, thorough bool) {
	var m bitModel
	what := ""
	u.Case(func() string { return fmt.Sprintf("%s the mask %#x", what, uint64(m.word())) })
	obs := func(b frozen.BitIterator, w string, args ...any) {
		u.Trans++
		if d := observeBits(b, &m); d != "" {
			what = fmt.Sprintf(w, args...) + " leading to"
			u.Failf("%s", d)
		}
	}
	total := uint32(1) << uint(len(pos))
	for x := uint32(part) * (total / 4); x < uint32(part+1)*(total/4); x++ {
		m = bitModel{}
		for i, p := range pos {
			m[p] = m[p] || x>>uint(i)&1 != 0
		}
		b := m.word()
		obs(b, "building")
		u.States++
		u.Tick()
		// every position: cheap exact check against word arithmetic of the model,
		// in full for a part
		full := x%64 == 0 || thorough
		for p := 0; p < 64; p++ {
			old := m[p]
			bit := frozen.BitIterator(1) << uint(p)
			m[p] = true
			w, wo := b.With(p), b.Without(p)
			if full {
				obs(w, "With(%d)", p)
				m[p] = false
				obs(wo, "Without(%d)", p)
			} else {
				wantW, wantWo := b, b
				if !old {
					wantW += bit
				} else {
					wantWo -= bit
				}
				u.Evals += 2
				if w != wantW || wo != wantWo {
					m[p] = old
					u.Failf("With(%d) = %#x, Without(%d) = %#x", p, uint64(w), p, uint64(wo))
				}
			}
			m[p] = old
		}
	}
	u.Sample("masks over the positions %v, part %d of 4", pos, part)
}

// c25Few: every mask with at most three bits, or lacking at most two.
func c25Few(u *Unit) {
	var m bitModel
	op := ""
	u.Case(func() string { return fmt.Sprintf("mask %#x %s", uint64(m.word()), op) })
	run := func() {
		u.States++
		u.Trans++
		u.Tick()
		b := m.word()
		op = ""
		if d := observeBits(b, &m); d != "" {
			u.Failf("%s", d)
		}
		for p := 0; p < 64; p++ {
			old := m[p]
			m[p] = true
			if b.With(p) != m.word() {
				u.Failf("after With(%d): %#x", p, uint64(b.With(p)))
			}
			m[p] = false
			if b.Without(p) != m.word() {
				u.Failf("after Without(%d): %#x", p, uint64(b.Without(p)))
			}
			m[p] = old
		}
	}
	for _, full := range []bool{false, true} {
		m = bitModel{}
		for i := range m {
			m[i] = full
		}
		run()
		for i := 0; i < 64; i++ {
			m[i] = !full
			run()
			for j := 0; j < i; j++ {
				m[j] = !full
				run()
				if !full {
					for k := 0; k < j; k += 3 {
						m[k] = true
						run()
						m[k] = false
					}
				}
				m[j] = full
			}
			m[i] = full
		}
	}
	u.Sample("all masks with or without at most two bits, many with three")
}

// c25Seq: every sequence of With and Without calls over awkward positions.
func c25Seq(u *Unit, thorough bool) {
	pos := []int{0, 1, 31, 32, 62, 63}
	depth := 5
	if thorough {
		depth = 7
	}
	var ops []int
	u.Case(func() string {
		s := "0"
		for _, o := range ops {
			if o%2 == 0 {
				s += fmt.Sprintf(".With(%d)", pos[o/2])
			} else {
				s += fmt.Sprintf(".Without(%d)", pos[o/2])
			}
		}
		return s
	})
	var rec func(b frozen.BitIterator, m bitModel)
	rec = func(b frozen.BitIterator, m bitModel) {
		u.Trans++
		u.Tick()
		if d := observeBits(b, &m); d != "" {
			u.Failf("%s", d)
		}
		if len(ops) == depth {
			return
		}
		for o := 0; o < 2*len(pos); o++ {
			ops = append(ops, o)
			m2 := m
			m2[pos[o/2]] = o%2 == 0
			if o%2 == 0 {
				rec(b.With(pos[o/2]), m2)
			} else {
				rec(b.Without(pos[o/2]), m2)
			}
			ops = ops[:len(ops)-1]
		}
	}
	rec(0, bitModel{})
	u.States = 1 << uint(len(pos))
	u.Sample("all sequences of %d calls over %v", depth, pos)
}
