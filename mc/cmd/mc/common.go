package main

import (
	"fmt"
	"strings"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

type (
	E    = core.E
	EQ   = core.EQ
	ES   = core.ES
	Ctx  = core.Ctx
	Unit = core.Unit
)

// geom is the geometry of the configuration's trie.
func geom(c *Ctx) core.HashGeom {
	if strings.HasPrefix(c.Config, "branch4") || strings.HasPrefix(c.Config, "branch16") {
		return core.Geom4
	}
	return core.Geom8
}

// lcps selects interesting common prefix lengths: first levels, last levels,
// complete collision; wide adds intermediate ones.
func lcps(g core.HashGeom, wide bool) []int {
	if wide {
		return []int{0, 1, 2, g.Max / 2, g.Max - 2, g.Max - 1, g.Max}
	}
	return []int{0, 1, g.Max - 1, g.Max}
}

// wideShape spreads n elements over the slots of the first level(s).
func wideShape(n int, g core.HashGeom) core.Shape {
	s := core.Shape{Name: fmt.Sprintf("wide%d", n)}
	for i := 0; i < n; i++ {
		h := uint64(i%g.Slots) << uint(64-g.Bits)
		h |= uint64(i/g.Slots) << uint(64-2*g.Bits)
		s.H = append(s.H, h|uint64(i*7+1))
	}
	return s
}

// comboShape concatenates groups: each group shares the given number of
// digits and the groups themselves differ in the first digit.
func groupShape(name string, g core.HashGeom, groups ...[2]int) core.Shape {
	s := core.Shape{Name: name}
	for gi, gr := range groups {
		n, lcp := gr[0], gr[1]
		base := uint64(gi*3%g.Slots)<<uint(64-g.Bits) | 0x0123456789abcdef>>uint(g.Bits)
		for i := 0; i < n; i++ {
			h := base
			if lcp < g.Max {
				sh := 64 - (lcp+1)*g.Bits
				if sh >= 0 {
					h = h>>uint(sh+g.Bits)<<uint(sh+g.Bits) | uint64(i%g.Slots)<<uint(sh)
				} else {
					h = h&^1 | uint64(i&1)
				}
			}
			s.H = append(s.H, h)
		}
	}
	return s
}

// edgeShape uses extreme hash values.
func edgeShape() core.Shape {
	return core.Shape{Name: "edge-hashes", H: []uint64{0, ^uint64(0), 1 << 63, 1, 0}}
}

func sortIt[T any](r frozen.Iterator[T]) []T {
	var out []T
	for r.Next() {
		out = append(out, r.Value())
	}
	return out
}

func maskElems[T any](u core.Univ[T], m uint32) []T {
	var out []T
	for i, e := range u.El {
		if m>>uint(i)&1 != 0 {
			out = append(out, e)
		}
	}
	return out
}

func bitsOf(m uint32) int {
	n := 0
	for ; m != 0; m &= m - 1 {
		n++
	}
	return n
}

func sampleSpace[T any](u *Unit, sp *core.SetSpace[T]) {
	if n := len(sp.States); n > 0 {
		i := int32(n - 1)
		u.Sample("%d states; e.g. %s has contents %s", n, sp.Expr(i), core.MaskString(sp.States[i].Mask))
	}
}

func contentMask(c core.Content) uint32 {
	var m uint32
	for k, v := range c {
		if v >= 0 {
			m |= 1 << uint(k)
		}
	}
	return m
}
