package core

import (
	"fmt"
	"strings"
)

// A Shape assigns a hash to each of N elements. Shapes are enumerated up to
// isomorphism: a shape is a rooted tree whose leaves are the elements and whose
// internal nodes are labelled with the number of leading hash digits that the
// elements below have in common.
type Shape struct {
	Name string
	H    []uint64
}

// HashGeom describes how the trie consumes hashes (it only steers the choice
// of interesting hashes; no oracle depends on it).
type HashGeom struct {
	Bits  int // bits per level
	Slots int
	Max   int // number of levels after which all 64 bits are used up
}

// Geom8 is the default fan-out, Geom4 that of the branch4 build tag.
var (
	Geom8 = HashGeom{Bits: 3, Slots: 8, Max: 22}
	Geom4 = HashGeom{Bits: 2, Slots: 4, Max: 32}
)

type stree struct {
	lcp  int
	kids []*stree // nil for a leaf
	n    int
}

func (t *stree) String() string {
	if t.kids == nil {
		return "·"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d(", t.lcp)
	for _, k := range t.kids {
		sb.WriteString(k.String())
	}
	sb.WriteString(")")
	return sb.String()
}

// EnumShapes lists all shapes of n elements whose pairwise common prefix
// lengths (in digits) are drawn from lcps (ascending).
func EnumShapes(n int, lcps []int, g HashGeom) []Shape {
	var out []Shape
	for _, t := range enumTrees(n, lcps, 0, g) {
		s := Shape{Name: fmt.Sprintf("N%d:%s", n, t), H: make([]uint64, 0, n)}
		assign(t, 0, 0, g, &s.H)
		out = append(out, s)
	}
	return out
}

func enumTrees(n int, lcps []int, from int, g HashGeom) []*stree {
	if n == 1 {
		return []*stree{{n: 1}}
	}
	var out []*stree
	for li := from; li < len(lcps); li++ {
		l := lcps[li]
		if l >= g.Max { // all bits shared: a full collision
			kids := make([]*stree, n)
			for i := range kids {
				kids[i] = &stree{n: 1}
			}
			out = append(out, &stree{lcp: l, kids: kids, n: n})
			continue
		}
		maxKids := g.Slots
		if rest := 64 - l*g.Bits; rest < g.Bits {
			maxKids = 1 << uint(rest)
		}
		// multisets of subtrees, sizes nonincreasing, ties ordered by index
		var rec func(left, maxSize, minIdx int, kids []*stree)
		rec = func(left, maxSize, minIdx int, kids []*stree) {
			if left == 0 {
				if len(kids) >= 2 {
					out = append(out, &stree{lcp: l, kids: append([]*stree(nil), kids...), n: n})
				}
				return
			}
			if len(kids) == maxKids {
				return
			}
			for size := min(left, maxSize); size >= 1; size-- {
				if size == n {
					continue
				}
				subs := enumTrees(size, lcps, li+1, g)
				start := 0
				if size == maxSize {
					start = minIdx
				}
				for i := start; i < len(subs); i++ {
					rec(left-size, size, i, append(kids, subs[i]))
				}
			}
		}
		rec(n, n, 0, nil)
	}
	return out
}

var slotOrder = [8]int{0, 7, 3, 5, 1, 6, 2, 4}

func assign(t *stree, prefix uint64, digits int, g HashGeom, out *[]uint64) {
	put := func(p uint64, d int, v int) uint64 {
		sh := 64 - (d+1)*g.Bits
		if sh >= 0 {
			return p | uint64(v)<<uint(sh)
		}
		return p | uint64(v)>>uint(-sh)
	}
	if t.kids == nil {
		// the remaining digits are irrelevant for where the element lands, but
		// vary them
		h := prefix
		for d := digits; d < g.Max; d++ {
			h = put(h, d, (len(*out)*5+d*3+1)%g.Slots)
		}
		*out = append(*out, h)
		return
	}
	for ; digits < t.lcp && digits < g.Max; digits++ {
		prefix = put(prefix, digits, (digits*5+2)%g.Slots)
	}
	if t.lcp >= g.Max {
		for range t.kids {
			*out = append(*out, prefix)
		}
		return
	}
	rest := 64 - t.lcp*g.Bits
	for i, k := range t.kids {
		slot := slotOrder[i]
		if g.Slots == 4 {
			slot = [4]int{0, 3, 1, 2}[i]
		}
		if rest < g.Bits { // only some top bits of the last digit are available
			slot = i << uint(g.Bits-rest)
		}
		assign(k, put(prefix, t.lcp, slot), t.lcp+1, g, out)
	}
}
