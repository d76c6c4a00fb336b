//go:build !sel || c29

package main

import (
	"fmt"
	"math"

	"github.com/arr-ai/frozen"

	"verif/mc/core"
)

func init() { checks["C29"] = c29 }

// A value with a hash of its own and an Equal method: the note is no part of
// its identity.
type noteEq struct {
	ID   int
	H    uint64
	Note string
}

func (e noteEq) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }
func (e noteEq) Equal(f noteEq) bool       { return e.ID == f.ID }

// The same with Same.
type noteSame struct {
	ID   int
	H    uint64
	Note string
}

func (e noteSame) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }
func (e noteSame) Same(a any) bool {
	f, is := a.(noteSame)
	return is && e.ID == f.ID
}

// Both, of which Equal is the one that counts for collections of this type,
// Same for collections of any: they agree.
type noteBoth struct {
	ID   int
	H    uint64
	Note string
}

func (e noteBoth) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }
func (e noteBoth) Equal(f noteBoth) bool     { return e.ID == f.ID }
func (e noteBoth) Same(a any) bool {
	f, is := a.(noteBoth)
	return is && e.ID == f.ID
}

// An uncomparable type can only be an element because of its Equal method.
type noteSlice struct {
	ID   int
	H    uint64
	Note []string
}

func (e noteSlice) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }
func (e noteSlice) Equal(f noteSlice) bool    { return e.ID == f.ID }

// Pointers compared by what they point to.
type notePtr struct {
	ID int
	H  uint64
}

func (e *notePtr) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }
func (e *notePtr) Equal(f *notePtr) bool     { return e.ID == f.ID }

type samePtr struct {
	ID int
	H  uint64
}

func (e *samePtr) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }
func (e *samePtr) Same(a any) bool {
	f, is := a.(*samePtr)
	return is && e.ID == f.ID
}

// Go equality despite Equal methods for something else.
type otherEq struct {
	ID int
	H  uint64
}

func (e otherEq) Hash(seed uintptr) uintptr { return E{H: e.H}.Hash(seed) }
func (e otherEq) Equal(f noteEq) bool       { return e.ID/2 == f.ID }

// An interface type whose values have Same.
type shower interface {
	show() string
}

type showA struct {
	ID   int
	H    uint64
	Note string
}

func (s showA) show() string              { return "A" }
func (s showA) Hash(seed uintptr) uintptr { return E{H: s.H}.Hash(seed) }
func (s showA) Same(a any) bool {
	t, is := a.(showA)
	return is && s.ID == t.ID
}

type showB struct{ ID int }

func (s showB) show() string { return "B" }

// An interface type with Equal for itself: values of different dynamic types
// can be the same element.
type equaler interface {
	Equal(equaler) bool
	Hash(seed uintptr) uintptr
	num() int
}

type numA struct {
	ID   int
	H    uint64
	Note string
}

func (n numA) num() int                  { return n.ID }
func (n numA) Hash(seed uintptr) uintptr { return E{H: n.H}.Hash(seed) }
func (n numA) Equal(e equaler) bool      { return n.ID == e.num() }

type numB struct {
	H  uint64
	ID int
}

func (n *numB) num() int                  { return n.ID }
func (n *numB) Hash(seed uintptr) uintptr { return E{H: n.H}.Hash(seed) }
func (n *numB) Equal(e equaler) bool      { return n.ID == e.num() }

type plainS struct {
	A int
	B string
	C any
}

func notes[T any](sh core.Shape, mk func(id int, h uint64, note string) T) [][]T {
	var out [][]T
	for i, h := range sh.H {
		out = append(out, []T{mk(i, h, ""), mk(i, h, "x"), mk(i, h, "yy")})
	}
	return out
}

type c29Opt int

const (
	// noAny: the elements have another notion of equality as any
	noAny c29Opt = 1
)

func c29Type[T any](c *Ctx, name string, eq func(a, b T) bool, reps [][]T, deep func(*bat[T]), opt c29Opt) {
	mk := func(u *Unit) *bat[T] {
		return &bat[T]{u: u, name: name, reps: reps, eq: eq, noAny: opt&noAny != 0, deep: deep}
	}
	c.Unit("C29/"+name, func(u *Unit) {
		mk(u).run()
		u.Sample("%s: %d elements in %d forms, all contents and pairs of contents", name, len(reps), len(reps[0]))
	})
	if opt&noAny != 0 {
		return
	}
	c.Unit("C29/"+name+" in lazy sets", func(u *Unit) {
		b := mk(u)
		if len(reps) > 5 && !c.Thorough() {
			b.reps = reps[:5]
		}
		u.Case(func() string { return b.name + ": " + b.what })
		b.lazies()
	})
}

// inAny makes the elements those of collections of any.
func inAny[T any](reps [][]T) [][]any {
	var out [][]any
	for _, r := range reps {
		var o []any
		for _, v := range r {
			o = append(o, v)
		}
		out = append(out, o)
	}
	return out
}

func c29(c *Ctx) {
	g := geom(c)
	shapes := []core.Shape{
		groupShape("spread", g, [2]int{1, 1}, [2]int{1, 1}, [2]int{1, 1}, [2]int{1, 1}),
		groupShape("3 colliding", g, [2]int{3, g.Max}, [2]int{1, 1}),
		groupShape("4 colliding", g, [2]int{4, g.Max}),
		groupShape("2 deep, 2 colliding", g, [2]int{2, g.Max - 1}, [2]int{2, g.Max}),
	}
	if c.Thorough() {
		for _, s := range core.EnumShapes(4, lcps(g, false), g) {
			shapes = append(shapes, s)
		}
		shapes = append(shapes, groupShape("6", g, [2]int{3, g.Max}, [2]int{2, 2}, [2]int{1, 1}), groupShape("6 colliding", g, [2]int{6, g.Max}))
	}
	for _, s := range shapes {
		eqs := notes(s, func(id int, h uint64, n string) noteEq { return noteEq{id, h, n} })
		c29Type(c, "Equal/"+s.Name, func(a, b noteEq) bool { return a.ID == b.ID }, eqs, nested[noteEq], noAny)
		sames := notes(s, func(id int, h uint64, n string) noteSame { return noteSame{id, h, n} })
		c29Type(c, "Same/"+s.Name, func(a, b noteSame) bool { return a.ID == b.ID }, sames, nested[noteSame], 0)
		both := notes(s, func(id int, h uint64, n string) noteBoth { return noteBoth{id, h, n} })
		c29Type(c, "Equal and Same/"+s.Name, func(a, b noteBoth) bool { return a.ID == b.ID }, both, nested[noteBoth], 0)
		uncomp := notes(s, func(id int, h uint64, n string) noteSlice { return noteSlice{id, h, []string{n}} })
		c29Type(c, "uncomparable/"+s.Name, func(a, b noteSlice) bool { return a.ID == b.ID }, uncomp, nil, noAny)
		ptrs := notes(s, func(id int, h uint64, n string) *notePtr { return &notePtr{id, h} })
		c29Type(c, "pointer with Equal/"+s.Name, func(a, b *notePtr) bool { return a.ID == b.ID }, ptrs, nil, noAny)
		sptrs := notes(s, func(id int, h uint64, n string) *samePtr { return &samePtr{id, h} })
		c29Type(c, "pointer with Same/"+s.Name, func(a, b *samePtr) bool { return a.ID == b.ID }, sptrs, nil, 0)
		others := single(notesOf(s, func(id int, h uint64) otherEq { return otherEq{id, h} })...)
		c29Type(c, "Equal for another type/"+s.Name, goEq[otherEq], others, nil, 0)
		sameAny := func(a, b any) bool {
			switch a := a.(type) {
			case noteSame:
				return a.Same(b)
			case noteBoth:
				return a.Same(b)
			case *samePtr:
				return a.Same(b)
			case noteEq, noteSlice, *notePtr:
				return false
			}
			return a == b
		}
		c29Type(c, "any of Same/"+s.Name, sameAny, inAny(sames), nested[any], 0)
		c29Type(c, "any of Equal and Same/"+s.Name, sameAny, inAny(both), nested[any], 0)
		// colliding values of different dynamic types
		mixed := [][]any{inAny(sames)[0], inAny(both)[0], inAny(sptrs)[1], {otherEq{0, s.H[0]}}, {E{0, s.H[0]}}}
		c29Type(c, "any of different types/"+s.Name, sameAny, mixed, nested[any], 0)
		c29Type(c, "interface of Same/"+s.Name, func(a, b shower) bool {
			x, isX := a.(showA)
			y, isY := b.(showA)
			return isX && isY && x.ID == y.ID || !isX && !isY && a == b
		}, append(notes(s, func(id int, h uint64, n string) shower { return showA{id, h, n} })[:3],
			[]shower{showB{0}}, []shower{showB{1}}), nil, 0)
		var eqi [][]equaler
		for i, h := range s.H {
			eqi = append(eqi, []equaler{numA{i, h, ""}, &numB{h, i}, numA{i, h, "x"}})
		}
		c29Type(c, "interface with Equal/"+s.Name, equaler.Equal, eqi, nil, noAny)
		c29Type(c, "nested sets of Equal/"+s.Name, frozen.Set[noteEq].Equal, nestedSets(eqs), nil, 0)
		c29Type(c, "map elements/"+s.Name, frozen.Map[noteEq, noteSame].Equal, nestedMaps(eqs, sames), nil, 0)
		kvs := [][]frozen.KeyValue[noteEq, noteSame]{}
		for i := 0; i < 4; i++ {
			x, y := eqs[i/2], sames[i%2]
			kvs = append(kvs, []frozen.KeyValue[noteEq, noteSame]{frozen.KV(x[0], y[1]), frozen.KV(x[1], y[0]), frozen.KV(x[2], y[2])})
		}
		c29Type(c, "entries as elements/"+s.Name, func(a, b frozen.KeyValue[noteEq, noteSame]) bool {
			return a.Key.ID == b.Key.ID && a.Value.ID == b.Value.ID
		}, kvs, nil, 0)
		c29Type(c, "any of nested sets/"+s.Name, func(a, b any) bool {
			x, isX := a.(frozen.Set[noteEq])
			y, isY := b.(frozen.Set[noteEq])
			return isX && isY && x.Equal(y)
		}, inAny(nestedSets(eqs)), nested[any], 0)
	}

	c29AllSizes(c)
	c29Type(c, "int", goEq[int], single(0, 1, -1, 8, math.MaxInt, math.MinInt), nested[int], 0)
	c29Type(c, "uint64", goEq[uint64], single[uint64](0, 1, 1<<63, math.MaxUint64, 64), nil, 0)
	c29Type(c, "string", goEq[string], single("", "a", "b", "ab", "a\x00"), nil, 0)
	neg := math.Copysign(0, -1)
	c29Type(c, "float64", goEq[float64], [][]float64{{0, neg, 0}, {1}, {-1}, {math.Inf(1)}, {math.Inf(-1)}}, nil, 0)
	c29Type(c, "struct", goEq[plainS], single(plainS{C: 0}, plainS{1, "", 0}, plainS{0, "a", 0}, plainS{0, "", 1}, plainS{0, "", int8(1)}), nil, 0)
	p, q := new(int), new(int)
	c29Type(c, "pointer", goEq[*int], single(p, q, nil, new(int)), nil, 0)
	c29Type(c, "any of scalars", goEq[any], single[any](1, int64(1), "1", 1.0, true, uint8(1)), nested[any], 0)
	c29Type(c, "any of zeros", goEq[any], [][]any{{0}, {""}, {0.0, neg}, {false}, {int8(0)}, {plainS{C: 0}}}, nested[any], 0)
	c29Type(c, "any of other scalars", goEq[any], [][]any{{float32(0), float32(neg)}, {complex(0, neg), complex(neg, 0)}, {[2]int{0, 1}}, {[2]int{1, 0}}, {uint64(1) << 63}, {uintptr(0)}}, nested[any], 0)
	c29Type(c, "any of collections", func(a, b any) bool {
		switch a := a.(type) {
		case frozen.Set[int]:
			t, is := b.(frozen.Set[int])
			return is && a.Equal(t)
		case frozen.Set[any]:
			t, is := b.(frozen.Set[any])
			return is && a.Equal(t)
		case frozen.IntSet[int]:
			t, is := b.(frozen.IntSet[int])
			return is && a.Equal(t)
		case frozen.Map[int, int]:
			t, is := b.(frozen.Map[int, int])
			return is && a.Equal(t)
		}
		return false
	}, [][]any{
		{frozen.NewSet(1, 2), frozen.NewSet(2, 1), frozen.NewSet(1, 2, 3).Without(3)},
		{frozen.NewSet[any](1, 2), frozen.NewSet[any](2, 1), frozen.NewSet(1, 2).AsSetAny()},
		{frozen.NewIntSet(1, 2), frozen.NewIntSet(2).With(1), frozen.NewIntSet(1, 2, 200).Without(200)},
		{frozen.NewMap(frozen.KV(1, 2)), frozen.NewMap(frozen.KV(1, 3)).With(1, 2), frozen.NewMap(frozen.KV(1, 2), frozen.KV(2, 2)).Without(2)},
		{frozen.Set[int]{}, frozen.NewSet(1).Without(1), frozen.NewSet[int]()},
	}, nested[any], 0)
	c29Type(c, "sets of int", frozen.Set[int].Equal, [][]frozen.Set[int]{
		{{}, frozen.NewSet(7).Without(7), frozen.NewSet[int]()},
		{frozen.NewSet(1), frozen.NewSet(1, 2).Without(2), frozen.Iota2(1, 2)},
		{frozen.Iota(20), frozen.Iota(30).Where(func(i int) bool { return i < 20 }), frozen.Iota(10).Union(frozen.Iota2(5, 20))},
		{frozen.Iota(21), frozen.Iota(20).With(20), frozen.Iota2(1, 21).With(0)},
	}, nil, 0)
	c29Type(c, "sets of sets of sets", frozen.Set[frozen.Set[frozen.Set[int]]].Equal, [][]frozen.Set[frozen.Set[frozen.Set[int]]]{
		{{}},
		{frozen.NewSet(frozen.Set[frozen.Set[int]]{}), frozen.NewSet(frozen.NewSet(frozen.NewSet(1)).Without(frozen.NewSet(1)))},
		{frozen.NewSet(frozen.NewSet(frozen.NewSet(1, 2))), frozen.NewSet(frozen.NewSet(frozen.NewSet(2, 1)))},
		{frozen.NewSet(frozen.NewSet(frozen.NewSet(1), frozen.NewSet(2))), frozen.NewSet(frozen.NewSet(frozen.NewSet(2), frozen.NewSet(1)))},
	}, nil, 0)
	c29Type(c, "IntSets", frozen.IntSet[int].Equal, [][]frozen.IntSet[int]{
		{{}, frozen.NewIntSet[int](), frozen.NewIntSet(5).Without(5)},
		{frozen.NewIntSet(5), frozen.NewIntSet(5, 500).Without(500), frozen.NewIntSet(-5, 5).Intersection(frozen.NewIntSet(5))},
		{frozen.NewIntSet(-5), frozen.NewIntSet(5, -5).Without(5)},
		{frozen.NewIntSet(1, 100, 1000), frozen.NewIntSet(1000, 1).With(100)},
	}, nil, 0)
	c29Type(c, "maps", frozen.Map[string, int].Equal, [][]frozen.Map[string, int]{
		{{}, frozen.NewMap(frozen.KV("a", 1)).Without("a")},
		{frozen.NewMap(frozen.KV("a", 1)), frozen.NewMap(frozen.KV("a", 2)).With("a", 1)},
		{frozen.NewMap(frozen.KV("a", 2))},
		{frozen.NewMap(frozen.KV("a", 1), frozen.KV("b", 2)), frozen.NewMap(frozen.KV("b", 2)).With("a", 1)},
		{frozen.NewMap(frozen.KV("a", 2), frozen.KV("b", 1))},
	}, nil, 0)
}

func notesOf[T any](sh core.Shape, mk func(id int, h uint64) T) []T {
	var out []T
	for i, h := range sh.H {
		out = append(out, mk(i, h))
	}
	return out
}

// nestedSets: sets of the elements, each built from different forms in
// different ways.
func nestedSets(el [][]noteEq) [][]frozen.Set[noteEq] {
	masks := []uint32{0, 1, 3, 6, 15}
	b := &bat[noteEq]{reps: el, eq: func(a, b noteEq) bool { return a.ID == b.ID }}
	var out [][]frozen.Set[noteEq]
	for _, m := range masks {
		out = append(out, []frozen.Set[noteEq]{b.set(m, 0), b.set(m, 1), b.set(m, 2)})
	}
	return out
}

func nestedMaps(k [][]noteEq, v [][]noteSame) [][]frozen.Map[noteEq, noteSame] {
	mk := func(f int, kv ...int) frozen.Map[noteEq, noteSame] {
		var m frozen.Map[noteEq, noteSame]
		for i := 0; i < len(kv); i += 2 {
			j := i
			if f == 1 {
				j = len(kv) - 2 - i
			}
			m = m.With(k[kv[j]][f], v[kv[j+1]][f])
		}
		if f == 2 {
			m = m.With(noteEq{ID: 99, H: k[0][0].H}, v[0][0]).Without(noteEq{ID: 99, H: k[0][0].H, Note: "z"})
		}
		return m
	}
	var out [][]frozen.Map[noteEq, noteSame]
	for _, kv := range [][]int{{}, {0, 0}, {0, 1}, {0, 0, 1, 1}, {0, 1, 1, 0, 2, 2}} {
		out = append(out, []frozen.Map[noteEq, noteSame]{mk(0, kv...), mk(1, kv...), mk(2, kv...)})
	}
	return out
}

var _ = fmt.Sprint
