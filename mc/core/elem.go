package core

import (
	"fmt"
	"sync"
)

var tagMu sync.RWMutex

// E is an element with a chosen hash, so that the search controls where it
// lands in the trie. It is compared with ==.
type E struct {
	ID int32
	H  uint64
}

// Hash implements hash.Hashable.
func (e E) Hash(seed uintptr) uintptr {
	return uintptr(e.H) ^ uintptr(mix64(uint64(seed)))
}

func (e E) String() string { return fmt.Sprintf("e%d", e.ID) }

// mix64 is a bijection with mix64(0) == 0.
func mix64(x uint64) uint64 {
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// Mix is the exported mixing function.
func Mix(x uint64) uint64 { return mix64(x + 0x9e3779b97f4a7c15) }

// EQ defines Equal (it satisfies the library's generic equality protocol).
// Values with the same ID are equal, whatever their Tag.
type EQ struct {
	ID  int32
	Tag int32
	H   uint64
}

func (e EQ) Hash(seed uintptr) uintptr { return uintptr(e.H) ^ uintptr(mix64(uint64(seed))) }
func (e EQ) Equal(f EQ) bool           { return e.ID == f.ID }
func (e EQ) String() string            { return fmt.Sprintf("q%d", e.ID) }

// ES defines Same (the non-generic equality protocol).
type ES struct {
	ID  int32
	Tag int32
	H   uint64
}

func (e ES) Hash(seed uintptr) uintptr { return uintptr(e.H) ^ uintptr(mix64(uint64(seed))) }
func (e ES) Same(a any) bool           { f, is := a.(ES); return is && e.ID == f.ID }
func (e ES) String() string            { return fmt.Sprintf("s%d", e.ID) }

// Univ is a finite alphabet of pairwise unequal elements.
type Univ[T any] struct {
	Name string
	El   []T
	ID   func(T) int
}

// UnivE is the universe of E elements with the hashes of a shape.
func UnivE(s Shape) Univ[E] {
	u := Univ[E]{Name: s.Name, ID: func(e E) int { return int(e.ID) }}
	for i, h := range s.H {
		u.El = append(u.El, E{ID: int32(i), H: h})
	}
	return u
}

// UnivEQ is UnivE for elements that define Equal.
func UnivEQ(s Shape) Univ[EQ] {
	u := Univ[EQ]{Name: s.Name, ID: func(e EQ) int { return int(e.ID) }}
	for i, h := range s.H {
		u.El = append(u.El, EQ{ID: int32(i), Tag: int32(i * 10), H: h})
	}
	return u
}

// ID2 is ID, for elements that may not be the universe's own.
func (u Univ[T]) ID2(e T) int {
	i := u.ID(e)
	if i < 0 || i >= len(u.El) {
		return 0
	}
	return i
}
