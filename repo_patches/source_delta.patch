From 95f19c66e527083668cda85f744a8c9b8655d9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:32 +0000
Subject: [PATCH 01/21] fix: twig.With must not append into a backing array
 shared with other versions

append(l.data, v) writes into l.data's spare capacity, so that two sets
derived from the same base by With overwrite each other's element when more
than two elements have the same hash.
---
 internal/pkg/tree/twig.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 8c29839..7c1b86d 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -288,7 +288,7 @@ func (l *twig[T]) With(args *CombineArgs[T], v T, depth int, _ hasher) (_ node[T
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	return newTwig(append(l.cloneWithExtra(1).data, v)...).Canonical(depth), matches
 }
 
 func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
@@ -300,7 +300,7 @@ func (l *twig[T]) WithFast(v T, depth int, _ hasher) (_ node[T], matches int) {
 			return ret, matches
 		}
 	}
-	return newTwig(append(l.data, v)...).Canonical(depth), matches
+	return newTwig(append(l.cloneWithExtra(1).data, v)...).Canonical(depth), matches
 }
 
 func (l *twig[T]) Without(v T, depth int, _ hasher) (_ node[T], matches int) {
-- 
2.43.0


From a8f28bd88255844317efe0826e28e6a21befae1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 02/21] fix: combine colliding elements instead of panicking

(*twig).Combine discarded the result it built and panicked when more than two
elements have the same hash; combining a twig with a leaf wasn't handled.
---
 internal/pkg/tree/leaf1.go |  2 ++
 internal/pkg/tree/leaf2.go |  2 ++
 internal/pkg/tree/twig.go  | 25 +++++++++----------------
 3 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/internal/pkg/tree/leaf1.go b/internal/pkg/tree/leaf1.go
index 9c99baf..c2ba7b6 100644
--- a/internal/pkg/tree/leaf1.go
+++ b/internal/pkg/tree/leaf1.go
@@ -68,6 +68,8 @@ func (l *leaf1[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		return n.Combine(args.Flip(), l, depth)
 	case *leaf1[T]:
diff --git a/internal/pkg/tree/leaf2.go b/internal/pkg/tree/leaf2.go
index 1659aab..7177178 100644
--- a/internal/pkg/tree/leaf2.go
+++ b/internal/pkg/tree/leaf2.go
@@ -69,6 +69,8 @@ func (l *leaf2[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T
 	switch n := n.(type) {
 	case *branch[T]:
 		return n.Combine(args.Flip(), l, depth)
+	case *twig[T]:
+		return n.Combine(args.Flip(), l, depth)
 	case *leaf2[T]:
 		l0, l1 := l.data[0], l.data[1]
 		n0, n1 := n.data[0], n.data[1]
diff --git a/internal/pkg/tree/twig.go b/internal/pkg/tree/twig.go
index 7c1b86d..1c4d8b5 100644
--- a/internal/pkg/tree/twig.go
+++ b/internal/pkg/tree/twig.go
@@ -107,13 +107,17 @@ func (l *twig[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[T]
 	switch n := n.(type) {
 	case *twig[T]:
 		ndata = n.data
+	case *leaf1[T]:
+		ndata = []T{n.data}
+	case *leaf2[T]:
+		ndata = n.data[:]
 	default:
 		panic(errors.ErrWTF)
 	}
 
 	cloned := false
 scanning:
-	for i, e := range ndata {
+	for _, e := range ndata {
 		for j, f := range l.data {
 			if args.eq(f, e) {
 				if !cloned {
@@ -125,22 +129,11 @@ scanning:
 				continue scanning
 			}
 		}
-		if len(l.data) < maxLeafLen {
-			l = newTwig(append(l.data, e)...)
-		} else {
-			b := &branch[T]{}
-			for _, e := range l.data {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
-			for _, e := range ndata[i:] {
-				_, m := b.Add(args, e, depth, newHasher(e, depth))
-				matches += m
-			}
+		if !cloned {
+			l = l.cloneWithExtra(1)
+			cloned = true
 		}
-	}
-	if len(l.data) > maxLeafLen {
-		panic(errors.ErrWTF)
+		l.data = append(l.data, e)
 	}
 	return l.Canonical(depth), matches
 }
-- 
2.43.0


From 61b9a8af005079c4ba94646e678094c867ccbe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:44 +0000
Subject: [PATCH 03/21] fix: avoid data races in parallel Combine

branch.Combine updated the shared mask from several goroutines, and
CombineArgs.Flip created the flipped args on demand in any of them.
---
 internal/pkg/tree/branch.go   | 4 ++--
 internal/pkg/tree/nodeArgs.go | 4 +++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/internal/pkg/tree/branch.go b/internal/pkg/tree/branch.go
index 8a9aa92..43d5138 100644
--- a/internal/pkg/tree/branch.go
+++ b/internal/pkg/tree/branch.go
@@ -98,9 +98,9 @@ func (b *branch[T]) Combine(args *CombineArgs[T], n node[T], depth int) (_ node[
 		_, matches = args.Parallel(depth, b.p.mask|n.p.mask, func(i int) (_ bool, matches int) {
 			x, y := b.p.data[i], n.p.data[i]
 			if x == nil {
-				ret.p.SetNonNilChild(i, y)
+				ret.p.data[i] = y
 			} else if y == nil {
-				ret.p.SetNonNilChild(i, x)
+				ret.p.data[i] = x
 			} else {
 				var n node[T]
 				n, matches = x.Combine(args, y, depth+1)
diff --git a/internal/pkg/tree/nodeArgs.go b/internal/pkg/tree/nodeArgs.go
index b5a109e..4e2d46c 100644
--- a/internal/pkg/tree/nodeArgs.go
+++ b/internal/pkg/tree/nodeArgs.go
@@ -34,7 +34,9 @@ type CombineArgs[T any] struct {
 }
 
 func NewCombineArgs[T any](ea *EqArgs[T], combine func(a, b T) T) *CombineArgs[T] {
-	return &CombineArgs[T]{EqArgs: ea, f: combine}
+	args := &CombineArgs[T]{EqArgs: ea, f: combine}
+	args.Flip() // Now, not on demand, as args may be shared by goroutines.
+	return args
 }
 
 func (a *CombineArgs[T]) Flip() *CombineArgs[T] {
-- 
2.43.0


From 378b6e5bbc4dae9d7dd39db89f0a3a7f837cf7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:15 +0000
Subject: [PATCH 04/21] fix: formatting an empty Set or Map with %+v must not
 panic

---
 internal/pkg/tree/tree.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/pkg/tree/tree.go b/internal/pkg/tree/tree.go
index 72e6ace..b187331 100644
--- a/internal/pkg/tree/tree.go
+++ b/internal/pkg/tree/tree.go
@@ -41,6 +41,7 @@ func (t Tree[T]) String() string {
 func (t Tree[T]) Format(f fmt.State, verb rune) {
 	if t.root == nil {
 		fu.WriteString(f, "∅")
+		return
 	}
 	t.root.Format(f, verb)
 }
-- 
2.43.0


From 6843ad6fbc450f40ba19d5cd66323f94ac05f756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:41 +0000
Subject: [PATCH 05/21] fix: IntSet must place negative integers within their
 cell

i%cellBits is negative for negative i.
---
 intset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/intset.go b/intset.go
index 5fe4545..bfd8402 100644
--- a/intset.go
+++ b/intset.go
@@ -23,7 +23,7 @@ const (
 )
 
 func locateCell[I integer](i I) (cell I, bitMask cellMask) {
-	return i >> cellShift, cellMask(1) << uint(i%cellBits)
+	return i >> cellShift, cellMask(1) << uint(i&(cellBits-1))
 }
 
 // NewIntSet returns an IntSet with the values provided.
-- 
2.43.0


From 5d9bad0e282051b780f0129c1d2225421282b8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:10 +0000
Subject: [PATCH 06/21] fix: BitIterator.Without must remove only the given
 position

&^ and << have the same precedence.
---
 bititer.go                       | 2 +-
 internal/pkg/iterator/bititer.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bititer.go b/bititer.go
index 9535fb9..dc731e5 100644
--- a/bititer.go
+++ b/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
diff --git a/internal/pkg/iterator/bititer.go b/internal/pkg/iterator/bititer.go
index a8d4f86..daf38d5 100644
--- a/internal/pkg/iterator/bititer.go
+++ b/internal/pkg/iterator/bititer.go
@@ -30,7 +30,7 @@ func (b BitIterator) With(i int) BitIterator {
 }
 
 func (b BitIterator) Without(i int) BitIterator {
-	return b &^ BitIterator(1) << uint(i)
+	return b &^ (BitIterator(1) << uint(i))
 }
 
 func (b BitIterator) String() string {
-- 
2.43.0


From 28d98bf4b67d2fb91c26051afb1ee32c429dc7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:19 +0000
Subject: [PATCH 07/21] fix: joining with an empty relation yields an empty
 relation

---
 pkg/rel/relation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/rel/relation.go b/pkg/rel/relation.go
index 3d40aa1..a46ddec 100644
--- a/pkg/rel/relation.go
+++ b/pkg/rel/relation.go
@@ -59,7 +59,7 @@ func Join(relations ...Relation) Relation {
 
 func join(s, t Relation) Relation {
 	if s.IsEmpty() || t.IsEmpty() {
-		return s
+		return Relation{}
 	}
 	if s.Equal(trueSet) {
 		return t
-- 
2.43.0


From 4b181f45bff3fd700df0baff5da428e206c1005e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:24 +0000
Subject: [PATCH 08/21] fix: Has and FastHas of a lazy difference must consider
 both operands

---
 lazy/set_diff.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lazy/set_diff.go b/lazy/set_diff.go
index cb550c6..db1ec43 100644
--- a/lazy/set_diff.go
+++ b/lazy/set_diff.go
@@ -18,14 +18,19 @@ func difference(a, b Set) Set {
 }
 
 func (s *differenceSet) Has(el any) bool {
-	return s.a.Has(el) || s.b.Has(el)
+	return s.a.Has(el) && !s.b.Has(el)
 }
 
 func (s *differenceSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && !aHas {
+		return false, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return false, true
+	}
+	return aHas && !bHas, aOk && bOk
 }
 
 func (s *differenceSet) Range() SetIterator {
-- 
2.43.0


From 5feb729be4c7fb950aadef939567323f9ee27de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:29 +0000
Subject: [PATCH 09/21] fix: FastHas of a lazy union must consider both
 operands

---
 lazy/set_union.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lazy/set_union.go b/lazy/set_union.go
index f25c009..f627dda 100644
--- a/lazy/set_union.go
+++ b/lazy/set_union.go
@@ -32,10 +32,15 @@ func (s *unionSet) Has(el any) bool {
 }
 
 func (s *unionSet) FastHas(el any) (has, ok bool) {
-	if has, ok = s.a.FastHas(el); ok {
-		return has, ok
+	aHas, aOk := s.a.FastHas(el)
+	if aOk && aHas {
+		return true, true
 	}
-	return s.a.FastHas(el)
+	bHas, bOk := s.b.FastHas(el)
+	if bOk && bHas {
+		return true, true
+	}
+	return aHas || bHas, aOk && bOk
 }
 
 func (s *unionSet) Range() SetIterator {
-- 
2.43.0


From fe5594cf3ce8bb84762dbb7fd9dff3ff6cbc1a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:35 +0000
Subject: [PATCH 10/21] fix: lazy.EmptySet must not equal every set

---
 lazy/set_empty.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_empty.go b/lazy/set_empty.go
index d46248f..cd5f410 100644
--- a/lazy/set_empty.go
+++ b/lazy/set_empty.go
@@ -36,9 +36,9 @@ func (EmptySet) Freeze() Set {
 	return Frozen(frozen.Set[any]{})
 }
 
-func (EmptySet) Equal(set any) bool {
+func (s EmptySet) Equal(set any) bool {
 	if set, ok := set.(Set); ok {
-		return set.EqualSet(set)
+		return s.EqualSet(set)
 	}
 	return false
 }
-- 
2.43.0


From 985bbadbae4a20742628cc82e59f6f5693300f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 11/21] fix: the hash of a lazy set must not depend on the
 order or repetition of elements

---
 lazy/set_base.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 27b5830..9dfc0d2 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -75,8 +75,8 @@ func (s *baseSet) EqualSet(t Set) bool {
 
 func (s *baseSet) Hash(seed uintptr) uintptr {
 	h := hash.Uintptr(hashSeed, seed)
-	for i := s.set.Range(); i.Next(); {
-		h = hash.Any(i.Value(), h)
+	for i := memo(s.set).Range(); i.Next(); {
+		h ^= hash.Any(i.Value(), seed)
 	}
 	return h
 }
-- 
2.43.0


From 6db7974b18076007ac38fdf818df85bd0ec77a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:45 +0000
Subject: [PATCH 12/21] fix: counting a lazy set must not count repeated
 elements twice

---
 lazy/set_base.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_base.go b/lazy/set_base.go
index 9dfc0d2..374265e 100644
--- a/lazy/set_base.go
+++ b/lazy/set_base.go
@@ -43,7 +43,7 @@ func (s *baseSet) CountUpTo(limit int) int {
 		return count
 	}
 	n := 0
-	for i := s.set.Range(); n < limit && i.Next(); {
+	for i := memo(s.set).Range(); n < limit && i.Next(); {
 		n++
 	}
 	return n
-- 
2.43.0


From 27b8de15710b5a603f5c4efe2b3f4dd463ec7a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:50 +0000
Subject: [PATCH 13/21] fix: a lazy powerset is never empty

---
 lazy/set_powerset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 21482cc..40ac418 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -18,7 +18,7 @@ func powerset(set Set) Set {
 }
 
 func (s *powerSet) IsEmpty() bool {
-	return s.set.IsEmpty()
+	return false
 }
 
 func (s *powerSet) FastIsEmpty() (empty, ok bool) {
-- 
2.43.0


From f7c264b1a8d1aa3344aadc09c00f4296a2d23c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 14/21] fix: the elements of a lazy powerset are lazy sets

---
 lazy/set_powerset.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index 40ac418..b11995d 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -57,8 +57,8 @@ func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 }
 
 func (s *powerSet) Has(el any) bool {
-	ss, ok := el.(frozen.Set[any])
-	return ok && Frozen(ss).IsSubsetOf(s.set)
+	ss, ok := el.(Set)
+	return ok && ss.IsSubsetOf(s.set)
 }
 
 func (s *powerSet) Range() SetIterator {
-- 
2.43.0


From 1ff726e4cfbebdba59c98278a32ffeafffaf3e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 15/21] fix: calling Next again at the end of a lazy set must
 not empty the set

---
 lazy/set_memo.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 3b920fe..0014493 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -41,15 +41,20 @@ type cachingIterator struct {
 	iter SetIterator
 	s    *memoSet
 	seen frozen.SetBuilder[any]
+	done bool
 }
 
 func (i *cachingIterator) Next() bool {
+	if i.done {
+		return false
+	}
 	for i.iter.Next() {
 		if val := i.iter.Value(); !i.seen.Has(val) {
 			i.seen.Add(val)
 			return true
 		}
 	}
+	i.done = true
 	seen := Frozen(i.seen.Finish())
 	atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
 	return false
-- 
2.43.0


From 1a85ba6a79d15a6355613f8d5dbdf18bc50f6059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 16/21] fix: a panic in a parallel operation must reach the
 caller

It ended the whole process.
---
 internal/pkg/depth/gauge.go | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/internal/pkg/depth/gauge.go b/internal/pkg/depth/gauge.go
index 821fb43..f5bba8b 100644
--- a/internal/pkg/depth/gauge.go
+++ b/internal/pkg/depth/gauge.go
@@ -53,17 +53,29 @@ func (pd Gauge) Parallel(depth int, mask masker.Masker, f func(i int) (bool, int
 		type outcome struct {
 			matches int
 			ok      bool
+
+			panicked  bool
+			recovered any
 		}
 		outcomes := make(chan outcome, Fanout)
 		for m := mask; m != 0; m = m.Next() {
 			i := m.FirstIndex()
 			go func() {
-				ok, m := f(i)
-				outcomes <- outcome{matches: m, ok: ok}
+				o := outcome{panicked: true}
+				defer func() {
+					if o.panicked {
+						o.recovered = recover()
+					}
+					outcomes <- o
+				}()
+				o.ok, o.matches = f(i)
+				o.panicked = false
 			}()
 		}
 		for m := mask; m != 0; m = m.Next() {
-			if o := <-outcomes; o.ok {
+			if o := <-outcomes; o.panicked {
+				panic(o.recovered)
+			} else if o.ok {
 				matches += o.matches
 			} else {
 				return false, matches
-- 
2.43.0


From 7a1227d854f88f2960d8f14f52e795db20f8ea3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:54 +0000
Subject: [PATCH 17/21] fix: Iota3 must stop at the end of the int range

---
 set_extra.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/set_extra.go b/set_extra.go
index 31384ef..a4a0674 100644
--- a/set_extra.go
+++ b/set_extra.go
@@ -29,10 +29,16 @@ func Iota3[T ~int](start, stop, step T) Set[T] {
 	if step > 0 {
 		for i := start; i < stop; i += step {
 			b.Add(i)
+			if i+step < i { // overflow
+				break
+			}
 		}
 	} else {
 		for i := start; i > stop; i += step {
 			b.Add(i)
+			if i+step > i { // overflow
+				break
+			}
 		}
 	}
 	return b.Finish()
-- 
2.43.0


From d7f8737f1dc0d9716bd1fec85e52b5d4e13f09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:42 +0000
Subject: [PATCH 18/21] fix: sets derived from a lazy set must not see repeated
 elements

The operands of derived sets bypassed memoisation, so that elements
could be yielded twice, and powerset membership and comparisons with
eager sets went wrong.
---
 lazy/set_memo.go | 40 +++++++++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 9 deletions(-)

diff --git a/lazy/set_memo.go b/lazy/set_memo.go
index 0014493..189fd57 100644
--- a/lazy/set_memo.go
+++ b/lazy/set_memo.go
@@ -76,15 +76,37 @@ func (s *memoSet) EqualSet(set Set) bool           { return s.getSet().EqualSet(
 func (s *memoSet) IsSubsetOf(set Set) bool         { return s.getSet().IsSubsetOf(set) }
 func (s *memoSet) Has(el any) bool                 { return s.getSet().Has(el) }
 func (s *memoSet) FastHas(el any) (has, ok bool)   { return s.getSet().FastHas(el) }
-func (s *memoSet) With(v any) Set                  { return s.getSet().With(v) }
-func (s *memoSet) Without(v any) Set               { return s.getSet().Without(v) }
-func (s *memoSet) Where(pred Predicate) Set        { return s.getSet().Where(pred) }
-func (s *memoSet) Map(m Mapper) Set                { return s.getSet().Map(m) }
-func (s *memoSet) Union(set Set) Set               { return s.getSet().Union(set) }
-func (s *memoSet) Intersection(set Set) Set        { return s.getSet().Intersection(set) }
-func (s *memoSet) Difference(set Set) Set          { return s.getSet().Difference(set) }
-func (s *memoSet) SymmetricDifference(set Set) Set { return s.getSet().SymmetricDifference(set) }
-func (s *memoSet) Powerset() Set                   { return s.getSet().Powerset() }
+
+// Sets derived from s must use s, not the set it memoises, as their operand: the
+// latter may yield elements more than once.
+
+func (s *memoSet) With(v any) Set {
+	if f, ok := s.getSet().(*frozenSet); ok {
+		return f.With(v)
+	}
+	return union(s, Frozen(frozen.NewSet(v)))
+}
+
+func (s *memoSet) Without(v any) Set {
+	if f, ok := s.getSet().(*frozenSet); ok {
+		return f.Without(v)
+	}
+	return difference(s, Frozen(frozen.NewSet(v)))
+}
+
+func (s *memoSet) Map(m Mapper) Set {
+	if f, ok := s.getSet().(*frozenSet); ok {
+		return f.Map(m)
+	}
+	return mapper(s, m)
+}
+
+func (s *memoSet) Where(pred Predicate) Set        { return where(s, pred) }
+func (s *memoSet) Union(set Set) Set               { return union(s, set) }
+func (s *memoSet) Intersection(set Set) Set        { return intersection(s, set) }
+func (s *memoSet) Difference(set Set) Set          { return difference(s, set) }
+func (s *memoSet) SymmetricDifference(set Set) Set { return symmetricDifference(s, set) }
+func (s *memoSet) Powerset() Set                   { return powerset(s) }
 
 func (s *memoSet) FastCountUpTo(limit int) (count int, ok bool) {
 	return s.getSet().FastCountUpTo(limit)
-- 
2.43.0


From 7eb9c9b701eb85b17da955e398556d4261ccc65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:16 +0000
Subject: [PATCH 19/21] fix: count powersets of 63 and more elements right

1<<63 overflows int, so FastCount and Count of the powerset of a 63-element
set were negative and FastCountUpTo gave a negative number. CountUpTo needs no
count of the powerset of 64 or more elements to know that it is beyond the
limit.
---
 lazy/set_powerset.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/lazy/set_powerset.go b/lazy/set_powerset.go
index b11995d..cde276e 100644
--- a/lazy/set_powerset.go
+++ b/lazy/set_powerset.go
@@ -6,6 +6,10 @@ import (
 	"github.com/arr-ai/frozen"
 )
 
+// maxPowerSetBase is the size of the smallest sets whose powersets have more
+// elements than an int can count.
+const maxPowerSetBase = int(8*unsafe.Sizeof(0)) - 1
+
 type powerSet struct {
 	baseSet
 	set Set
@@ -26,7 +30,7 @@ func (s *powerSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *powerSet) Count() int {
-	if count := s.set.Count(); count < int(8*unsafe.Sizeof(0)) {
+	if count := s.set.Count(); count < maxPowerSetBase {
 		return 1 << uint(count)
 	}
 	panic("Count(): too many elements")
@@ -34,7 +38,7 @@ func (s *powerSet) Count() int {
 
 func (s *powerSet) FastCount() (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
+		if count < maxPowerSetBase {
 			return 1 << uint(count), true
 		}
 		panic("Count(): too many elements")
@@ -44,14 +48,12 @@ func (s *powerSet) FastCount() (count int, ok bool) {
 
 func (s *powerSet) FastCountUpTo(limit int) (count int, ok bool) {
 	if count, ok := s.set.FastCount(); ok {
-		if count < int(8*unsafe.Sizeof(0)) {
-			n := 1 << uint(count)
-			if n < limit {
+		if count < maxPowerSetBase {
+			if n := 1 << uint(count); n < limit {
 				return n, true
 			}
-			return limit, true
 		}
-		panic("Count(): too many elements")
+		return limit, true
 	}
 	return 0, false
 }
-- 
2.43.0


From 8f1d715dc75998d587651091803bd62f8a5452c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:04 +0000
Subject: [PATCH 20/21] fix: OrderedFirstN and FirstN must not allocate for
 more elements than there are

---
 set.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/set.go b/set.go
index d3b552f..676fdf2 100644
--- a/set.go
+++ b/set.go
@@ -104,6 +104,9 @@ func (s Set[T]) AnyN(n int) Set[T] {
 
 // OrderedFirstN returns a list of elements in a defined order.
 func (s Set[T]) OrderedFirstN(n int, less tree.Less[T]) []T {
+	if n > s.Count() {
+		n = s.Count()
+	}
 	result := make([]T, 0, n)
 	currentLength := 0
 	for i := s.tree.OrderedIterator(less, n); i.Next() && currentLength < n; currentLength++ {
-- 
2.43.0


From 303c26b8fec33a90df8035c413bebdf61bcafab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:32 +0000
Subject: [PATCH 21/21] fix: a lazy Where must not ask its predicate about
 values that are not elements

---
 lazy/set_where.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lazy/set_where.go b/lazy/set_where.go
index afdf6c6..83aa530 100644
--- a/lazy/set_where.go
+++ b/lazy/set_where.go
@@ -20,7 +20,7 @@ func (s *whereSet) FastIsEmpty() (empty, ok bool) {
 }
 
 func (s *whereSet) Has(el any) bool {
-	return s.pred(el) && s.src.Has(el)
+	return s.src.Has(el) && s.pred(el)
 }
 
 func (s *whereSet) Range() SetIterator {
-- 
2.43.0

