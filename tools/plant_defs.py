T = 'internal/pkg/tree/'

seed('c03-twig-without-in-place', 'C03', [(T + 'twig.go',
'			ret := newTwig(l.data[:len(l.data)-1]...).cloneWithExtra(0)\n',
'			ret := newTwig(l.data[:len(l.data)-1]...)\n')],
'''
func TestSeedDemo(t *testing.T) {
	e := []demoE{{0, 7}, {1, 7}, {2, 7}, {3, 7}}
	s := frozen.NewSet(e...)
	_ = s.Without(e[0])
	for _, x := range e {
		if !s.Has(x) {
			t.Errorf("%v vanished from a set that nobody changed", x)
		}
	}
}
''', 'at least three elements whose hashes collide completely, and a version that outlives a removal',
'Without of one of several fully colliding elements moves the last one in the array shared with the original set.')

seed('c05-hash-by-blocks', 'C05', [('set.go',
'''	for i := s.Range(); i.Next(); {
		h ^= hash.Any(i.Value(), seed)
	}
	return h
''',
'''	for i, n := s.Range(), 1; i.Next(); n++ {
		h ^= hash.Any(i.Value(), seed)
		if n%32 == 0 { // diffuse between blocks
			h = h<<7 | h>>(64-7)
		}
	}
	return h
''')],
'''
func TestSeedDemo(t *testing.T) {
	var a []demoE
	for i := 0; i < 31; i++ {
		a = append(a, demoE{i, uint64(i) << 58})
	}
	b := append([]demoE(nil), a...)
	x, y := demoE{50, 7 << 61}, demoE{51, 7<<61 | 1}
	s := frozen.NewSet(append(a, x, y)...)
	u := frozen.NewSet(append(b, y, x)...)
	if !s.Equal(u) {
		t.Fatal("not equal")
	}
	if s.Hash(1) != u.Hash(1) {
		t.Error("equal sets have different hashes")
	}
}
''', 'two elements that share a leaf, inserted in either order, and exactly 31 elements before them',
'Set.Hash depends on which elements come in which block of 32; two elements of one leaf that are inserted in another order can change places across the boundary.')

seed('c06-slice-iterator-end', 'C06', [('internal/pkg/iterator/slice.go',
'	return i.index < len(i.slice)\n',
'	return i.index != len(i.slice)\n')],
'''
func TestSeedDemo(t *testing.T) {
	for n := 1; n < 20; n++ {
		r := frozen.Iota(n).Range()
		for r.Next() {
		}
		if r.Next() {
			t.Fatalf("an iterator over %d elements goes on after its end", n)
		}
	}
}
''', 'calling Next again after it has returned false',
'Next of an iterator reports another element if it is called once more after the end.')

seed('c07-heap-shortcut', 'C07', [(T + 'tree.go',
'''		heap.Push(o, i.Value())
		if o.Len() > n {
			heap.Pop(o)
		}
''',
'''		v := i.Value()
		if o.Len() < n {
			heap.Push(o, v)
		} else if less(v, o.elements[0]) {
			o.elements[0] = v
			if n > 2 {
				heap.Fix(o, 0)
			}
		}
''')],
'''
func TestSeedDemo(t *testing.T) {
	less := func(a, b demoE) bool { return a.ID < b.ID }
	for _, p := range [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {2, 3, 0, 1}, {1, 3, 0, 2}, {3, 1, 2, 0}, {2, 1, 3, 0}} {
		var s frozen.Set[demoE]
		for i, id := range p {
			s = s.With(demoE{id, uint64(i) << 61})
		}
		for n := 0; n <= 4; n++ {
			got := s.OrderedFirstN(n, less)
			for i, e := range got {
				if e.ID != i {
					t.Errorf("first %d of %v: %v", n, p, got)
				}
			}
			if len(got) != n {
				t.Errorf("first %d of %v: %v", n, p, got)
			}
		}
	}
}
''', 'selecting exactly the first two of at least four elements that the trie enumerates in an order in which the heap has to be restored',
'OrderedFirstN(2) replaces the greater of the two kept elements without restoring the heap, so that a later element is compared with the wrong one.')

seed('c12-colliding-put-keeps-old', 'C12', [(T + 'twig.go',
'''			matches++
			l.data[i] = v
			return l, matches
		}
	}
	if len(l.data) < cap(l.data) || depth >= maxTreeDepth {
		l.data = append(l.data, v)
''',
'''			if i == 0 {
				l.data[i] = v
			}
			return l, matches + 1
		}
	}
	if len(l.data) < cap(l.data) || depth >= maxTreeDepth {
		l.data = append(l.data, v)
''')],
'''
func TestSeedDemo(t *testing.T) {
	var b frozen.MapBuilder[demoE, int]
	for i := 0; i < 4; i++ {
		b.Put(demoE{i, 7}, i)
	}
	for i := 0; i < 4; i++ {
		b.Put(demoE{i, 7}, 10+i)
		if v, has := b.Get(demoE{i, 7}); !has || v != 10+i {
			t.Errorf("key %d has value %d", i, v)
		}
	}
}
''', 'at least three keys whose hashes collide completely, one of which is put again',
'MapBuilder.Put does not replace the value of an existing key other than the first among fully colliding ones.')

seed('c14-where-mask-race', 'C14', [(T + 'branch.go',
'''		n, matches = x.Where(args, depth+1)
		nodes.data[i] = n
		return true, matches
	})
	nodes.updateMask()
''',
'''		n, matches = x.Where(args, depth+1)
		nodes.SetChild(i, n)
		return true, matches
	})
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(200)
	for i := 0; i < 200; i++ {
		w := s.Where(func(x int) bool { return x%3 != 0 })
		if w.Count() != 133 || !w.Has(1) {
			t.Fatal("wrong result")
		}
	}
}
''', 'a Where that is evaluated in parallel and two goroutines that update the mask of the new branch at the same time',
'The goroutines of a parallel Where update the mask of the new branch without synchronisation, so that a child can be lost from it.',
env='FROZEN_CONCURRENCY=-30', flags='-race')

seed('c14-token-deadlock', 'C14', [('internal/pkg/depth/gauge.go',
'		outcomes := make(chan outcome, Fanout)\n',
'		outcomes, tokens := make(chan outcome, Fanout), pool\n'),
('internal/pkg/depth/gauge.go',
'''			go func() {
''',
'''			go func() {
				tokens <- struct{}{}
				defer func() { <-tokens }()
'''),
('internal/pkg/depth/gauge.go',
'	// NonParallel is a Gauge that never triggers parallel behaviour.\n',
'''	// pool limits how many goroutines work at the same time.
	pool = make(chan struct{}, Fanout)

	// NonParallel is a Gauge that never triggers parallel behaviour.
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(3000)
	done := make(chan struct{})
	go func() {
		for i := 0; i < 300; i++ {
			s.Where(func(x int) bool { return x%3 != 0 })
		}
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		t.Fatal("does not end")
	}
}
''', 'nested parallel evaluation (GOMAXPROCS > 8), and all outer goroutines holding their tokens before an inner one gets one',
'Goroutines of the outer level keep their tokens of a shared pool while they wait for those of the inner level, which need tokens: deadlock.',
env='FROZEN_CONCURRENCY=-30 GOMAXPROCS=16', imports=('testing', 'time', 'github.com/arr-ai/frozen'))

seed('c15-twig-move-to-front', 'C15', [(T + 'twig.go',
'''		if value.Equal(e, v) {
			return &l.data[i]
		}
	}
	return nil
''',
'''		if value.Equal(e, v) {
			// The same element is often wanted again.
			l.data[0], l.data[i] = e, l.data[0]
			return &l.data[0]
		}
	}
	return nil
''')],
'''
func TestSeedDemo(t *testing.T) {
	e := []demoE{{0, 7}, {1, 7}, {2, 7}, {3, 7}}
	s := frozen.NewSet(e...)
	var wg sync.WaitGroup
	for g := 0; g < 2; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ {
				for _, x := range e {
					if !s.Has(x) {
						t.Error("not found")
					}
				}
			}
		}()
	}
	wg.Wait()
}
''', 'concurrent lookups in a set with at least three fully colliding elements',
'Looking up one of several fully colliding elements moves it to the front of their shared array: lookups race with each other and with iterators.',
flags='-race', imports=('sync', 'testing', 'github.com/arr-ai/frozen'))

seed('c17-intset-keeps-empty-cells', 'C17', [('intset.go',
'''		if cell &^= bitMask; cell != 0 {
			// TODO: optimize this so it doesn't do With many times
			s.data = s.data.With(cellIndex, cell)
		} else {
			s.data = s.data.Without(cellIndex)
		}
		s.count--
''',
'''		// TODO: optimize this so it doesn't do With many times
		s.data = s.data.With(cellIndex, cell&^bitMask)
		if s.count--; s.count == 0 {
			s.data = Map[I, cellMask]{}
		}
'''), ('intset_iter.go',
'''	if i.cell = i.cell.next(); i.cell == 0 {
''',
'''	for i.cell = i.cell.next(); i.cell == 0; {
''')],
'''
func TestSeedDemo(t *testing.T) {
	a := frozen.NewIntSet(1, 2, 1000).Without(1000)
	b := frozen.NewIntSet(1, 2)
	if !a.Equal(b) || !b.Equal(a) {
		t.Error("equal sets are not Equal")
	}
}
''', 'removing the last integer of one of several cells and then comparing with a set that never had that cell',
'IntSet.Without leaves an empty cell behind; iteration skips it, but sets with equal elements and other histories are not Equal.')

seed('c19-union-count-sum', 'C19', [('lazy/set_union.go',
'''	if count, ok := s.a.FastCountUpTo(limit); ok && count == limit {
		return count, true
	}
	if count, ok := s.b.FastCountUpTo(limit); ok && count == limit {
		return count, true
	}
	return 0, false
''',
'''	m, mOk := s.a.FastCountUpTo(limit)
	n, nOk := s.b.FastCountUpTo(limit)
	if mOk && m == limit || nOk && n == limit || mOk && nOk && m >= limit-n {
		return limit, true
	}
	return 0, false
''')],
'''
func TestSeedDemo(t *testing.T) {
	a := lazy.Frozen(frozen.NewSet[any](1, 2))
	b := lazy.Frozen(frozen.NewSet[any](2, 3))
	if n := a.Union(b).CountUpTo(4); n != 3 {
		t.Errorf("CountUpTo(4) of a set of 3 gives %d", n)
	}
}
''', 'operands that overlap, and a limit above the size of the union but not above the sum of theirs',
'FastCountUpTo of a lazy union adds the counts of the operands although they can overlap.',
imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c20-memo-plain-load', 'C20', [('lazy/set_memo.go',
'	return *(*Set)(atomic.LoadPointer(s.pointer()))\n',
'	return *s.set\n')],
'''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 50; i++ {
		s := lazy.Frozen(frozen.NewSet[any](1, 2, 3, 4)).Where(func(v any) bool { return v.(int) > 1 })
		var wg sync.WaitGroup
		for g := 0; g < 2; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 3; k++ {
					n := 0
					for r := s.Range(); r.Next(); n++ {
					}
					if n != 3 {
						t.Error(n)
					}
				}
			}()
		}
		wg.Wait()
	}
}
''', 'two goroutines, one of which finishes iterating a lazy set while the other one queries it',
'The memoised set is read without synchronisation while another goroutine stores it.',
flags='-race', imports=('sync', 'testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c20-shared-memo-builder', 'C20', [('lazy/set_memo.go',
'''type memoSet struct {
	set *Set
}
''',
'''type memoSet struct {
	set  *Set
	seen frozen.SetBuilder[any] // by the current iterator
	busy int32
}
'''), ('lazy/set_memo.go',
'	return &cachingIterator{iter: s.getSet().Range(), s: s}\n',
'''	i := &cachingIterator{iter: s.getSet().Range(), s: s, seen: &frozen.SetBuilder[any]{}}
	if atomic.LoadInt32(&s.busy) == 0 {
		atomic.StoreInt32(&s.busy, 1)
		i.seen = &s.seen // saves an allocation
	}
	return i
'''), ('lazy/set_memo.go',
'	seen frozen.SetBuilder[any]\n	done bool\n',
'	seen *frozen.SetBuilder[any]\n	done bool\n')],
'''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		s := lazy.Frozen(frozen.NewSet[any](1, 2, 3, 4)).Where(func(v any) bool { return v.(int) > 1 })
		var wg sync.WaitGroup
		start := make(chan struct{})
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				n := 0
				for r := s.Range(); r.Next(); n++ {
				}
				if n != 3 {
					t.Error(n)
				}
			}()
		}
		close(start)
		wg.Wait()
	}
}
''', 'two goroutines that start to iterate the same lazy set between each other\'s test and set of a flag',
'Two iterators can get the same builder of seen elements because the flag that guards it is tested and set in two steps; each then skips what the other has seen.',
flags='-race', imports=('sync', 'testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c21-frozen-equal-prefix', 'C21', [('lazy/set_frozen.go',
'''	n := s.set.Count()
	i := set.Range()
	for ; n > 0 && i.Next(); n-- {
		if !s.set.Has(i.Value()) {
			return false
		}
	}
	return n == 0 && !i.Next()
''',
'''	n := s.set.Count()
	if set.CountUpTo(n) != n {
		return false
	}
	for i := set.Range(); n > 0 && i.Next(); n-- {
		if !s.set.Has(i.Value()) {
			return false
		}
	}
	return true
''')],
'''
func TestSeedDemo(t *testing.T) {
	a := lazy.Frozen(frozen.NewSet[any](0, 1, 2, 3, 4, 5, 6, 7))
	for n := 0; n < 9; n++ {
		b := lazy.Frozen(frozen.SetMap(frozen.Iota(n), func(i int) any { return i }))
		u := a.Union(lazy.Frozen(frozen.NewSet[any](20)))
		if n == 8 && b.EqualSet(u) {
			t.Errorf("%d elements equal %d", n, u.Count())
		}
	}
}
''', 'a frozen lazy set compared with an unevaluated one that yields its elements first and then others',
'EqualSet of a frozen lazy set says true if the first elements of the other set are its own, whatever follows.',
imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c22-semijoin-wrong-side', 'C22', [('pkg/rel/relation.go',
'''	projectCommon := func(t Tuple) frozen.Map[string, any] {
		return t.Project(commonAttrs...)
	}
''',
'''	projectCommon := func(t Tuple) frozen.Map[string, any] {
		return t.Project(commonAttrs...)
	}
	switch len(commonAttrs) {
	case tAttrs.Count():
		return s.Where(func(u Tuple) bool { return t.Has(projectCommon(u)) })
	case sAttrs.Count():
		return Project(t.Where(func(u Tuple) bool { return s.Has(projectCommon(u)) }), commonAttrs...)
	}
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := rel.New([]string{"x"}, []any{1}, []any{2})
	u := rel.New([]string{"x", "y"}, []any{1, 1}, []any{1, 2}, []any{3, 1})
	want := rel.New([]string{"x", "y"}, []any{1, 1}, []any{1, 2})
	if j := rel.Join(s, u); !j.Equal(want) {
		t.Errorf("%v", j)
	}
}
''', 'a join in which the attributes of the left relation are a proper subset of those of the right one',
'A shortcut for joins with subsumed attributes drops the other attributes if it is the left relation that has fewer.',
imports=('testing', 'github.com/arr-ai/frozen/pkg/rel'))

seed('c23-unnest-product', 'C23', [('pkg/rel/relation.go',
'		joined := Join(all.Elements()...)\n',
'		joined := CartesianProduct(all.Elements()...)\n')],
'''
func TestSeedDemo(t *testing.T) {
	inner := rel.New([]string{"x", "y"}, []any{1, 1}, []any{2, 2})
	r := rel.New([]string{"x", "n"}, []any{1, inner}, []any{2, inner})
	want := rel.New([]string{"x", "y"}, []any{1, 1}, []any{2, 2})
	if u := rel.Unnest(r, "n"); !u.Equal(want) {
		t.Errorf("%v", u)
	}
}
''', 'a nested relation that has an attribute of the outer tuples',
'Unnest combines the outer tuple with every nested tuple, also with those that disagree with it on a common attribute.',
imports=('testing', 'github.com/arr-ai/frozen/pkg/rel'))

seed('c26-reduce-by-processors', 'C26', [(T + 'branch.go',
'''	args.Parallel(depth, b.p.mask, func(i int) (_ bool, matches int) {
		x := b.p.data[i]
		results[i] = x.Reduce(args, depth+1, r)
		return true, 0
	})
''',
'''	// No more goroutines than processors.
	workers := runtime.GOMAXPROCS(0)
	if workers > fanout {
		workers = fanout
	}
	each := fanout / workers
	args.Parallel(depth, 1<<workers-1, func(w int) (_ bool, matches int) {
		for i := w * each; i < (w+1)*each; i++ {
			if x := b.p.data[i]; x != nil {
				results[i] = x.Reduce(args, depth+1, r)
			}
		}
		return true, 0
	})
'''), (T + 'branch.go',
'''import (
	"fmt"

''',
'''import (
	"fmt"
	"runtime"

''')],
'''
func TestSeedDemo(t *testing.T) {
	sum, _ := frozen.Iota(1000).Reduce2(func(a, b int) int { return a + b })
	if sum != 499500 {
		t.Error(sum)
	}
}
''', 'a number of processors that does not divide the fan-out of the trie, such as 3',
'Reduce divides the children of a branch among the processors and leaves out the remainder.',
env='GOMAXPROCS=3')

seed('c27-partial-memo', 'C27', [('lazy/set_memo.go',
'''	for i.iter.Next() {
		if val := i.iter.Value(); !i.seen.Has(val) {
			i.seen.Add(val)
			return true
		}
	}
	i.done = true
	seen := Frozen(i.seen.Finish())
	atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
	return false
}
''',
'''	defer func() {
		if !more {
			i.done = true
			seen := Frozen(i.seen.Finish())
			atomic.StorePointer(i.s.pointer(), unsafe.Pointer(&seen))
		}
	}()
	for i.iter.Next() {
		if val := i.iter.Value(); !i.seen.Has(val) {
			i.seen.Add(val)
			return true
		}
	}
	return false
}
'''), ('lazy/set_memo.go',
'func (i *cachingIterator) Next() bool {\n',
'func (i *cachingIterator) Next() (more bool) {\n')],
'''
func TestSeedDemo(t *testing.T) {
	n := 0
	s := lazy.Frozen(frozen.NewSet[any](1, 2, 3)).Where(func(any) bool {
		if n++; n == 2 {
			panic("second call")
		}
		return true
	})
	count := func() (n int) {
		defer func() { recover() }()
		for r := s.Range(); r.Next(); n++ {
		}
		return
	}
	count()
	if n := count(); n != 3 {
		t.Errorf("%d elements after a panic", n)
	}
}
''', 'a predicate or mapper of a lazy set that panics during iteration, and another query afterwards',
'A panic in a callback makes the lazy set remember the elements seen so far as if they were all.',
imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c28-twig-equal-by-key', 'C28', [(T + 'twig.go',
'''	outer:
		for _, e := range l.data {
			for _, f := range n.data {
				if args.eq(e, f) {
					continue outer
				}
			}
			return false
		}
''',
'''		for _, e := range l.data {
			if n.Get(e, 0) == nil {
				return false
			}
		}
''')],
'''
func TestSeedDemo(t *testing.T) {
	var m frozen.Map[demoE, int]
	for i := 0; i < 3; i++ {
		m = m.With(demoE{i, 7}, i)
	}
	if m.Equal(m.With(demoE{1, 7}, 5)) {
		t.Error("maps with different values are Equal")
	}
}
''', 'maps with at least three fully colliding keys that differ only in the value of one of them',
'Map equality ignores the values of fully colliding keys.')

seed('c04-twig-equal-ordered', 'C04', [(T + 'twig.go',
'''	outer:
		for _, e := range l.data {
			for _, f := range n.data {
				if args.eq(e, f) {
					continue outer
				}
			}
			return false
		}
''',
'''		for i, e := range l.data {
			if !args.eq(e, n.data[i]) && !args.eq(e, n.data[len(n.data)-1-i]) {
				return false
			}
		}
''')],
'''
func TestSeedDemo(t *testing.T) {
	e := []demoE{{0, 7}, {1, 7}, {2, 7}, {3, 7}}
	for i := range e {
		s := frozen.NewSet(e...)
		u := s.Without(e[i]).With(e[i])
		if !s.Equal(u) || !u.Equal(s) {
			t.Errorf("not Equal after removing and adding %d", i)
		}
	}
}
''', 'sets with at least three fully colliding elements whose histories leave these in an order that is neither the same nor the reverse',
'Equality of fully colliding elements depends on the order in which they are stored.')

seed('c29-shortcut-comparison', 'C29', [('internal/pkg/value/value.go',
'''	var i any = a
	switch a := i.(type) {
	case Equaler[T]:
		return a.Equal(b)
''',
'''	var i, j any = a, b
	switch a := i.(type) {
	case Equaler[T]:
		return i == j || a.Equal(b)
''')],
'''
type demoList struct{ l []int }

func (d demoList) Hash(uintptr) uintptr { return uintptr(len(d.l)) }
func (d demoList) Equal(e demoList) bool { return len(d.l) == len(e.l) }

func TestSeedDemo(t *testing.T) {
	s := frozen.NewSet(demoList{[]int{1}}, demoList{[]int{1, 2}}, demoList{[]int{3}})
	if s.Count() != 2 || !s.Has(demoList{[]int{4}}) {
		t.Error(s)
	}
}
''', 'elements of a type that defines Equal but is not comparable with ==',
'A shortcut compares the elements with == before it calls their Equal, which panics for types that Go cannot compare.')

seed('c01-iterator-depth', 'C01', [(T + 'packer_iter.go',
'	buf = append(buf, p.data[:])\n',
'	buf = buf[:1]\n	buf[0] = p.data[:]\n')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.NewSet(demoE{0, 1}, demoE{1, 2}, demoE{2, 3})
	if n := len(s.Elements()); n != 3 {
		t.Error(n)
	}
}
''', 'few elements whose hashes agree in many leading bits, so that the trie is deeper than its count suggests',
'Iteration panics if the trie is deeper than the buffer that was sized for an average trie with that many elements.')

seed('c11-project-go-map', 'C11', [('map.go',
'''	var mb MapBuilder[K, V]
	for _, k := range keys {
		if v, has := m.Get(k); has {
			mb.Put(k, v)
		}
	}
	return mb.Finish()
''',
'''	if len(keys) > 2*m.Count() { // fewer entries than keys
		want := make(map[any]bool, len(keys))
		for _, k := range keys {
			want[k] = true
		}
		return m.Where(func(k K, _ V) bool { return want[k] })
	}
	var mb MapBuilder[K, V]
	for _, k := range keys {
		if v, has := m.Get(k); has {
			mb.Put(k, v)
		}
	}
	return mb.Finish()
''')],
'''
func TestSeedDemo(t *testing.T) {
	x, y := frozen.NewSet(1, 2), frozen.NewSet(2, 1)
	m := frozen.NewMap(frozen.KV(x, 1))
	p := m.Project(y, y, y)
	if v, has := p.Get(x); !has || v != 1 {
		t.Error(p)
	}
}
''', 'more than twice as many keys as entries, and keys that are equal without being identical for Go',
'Project of many keys compares them with Go equality instead of their own.')

seed('c13-groupby-run', 'C13', [('set.go',
'''	for i := s.Range(); i.Next(); {
		v := i.Value()
		k := key(v)
		var b *SetBuilder[T]
		if builder, has := builders.Get(k); has {
''',
'''	type run struct {
		k K
		b *SetBuilder[T]
	}
	var last [2]run // elements of a group often come together
	for i := s.Range(); i.Next(); {
		v := i.Value()
		k := key(v)
		var b *SetBuilder[T]
		if r := last[s.Count()&1]; r.b != nil && hash.Any(r.k, 0) == hash.Any(k, 0) {
			b = r.b
		} else if builder, has := builders.Get(k); has {
'''), ('set.go',
'''		b.Add(v)
	}
	var result MapBuilder[K, Set[T]]
''',
'''		b.Add(v)
		last[s.Count()&1] = run{k, b}
	}
	var result MapBuilder[K, Set[T]]
''')],
'''
func TestSeedDemo(t *testing.T) {
	g := frozen.SetGroupBy(frozen.Iota(6), func(i int) demoE { return demoE{i % 2, 7} })
	if g.Count() != 2 || g.MustGet(demoE{0, 7}).Count() != 3 {
		t.Error(g)
	}
}
''', 'group keys with equal hashes that are not equal, and elements of their groups enumerated one after the other',
'SetGroupBy takes two keys with equal hashes for the same group.')

seed('c10-merge-into-larger', 'C10', [('map.go',
'''	args := tree.NewCombineArgs(m.EqKeyArgs(), extractAndResolve)
	return newMap(m.tree.Combine(args, n.tree))
}

// Update''',
'''	if m.Count() < n.Count()/8 { // merge a small map into a large one
		m, n = n, m
	}
	args := tree.NewCombineArgs(m.EqKeyArgs(), extractAndResolve)
	return newMap(m.tree.Combine(args, n.tree))
}

// Update''')],
'''
func TestSeedDemo(t *testing.T) {
	m := frozen.NewMap(frozen.KV(1, 10))
	n := frozen.NewMapFromKeys(frozen.Iota(20), func(k int) int { return k })
	if v := m.Merge(n, func(_, a, b int) int { return a - b }).MustGet(1); v != 9 {
		t.Error(v)
	}
}
''', 'a map merged with one that has more than eight times as many entries, and a resolver that is not commutative',
'Merge exchanges a small map with a much larger one without exchanging the arguments of the resolver.')

seed('c04-difference-canonical', 'C04', [(T + 'branch.go',
'''				n, matches = x.Difference(gauge, y, depth+1)
				ret.p.data[i] = n
			}
			return true, matches
		})
		ret.p.updateMask()
		return ret.Canonical(depth), matches
''',
'''				n, matches = x.Difference(gauge, y, depth+1)
				ret.p.data[i] = n
			}
			return true, matches
		})
		ret.p.updateMask()
		if depth*fanoutBits >= 48 && matches > 1 { // nearly all hashes differ earlier
			return ret, matches
		}
		return ret.Canonical(depth), matches
''')],
'''
func TestSeedDemo(t *testing.T) {
	e := []demoE{{0, 1}, {1, 2}, {2, 4}, {3, 6}, {4, 8}, {5, 10}, {6, 0x100}, {7, 0x200}, {8, 0x300}}
	d := frozen.NewSet(e...).Difference(frozen.NewSet(e[1], e[2], e[3], e[4]))
	if !d.Equal(frozen.NewSet(e[0], e[5], e[6], e[7], e[8])) {
		t.Error("not Equal to the same set built otherwise")
	}
}
''', 'elements whose hashes agree in their first 48 bits, of which a difference removes several but not all',
'A difference deep in the trie leaves branches with fewer elements than canonical ones have.')

seed('c30-any-n', 'C30', [('set.go',
'''	b := NewSetBuilder[T](n)
	for i := s.Range(); i.Next() && n > 0; n-- {
		b.Add(i.Value())
	}
	return b.Finish()
''',
'''	if n > 1<<16 { // cheaper to remove the others
		k := s.Count() - n
		for i := s.Range(); i.Next() && k >= 0; k-- {
			s = s.Without(i.Value())
		}
		return s
	}
	b := NewSetBuilder[T](n)
	for i := s.Range(); i.Next() && n > 0; n-- {
		b.Add(i.Value())
	}
	return b.Finish()
''')],
'''
func TestSeedDemo(t *testing.T) {
	if n := frozen.Iota(70000).AnyN(69000).Count(); n != 69000 {
		t.Error(n)
	}
}
''', 'AnyN with n above 65536',
'AnyN of many elements removes one element too many.')



seed('c09-colliding-with-keeps-old', 'C09', [(T + 'twig.go',
'''	for i, e := range l.data {
		if value.Equal(e, v) {
			matches++
			ret := l.cloneWithExtra(0)
			ret.data[i] = v
			return ret, matches
''',
'''	for _, e := range l.data {
		if value.Equal(e, v) {
			matches++
			return l, matches
''')],
'''
func TestSeedDemo(t *testing.T) {
	m := frozen.NewMap[demoE, int]()
	for i := 0; i < 3; i++ {
		m = m.With(demoE{i, 1}, i)
	}
	m = m.With(demoE{1, 1}, 42)
	if v := m.MustGet(demoE{1, 1}); v != 42 {
		t.Error(v)
	}
}
''', 'three keys with the same hash',
'With for a key that is already there keeps the old value if at least three keys collide.')

seed('c16-newintset-sort', 'C16', [('intset.go',
'''	m := map[I]cellMask{}
	for _, i := range is {
		cellIndex, bitMask := locateCell(i)
		m[cellIndex] = m[cellIndex] | bitMask
	}
	b := NewMapBuilder[I, cellMask](len(m))
	count := 0
	for cellIndex, cell := range m {
		b.Put(cellIndex, cell)
		count += cell.count()
	}
''',
'''	sorted := append([]I(nil), is...)
	sort.Slice(sorted, func(i, j int) bool { return int64(sorted[i]-sorted[j]) < 0 })
	b := NewMapBuilder[I, cellMask](len(is))
	count := 0
	for len(sorted) > 0 { // one cell after the other
		cellIndex, cell := locateCell(sorted[0])
		n := 1
		for ; n < len(sorted); n++ {
			c, bitMask := locateCell(sorted[n])
			if c != cellIndex {
				break
			}
			cell |= bitMask
		}
		b.Put(cellIndex, cell)
		count += cell.count()
		sorted = sorted[n:]
	}
'''), ('intset.go', '	"math/bits"\n', '	"math/bits"\n	"sort"\n')],
'''
func TestSeedDemo(t *testing.T) {
	for _, is := range [][]int64{{math.MinInt64, 5, math.MaxInt64, -5, math.MinInt64 + 1, 6, math.MaxInt64 - 1, -6}} {
		s := frozen.NewIntSet(is...)
		for _, i := range is {
			if !s.Has(i) {
				t.Errorf("%d is missing", i)
			}
		}
		if s.Count() != len(is) || len(s.Elements()) != len(is) {
			t.Error(s.Count(), s.Elements())
		}
	}
}
''', 'values so far apart that their difference overflows, several of one cell',
'NewIntSet sorts its arguments with a comparison that overflows; cells that come up twice lose elements.', imports=('math', 'testing', 'github.com/arr-ai/frozen'))

seed('c17-where-top-cell', 'C17', [('intset.go',
'''		var newCell cellMask
		for cell != 0 {
			maskIndex := I(cell.index())
			if pred(cellOffset + maskIndex) {
				newCell |= cellMask(1) << maskIndex
			}
			cell &= (cell - 1)
		}
''',
'''		var newCell cellMask
		for i := cellOffset; i < cellOffset+cellBits; i++ {
			if bit := cellMask(1) << uint(i-cellOffset); cell&bit != 0 && pred(i) {
				newCell |= bit
			}
		}
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.NewIntSet[int16](math.MaxInt16, 0)
	if w := s.Where(func(int16) bool { return true }); w.Count() != 2 || !w.Has(math.MaxInt16) {
		t.Error(w)
	}
}
''', 'values in the topmost cell of the integer type',
'Where loses the elements of the last cell of the type because its loop bound overflows.', imports=('math', 'testing', 'github.com/arr-ai/frozen'))


seed('c18-without-only-one-side', 'C18', [('lazy/set_memo.go',
'''type memoSet struct {
	set *Set
}

func memo(src Set) Set {
	switch src.(type) {
''',
'''type memoSet struct {
	set *Set
}

func memo(src Set) Set {
	switch d := src.(type) {
	case *differenceSet: // (u minus v) minus b, where only one side of u has v
		f, is := d.b.(*frozenSet)
		if m, ok := d.a.(*memoSet); is && ok && f.set.Count() == 1 {
			if u, ok := m.getSet().(*unionSet); ok {
				if has, ok := u.a.FastHas(f.set.Any()); ok && has {
					return union(u.a.Without(f.set.Any()), u.b)
				}
			}
		}
'''), ('lazy/set_memo.go',
'''	default:
		result := &memoSet{}
		result.set = &src
		return result
	}
}
''',
'''	}
	result := &memoSet{}
	result.set = &src
	return result
}
''')],
'''
func TestSeedDemo(t *testing.T) {
	a := lazy.Frozen(frozen.NewSet[any](1, 2, 3))
	b := lazy.Frozen(frozen.NewSet[any](3, 4))
	if s := a.Union(b).Without(3); s.Has(3) || s.Count() != 3 {
		t.Error(s.Freeze())
	}
}
''', 'Without of an element that both sides of a union have',
'Without on a union removes the element from the first side only.', imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c24-mixed-keys', 'C24', [('map_extra.go',
'''	}
	return m.marshalJSONArray()
''',
'''	case Map[any, V]: // keys are often strings here, too
		proxy := map[string]any{}
		for i := m.Range(); i.Next(); {
			k := reflect.ValueOf(i.Key())
			if k.Kind() != reflect.String {
				return m.marshalJSONArray()
			}
			proxy[k.String()] = i.Value()
		}
		if len(proxy) > 0 {
			return json.Marshal(proxy)
		}
	}
	return m.marshalJSONArray()
'''), ('map_extra.go', 'import "encoding/json"\n', 'import (\n	"encoding/json"\n	"reflect"\n)\n')],
'''
type name string

func TestSeedDemo(t *testing.T) {
	m := frozen.NewMap(frozen.KV[any, any]("a", 1), frozen.KV[any, any](name("a"), 2))
	data, err := json.Marshal(m)
	if err != nil || strings.Count(string(data), "a") != 2 {
		t.Error(string(data), err)
	}
}
''', 'keys of different string types with the same text in a map with keys of type any',
'MarshalJSON loses an entry when two keys have the same text.', imports=('encoding/json', 'strings', 'testing', 'github.com/arr-ai/frozen'))

seed('c25-count-halves', 'C25', [('bititer.go',
'	return bits.OnesCount64(uint64(b))\n',
'	return bits.OnesCount32(uint32(b)) + bits.OnesCount32(uint32(b>>31))\n')],
'''
func TestSeedDemo(t *testing.T) {
	for i := 0; i < 64; i++ {
		if n := frozen.BitIterator(0).With(i).Count(); n != 1 {
			t.Errorf("Count of {%d} = %d", i, n)
		}
	}
}
''', 'position 31 or 63', 'Count counts position 31 twice and position 63 not at all.')

seed('c13-iota-steps', 'C13', [('set_extra.go',
'''		for i := start; i < stop; i += step {
			b.Add(i)
''',
'''		for i, n := start, (stop-start+step-1)/step; n > 0; i, n = i+step, n-1 {
			b.Add(i)
''')],
'''
func TestSeedDemo(t *testing.T) {
	if s := frozen.Iota3(0, math.MaxInt, math.MaxInt/2); s.Count() != 3 {
		t.Error(s)
	}
}
''', 'a range and step whose sum exceeds the largest int',
'Iota3 computes the number of elements with an overflow and returns the empty set.', imports=('math', 'testing', 'github.com/arr-ai/frozen'))

seed('c22-join-by-hash', 'C22', [('pkg/rel/relation.go',
'''	projectCommon := func(t Tuple) frozen.Map[string, any] {
		return t.Project(commonAttrs...)
	}
''',
'''	projectCommon := func(t Tuple) uintptr { // cheaper keys
		return t.Project(commonAttrs...).Hash(0)
	}
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := rel.New([]string{"a", "b"}, []any{demoE{1, 7}, 1}, []any{demoE{2, 7}, 2})
	u := rel.New([]string{"a", "c"}, []any{demoE{1, 7}, 3})
	if j := rel.Join(s, u); j.Count() != 1 {
		t.Error(j)
	}
}
''', 'attribute values that differ but have the same hash',
'Join pairs tuples whose common attributes only have the same hash.', imports=('testing', 'github.com/arr-ai/frozen/pkg/rel'))

seed('c28-hash-prefilter', 'C28', [('map.go',
'''func (m Map[K, V]) Equal(n Map[K, V]) bool {
''',
'''func (m Map[K, V]) Equal(n Map[K, V]) bool {
	if c := m.Count(); c >= 4 && c == n.Count() && m.Hash(0) != n.Hash(0) {
		return false
	}
''')],
'''
type loose struct{ v, note int }

func (l loose) Equal(m loose) bool { return l.v == m.v }

func TestSeedDemo(t *testing.T) {
	mk := func(note int) frozen.Map[int, loose] {
		var b frozen.MapBuilder[int, loose]
		for i := 0; i < 6; i++ {
			b.Put(i, loose{i, note})
		}
		return b.Finish()
	}
	if !mk(1).Equal(mk(2)) {
		t.Error("maps with equal values are not equal")
	}
}
''', 'values with an Equal method but no Hash method, in maps with at least four entries',
'Equal compares hashes of the values first, which need not agree for equal values.')

seed('c06-pooled-stack', 'C06', [(T + 'tree.go',
'''	buf := packedIteratorBuf[T](t.count)
	return t.root.Iterator(buf)
}
''',
'''	buf, ok := bufs.Get().([][]node[T])
	if n := packedIteratorBuf[T](t.count); !ok || cap(buf) < cap(n) {
		buf = n
	}
	return &pooledIterator[T]{Iterator: t.root.Iterator(buf[:0]), buf: buf}
}

// bufs holds stacks of finished iterators.
var bufs sync.Pool

type pooledIterator[T any] struct {
	Iterator[T]
	buf [][]node[T]
}

func (i *pooledIterator[T]) Next() bool {
	if i.Iterator.Next() {
		return true
	}
	bufs.Put(i.buf)
	return false
}
'''), (T + 'tree.go', '	"math/bits"\n', '	"math/bits"\n	"sync"\n')],
'''
func TestSeedDemo(t *testing.T) {
	for k := 0; k < 100; k++ {
		r := frozen.Iota(100).Range()
		for r.Next() {
		}
		r.Next()
		a, b := frozen.Iota2(100, 200).Range(), frozen.Iota2(300, 400).Range()
		n := 0
		for a.Next() {
			n++
			b.Next()
			if a.Value() >= 200 {
				t.Fatal("an iterator yields an element of another set")
			}
		}
		if n != 100 {
			t.Fatal(n)
		}
	}
}
''', 'calling Next after the end of one iterator, then two iterators at the same time',
'Iterators recycle their stack; one that is asked again after its end gives it back twice, so that two later iterators share it.')

seed('c02-nary-pairwise', 'C02', [('set_ops.go',
'''	var result Set[T]
	for _, s := range sets {
''',
'''	var result Set[T]
	if len(sets) > 8 { // unite neighbours first
		half := make([]Set[T], 0, len(sets)/2)
		for i := 0; i+1 < len(sets); i += 2 {
			half = append(half, sets[i].Union(sets[i+1]))
		}
		return Union(half...)
	}
	for _, s := range sets {
''')],
'''
func TestSeedDemo(t *testing.T) {
	for n := 0; n < 30; n++ {
		var sets []frozen.Set[int]
		for i := 0; i < n; i++ {
			sets = append(sets, frozen.NewSet(i))
		}
		if frozen.Union(sets...).Count() != n {
			t.Error(n)
		}
	}
}
''', 'the union of nine or more sets, an odd number of them', 'The n-ary Union drops the last set.')

seed('c03-union-overwrites-arguments', 'C03', [('set_ops.go',
'''	var result Set[T]
	for _, s := range sets {
		result = result.Union(s)
	}
	return result
''',
'''	for n := len(sets); n > 1; n = len(sets) { // unite in pairs
		for i := 0; i < n/2; i++ {
			sets[i] = sets[i].Union(sets[n-1-i])
		}
		sets = sets[:(n+1)/2]
	}
	if len(sets) == 1 {
		return sets[0]
	}
	return Set[T]{}
''')],
'''
func TestSeedDemo(t *testing.T) {
	sets := []frozen.Set[int]{frozen.NewSet(1), frozen.NewSet(2), frozen.NewSet(3)}
	frozen.Union(sets...)
	if sets[0].Count() != 1 {
		t.Error(sets)
	}
}
''', 'calling Union with a slice that is used again afterwards', 'The n-ary Union overwrites the slice of the caller.')

seed('c08-shared-empty-slot', 'C08', [(T + 'twig.go',
'''			if i < last {
				l.data[i] = l.data[last]
			}
			l.data = l.data[:last]
			return l.Canonical(depth), matches
''',
'''			copy(l.data[i:], l.data[i+1:]) // keep the order
			l.data = l.data[:last:last]
			if last <= 2 {
				return newLeaf(l.data...), matches
			}
			return newTwig(l.data[:i+1]...), matches
''')],
'''
func TestSeedDemo(t *testing.T) {
	var b frozen.SetBuilder[demoE]
	for i := 0; i < 5; i++ {
		b.Add(demoE{i, 1})
	}
	b.Remove(demoE{1, 1})
	if s := b.Finish(); s.Count() != 4 || len(s.Elements()) != 4 {
		t.Error(s)
	}
}
''', 'removing one of at least four fully colliding elements from a builder', 'Remove of a SetBuilder loses the elements behind the removed one.')

seed('c09-same-value-kept', 'C09', [('map.go',
'''	kval := newMapEntry(key, val)
	return newMap(m.tree.With(kval))
''',
'''	kval := newMapEntry(key, val)
	if e := m.tree.Get(kval); e != nil && e.KeyValue.Equal(kval.KeyValue) {
		return m // nothing changes
	}
	return newMap(m.tree.With(kval))
''')],
'''
func TestSeedDemo(t *testing.T) {
	var m frozen.Map[int, []int]
	m = m.With(1, []int{1}).With(2, []int{2}).With(1, []int{3})
	if got := m.MustGet(1); len(got) != 1 || got[0] != 3 {
		t.Error(m)
	}
	var n frozen.Map[int, float64]
	n = n.With(1, 0).With(1, math.Copysign(0, -1))
	if !math.Signbit(n.MustGet(1)) {
		t.Error(n)
	}
}
''', 'values that cannot be compared, or that are equal but not identical, put twice under one key',
'With compares the values: it panics for values that Go cannot compare and otherwise keeps the older of two equal values.',
imports=('math', 'testing', 'github.com/arr-ai/frozen'))

seed('c10-shared-leaf', 'C10', [(T + 'branch.go',
'''				var n node[T]
				n, matches = x.Combine(args, y, depth+1)
				ret.p.data[i] = n
			}
			return true, matches
		})
		ret.p.updateMask()
		return ret, matches
''',
'''				if _, is := x.(*leaf1[T]); is && x == y { // shared by both
					ret.p.data[i] = x
					return true, 1
				}
				var n node[T]
				n, matches = x.Combine(args, y, depth+1)
				ret.p.data[i] = n
			}
			return true, matches
		})
		ret.p.updateMask()
		return ret, matches
''')],
'''
func TestSeedDemo(t *testing.T) {
	var m frozen.Map[int, int]
	for i := 0; i < 50; i++ {
		m = m.With(i, 1)
	}
	n := m.With(50, 1)
	u := m.Merge(n, func(_ int, a, b int) int { return a + b })
	for i := 0; i < 50; i++ {
		if u.MustGet(i) != 2 {
			t.Fatal(u)
		}
	}
}
''', 'merging two maps one of which was derived from the other',
'The resolver is not asked about entries that both maps share in memory.')

seed('c11-project-everything', 'C11', [('map.go',
'''	var mb MapBuilder[K, V]
	for _, k := range keys {
''',
'''	if n := m.Count(); len(keys) >= n && n > 0 { // all of them?
		for _, k := range keys {
			if m.Has(k) {
				n--
			}
		}
		if n <= 0 {
			return m
		}
	}
	var mb MapBuilder[K, V]
	for _, k := range keys {
''')],
'''
func TestSeedDemo(t *testing.T) {
	m := frozen.NewMap(frozen.KV("a", 1), frozen.KV("b", 2), frozen.KV("c", 3))
	if p := m.Project("a", "b", "b"); p.Count() != 2 {
		t.Error(p)
	}
}
''', 'projecting on a list in which a key occurs twice', 'Project counts a key twice and concludes that all entries are kept.')

seed('c07-ties-once', 'C07', [('set.go',
'''	result := make([]T, 0, n)
	currentLength := 0
	for i := s.tree.OrderedIterator(less, n); i.Next() && currentLength < n; currentLength++ {
''',
'''	result := make([]T, 0, n)
	if n > 0 && n <= 4 && n < s.Count() { // insertion beats the heap
		for i := s.Range(); i.Next(); {
			v := i.Value()
			p := 0
			for p < len(result) && less(result[p], v) {
				p++
			}
			if p < len(result) && !less(v, result[p]) {
				continue // there already
			}
			if len(result) < n {
				result = append(result, v)
			} else if p == n {
				continue
			}
			copy(result[p+1:], result[p:])
			result[p] = v
		}
		return result
	}
	currentLength := 0
	for i := s.tree.OrderedIterator(less, n); i.Next() && currentLength < n; currentLength++ {
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(10)
	if got := s.OrderedFirstN(4, func(a, b int) bool { return a/5 < b/5 }); len(got) != 4 {
		t.Error(got)
	}
}
''', 'an order in which different elements tie, and a small n', 'Elements that tie are taken for duplicates and lost.')

seed('c21-hash-repeats', 'C21', [('lazy/set_memo.go',
'''func (s *memoSet) Hash(seed uintptr) uintptr       { return s.getSet().Hash(seed) }
''',
''''''), ('lazy/set_memo.go',
'''// Sets derived from s must use s,''',
'''func (s *memoSet) Hash(seed uintptr) uintptr {
	set := s.getSet()
	if u, ok := set.(*unionSet); ok {
		if aEmpty, ok := u.a.FastIsEmpty(); ok && !aEmpty { // no need to remember the elements
			h := hash.Uintptr(hashSeed, seed)
			for i := u.Range(); i.Next(); {
				h ^= hash.Any(i.Value(), seed)
			}
			return h
		}
	}
	return set.Hash(seed)
}

// Sets derived from s must use s,'''), ('lazy/set_memo.go',
'''import (
	"sync/atomic"
	"unsafe"

''',
'''import (
	"sync/atomic"
	"unsafe"

	"github.com/arr-ai/hash"

''')],
'''
func TestSeedDemo(t *testing.T) {
	a := lazy.Frozen(frozen.NewSet[any](1, 2))
	b := lazy.Frozen(frozen.NewSet[any](2, 3))
	if a.Union(b).Hash(0) != lazy.Frozen(frozen.NewSet[any](1, 2, 3)).Hash(0) {
		t.Error("equal sets hash differently")
	}
}
''', 'the hash of a union of overlapping sets before it is evaluated', 'Elements in both operands are hashed twice.',
imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c25-has-any-bit', 'C25', [('bititer.go',
'''func (b BitIterator) Index() int {
	return bits.TrailingZeros64(uint64(b))
}
''',
'''func (b BitIterator) Index() int {
	// multiply the lowest bit and look it up
	const deBruijn = 0x03f79d71b4ca8b09
	low := uint64(b) & -uint64(b)
	return int(deBruijnIndex[low*deBruijn>>58])
}

var deBruijnIndex = func() (t [64]uint8) {
	for i := 0; i < 63; i++ {
		t[(uint64(1)<<uint(i))*0x03f79d71b4ca8b09>>58] = uint8(i)
	}
	return
}()
''')],
'''
func TestSeedDemo(t *testing.T) {
	if got := frozen.BitIterator(1 << 63).Index(); got != 63 {
		t.Error(got)
	}
}
''', 'a set that has only the highest position', 'Index answers 0 for the set of position 63.')

seed('c26-work-per-processor', 'C26', [('internal/pkg/depth/gauge.go',
'''		for m := mask; m != 0; m = m.Next() {
			i := m.FirstIndex()
			ok, m := f(i)
			if !ok {
				return false, matches
			}
			matches += m
		}
	}
''',
'''		m := mask
		for n := bits.OnesCount16(uint16(mask)); n > 0; n -= step { // a few at a time
			for k := 0; k < step && k < n-n%step; k++ {
				i := m.FirstIndex()
				m = m.Next()
				ok, d := f(i)
				if !ok {
					return false, matches
				}
				matches += d
			}
		}
	}
'''), ('internal/pkg/depth/gauge.go',
'''	// NonParallel is a Gauge that never triggers parallel behaviour.
''',
'''	step = 1 + maxDepth/4

	// NonParallel is a Gauge that never triggers parallel behaviour.
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(100)
	if got := s.Intersection(frozen.Iota2(50, 200)); got.Count() != 50 {
		t.Error(got.Count())
	}
}
''', 'a machine with more than 512 processors', 'Children are left out when there are very many processors.', env='GOMAXPROCS=2000')

seed('c27-pooled-scratch', 'C27', [(T + 'branch.go',
'''	var nodes packer[T]
	_, matches = args.Parallel(depth, b.p.mask, func(i int) (_ bool, matches int) {
''',
'''	nodes, is := whereScratch.Get().(*packer[T])
	if !is {
		nodes = &packer[T]{}
	}
	defer whereScratch.Put(nodes)
	_, matches = args.Parallel(depth, b.p.mask, func(i int) (_ bool, matches int) {
'''), (T + 'branch.go',
'''	nodes.updateMask()
	if nodes != b.p {
		return newBranch(&nodes).Canonical(depth), matches
	}
	return b, matches
''',
'''	nodes.updateMask()
	var ret node[T] = b
	if *nodes != b.p {
		ret = newBranch(nodes).Canonical(depth)
	}
	*nodes = packer[T]{}
	return ret, matches
'''), (T + 'branch.go',
'''// UseRHS returns its RHS arg.
''',
'''var whereScratch sync.Pool

// UseRHS returns its RHS arg.
'''), (T + 'branch.go',
'''import (
	"fmt"
''',
'''import (
	"fmt"
	"sync"
''')],
'''
func TestSeedDemo(t *testing.T) {
	for k := 0; k < 100; k++ {
		func() {
			defer func() { recover() }()
			n := 0
			frozen.Iota(100).Where(func(int) bool {
				if n++; n == 90 {
					panic("stop")
				}
				return true
			})
		}()
		s := frozen.Iota2(200, 204)
		if got := s.Where(func(i int) bool { return i > 200 }); got.Count() != 3 || len(got.Elements()) != 3 || got.Has(0) {
			t.Fatal(got)
		}
	}
}
''', 'a predicate that panics, then another Where', 'Where after a Where whose predicate panicked adds elements of the other set.')

seed('c30-chunked-newset', 'C30', [('set.go',
'''	b := NewSetBuilder[T](len(values))
	for _, value := range values {
		b.Add(value)
	}
	return b.Finish()
''',
'''	const chunk = 1000
	if len(values) <= chunk {
		b := NewSetBuilder[T](len(values))
		for _, value := range values {
			b.Add(value)
		}
		return b.Finish()
	}
	// keep the builders small
	var result Set[T]
	for len(values) > 1 {
		n := chunk
		if n > len(values) {
			n = len(values)
		}
		result = result.Union(NewSet(values[:n]...))
		values = values[n:]
	}
	return result
''')],
'''
func TestSeedDemo(t *testing.T) {
	for n := 0; n < 3100; n++ {
		a := make([]int, n)
		for i := range a {
			a[i] = i
		}
		if got := frozen.NewSet(a...).Count(); got != n {
			t.Fatal(n, got)
		}
	}
}
''', 'a list of one more than a multiple of 1000 elements', 'The last element of the list is lost.')

seed('c23-unnest-overlap', 'C23', [('pkg/rel/relation.go',
'''	var b RelationBuilder
	for i := s.Range(); i.Next(); {
		t := i.Value()
		key := t.Without(attr)
		nestedValues := frozen.MapMap(t.Project(attr), func(_ string, val any) Relation {
			return val.(Relation)
		}).Values()
		all := nestedValues.With(frozen.NewSet(key))
		joined := Join(all.Elements()...)
		for j := joined.Range(); j.Next(); {
			b.Add(j.Value())
		}
	}
''',
'''	var b RelationBuilder
	overlap, known := false, false // all tuples have the same attributes
	for i := s.Range(); i.Next(); {
		t := i.Value()
		key := t.Without(attr)
		nested, is := t.GetElse(attr, Relation{}).(Relation)
		if !is {
			panic("not a relation")
		}
		if !known {
			known = true
			if !nested.IsEmpty() {
				overlap = !nested.Any().Keys().Intersection(key.Keys()).IsEmpty()
			}
		}
		for j := nested.Range(); j.Next(); {
			u := j.Value()
			if !overlap || key.Project(u.Keys().Elements()...).Equal(u.Project(key.Keys().Elements()...)) {
				b.Add(key.Update(u))
			}
		}
	}
''')],
'''
func TestSeedDemo(t *testing.T) {
	sub := rel.New([]string{"a", "c"}, []any{1, 1}, []any{2, 2})
	for e := 0; e < 20; e++ {
		r := rel.New([]string{"a", "n", "k"}, []any{1, rel.Relation{}, e}, []any{2, sub, 0})
		want := rel.New([]string{"a", "c", "k"}, []any{2, 2, 0})
		if got := rel.Unnest(r, "n"); !got.Equal(want) {
			t.Fatal(got)
		}
	}
}
''', 'sub-relations that share an attribute with the tuple, the first of which is empty',
'Whether attributes overlap is decided by the first sub-relation; if it is empty, tuples that disagree are joined.',
imports=('testing', 'github.com/arr-ai/frozen/pkg/rel'))

seed('c02-flat-twig', 'C02', [(T + 'branch.go',
'''	if depth >= maxTreeDepth {
		return newTwig(data...)
	}
	b := &branch[T]{}
''',
'''	if depth >= maxTreeDepth {
		return newTwig(data...)
	}
	if len(data) == maxLeafLen+1 { // no chain of branches for elements that collide anyway
		h := newHasher(data[0], 0)
		same := true
		for _, e := range data[1:] {
			same = same && newHasher(e, 0) == h
		}
		if same {
			return newTwig(data...)
		}
	}
	b := &branch[T]{}
''')],
'''
func TestSeedDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Error(r)
		}
	}()
	a := frozen.NewSet(demoE{1, 7}, demoE{2, 7}, demoE{3, 7})
	b := frozen.NewSet(demoE{4, 7}, demoE{5, 1 << 60}, demoE{6, 5 << 60}, demoE{7, 1 << 59}, demoE{8, 7})
	if got := a.Union(b); got.Count() != 8 {
		t.Error(got)
	}
	if got := b.Union(a); got.Count() != 8 {
		t.Error(got)
	}
}
''', 'exactly three fully colliding elements united with a set that has more digits', 'Union panics: it does not expect a twig above the bottom of the trie.')

seed('c12-last-entry', 'C12', [('map_builder.go',
'''	tb tree.Builder[mapEntry[K, V]]
}
''',
'''	tb   tree.Builder[mapEntry[K, V]]
	last *mapEntry[K, V] // found last
}
'''), ('map_builder.go',
'''	b.tb.Remove(newMapKey[K, V](key))
''',
'''	if b.last != nil && value.Equal(b.last.Key, key) {
		b.last = nil
	}
	b.tb.Remove(newMapKey[K, V](key))
'''), ('map_builder.go',
'''	if entry := b.tb.Get(newMapKey[K, V](key)); entry != nil {
		return entry.Value, true
''',
'''	if b.last != nil && value.Equal(b.last.Key, key) {
		return b.last.Value, true
	}
	if entry := b.tb.Get(newMapKey[K, V](key)); entry != nil {
		b.last = entry
		return entry.Value, true
'''), ('map_builder.go',
'''	return newMap(b.tb.Finish())
''',
'''	b.last = nil
	return newMap(b.tb.Finish())
'''), ('map_builder.go',
'''	"github.com/arr-ai/frozen/internal/pkg/tree"
''',
'''	"github.com/arr-ai/frozen/internal/pkg/tree"
	"github.com/arr-ai/frozen/internal/pkg/value"
'''), ('map_builder.go',
'''func (b *MapBuilder[K, V]) Put(key K, value V) {
	b.tb.Add(newMapEntry(key, value))
''',
'''func (b *MapBuilder[K, V]) Put(key K, val V) {
	b.tb.Add(newMapEntry(key, val))
''')],
'''
func TestSeedDemo(t *testing.T) {
	var b frozen.MapBuilder[demoE, int]
	x, y := demoE{1, 1 << 61}, demoE{2, 1 << 61}
	b.Put(x, 1)
	b.Put(y, 2)
	b.Get(y)
	b.Remove(x)
	b.Put(y, 3)
	if v, _ := b.Get(y); v != 3 {
		t.Error(v)
	}
}
''', 'Get of a key, Remove of its neighbour, Put of the key again, Get', 'A builder answers with the value a key had before its entry was moved.')

seed('c15-last-gauge', 'C15', [('internal/pkg/depth/gauge.go',
'''	g := (bits.Len64(uint64(count)) - maxConcurrency) / FanoutBits
	if g > maxDepth {
		g = maxDepth
	}
	return Gauge(g)
''',
'''	if count == last.count && last.set {
		return last.gauge
	}
	g := (bits.Len64(uint64(count)) - maxConcurrency) / FanoutBits
	if g > maxDepth {
		g = maxDepth
	}
	if count > 1000 {
		last.count, last.gauge, last.set = count, Gauge(g), true
	}
	return Gauge(g)
'''), ('internal/pkg/depth/gauge.go',
'''type Gauge int
''',
'''// last remembers the latest answer for a large set.
var last struct {
	count int
	gauge Gauge
	set   bool
}

type Gauge int
''')],
'''
func TestSeedDemo(t *testing.T) {
	var wg sync.WaitGroup
	s := frozen.Iota(2000)
	for i := 0; i < 8; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 50; j++ {
				s.Where(func(k int) bool { return k > i*j })
			}
		}()
	}
	wg.Wait()
}
''', 'two goroutines using large sets at the same time', 'Operations on sets of more than 1000 elements share an unsynchronised variable.', flags='-race',
imports=('sync', 'testing', 'github.com/arr-ai/frozen'))

seed('c16-full-top-cell', 'C16', [('intset.go',
'''	result := make([]I, 0, s.Count())
	for i := s.Range(); i.Next(); {
		result = append(result, i.Value())
	}
	return result
''',
'''	result := make([]I, 0, s.Count())
	for r := s.data.Range(); r.Next(); {
		first, cell := r.Key()<<cellShift, r.Value()
		if ^cell == 0 { // full
			for i := first; i < first+cellBits; i++ {
				result = append(result, i)
			}
			continue
		}
		for ; cell != 0; cell = cell.next() {
			result = append(result, first+I(cell.index()))
		}
	}
	return result
''')],
'''
func TestSeedDemo(t *testing.T) {
	var s frozen.IntSet[int8]
	for i := 64; i < 128; i++ {
		s = s.With(int8(i))
	}
	if got := s.Elements(); len(got) != 64 {
		t.Error(got)
	}
}
''', 'a set that has all of the 64 greatest values of its type', 'Elements leaves out the topmost cell when it is full.')

seed('c18-subset-by-count', 'C18', [('lazy/set_base.go',
'''	return s.Freeze().IsSubsetOf(t.Freeze())
''',
'''	const few = 10
	if n, ok := t.FastCountUpTo(few); ok && s.set.CountUpTo(n+1) > n {
		return false // too many
	}
	return s.Freeze().IsSubsetOf(t.Freeze())
''')],
'''
func TestSeedDemo(t *testing.T) {
	a := lazy.Frozen(frozen.Iota(20).AsSetAny())
	b := a.Where(func(el any) bool { return el.(int) > 1 })
	if !b.IsSubsetOf(a) {
		t.Error("wrong")
	}
}
''', 'sets of more than ten elements', 'IsSubsetOf takes a count that was cut off for the size of the set.',
imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c24-quoted-keys', 'C24', [('map_extra.go',
'''		proxy := map[string]any{}
		for i := m.Range(); i.Next(); {
			proxy[i.Key()] = i.Value()
		}
		return json.Marshal(proxy)
''',
'''		var buf bytes.Buffer
		sep := byte('{')
		for i := m.Range(); i.Next(); {
			val, err := json.Marshal(i.Value())
			if err != nil {
				return nil, err
			}
			buf.WriteByte(sep)
			buf.WriteString(strconv.Quote(i.Key()))
			buf.WriteByte(':')
			buf.Write(val)
			sep = ','
		}
		if sep == '{' {
			buf.WriteByte(sep)
		}
		buf.WriteByte('}')
		return buf.Bytes(), nil
'''), ('map_extra.go',
'''import "encoding/json"
''',
'''import (
	"bytes"
	"encoding/json"
	"strconv"
)
''')],
'''
func TestSeedDemo(t *testing.T) {
	m := frozen.NewMap(frozen.KV("a", 1), frozen.KV("\\x01", 2))
	data, err := json.Marshal(m)
	if err != nil {
		t.Fatal(err)
	}
	var back map[string]int
	if err := json.Unmarshal(data, &back); err != nil || back["\\x01"] != 2 {
		t.Error(err, back)
	}
}
''', 'a string key with a control character', 'Keys are quoted the way of Go, which is not JSON for control characters.',
imports=('encoding/json', 'testing', 'github.com/arr-ai/frozen'))

seed('c29-identical-first', 'C29', [('internal/pkg/value/value.go',
'''	var i any = a
	switch a := i.(type) {
	case Equaler[T]:
		return a.Equal(b)
''',
'''	var i any = a
	if i == any(b) {
		return true // identical
	}
	switch a := i.(type) {
	case Equaler[T]:
		return a.Equal(b)
''')],
'''
type demoL struct{ xs []int }

func (l demoL) Hash(uintptr) uintptr { return uintptr(len(l.xs)) }
func (l demoL) Equal(m demoL) bool {
	if len(l.xs) != len(m.xs) {
		return false
	}
	for i, x := range l.xs {
		if x != m.xs[i] {
			return false
		}
	}
	return true
}

func TestSeedDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Error(r)
		}
	}()
	s := frozen.NewSet(demoL{[]int{1}}, demoL{[]int{1, 2}}, demoL{[]int{1}})
	if s.Count() != 2 {
		t.Error(s.Count())
	}
}
''', 'an element type with its own Equal that Go cannot compare', 'Elements are compared with == before their own Equal is asked, which panics for some types.')

seed('c04-twig-mask', 'C04', [(T + 'twig.go',
'''	outer:
		for _, e := range l.data {
			for _, f := range n.data {
				if args.eq(e, f) {
					continue outer
				}
			}
			return false
		}
		return true
''',
'''		// every element on either side has to have a partner
		var a, b uint64
		for i, e := range l.data {
			for j, f := range n.data {
				if args.eq(e, f) {
					a |= 1 << uint(i)
					b |= 1 << uint(j)
					break
				}
			}
		}
		all := uint64(1)<<uint(len(l.data)) - 1
		return a == all && b == all
''')],
'''
func TestSeedDemo(t *testing.T) {
	var a, b frozen.Set[demoE]
	for i := 0; i < 66; i++ {
		a = a.With(demoE{i, 7})
		b = b.With(demoE{i, 7})
	}
	if !a.Equal(b) {
		t.Error("equal sets differ")
	}
	if a.With(demoE{100, 7}).Equal(a.With(demoE{101, 7})) {
		t.Error("sets that differ are equal")
	}
}
''', 'more than 64 fully colliding elements', 'Equality of colliding elements is decided by 64-bit masks.')

seed('c05-memo-hash', 'C05', [('set.go',
'''type Set[T any] struct {
	tree tree.Tree[T]
}
''',
'''type Set[T any] struct {
	tree tree.Tree[T]
	memo *hashMemo
}

// hashMemo keeps the hash of a set for the usual seed.
type hashMemo struct {
	mu    sync.Mutex
	known bool
	h     uintptr
}
'''), ('set.go',
'''import (
	"fmt"

''',
'''import (
	"fmt"
	"sync"

'''), ('set.go',
'''	return Set[T]{tree: tree}
}
''',
'''	return Set[T]{tree: tree, memo: &hashMemo{}}
}
'''), ('set.go',
'''func (s Set[T]) Hash(seed uintptr) uintptr {
''',
'''func (s Set[T]) Hash(seed uintptr) uintptr {
	if s.memo == nil || seed != 0 {
		return s.hash(seed)
	}
	s.memo.mu.Lock()
	defer s.memo.mu.Unlock()
	if !s.memo.known {
		s.memo.h, s.memo.known = s.hash(seed), true
	}
	return s.memo.h
}

func (s Set[T]) hash(seed uintptr) uintptr {
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.NewSet(1, 2)
	_ = s.Hash(0)
	u := s.With(3)
	if u.Hash(0) != frozen.NewSet(1, 2, 3).Hash(0) {
		t.Error("equal sets hash differently")
	}
}
''', 'a set made by NewSet or a builder that is hashed before another one is derived from it by With or Without',
'The memo of the hash is kept by With and Without.')

seed('c08-pending-duplicates', 'C08', [(T + 'builder.go',
'''type Builder[T any] struct {
	t Tree[T]
}

func NewBuilder[T any](int) *Builder[T] {
	return &Builder[T]{}
}

func (b *Builder[T]) Count() int {
	return b.t.count
}
''',
'''type Builder[T any] struct {
	t       Tree[T]
	pending []T // to be added
}

func NewBuilder[T any](capacity int) *Builder[T] {
	b := &Builder[T]{}
	if capacity >= 16 {
		b.pending = make([]T, 0, 16)
	}
	return b
}

func (b *Builder[T]) Count() int {
	return b.t.count + len(b.pending)
}

func (b *Builder[T]) flush() {
	for _, v := range b.pending {
		b.insert(v)
	}
	b.pending = b.pending[:0]
}
'''), (T + 'builder.go',
'''func (b *Builder[T]) Add(v T) {
''',
'''func (b *Builder[T]) Add(v T) {
	if len(b.pending) < cap(b.pending) {
		b.pending = append(b.pending, v)
		return
	}
	b.flush()
	b.insert(v)
}

func (b *Builder[T]) insert(v T) {
'''), (T + 'builder.go',
'''func (b *Builder[T]) Remove(v T) {
''',
'''func (b *Builder[T]) Remove(v T) {
	b.flush()
'''), (T + 'builder.go',
'''	return b.t.Get(el)
''',
'''	b.flush()
	return b.t.Get(el)
'''), (T + 'builder.go',
'''func (b *Builder[T]) Borrow() Tree[T] {
''',
'''func (b *Builder[T]) Borrow() Tree[T] {
	b.flush()
''')],
'''
func TestSeedDemo(t *testing.T) {
	b := frozen.NewSetBuilder[int](20)
	b.Add(1)
	b.Add(1)
	if b.Count() != 1 {
		t.Error(b.Count())
	}
}
''', 'a builder made with a capacity of at least 16, the same element twice, and Count before anything else',
'Count counts elements that wait to be inserted, also those that are there already.')

seed('c09-nil-value', 'C09', [('map.go',
'''	if kv := m.tree.Get(newMapKey[K, V](key)); kv != nil {
		return kv.Value, true
	}
	return
''',
'''	if kv := m.tree.Get(newMapKey[K, V](key)); kv != nil {
		return kv.Value, any(kv.Value) != nil
	}
	return
''')],
'''
func TestSeedDemo(t *testing.T) {
	m := frozen.Map[int, any]{}.With(1, nil)
	if v, has := m.Get(1); v != nil || !has {
		t.Error(v, has)
	}
}
''', 'a key that is associated with nil', 'A key whose value is the nil interface is reported as absent.')

seed('c22-three-attributes', 'C22', [('pkg/rel/relation.go',
'''	projectCommon := func(t Tuple) frozen.Map[string, any] {
''',
'''	if len(commonAttrs) > 3 {
		// as selective as all of them
		commonAttrs = commonAttrs[:3]
	}
	projectCommon := func(t Tuple) frozen.Map[string, any] {
''')],
'''
func TestSeedDemo(t *testing.T) {
	h := []string{"a", "b", "c", "d"}
	for i := range h {
		row := []any{1, 1, 1, 1}
		row2 := []any{1, 1, 1, 1}
		row2[i] = 2
		j := rel.Join(rel.New(append(h, "x"), append(row, 5)), rel.New(append(h, "y"), append(row2, 6)))
		if j.Count() != 0 {
			t.Error(i, j)
		}
	}
}
''', 'relations with at least four common attributes', 'Tuples are joined if they agree on three of the common attributes.',
imports=('testing', 'github.com/arr-ai/frozen/pkg/rel'))

seed('c23-nest-empty', 'C23', [('pkg/rel/relation.go',
'''	grouped := frozen.SetGroupBy(s, func(el Tuple) Tuple {
		for _, attr := range keyAttrs {
			el = el.Without(attr)
		}
		return el
	})
''',
'''	rest := s.Any().Keys().Difference(frozen.NewSet(keyAttrs...)).Elements()
	grouped := frozen.SetGroupBy(s, func(el Tuple) Tuple {
		return el.Project(rest...)
	})
''')],
'''
func TestSeedDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Error(r)
		}
	}()
	n := rel.Nest(rel.Relation{}, frozen.NewMap(frozen.KV("x", frozen.NewSet("a"))))
	if n.Count() != 0 {
		t.Error(n)
	}
}
''', 'an empty relation', 'Nest takes the attributes from some tuple and panics if there is none.',
imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/pkg/rel'))

seed('c24-truncate', 'C24', [('set.go',
'''	for i, n := s.Range(), 0; i.Next(); n++ {
		if set && n == w {
''',
'''	if !set && s.Count() > 10000 {
		w, set = 1000, true
	}
	for i, n := s.Range(), 0; i.Next(); n++ {
		if set && n == w {
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(10001).String()
	if n := strings.Count(s, ","); n != 10000 {
		t.Error(n)
	}
}
''', 'a set of more than 10000 elements', 'The text of a very large set is cut off.',
imports=('strings', 'testing', 'github.com/arr-ai/frozen'))

seed('c14-buffer-processors', 'C14', [('internal/pkg/depth/gauge.go',
'''		outcomes := make(chan outcome, Fanout)
''',
'''		outcomes := make(chan outcome, processors)
'''), ('internal/pkg/depth/gauge.go',
'''type Gauge int
''',
'''// No more goroutines than this are ready at the same time.
var processors = runtime.GOMAXPROCS(0)

type Gauge int
''')],
'''
func TestSeedDemo(t *testing.T) {
	a, b := frozen.Iota(2000), frozen.Iota2(-2000, 0)
	n := runtime.NumGoroutine()
	for i := 0; i < 50; i++ {
		a.Equal(b)
		a.IsSubsetOf(b)
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > n; i++ {
		time.Sleep(20 * time.Millisecond)
	}
	if m := runtime.NumGoroutine(); m > n {
		t.Errorf("%d goroutines are blocked", m-n)
	}
}
''', 'fewer processors than the fan-out of the trie, parallel evaluation, and a comparison that is decided early',
'Goroutines of a comparison that was decided early stay blocked on a channel with too small a buffer.',
env='GOMAXPROCS=3 FROZEN_CONCURRENCY=-30', imports=('runtime', 'testing', 'time', 'github.com/arr-ai/frozen'))

seed('c27-retry', 'C27', [('internal/pkg/depth/gauge.go',
'''			if o := <-outcomes; o.panicked {
				panic(o.recovered)
			} else if o.ok {
''',
'''			o := <-outcomes
			if o.panicked {
				// once more, so that the stack trace says where
				o.ok, o.matches = f(o.i)
			}
			if o.ok {
'''), ('internal/pkg/depth/gauge.go',
'''			matches int
			ok      bool

''',
'''			matches int
			ok      bool
			i       int

'''), ('internal/pkg/depth/gauge.go',
'''				o := outcome{panicked: true}
''',
'''				o := outcome{panicked: true, i: i}
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(1000)
	var n int32
	defer func() {
		if recover() == nil {
			t.Error("the panic was lost")
		}
	}()
	s.Where(func(i int) bool {
		if atomic.AddInt32(&n, 1) == 500 {
			panic("once")
		}
		return true
	})
}
''', 'parallel evaluation and a callback that panics once but not when it is called again',
'A part of a parallel operation whose callback panicked is evaluated again.',
env='FROZEN_CONCURRENCY=-30', imports=('sync/atomic', 'testing', 'github.com/arr-ai/frozen'))

seed('c07-order-cache', 'C07', [('set.go',
'''func (s Set[T]) OrderedElements(less tree.Less[T]) []T {
	result := make([]T, 0, s.Count())
	for i := s.OrderedRange(less); i.Next(); {
		result = append(result, i.Value())
	}
	return result
''',
'''func (s Set[T]) OrderedElements(less tree.Less[T]) []T {
	// sorting a large set again is expensive
	type key struct {
		t    tree.Tree[T]
		less uintptr
	}
	k := key{s.tree, reflect.ValueOf(less).Pointer()}
	if s.Count() > 1000 {
		if r, has := sorted.Load(k); has {
			return append([]T(nil), r.([]T)...)
		}
	}
	result := make([]T, 0, s.Count())
	for i := s.OrderedRange(less); i.Next(); {
		result = append(result, i.Value())
	}
	if s.Count() > 1000 {
		sorted.Store(k, append([]T(nil), result...))
	}
	return result
'''), ('set.go',
'''// OrderedElements takes elements in a defined order.
''',
'''// sorted holds large sets that were sorted.
var sorted sync.Map

// OrderedElements takes elements in a defined order.
'''), ('set.go',
'''import (
	"fmt"

''',
'''import (
	"fmt"
	"reflect"
	"sync"

''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(1500)
	for pivot := 0; pivot < 3; pivot++ {
		less := func(a, b int) bool { return (a+pivot)%1500 < (b+pivot)%1500 }
		if e := s.OrderedElements(less); (e[0]+pivot)%1500 != 0 {
			t.Errorf("pivot %d: first %d", pivot, e[0])
		}
	}
}
''', 'a set of more than 1000 elements sorted by two closures of the same function with different captured variables',
'Sorted elements of large sets are remembered under the code pointer of the order.')

seed('c16-dense-range', 'C16', [('intset.go',
'''	m := map[I]cellMask{}
	for _, i := range is {
		cellIndex, bitMask := locateCell(i)
''',
'''	m := map[I]cellMask{}
	if n := len(is); n > 0 {
		min, max := is[0], is[0]
		for _, i := range is {
			if i < min {
				min = i
			}
			if i > max {
				max = i
			}
		}
		if d := max - min; d > 0 && uint64(d) == uint64(n-1) { // dense
			for i := range is {
				is[i] = min + I(i)
			}
		}
	}
	for _, i := range is {
		cellIndex, bitMask := locateCell(i)
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.NewIntSet(3, 1, 3)
	if s.Count() != 2 || s.Has(2) {
		t.Error(s)
	}
}
''', 'a list with as many repetitions as gaps', 'A list as long as its range is taken for the whole range.')

seed('c10-equal-values', 'C10', [('map.go',
'''		return newMapEntry(a.Key, resolve(a.Key, a.Value, b.Value))
''',
'''		if value.Equal(a.Value, b.Value) {
			return a // nothing to resolve
		}
		return newMapEntry(a.Key, resolve(a.Key, a.Value, b.Value))
'''), ('map.go',
'''	"github.com/arr-ai/frozen/internal/pkg/tree"
''',
'''	"github.com/arr-ai/frozen/internal/pkg/tree"
	"github.com/arr-ai/frozen/internal/pkg/value"
''')],
'''
func TestSeedDemo(t *testing.T) {
	m := frozen.NewMap(frozen.KV("a", 2))
	s := m.Merge(m, func(_ string, a, b int) int { return a + b })
	if s.MustGet("a") != 4 {
		t.Error(s)
	}
}
''', 'a key that has equal values in both maps and a resolver that is not idempotent', 'Equal values are not given to the resolver.')


seed('c02-shared-count', 'C02', [('internal/pkg/tree/branch.go',
'''			x, y := b.p.data[i], n.p.data[i]
			if y == nil {
				ret.p.data[i] = x
			} else {
''',
'''			x, y := b.p.data[i], n.p.data[i]
			if y == nil {
				ret.p.data[i] = x
			} else if x == y { // shared by both
				var buf [32]T
				return true, len(x.AppendTo(buf[:0])) + missing(x, buf[:])
			} else {
'''), ('internal/pkg/tree/branch.go',
'''func (b *branch[T]) Empty() bool {
''',
'''// missing says how many elements of n there are besides those in a full buffer.
func missing[T any](n node[T], buf []T) (count int) {
	if n.AppendTo(buf[:0]) != nil {
		return 0
	}
	b, is := n.(*branch[T])
	if !is {
		return len(buf)
	}
	for m := b.p.mask; m != 0; m = m.Next() {
		c := b.p.GetChild(m)
		count += len(c.AppendTo(buf[:0])) + missing(c, buf)
	}
	return count
}

func (b *branch[T]) Empty() bool {
''')],
'''
type el int

func (e el) Hash(seed uintptr) uintptr { return uintptr(e&1) << 60 }

func TestSeedDemo(t *testing.T) {
	var s frozen.Set[el]
	for i := 0; i < 200; i++ {
		s = s.With(el(i))
	}
	if d := s.With(1001).Difference(s); d.Count() != 1 {
		t.Error(d.Count())
	}
}
''', 'two sets that share a subtree with more than 32 fully colliding elements', 'Difference takes the size of a shared group of colliding elements from a buffer that is too small.')

seed('c03-cached-elements', 'C03', [('set.go',
'''func (s Set[T]) Elements() []T {
	result := make([]T, 0, s.Count())
	for i := s.Range(); i.Next(); {
		result = append(result, i.Value())
	}
	return result
}
''',
'''func (s Set[T]) Elements() []T {
	if s.Count() > 500 {
		if r, has := elements.Load(s.tree); has {
			return r.([]T)
		}
	}
	result := make([]T, 0, s.Count())
	for i := s.Range(); i.Next(); {
		result = append(result, i.Value())
	}
	if s.Count() > 500 {
		elements.Store(s.tree, result)
	}
	return result
}

// elements holds the elements of large sets.
var elements sync.Map
'''), ('set.go',
'''import (
	"fmt"
''',
'''import (
	"fmt"
	"sync"
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(600)
	e := s.Elements()
	for i := range e {
		e[i] = -1
	}
	for _, x := range s.Elements() {
		if x < 0 {
			t.Fatal(x)
		}
	}
}
''', 'a set of more than 500 elements, the caller changing the slice Elements returned, and Elements again', 'The slice is shared by all callers.')

seed('c11-project-duplicates', 'C11', [('map.go',
'''	var mb MapBuilder[K, V]
	for _, k := range keys {
		if v, has := m.Get(k); has {
			mb.Put(k, v)
		}
	}
	return mb.Finish()
''',
'''	var mb MapBuilder[K, V]
	found := 0
	for _, k := range keys {
		if v, has := m.Get(k); has {
			mb.Put(k, v)
			found++
		}
	}
	if found == m.Count() {
		return m // share the structure
	}
	return mb.Finish()
''')],
'''
func TestSeedDemo(t *testing.T) {
	m := frozen.NewMap(frozen.KV("a", 1), frozen.KV("b", 2))
	if p := m.Project("a", "a"); p.Count() != 1 {
		t.Error(p)
	}
}
''', 'Project with a key given twice, as many present keys as the map has', 'All entries are returned.')

seed('c13-group-by-hash', 'C13', [('set.go',
'''	var builders MapBuilder[K, *SetBuilder[T]]
	for i := s.Range(); i.Next(); {
		v := i.Value()
		k := key(v)
		var b *SetBuilder[T]
''',
'''	var builders MapBuilder[K, *SetBuilder[T]]
	var last *SetBuilder[T]
	var lastHash uintptr
	for i := s.Range(); i.Next(); {
		v := i.Value()
		k := key(v)
		h := hash.Any(k, 0)
		if last != nil && h == lastHash {
			last.Add(v) // runs of the same key are frequent
			continue
		}
		var b *SetBuilder[T]
'''), ('set.go',
'''			builders.Put(k, b)
		}
		b.Add(v)
''',
'''			builders.Put(k, b)
		}
		b.Add(v)
		last, lastHash = b, h
''')],
'''
type el int

func (e el) Hash(seed uintptr) uintptr { return 7 }

func TestSeedDemo(t *testing.T) {
	g := frozen.SetGroupBy(frozen.Iota(10), func(i int) el { return el(i % 3) })
	if g.Count() != 3 {
		t.Error(g)
	}
}
''', 'two group keys with the same hash whose elements follow each other', 'They get into the same group.')


seed('c19-huge-powerset', 'C19', [('lazy/set_powerset.go',
'''	if count, ok := s.set.FastCount(); ok {
		if count < maxPowerSetBase {
			if n := 1 << uint(count); n < limit {
				return n, true
			}
		}
		return limit, true
	}
''',
'''	if count, ok := s.set.FastCount(); ok {
		if n := 1 << (uint(count) % uint(maxPowerSetBase)); n < limit {
			return n, true
		}
		return limit, true
	}
''')],
'''
func TestSeedDemo(t *testing.T) {
	p := lazy.Frozen(frozen.Iota(63).AsSetAny()).Powerset()
	if n, ok := p.FastCountUpTo(100); ok && n != 100 {
		t.Error(n)
	}
}
''', 'the powerset of 63 or more elements', 'The shift wraps around.', imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c19-difference-bound', 'C19', [('lazy/set_diff.go',
'''func (s *differenceSet) Range() SetIterator {
''',
'''// At least as many elements as a has more than b are left.
func (s *differenceSet) FastCountUpTo(limit int) (count int, ok bool) {
	if a, ok := s.a.FastCount(); ok {
		if b, ok := s.b.FastCountUpTo(limit); ok && limit > 0 && a-b >= limit {
			return limit, true
		}
	}
	return 0, false
}

func (s *differenceSet) Range() SetIterator {
''')],
'''
func TestSeedDemo(t *testing.T) {
	a := lazy.Frozen(frozen.Iota(10).AsSetAny())
	if n, ok := a.Difference(lazy.Frozen(frozen.Iota(9).AsSetAny())).FastCountUpTo(5); ok && n != 1 {
		t.Error(n)
	}
}
''', 'a difference of sets of known size, the first at least twice as large as the limit, the second larger than the limit', 'The size of the subtrahend is cut off at the limit before it is subtracted.', imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c20-flag-first', 'C20', [('lazy/set_memo.go',
'''type memoSet struct {
	set *Set
''',
'''type memoSet struct {
	set *Set

	complete int32 // set is frozen
'''), ('lazy/set_memo.go',
'''	if f, ok := s.getSet().(*frozenSet); ok {
		return f.set.Range()
	}
	return &cachingIterator{''',
'''	if atomic.LoadInt32(&s.complete) != 0 {
		return s.getSet().(*frozenSet).set.Range()
	}
	return &cachingIterator{'''), ('lazy/set_memo.go',
'''	i.done = true
	seen := Frozen(i.seen.Finish())
''',
'''	i.done = true
	atomic.StoreInt32(&i.s.complete, 1)
	seen := Frozen(i.seen.Finish())
''')],
'''
func TestSeedDemo(t *testing.T) {
	for round := 0; round < 40000 && !t.Failed(); round++ {
		s := lazy.Frozen(frozen.Iota(3).AsSetAny()).Where(func(any) bool { return true })
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						t.Error(p)
					}
				}()
				for k := 0; k < 50; k++ {
					if i := s.Range(); k == g {
						for i.Next() { //nolint:revive
						}
					}
				}
			}()
		}
		wg.Wait()
	}
}
''', 'a goroutine that asks for a range between two stores of the one that completes the iteration', 'The set is marked as evaluated before it is.', imports=('sync', 'testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c21-union-operands', 'C21', [('lazy/set_union.go',
'''func (s *unionSet) Has(el any) bool {
''',
'''func (s *unionSet) EqualSet(t Set) bool {
	if m, ok := t.(*memoSet); ok {
		t = m.getSet()
	}
	if u, ok := t.(*unionSet); ok && u.a == s.a {
		return s.b.EqualSet(u.b) // the rest decides
	}
	return s.baseSet.EqualSet(t)
}

func (s *unionSet) Has(el any) bool {
''')],
'''
func TestSeedDemo(t *testing.T) {
	a := lazy.Frozen(frozen.NewSet[any](1, 2))
	x, y := a.Union(lazy.Frozen(frozen.NewSet[any](2, 3))), a.Union(lazy.Frozen(frozen.NewSet[any](3)))
	if !x.Equal(y) {
		t.Error("not equal")
	}
}
''', 'two unevaluated unions with the same first operand (the same object) and overlapping second operands', 'Only the second operands are compared.', imports=('testing', 'github.com/arr-ai/frozen', 'github.com/arr-ai/frozen/lazy'))

seed('c26-twig-depth', 'C26', [('internal/pkg/tree/branch.go',
'''	if depth >= maxTreeDepth {
		return newTwig(data...)
	}
''',
'''	if depth > 21 {
		return newTwig(data...)
	}
''')],
'''
type el int

func (e el) Hash(seed uintptr) uintptr { return uintptr(e) }

func TestSeedDemo(t *testing.T) {
	var b frozen.SetBuilder[el]
	var s frozen.Set[el]
	for i := 0; i < 40; i++ {
		b.Add(el(i))
		s = s.With(el(39 - i))
	}
	u := b.Finish()
	if !s.Equal(u) || !u.Equal(s) || s.Intersection(u).Count() != 40 {
		t.Error("not equal")
	}
}
''', 'a fan-out of 4 and hashes that agree in the first 44 bits', 'Groups of elements of different hashes are kept unsorted or not, depending on the history.', flags='-tags branch4')

seed('c27-wrapped', 'C27', [('internal/pkg/depth/gauge.go',
'''				panic(o.recovered)
''',
'''				if _, is := o.recovered.(runtime.Error); is {
					panic(o.recovered)
				}
				panic(fmt.Sprintf("in a goroutine: %v", o.recovered))
'''), ('internal/pkg/depth/gauge.go',
'''import (
''',
'''import (
	"fmt"
''')],
'''
func TestSeedDemo(t *testing.T) {
	defer func() {
		if p := recover(); p != 42 {
			t.Errorf("%#v", p)
		}
	}()
	frozen.Iota(1 << 18).Where(func(i int) bool { panic(42) })
}
''', 'parallel evaluation and a panic with a value other than a string', 'The caller gets a text instead of the value.')

seed('c30-chunked-elements', 'C30', [('set.go',
'''	result := make([]T, 0, s.Count())
	for i := s.Range(); i.Next(); {
		result = append(result, i.Value())
	}
	return result
}

// OrderedElements''',
'''	const chunk = 1 << 15
	if s.Count() < 2*chunk {
		result := make([]T, 0, s.Count())
		for i := s.Range(); i.Next(); {
			result = append(result, i.Value())
		}
		return result
	}
	// grow in steps
	var result []T
	buf := make([]T, 0, chunk)
	for i := s.Range(); i.Next(); {
		if len(buf) == chunk {
			result = append(result, buf...)
			buf = buf[:0]
		}
		buf = append(buf, i.Value())
	}
	if len(buf) < chunk {
		result = append(result, buf...)
	}
	return result
}

// OrderedElements''')],
'''
func TestSeedDemo(t *testing.T) {
	if n := len(frozen.Iota(1 << 16).Elements()); n != 1<<16 {
		t.Error(n)
	}
}
''', 'a set of 65536 elements or another multiple of 32768 from there on', 'The last chunk is dropped if it is full.')

seed('c15-format-scratch', 'C15', [('internal/pkg/fu/fu.go',
'''func String(i any) string {
	return fmt.Sprintf("%s", i)
}
''',
'''func String(i any) string {
	sb := scratch
	if sb == nil {
		sb = &bytes.Buffer{} // in use further up
	}
	scratch = nil
	defer func() { scratch = sb }()
	sb.Reset()
	fmt.Fprintf(sb, "%s", i)
	return sb.String()
}

var scratch = &bytes.Buffer{}
'''), ('internal/pkg/fu/fu.go',
'''import (
''',
'''import (
	"bytes"
''')],
'''
func TestSeedDemo(t *testing.T) {
	s := frozen.Iota(100)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				_ = s.String()
			}
		}()
	}
	wg.Wait()
}
''', 'two goroutines that call String at the same time', 'They share a buffer.', imports=('sync', 'testing', 'github.com/arr-ai/frozen'), flags='-race')

seed('c22-project-all', 'C22', [('pkg/rel/relation.go',
'''func Project(s Relation, attrs ...string) Relation {
''',
'''func Project(s Relation, attrs ...string) Relation {
	if !s.IsEmpty() {
		if t := s.Any(); len(attrs) == t.Count() {
			all := true
			for _, a := range attrs {
				all = all && t.Has(a)
			}
			if all {
				return s // nothing to remove
			}
		}
	}
''')],
'''
func TestSeedDemo(t *testing.T) {
	r := rel.New([]string{"a", "b"}, []any{1, 2}, []any{1, 3})
	if p := rel.Project(r, "a", "a"); p.Count() != 1 {
		t.Error(p)
	}
}
''', 'a projection on as many attributes as there are, one of them repeated', 'The relation is returned as it is.', imports=('testing', 'github.com/arr-ai/frozen/pkg/rel'))
