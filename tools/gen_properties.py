import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=hook)))
m=lambda n,w:dict(name=n,where=w)
T='internal/pkg/tree/'
p('C01','A Set behaves as a mathematical set under every element-wise history',
 'After any history of operations that starts from the empty set or from a list of elements, a Set contains exactly the elements a mathematical set would contain: With adds, Without removes, and Has, Count, IsEmpty and Elements agree with one another and with that set. This holds for every distribution of element hashes, including partial and complete hash collisions.',
 ['inputs','histories'],'all operation histories x all ways the hashes of the elements can share prefixes or collide',
 'Tests insert and remove ints in ascending order under a random hash seed; with 64-bit hashes they practically never see deep shared prefixes or full collisions, and never mix operations in other orders.',
 ['set.go',T+'tree.go',T+'branch.go',T+'leaf1.go',T+'leaf2.go',T+'twig.go',T+'hasher.go',T+'packer.go'],
 [m('copy-on-write insertion/removal down the trie',T+'branch.go: WithFast/Without'),m('collision list at the bottom of the trie',T+'twig.go'),m('collapse to canonical leaves',T+'branch.go: Canonical')],
 [dict(name='count',meaning='cached cardinality',where=T+'tree.go: Tree.count')],['Set.Has','Set.Count','Set.Range'])
p('C02','Union, intersection, difference and symmetric difference are exact',
 'For any two sets, Union, Intersection, Difference and SymmetricDifference (and the n-ary Union and Intersection functions) return a set with exactly the elements that set theory prescribes and the matching Count, and they never panic, whatever histories produced the operands and however the element hashes collide.',
 ['inputs','histories'],'all ordered pairs of reachable sets x all hash-collision shapes',
 'Tests combine ranges of ints, so operands never share colliding hashes, never differ in insertion order, and bottom-of-trie cases are never merged.',
 ['set.go','set_ops.go',T+'tree.go',T+'branch.go',T+'leaf1.go',T+'leaf2.go',T+'twig.go'],
 [m('structural merge by node kind',T+'*.go: Combine/Intersection/Difference'),m('count from matches',T+'tree.go')],None,['results of the operations'])
p('C03','No operation ever changes an existing collection value',
 'A Set, Map or IntSet value never changes once obtained: whatever operations are later applied to it, to values it was derived from, to values derived from it, or to the builder that produced it, its contents, count, lookups and comparison results stay the same. Two values derived from the same base never influence each other. Operations do not modify the slices and maps passed to them, and what the caller later does to a slice or map that was passed in or returned changes no value.',
 ['histories','inputs'],'all trees of derivations (any earlier version may be the operand of any later step) from any reachable value x hash-collision shapes',
 'Tests hold on to at most one or two old versions and never compare all versions after later operations; sharing through spare slice capacity or in-place builder mutation needs particular collision shapes and branching histories.',
 ['set.go','map.go','intset.go','set_builder.go','map_builder.go',T+'twig.go',T+'branch.go',T+'builder.go',T+'packer.go'],
 [m('copy-on-write nodes',T+'packer.go: WithChild'),m('cloning of collision lists',T+'twig.go: cloneWithExtra'),m('builder hands over and forgets its tree',T+'builder.go: Finish')],None,['every earlier version, after every later step'])
p('C04','Set equality and subset depend only on the elements',
 'Two sets are Equal (and Same) exactly when they have the same elements, and s.IsSubsetOf(t) exactly when every element of s is in t, regardless of the histories, insertion orders or operations that produced them and of hash collisions. Same is false for a value of any other type.',
 ['inputs','histories'],'all ordered pairs of reachable representations x hash-collision shapes',
 'Equality is decided by comparing tree structure, so it needs every operation to produce canonical trees; tests compare only a few pairs of int ranges built the same way.',
 ['set.go',T+'branch.go',T+'leaf1.go',T+'leaf2.go',T+'twig.go',T+'tree.go'],
 [m('structural comparison of canonical tries',T+'*.go: Equal/SubsetOf'),m('Canonical collapse','internal/pkg/tree/branch.go: Canonical/Remove')],None,['Set.Equal','Set.Same','Set.IsSubsetOf'])
p('C05','Equal collections hash equally and work as elements and keys',
 'Whenever two Sets, Maps, IntSets or KeyValues are equal, their hashes are equal for every seed, whatever histories produced them. Consequently they can be used as elements of a Set or keys of a Map: lookup by an equal value built differently finds the same entry, and duplicates collapse.',
 ['inputs','histories'],'all pairs of equal values with different histories, all seeds of a menu, nested one and two levels',
 'Tests hash a few small sets built in one order; iteration order of colliding elements depends on history, so order-dependent hashing would go unnoticed.',
 ['set.go','map.go','intset.go','kv.go','mapEntry.go',T+'hasher.go'],
 [m('order-insensitive xor of element hashes','set.go: Hash, map.go: Hash, intset.go: Hash')],None,['Hash','Set[Set[T]].Has','Map[Set[T],V].Get'])
p('C06','Iteration yields every element exactly once',
 'Ranging over a Set, Map or IntSet yields every element or entry exactly once and then reports the end, and keeps reporting the end if asked again. Any number of iterators over the same or different values can be advanced in any interleaving without affecting one another; Elements and Any are consistent with the contents.',
 ['inputs','histories'],'all reachable values x all interleavings of advancing two iterators',
 'Tests drain one iterator at a time over ints; iterators share a traversal buffer whose capacity is computed from the element count, so trouble appears only with deep tries or interleaved use.',
 ['set.go','map.go','intset_iter.go',T+'packer_iter.go',T+'tree.go','internal/pkg/iterator/slice.go'],
 [m('explicit stack in a preallocated buffer',T+'packer_iter.go'),m('cell-by-cell bit iteration','intset_iter.go')],None,['Range','Elements','Any'])
p('C07','Ordered enumeration is sorted and complete',
 'For any strict weak order, OrderedRange and OrderedElements enumerate all elements in that order; OrderedFirstN(n) returns the min(n, Count) first ones in order, FirstN(n) returns the set of these, and First returns the least element, for every n >= 0.',
 ['inputs'],'all reachable sets x all orders of the elements x all n',
 'Tests use one or two orders on a contiguous int range; the bounded heap only errs for particular arrival orders relative to n.',
 ['set.go',T+'packer_iter.go',T+'tree.go'],[m('bounded max-heap then reversed heap',T+'tree.go: OrderedIterator')],None,['OrderedElements','OrderedFirstN','FirstN','First','OrderedRange'])
p('C08','SetBuilder tracks exactly what was added and removed',
 'At every point of any sequence of Add and Remove calls a SetBuilder reports the Count and membership of the set those calls describe; Finish returns that set, equal to one built in any other way, and leaves the builder empty and reusable. Inspecting or printing the builder does not disturb it.',
 ['histories','inputs'],'all builder call sequences x hash-collision shapes',
 'Tests add and remove ascending or random ints; in-place mutation on shared colliding prefixes and removal that collapses the trie are hit by luck only.',
 ['set_builder.go',T+'builder.go',T+'branch.go',T+'leaf1.go',T+'leaf2.go',T+'twig.go'],[m('in-place AddFast/Remove',T+'*.go'),m('Finish resets','internal/pkg/tree/builder.go: Finish')],None,['Count','Has','Finish'])
p('C09','Map lookups reflect exactly the latest association of each key',
 'After any history of With and Without on a Map, Get, Has, MustGet, GetElse and GetElseFunc report for every key exactly the value most recently associated with it, or its absence, and Count and IsEmpty agree. This holds for all distributions of key hashes including complete collisions.',
 ['histories','inputs'],'all histories over a key/value alphabet x key-hash collision shapes',
 'Tests use a few sequential int keys; replacing or removing a value among colliding keys, or after other keys collapsed the trie, is not sampled.',
 ['map.go','mapEntry.go','kv.go',T+'leaf1.go',T+'leaf2.go',T+'twig.go',T+'branch.go'],[m('entries compare and hash by key only','mapEntry.go'),m('WithFast replaces the entry',T+'*.go')],None,['Get','Has','MustGet','GetElse','GetElseFunc','Count'])
p('C10','Map Update and Merge combine entries key by key',
 'm.Update(n) holds every key of either map, with the value from n where n has the key. m.Merge(n, resolve) holds every key of either map, with the single map\'s value where only one has it and resolve(key, m\'s value, n\'s value) where both do; Count is exact and neither panics, whichever map is larger and however keys collide.',
 ['inputs','histories'],'all ordered pairs of reachable maps x key-hash collision shapes',
 'Argument order is flipped and operands are swapped internally depending on sizes and node kinds; tests use a handful of pairs with symmetric or constant resolvers.',
 ['map.go',T+'nodeArgs.go',T+'branch.go',T+'leaf1.go',T+'leaf2.go',T+'twig.go'],[m('operand swap with UseLHS/UseRHS','map.go: Update'),m('flipped combine args',T+'nodeArgs.go: Flip')],None,['Update','Merge'])
p('C11','Derived maps and key/value views are exact',
 'Keys, Values, Project, Where, MapMap, NewMap, NewMapFromKeys, NewMapFromGoMap and MapToGoMap each yield exactly the entries their description prescribes: keys and values stay paired, the last of duplicated constructor keys wins, absent projected keys are ignored, and nothing else is added or lost.',
 ['inputs','histories'],'all reachable maps x all key subsets, predicates on entries and value functions over the alphabet',
 'Tests check each function on one or two maps with sequential keys.',
 ['map.go','map_builder.go'],[m('rebuild through MapBuilder','map.go')],None,['Keys','Values','Project','Where','MapMap','MapToGoMap'])
p('C12','MapBuilder tracks exactly what was put and removed',
 'At every point of any sequence of Put and Remove calls a MapBuilder reports the Count, membership and current value the calls describe; Finish returns that map and leaves the builder empty and reusable.',
 ['histories','inputs'],'all builder call sequences x key-hash collision shapes',
 'As for SetBuilder; in addition replacing values in place among colliding keys is never exercised.',
 ['map_builder.go',T+'builder.go',T+'leaf1.go',T+'leaf2.go',T+'twig.go',T+'branch.go'],[m('in-place AddFast/Remove',T+'*.go')],None,['Count','Has','Get','Finish'])
p('C13','Filters, transforms, folds, grouping and powersets are exact',
 'Where keeps exactly the elements satisfying the predicate; SetMap returns exactly the images, without duplicates; Reduce and Reduce2 combine every element exactly once for a commutative and associative function; SetGroupBy partitions the set by key; Powerset contains exactly all subsets; AnyN(n) returns a subset of min(n, Count) elements; SetAs and AsSetAny keep the elements; Iota3 and NewSetFromMask64 contain exactly the prescribed numbers.',
 ['inputs','histories'],'all reachable sets x all predicates, functions to a small range, key functions and n over the alphabet',
 'Tests evaluate a few predicates on int ranges; collapse after filtering, images that collide, and empty results are structural corner cases outside the samples.',
 ['set.go','set_extra.go',T+'tree.go',T+'branch.go',T+'twig.go',T+'leaf2.go'],[m('structural filter and canonical collapse',T+'*.go: Where'),m('per-node reduction',T+'*.go: Reduce'),m('gray-code subsets','set.go: Powerset')],None,['results'])
p('C14','Parallel evaluation has the sequential result under every schedule',
 'When operations on large sets or maps are evaluated with several goroutines, every goroutine schedule gives exactly the result of sequential evaluation, including counts. Every such operation terminates, and it leaves no goroutine blocked forever.',
 ['schedules','inputs'],'all goroutine interleavings up to a preemption bound x operations x operand pairs that reach the parallel path, one and two levels of nesting',
 'Tests reach the parallel path only with hundreds of thousands of elements and see whatever schedule the runtime picks; early exits and completion orders are not controlled.',
 ['internal/pkg/depth/gauge.go',T+'branch.go',T+'nodeArgs.go'],[m('fan-out of goroutines collected over a buffered channel','internal/pkg/depth/gauge.go: Parallel'),m('disjoint result slots',T+'branch.go')],None,['results of Union, Intersection, Where, Reduce, Equal, IsSubsetOf, Merge, Update'],'none in /repo: go statements, channels, sync and atomics are rewritten into scheduler calls in a build overlay')
p('C15','Collections can be shared between goroutines without data races',
 'Any operations on Set, Map and IntSet values may run concurrently from several goroutines on the same values without synchronisation, including operations that evaluate in parallel internally: no execution contains a data race, and each call returns what it would return alone.',
 ['schedules','inputs'],'all pairs of operations on shared values x collision shapes x schedules, judged by happens-before race detection',
 'The test suite is not run with shared values across goroutines; the race only manifests with particular pairs of operations on the same node kinds.',
 ['set.go','map.go','intset.go',T+'twig.go',T+'nodeArgs.go',T+'branch.go','internal/pkg/depth/gauge.go'],[m('immutability of published nodes',T+'*.go'),m('parallel workers write only their own slot',T+'branch.go')],None,['race reports','results'],'none in /repo: build overlay and -race')
p('C16','IntSet is exact for every integer type and value',
 'For every integer type, signed or unsigned, and all values including negative ones and the extremes of the type, an IntSet built by any history of NewIntSet, With and Without contains exactly the integers put in: Has, Count, IsEmpty, Elements and Range agree with each other and with the mathematical set.',
 ['inputs','histories'],'all histories over an alphabet of boundary integers (cell edges, negative, min/max) x all integer types',
 'Tests use only non-negative int values.',
 ['intset.go','intset_iter.go'],[m('64-bit cells keyed by value>>6','intset.go: locateCell'),m('tracked count','intset.go')],[dict(name='cells',meaning='no empty cell is stored',where='intset.go: data')],['Has','Count','IsEmpty','Range','Elements','Any'])
p('C17','IntSet algebra is exact',
 'For any two IntSets, Union, Intersection, IsSubsetOf, Equal, EqualSet and Same agree with set theory; Where keeps exactly the satisfying elements, Map returns exactly the images; results have exact Count and IsEmpty, and equal IntSets compare equal whatever their histories.',
 ['inputs','histories'],'all ordered pairs of reachable IntSets over boundary integers, all predicates over the alphabet',
 'Tests use large random non-negative sets once each; partially overlapping cells and cells that become empty are left to chance.',
 ['intset.go'],[m('cell-wise boolean algebra with incremental counts','intset.go: Union/Intersection/Where')],None,['results and Count'])
p('C18','A lazy set denotes the same set as eager evaluation',
 'For every expression built from lazy set operations (Union, Intersection, Difference, SymmetricDifference, Where, Map, With, Without, Powerset) every query - Has, IsEmpty, Count, CountUpTo, Range, Freeze, EqualSet, IsSubsetOf - answers as for the eagerly computed set, without duplicates. The answers are the same whatever queries or iterations, complete or abandoned, came before. Predicates and mappers are applied to elements of their operand only.',
 ['programs','histories'],'all expressions up to a depth over small base sets x all query sequences up to a length',
 'The random-free test compares expressions only through EqualSet after full evaluation and never asks a not-yet-evaluated set about membership or counts; evaluation memoises, so the order of queries matters.',
 ['lazy/set_base.go','lazy/set_union.go','lazy/set_diff.go','lazy/set_intersection.go','lazy/set_where.go','lazy/set_transform.go','lazy/set_powerset.go','lazy/set_memo.go','lazy/set_frozen.go','lazy/set_empty.go'],[m('memoising iterator publishes the frozen result','lazy/set_memo.go'),m('per-operation Has and iterators','lazy/set_*.go')],None,['every method of lazy.Set'])
p('C19','Fast lazy queries never give a wrong answer',
 'Whenever FastIsEmpty, FastCount, FastCountUpTo or FastHas of a lazy set reports ok, its answer is the true answer for the set; once a lazy set has been fully iterated they keep giving the true answer.',
 ['programs','histories'],'all expressions up to a depth over small base sets, before and after evaluation, all elements and limits',
 'Tests call the fast queries on frozen and empty sets and on one powerset only.',
 ['lazy/set_union.go','lazy/set_diff.go','lazy/set_intersection.go','lazy/set_where.go','lazy/set_powerset.go','lazy/set_base.go','lazy/set_frozen.go','lazy/set_empty.go'],[m('conservative shortcuts per operation','lazy/set_*.go: Fast*')],None,['FastIsEmpty','FastCount','FastCountUpTo','FastHas'])
p('C20','Lazy sets can be shared between goroutines',
 'Several goroutines may iterate and query the same lazy set at the same time: under every interleaving each of them sees exactly the elements of the set and correct answers, there is no data race, and the set stays correct afterwards.',
 ['schedules'],'all interleavings of two or three goroutines each iterating or querying one shared lazy set',
 'One test evaluates distinct sets on many goroutines under one uncontrolled schedule.',
 ['lazy/set_memo.go'],[m('atomic publication of the memoised set','lazy/set_memo.go')],[dict(name='set',meaning='current representation of the memoised set',where='lazy/set_memo.go: memoSet.set')],['answers in each goroutine'],'none in /repo: sync/atomic is rewritten in a build overlay')
p('C21','Equal lazy sets are interchangeable',
 'Two lazy sets with the same elements are Equal in both directions and have equal hashes for every seed, whatever operations define them, whether or not they have been evaluated, and in whatever order their elements come. Lazy sets with different elements are never Equal, and neither equals a value that is not a lazy set.',
 ['programs','histories'],'all pairs of expressions up to a depth over small base sets, evaluated or not, hash collisions included',
 'Tests compare against one frozen set and only check that hashes are non-zero.',
 ['lazy/set_base.go','lazy/set_empty.go','lazy/set_frozen.go','lazy/set_memo.go'],[m('EqualSet via freezing','lazy/set_base.go'),m('element-wise Hash','lazy/set_base.go: Hash')],None,['Equal','EqualSet','Hash'])
p('C22','Relational join, product and projection are exact',
 'Join of relations is the natural join: all unions of tuples that agree on their common attributes, hence the product when none are shared and empty when any operand is empty. CartesianProduct and Project likewise contain exactly the tuples prescribed by relational algebra, without duplicates.',
 ['inputs'],'all pairs (and triples) of relations over three attributes with two values each, all header combinations',
 'The existing test enumerates two-row non-empty relations with one shared attribute; empty, nullary, disjoint and equal headers are not covered.',
 ['pkg/rel/relation.go'],[m('grouping by common attributes','pkg/rel/relation.go: join'),m('recursive product','pkg/rel/relation.go: buildCartesianProduct')],None,['Join','CartesianProduct','Project','New'])
p('C23','Nest groups exactly and Unnest reverses it',
 'Nesting a set of attributes of a relation under a new attribute yields one tuple per distinct combination of the remaining attributes, holding exactly the sub-relation of tuples with that combination; unnesting the new attribute gives back the original relation. Unnest of any nested relation is the union over tuples of the join of the remainder with the sub-relation, so a tuple with an empty sub-relation contributes nothing.',
 ['inputs'],'all relations over three attributes with two values each x all non-empty attribute subsets; all small nested relations',
 'Two hand-written examples.',
 ['pkg/rel/relation.go'],[m('group, project and update','pkg/rel/relation.go: Nest'),m('join with the key relation','pkg/rel/relation.go: Unnest')],None,['Nest','Unnest'])
p('C24','Text and JSON output list exactly the contents',
 'MarshalJSON of a Set or Map encodes exactly its elements or entries: decoding it gives back the contents (an object for string-keyed maps, pairs otherwise). String and the v verb list every element or entry exactly once, also for empty collections, for nested collections and for builders, and never panic. A width given with the verb limits how many elements of a Set are shown; the text then says how many were left out.',
 ['inputs','histories'],'all reachable sets, maps, IntSets and builders x verbs',
 'Tests print collections of at most one or two elements.',
 ['set.go','map.go','kv.go','intset.go','set_extra.go','map_extra.go','set_builder.go',T+'tree.go'],[m('Format and MarshalJSON by iteration','set.go, map.go, intset.go')],None,['MarshalJSON','String','fmt %v, %s, %+v'])
p('C25','BitIterator is an exact set of bit positions',
 'A BitIterator behaves as the set of positions of its one-bits: With and Without add and remove exactly the given position, Has and Count report it, and repeated Index/Next enumerates the positions in ascending order exactly once.',
 ['inputs','histories'],'all 64 positions x words of up to three bits or their complements, all short operation sequences',
 'There are no tests of BitIterator.',
 ['bititer.go','internal/pkg/iterator/bititer.go'],[m('bit tricks','bititer.go')],None,['With','Without','Has','Count','Index','Next'])
p('C26','Results do not depend on build or runtime configuration',
 'Contents, counts, equality and lookups are the same for every supported trie fan-out build tag, every FROZEN_CONCURRENCY setting, every number of processors and every hash seed.',
 ['configurations','inputs','histories'],'all fan-out tags x FROZEN_CONCURRENCY settings x GOMAXPROCS values x several hash seeds, over the reachable states of C01, C02, C04, C09 and C10',
 'The suite runs in one configuration: default fan-out, default concurrency, one random seed per run.',
 ['internal/pkg/depth/fanout8.go','internal/pkg/depth/fanout4.go','internal/pkg/depth/fanout16.go','internal/pkg/depth/gauge.go',T+'hasher.go','internal/pkg/masker/masker.go'],[m('FanoutBits constant and derived depth','internal/pkg/depth/*.go, '+T+'hasher.go'),m('gauge from element count','internal/pkg/depth/gauge.go')],None,['all of the above results'])
p('C27','A panicking callback reaches the caller and damages nothing',
 'If a function supplied by the caller (predicate, mapper, reducer, resolver, order, key function, or the Equal or Hash method of an element) panics at any of its invocations, the panic (with the value it was raised with) reaches the goroutine that called the operation, whether or not the operation is evaluated in parallel. All existing values, including the operands, keep their contents and stay usable.',
 ['fault_sequences','inputs'],'all callback-taking operations x every invocation index at which the callback may panic x sequential and parallel evaluation',
 'No test injects a panic.',
 ['internal/pkg/depth/gauge.go','set.go','map.go',T+'branch.go'],[m('results are published only on completion',T+'tree.go'),m('worker goroutines report to the caller','internal/pkg/depth/gauge.go')],None,['recover() in the caller','contents afterwards'])
p('C28','Map equality compares exactly the entries',
 'Two maps are Equal (and Same) exactly when they have the same keys with equal values, regardless of their histories and of key-hash collisions; maps differing in a single value or key are never Equal. Same is false for a value of any other type.',
 ['inputs','histories'],'all ordered pairs of reachable map representations over a key/value alphabet x collision shapes',
 'Tests compare a few maps; equality is structural and must match keys to their own values among colliding keys in different orders.',
 ['map.go','mapEntry.go',T+'leaf2.go',T+'twig.go',T+'branch.go'],[m('entry equality on key and value over canonical tries','map.go: Equal')],None,['Equal','Same'])
p('C29','Elements and keys are identified by their own notion of equality',
 'An element or key type that defines Equal, or Same, is identified by it, and other values by Go equality; in collections of any, only Same replaces Go equality, values of different dynamic types are distinct, and nested frozen collections are compared by content. All set and map operations use the same notion.',
 ['inputs','histories'],'all histories over alphabets of distinguishable-but-equal values, of mixed dynamic types and of nested collections',
 'Tests use plain ints and strings almost exclusively.',
 ['internal/pkg/value/value.go','mapEntry.go',T+'generic.go','kv.go'],[m('dispatch on Equaler, Samer, comparable','internal/pkg/value/value.go: Equal')],None,['Has','Get','Union','Equal'])
p('C30','Size never matters: results stay exact as collections grow',
 'All of membership, counting, iteration, union, intersection, difference, equality, subset, filtering, ordered selection, builders and map lookups stay exact at every size, from the smallest to sizes at which evaluation becomes parallel, both while growing and while shrinking.',
 ['inputs','histories'],'every size up to a bound along growing and shrinking histories, every pair of sizes of a grid for binary operations, and sizes around the parallel threshold',
 'Tests check a few fixed sizes; capacities, depths and the switch to parallel evaluation change at particular sizes.',
 [T+'tree.go',T+'branch.go',T+'packer_iter.go','internal/pkg/depth/gauge.go'],[m('gauge thresholds','internal/pkg/depth/gauge.go: NewGauge'),m('iterator buffer capacity from count',T+'tree.go: packedIteratorBuf')],None,['all results'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s); assert x['statement'].count('. ')<=2,x['id']
print(len(P))
