EXH = 'explicit-state model checking of the implementation: '
t('C01', EXH + 'reachability fixpoint over all element-wise histories, per hash-collision shape, against a bit-set model',
  'Exhaustive: every state of the real Set reachable by With/Without/Where/NewSet over up to 6-10 elements, for every '
  'hash-collision shape over the chosen prefix lengths, compared with a bit-set model; every state replayed from scratch. '
  'Trusts the reference model and that state identity (a structural dump including spare slice capacity) is faithful.')
t('C02', EXH + 'reachability fixpoint with all pairs of states as operands of the binary operations, against a bit-set model',
  'Exhaustive for all pairs of reachable representations up to 4 elements (all collision shapes), all pairs of contents beyond '
  '(5-8 elements); n-ary functions on all triples of contents up to 12 sets; all operations on all pairs of sizes of a grid (to 3000, also with all hashes equal or only three of them); sequential, parallel and fan-out-4 builds.')

t('C03', EXH + 'every persistent operation sequence up to a depth, every live version re-observed after every step',
  'Exhaustive over all operation sequences (element-wise, binary, builder, map and IntSet operations) up to the stated depth, '
  'all versions kept alive and completely re-observed; covers aliasing through spare slice capacity and arguments that the callee could overwrite or keep.')
t('C04', EXH + 'all pairs of reachable representations compared with set equality and inclusion of the model',
  'Exhaustive: all ordered pairs of reachable representations up to 4 elements for every collision shape, and per-content '
  'representatives beyond; all pairs of sizes of a grid; several element kinds.')
t('C05', EXH + 'all reachable representations grouped by content; hash of each for several seeds, and use as element and key',
  'Exhaustive over reachable representations of Set, Map, IntSet and KeyValue in the bounded universes; seeds from a fixed list.')
t('C06', EXH + 'all reachable representations iterated to the end and beyond; all interleavings of two or more iterators',
  'Exhaustive interleavings of two iterators over all reachable small states, three over selected ones.')
t('C07', EXH + 'all weak orders on the universe times all reachable states times all n',
  'Exhaustive over all strict weak orders (4-5 elements; all permutations beyond) and all reachable states of the bounded universes; '
  'several orders, also closures of one function, over one set at sizes beyond 3000.')
t('C08', EXH + 'every sequence of builder calls up to a depth, with inspection calls in every position',
  'Exhaustive sequences of Add/Remove/inspect/Finish up to the stated depth for every collision shape, and shorter ones for every '
  'capacity of a list of capacities and prior fill.')
t('C09', EXH + 'reachability fixpoint over all Map histories per key-collision shape, against an array model',
  'Exhaustive: every Map state reachable by With/Without over bounded keys and values, all lookup methods compared.')
t('C10', EXH + 'all pairs of reachable Map representations for Update and Merge with several resolvers',
  'Exhaustive for all pairs of reachable representations (bounded keys and values); sequential, parallel and fan-out-4 builds.')
t('C11', EXH + 'all reachable Map states times all predicates, key subsets and mappers; all constructor argument sequences',
  'Exhaustive in the bounded universes.')
t('C12', EXH + 'every sequence of builder calls up to a depth, with inspection calls in every position',
  'Exhaustive sequences of Put/Remove/inspect/Finish up to the stated depth for every key-collision shape, and shorter ones for every '
  'capacity of a list of capacities and prior fill.')
t('C13', EXH + 'all reachable states times all predicates, mappings and key functions of the universe',
  'Exhaustive over all functions from the universe to a small codomain; numeric constructors exhaustively for small ranges and at '
  'the ends of the int range.')
t('C28', EXH + 'all pairs of reachable Map representations compared with equality of the model',
  'Exhaustive: all ordered pairs of reachable representations of the bounded universes.')
t('C16', EXH + 'reachability fixpoint over all IntSet histories on adversarial integer universes, for every integer type',
  'Exhaustive over all With/Without/NewIntSet histories of universes around cell borders, zero and the extremes of each type.')
t('C17', EXH + 'all pairs of reachable IntSet representations for every binary operation; all predicates and mappings',
  'Exhaustive for all pairs of reachable representations of the bounded universes, all predicates, several mappings.')
t('C18', EXH + 'every lazy expression up to a depth, under every sequence of queries and (partial) iterations up to a depth',
  'Exhaustive over expression trees of bounded depth, also ones that share operand objects, and query sequences of bounded length '
  'against bit-set evaluation; predicates and mappers must be applied to elements only; every operation at every size of a grid. '
  'Expressions with the powerset of an empty set as operand are excluded (known finding pinned by existing tests).')
t('C19', EXH + 'every lazy expression up to a depth, fast queries before and after every query sequence up to a depth',
  'Exhaustive over expression trees of bounded depth; a fast query that answers must answer as the model does, also for expressions sharing objects.')
t('C21', EXH + 'all pairs of lazy expressions up to a depth, evaluated or not, compared with equality of the model; hashes for several seeds',
  'Exhaustive over pairs of expressions of bounded depth, in both states of evaluation, on separate and on shared operand objects.')
t('C22', EXH + 'all tuples of relations over bounded attributes and values against relational algebra on Go slices',
  'Exhaustive over all pairs (and selected triples) of relations with bounded headings and domains; headings of up to 6 attributes and large relations at chosen '
  'contents.')
t('C23', EXH + 'all relations over bounded attributes and values, nested on every attribute set and unnested',
  'Exhaustive over all relations of bounded headings and domains and every proper attribute subset to nest.')
t('C24', EXH + 'all reachable Set, Map, IntSet states and builders of bounded universes, every formatting verb, decoded back and compared',
  'Exhaustive over all reachable states of bounded universes; output is parsed back and compared as a multiset; every size of a grid to 70 000.')
t('C25', EXH + 'all values of windows at both ends and across the word of both BitIterator types, all positions and sequences up to a depth',
  'Exhaustive over all 16-bit patterns at several offsets and all operation sequences up to a depth.')
SCH = 'stateless model checking of the real code under a controlled scheduler: '
t('C14', SCH + 'all goroutine interleavings (source-set dynamic partial-order reduction), else all within a preemption or delay bound, of parallel operations',
  'Every channel, sync and sync/atomic operation of the working tree is rewritten at build time into scheduling points of a '
  'cooperative scheduler; for every small operand pair every schedule (or all within the stated bound) is executed, and result, '
  'count, termination and leaked goroutines checked, for three numbers of parallel levels and fewer processors than children. Sequentially consistent; races are covered by the race-detector configurations.')
t('C15', SCH + 'clients sharing Set, Map and IntSet values, all interleavings within bounds, each under the race detector and against the model',
  'Every schedule of the enumerated client programs runs under the Go race detector with scheduler hand-offs invisible to it, so '
  'only the synchronisation of the code itself orders accesses; results compared with sequential ones.')
t('C20', SCH + 'goroutines querying, iterating and deriving from one lazy set, all interleavings of single operations, bounded preemptions of programs',
  'Every pair of operations on every enumerated lazy expression (one and two memoised levels), in every schedule of atomic accesses, '
  'also under the race detector; iteration steps and callbacks interleaved within a preemption bound; contents re-checked afterwards.')
t('C26', EXH + 'all contents and pairs of contents of small universes in every build and run-time configuration of a matrix, against the model',
  'Every configuration (fan-out tags x FROZEN_CONCURRENCY x GOMAXPROCS x hash seeds: all pairs of values in the quick tier, all combinations in the '
  'thorough one) runs the whole interface over all pairs of subsets of 5-6 elements, all size thresholds, and sets whose hashes differ in few bits at every depth, against one model.')
t('C29', EXH + 'all contents and pairs of contents over universes of many types, elements in several forms that are the same element',
  'Exhaustive over all subsets, pairs of subsets and forms of 4-6 elements of about 30 kinds of types; every operation of Set, Map, builders and lazy sets.')
t('C30', EXH + 'every size up to a bound, growing and shrinking, and every power-of-two threshold up to 2^18, all operations on all pairs of structured parts',
  'Every size up to 500 (1500 in the thorough tier) for seven hash distributions and three orders; all operations at every size up to 100 (300) and '
  'around every power of two up to 2^18 (2^20); contents are structured parts, not all subsets.')
t('C27', SCH + 'every operation x every invocation of a callback made to panic x every schedule of the parallel evaluation within a delay bound',
  'Every call of every callback (predicates, mappers, resolvers, orders, key functions, Equal, Same, Hash, MarshalJSON) of about 75 operations panics in turn, '
  'sequentially, in parallel, and in every schedule with up to 2 (3) delays; afterwards all existing values and a repetition of the operation must be right.')
