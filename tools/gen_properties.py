#!/usr/bin/env python3
"""Writes ../properties.jsonl (the text lives here so that it stays readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DS, GR, MA, MI, ST = ("src/data_structure/", "src/graph/", "src/math/", "src/misc/", "src/string/")

p("C01", "Union-find answers equal the equivalence closure of the joins",
  "After any history of joins on n elements, two elements are reported as same exactly when a chain of joins connects them, a join returns true exactly when it merges two previously separate sets, the reported size of an element is the cardinality of its set, and the groups listing is a partition of 0..n into exactly those sets. All members of a set share one representative, which belongs to the set; queries change no answer.",
  ["histories", "inputs"], "every n and every interleaving of find/is_same/join/size/groups calls on valid indices",
  "There is no test of union-find at all; correctness depends on which members (roots or not) the earlier joins named.",
  [DS+"union_find.rs"], [("join links the two roots and adds sizes at the root; find compresses paths", DS+"union_find.rs:16-45")],
  ["return values of find/is_same/join/size/groups"], [("fa/sz", "parent forest and set sizes at roots", DS+"union_find.rs:1-5")])

p("C02", "Fenwick tree answers equal a plain array under every update history",
  "For any initial array (empty included) and any history of point additions, every prefix sum and every range sum equals the one computed on a plain array, whether the tree was built from a slice or grown by additions. The partition-point and search queries return exactly what the standard partition_point returns on the prefix-sum array for a predicate that is partitioned over it, including 0 for an empty tree and n when nothing fails.",
  ["histories", "inputs"], "every length >= 0, element type and history of add/pref/sum/partition_point/search in range",
  "One 5-element unit test and doc-tests on [1,2,3,4,5]; no empty tree, no power-of-two boundary, no interleaving of add with search.",
  [DS+"fenwick_tree.rs"], [("lowbit walks over the implicit tree", DS+"fenwick_tree.rs:26-64"), ("binary descent over powers of two", DS+"fenwick_tree.rs:102-117")],
  ["return values"], [("ary", "partial sums over lowbit ranges", DS+"fenwick_tree.rs:1-4")])

p("C03", "Segment tree products and searches equal the sequential fold",
  "For any monoid, commutative or not, and any history of point assignments, the product over any range equals the left-to-right fold of the current values (the identity for an empty range), and a point read returns the last value assigned. For any predicate that is true on the identity and monotone, the right-search from l returns the largest r, and the left-search from r the smallest l, such that the predicate holds on the product of the range.",
  ["histories", "inputs"], "every length >= 0, associative operation with identity, history of set/get/prod/all_prod/max_right/min_left and monotone predicate",
  "One unit test with a commutative idempotent operation (max) on one 10-element array: it cannot see operand order, double counting or other lengths.",
  [DS+"segtree.rs"], [("bottom-up update and two-sided walk with separate left/right accumulators", DS+"segtree.rs:33-80"), ("descents in max_right/min_left", DS+"segtree.rs:84-160")],
  ["return values", "arguments passed to the user's operation"], [("d", "heap-ordered products", DS+"segtree.rs:183-188")])

p("C04", "Lazy segment tree behaves as an array with element-wise range updates",
  "For any monoid and any family of maps acting on it, commuting or not, every history of point assignments, point and range applications, point reads, range products and searches returns what a plain array returns on which each application was performed element by element in the order issued. Reads, searches and debug formatting never fail on arguments in range and never change what later operations return.",
  ["histories", "inputs"], "every length >= 0, monoid with a map monoid acting on it, and interleaving of set/get/apply/apply_range/prod/all_prod/max_right/min_left",
  "One test with max/add (commuting maps, idempotent product) and five updates on one array; pending maps never meet in a non-commuting order.",
  [DS+"lazy_segtree.rs"], [("push/all_apply composition order and update after range apply", DS+"lazy_segtree.rs:106-165,262-280"), ("push before descend in prod/max_right/min_left", DS+"lazy_segtree.rs:62-100,170-250")],
  ["return values"], [("d/lz", "node products and pending maps", DS+"lazy_segtree.rs:250-260")])

p("C05", "Sparse table range queries equal the fold of the range",
  "For any slice (building from an empty one included) and any associative idempotent operation, commutative or not, the query on every non-empty range inside the slice returns the left-to-right fold of exactly the elements in the range, and never depends on the filler value given at construction.",
  ["inputs"], "every slice, idempotent associative operation, filler value and non-empty range",
  "Tests use min over arrays of length 8 and 1000 with filler 0 that is never below the data's minimum in range; no other lengths, operations or operand order.",
  [DS+"sparse_table.rs", MI+"util.rs"], [("doubling construction and overlapping two-block query", DS+"sparse_table.rs:18-41"), ("lg", MI+"util.rs:1-3")], ["return values"])

p("C06", "Min-heap returns the multiset it holds, smallest first",
  "Under any history of push, pop, peek, append, clear and len, pop and peek return a least element of the elements currently held (none when empty), the length is the number held, append moves every element of the other heap and empties it. Draining to a sorted vector yields exactly the held elements in ascending order; no element is lost, duplicated or invented.",
  ["histories", "inputs"], "every totally ordered element type and history of operations on one or more heaps",
  "There is no test of the heap.",
  [DS+"min_heap.rs"], [("Reverse wrapper over the standard max-heap", DS+"min_heap.rs:1-55")], ["return values"])

p("C07", "Shortest-path distances are exact, and unreachable means none",
  "For any directed graph with non-negative integer weights, parallel edges, self-loops and zero weights included, and any source, the distance reported for each vertex is the minimum total weight over all paths from the source, the source has distance 0, and exactly the vertices no path reaches are reported as having none, provided the sums along paths fit the integer type.",
  ["inputs"], "every weighted digraph and source whose path sums fit in usize",
  "The graph modules have no tests at all.",
  [GR+"shortest_path.rs", DS+"min_heap.rs"], [("lazy-deletion priority queue and unchecked unwrap behind an is_none test", GR+"shortest_path.rs:2-19")], ["returned distances"])

p("C08", "Strong components are exact and numbered in reverse topological order",
  "For any directed graph, two vertices get the same component number exactly when each reaches the other, the component count equals the number of distinct numbers and the numbers are exactly 0..count, and every edge between different components goes from a higher number to a lower one.",
  ["inputs"], "every digraph, disconnected ones, self-loops, parallel edges and the empty graph included",
  "The graph modules have no tests.",
  [GR+"tarjan.rs"], [("low-link with on-stack test and stack pop", GR+"tarjan.rs:22-49"), ("numbering by completion order", GR+"tarjan.rs:51-68")], ["returned (count, labels)"])

p("C09", "Bipartite matching returns the maximum, and stays right as edges arrive",
  "For any bipartite graph, isolated vertices, parallel edges and sides of unequal size included, the returned size is that of a maximum matching. Asking again without change returns the same size, and after adding more edges asking again returns the maximum matching of the enlarged graph.",
  ["inputs", "histories"], "every bipartite graph and every interleaving of add_edge and solve",
  "The graph modules have no tests; maximality depends on augmenting through already matched vertices.",
  [GR+"bipartite_matching.rs"], [("alternating-path search with per-round visited marks", GR+"bipartite_matching.rs:24-48"), ("rounds until no augmentation", GR+"bipartite_matching.rs:50-67")], ["returned sizes"])

p("C10", "Maximum flow equals the minimum cut, and stays right as edges arrive",
  "For any directed network with non-negative capacities whose maximum flow fits the capacity type, and distinct source and sink, the returned value equals the minimum cut capacity, whatever integer type holds the capacities. After adding more edges, asking again for the same pair returns exactly the increase of the maximum flow (zero if nothing was added).",
  ["inputs", "histories"], "every network, capacity type and interleaving of add_edge and get_max_flow for one source/sink pair",
  "The graph modules have no tests; errors in residual updates show only when a later augmentation must undo an earlier one.",
  [GR+"max_flow.rs"], [("level graph, current-arc blocking flow, paired residual edges", GR+"max_flow.rs:28-70"), ("accumulation over phases", GR+"max_flow.rs:79-89")], ["returned values"])

p("C11", "Tree ancestor, LCA and distance answers equal the walked-up ones",
  "For any tree and any root, the ancestor test is true exactly when the first vertex lies on the path from the root to the second (a vertex counts as its own ancestor), the lowest common ancestor of two vertices is the deepest vertex that is an ancestor of both, and the distance is the number of edges on the path joining them. The published depth of each vertex is its distance to the root and the published 2^j-th ancestors are exact, stopping at the root. The vertices of a subtree are exactly those whose published entry time lies between its entry time (included) and its exit time (excluded).",
  ["inputs"], "every tree (any shape, labelling, adjacency order) with at least one vertex, every root and pair of vertices",
  "The graph modules have no tests.",
  [GR+"binary_lifting.rs", MI+"util.rs"], [("entry/exit times and jump table", GR+"binary_lifting.rs:12-44"), ("descending jump search", GR+"binary_lifting.rs:46-69")], ["is_ancestor/lca/dis", "public fields dep, pa, tin and tout"])

p("C12", "Path and subtree updates and folds on a tree equal the vertex-wise ones",
  "For any tree, root and commutative monoid with maps acting on it, any history of vertex assignments, path updates, subtree updates and vertex, path and subtree queries returns what a plain per-vertex array returns when each update touches exactly the vertices of the path (both ends included) or of the subtree, once each. Initial values given at construction belong to the vertices they were given for. The published position of each vertex is its own, and is where the published inner tree holds its value.",
  ["inputs", "histories"], "every tree, root, initial values and history of set/get/apply_path/path_prod/apply_subtree/subtree_prod",
  "The graph modules have no tests; errors show only on trees with several heavy chains and particular endpoint orders.",
  [GR+"heavy_light_decomp.rs", DS+"lazy_segtree.rs"], [("heavy child choice and position assignment", GR+"heavy_light_decomp.rs:54-90"), ("chain climbing", GR+"heavy_light_decomp.rs:92-117"), ("subtree as one interval", GR+"heavy_light_decomp.rs:119-125")], ["return values"])

p("C13", "Modular integers compute exactly in Z/mZ with canonical representatives",
  "For every modulus from 1 to 2^31, fixed at compile time or set at run time, construction from any primitive integer of any width and sign, negation, addition, subtraction, multiplication, exponentiation, sums and products yield the residue that exact integer arithmetic yields, always represented by a value in 0..m. Every operand form (by value, by reference, against a plain integer, compound assignment, iterator fold, via the shared trait) agrees.",
  ["inputs", "configurations"], "every modulus 1..=2^31, every integer of every primitive type, every operation sequence",
  "Tests use one modulus (1e9+7) and a few operands; the run-time modulus type has no arithmetic test, and m=1, m=2, m=2^31 and extreme operands are untried.",
  [MI+"modint.rs", MA+"internal_math.rs"], [("add/sub with one conditional correction", MI+"modint.rs add_impl/sub_impl"), ("Barrett multiplication", MA+"internal_math.rs mul_mod"), ("lossless reduction of each primitive type", MI+"modint.rs RemEuclidU32 impls"), ("square-and-multiply", MI+"modint.rs pow")], ["val() of results"])

p("C14", "Modular inverse and division are exact, or refuse",
  "For every modulus from 1 to 2^31 and every residue coprime to it, the inverse times the residue is 1 and division is multiplication by the inverse, for prime and composite moduli alike. When the residue has no inverse the operation panics; it never returns a wrong value.",
  ["inputs", "configurations"], "every modulus 1..=2^31 and residue, both modular types, hinted-prime and not",
  "Tests divide in one prime field only; the extended-gcd path, composite moduli and non-invertible residues have no modular test.",
  [MI+"modint.rs", MA+"internal_math.rs"], [("Fermat power for hinted primes", MI+"modint.rs inv"), ("extended gcd with gcd==1 check", MI+"modint.rs inv_for_non_prime_modulus, internal_math.rs inv_gcd")], ["val() of results", "panic or not"])

p("C15", "A run-time modulus is global to its id, isolated from others, race-free",
  "Once a run-time modulus has been set for an id, every thread that computes afterwards with that id reads that modulus and computes modulo it, with no data race, however many threads compute concurrently. Other ids keep their own modulus, and an id whose modulus was never set uses the documented default 998244353.",
  ["schedules", "histories", "configurations"], "every interleaving of computing threads after the modulus was set, every set of ids, sequential re-setting included",
  "The only test sets a modulus and reads it back in the same thread of a fresh process.",
  [MI+"modint.rs"], [("per-id static holding modulus and reciprocal in atomics", MI+"modint.rs Barrett/Id/DefaultId")], ["modulus() and arithmetic results in every thread", "Miri and ThreadSanitizer race reports"], [("m/im", "modulus and its reciprocal, must belong together", MI+"modint.rs struct Barrett")])

p("C16", "Factorial table gives exact binomials and falling factorials modulo p",
  "For every prime modulus p and table bound N < p, and all 0 <= k <= n <= N, the number of combinations and of arrangements returned equal n!/(k!(n-k)!) and n!/(n-k)! reduced modulo p.",
  ["inputs", "configurations"], "every N < p, 0 <= k <= n <= N and prime p",
  "The factorial module has no tests.",
  [MA+"factorial.rs", MI+"modint.rs"], [("forward factorials, one inversion, backward inverse factorials", MA+"factorial.rs:9-25"), ("choose/perm products", MA+"factorial.rs:27-37")], ["return values"])

p("C17", "gcd, lcm and Bezout coefficients are exact for every integer type",
  "For every primitive integer type and all operands whose magnitude is representable, the gcd has the mathematical magnitude (and is non-negative for non-negative operands), and the lcm of operands not both zero has the mathematical magnitude whenever that is representable. For signed types the extended version returns x, y, g with a*x + b*y = g and g a gcd of a and b, without overflow.",
  ["inputs"], "every primitive integer type and operand pair (minimum of a signed type excluded)",
  "The number-theory module has no tests.",
  [MA+"number_theory.rs"], [("Euclid loop", MA+"number_theory.rs:3-10"), ("lcm from gcd", MA+"number_theory.rs:12-14"), ("recursive back-substitution", MA+"number_theory.rs:17-23")], ["return values"])

p("C18", "The congruence solver finds the least solution or proves there is none",
  "For any system of congruences a_i*x = b_i (mod m_i) with positive moduli, coprime or not, and coefficients and right sides of any sign, whose solution period fits 64 bits, the solver returns none exactly when no integer satisfies all of them. Otherwise it returns the least non-negative solution together with the positive period of the solution set.",
  ["inputs"], "every finite list of congruences with m_i >= 1 whose period fits i64, the empty list included",
  "The number-theory module has no tests.",
  [MA+"number_theory.rs"], [("incremental merging with extended gcd", MA+"number_theory.rs ex_crt")], ["return value"])

p("C19", "Prefix function and Z function are exact for every sequence",
  "For any sequence over any element type with equality, each entry of the prefix function is the length of the longest proper border of the prefix ending there, and each entry of the Z function beyond the first is the length of the longest common prefix of the sequence and its suffix starting there, with 0 in the first entry. Both return one entry per element (none for the empty sequence).",
  ["inputs"], "every finite sequence, alphabet and element type",
  "The string modules have no tests.",
  [ST+"kmp.rs", ST+"z_algorithm.rs"], [("border fallback chain", ST+"kmp.rs:4-13"), ("Z-box reuse", ST+"z_algorithm.rs:5-16")], ["returned vectors"])

p("C20", "Multi-pattern matching reports exactly the occurrences of every pattern",
  "For any set of non-empty patterns over the configured alphabet, repeated patterns and patterns nested in one another included, and any text over it, the full search lists at every text position exactly the patterns that end there, and the counting search returns for every pattern its number of occurrences, overlapping ones included. The single-result search returns at each position a longest pattern ending there, and none exactly when no pattern ends there.",
  ["inputs", "configurations"], "every pattern list, text, alphabet offset and size",
  "The string modules have no tests; nested and repeated patterns exercise the suffix links.",
  [ST+"aho_corasick.rs"], [("breadth-first failure and output links", ST+"aho_corasick.rs build"), ("output-chain walks", ST+"aho_corasick.rs find_all/find_cnt"), ("single result per position", ST+"aho_corasick.rs find")], ["returned vectors"])

p("C21", "The token reader yields every whitespace-separated token once, in order",
  "For any input text, any mix of typed reads returns the successive whitespace-separated tokens in order, each parsed exactly, none skipped, split or repeated; a vector read consumes and returns exactly the requested number, or panics if there are too few or one cannot be read. A token that is not of the type asked for makes the read panic, which consumes it; no other value is returned in its place. After the last token the optional read returns none and keeps doing so.",
  ["inputs", "histories"], "every input text and every sequence of typed reads",
  "The input module has no tests.",
  [MI+"input.rs"], [("split_whitespace iterator", MI+"input.rs:6-40")], ["returned values"])

p("C22", "Recursive closures compute what the same recursive function computes",
  "For every supported arity and every terminating recursive definition, calling the wrapped closure returns the value that the equivalent named recursive function returns, passes every argument through unchanged and in position, and performs the same sequence of effects on captured state, on every later call as well.",
  ["programs", "inputs"], "every arity 0..=9, argument types, recursion shape and captured state",
  "The recursive-function module has no tests.",
  [MI+"recursive_function.rs"], [("re-entrant call through an UnsafeCell", MI+"recursive_function.rs:31-40"), ("macro instantiation per arity", MI+"recursive_function.rs:45-54")], ["return values", "log of effects"])

p("C23", "Safe use of the library causes no undefined behaviour, leak or double drop",
  "No program that only uses the public safe interface, whatever inputs or closures it passes, triggers undefined behaviour: no out-of-bounds or use-after-free access, uninitialised read, invalid reference aliasing, unchecked unwrap of nothing, or data race. Every element handed to a container is dropped exactly once, by the time the container is gone.",
  ["programs", "inputs", "schedules"], "every safe program over the public interface",
  "Ordinary tests cannot observe undefined behaviour or lost drops; the unsafe blocks are in modules with no test.",
  [GR+"shortest_path.rs", MI+"recursive_function.rs", MI+"modint.rs", DS+"min_heap.rs", DS+"segtree.rs", DS+"lazy_segtree.rs"], [("unwrap_unchecked guarded by is_none", GR+"shortest_path.rs:13"), ("UnsafeCell re-entrancy", MI+"recursive_function.rs:37"), ("atomics for the shared modulus", MI+"modint.rs Barrett")], ["Miri, AddressSanitizer, LeakSanitizer reports", "drop ledger of instrumented elements"])

p("C24", "Calls outside the checked domain panic and leave the object unchanged",
  "In debug and release builds alike, a call that violates a stated precondition panics instead of returning a value: positions or ranges out of bounds for the segment trees and union-find, reversed or empty ranges where one is required, a search predicate false on the identity, an empty pattern, an out-of-range root, source or sink, mismatched initial values, k > n or n beyond the table, a zero modulus, a missing or unparsable token. An object whose call was so rejected afterwards gives the same answers as if the call had not been made, except that the token reader has consumed the token it rejected.",
  ["inputs", "histories"], "every invalid argument of the listed kinds, at every point of a history",
  "No test passes an invalid argument.",
  [DS+"segtree.rs", DS+"lazy_segtree.rs", DS+"union_find.rs", DS+"sparse_table.rs", GR+"max_flow.rs", GR+"heavy_light_decomp.rs", MA+"factorial.rs", ST+"aho_corasick.rs", MI+"modint.rs", MI+"input.rs"],
  [("assert! at entry, before any mutation", DS+"segtree.rs, lazy_segtree.rs, union_find.rs"), ("assert!/panic! elsewhere", "factorial.rs, max_flow.rs, heavy_light_decomp.rs, aho_corasick.rs, modint.rs set_modulus")], ["panic or return", "answers after the rejected call"])

p("C25", "Operation costs stay within the advertised asymptotic bounds",
  "For every size and every history, point and range operations and searches of the segment trees and the Fenwick tree, and pushes and pops of the heap, use a number of user-supplied operations logarithmic in the length, construction a linear one, a sparse-table query a constant one after n log n at construction, the prefix and Z functions a linear number of element comparisons, and tree-path operations O(log^2 n) products. The maximum-flow computation stays within O(V^2 E) capacity comparisons. Union-find operations recurse no deeper than logarithmically in the size of the set, and shortest paths, strong components, ancestor tables, pattern searches and token reading take time quasi-linear in the input and the output.",
  ["inputs", "histories"], "every size, input shape and history, adversarial shapes included",
  "Tests check values on tiny inputs; a lost shortcut leaves all values right.",
  [DS+"segtree.rs", DS+"lazy_segtree.rs", DS+"fenwick_tree.rs", DS+"min_heap.rs", DS+"sparse_table.rs", DS+"union_find.rs", ST+"kmp.rs", ST+"z_algorithm.rs", ST+"aho_corasick.rs", GR+"heavy_light_decomp.rs", GR+"max_flow.rs", GR+"shortest_path.rs", GR+"binary_lifting.rs", GR+"tarjan.rs", MI+"input.rs"],
  [("tree walks", DS+"*.rs"), ("amortised pointers", ST+"kmp.rs, z_algorithm.rs"), ("heavy-first chains", GR+"heavy_light_decomp.rs"), ("current-arc pointers", GR+"max_flow.rs cur")], ["counters inside user-supplied operations, predicates, comparisons, capacity types", "CPU time and stack where nothing is user-supplied"])

p("C26", "Number-theoretic kernels are exact over their whole stated domain",
  "The primality test answers correctly for every 32-bit signed integer; the primitive root returned for a prime generates its whole multiplicative group and is the least one; the modular power, the non-negative remainder, the gcd-with-inverse and the reciprocal-based modular product return the exact mathematical result for all arguments in their documented domains, including every modulus up to 2^31 for the product.",
  ["inputs"], "every n in i32 (primality), every prime below 2^31 (root), every in-domain argument of the others",
  "Tests sieve up to 10^6 and try a handful of larger values; strong pseudoprimes, extreme moduli and near-overflow operands are untried.",
  [MA+"internal_math.rs"], [("deterministic Miller-Rabin bases 2, 7, 61", MA+"internal_math.rs is_prime"), ("factor m-1 and test", MA+"internal_math.rs primitive_root"), ("Barrett reduction", MA+"internal_math.rs mul_mod")], ["return values through a guarded re-export"], None,
  "crate-private functions: re-exported under cfg(rust_cp_verif)")

p("C27", "Built-in monoids obey the laws; numeric constants and logarithms are exact",
  "Each ready-made monoid (maximum, minimum, sum, product) is associative with a two-sided identity over every supported type and computes the operation it is named for, and the zero, one, least and greatest values of each primitive integer type are right. The floor logarithm of any positive machine word and the ceiling logarithm of any 32-bit word are exact.",
  ["inputs"], "every primitive integer type and value",
  "Only the maximum over i32 and ten ceiling-logarithm values are tested.",
  [MI+"monoids.rs", MI+"util.rs", "src/traits/numeric.rs", "src/traits/monoid.rs"], [("monoid impls", MI+"monoids.rs"), ("constants macro", "src/traits/numeric.rs"), ("leading_zeros arithmetic", MI+"util.rs")], ["return values"])

p("C28", "Debug printing evaluates each expression once and vanishes in release",
  "In a debug build the debug-print macro takes any list of printable expressions (borrowed, moved or temporary), evaluates every argument exactly once, in order, and writes to standard error, and nowhere else, one line (wrapped only where the text of a long expression wraps) that names each expression and shows its debug form. In a release build it prints nothing and evaluates nothing.",
  ["inputs", "configurations"], "every list of expressions, both build profiles",
  "The debug module has no tests.",
  [MI+"debug.rs"], [("macro pair selected by debug_assertions", MI+"debug.rs")], ["stderr and stdout of a child process", "evaluation log"])

p("C29", "Modular integers print, parse, compare and hash by their residue",
  "For every modulus, two modular integers are equal exactly when their residues are equal, equal ones hash equally, the displayed and debug forms are the decimal residue (honouring width and fill), the default is zero, and parsing the decimal form of any 64-bit signed integer gives its residue, so that printing and parsing round-trip.",
  ["inputs", "configurations"], "every modulus 1..=2^31, every residue and every i64 text",
  "No test formats, parses, compares across representations, or hashes.",
  [MI+"modint.rs"], [("display_impl/debug_impl/from_str_impl/hash_impl", MI+"modint.rs InternalImplementations")], ["formatted strings, parsed values, ==, Hasher output"])

p("C30", "Objects are independent, answers deterministic, and the library is silent",
  "Every answer, free choices such as representatives, group order and numbering included, depends only on the object's own construction and earlier calls (for a function: on its arguments), never on other objects of the same or another kind or type parameters, on what ran earlier in the process, on calls of others that were refused or panicked, on which thread makes the call, on calls made meanwhile by other threads or from inside a user-supplied operation, or on the build profile. The only state shared on purpose is the modulus of a run-time identifier. Objects of plain elements can be handed to another thread between calls and asked by several threads at once. Apart from the debug-print macro nothing is written to standard output or standard error.",
  ["histories", "schedules", "configurations"], "every set of objects and every interleaving, nesting or thread schedule of their calls",
  "Every test uses one object of one type in one thread; a static buffer, a cache with too small a key or a stray print shows only with a second object, type parameter or thread.",
  [DS+"segtree.rs", DS+"lazy_segtree.rs", DS+"fenwick_tree.rs", DS+"min_heap.rs", DS+"sparse_table.rs", DS+"union_find.rs", GR+"max_flow.rs", GR+"bipartite_matching.rs", GR+"tarjan.rs", GR+"shortest_path.rs", GR+"binary_lifting.rs", GR+"heavy_light_decomp.rs", MA+"factorial.rs", MA+"number_theory.rs", MI+"modint.rs", MI+"input.rs", MI+"recursive_function.rs", MI+"monoids.rs", MI+"util.rs", ST+"aho_corasick.rs", ST+"kmp.rs", ST+"z_algorithm.rs"],
  [("all state lives in the object's own fields", "src/**/*.rs"), ("per-identifier reduction constants in a static", MI+"modint.rs Id::companion_barrett")], ["return values of every public function", "stdout and stderr of a child process"])

p("C31", "Memory held is bounded by the content, not by the number of calls",
  "An object holds memory linear in its content (times the logarithm of the length for the sparse table and the ancestor table; trie nodes times the alphabet for the pattern automaton, one node per distinct non-empty prefix) however many calls have been made on it; a call's working space is linear in its input, the object and its result; modular arithmetic, the gcd family, token reading and recursive calls accumulate nothing. Dropping an object, a refused call, or a user operation that panics gives back all memory, so that what is held does not grow with the number of objects used and dropped.",
  ["inputs", "histories"], "every size, every number of calls and every number of objects",
  "Tests observe values, never memory; a buffer that is not reset or a table of the wrong order leaves all values right on tiny inputs.",
  [DS+"segtree.rs", DS+"lazy_segtree.rs", DS+"fenwick_tree.rs", DS+"min_heap.rs", DS+"sparse_table.rs", DS+"union_find.rs", GR+"max_flow.rs", GR+"bipartite_matching.rs", GR+"tarjan.rs", GR+"shortest_path.rs", GR+"binary_lifting.rs", GR+"heavy_light_decomp.rs", MA+"factorial.rs", MI+"input.rs", ST+"aho_corasick.rs"],
  [("vectors sized once at construction", "src/data_structure/*.rs, src/graph/*.rs"), ("level count from the logarithm", DS+"sparse_table.rs, "+GR+"binary_lifting.rs"), ("shared prefixes", ST+"aho_corasick.rs insert")], ["a counting global allocator: live and peak bytes per call"])

p("C32", "Generic components work for every type their contract admits",
  "Segment trees, lazy trees, chain decomposition and minimum heap take every element type the monoid, map or order is defined for, sparse tables every copyable type, the border and z functions every type with equality, flow and the gcd family every user-defined integer type, prefix-sum trees every copyable type with addition and a default, token reading every FromStr type (whether or not the type or its error can be printed), recursive functions every argument and output type, pattern automata every alphabet of 1 to 256 byte values. Nothing further is asked (no Copy, Default, Debug, 'static, Send, ordering), neither at compile time nor at run time: owning, borrowed, thread-confined, over-aligned, large and zero-sized types give the answers that plain integers give on the same history.",
  ["inputs", "histories"], "every admitted type, every history",
  "Every test uses built-in integers, for which a tightened bound, a shortcut through the size or the text of a value, or an assumption that values can be copied changes nothing.",
  [DS+"segtree.rs", DS+"lazy_segtree.rs", DS+"fenwick_tree.rs", DS+"min_heap.rs", DS+"sparse_table.rs", GR+"max_flow.rs", GR+"heavy_light_decomp.rs", MA+"number_theory.rs", MI+"input.rs", MI+"recursive_function.rs", MI+"monoids.rs", ST+"aho_corasick.rs", ST+"kmp.rs", ST+"z_algorithm.rs", "src/traits/integral.rs", "src/traits/monoid.rs"],
  [("type parameters and where clauses of every generic item", "src/**/*.rs"), ("Integral", "src/traits/integral.rs"), ("Monoid::S without bounds", "src/traits/monoid.rs")], ["return values of every generic public function, with the element type translated back to integers"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
