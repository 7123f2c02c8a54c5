"""What each check runs and how its evidence describes a case."""
_B = "Both cargo profiles (overflow and debug assertions on / off) run different cases of each workload. "


def _r(s):
    return _B + s + " Distinct = different hash of the whole history of generated arguments; non-trivial = " 


CHECKS = {
    "C01": dict(rule=_r("Histories of find/is_same/join/size/groups on 0..n elements, interleaved at random with heavy use of non-root members; every 4-join history on 4 elements; each answer compared with explicit set lists.") + "at least one join merged two sets.",
                exhaustive=["all 65536 sequences of 4 joins over 4 elements"]),
    "C02": dict(rule=_r("Histories of additions, prefix and range sums, partition_point and search on trees built from a slice or by additions; each answer compared with a plain array.") + "the array is not empty.",
                exhaustive=["every length 0..=130 (quick) with every prefix and range boundary"]),
    "C03": dict(rule=_r("Histories of set/get/prod/all_prod/max_right/min_left over free (sequence), hashed, affine and built-in monoids; each answer compared with the sequential fold, searches with a linear scan, as well as with predicates that accept only the exact product of one boundary (so that any other product or grouping shows). Sizes of tens of thousands in a few cases.") + "the array is not empty.",
                exhaustive=["every length 0..=69 (quick) with every l <= r and every answer of both searches"]),
    "C04": dict(rule=_r("Histories of set/get/prod/all_prod/apply/apply_range/max_right/min_left over free monoids with free actions, affine, max-add, min-assign, clamping (maps that move the identity), sum; each answer compared with an array updated element by element, searches also with exact-product predicates. Sizes of tens of thousands in a few cases.") + "at least one range update reached an element."),
    "C05": dict(rule=_r("Tables over idempotent associative operations, commutative or not (intervals, first/last occurrences, min, max, gcd, and, or, left/right zero); each answer compared with the fold of the range.") + "the table has at least two elements.",
                exhaustive=["every range of every length 0..=149 (quick)"]),
    "C06": dict(rule=_r("Histories of push/pop/peek/append/clear/len/into_sorted_vec with many ties on several element types; each answer compared with a sorted multiset.") + "at least two elements were held.",
                exhaustive=["every push order of 6 elements with every interleaving of pops"]),
    "C07": dict(rule=_r("Weighted digraphs (zero weights, parallel edges, loops, unreachable parts, adversarial decrease-key chains, near-overflow weights); distances compared with Bellman-Ford or a feasibility and tightness certificate.") + "some vertex other than the source is reachable.",
                exhaustive=["all weight assignments from a 5-value set (absent included) to the 6 arcs of 3 vertices, all sources"]),
    "C08": dict(rule=_r("Digraphs of many shapes; components compared with the reachability closure or an independent Kosaraju, numbering checked on every arc.") + "there is at least one arc.",
                exhaustive=["all digraphs on 0..=4 vertices"]),
    "C09": dict(rule=_r("Bipartite graphs built with solve calls interleaved; each answer compared with exhaustive search, Hopcroft-Karp or a Koenig vertex-cover certificate; graphs of tens of thousands of vertices are unions of small blocks.") + "there is at least one edge."),
    "C10": dict(rule=_r("Networks with parallel, antiparallel and loop arcs built with get_max_flow calls interleaved, twelve capacity types; each answer compared with the minimum over all cuts or an independent Edmonds-Karp with its cut; deep layered networks included.") + "the maximum flow is positive."),
    "C11": dict(rule=_r("Trees of ten shapes, all roots; ancestor, lca, distance, depth compared with walking up.") + "at least two vertices.",
                exhaustive=["all labelled trees on 1..=6 vertices with every root and every pair"]),
    "C12": dict(rule=_r("Trees of ten shapes with histories of path/subtree/vertex updates and folds over commutative monoids; each answer compared with a per-vertex array.") + "at least one update and one fold on two or more vertices.",
                exhaustive=["all labelled trees on 1..=5 vertices with every root and every pair"]),
    "C13": dict(rule=_r("Moduli 1..=2^31 of every kind (static and run-time), boundary-biased operands, every primitive operand type, every operand form; each result compared with exact integers.") + "the modulus exceeds 1.",
                exhaustive=["every pair of residues for every run-time modulus below 90 (quick)"]),
    "C14": dict(rule=_r("Residues over prime and composite static and run-time moduli; inverses verified by multiplication, divisions by multiplying back, non-units must panic.") + "the residue is a unit, or was refused.",
                exhaustive=["every residue of every run-time modulus below 300 (quick)"]),
    "C15": dict(rule=_r("Programs of 2 to 6 threads with the modulus published by spawn, barrier, channel, mutex or flag, other ids changed meanwhile, set_modulus racing with itself (same value) and with readers that accept either value, phases; every thread checks each arithmetic result. The same programs run under Miri's race detector with varied scheduler seeds (and ThreadSanitizer in the thorough tier).") + "at least two threads computed."),
    "C16": dict(rule=_r("Tables over several prime moduli; every choose(n, k) and perm(n, k) of small tables compared with Pascal's triangle and products, large ones sampled up to the modulus where that fits.") + "the table holds n >= 2.",
                exhaustive=["every n <= 89 (quick), k <= n for each of the moduli"]),
    "C17": dict(rule=_r("Pairs of every primitive integer type (boundary-biased); gcd compared with a scan or Euclid in 128 bits, Bezout identity verified, lcm by definition.") + "neither value is 0 or 1.",
                exhaustive=["every pair of i8 and of u8"]),
    "C18": dict(rule=_r("Congruence systems with hidden solutions or contradictions; results compared with brute force or certified against every congruence and the exact lcm.") + "at least one congruence with modulus > 1.",
                exhaustive=["every pair of moduli up to 12, every first coefficient and every right side, five second coefficients (0, 1, -1, m-1, m/2)"]),
    "C19": dict(rule=_r("Sequences (periodic, Fibonacci, Thue-Morse, random over small alphabets, user types with custom equality); both functions compared with their definitions or hashing.") + "length at least 2.",
                exhaustive=["every binary and ternary string up to the stated length"]),
    "C20": dict(rule=_r("Pattern sets (nested, repeated, overlapping, one-letter, several alphabets and offsets) and texts; the listing, the counts and the longest-match search compared with naive search.") + "at least one pattern occurs.",
                exhaustive=["every list of one or two binary patterns of length <= 3 (thorough: three) over every binary text of length <= 6"]),
    "C21": dict(rule=_r("Texts generated from a token list and random Unicode white space; each read compared with the next token, typed reads with the value it was printed from.") + "at least one token."),
    "C22": dict(rule=_r("Recursive closures of arity 0..9 with captured state, called repeatedly, against the named function; value, arguments in position and effect log compared. A further program, unoptimised, repeats this with closures that own and mutate the state they touch while calling themselves (this is the known finding in optimised builds, where fixed programs of that kind are run and reported).") + "the closure called itself."),
    "C23": dict(rule=_r("Hostile programs: containers of tracked elements with user operations that panic at a chosen point or answer at random, out-of-contract arguments, scrambled public fields, threads. Ledger of element lifetimes natively; the same programs and the in-contract workloads of the other monitors under AddressSanitizer/LeakSanitizer; the same programs under Miri (Tree Borrows).") + "the program reached its end with the ledger checked.",
                asan_bins=["c23", "c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09", "c10", "c11", "c12", "c13", "c16", "c19", "c20", "c21", "c22"],
                assumptions=["aliasing is judged by Tree Borrows, which is more permissive than Stacked Borrows", "the listed known finding (closure that mutates state it owns while calling itself) is reported, not counted as a violation"]),
    "C24": dict(rule=_r("Twin objects receive the same accepted calls; one also receives calls that violate one stated precondition. The call must panic in both builds and the twins must keep answering alike.") + "at least one call was rejected."),
    "C25": dict(rule=_r("Counts of user-supplied operations (monoid, comparison, equality, predicate) per call against the advertised bound with an explicit constant; adversarial families included. Where nothing is user-supplied (union-find depth, Dijkstra with many outdated entries, lifting on a path, long failure chains, token reading, deep components) the case runs on a small stack or under a CPU bound tens of times what a quasi-linear computation needs.") + "the structure has at least two elements.",
                assumptions=["operations the user supplies are counted; elsewhere only a generous CPU bound or stack size can tell, so a loss of a constant or logarithmic factor there is not seen"]),
    "C26": dict(rule=_r("The crate-private kernels, through a guarded re-export, against a sieve, trial division and 128-bit arithmetic.") + "any call of a kernel.",
                exhaustive=["is_prime on every n < 2^31 (quick: the two builds share the blocks; thorough: both take all)"]),
    "C27": dict(rule=_r("Triples of every primitive type for the four monoids (8-bit types exhaustively in two arguments), constants by definition, both logarithms at every power boundary.") + "every case.",
                exhaustive=["ceil_lg of every u32 is covered by blocks at 65536 values per case", "every pair of 8-bit values"]),
    "C28": dict(rule=_r("A child process calls the macro at many sites; the parent computes what the child must print and evaluate. In the fast profile nothing may be printed or evaluated.") + "the child was run."),
    "C29": dict(rule=_r("Residues of static and run-time moduli as values: Display, Debug, FromStr on decimal text of any 64-bit value, Eq, Hash, Default.") + "the modulus exceeds 1."),
    "C30": dict(rule=_r("Two to six scripts (one object each, 23 components with varied type parameters, one call per step) are first run each alone in a process of its own with captured streams, then together: one after another, interleaved on one thread, called from inside each other's user operations, handed between threads under a random schedule, on free-running threads, one object asked by several threads; every answer compared with the one given alone. The same scripts are compared between the two builds.") + "every case.",
                assumptions=["the run-time modulus of an identifier is shared by design: one script per identifier", "free choices (representatives, order of groups, numbering) are the implementation's, but must be made the same way every time"]),
    "C31": dict(rule=_r("A counting allocator watches every component: bytes held after construction and after each call against 8 times the natural size of the content plus 4 KB, temporaries of each call likewise, and what is left after the object is gone (also after calls that panicked, and after thousands of short-lived objects).") + "the object is not trivial (more than one element in the sized workload).",
                assumptions=["constants are generous: only growth with the number of calls, a higher order of space, or memory not given back is seen", "lazily built tables of up to 64 KB would be tolerated", "the heap is charged for the most elements it ever held"]),
    "C32": dict(rule=_r("One history per case runs on plain integers and on carriers of the same integers that own memory, borrow with a short lifetime, are confined to their thread, span 1 KB, are aligned to 128 bytes or have no size; on a user-defined integer type whose text, maximum and debug form differ from the built-in ones; on arguments and outputs that cannot be copied, compared or printed. Answers translated back must agree.") + "the history gave at least one answer.",
                assumptions=["the bounds of the pinned tree are the contract: a program that compiles against it and no longer does (while the other monitors compile) is a violation"]),
}
