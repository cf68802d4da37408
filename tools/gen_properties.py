#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that wording is edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
            "mechanism": [{"name": n, "where": w} for n, w in mech],
            "observe_at": observe, "hook_needed": hook}})

DS = "src/data_structure/"; GR = "src/graph/"; ST = "src/string/"; MA = "src/math/"; MI = "src/misc/"; TR = "src/traits/"

p("P01", "Disjoint-set answers equal the equivalence closure of all joins",
  "After any sequence of joins and queries on a disjoint-set structure over n elements, two elements are reported in the same set exactly when the joins made so far connect them, a join returns true exactly when it merged two different sets, the reported size of an element's set is the number of elements connected to it, and all members of a set share one representative that is itself a member. The listing of groups is a partition of all n elements into exactly those sets, with no empty group. Set lookups stay cheap and do not exhaust a normal thread stack, whatever the order of joins and however many elements there are.",
  ["histories", "inputs"], "all n (including 0), all finite sequences of join / same / find / size / groups calls with valid indices, in any order",
  "There is no test for this module at all; correctness depends on the order of joins between non-root elements, which only histories exercise.",
  [DS + "union_find.rs"], [("union by size with path compression", "UnionFind::join, UnionFind::find")],
  ["find", "is_same", "join return value", "size", "groups"],
  [("fa", "parent forest", "UnionFind"), ("sz", "size of the set, at its root", "UnionFind")])

p("P02", "Min-heap behaves as a multiset that yields its minimum",
  "After any sequence of pushes, pops, peeks, appends, clears and length queries, a min-heap holds exactly the multiset of items pushed or appended and not yet popped or cleared: peek and pop deliver a minimum of it (nothing when it is empty), and length and emptiness agree with it. Appending moves every item of the other heap and leaves that one empty. Converting the heap to a sorted vector returns all its items in sorted order, namely the reverse of the order in which pops would deliver them.",
  ["histories", "inputs"], "all finite operation histories over two heaps, any totally ordered element type, duplicates included",
  "There is no test for this module; a multiset invariant over histories cannot be enumerated by examples.",
  [DS + "min_heap.rs"], [("wrapper that reverses the order of the standard max-heap", "MinHeap")],
  ["pop", "peek", "len", "is_empty", "append", "clear", "into_sorted_vec"])

p("P03", "Sparse table answers every idempotent range query exactly",
  "For every slice, including the empty one, and every associative and idempotent operation, a sparse table built from the slice answers every query on a non-empty half-open range inside it with the operation folded left to right over exactly the elements of that range. The filler value given at construction never influences an answer.",
  ["inputs"], "all slices (length 0 up to large), all ranges l < r <= n, all associative idempotent operations (commutative or not), all filler values",
  "Tests use minimum only, with 0 as filler and two lengths (8 and 1000); other lengths around powers of two, non-commutative operations and filler values are never tried.",
  [DS + "sparse_table.rs", MI + "util.rs"], [("overlapping power-of-two blocks", "SparseTable::from, SparseTable::get"), ("floor log2", "lg")],
  ["get"], [("data", "data[c][i] = fold of 2^c elements from i", "SparseTable")])

p("P04", "Fenwick tree sums equal the sums of the updated array",
  "After building a Fenwick tree empty or from an array and applying any sequence of point additions, every prefix sum and every half-open range sum equals the corresponding sum over the array with the same additions applied. Building from an array is equivalent to building an empty tree and adding the elements one by one.",
  ["histories", "inputs"], "all n (including 0), all initial arrays, all sequences of point additions (the addend may be of another type that can be added) interleaved with all valid prefix and range queries, for any exact numeric element type",
  "The tests use one array of five elements; index arithmetic errors at other lengths and indices are not reached.",
  [DS + "fenwick_tree.rs"], [("binary indexed partial sums", "FenwickTree::add, FenwickTree::pref, FenwickTree::from")],
  ["pref", "sum"], [("ary", "partial sums over lowbit blocks", "FenwickTree")])

p("P05", "Fenwick partition point equals that of the prefix-sum array",
  "For every Fenwick tree, including an empty one, and every predicate that partitions its array of prefix sums (the first element, the first two, and so on), the partition-point query returns the index of the first prefix sum for which the predicate is false, and the number of elements if there is none. The search for a target value on nondecreasing prefix sums returns the index of the first prefix sum that is at least the target.",
  ["inputs", "histories"], "all n (including 0), all update histories, all predicates partitioning the prefix sums, all targets (below, between, equal to, above)",
  "The doc-tests use one array of length 5 without zero elements; ties, other lengths and updated trees are not reached.",
  [DS + "fenwick_tree.rs"], [("binary descent over the implicit tree", "FenwickTree::partition_point, FenwickTree::search")],
  ["partition_point", "search"], [("ary", "partial sums over lowbit blocks", "FenwickTree")])

p("P06", "Segment tree range products equal the left-to-right fold",
  "For every monoid, commutative or not, after any sequence of point assignments to a segment tree of any length (including 0, and including one made of identities), reading a point returns the last value assigned there, the product of a half-open range is the fold of its elements in index order (the identity for an empty range), and the total product is the fold of all elements.",
  ["histories", "inputs"], "all n, all initial vectors, all assignment histories, all ranges 0 <= l <= r <= n, all monoids",
  "The only test uses maximum over ten elements: operand order, lengths that are or are not powers of two, and longer histories are not exercised.",
  [DS + "segtree.rs", MI + "util.rs", TR + "monoid.rs"], [("bottom-up perfect binary tree padded with identities", "Segtree::from, Segtree::set, Segtree::prod")],
  ["get", "prod", "all_prod"], [("d", "node products, leaves from index size", "Segtree")])

p("P07", "Segment tree boundary searches return the extreme valid boundary",
  "For every monoid, every segment tree and every predicate that is true on the identity and monotone (once false on a product, false on every longer one), the rightward search from l returns the largest r such that the predicate holds on the product of [l, r), and the leftward search from r returns the smallest l such that it holds on the product of [l, r). Both are defined for every valid start, including the ends of the array and an empty tree, and leave the tree unchanged.",
  ["inputs", "histories"], "all n, all update histories, all starts 0..=n, all monotone predicates, all monoids",
  "The test tries threshold predicates on one ten-element maximum tree; other lengths, non-commutative products and descents that start mid-block are not reached.",
  [DS + "segtree.rs"], [("climb then descend", "Segtree::max_right, Segtree::min_left")],
  ["max_right", "min_left"], [("d", "node products", "Segtree")])

p("P08", "Lazy segment tree equals an array under range updates and products",
  "For every monoid with a compatible family of maps, commutative or not, after any sequence of point assignments, point updates, range updates and queries on a lazily propagated segment tree of any length, each point read, each range product and the total product equal those of a plain array to which the same operations were applied one element at a time in order. Reads and searches interleaved anywhere in the history never change later answers.",
  ["histories", "inputs"], "all n (including 0), all initial vectors, all finite histories of set / get / apply / apply_range / prod / all_prod / searches, all monoids and map families satisfying the laws (including non-commuting maps)",
  "The only test applies three updates to ten elements with maps that commute; pending updates composed in the wrong order or not pushed down show only in histories of overlapping updates.",
  [DS + "lazy_segtree.rs", TR + "monoid.rs"], [("lazy propagation", "LazySegtree::push, all_apply, update"), ("range decomposition", "LazySegtree::apply_range, LazySegtree::prod")],
  ["get", "prod", "all_prod"], [("lz", "pending map per inner node", "LazySegtree"), ("d", "node products", "LazySegtree")])

p("P09", "Lazy segment tree boundary searches are exact under pending updates",
  "In every state of a lazily propagated segment tree reached by any history of updates, and for every predicate true on the identity and monotone along products, the rightward search from l returns the largest r such that the predicate holds on the current product of [l, r), and the leftward search from r returns the smallest such l. The results take every pending range update into account.",
  ["histories", "inputs"], "all n, all update histories, all starts 0..=n, all monotone predicates",
  "The test searches after a single range update on ten elements; searches that must push several pending levels are not reached.",
  [DS + "lazy_segtree.rs"], [("pushing on the search path", "LazySegtree::max_right, LazySegtree::min_left")],
  ["max_right", "min_left"], [("lz", "pending map per inner node", "LazySegtree")])

p("P10", "Dijkstra returns exact shortest distances",
  "For every directed graph with non-negative integer weights and every source, the returned vector holds for each vertex the length of a shortest path from the source, and nothing for exactly the vertices that cannot be reached. The source has distance 0; zero weights, self-loops, parallel edges and very large weights (as long as path lengths fit the integer type) are all handled.",
  ["inputs"], "all graphs, all weightings whose path sums fit the integer type, all sources",
  "The graph modules have no tests at all.",
  [GR + "shortest_path.rs", DS + "min_heap.rs"], [("lazy-deletion Dijkstra over a min-heap", "dijkstra")],
  ["dijkstra result"])

p("P11", "Tree ancestor, LCA and distance queries are exact",
  "For every tree given as undirected adjacency lists, every root and all pairs of vertices, the ancestor test (a vertex is its own ancestor), the lowest common ancestor and the distance equal those defined by the tree's parent relation. The exposed depths, the 2^k-th ancestors (clamped at the root) and the entry/exit times (nested exactly as the subtrees are, entries a permutation in which a subtree is contiguous) are consistent with that tree.",
  ["inputs"], "all trees with at least one vertex, all roots, all adjacency orders, all vertex pairs",
  "The graph modules have no tests; errors in high ancestor levels need deep trees.",
  [GR + "binary_lifting.rs", MI + "util.rs"], [("Euler times and doubling table", "BinaryLifting::dfs, lca, dis")],
  ["is_ancestor", "lca", "dis", "dep", "pa", "tin", "tout"])

p("P12", "Bipartite matching size is maximum",
  "For every bipartite graph, given as edges between two vertex sets of any sizes, the solver returns the size of a maximum matching. This stays true when it is asked again, and when further edges are added between calls.",
  ["inputs", "histories"], "all bipartite graphs (empty sides, isolated vertices, parallel edges), all edge orders, all histories of edge insertions and solves",
  "The graph modules have no tests; greedy or partial augmentation errors give the right answer on most graphs.",
  [GR + "bipartite_matching.rs"], [("augmenting paths in phases", "AugmentedPath::dfs, AugmentedPath::solve")],
  ["solve"], [("l/r", "current matching", "AugmentedPath")])

p("P13", "Maximum flow value is exact",
  "For every directed network with non-negative integer capacities and every two distinct vertices, the reported maximum flow equals the capacity of a minimum cut, for every supported integer capacity type, as long as the total flow fits that type (single capacities may be as large as the type allows). Asking again, possibly after adding edges, reports exactly the additional flow that has become possible.",
  ["inputs", "histories"], "all networks (parallel and antiparallel edges, self-loops, zero capacities, disconnected), all distinct source/sink pairs, all integer capacity types, all histories of edge insertions and flow calls",
  "The graph modules have no tests; errors in residual bookkeeping show only where flow must be rerouted.",
  [GR + "max_flow.rs", TR + "integral.rs", TR + "numeric.rs"], [("level graph and blocking flow with residual edges", "Dinic::bfs, Dinic::dfs")],
  ["get_max_flow"], [("e", "residual capacities, reverse edge at index ^ 1", "Dinic")])

p("P14", "Strongly connected components and their order are exact",
  "For every directed graph, two vertices get the same component number exactly when each can reach the other, and the numbers used are exactly 0 up to the returned count minus one. Numbers follow reverse topological order: every edge between different components goes from the higher number to the lower.",
  ["inputs"], "all directed graphs, including empty ones, self-loops and parallel edges, in any vertex and adjacency order",
  "The graph modules have no tests; low-link errors need particular combinations of cross and back edges.",
  [GR + "tarjan.rs"], [("Tarjan's low-link stack algorithm", "SCC::dfs, scc")],
  ["scc result"])

p("P15", "Path queries and updates on a decomposed tree are exact",
  "For every tree, every root and every commutative monoid with compatible maps, after any history of node assignments, path updates, subtree updates and queries, the product over the path between any two vertices (both ends included, in either order) equals the product of the current values of exactly the vertices on that path, and a path update changes each of those vertices exactly once and no other.",
  ["histories", "inputs"], "all trees, roots, adjacency orders and vertex pairs; all operation histories; all commutative monoids with maps",
  "The graph modules have no tests; errors depend on how heavy paths and their heads interleave.",
  [GR + "heavy_light_decomp.rs", DS + "lazy_segtree.rs"], [("heavy-path decomposition over a lazy segment tree", "HLD::path_prod, HLD::apply_path")],
  ["path_prod", "get"], [("head/pos/heavy_child", "chain heads and linear positions", "HLD")])

p("P16", "Subtree and node operations on a decomposed tree are exact",
  "For every tree and root, after any history of node assignments, path updates and subtree updates, reading a node returns its current value and the product over a vertex's subtree equals the product of exactly its descendants' current values, itself included; a subtree update changes exactly those. Construction with initial values gives every vertex its own value, construction without gives identities, and the exposed positions are a permutation in which every subtree is contiguous and starts at its root.",
  ["histories", "inputs"], "all trees, roots and adjacency orders; all initial values; all operation histories; all commutative monoids with maps",
  "The graph modules have no tests.",
  [GR + "heavy_light_decomp.rs", DS + "lazy_segtree.rs"], [("preorder positions with heavy child first", "HLD::dfs1, HLD::dfs2, HLD::with_init_value")],
  ["subtree_prod", "get", "set", "pos"], [("pos/pos_r", "subtree interval", "HLD")])

p("P17", "Aho-Corasick reports exactly the pattern occurrences",
  "For every set of non-empty patterns over the configured alphabet, repeated patterns included, and every text over it, listing all matches reports at each text position exactly the patterns that end there, each once, and counting matches gives for every pattern its number of (possibly overlapping) occurrences. The single-match query reports at each position a longest pattern that ends there, and nothing exactly where no pattern ends.",
  ["inputs"], "all pattern lists (nested, overlapping, suffixes of one another, repeated, empty list), all texts (including empty), all alphabets expressible by the two type parameters, all insertion orders",
  "The string modules have no tests; missing suffix links show only for patterns that are proper suffixes of other patterns' prefixes.",
  [ST + "aho_corasick.rs"], [("trie with failure and output links", "AhoCorasick::insert, AhoCorasick::build")],
  ["find", "find_all", "find_cnt"], [("nodes", "trie with back, output and goto links", "AhoCorasick")])

p("P18", "Prefix function is exact",
  "For every sequence of comparable elements, including the empty one, the prefix function has the sequence's length, and its value at each index is the length of the longest proper prefix of the part ending there that is also its suffix.",
  ["inputs"], "all sequences over any element type with equality",
  "The string modules have no tests; failure-chain errors need periodic inputs with breaks.",
  [ST + "kmp.rs"], [("failure chain", "kmp")], ["kmp result"])

p("P19", "Z-function is exact",
  "For every sequence of comparable elements, including the empty one, the Z-function has the sequence's length, is 0 at index 0, and at every other index is the length of the longest common prefix of the sequence and its suffix starting there.",
  ["inputs"], "all sequences over any element type with equality",
  "The string modules have no tests; window reuse errors need matches that end exactly at or beyond the window.",
  [ST + "z_algorithm.rs"], [("rightmost match window", "z_function")], ["z_function result"])

p("P20", "gcd, lcm and extended gcd are exact for every integer type",
  "For every integer type and all non-negative arguments, gcd is the greatest common divisor (gcd(0, x) = x) and lcm the least common multiple (0 when an argument is 0) whenever that result fits the type. For signed types the same holds for negative arguments (other than the type's minimum) up to sign, and the extended gcd returns (x, y, g) with a*x + b*y = g and g the gcd up to sign, without overflow.",
  ["inputs"], "all pairs of values of all twelve primitive integer types (extended gcd: signed ones)",
  "There is no test for this module; magnitude and sign extremes of twelve types cannot be covered by examples.",
  [MA + "number_theory.rs", TR + "integral.rs", TR + "numeric.rs"], [("Euclid's algorithm", "gcd, lcm, ex_gcd")], ["gcd", "lcm", "ex_gcd"])

p("P21", "Linear congruence systems are solved exactly",
  "For every system a[i]*x = b[i] (mod m[i]) with positive moduli, not necessarily coprime, and arbitrary integer coefficients and right-hand sides, the solver returns nothing exactly when the system has no solution, and otherwise the smallest non-negative solution together with the positive period of the solution set. This holds whenever that period fits a 64-bit signed integer, however large the coefficients are.",
  ["inputs"], "all systems (including empty) with 64-bit a, b and moduli >= 1 whose solution period fits i64",
  "There is no test for this module; inconsistent, redundant and near-overflow systems are all outside the tests.",
  [MA + "number_theory.rs"], [("incremental merging by extended gcd", "ex_crt")], ["ex_crt result"])

p("P22", "Factorial tables give exact binomials and permutations",
  "For every prime modulus and table size below it, the number of combinations and of k-permutations returned for every 0 <= k <= n within the table equals the true integer value reduced by the modulus.",
  ["inputs"], "all prime moduli representable as a static modulus, all table sizes below the modulus, all k <= n",
  "There is no test for this module.",
  [MA + "factorial.rs", MI + "modint.rs"], [("factorials and inverse factorials", "Factorial::new, choose, perm")], ["choose", "perm"],
  [("factorial/inv_fac", "i! and 1/i! modulo p", "Factorial")])

p("P23", "Fixed-modulus integers form the ring Z/mZ",
  "For every fixed modulus from 1 to 2^31, addition, subtraction, multiplication, negation, powers with any 64-bit exponent, sums and products of sequences, and their assignment, by-reference and mixed forms with any primitive integer compute the exact result in Z/mZ. Every result is the canonical representative, at least 0 and below the modulus.",
  ["inputs", "configurations"], "all moduli 1..=2^31, all operand pairs and exponents, all operator forms, chains of operations",
  "Tests fix one modulus and a few dozen values; boundary operands, other moduli and most operator forms are not run.",
  [MI + "modint.rs"], [("reduced representation", "InternalImplementations::add_impl, sub_impl, mul_impl"), ("binary power", "ModIntBase::pow")],
  ["val of every result"], [("val", "representative below the modulus", "StaticModInt")])

p("P24", "Run-time modulus integers form the ring Z/mZ for the modulus set",
  "After setting a run-time modulus m from 1 to 2^31, all arithmetic on values created afterwards (the same operations and forms as with fixed moduli) computes the exact result in Z/mZ with the canonical representative, and the reported modulus is m; before any setting the default type's modulus is 998244353. Families with different identifiers keep independent moduli, a modulus can be replaced by another for new values, and setting 0 is refused with a panic that leaves the old modulus in force.",
  ["inputs", "histories", "configurations"], "all moduli 1..=2^31 set at run time, all operands, all histories of setting moduli of several families",
  "No unit test touches the run-time modulus; the doc-tests only set and read one back. The multiply-and-shift reduction can be off for rare operand/modulus combinations only.",
  [MI + "modint.rs", MA + "internal_math.rs"], [("Barrett reduction", "mul_mod, Barrett"), ("per-identifier modulus", "Id::companion_barrett")],
  ["val of every result", "modulus()"], [("Barrett{m, im}", "modulus and its scaled reciprocal", "modint::Barrett")])

p("P25", "Modular inverses and division are exact or refused",
  "For fixed and run-time moduli, prime or composite, the inverse of a value coprime to the modulus times that value is 1, and division by it is multiplication by the inverse, in every operator form. Where no inverse exists, asking for it or dividing panics instead of returning a value.",
  ["inputs", "configurations"], "all moduli (fixed with and without the primality hint, and run-time), all values, all division forms including mixed primitive operands",
  "Tests divide by a few values under one prime; composite moduli and non-invertible values are never tried.",
  [MI + "modint.rs", MA + "internal_math.rs"], [("Fermat power for prime moduli", "StaticModInt::inv"), ("extended Euclid", "inv_gcd")],
  ["inv", "/", "/="])

p("P26", "Any primitive integer converts to its true residue",
  "Creating or converting a modular integer from any value of any of the twelve primitive integer types, or from the text of any 64-bit signed integer, gives the mathematical residue of that value, between 0 and the modulus minus one, also for negative values and values far beyond 32 bits. Display and debug text are the decimal representative, the default is zero, and equality and hashing agree with equality of residues.",
  ["inputs", "configurations"], "all values of all twelve primitive types, all moduli 1..=2^31 of both kinds, all i64 decimal strings",
  "Tests convert about a dozen values of four types with one modulus.",
  [MI + "modint.rs"], [("lossless Euclidean remainder per type", "RemEuclidU32"), ("text and hashing traits", "impl_basic_traits")],
  ["val", "Display", "FromStr", "Hash"])

p("P27", "Primality test and primitive root are exact",
  "For every 32-bit signed integer the primality test behind the modular types answers true exactly for primes (never for values below 2). For every prime in that range the primitive-root routine returns the smallest generator of its multiplicative group.",
  ["inputs"], "all i32 values (primality), all i32 primes (primitive root)",
  "Tests cover values below one million and a handful of primes; a weakened witness set is wrong only for rare pseudoprimes above that.",
  [MA + "internal_math.rs"], [("deterministic Miller-Rabin with bases 2, 7, 61", "is_prime"), ("factoring p-1", "primitive_root")],
  ["is_prime", "primitive_root"], (), "cfg(verif_hooks) wrappers that make the crate-private functions callable")

p("P28", "Modular building blocks are exact on their whole documented domain",
  "For every modulus m >= 1 the canonical remainder, the modular power (non-negative exponent) and the multiply-and-reduce step with a precomputed reciprocal (factors below m, m up to 2^31) equal their mathematical values. For all 64-bit a and b >= 1, the inverse-gcd routine returns (g, x) with g = gcd(a, b), x*a = g (mod b) and 0 <= x < b/g.",
  ["inputs"], "all 64-bit arguments within the documented parameter ranges",
  "Tests list a few dozen values; reciprocal rounding errors occur only for rare (a, b, m).",
  [MA + "internal_math.rs"], [("Barrett reduction", "Barrett, mul_mod"), ("binary power", "pow_mod"), ("Euclid with bounded cofactors", "inv_gcd")],
  ["safe_mod", "pow_mod", "mul_mod", "inv_gcd"], (), "cfg(verif_hooks) wrappers that make the crate-private functions callable")

p("P29", "Base-2 logarithm helpers are exact",
  "For every positive integer the floor-logarithm helper returns the largest k with 2^k not above it, and for every 32-bit unsigned n the ceiling-logarithm helper returns the smallest k with 2^k at least n (0 for n = 0).",
  ["inputs"], "all positive usize values (floor), all u32 values (ceiling)",
  "Tests check thirteen values of the ceiling helper and none of the floor helper.",
  [MI + "util.rs"], [("leading-zero counts", "lg, ceil_lg")], ["lg", "ceil_lg"])

p("P30", "Whitespace-separated input is read back exactly",
  "For every text, the reader delivers its whitespace-separated tokens in order, each exactly once, through any mixture of typed reads, raw byte or character reads and fixed-length vector reads, with any kind and amount of whitespace around them. Each typed read equals the parsed token; the optional read returns nothing exactly when no token is left, and a mandatory read of a missing or malformed token panics rather than returning a wrong value.",
  ["inputs", "histories"], "all texts, all interleavings of the read methods, all parseable types",
  "There is no test for this module.",
  [MI + "input.rs"], [("whitespace split iterator", "In")], ["read", "checked_read", "i32", "i64", "usize", "bytes", "chars", "vec"])

p("P31", "Recursive closures behave like recursive functions",
  "A closure wrapped for recursion, for each supported number of arguments from none to nine, returns for all arguments what the same body written as an ordinary recursive function returns, with arguments delivered in order. Mutable state the closure captured, by reference or by value, reflects every nested call in execution order, and the wrapped closure can be called repeatedly; this holds in debug and in optimised builds.",
  ["inputs", "programs", "histories"], "all arities 0..=9, all arguments, recursive bodies with captured state of any kind, all call sequences",
  "There is no test for this module; the aliasing that recursion through a mutable closure creates only matters under optimisation.",
  [MI + "recursive_function.rs"], [("re-entrant access through a cell", "RecursiveFunction*::call")], ["call result", "captured state"])

p("P32", "Predefined monoids and numeric constants satisfy their laws",
  "For every primitive integer type, the maximum, minimum, sum and product monoids compute exactly max, min, + and *, their identities are neutral on both sides for every value, and the operations are associative where no overflow occurs. The zero, one, smallest and largest values reported for each integer type are that type's.",
  ["inputs", "configurations"], "all values of all twelve primitive types",
  "Tests use the maximum over i32 only, and only through the segment trees.",
  [MI + "monoids.rs", TR + "monoid.rs", TR + "numeric.rs"], [("monoid instances", "Max, Min, Additive, Multiplicative"), ("numeric traits", "impl_integral!")],
  ["identity", "binary_operation", "zero", "one", "min_value", "max_value"])

p("P33", "Queries and construction do only the work their structure promises",
  "Counted in element operations, Fenwick construction from an array and segment-tree construction are linear in n, Fenwick queries, updates and partition points, and segment-tree point updates, range updates, products and boundary searches are logarithmic in n, a sparse-table query takes a constant number, and the prefix function and Z-function make a linear number of comparisons. These bounds hold for every input and history, not only on average.",
  ["inputs", "histories"], "all n, all inputs and operation histories, adversarial ones included",
  "Tests measure no cost at all; a structure that silently rescans still passes every functional test.",
  [DS + "fenwick_tree.rs", DS + "segtree.rs", DS + "lazy_segtree.rs", DS + "sparse_table.rs", ST + "kmp.rs", ST + "z_algorithm.rs"],
  [("documented complexities: linear-time construction, O(log n) partition point, ACL segment trees", "doc comments")],
  ["number of element additions, monoid operations, map applications, predicate calls and comparisons, counted by instrumented element types"])

p("P34", "Debug printing never changes a program",
  "A program using the debug-print macros compiles and computes the same results in debug and in release builds, also when it names the macro by its crate path, and with no arguments, one or several. In debug builds each listed expression is evaluated exactly once, in order, and its source text and value are written to standard error on a single line that starts with the source line number; nothing is written to standard output.",
  ["programs", "inputs"], "all uses of the macros with any number of arguments (none included), all printable values, both build modes",
  "There is no test for this module, and the tests never compile it in release mode.",
  [MI + "debug.rs"], [("exported macros", "debug_single!, de!")], ["compilation", "standard error", "program results"])

p("P35", "Graph, string and number routines stay within their complexity class",
  "Counted in executed steps and never in wall-clock time, the following hold for every input. Disjoint-set joins and lookups are logarithmic, heap pushes and pops logarithmic, and heap appends linear. Dijkstra is O((n + m) log n), strongly connected components O(n + m), the ancestor table O(n log n) with constant-time ancestor tests and logarithmic LCA and distance queries. Decomposing a tree is linear, its path operations O(log^2 n) and its subtree and node operations O(log n). Matching takes O(edges) per augmentation, and maximum flow O(V^2 E) in general and O(E sqrt E) for unit capacities. Building the multi-pattern automaton is linear in pattern letters times alphabet, single-match search linear in the text, and listing or counting matches linear in text plus occurrences. Reading input is linear in its length; gcds, powers, inverses and primality are logarithmic, factorial tables linear with constant-time lookups, and the primitive root takes O(sqrt p).",
  ["inputs", "histories"], "all inputs and histories, adversarial ones included, of every size",
  "Tests measure no cost; an algorithm that re-expands stale queue entries, forgets its visited marks or follows empty fallback links returns the same answers on small inputs and never finishes on contest-sized ones.",
  [DS + "union_find.rs", DS + "min_heap.rs", GR + "shortest_path.rs", GR + "tarjan.rs", GR + "binary_lifting.rs", GR + "heavy_light_decomp.rs", GR + "bipartite_matching.rs", GR + "max_flow.rs", ST + "aho_corasick.rs", MI + "input.rs", MA + "number_theory.rs", MA + "internal_math.rs", MA + "factorial.rs"],
  [("stale-entry check", "dijkstra"), ("visited marks per phase", "AugmentedPath::dfs"), ("current-arc pointers and level graph", "Dinic"), ("heavy child first", "HLD::dfs1"), ("output links", "AhoCorasick::build"), ("union by size", "UnionFind::join")],
  ["number of integer comparisons executed (compiler instrumentation)", "number of item comparisons and monoid operations"])

p("P36", "Arguments out of range are refused and change nothing",
  "In every build, calling an operation with an argument outside its range panics instead of returning a value. This covers an element index not below n in a disjoint-set structure; a point, range end or search start outside a segment tree or lazy segment tree, a reversed range there, and a search predicate that is false on the identity; a prefix or range end beyond a Fenwick tree and an empty or reversed sparse-table range; a root, source, flow endpoint or queried vertex outside the graph or tree, and a number of initial values that differs from the number of vertices; k above n or n beyond a factorial table, and a table that would reach its prime modulus; and an empty pattern, or a letter outside the alphabet in a pattern or a text. If the panic is caught, the structure answers every later valid call as if the refused call had not been made.",
  ["inputs", "histories"], "all histories of valid calls mixed with calls whose arguments are out of range by any amount, in builds with and without debug assertions",
  "No test makes an invalid call; a check that is lost, off by one or only active in debug builds silently writes into padding or answers from it.",
  [DS + "union_find.rs", DS + "segtree.rs", DS + "lazy_segtree.rs", DS + "fenwick_tree.rs", DS + "sparse_table.rs", GR + "heavy_light_decomp.rs", GR + "max_flow.rs", GR + "shortest_path.rs", GR + "binary_lifting.rs", MA + "factorial.rs", ST + "aho_corasick.rs"],
  [("argument assertions before any change", "assert! at the start of the public methods")],
  ["panic", "answers of later valid calls"])

p("P37", "Memory is bounded by the contents and fully given back",
  "Counted in bytes requested from the allocator, each structure holds memory linear in its contents: O(n) for disjoint sets, heaps (of the largest length reached), Fenwick, segment and lazy segment trees, heavy-light decompositions and factorial tables; O(n log n) for sparse and ancestor tables; O(vertices + edges) for matching and flow; O(pattern letters times alphabet) for the multi-pattern automaton; and a constant for the reader. Queries and updates never make a structure grow, however many there are. Scratch memory of a call is O(log n) for element and range operations, O(n + m) for shortest paths, strong components, matching, flow and group listing, linear in text plus occurrences for pattern searches, and linear in the answer for the string functions. Dropping a structure gives back everything.",
  ["inputs", "histories"], "all inputs and histories of every size",
  "Tests never look at memory; a residual graph that grows with every flow query, copies kept per update or duplicated output sets return right answers and exhaust a contest's memory limit.",
  [DS + "union_find.rs", DS + "min_heap.rs", DS + "sparse_table.rs", DS + "segtree.rs", DS + "lazy_segtree.rs", GR + "shortest_path.rs", GR + "binary_lifting.rs", GR + "heavy_light_decomp.rs", GR + "max_flow.rs", GR + "bipartite_matching.rs", ST + "aho_corasick.rs", MI + "input.rs"],
  [("tables sized by the input once, at construction", "new / from of every structure"), ("buffers reused between calls", "Dinic, AugmentedPath"), ("lazy iterator over the text", "In")],
  ["bytes allocated, peak and retained (a counting global allocator)"])

p("P38", "Instances are independent and answers repeat",
  "Every answer, including the parts that are otherwise unspecified (which representative, the order of groups, the numbering of components, which of several equal items or matches, the order of matches at one place), is a function of the instance's own construction and earlier calls. The same calls on a fresh instance give the same answers again in the same process; instances of the same or different structures used alternately do not influence each other; and instances used at the same time in different threads answer as they would alone. The same holds for every stateless function, for recursive-function wrappers and for readers. The one shared state is by design: dynamic modular integers of the same Id type share that Id's modulus, and those of different Ids are independent.",
  ["inputs", "histories", "schedules"], "all sets of programs over separate instances, all interleavings of their calls, one or several threads",
  "Each test uses one instance at a time in one thread; a static scratch buffer, a cache keyed too coarsely or a randomly seeded hash order passes them all.",
  [DS + "union_find.rs", DS + "min_heap.rs", DS + "segtree.rs", DS + "lazy_segtree.rs", GR + "tarjan.rs", GR + "binary_lifting.rs", GR + "heavy_light_decomp.rs", GR + "max_flow.rs", GR + "bipartite_matching.rs", ST + "aho_corasick.rs", MA + "factorial.rs", MI + "modint.rs", MI + "recursive_function.rs"],
  [("all state owned by the instance", "struct fields; no statics but the modulus of each Id"), ("order fixed by the input", "vectors instead of hash maps")],
  ["complete transcripts of answers"])

p("P39", "Safe use never causes undefined behaviour",
  "No sequence of calls through the safe interface, whether its arguments are valid or out of range, and also when a caller's comparison, operation, predicate or clone panics or breaks its laws, causes undefined behaviour: no access outside an allocation or to freed or uninitialised memory, no violated precondition of an unsafe standard-library function, no invalid value, no broken reference aliasing rule and no data race. This covers the unchecked unwrap in the shortest-path relaxation, and the recursive-function wrappers with 0 to 9 arguments over closures that capture nothing, capture by reference, or own their state behind a pointer or shared cell.",
  ["inputs", "histories", "schedules"], "all histories of safe calls, within what AddressSanitizer, the standard library's checks and Miri (Tree Borrows) can observe",
  "Undefined behaviour usually gives the expected answer in a test build; it shows only under an interpreter or sanitizer, or as a miscompilation in somebody's optimised program.",
  [GR + "shortest_path.rs", MI + "recursive_function.rs", DS + "segtree.rs", DS + "lazy_segtree.rs", DS + "fenwick_tree.rs", ST + "aho_corasick.rs", MI + "modint.rs", MA + "internal_math.rs"],
  [("tested before the unchecked unwrap", "dijkstra"), ("UnsafeCell around the closure", "RecursiveFunction::call")],
  ["reports of AddressSanitizer, of the standard library's precondition checks and of Miri"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
