"""Source of /verif/properties.jsonl.  Run: python3 tools/props.py"""
import json, os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {
        "files": files,
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe or ["value returned, items yielded or exception raised at the public call"],
        "hook_needed": None,
    }
    if state:
        anchors["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why, "anchors": anchors,
    })


GR = "rosemary/graphs/"
GA = GR + "algorithms/"
CO = "rosemary/combinatorics/"
NT = "rosemary/number_theory/"
AL = "rosemary/algebra/"
DS = "rosemary/data_structures/"

# ------------------------------------------------------------------ data structures and graphs
prop("D01", "Leftist heaps are faithful priority queues under any operation history",
     "After any history of building a heap from values, inserting, merging with another heap and deleting the minimum, "
     "a leftist heap holds exactly the multiset of values put in and not yet removed, find-min and delete-min return its smallest value, "
     "its length is the size of that multiset, and iteration yields every element exactly once. "
     "Emptying the heap and using it again, equal values, and merges with empty heaps obey the same rule; removing from an empty heap returns nothing and changes nothing.",
     ["histories"], "all sequences of construct/insert/merge/find/delete/length/iterate over any comparable values",
     "The tests run one fixed insertion history per doctest; orderings, ties, merges and reuse after emptying are unbounded histories.",
     [DS + "heaps.py"],
     [("leftist merge with rank swap", DS + "heaps.py:_leftist_heap_merge"), ("bottom-up construction queue", DS + "heaps.py:LeftistHeap.__init__"),
      ("size bookkeeping on insert/delete/merge", DS + "heaps.py:LeftistHeap")],
     state=[("heap contents", "multiset of values inserted and not removed", DS + "heaps.py:LeftistHeap.root")])
prop("D02", "Pairing heaps stay correct priority queues under insert and decrease-key",
     "After any history of insertions, decrease-key calls and delete-mins on distinct values, delete-min returns a pair whose key is the smallest current key "
     "and whose value currently has that key, decrease-key to a key that is not larger sets that key and leaves every other entry alone, and the list of elements is exactly the live entries. "
     "Emptying the heap and refilling it obeys the same rule; deleting from an empty heap returns nothing and changes nothing.",
     ["histories"], "all sequences of insert/decrease-key/delete-min/list with distinct values and any keys, including ties",
     "Only reached through one shortest-path doctest; cut-and-relink orders after decrease-key are history dependent.",
     [DS + "heaps.py"],
     [("link/cut of sibling lists", DS + "heaps.py:_link_nodes, PairingHeap.decrease_key"), ("two-pass combine", DS + "heaps.py:_combine_siblings")],
     state=[("entries", "map from live value to its current key", DS + "heaps.py:PairingHeap.lookup")])
prop("D03", "Union-find structures track exactly the partition generated by the unions",
     "After any history of union and find operations, two elements have the same representative exactly when they are connected by the unions performed, "
     "the representative is a member of the set (or, for the named variant, the name given by the latest union of that set), and finds never change the partition.",
     ["histories"], "all sequences of unions of current set representatives and finds over any element universe",
     "Tests use one fixed sequence; path compression and rank interact over arbitrary histories.",
     [DS + "unionfind.py"],
     [("path compression", DS + "unionfind.py:UnionFind.find"), ("union by rank", DS + "unionfind.py:UnionFind.union"), ("name relabelling", DS + "unionfind.py:NamedUnionFind.union")],
     state=[("partition", "sets generated by the unions", DS + "unionfind.py:node_pointers, leader")])
prop("D04", "Bit sieves answer prefix counts exactly as entries are struck out",
     "Starting from all of 1..n present, after any sequence of striking out the multiples of numbers, the present entries are exactly the numbers in 1..n divisible by none of the struck numbers, "
     "and a prefix query at m returns how many of 1..m are still present, for the linked and for the array implementation alike.",
     ["histories"], "all n and all sequences of strike-outs and prefix queries",
     "The library only exercises the structure inside one prime-counting routine above a million; no test covers it directly.",
     [DS + "bit_sieve.py"],
     [("Fenwick tree decrement", DS + "bit_sieve.py:mark_multiples"), ("Fenwick prefix sum", DS + "bit_sieve.py:partial_sum")],
     state=[("present set", "numbers not struck out", DS + "bit_sieve.py:BITSieve")])
prop("G01", "Graph objects stay simple undirected weighted graphs under any edit history",
     "After any sequence of adding and deleting vertices, edges and lists of them, adjacency is symmetric with equal weights on both sides, an edge exists exactly if it was last added and not since deleted "
     "(deleting a vertex deletes its edges; adding an edge adds its endpoints), and every vertex, edge, degree and count query agrees with that edge set. "
     "Operations that return a new graph leave the original untouched and later edits to either graph never show in the other; deleting what is absent leaves the graph unchanged.",
     ["histories"], "all edit histories over any hashable vertex labels and weights",
     "Doctests show single edits on fixed graphs; aliasing and stale adjacency only appear in multi-step histories mixing copies and edits.",
     [GR + "graphs.py"],
     [("symmetric adjacency dict update", GR + "graphs.py:Graph.add_edge/delete_edge/delete_vertex"), ("copying before removal", GR + "graphs.py:Graph.copy/remove_*")],
     state=[("graph_dict", "vertex -> {neighbour: weight}", GR + "graphs.py:Graph.__init__")])
prop("G02", "Derived graphs, matrices, orderings and constructors describe the same graph",
     "For every graph: the adjacency, degree and Laplacian matrices are those of its edge set (with consistent row order), an induced subgraph has exactly the chosen vertices and the edges among them with their weights, "
     "the complement has exactly the missing edges, and extreme-degree, degree-ordered and (from two vertices on) density queries agree with the definitions. "
     "The complete, Petersen, coprime-pair, odd, grid and random graph constructors and the file loaders produce exactly the graph their definition or input file describes.",
     ["inputs"], "all graphs, all vertex subsets, all constructor arguments and well-formed graph files",
     "Doctests show one example of each; sizes, isolated vertices, weights and label types vary without bound.",
     [GR + "graphs.py"],
     [("matrix builders", GR + "graphs.py:adjacency_matrix/degree_matrix/laplacian_matrix"), ("subgraph and complement", GR + "graphs.py:induced_subgraph/complement"), ("constructors and loaders", GR + "graphs.py:complete_graph..grid_graph")])
prop("G03", "All shortest-path algorithms return true distances with consistent path trees",
     "For every graph with admissible weights and every source, each single-source algorithm reports exactly the minimum path weight to every vertex (infinite where unreachable) together with predecessors that form a tree of tight edges, "
     "the iterator yields reachable vertices in non-decreasing distance order, and the all-pairs algorithm agrees with all of them. "
     "The bidirectional search returns the minimum weight and a real path of that weight, and the algorithm admitting negative weights raises ValueError exactly when a negative cycle is reachable. The graph passed is left unchanged.",
     ["inputs"], "all graphs (connected or not, zero or tied weights), all sources and targets",
     "Tests compare single runs on a few fixed or random connected graphs; disconnected graphs, ties, zero weights and termination conditions are unbounded.",
     [GA + "paths.py"],
     [("relaxation and settled sets", GA + "paths.py:dijkstra*, bellman_ford"), ("meeting-point bound", GA + "paths.py:dijkstra_bidirectional"), ("triple loop with path matrix", GA + "paths.py:floyd_warshall")])
prop("G04", "Minimum spanning tree algorithms return minimum spanning trees or forests",
     "For every connected weighted graph each spanning tree algorithm returns a set of real edges forming a spanning tree whose reported weight equals the sum of its edge weights and is the minimum over all spanning trees, for any root. "
     "On a disconnected graph the algorithms documented to return a forest return a minimum spanning forest. The graph passed is left unchanged.",
     ["inputs"], "all weighted graphs, including negative and tied weights, single vertices, leaves and disconnected graphs, and all roots",
     "Tests check total weight on one or two fixed graphs.",
     [GA + "spanning_trees.py", DS + "heaps.py", DS + "unionfind.py"],
     [("Prim relaxation", GA + "spanning_trees.py:prim"), ("Kruskal with union-find", GA + "spanning_trees.py:kruskal"), ("Cheriton-Tarjan component queue", GA + "spanning_trees.py:cheriton_tarjan")])
prop("G05", "The k-best spanning tree generator is ordered, distinct and complete",
     "For every connected weighted graph the generator yields distinct spanning trees, each with its true weight, in non-decreasing weight order starting at the minimum. "
     "Asked for k trees it yields the k lightest (or all of them if there are fewer), and without a limit it yields every spanning tree exactly once. The graph passed is left unchanged.",
     ["inputs"], "all connected weighted graphs and all k, including ties",
     "The doctest shows one small graph; branch bookkeeping of included/excluded edges fails only on particular shapes and ties.",
     [GA + "spanning_trees.py"],
     [("best exchange search", GA + "spanning_trees.py:gabow/find_exchange"), ("branching on included/excluded edges", GA + "spanning_trees.py:gabow")])
prop("G06", "Traversals and connectivity queries agree with reachability",
     "For every graph and start vertex, breadth-first and depth-first search visit each vertex reachable within the depth limit exactly once and in a genuine breadth-first respectively depth-first order, and the search trees are spanning trees of the component with the matching parent structure. "
     "Connected components partition the vertices into reachability classes, the component of a vertex is its class, and the connectivity test is true exactly when there is one class. The graph passed is left unchanged.",
     ["inputs"], "all graphs, start vertices and depth limits",
     "Tests use one fixed graph; visiting order and depth limits depend on adjacency shapes the tests do not vary.",
     [GA + "traversal.py", GA + "connectivity.py"],
     [("queue/stack with visited set", GA + "traversal.py"), ("component sweep", GA + "connectivity.py")])
prop("G07", "Maximal clique and maximal independent set enumeration is exact",
     "For every graph with at least one vertex each maximal clique enumerator yields every maximal clique exactly once and nothing else, whatever algorithm is selected, and maximal independent sets are enumerated likewise. The graph passed is left unchanged.",
     ["inputs"], "all graphs, all selectable algorithms",
     "Tests count cliques of a few fixed graphs; pivoting and pruning errors show only on particular adjacency patterns.",
     [GA + "cliques.py", GA + "independent_sets.py"],
     [("pivoting backtrack", GA + "cliques.py:bron_kerbosch, bron_kerbosch_binary, tomita"), ("complement reduction", GA + "independent_sets.py:maximal_independent_sets")])
prop("G08", "Maximum clique algorithms return true maximum (weight) cliques",
     "For every graph with at least one vertex each maximum clique algorithm returns the size of a largest clique together with a clique of that size, and the weighted version returns the largest total vertex weight (weights being non-negative) over all cliques together with a clique attaining it. The graph passed is left unchanged.",
     ["inputs"], "all graphs and all positive vertex weight maps",
     "Tests use one or two graphs per algorithm; bound-based pruning can cut the optimum only on special graphs.",
     [GA + "cliques.py"],
     [("size bound pruning", GA + "cliques.py:pardalos, ostergard and binary variants"), ("weight bound pruning", GA + "cliques.py:maximum_weight_clique")])
prop("G09", "Colorings are proper; the exact algorithms attain the chromatic number",
     "For every graph with at least one vertex every coloring routine returns a number of colors and a coloring, as color classes or as a vertex map as requested, which covers every vertex exactly once, uses exactly that many colors and never colors adjacent vertices alike. "
     "The exact algorithms use the chromatic number of colors; the greedy pass follows the given order first-fit and further passes never use more colors, saturation coloring uses two colors on bipartite graphs with an edge, and independent set extraction is exact when its exact phase takes over from the start. The graph passed is left unchanged.",
     ["inputs"], "all graphs, all vertex orders, pass counts and output formats",
     "Tests check a few named graphs; complete, edgeless and disconnected graphs take other branches and pruning errors are graph specific.",
     [GA + "coloring.py"],
     [("saturation order", GA + "coloring.py:dsatur"), ("greedy passes", GA + "coloring.py:greedy_sequential"), ("independent set extraction", GA + "coloring.py:maxis"), ("branch and bound", GA + "coloring.py:branch_and_bound, korman")])
prop("G10", "Independent set routines return independent sets of the claimed optimality",
     "For every graph with at least one vertex the exact routines return the size of a largest independent set with such a set, and the heuristics return the true size of a set that really is independent (and maximal for the greedy one). The graph passed is left unchanged.",
     ["inputs"], "all graphs, including edgeless and complete ones",
     "Tests run one or two fixed graphs.",
     [GA + "independent_sets.py", GA + "cliques.py"],
     [("branch and bound", GA + "independent_sets.py:branch_and_bound"), ("greedy and Culberson heuristics", GA + "independent_sets.py:greedy, culberson"), ("reduction to cliques", GA + "independent_sets.py:maximum_independent_set")])
prop("G11", "Steiner tree heuristics return valid trees within 2(1-1/t) of optimum",
     "For every connected graph with non-negative weights and every non-empty set of terminals both heuristics return a tree of graph edges that contains all terminals, has only terminals as leaves, and whose reported weight is the sum of its edge weights and at most 2(1-1/t) times the minimum weight of a Steiner tree for t terminals. The graph passed is left unchanged.",
     ["inputs"], "all connected weighted graphs and terminal sets",
     "Tests check one graph each.",
     [GA + "steiner_trees.py"],
     [("distance network", GA + "steiner_trees.py:distance_network_heuristic"), ("path attachment", GA + "steiner_trees.py:minimum_cost_paths_heuristic"), ("leaf pruning and improvement", GA + "steiner_trees.py:_delete_nonterminal_leaves, _improve")])
prop("G12", "Hamiltonian path enumerators and counters are exact",
     "For every graph the Hamiltonian path enumerators yield every Hamiltonian path (each counted once per direction) exactly once and nothing else, and every counting routine returns their true number. The connectivity test and the walk counts restricted to a set of vertices agree with the induced subgraph. The graph passed is left unchanged.",
     ["inputs", "histories"], "all graphs, including disconnected ones, and repeated calls on different graphs in one process",
     "There are essentially no tests; memo tables and connectivity pruning fail on particular graphs or on a second call.",
     [GA + "hamiltonian_paths.py"],
     [("backtracking with connectivity pruning", GA + "hamiltonian_paths.py:hamiltonian_paths_con"), ("bitmask dynamic programming", GA + "hamiltonian_paths.py:number_of_hamiltonian_paths_bits")])
prop("G13", "Degree sequence tests accept exactly the graphic sequences",
     "For every finite sequence of integers, in any order, both tests return true exactly when some simple graph has that degree sequence, and neither changes its argument.",
     ["inputs"], "all finite integer sequences",
     "Tests sample a few sequences.",
     [GA + "degree_sequences.py"],
     [("Havel-Hakimi style test", GA + "degree_sequences.py:is_graphic"), ("Erdos-Gallai inequalities", GA + "degree_sequences.py:is_graphic_erdos_gallai")])

# ------------------------------------------------------------------ combinatorics
prop("C01", "Permutation and variation generators list each arrangement once, in order",
     "For every multiset the permutation generators yield each distinct arrangement exactly once, and the generators documented as lexicographic yield them in lexicographic order starting from the sorted arrangement. "
     "Generators of length-r variations yield each distinct length-r arrangement exactly once in lexicographic order, and no generator modifies its argument or an item already yielded. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all finite multisets (with any pattern of repetitions) and all lengths r",
     "Doctests show one or two multisets; repetition patterns and sizes at which special-case code switches are not covered.",
     [CO + "generation/permutations.py"],
     [("next-arrangement step", CO + "generation/permutations.py:knuth_algorithm_l and variants"), ("unrolled cases for the last positions", CO + "generation/permutations.py:phillips, knuth_algorithm_l")])
prop("C02", "Combination, tuple and partition generators are complete and repetition free",
     "The generators of t-combinations, of integer partitions (all, with a given number of parts, from a given list of different positive parts, with distinct parts, and combinations of these options) and of mixed-radix tuples yield every object meeting the options exactly once and nothing else. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all sizes and all option combinations",
     "Doctests show one size per option.",
     [CO + "generation/combinations.py", CO + "generation/partitions.py", CO + "generation/tuples.py"],
     [("partition algorithms", CO + "generation/partitions.py:algorithm_p, algorithm_h, backtrack"), ("combination stepping", CO + "generation/combinations.py"), ("mixed radix counter", CO + "generation/tuples.py")])
prop("C03", "Counting functions equal the number of objects they count",
     "Binomial and multinomial coefficients, Bell and Stirling numbers, partition numbers, bipartition numbers, the coefficients of the r-th power of the partition generating function, and necklace counts (with or without prescribed content) equal the true number of the objects they name, for all arguments including the boundary ones. "
     "Lists of counts agree with the single-value functions at every index. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all non-negative arguments",
     "Doctests show a handful of values and no boundary values.",
     [CO + "enumeration/enumeration.py"],
     [("recurrences and memo tables", CO + "enumeration/enumeration.py"), ("Burnside sum", CO + "enumeration/enumeration.py:necklaces")])
prop("C04", "Tiling counters count the tilings of the board",
     "The domino and triomino tiling counters return the exact number of tilings of every rectangular board, independent of orientation and of earlier calls in the same process.",
     ["inputs", "histories"], "all board sizes, repeated calls with different sizes in any order",
     "Doctests show one board; cached state shared between calls only shows in a sequence of calls.",
     [CO + "enumeration/enumeration.py"],
     [("covering backtrack with memo", CO + "enumeration/enumeration.py:number_of_domino_tilings, triomino_tilings")])
prop("C05", "Exact cover solvers find every exact cover exactly once",
     "For every family of subsets of a finite target each solver yields exactly the sub-families whose members partition the target, each one once, and the counting method returns their number. "
     "The derived puzzles (Langford pairings, domino tilings, Latin squares, Sudoku) give exactly the solutions of those puzzles, and an unsolvable Sudoku is never completed. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs", "histories"], "all set families, including empty members, duplicates and infeasible ones, and several solvers alive at once",
     "Doctests show one instance each; column uncover order and memo reuse bugs need particular families.",
     [CO + "optimization/exact_cover.py"],
     [("cover/uncover recursion", CO + "optimization/exact_cover.py:algorithmx, algorithm_dlx"), ("bitmask recursion with memo", CO + "optimization/exact_cover.py:ExactCoverBinary")])
prop("C06", "Exact knapsack solvers return optimal feasible packings",
     "For every list of items with non-negative values and weights of any size and every non-negative capacity each exact solver reports the maximum total value of a feasible selection together with a selection of given items (each used at most once) attaining it. "
     "The randomised heuristic always returns a feasible selection with its true value and weight.",
     ["inputs"], "all item lists with positive weights and non-negative values, all capacities including zero",
     "Tests run one or two fixed instances.",
     [CO + "optimization/knapsack.py"],
     [("table recurrence", CO + "optimization/knapsack.py:dynamic_programming"), ("optimistic bound", CO + "optimization/knapsack.py:branch_and_bound_depth_first"), ("backtracking", CO + "optimization/knapsack.py:depth_first")])
prop("C07", "Exact tour solvers are optimal; heuristic tours are real tours with true cost",
     "For every symmetric distance matrix or set of at least two points, each exact solver returns a tour through all points with its true length, which is the minimum over all tours. "
     "Every heuristic returns a permutation of all points whose reported length is the length of that closed tour, and the two-opt descents end in tours that no single two-opt move shortens. The genetic solver's crossovers and local search keep tours through all points and return a best individual with its true length. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all point sets and symmetric distance matrices, all random choices",
     "Doctests show fixed instances.",
     [CO + "optimization/tsp.py", CO + "optimization/genetic_tsp.py"],
     [("reduced matrix bound", CO + "optimization/tsp.py:branch_and_bound"), ("two-opt gain", CO + "optimization/tsp.py:two_opt, steepest_ascent_two_opt"), ("tour recombination", CO + "optimization/genetic_tsp.py:mgkrec")])
prop("C08", "The alphametic solver finds exactly the valid digit assignments",
     "For every addition puzzle the solver returns exactly the assignments of distinct digits to letters, without leading zeros, that make the sum of the left-hand words equal the sum of the right-hand words, each once. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all word lists over at most ten letters",
     "Tests solve a few well-known puzzles.",
     [CO + "recreational/alphametics.py"],
     [("signature based pruning", CO + "recreational/alphametics.py:backtrack")])

# ------------------------------------------------------------------ number theory
prop("N01", "GCD, LCM, Bezout coefficients and modular inverses satisfy their definitions",
     "For all integers, of any sign and size and including zero, gcd and lcm (of two numbers or a list) are the non-negative greatest common divisor and least common multiple and the extended version returns coefficients combining to that gcd. "
     "A modular inverse lies in the range 0..m-1 and multiplies back to 1, and ValueError is raised exactly when none exists.",
     ["inputs"], "all integers and non-empty lists of integers; all moduli of at least 2",
     "Tests sample random positive values.",
     [NT + "core.py"], [("Euclid's algorithm", NT + "core.py:gcd, ext_gcd"), ("list folding", NT + "core.py:gcd_list, lcm_list"), ("inverse from Bezout", NT + "core.py:inverse_mod")])
prop("N02", "Chinese remaindering solves every coprime congruence system",
     "For every non-empty system of congruences with pairwise coprime moduli the result is the unique solution modulo the product, lying in the range from 0 up to that product, and the version with precomputed data (moduli of at least 2) gives the same result for every residue vector in the order of the moduli. Moduli that are not coprime raise ValueError. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all systems of pairwise coprime moduli of any size and residues of any sign",
     "Tests sample a few systems.",
     [NT + "core.py"], [("Garner/incremental lifting", NT + "core.py:chinese"), ("preconditioned product tree", NT + "core.py:crt_preconditioning_data, chinese_preconditioned")])
prop("N03", "Modular powers, integer roots, logarithms, bit counts and valuations are exact",
     "For all admissible integers of any size: modular powers of non-negative numbers are the least non-negative residue, the integer square and n-th roots and the logarithm are the exact floors, the bit count is the number of one bits of the absolute value, and the valuation is the exponent of the exact power of p (at least 2 in absolute value) dividing the non-zero number. "
     "The Jacobi symbol equals the product of Legendre symbols for every odd positive modulus. Arguments outside the documented domain of powers, roots, logarithms and Jacobi symbols raise ValueError.",
     ["inputs"], "all integers in the documented domain, especially around exact powers and beyond machine precision",
     "Tests sample random values; off-by-one results occur only next to perfect powers or above the range of floats.",
     [NT + "core.py"], [("square and multiply", NT + "core.py:power_mod"), ("Newton/Halley iteration and float fast path", NT + "core.py:integer_sqrt, integer_nth_root"), ("reciprocity loop", NT + "core.py:jacobi_symbol")])
prop("N04", "Primality tests never reject primes and the exact tests are exact",
     "For every integer the exact tests return true exactly for primes, next-prime returns the smallest larger prime, and the Mersenne test is true exactly when the Mersenne number is prime. "
     "The probabilistic tests accept every odd prime for every base not divisible by it, and with a given base reject exactly those odd composites the base is a witness for; the multi-base probable prime test errs on no number below 3317044064679887385961981.",
     ["inputs"], "all non-negative integers and all bases",
     "Tests check ranges below a bound and a few pseudoprimes.",
     [NT + "primes/primality.py"], [("strong pseudoprime bases", NT + "primes/primality.py:is_prime, miller_rabin_deterministic"), ("witness loops", NT + "primes/primality.py:miller_rabin, solovay_strassen"), ("Lucas-Lehmer recurrence", NT + "primes/primality.py:lucas_lehmer")])
prop("N05", "Prime sieves and ranges list exactly the primes asked for",
     "Every sieve lists exactly the primes up to its limit in increasing order, the first-n function lists exactly the first n primes, and range iteration yields exactly the primes of the requested interval in increasing order, for every limit and across every internal table or block boundary. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all limits and intervals, including degenerate ones and ones straddling internal boundaries",
     "Tests compare counts at a few round limits.",
     [NT + "primes/sieves.py", NT + "prime_list.py"], [("wheel and segment bookkeeping", NT + "primes/sieves.py:luo, chartres, pritchard, eratosthenes1/2"), ("precomputed list cut-over", NT + "primes/sieves.py:primes, primes_first_n, prime_range")])
prop("N06", "Prime counts and prime sums are exact at every argument",
     "Every prime counting algorithm returns the number of primes not exceeding its argument and every prime sum routine the sum of those primes, at every argument, on either side of internal cut-overs and regardless of earlier calls.",
     ["inputs", "histories"], "all non-negative arguments, any order of calls",
     "Tests check powers of ten; errors in truncated roots or block boundaries hit isolated arguments.",
     [NT + "primes/prime_counting.py", DS + "bit_sieve.py"], [("phi recursions with shared caches", NT + "primes/prime_counting.py:legendre, meissel, lehmer"), ("special leaves", NT + "primes/prime_counting.py:lmo, lmo_bit"), ("bucketed inclusion-exclusion", NT + "primes/prime_counting.py:prime_sum, pi_table")])
prop("N07", "Factorization is complete and correct; each factoring algorithm is sound",
     "The factorization of every non-zero integer lists exactly its primes in increasing order with their exponents (a negative number carries the sign as a leading unit factor of odd exponent), whichever options are selected, and zero raises ValueError; primality of the listed factors is guaranteed below 3317044064679887385961981. "
     "Trial division returns the least prime factor up to its bound; the Fermat and Lehman methods return the number itself exactly when it is prime and a proper divisor otherwise; the rho methods return a divisor greater than 1 of a composite, the p-1 method and rho with an iteration limit a divisor, the continued fraction method a proper divisor or nothing; factoring over a base returns the exponents, or raises ValueError when the number does not split over it. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all integers and option combinations, especially squares, prime powers and numbers with close or smooth factors",
     "Tests sample random numbers and a few fixed ones.",
     [NT + "factorization/factorization.py", NT + "factorization/algorithms.py"], [("splitting work list", NT + "factorization/factorization.py:factor"), ("individual algorithms", NT + "factorization/algorithms.py")])
prop("N08", "Divisor listings are complete, sorted and consistent, alone and over ranges",
     "For every positive integer, given directly or by its factorization, the divisor, divisor pair, prime divisor and unitary divisor functions return exactly those objects (in increasing order where documented). "
     "Range factorization yields every number of the interval once, in order, with its correct factorization, for every start and end. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all positive integers (including 1), both input forms, all intervals",
     "Tests check sums over small ranges starting at fixed points.",
     [NT + "factorization/factorization.py"], [("product expansion", NT + "factorization/factorization.py:divisors, xdivisors, divisor_pairs, unitary_divisors"), ("blockwise range sieve", NT + "factorization/factorization.py:factored_range")])
prop("N09", "Arithmetic functions equal their definitions for both input forms",
     "For every positive integer, given as a number or as a factorization, the totient, Moebius, divisor count, divisor power sum and Carmichael functions equal their definitions; factorial and primorial are the exact products. "
     "Arguments outside the domain raise ValueError. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all positive integers and all valid factorizations",
     "Tests compare with naive values on small ranges.",
     [NT + "arithmetic_functions/functions.py"], [("product formulas", NT + "arithmetic_functions/functions.py"), ("input validation", NT + "arithmetic_functions/functions.py:_validate_input"), ("prime swing factorial", NT + "arithmetic_functions/functions.py:factorial")])
prop("N10", "Tables and summatory functions agree entry by entry with the functions",
     "Every table of totients, Moebius values, divisor counts or divisor power sums, and every range of Moebius values, holds at each index the value of the corresponding function; every summatory function equals the sum of the function up to its argument (below 2^50, where its own floating-point square root is exact), at every argument and regardless of earlier calls. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs", "histories"], "all table sizes, powers, ranges and arguments",
     "Tests compare sums at a few round arguments.",
     [NT + "arithmetic_functions/sieves.py", NT + "arithmetic_functions/sums.py"], [("multiplicative sieves", NT + "arithmetic_functions/sieves.py"), ("hyperbola recursion with cache", NT + "arithmetic_functions/sums.py")])
prop("N11", "The inverse totient returns exactly the preimages",
     "For every positive integer, given directly or as a factorization, the inverse totient functions return in increasing order exactly the integers whose totient equals it, and nothing for a non-totient. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all positive integers",
     "Tests check counts for a few values.",
     [NT + "arithmetic_functions/inverse_functions.py"], [("prime-power backtracking", NT + "arithmetic_functions/inverse_functions.py")])
prop("N12", "Orders, primitive roots and discrete logarithms satisfy their definitions",
     "For all coprime arguments the multiplicative order is the least positive exponent giving 1 (ValueError otherwise); the primitive root test is true exactly for generators of the unit group, the least primitive root is returned exactly when one exists (ValueError otherwise), and the Fibonacci primitive roots of a prime are exactly the generators g with g^2 = g + 1. "
     "The discrete logarithm returns only exponents that work, and for a prime modulus it returns one whenever one exists and raises ValueError otherwise. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all moduli and residues, with or without the optional precomputed data",
     "Tests sample small moduli.",
     [NT + "zn_arithmetic.py"], [("order by walking over divisors", NT + "zn_arithmetic.py:multiplicative_order"), ("generator test", NT + "zn_arithmetic.py:is_primitive_root, primitive_root"), ("giant steps", NT + "zn_arithmetic.py:discrete_log")])
prop("N13", "Modular equation solvers return every solution and nothing else",
     "For every modulus and coefficients the solvers for square roots (modulo primes, prime powers and composites), roots of unity and of minus one, and linear and quadratic congruences return in increasing order exactly the residues in range satisfying the equation, and an empty list when there are none. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all moduli from 2 (from 1 for square roots) and all coefficients of any sign",
     "Tests sample a few moduli; powers of two, shared factors and degenerate coefficients take other branches.",
     [NT + "zn_arithmetic.py"], [("prime square roots", NT + "zn_arithmetic.py:sqrts_mod_p"), ("lifting and recombination", NT + "zn_arithmetic.py:_quadratic_lift, sqrts_mod_n"), ("reduction of congruences", NT + "zn_arithmetic.py:linear_congruence, quadratic_congruence")])
prop("N14", "Classification predicates are exact and return true witnesses",
     "For every integer in the domain, the square, perfect-power (both tests), squarefree and factorial tests answer exactly according to the definition, and where they return a root, base or exponent the number really is that power. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all integers of any size, especially neighbours of squares and powers",
     "Tests check small ranges and random values; residue filters err on isolated classes.",
     [NT + "classification.py"], [("residue filters", NT + "classification.py:is_square"), ("root extraction", NT + "classification.py:is_power")])
prop("N15", "Continued fraction expansions and convergents of quadratic irrationals are exact",
     "For every quadratic irrational the partial quotients are its true continued fraction expansion, the convergents are the convergents of those quotients, and the expansion of a square root repeats with its true period for as long as one iterates. Partial quotients, period length and the printed form all describe that same expansion. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all non-square radicands with any integer offset and denominator, any number of terms",
     "Tests compare a few expansions.",
     [NT + "continued_fractions.py"], [("PQa recurrence", NT + "continued_fractions.py:_initialize_quadratic, _initialize_sqrt"), ("periodic iteration", NT + "continued_fractions.py:partial_quotients, convergents")])
prop("N16", "Pell solvers return true, minimal and complete solutions",
     "For every non-square D the fundamental solution of the unit equations is the smallest positive one or is reported missing exactly when none exists. "
     "For every non-zero N the minimal positive solutions satisfy the equation, one smallest for each class of solutions, and the generator lists the positive solutions without omission or repetition up to its bound; for N^2 < D the continued-fraction solver lists the solutions in increasing order, and the Farey search returns the first of them where there is one. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all non-square D and non-zero N",
     "Tests check a few equations.",
     [NT + "diophantine_equations/pell.py"], [("continued fraction of the square root", NT + "diophantine_equations/pell.py:pell_fundamental_solution"), ("class representatives", NT + "diophantine_equations/pell.py:pell_minimal_positive_solutions, _pell_small_minimal_positive_solutions")])
prop("N17", "Arithmetic progression searches are exact",
     "For every increasing sequence of integers the three-term search returns three terms (or their positions, if asked) in arithmetic progression whenever there are any and reports their absence otherwise, and the longest-progression search returns exactly the progressions of greatest length in a sequence of at least two terms. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all finite increasing integer sequences",
     "Doctests show a few sets.",
     [NT + "arithmetic_progressions.py"], [("two-pointer scan", NT + "arithmetic_progressions.py:has_three_term_ap"), ("table recurrence", NT + "arithmetic_progressions.py:longest_ap")])
prop("N18", "Divisor optimisation and Bernoulli numbers are exact",
     "The largest divisor below a bound is the largest divisor of the number not exceeding the bound, the divisor maximiser returns a number up to the bound with the most divisors together with that count, and the list of Bernoulli numbers satisfies the defining recurrence at every index. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all positive numbers, bounds and list lengths",
     "Doctests show single values.",
     [NT + "misc.py"], [("bounded divisor search", NT + "misc.py:largest_divisor"), ("exponent backtracking", NT + "misc.py:maximize_divisors"), ("recurrence", NT + "misc.py:bernoulli_list")])

# ------------------------------------------------------------------ algebra
prop("A01", "Polynomial arithmetic is exact ring arithmetic whichever algorithm runs",
     "For all polynomials with integer coefficients and integer scalars, sums, differences, negations, products and powers have exactly the coefficients of the mathematical result with no spurious leading zeros, all multiplication and powering algorithms agree at every size, evaluation and equality agree with the coefficients, and no operation changes its operands. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all coefficient lists (including zero, constants, lengths around algorithm thresholds) and exponents",
     "Doctests show short polynomials.",
     [AL + "polynomials/polynomials.py", AL + "polynomials/algorithms.py"], [("list arithmetic", AL + "polynomials/algorithms.py:list_add, list_subtract"), ("Karatsuba splitting", AL + "polynomials/algorithms.py:mul_karatsuba"), ("power recurrence", AL + "polynomials/algorithms.py:power_jcp")])
prop("A02", "Polynomial division, content and gcd satisfy their defining identities",
     "For all integer polynomials and non-zero divisors, pseudo-division satisfies its multiplier identity with a remainder of lower degree, division satisfies dividend = divisor times quotient plus a remainder of lower degree (ValueError when the quotient is not integral), content times primitive part gives back the polynomial up to sign, and the gcd is, up to sign, the greatest common divisor over the integers.",
     ["inputs"], "all pairs of integer polynomials",
     "Doctests show one pair.",
     [AL + "polynomials/polynomials.py"], [("leading term elimination", AL + "polynomials/polynomials.py:pseudo_quo_rem, quo_rem"), ("subresultant chain", AL + "polynomials/polynomials.py:gcd")])
prop("A03", "Power series operations are exact to the stated precision",
     "Products, powers and inverses of truncated integer power series (constant term not zero for powers, a unit for inverses and negative powers) equal the true coefficients up to the truncation, both multiplication algorithms agree at every length, and the eta and delta expansions have the true coefficients. Arguments are left unchanged, and a result does not depend on what was done with those of earlier calls.",
     ["inputs"], "all coefficient lists, exponents and precisions",
     "There are no tests for this module.",
     [AL + "power_series/power_series.py"], [("classical and Karatsuba truncated products", AL + "power_series/power_series.py"), ("pentagonal exponents", AL + "power_series/power_series.py:eta_series")])
prop("A04", "Matrix arithmetic and determinants are exact and leave operands unchanged",
     "For all integer matrices of compatible shapes, sums, differences, negations, products and multiples by scalars on either side (including non-square shapes) have exactly the mathematical entries and shape, the determinant is exact for every square integer matrix including singular ones, and row or column deletion returns the right minor. "
     "No arithmetic operation changes its operands or shares rows with them, and incompatible shapes raise ValueError. The printed form shows the entries right-aligned.",
     ["inputs"], "all integer matrices and scalars",
     "Doctests show 2x2 and 3x3 examples.",
     [AL + "matrices/matrices.py"], [("entrywise operations", AL + "matrices/matrices.py:__add__, __sub__, __mul__"), ("fraction-free elimination", AL + "matrices/matrices.py:determinant")])
prop("U01", "Memoised functions behave like the functions they wrap",
     "A memoised function returns for every sequence of calls what the wrapped function returns, calling it at most once per distinct argument tuple, and never mixes results of different functions or arguments; an exception is passed on and not remembered as a result.",
     ["histories"], "all call sequences over hashable arguments and any number of memoised functions",
     "There is no test of it.",
     ["rosemary/utilities.py"], [("argument-keyed cache", "rosemary/utilities.py:cached_function")],
     state=[("cache", "argument tuple -> result", "rosemary/utilities.py")])

if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
