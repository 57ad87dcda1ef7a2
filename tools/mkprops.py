#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))
EX='src/solvers/exact.rs'; MST='src/mst.rs'; OT='src/one_tree.rs'; NN='src/solvers/approximate/nearest_neighbour.rs'
MA='src/solvers/approximate/matching.rs'; CH='src/solvers/approximate/christofides.rs'; PA='src/parser.rs'
PR='src/preconditions.rs'; DS='src/datastructures/mod.rs'; VM='src/datastructures/vecmatrix.rs'; NA='src/datastructures/nalgebra.rs'
LIB='src/lib.rs'; CLI='src/cli.rs'; SO='src/solvers/mod.rs'

p('C01','Every sequential exact solver returns an optimal tour',
  "For every complete instance with at least two cities and finite, non-negative, symmetric costs, each of the seven sequential exact solvers terminates with a tour that visits every city exactly once, and reports as cost exactly what going round that tour (back to its start) costs. That cost is the minimum over all tours, hence all seven agree. No pruning step ever discards the only remaining optimal tour.",
  ['inputs'],'All symmetric cost matrices with 2 or more cities, with ties, zeros, non-metric and fractional costs; both matrix representations.',
  'The tests run three fixed matrices of 4 to 6 cities; a wrong lower bound or a skipped permutation only shows on matrices where the optimum lies in the part that is cut off.',
  [EX,DS,MST],[('enumeration and pruning of v0..v6',EX),('lower bounds (partial sum, nearest neighbours, spanning tree, cached spanning tree)',EX)],
  [('best known tour','cheapest tour so far',EX),('prefix','fixed part of the tour that is being extended',EX)],['return value of each solver'])
p('C02','The multi-threaded exact solver is optimal for every thread count and schedule',
  "For every instance of C01, every number of threads and every interleaving of the threads, the multi-threaded exact solver terminates and returns a tour through all cities together with that tour's own cost, which equals the optimum. The threads together look at (a rotation or reflection of) every tour that could be optimal, and a better tour found by one thread is never replaced by a worse one of another thread.",
  ['schedules','inputs','configurations'],'All instances, all thread counts (below, equal to and above the number of cities), all interleavings of the updates of the shared best tour.',
  'The test calls it on three fixed graphs, on a machine with more cores than cities, where it falls back to the sequential solver; no test controls the schedule.',
  [EX],[('division of the prefix space into chunks',EX),('shared best tour behind a lock',EX)],
  [('shared best','best tour and its cost over all threads',EX)],['return value','updates of the shared best (hook)'],
  'order in which the tasks enter the critical section (cfg walky_verif)')
p('C03','The static MPI exact solver terminates with the optimum on every world size',
  "For every instance of C01, every number of processes (with fewer workers than prefixes in the prefix space), every prefix length the solver supports and every order in which messages are delivered, the exact solver with static work distribution over message passing terminates on all processes. All processes return the same cost and the same tour; the cost is the optimum and is the cost of that tour.",
  ['schedules','inputs','configurations'],'All world sizes from 1 up, all message orders (any-source receives, buffered or synchronous sends), all instances.',
  'There is no test with message passing at all; deadlock and disagreement depend on message order, on workers that find nothing and on the shape of the chunks.',
  [EX,DS],[('coordinator loop counting finished workers',EX),('barrier, winner broadcast, path broadcast',EX),('prefix chunk per rank',EX)],
  [('current winner','best cost and the rank that owns the tour',EX)],['return value of every rank','termination'])
p('C04','The dynamic MPI exact solver terminates with the optimum on every world size',
  "For every instance of C01, every number of processes and every order in which messages are delivered, the exact solver with dynamic work distribution over message passing terminates on all processes, also with more workers than prefixes. All processes return the same cost and the same tour; the cost is the optimum and is the cost of that tour. Work handed out by the coordinator always suffices to find an optimal tour.",
  ['schedules','inputs','configurations'],'All world sizes from 1 up, all message orders, all instances.',
  'There is no test with message passing at all; which worker gets which prefix, and with which bound, is decided by the message order.',
  [EX,DS],[('coordinator hands out the next prefix or the end marker',EX),('barrier, winner broadcast, path broadcast',EX)],
  [('next prefix','first prefix not handed out yet',EX),('current winner','best cost and the rank that owns the tour',EX)],['return value of every rank','termination'])
p('C05','Every spanning tree computation returns a minimum spanning tree',
  "For every symmetric cost matrix and every set of excluded vertices, the sequential, the multi-threaded and the priority-queue computation each return a tree that connects exactly the non-excluded vertices reachable from the first of them, using only edges of the graph with the cost they have in the graph, each recorded at both of its ends. The total weight is minimal, hence all three agree on it. Excluded or unreachable vertices have no edges.",
  ['inputs','configurations'],'All symmetric matrices (ties, zeros, infinite = missing edges), all excluded sets, all three variants.',
  'The tests compare four or five fixed graphs without exclusions on the queue and parallel variants; wrong parents on decrease or ties leave the weight of small graphs unchanged.',
  [MST,DS,PA],[("Prim's algorithm over three frontier structures",MST)],[('frontier','cheapest known edge from each outside vertex to the tree',MST)],['returned adjacency list'])
p('C06','The 1-tree bound is the maximum 1-tree weight and never exceeds the optimum',
  "For every instance with at least two cities and every special vertex, the 1-tree is a minimum spanning tree of the other cities plus the two cheapest edges at the special vertex (the only edge, taken twice, for two cities). The reported lower bound is the maximum of the 1-tree weights over all special vertices, is the same in the sequential and the multi-threaded mode, and is never greater than the cost of any tour.",
  ['inputs','configurations'],'All instances with two or more cities, all special vertices, both modes.',
  'The tests check one special vertex of fixed graphs; ties between the two cheapest edges, a last or first vertex that is the maximum, and tiny instances are not reached.',
  [OT,MST,PA],[('two cheapest edges scan',OT),('maximum over special vertices',OT)],[],['returned tree and bound'])
p('C07','Nearest neighbour returns a greedy tour and the best over its start cities',
  "For every instance with finite costs, a nearest-neighbour tour from a given start visits every city exactly once, starts there, and always goes to a nearest unvisited city; the reported distance is the cost of that tour including the way back. Trying all start cities (sequentially or with several threads) returns a greedy tour whose cost is the minimum over the start cities, and trying some number of distinct starts returns the best greedy tour of that many different starts.",
  ['inputs','schedules','configurations'],'All instances, all start cities, all numbers of starts, both modes, all random choices of the starts.',
  'The tests check one 5x5 graph exactly and only the absence of failures elsewhere; the choice of the starts is random, ties and starts at the boundary are not reached.',
  [NN],[('greedy step',NN),('distinct random start cities',NN),('minimum over the tours',NN)],[],['returned distance and path'])
p('C08','The randomized matching is perfect and no improvement step makes it worse',
  "For every cost matrix, every list of distinct vertices of even length, every number of tries and every random choice, the returned matching covers exactly the given vertices, each exactly once, in the sequential and in the multi-threaded mode and for any size. Rearranging two pairs never makes the matching more expensive, so with four vertices and at least one try the matching has minimum cost.",
  ['inputs','schedules','configurations'],'All matrices, vertex lists (not necessarily contiguous), numbers of tries, random choices; sizes on both sides of the threshold at which work is split between threads.',
  'The only test of the two-pair step uses two fixed situations; the case order (first and second alternative both better) and the random pairing are not covered.',
  [MA],[('random initial pairing',MA),('two-pair exchange',MA),('parallel chunks',MA)],[('matching','current list of pairs',MA)],['returned pairs'])
p('C09',"Christofides returns a closed tour within its approximation bound",
  "For every metric instance with at least two cities and every random choice, the Christofides approximation returns a closed tour that starts and ends at the same city and visits every other city exactly once, and reports exactly the cost of that tour, in every mode. That cost is at least the optimum and at most the weight of the minimum spanning tree plus the weight of the matching that was used. If the matching has minimum cost, the tour costs at most 1.5 times the optimum.",
  ['inputs','schedules','configurations'],'All metric instances, sequential and multi-threaded mode, all random matchings, and any caller-supplied perfect matching of the odd vertices.',
  'The tests check the helper functions on two fixed graphs and the whole algorithm on one graph of four vertices; doubled edges, several Eulerian sub-cycles and the approximation factor are not reached.',
  [CH,MA,MST,SO],[('union of tree and matching',CH),('Eulerian cycle by splicing sub-cycles',CH),('shortcutting',CH)],[('multigraph','remaining multiplicity of each edge',CH)],['returned cost and cycle'])
p('C10','The parser accepts exactly complete symmetric instances and keeps every cost',
  "A well-formed instance document with at least two cities is accepted if and only if its graph is complete, has no loops, no parallel edges and no edges to unknown cities, and has the same cost in both directions of each edge. For an accepted document every cost in the resulting cost matrix is the one written in the document, independent of the order of the edges, and the header fields are preserved. Truncated or otherwise malformed documents never yield an instance.",
  ['inputs'],'All documents of the XML-TSPLIB schema with two or more cities: any edge order, number format, and any single or multiple defect; all truncations.',
  'The tests parse one fixed document and check the three preconditions separately on one positive and one negative example each; combinations, edge order and truncation are not covered.',
  [PA,PR,NA,VM],[('deserialization',PA),('completeness, parallel-edge and symmetry checks',PR),('conversion to a matrix',NA)],[],['accepted or rejected, resulting matrix'])
p('C11','The enumeration primitives visit every value exactly once, in order',
  "Stepping through permutations visits every distinct arrangement of any sequence (also with repeated values) above the start exactly once in ascending order, and then stops. Stepping a fixed-width number in any base yields its successor until the largest value and then reports overflow. Dividing such a number space into any number of chunks smaller than the space yields consecutive chunks that cover every value exactly once.",
  ['inputs'],'All sequences, all bases, widths and numbers of chunks smaller than the space.',
  'The test enumerates the permutations of four distinct values once; carries, repeated values and all chunk boundaries are untested.',
  [EX],[('lexicographic successor',EX),('digit carry',EX),('chunk boundaries',EX)],[],['visited values'])
p('C12','Cost evaluation, matrix constructions and the metric test agree with the graph',
  "For every instance, the cost of a path is the sum of the costs of its consecutive edges and the cost of a circle additionally contains the closing edge (paths with at most one city cost nothing); both matrix representations, also when converted into each other, give the same result and have zero cost from a city to itself. Building a matrix from points gives the Euclidean distances and is the same whether done in parallel or not. The metric test answers yes exactly if no detour is shorter than a direct edge (up to its documented rounding slack).",
  ['inputs','configurations'],'All matrices, paths (also partial and repeated cities) and point sets, both representations.',
  'The tests use three points, one 2x2 conversion and two triangles; conversions between the representations and paths are only used indirectly.',
  [DS,NA,VM],[('path and circle evaluation',DS),('conversions',NA),('triangle inequality scan',DS)],[],['returned values'])
p('C13','The message-passing approximations and bounds agree with the sequential ones',
  "For every instance and every number of processes (also more processes than cities) and every message order, the message-passing versions of nearest neighbour, the 1-tree bound and the matching used by Christofides terminate on all processes. Nearest neighbour gives every process the same best greedy tour and its cost; the 1-tree bound on the main process equals the sequential bound; the matching is perfect on the given vertices, the same on all processes, and no more expensive than what any process found.",
  ['schedules','inputs','configurations'],'All world sizes, message orders, instances and random choices.',
  'There is no test with message passing; empty chunks, ties between processes and message order are only reached with several processes.',
  [NN,OT,MA,CH],[('reduction to the cheapest cost and lowest rank',NN),('maximum reduction',OT),('collect and broadcast of the best matching',MA)],[],['results of every rank','termination'])
p('C14','The command line prints the answer of the selected algorithm or fails',
  "For every valid instance file, every subcommand, algorithm and parallelism option that the program offers terminates successfully and prints the result: exact algorithms print the optimal cost and a tour of that cost, approximations print a tour cost between the optimum and their guarantee (and their tour if they print one), lower bounds print the value of the chosen bound, also when requested together with an approximation. (Over message passing two exact algorithms are offered: v0, static, and v1, dynamic; the others end with a failure.) For a missing, malformed or invalid file the program ends with a failure status and prints no result.",
  ['inputs','configurations'],'All combinations of subcommand, algorithm, parallelism and optional lower bound; all instance files.',
  'No test runs the program or its driver functions; the wiring from options to solvers and the output are untested.',
  [LIB,CLI,'src/main.rs'],[('dispatch on algorithm and parallelism',LIB),('option parsing',CLI)],[],['stdout, exit status'])
p('C15','The Hamiltonian cycle test accepts exactly the closed tours',
  "A closed sequence of cities (first equal to last) is recognized as a Hamiltonian cycle of a graph with at least two cities if and only if it visits every city of the graph, returns to its first city at the end, and repeats no other city. Sequences with unknown cities are rejected.",
  ['inputs'],'All graphs with two or more cities and all closed sequences, of any length.',
  'The tests check three fixed sequences.',
  [SO],[('counting the visits of every city',SO)],[],['returned value'])
p('C16','Graph operations keep the adjacency list consistent over every history',
  "Starting from any undirected graph, after every sequence of adding undirected edges (also parallel ones) the number of vertices is unchanged, each edge is present at both of its ends with its cost, the degree of a vertex is the number of edge ends at it, and the undirected weight is the sum of the costs of the edges while the directed weight is twice that.",
  ['histories'],'All sequences of operations on all graphs.',
  'The tests check the weights of two fixed graphs; adding edges and degrees is only used indirectly.',
  [PA],[('adding an edge at both ends',PA),('degree and weight sums',PA)],[('adjacency list','edges per vertex',PA)],['degrees, edges and weights after every operation'])
p('C17','Lower bounds, optimum and approximations are ordered',
  "For every instance, the minimum spanning tree weight is at most the 1-tree bound, which is at most the exact optimum, which is at most the cost of every approximation; this holds for any combination of the sequential and multi-threaded variants. For metric instances the nearest-neighbour result is moreover at most (ceil(log2 n)+1)/2 times the optimum.",
  ['inputs','configurations'],'All instances and all pairs of variants.',
  'One test checks nearest neighbour >= exact on a 5x5 graph; no test relates the bounds to the solvers.',
  [MST,OT,EX,NN,CH],[('all solvers and bounds',LIB)],[],['returned values'])
p('C18','Generated instances are valid and are solved by the program',
  "For every number of cities from two up, the instance generators shipped with the repository write documents that the program accepts: complete, symmetric and with the requested number of cities. The distances satisfy the triangle inequality, so that every algorithm of the program can run on it, and exact and approximate results on it are ordered as they have to be.",
  ['inputs'],'All numbers of cities from two up and all random choices of the generator.',
  'The generators have no tests and their output is only used by hand for benchmarks.',
  ['utils/gen_matrix_fast/src/main.rs','utils/tsp_logic.py','utils/benchmark_gen.py',PA,PR],[('point sampling and distance table','utils/gen_matrix_fast/src/main.rs')],[],['generated document, accepted or not'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
