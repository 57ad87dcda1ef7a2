From 359a60c40af0e91457d24085c096a4d4c72ee969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 01/19] fix: use the undirected MST weight as pruning bound in
 the exact solvers

The MST is stored with both directions of every edge, so its directed weight is
twice the weight of the tree. Pruning with it is not admissible: v5, v6, the
threaded and the MPI solvers discarded branches that contain the optimal tour.
---
 src/solvers/exact.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 3b5fce6..627668c 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -410,7 +410,7 @@ fn _fifth_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
         if current_cost + lower_bound <= result.0 {
             _fifth_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
         }
@@ -513,7 +513,7 @@ fn _sixth_improved_solver_rec(
         };
         let lower_bound = mst_cache.entry(hash).or_insert(
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix)
-                .directed_edge_weight(),
+                .undirected_edge_weight(),
         );
         if current_cost + *lower_bound <= result.0 {
             _sixth_improved_solver_rec(
@@ -1021,7 +1021,7 @@ fn _mpi_improved_solver_rec(
         // tour the whole tour will definitely be bigger than our previous best version
         let lower_bound_graph =
             mst::prim_with_excluded_node_single_threaded(graph_matrix, current_prefix);
-        let lower_bound = lower_bound_graph.directed_edge_weight();
+        let lower_bound = lower_bound_graph.undirected_edge_weight();
 
         let best_known_solution = if global_best_cost < result.0 {
             global_best_cost
-- 
2.43.0


From 57bcd560b94f4faa3b1671d1253feb033b15c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 02/19] fix: make the nearest neighbour bound of the exact
 solver v4 admissible

Only neighbours with a higher index were considered, so the sum could exceed the
cost of every completion of the partial tour and the optimal tour got pruned.
---
 src/solvers/exact.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 627668c..ae6f7fa 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -325,10 +325,10 @@ where
         let mut shortest_edge_cost = f64::INFINITY;
 
         // Otherwise, we can start finding its nearest neighbour
-        for j in (i + 1)..n {
+        for j in 0..n {
             // we do not connect to ourself
             // Also we just connect within
-            if subtour.contains(&j) {
+            if j == i || subtour.contains(&j) {
                 continue;
             }
 
@@ -339,8 +339,10 @@ where
             }
         }
         // Without this check, a single node would have length infinity
+        // Two vertices can be each others nearest neighbour, so an edge may be counted twice. In
+        // order to stay a lower bound, every vertex just pays for its half of the edge.
         if shortest_edge_cost != f64::INFINITY {
-            res += shortest_edge_cost;
+            res += shortest_edge_cost * 0.5;
         }
     }
     res
-- 
2.43.0


From f38d9c11959f583891c501e47afe4e6b7677d9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:24 +0000
Subject: [PATCH 03/19] fix: evaluate the initial permutation in the exact
 solvers v0 and v1

next_permutation() is called before the first evaluation, so the identity was
never evaluated. With two cities v1 (and with one city v0) reported an infinite cost.
---
 src/solvers/exact.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index ae6f7fa..e827734 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -27,7 +27,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation) {
@@ -51,7 +51,7 @@ where
 {
     let n = graph_matrix.dim();
     let mut best_permutation: Path = (0..n).collect();
-    let mut best_cost = f64::INFINITY;
+    let mut best_cost = graph_matrix.evaluate_circle(&best_permutation);
 
     let mut current_permutation = best_permutation.clone();
     while next_permutation(&mut current_permutation[1..]) {
-- 
2.43.0


From 6ea6e81d9f0160bbdd69979bf3b879f81a340f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:31 +0000
Subject: [PATCH 04/19] fix: do not rewire a vertex in the priority queue MST
 without a cheaper edge

push_increase returns the new priority if the cost was not decreased, so
`cost <= old_cost` also held for edges that are more expensive than the known
one, and the MST got an edge whose cost belongs to another vertex pair.
---
 src/mst.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mst.rs b/src/mst.rs
index 7b74adc..4cbac71 100644
--- a/src/mst.rs
+++ b/src/mst.rs
@@ -243,7 +243,9 @@ impl FindMinCostEdge for VerticesInPriorityQueue {
             let Reverse(OrderedFloat(old_cost)) = self.cost_queue
             .push_increase(to, Reverse(OrderedFloat(cost)))
             .unwrap_or_else(|| panic!("Every unused unused vertex shall be contained in the queue from the beginning. Missing vertex: {}", to));
-            if cost <= old_cost {
+            // `push_increase` gives back the unchanged `cost` if it is not smaller than the old
+            // cost, hence only a strictly smaller cost is an improvement
+            if cost < old_cost {
                 self.connection_to_mst[to] = from;
             }
         }
-- 
2.43.0


From b12286d531bb5abe8cf5d45f6122725af3eabf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 05/19] fix: keep the matching perfect when the second
 alternative wins twice

The vertex v2 was matched twice and v3 not at all.
---
 src/solvers/approximate/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solvers/approximate/matching.rs b/src/solvers/approximate/matching.rs
index 253c174..60998cc 100644
--- a/src/solvers/approximate/matching.rs
+++ b/src/solvers/approximate/matching.rs
@@ -161,7 +161,7 @@ fn optimize_two_matching(edg01: &mut [usize; 2], edg23: &mut [usize; 2], graph:
     if cost_1 < cost_0 {
         if cost_2 < cost_1 {
             // case 2 is optimal
-            *edg01 = [v0, v2];
+            *edg01 = [v0, v3];
             *edg23 = [v1, v2];
         } else {
             // case 1 is optimal
-- 
2.43.0


From 03dc217dc7b298add8fe877ab4cfdd5f9d312dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 06/19] fix: compute a finite 1-tree lower bound for two
 vertices

There is no second neighbour, so the bound was infinite although the tour
0 -> 1 -> 0 has finite cost.
---
 src/one_tree.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index 214e4e6..ab269d2 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -60,6 +60,11 @@ pub fn one_tree(graph: &NAMatrix, special_vertex: usize) -> Graph {
         }
     }
 
+    // with only one other vertex there is no second neighbour: a tour has to use the only edge twice
+    if graph.dim() == 2 {
+        snd_min_edg = fst_min_edg;
+    }
+
     // add the two edges to the mst, making it a 1-tree
     mst.add_undirected_edge(special_vertex, fst_min_edg.to, fst_min_edg.cost);
     mst.add_undirected_edge(special_vertex, snd_min_edg.to, snd_min_edg.cost);
-- 
2.43.0


From 9a76c2105e3865b59c8a83d2eef93afba0befba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 07/19] fix: reject self loops and unknown edge targets in
 is_fully_connected

Only the number of edges was compared, so a self loop counted as an edge to
another vertex, and a vertex could miss a neighbour.
---
 src/preconditions.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/preconditions.rs b/src/preconditions.rs
index 3fe6dd4..b435e91 100644
--- a/src/preconditions.rs
+++ b/src/preconditions.rs
@@ -8,7 +8,9 @@ use crate::datastructures::Graph;
 /// This is a prerequisite for the TSP.
 pub fn is_fully_connected(g: &Graph) -> bool {
     let n = g.num_vertices();
-    g.iter().all(|v| v.degree() == n - 1)
+    g.iter().enumerate().all(|(i, v)| {
+        v.degree() == n - 1 && v.iter().all(|edge| edge.to < n && edge.to != i)
+    })
 }
 
 /// This function checks that whether the graph has multiple edges from one vertex to another
-- 
2.43.0


From 4465c699fa15d38c6309145fc8d37a150317c523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:32 +0000
Subject: [PATCH 08/19] fix: set the diagonal of a VecMatrix built from a Graph
 to zero

The diagonal was infinite, unlike in VecMatrix::from_dim and in NAMatrix, hence
is_metric never held.
---
 src/datastructures/vecmatrix.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/datastructures/vecmatrix.rs b/src/datastructures/vecmatrix.rs
index b114e6a..7e83b40 100644
--- a/src/datastructures/vecmatrix.rs
+++ b/src/datastructures/vecmatrix.rs
@@ -9,7 +9,7 @@ pub struct VecMatrix(Vec<Vec<f64>>);
 impl From<Graph> for VecMatrix {
     fn from(graph: Graph) -> Self {
         let n: usize = graph.num_vertices();
-        let mut matrix = vec![vec![f64::INFINITY; n]; n];
+        let mut matrix = VecMatrix::from_dim(n);
         for i in 0..n {
             let vi = &graph[i];
             for edge in vi.iter() {
@@ -18,7 +18,7 @@ impl From<Graph> for VecMatrix {
                 matrix[j][i] = edge.cost;
             }
         }
-        matrix.into()
+        matrix
     }
 }
 
-- 
2.43.0


From dc133db1d7043c25a19eb95347b84361e019b306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 09/19] fix: allow more MPI processes than vertices in
 nearest_neighbour_mpi

A process with an empty chunk panicked.
---
 src/solvers/approximate/nearest_neighbour.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 46dc1b0..812dfcb 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -147,7 +147,8 @@ pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
     let local_solution = (start_node..end_node)
         .map(|k| single_nearest_neighbour(graph_matrix, k.try_into().unwrap()))
         .min_by_key(|&(distance, _)| OrderedFloat(distance))
-        .unwrap();
+        // with more processes than nodes the chunk can be empty, then this process can not win
+        .unwrap_or_else(|| (f64::INFINITY, vec![0; graph_matrix.dim()]));
 
     // ALLREDUCE all solutions
     // If two solutions have same cost, we choose lower rank
-- 
2.43.0


From c1dcd5c3d85630ab55f068a560e6cb2ef081c9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:13 +0000
Subject: [PATCH 10/19] fix: allow more MPI processes than vertices in the
 1-tree lower bound

A process without a special vertex panicked.
---
 src/one_tree.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/one_tree.rs b/src/one_tree.rs
index ab269d2..8abc1ad 100644
--- a/src/one_tree.rs
+++ b/src/one_tree.rs
@@ -124,6 +124,10 @@ fn one_tree_lower_bound_par(graph: &NAMatrix) -> f64 {
 #[cfg(feature = "mpi")]
 fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
     fn one_tree_lower_bound_mpi_with_world(graph: &NAMatrix, world: SystemCommunicator) -> f64 {
+        assert!(
+            graph.dim() > 0,
+            "Cannot compute the 1-tree lower bound of the empty graph"
+        );
         let rank = world.rank() as usize;
         let size = world.size() as usize;
         let root_process = world.process_at_rank(ROOT_RANK);
@@ -136,7 +140,8 @@ fn one_tree_lower_bound_mpi(graph: &NAMatrix) -> f64 {
                 x.partial_cmp(y)
                     .expect("Tried to compare NaN value. Your data seems currupt.")
             })
-            .expect("Cannot compute the 1-tree lower bound of the empty graph");
+            // with more processes than vertices there might be no vertex left for this process
+            .unwrap_or(f64::NEG_INFINITY);
 
         let mut global_lower_bound = f64::INFINITY;
         if rank as mpi::topology::Rank == ROOT_RANK {
-- 
2.43.0


From 794819fee020d94a142c73e7c0b218562b06d69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 11/19] fix: process every prefix of the prefix space in the
 parallel exact solvers

The first and the last prefix of every chunk, and the remainder of the
division, were processed by nobody. With small chunks (many MPI processes) no
prefix at all was left and the solver returned an infinite cost.
---
 src/solvers/exact.rs | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index e827734..136df84 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -564,7 +564,8 @@ pub fn next_permutation<T: Ord>(array: &mut [T]) -> bool {
 }
 
 /// Splits the `basis`-ary space from 0...0 to (basis-1)..(basis-1) into `n` chunks of `number_digits` digits.
-/// Returns the minimum and maximum (exclusive) values for the `k`-th chunk.
+/// Returns the minimum and maximum (both inclusive) values for the `k`-th chunk.
+/// If the space can not be divided evenly, the last chunk gets the remaining values.
 pub fn split_up_b_ary_number_into_n_chunks(
     number_digits: usize,
     basis: usize,
@@ -576,7 +577,11 @@ pub fn split_up_b_ary_number_into_n_chunks(
     let chunk_size = total_values / n;
 
     let min_value = k * chunk_size;
-    let max_value = min_value + chunk_size - 1;
+    let max_value = if k == n - 1 {
+        total_values - 1
+    } else {
+        min_value + chunk_size - 1
+    };
 
     let min_digits = convert_to_b_ary_digits(min_value, basis, number_digits);
     let max_digits = convert_to_b_ary_digits(max_value, basis, number_digits);
@@ -674,11 +679,14 @@ fn threaded_solver_generic(
                 current_prefix.reserve(graph_matrix.dim());
 
                 // For each prefix
-                while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-                    // early return if we have finished our chunk
-                    if next_value == max_digits {
-                        break;
-                    }
+                let mut next = Some(min_digits.clone());
+                while let Some(next_value) = next {
+                    // stop after the last value of our chunk
+                    next = if next_value == max_digits {
+                        None
+                    } else {
+                        get_next_value(&mut min_digits, graph_matrix.dim())
+                    };
 
                     // if it has at least two times the same digit, its not a valid path
                     let is_unique =
@@ -901,11 +909,14 @@ fn static_mpi_solver_generic_nonroot(
     let mut min_digits = min_digits;
     let mut current_prefix: Vec<usize> = Vec::new();
     current_prefix.reserve(graph_matrix.dim());
-    while let Some(next_value) = get_next_value(&mut min_digits, graph_matrix.dim()) {
-        // early return if we have finished our chunk
-        if next_value == max_digits {
-            break;
-        }
+    let mut next = Some(min_digits.clone());
+    while let Some(next_value) = next {
+        // stop after the last value of our chunk
+        next = if next_value == max_digits {
+            None
+        } else {
+            get_next_value(&mut min_digits, graph_matrix.dim())
+        };
 
         // if it has at least two times the same digit, its not a valid path
         let is_unique = next_value.len() == next_value.iter().collect::<FxHashSet<_>>().len();
-- 
2.43.0


From d84787f7d21b49269f029fcfdd8bcbbdfeb2a151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:03 +0000
Subject: [PATCH 12/19] fix: give every MPI process a buffer for the path of
 the winner

A process that found no tour itself (nothing to do or everything pruned) took
part in the broadcast with an empty buffer, and did not get the path.
---
 src/solvers/exact.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 136df84..e47e6f2 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -812,6 +812,8 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     } else {
         // This is just the local winner path, look below on how the winner broadcasts its one.
         winner_path = static_mpi_solver_generic_nonroot(&world, graph_matrix, prefix_length);
+        // it is empty if this process did not find any tour, but we broadcast into it later
+        winner_path.resize(graph_matrix.dim(), 0);
     }
 
     // After the barrier was broken we can broadcast the winner rank and cost
@@ -1138,6 +1140,8 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     } else {
         // This is just the local winner path, look below on how the winner broadcasts its one.
         winner_path = dynamic_mpi_solver_nonroot(&world, graph_matrix);
+        // it is empty if this process did not find any tour, but we broadcast into it later
+        winner_path.resize(graph_matrix.dim(), 0);
     }
 
     // After the barrier was broken we can broadcast the winner rank and cost
-- 
2.43.0


From 51ef79f4f3ba93965dced39875997849539149f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 13/19] fix: solve tiny instances sequentially in the parallel
 exact solvers

If there are less vertices than digits in a prefix, or no MPI worker, nobody
processes a prefix: the result was an infinite cost, or a panic.
---
 src/solvers/exact.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index e47e6f2..d1ac37f 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -653,8 +653,8 @@ fn threaded_solver_generic(
             .into(),
     };
 
-    // if (number of threads >= n) we do seq
-    if number_of_threads >= graph_matrix.dim() {
+    // if (number of threads >= n) we do seq, also if a prefix would be longer than a tour
+    if number_of_threads >= graph_matrix.dim() || prefix_length > graph_matrix.dim() {
         return fifth_improved_solver(graph_matrix);
     }
 
@@ -802,6 +802,11 @@ pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize)
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // if there are no workers, or if a prefix would be longer than a tour, everybody does seq
+    if world.size() == 1 || prefix_length > graph_matrix.dim() {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
@@ -1130,6 +1135,11 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
+    // if there are no workers, or if the first prefix [1, 2, 3] does not exist, everybody does seq
+    if world.size() == 1 || graph_matrix.dim() <= 3 {
+        return fifth_improved_solver(graph_matrix);
+    }
+
     // Will be used once the entire computation is done
     // Has to be available to both root and non-root as we broadcast into it
     let mut winner = MPICostRank(f64::INFINITY, 0);
-- 
2.43.0


From 3218463f30cdddc9c529b2962c185f20303c5214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:16 +0000
Subject: [PATCH 14/19] fix: initialize MPI once per program run

Every solver initialized (and finalized) MPI on its own, so an approximation
followed by a lower bound panicked, and the non-root processes of christofides
did not take part in the lower bound computation.
---
 src/lib.rs                                   | 23 +++++++++++++++-----
 src/solvers/approximate/nearest_neighbour.rs |  7 +++---
 src/solvers/exact.rs                         | 10 +++++----
 3 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3b4ffa1..018fae5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -104,8 +104,7 @@ fn approx_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let root_process = world.process_at_rank(0);
 
@@ -122,8 +121,11 @@ fn approx_run(
                             &graph,
                         );
                         mpi_improve_matching(&graph, matching.as_mut_slice(), tries, world);
-                        // non-root process is done here
-                        return Ok(());
+                        // non-root process is done here, except for the lower bound
+                        return match lower_bound {
+                            Some(algo) => lower_bound_run(algo, input_file, parallelism),
+                            None => Ok(()),
+                        };
                     }
                 }
             };
@@ -183,8 +185,7 @@ fn lower_bound_run(
                 }
                 #[cfg(feature = "mpi")]
                 Parallelism::MPI => {
-                    let universe = mpi::initialize().unwrap();
-                    let world = universe.world();
+                    let world = SystemCommunicator::world();
                     let rank = world.rank();
                     let result =
                         one_tree_lower_bound::<{ computation_mode::MPI_COMPUTATION }>(&na_matrix);
@@ -225,6 +226,16 @@ fn lower_bound_run(
 
 /// This function calls the main logic of our program.
 pub fn run(cli: Cli) -> Result<(), Box<dyn Error>> {
+    // MPI can be initialized only once, so keep the universe until everything has been computed
+    #[cfg(feature = "mpi")]
+    let _universe = match cli.command {
+        cli::Commands::Exact { parallelism, .. }
+        | cli::Commands::Approx { parallelism, .. }
+        | cli::Commands::LowerBound { parallelism, .. } => {
+            (parallelism == Parallelism::MPI).then(mpi::initialize)
+        }
+    };
+
     match cli.command {
         cli::Commands::Exact {
             algorithm,
diff --git a/src/solvers/approximate/nearest_neighbour.rs b/src/solvers/approximate/nearest_neighbour.rs
index 812dfcb..8b4c86e 100644
--- a/src/solvers/approximate/nearest_neighbour.rs
+++ b/src/solvers/approximate/nearest_neighbour.rs
@@ -6,7 +6,7 @@ use rayon::iter::ParallelIterator;
 use rayon::prelude::IntoParallelIterator;
 
 #[cfg(feature = "mpi")]
-use mpi::{collective::UserOperation, traits::*};
+use mpi::{collective::UserOperation, topology::SystemCommunicator, traits::*};
 
 use crate::{
     computation_mode::{panic_on_invaid_mode, PAR_COMPUTATION, SEQ_COMPUTATION},
@@ -126,8 +126,9 @@ pub fn nearest_neighbour<const MODE: usize>(graph_matrix: &NAMatrix) -> Solution
 /// Now every node knows the global minimum and can successfully return it.
 #[cfg(feature = "mpi")]
 pub fn nearest_neighbour_mpi(graph_matrix: &NAMatrix) -> Solution {
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // keep the universe, if it is ours, until the solver has finished
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let size = world.size();
     let rank = world.rank();
 
diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index d1ac37f..11156ff 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -797,8 +797,9 @@ pub fn static_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
 /// winner). Remember that this path-sending was done lazily as an network efficiency optimization.
 #[cfg(feature = "mpi")]
 pub fn static_mpi_solver_generic(graph_matrix: &NAMatrix, prefix_length: usize) -> Solution {
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // keep the universe, if it is ours, until the solver has finished
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
@@ -1130,8 +1131,9 @@ pub fn dynamic_mpi_solver(graph_matrix: &NAMatrix) -> Solution {
      * but third and fourth function parameters for root and non-root wouldn't make
      * it more readable either.
      */
-    let universe = mpi::initialize().unwrap();
-    let world = universe.world();
+    // keep the universe, if it is ours, until the solver has finished
+    let _universe = mpi::initialize();
+    let world = SystemCommunicator::world();
     let rank = world.rank();
     let root = world.process_at_rank(0);
 
-- 
2.43.0


From f655fd189cb04f8f237b5dc4211196a8a316e62a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:24 +0000
Subject: [PATCH 15/19] verif: hook at the lock of the multi-threaded exact
 solver (cfg walky_verif)

---
 src/lib.rs           |  5 +++
 src/solvers/exact.rs |  6 ++-
 src/verif.rs         | 94 ++++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 104 insertions(+), 1 deletion(-)
 create mode 100644 src/verif.rs

diff --git a/src/lib.rs b/src/lib.rs
index 018fae5..5fefe03 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,6 @@
+// `walky_verif` is only set by the verification harness
+#![allow(unexpected_cfgs)]
+
 use crate::mst::prim_with_excluded_node_priority_queue;
 use crate::{
     datastructures::NAMatrix, mst::prim, parser::TravellingSalesmanProblemInstance,
@@ -17,6 +20,8 @@ pub mod one_tree;
 pub mod parser;
 pub mod preconditions;
 pub mod solvers;
+#[cfg(walky_verif)]
+pub mod verif;
 
 /// rank 0 is the main node
 #[cfg(feature = "mpi")]
diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 11156ff..2f43220 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -1,8 +1,12 @@
 //! Exact methods to solve the TSP problem.
 
+#[cfg(walky_verif)]
+use crate::verif::Mutex;
+#[cfg(not(walky_verif))]
+use std::sync::Mutex;
 use std::{
     hash::{Hash, Hasher},
-    sync::{Arc, Mutex},
+    sync::Arc,
 };
 
 use crate::{
diff --git a/src/verif.rs b/src/verif.rs
new file mode 100644
index 0000000..79b9b32
--- /dev/null
+++ b/src/verif.rs
@@ -0,0 +1,94 @@
+//! Hooks for the verification harness. Only compiled with `--cfg walky_verif`.
+//!
+//! The mutex behaves like [`std::sync::Mutex`], but it reports when a thread wants to enter a
+//! critical section, when it has entered it, and when it is about to leave it.
+
+use std::ops::{Deref, DerefMut};
+use std::sync::{LockResult, PoisonError, RwLock};
+
+use crate::datastructures::Solution;
+
+#[derive(Clone, Copy, Debug, PartialEq, Eq)]
+pub enum Event {
+    Before,
+    Acquired,
+    Releasing,
+}
+
+pub type Callback = fn(Event, Option<&Solution>);
+
+static CALLBACK: RwLock<Option<Callback>> = RwLock::new(None);
+
+/// Install (or remove) the function that gets all events.
+pub fn set_callback(callback: Option<Callback>) {
+    *CALLBACK.write().unwrap() = callback;
+}
+
+fn report<T>(event: Event, value: Option<&T>) {
+    let callback = *CALLBACK.read().unwrap();
+    if let Some(callback) = callback {
+        callback(event, value.and_then(as_solution));
+    }
+}
+
+fn as_solution<T>(value: &T) -> Option<&Solution> {
+    if std::any::type_name::<T>() == std::any::type_name::<Solution>() {
+        // safety: it is the same type
+        Some(unsafe { &*(value as *const T as *const Solution) })
+    } else {
+        None
+    }
+}
+
+#[derive(Debug, Default)]
+pub struct Mutex<T>(std::sync::Mutex<T>);
+
+impl<T> Mutex<T> {
+    pub fn new(value: T) -> Self {
+        Mutex(std::sync::Mutex::new(value))
+    }
+
+    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+        report::<T>(Event::Before, None);
+        let (guard, poisoned) = match self.0.lock() {
+            Ok(guard) => (guard, false),
+            Err(error) => (error.into_inner(), true),
+        };
+        report(Event::Acquired, Some(&*guard));
+        let guard = MutexGuard(guard);
+        if poisoned {
+            Err(PoisonError::new(guard))
+        } else {
+            Ok(guard)
+        }
+    }
+
+    pub fn into_inner(self) -> LockResult<T> {
+        self.0.into_inner()
+    }
+
+    pub fn get_mut(&mut self) -> LockResult<&mut T> {
+        self.0.get_mut()
+    }
+}
+
+pub struct MutexGuard<'a, T>(std::sync::MutexGuard<'a, T>);
+
+impl<T> Deref for MutexGuard<'_, T> {
+    type Target = T;
+    fn deref(&self) -> &T {
+        &self.0
+    }
+}
+
+impl<T> DerefMut for MutexGuard<'_, T> {
+    fn deref_mut(&mut self) -> &mut T {
+        &mut self.0
+    }
+}
+
+impl<T> Drop for MutexGuard<'_, T> {
+    fn drop(&mut self) {
+        report(Event::Releasing, Some(&*self.0));
+    }
+}
-- 
2.43.0


From 31bb9539532d24b4c819b46be77c96fc4bb80ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:01 +0000
Subject: [PATCH 16/19] fix: keep the prefix cost exact when backtracking in
 the exact solvers

Subtracting the cost of an edge again does not restore the previous cost if
the edge is much more expensive than the prefix (e.g. a forbidden edge of cost
1e20 next to an edge of cost 1), and the solvers went on with a wrong cost.
---
 src/solvers/exact.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/solvers/exact.rs b/src/solvers/exact.rs
index 2f43220..7f08535 100644
--- a/src/solvers/exact.rs
+++ b/src/solvers/exact.rs
@@ -136,13 +136,12 @@ fn _second_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // rec call
         _second_improved_solver_rec(graph_matrix, current_prefix, current_cost, result);
 
         // remove
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -207,7 +206,7 @@ fn _third_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // HERE IS THE BIG DIFFERENCE TO [`_second_improved_solver_rec`]!
         if current_cost <= result.0 {
@@ -215,7 +214,6 @@ fn _third_improved_solver_rec<T>(
         }
         // This was it. This is the pruning
 
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -297,7 +295,7 @@ fn _fourth_improved_solver_rec<T>(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -307,7 +305,6 @@ fn _fourth_improved_solver_rec<T>(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -410,7 +407,7 @@ fn _fifth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -422,7 +419,6 @@ fn _fifth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -508,7 +504,7 @@ fn _sixth_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -532,7 +528,6 @@ fn _sixth_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
@@ -1040,7 +1035,7 @@ fn _mpi_improved_solver_rec(
         let from = current_prefix.len() - 2;
         let to = from + 1;
         let cost_last_edge = graph_matrix.get(current_prefix[from], current_prefix[to]);
-        current_cost += cost_last_edge;
+        let current_cost = current_cost + cost_last_edge;
 
         // If our current sub-tour, together with a lower bound, is already bigger than the whole
         // tour the whole tour will definitely be bigger than our previous best version
@@ -1065,7 +1060,6 @@ fn _mpi_improved_solver_rec(
         }
 
         // Remove the last edge
-        current_cost -= cost_last_edge;
         current_prefix.pop();
     }
 }
-- 
2.43.0


From bd08484100a5113fe86702990e2055fb8ea4270d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:16 +0000
Subject: [PATCH 17/19] fix: write edges of length zero in gen_matrix_fast

---
 utils/gen_matrix_fast/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/gen_matrix_fast/src/main.rs b/utils/gen_matrix_fast/src/main.rs
index cc25eb5..82a05c4 100644
--- a/utils/gen_matrix_fast/src/main.rs
+++ b/utils/gen_matrix_fast/src/main.rs
@@ -28,10 +28,10 @@ fn generate_xml_from_matrix(matrix: &[Vec<f64>]) {
     println!("  <ignoredDigits>{}</ignoredDigits>", ignored_digits);
     println!("  <graph>");
 
-    for (_, row) in matrix.iter().enumerate() {
+    for (row_index, row) in matrix.iter().enumerate() {
         println!("    <vertex>");
         for (col_index, &value) in row.iter().enumerate() {
-            if value == 0.0 {continue;}
+            if row_index == col_index {continue;}
             println!("      <edge cost=\"{}\">{}</edge>", value, col_index);
         }
         println!("    </vertex>");
-- 
2.43.0


From 84b2de8643bc653f0edcf197c8eb9f0fbe255b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 18/19] fix: write edges of length zero in convert_to_rust_code

---
 utils/tsp_logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/tsp_logic.py b/utils/tsp_logic.py
index 9f72fa1..36e236f 100644
--- a/utils/tsp_logic.py
+++ b/utils/tsp_logic.py
@@ -27,7 +27,7 @@ def convert_to_rust_code(cost_matrix):
     for i in range(n):
         edges = []
         for j in range(n):
-            if i != j and cost_matrix[i][j] != 0.0:
+            if i != j:
                 edges.append(f"Edge {{ to: {j}, cost: {cost_matrix[i][j]} }}")
         vertices.append(f"Vertex {{ edges: vec![{', '.join(edges)}] }}")
     rust_code = f"let graph = Graph {{vertices: vec![{','.join(vertices)}]}};"
-- 
2.43.0


From 4e214a3aa32c08143d2debe9e27acb13d73ffb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:32 +0000
Subject: [PATCH 19/19] fix: write integer costs as floating point numbers in
 convert_to_rust_code

---
 utils/tsp_logic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/tsp_logic.py b/utils/tsp_logic.py
index 36e236f..6fdf818 100644
--- a/utils/tsp_logic.py
+++ b/utils/tsp_logic.py
@@ -28,7 +28,7 @@ def convert_to_rust_code(cost_matrix):
         edges = []
         for j in range(n):
             if i != j:
-                edges.append(f"Edge {{ to: {j}, cost: {cost_matrix[i][j]} }}")
+                edges.append(f"Edge {{ to: {j}, cost: {float(cost_matrix[i][j])} }}")
         vertices.append(f"Vertex {{ edges: vec![{', '.join(edges)}] }}")
     rust_code = f"let graph = Graph {{vertices: vec![{','.join(vertices)}]}};"
     return rust_code
-- 
2.43.0

