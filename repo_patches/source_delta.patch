From 6539e5d3f07894157726f6c573ab7b503f92fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:16 +0000
Subject: [PATCH 01/10] fix: reject the first out-of-range id in
 descendant_edges and get_basis_spec

---
 src/fem_domain/domain.rs      | 2 +-
 src/fem_domain/domain/mesh.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain.rs b/src/fem_domain/domain.rs
index e58196b..f7c1da6 100644
--- a/src/fem_domain/domain.rs
+++ b/src/fem_domain/domain.rs
@@ -181,7 +181,7 @@ impl Domain {
     /// * An `Err` if the `elem` does not have a [BasisSpec] at the given `address`
     ///
     pub fn get_basis_spec(&self, bs_address: BSAddress) -> Result<&BasisSpec, String> {
-        if bs_address.elem_id > self.mesh.elems.len() {
+        if bs_address.elem_id >= self.mesh.elems.len() {
             Err(format!(
                 "Elem {} does not exist; cannot retrieve BasisSpec!",
                 bs_address.elem_id
diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index 5430879..bb4dcc2 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -579,7 +579,7 @@ impl Mesh {
         edge_id: usize,
         include_starting_edge: bool,
     ) -> Result<Vec<usize>, MeshAccessError> {
-        if edge_id > self.edges.len() {
+        if edge_id >= self.edges.len() {
             Err(MeshAccessError::EdgeDoesNotExist(edge_id))
         } else {
             let mut descendants = Vec::new();
-- 
2.43.0


From 01be2d9ef41a4c1bddcf4dd95f6f3c6b0f0ef70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 02/10] fix: sum and apply p-refinement deltas without 8-bit
 overflow

---
 src/fem_domain/domain/mesh/p_refinement.rs | 25 ++++++++++++----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/fem_domain/domain/mesh/p_refinement.rs b/src/fem_domain/domain/mesh/p_refinement.rs
index ed413b4..f7bf5a8 100644
--- a/src/fem_domain/domain/mesh/p_refinement.rs
+++ b/src/fem_domain/domain/mesh/p_refinement.rs
@@ -95,9 +95,10 @@ impl From<PolyOrders> for JsonValue {
 
 // the internal p-refinement type
 #[derive(Clone, Copy, Debug, PartialEq, Eq)]
+// (magnitudes are stored as u64s so that sums of several i8 deltas do not overflow)
 enum PRefInt {
-    Increment(u8),
-    Decrement(u8),
+    Increment(u64),
+    Decrement(u64),
     None,
 }
 
@@ -105,17 +106,17 @@ impl PRefInt {
     fn refine(&self, n: u8) -> Result<u8, PRefError> {
         match self {
             Self::Increment(delta) => {
-                if n + *delta > MAX_POLYNOMIAL_ORDER {
+                if *delta > MAX_POLYNOMIAL_ORDER.saturating_sub(n) as u64 {
                     Err(PRefError::ExceededMaxExpansion)
                 } else {
-                    Ok(n + *delta)
+                    Ok(n + *delta as u8)
                 }
             }
             Self::Decrement(delta) => {
-                if *delta >= n {
+                if *delta >= n as u64 {
                     Err(PRefError::NegExpansion)
                 } else {
-                    Ok(n - *delta)
+                    Ok(n - *delta as u8)
                 }
             }
             Self::None => Ok(n),
@@ -125,8 +126,8 @@ impl PRefInt {
     pub const fn from_i8(delta: i8) -> Self {
         match delta {
             0 => PRefInt::None,
-            d if d > 0 => PRefInt::Increment(d as u8),
-            d if d < 0 => PRefInt::Decrement(-d as u8),
+            d if d > 0 => PRefInt::Increment(d.unsigned_abs() as u64),
+            d if d < 0 => PRefInt::Decrement(d.unsigned_abs() as u64),
             _ => unreachable!(),
         }
     }
@@ -134,8 +135,10 @@ impl PRefInt {
     pub fn as_i8(&self) -> i8 {
         match self {
             Self::None => 0,
+            Self::Increment(delta) if *delta > i8::MAX as u64 => i8::MAX,
             Self::Increment(delta) => *delta as i8,
-            Self::Decrement(delta) => -1 * (*delta as i8),
+            Self::Decrement(delta) if *delta > i8::MAX as u64 => i8::MIN,
+            Self::Decrement(delta) => -(*delta as i8),
         }
     }
 
@@ -159,7 +162,7 @@ impl AddAssign for PRefInt {
     fn add_assign(&mut self, rhs: Self) {
         let sum = match *self {
             Self::Increment(s_delta) => match rhs {
-                Self::Increment(r_delta) => Self::Increment(s_delta + r_delta),
+                Self::Increment(r_delta) => Self::Increment(s_delta.saturating_add(r_delta)),
                 Self::Decrement(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Increment(s_delta - r_delta),
@@ -168,7 +171,7 @@ impl AddAssign for PRefInt {
                 Self::None => self.clone(),
             },
             Self::Decrement(s_delta) => match rhs {
-                Self::Decrement(r_delta) => Self::Decrement(s_delta + r_delta),
+                Self::Decrement(r_delta) => Self::Decrement(s_delta.saturating_add(r_delta)),
                 Self::Increment(r_delta) => match s_delta.cmp(&r_delta) {
                     Ordering::Equal => Self::None,
                     Ordering::Greater => Self::Decrement(s_delta - r_delta),
-- 
2.43.0


From 440a860822a6a1e711628a99f347463e2fc23171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 03/10] fix: keep the extension when an extended h-refinement
 follows a plain one

---
 src/fem_domain/domain/mesh/h_refinement.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/h_refinement.rs b/src/fem_domain/domain/mesh/h_refinement.rs
index 867656b..7769de7 100644
--- a/src/fem_domain/domain/mesh/h_refinement.rs
+++ b/src/fem_domain/domain/mesh/h_refinement.rs
@@ -163,12 +163,12 @@ impl AddAssign for HRef {
             HRef::U(None) => match rhs {
                 HRef::V(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                HRef::U(_) => *self = rhs,
             },
             HRef::V(None) => match rhs {
                 HRef::U(_) => *self = HRef::T,
                 HRef::T => *self = HRef::T,
-                _ => (),
+                HRef::V(_) => *self = rhs,
             },
             HRef::U(Some(idx)) => match rhs {
                 HRef::U(Some(r_idx)) => {
-- 
2.43.0


From e6c0a62858ca4edd7c3d66333f9fef9082f54ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:47 +0000
Subject: [PATCH 04/10] fix: support unequal densities in UniformFieldSpace

---
 src/fem_domain/domain/fields.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fem_domain/domain/fields.rs b/src/fem_domain/domain/fields.rs
index ba34790..7bf7f13 100644
--- a/src/fem_domain/domain/fields.rs
+++ b/src/fem_domain/domain/fields.rs
@@ -80,8 +80,8 @@ impl<'d> UniformFieldSpace<'d> {
             let [i_max, j_max] = self.domain.mesh.max_expansion_orders();
 
             for shell_elem in self.domain.mesh.elems.iter().filter(|e| !e.has_children()) {
-                let mut x_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
-                let mut y_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut x_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
+                let mut y_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
 
                 for anc_elem_id in self
                     .domain
@@ -201,15 +201,15 @@ impl<'d> UniformFieldSpace<'d> {
         for k in 0..num_shell_elems {
             for i in 0..(nx - 1) {
                 for j in 0..(ny - 1) {
-                    let initial_pt = nx * i + j + (nx * ny) * k;
+                    let initial_pt = ny * i + j + (nx * ny) * k;
 
                     writeln!(
                         writer,
                         "4\t{}\t{}\t{}\t{}",
                         initial_pt,
                         initial_pt + 1,
-                        initial_pt + nx + 1,
-                        initial_pt + nx,
+                        initial_pt + ny + 1,
+                        initial_pt + ny,
                     )?;
                 }
             }
@@ -323,7 +323,7 @@ impl<'d> UniformFieldSpace<'d> {
             for ((shell_elem_id, elem_values_a), elem_values_b) in
                 q_a.values.iter().zip(q_b.values.values())
             {
-                let mut result_values = vec![vec![0.0; self.densities[0]]; self.densities[1]];
+                let mut result_values = vec![vec![0.0; self.densities[1]]; self.densities[0]];
                 for m in 0..self.densities[0] {
                     for n in 0..self.densities[1] {
                         result_values[m][n] = expression(elem_values_a[m][n], elem_values_b[m][n]);
-- 
2.43.0


From 5770df62165b14511c76808a7ce6a6164f611b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:04 +0000
Subject: [PATCH 05/10] fix: validate edge lengths and extension indices before
 executing h-refinements

---
 src/fem_domain/domain/mesh.rs | 86 +++++++++++++++++++++++++++++++++++
 1 file changed, 86 insertions(+)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index bb4dcc2..b956a0d 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -859,6 +859,11 @@ impl Mesh {
             }
         }
 
+        // ensure that every refinement can be completed before modifying the mesh
+        for (elem_id, refinement) in refinements_map.iter() {
+            self.check_h_refinement(*elem_id, *refinement)?;
+        }
+
         let mut refinement_extensions: Vec<(usize, HRef)> = Vec::new();
         let mut elem_id_tracker = self.elems.len();
         let mut node_id_tracker = IdTracker::new(self.nodes.len());
@@ -913,6 +918,87 @@ impl Mesh {
         Ok(())
     }
 
+    // check that an h-refinement of a refineable Elem (including its extension) can be completed
+    fn check_h_refinement(&self, elem_id: usize, refinement: HRef) -> Result<(), HRefError> {
+        let edge_ids = self.elems[elem_id].edges;
+
+        match refinement {
+            HRef::T => {
+                self.check_edge_bisection(edge_ids[0])?;
+                self.check_edge_bisection(edge_ids[1])?;
+                self.check_edge_bisection(edge_ids[2])?;
+                self.check_edge_bisection(edge_ids[3])
+            }
+            HRef::U(extension) => {
+                self.check_edge_bisection(edge_ids[0])?;
+                self.check_edge_bisection(edge_ids[1])?;
+                match extension {
+                    Some(child_idx) => self.check_h_refinement_extension(
+                        [edge_ids[0], edge_ids[1]],
+                        [edge_ids[2], edge_ids[3]],
+                        child_idx,
+                    ),
+                    None => Ok(()),
+                }
+            }
+            HRef::V(extension) => {
+                self.check_edge_bisection(edge_ids[2])?;
+                self.check_edge_bisection(edge_ids[3])?;
+                match extension {
+                    Some(child_idx) => self.check_h_refinement_extension(
+                        [edge_ids[2], edge_ids[3]],
+                        [edge_ids[0], edge_ids[1]],
+                        child_idx,
+                    ),
+                    None => Ok(()),
+                }
+            }
+        }
+    }
+
+    // check that an Edge either has children already, or is long enough to be bisected
+    fn check_edge_bisection(&self, edge_id: usize) -> Result<(), HRefError> {
+        let edge = &self.edges[edge_id];
+
+        if !edge.has_children() && edge.length / 2.0 < MIN_EDGE_LENGTH {
+            Err(HRefError::MinEdgeLength(edge_id))
+        } else {
+            Ok(())
+        }
+    }
+
+    // check that one of the two children produced by an anisotropic h-refinement (over two bisected Edges) can be refined in the opposite direction
+    fn check_h_refinement_extension(
+        &self,
+        bisected_edge_ids: [usize; 2],
+        crossing_edge_ids: [usize; 2],
+        child_idx: usize,
+    ) -> Result<(), HRefError> {
+        if child_idx > 1 {
+            return Err(HRefError::BisectionIdxExceeded);
+        }
+
+        // the child is bounded by one half of each bisected Edge
+        for bisected_edge_id in bisected_edge_ids {
+            if self.edges[bisected_edge_id].length / 2.0 <= MIN_EDGE_LENGTH {
+                return Err(HRefError::MinEdgeLength(bisected_edge_id));
+            }
+        }
+
+        // and the extension bisects one crossing Edge and the new Edge between the two bisection points
+        self.check_edge_bisection(crossing_edge_ids[child_idx])?;
+
+        let [p0, p1] = self.edge_points(bisected_edge_ids[0]).unwrap();
+        let [q0, q1] = self.edge_points(bisected_edge_ids[1]).unwrap();
+        let new_edge_length = Point::between(p0, p1).dist(&Point::between(q0, q1));
+
+        if new_edge_length / 2.0 < MIN_EDGE_LENGTH {
+            Err(HRefError::MinEdgeLength(crossing_edge_ids[child_idx]))
+        } else {
+            Ok(())
+        }
+    }
+
     fn execute_t_refinement(
         &mut self,
         mut new_elems: Vec<ElemUninit>,
-- 
2.43.0


From 13e0e8d974304276c5656fef3c1eb9ecebae577d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:06 +0000
Subject: [PATCH 06/10] fix: connect the Elem of a unit Mesh to its Edges and
 Nodes

---
 src/fem_domain/domain/mesh.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh.rs b/src/fem_domain/domain/mesh.rs
index b956a0d..df73ff9 100644
--- a/src/fem_domain/domain/mesh.rs
+++ b/src/fem_domain/domain/mesh.rs
@@ -67,18 +67,25 @@ impl Mesh {
         let unit_element = Arc::new(Element::new(0, points.clone(), Materials::default()));
         let unit_elem = Elem::new(0, [0, 1, 2, 3], [0, 1, 2, 3], unit_element.clone());
 
-        let nodes: Vec<Node> = points
+        let mut nodes: Vec<Node> = points
             .iter()
             .enumerate()
             .map(|(n_id, p)| Node::new(n_id, *p, true))
             .collect();
-        let edges: Vec<Edge> = vec![
+        let mut edges: Vec<Edge> = vec![
             Edge::new(0, [&nodes[0], &nodes[1]], true),
             Edge::new(1, [&nodes[2], &nodes[3]], true),
             Edge::new(2, [&nodes[0], &nodes[2]], true),
             Edge::new(3, [&nodes[1], &nodes[3]], true),
         ];
 
+        for edge in edges.iter_mut() {
+            edge.connect_elem(&unit_elem);
+        }
+        for node in nodes.iter_mut() {
+            node.connect_elem(&unit_elem);
+        }
+
         Self {
             elements: vec![unit_element],
             elems: vec![unit_elem],
-- 
2.43.0


From 2f0d419cbe3d4352d70a73ffde044a5d468d82aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 07/10] fix: represent negative zero coordinates as zero

---
 src/fem_domain/domain/mesh/space.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index b1cd26b..8a447ae 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -353,7 +353,8 @@ impl FloatRep {
         let total_rounded = integer_part + fractional_rounded;
 
         Self {
-            sign: value.is_sign_positive(),
+            // (both zeros, and values rounded to zero, have the same representation)
+            sign: value.is_sign_positive() || total_rounded == 0.0,
             bits: total_rounded.to_bits(),
         }
     }
-- 
2.43.0


From a639fb086fa022c5aebcb617338c0325d9bf37fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:08 +0000
Subject: [PATCH 08/10] fix: remove temporary solver files when the solution
 cannot be retrieved

---
 src/fem_problem/linalg/slepc_solve.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fem_problem/linalg/slepc_solve.rs b/src/fem_problem/linalg/slepc_solve.rs
index 24e8c8b..918c29b 100644
--- a/src/fem_problem/linalg/slepc_solve.rs
+++ b/src/fem_problem/linalg/slepc_solve.rs
@@ -38,9 +38,9 @@ pub fn slepc_solve_gep(
         match esolve_exit_status {
             Ok(status) => {
                 if status.success() {
-                    let solution = retrieve_solution(&dir, &prefix)?;
+                    let solution = retrieve_solution(&dir, &prefix);
                     clean_directory(&dir, &prefix)?;
-                    Ok(solution)
+                    Ok(solution?)
                 } else {
                     clean_directory(&dir, &prefix)?;
 
-- 
2.43.0


From d7e0cffde57a561eb973743951d6cb1b9a36a9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 09/10] fix: multiply M2Ds by the columns of the right hand
 matrix

---
 src/fem_domain/domain/mesh/space.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fem_domain/domain/mesh/space.rs b/src/fem_domain/domain/mesh/space.rs
index 8a447ae..53cdfe1 100644
--- a/src/fem_domain/domain/mesh/space.rs
+++ b/src/fem_domain/domain/mesh/space.rs
@@ -167,9 +167,10 @@ impl Div<f64> for M2D {
 impl Mul<Self> for M2D {
     type Output = Self;
     fn mul(self, other: Self) -> Self {
+        let columns = other.transpose();
         Self {
-            u: V2D::from([self.u.dot_with(&other.u), self.u.dot_with(&other.v)]),
-            v: V2D::from([self.v.dot_with(&other.u), self.v.dot_with(&other.v)]),
+            u: V2D::from([self.u.dot_with(&columns.u), self.u.dot_with(&columns.v)]),
+            v: V2D::from([self.v.dot_with(&columns.u), self.v.dot_with(&columns.v)]),
         }
     }
 }
-- 
2.43.0


From 51eb63c3a68af26a9106d4706fe79acf98dffd6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:13 +0000
Subject: [PATCH 10/10] fix: compare uv_ratio with vu_ratio in max_uv_ratio

---
 src/fem_domain/basis.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fem_domain/basis.rs b/src/fem_domain/basis.rs
index 5bafc72..eca7277 100644
--- a/src/fem_domain/basis.rs
+++ b/src/fem_domain/basis.rs
@@ -334,7 +334,7 @@ impl<BSpace: HierCurlBasisFnSpace> HierCurlBasisFn<BSpace> {
     /// Maximum of `uv_ratio` and `vu_ratio`
     pub fn max_uv_ratio(&self, [m, n]: [usize; 2]) -> f64 {
         let r0 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
-        let r1 = self.jac[m][n].u[0] / self.jac[m][n].v[1];
+        let r1 = self.jac[m][n].v[1] / self.jac[m][n].u[0];
         std::cmp::max_by(r0, r1, |a, b| a.partial_cmp(b).unwrap())
     }
     /// The ratio of the du/dx to dv/dy at some point (m, n)
-- 
2.43.0

