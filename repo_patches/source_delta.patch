From 57d781f35396d2c3176ccf8605563ea033ccbc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 01/49] fix: coarsening with should_prevent_coarsen_flip aborts
 in parallel

Sides on the outside of the ghost layers have one local element and were
taken for exposed sides of the domain, so the normals of ghost vertices were
computed from arbitrary interior sides. Ask the owners of the sides.
---
 src/Omega_h_coarsen_flip.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_coarsen_flip.cpp b/src/Omega_h_coarsen_flip.cpp
index 9be0c9e..7bf7941 100644
--- a/src/Omega_h_coarsen_flip.cpp
+++ b/src/Omega_h_coarsen_flip.cpp
@@ -127,7 +127,9 @@ Bytes prevent_coarsen_flip_dim(
   auto verts_are_cands = mark_down(mesh, EDGE, VERT, edges_are_cands);
   auto side_dim = dim - 1;
   auto sides_are_adj = mark_up(mesh, VERT, side_dim, verts_are_cands);
-  auto sides_are_exposed = mark_exposed_sides(mesh);
+  // sides around the ghost layers only look exposed: ask their owners
+  auto sides_are_exposed =
+      mesh->sync_array(side_dim, mark_exposed_sides(mesh), 1);
   auto sides_matter = land_each(sides_are_adj, sides_are_exposed);
   auto verts_matter = mark_down(mesh, side_dim, VERT, sides_matter);
   auto vert_normals =
-- 
2.43.0


From fd0a48e43e8ffa232ba356ca0a30b8101a3c804f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 02/49] fix: set_tag and sync_tag abort on a part that holds no
 entities

The number of components was derived by dividing by the local number of
entities. Use the existing tag when there are none.
---
 src/Omega_h_mesh.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 100971d..8d75ff1 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -161,7 +161,12 @@ void Mesh::add_tag(Int ent_dim, std::string const& name, Int ncomps,
 template <typename T>
 void Mesh::set_tag(
     Int ent_dim, std::string const& name, Read<T> array, bool internal) {
-  this->add_tag(ent_dim, name, divide_no_remainder(array.size(), nents(ent_dim)), array, internal);
+  // a part may hold no entities: then the array tells nothing about the
+  // number of components and the existing tag does
+  auto const ncomps = (nents(ent_dim) == 0)
+      ? (has_tag(ent_dim, name) ? get_tagbase(ent_dim, name)->ncomps() : 1)
+      : divide_no_remainder(array.size(), nents(ent_dim));
+  this->add_tag(ent_dim, name, ncomps, array, internal);
 }
 
 void Mesh::react_to_set_tag(Int ent_dim, std::string const& name) {
-- 
2.43.0


From 47c9470035cec6b76d4a594365d095a06df0df23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:26 +0000
Subject: [PATCH 03/49] fix: adaptation aborts when a part of the mesh holds no
 elements

Coarsening can remove all elements of a part, and meshes may be partitioned
that way to begin with. The number of metric or field components was derived
by dividing array sizes by local entity counts; use the tags, skip empty
arrays, and let all parts agree on the components of a new metric tag.
---
 src/Omega_h_array_ops.cpp         |  7 ++++++-
 src/Omega_h_coarsen_qualities.cpp |  3 +--
 src/Omega_h_conserve.cpp          | 17 +++++++----------
 src/Omega_h_metric.cpp            |  2 ++
 src/Omega_h_metric_input.cpp      |  4 +++-
 src/Omega_h_swap2d_qualities.cpp  |  3 +--
 src/Omega_h_swap3d_qualities.cpp  |  3 +--
 7 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index b11356b..bb11b33 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -127,8 +127,12 @@ Read<T> multiply_each_by(Read<T> a, T b) {
 
 template <typename T>
 Write<T> divide_each(Read<T> a, Read<T> b, std::string const& name) {
-  auto width = divide_no_remainder(a.size(), b.size());
   Write<T> c(a.size(), name);
+  if (b.size() == 0) {
+    OMEGA_H_CHECK(a.size() == 0);
+    return c;
+  }
+  auto width = divide_no_remainder(a.size(), b.size());
   auto f = OMEGA_H_LAMBDA(LO i) {
     for (Int j = 0; j < width; ++j) {
       c[i * width + j] = a[i * width + j] / b[i];
@@ -309,6 +313,7 @@ Read<T> max_each(Read<T> a, Read<T> b) {
 template <typename T>
 Read<T> ternary_each(Bytes cond, Read<T> a, Read<T> b) {
   OMEGA_H_CHECK(a.size() == b.size());
+  if (a.size() == 0) return a;
   auto width = divide_no_remainder(a.size(), cond.size());
   Write<T> c(a.size());
   auto f = OMEGA_H_LAMBDA(LO i) { c[i] = cond[i / width] ? a[i] : b[i]; };
diff --git a/src/Omega_h_coarsen_qualities.cpp b/src/Omega_h_coarsen_qualities.cpp
index 5a6bf6f..1603284 100644
--- a/src/Omega_h_coarsen_qualities.cpp
+++ b/src/Omega_h_coarsen_qualities.cpp
@@ -64,8 +64,7 @@ Reals coarsen_qualities_tmpl(
 
 Reals coarsen_qualities(Mesh* mesh, LOs cands2edges, Read<I8> cand_codes) {
   OMEGA_H_CHECK(mesh->parting() == OMEGA_H_GHOSTED);
-  auto metrics = mesh->get_array<Real>(VERT, "metric");
-  auto metric_dim = get_metrics_dim(mesh->nverts(), metrics);
+  auto metric_dim = get_metric_dim(mesh);
   auto cand_quals = Reals();
   if (mesh->dim() == 3 && metric_dim == 3) {
     return coarsen_qualities_tmpl<3, 3>(mesh, cands2edges, cand_codes);
diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index e80d89a..8d51cdc 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -211,9 +211,7 @@ static void carry_class_bdry_integ_error(Mesh* old_mesh, Mesh* new_mesh,
    and adds the relevant error to the element error array */
 static void introduce_class_integ_error(Mesh* old_mesh, Mesh* new_mesh,
     Cavs class_cavs, Reals old_elem_densities, Reals new_elem_densities,
-    Write<Real> new_elem_errors_w) {
-  auto ncomps =
-      divide_no_remainder(old_elem_densities.size(), old_mesh->nelems());
+    Int ncomps, Write<Real> new_elem_errors_w) {
   auto keys2new_elems = class_cavs.keys2new_elems;
   auto keys2old_elems = class_cavs.keys2old_elems;
   auto old_elem_sizes = old_mesh->ask_sizes();
@@ -265,7 +263,7 @@ static void transfer_integ_error(Mesh* old_mesh, Mesh* new_mesh,
     if (!conserved_bools.this_time[i]) {
       for (auto class_cavs : cavs[i][CLASS_COLOR]) {
         introduce_class_integ_error(old_mesh, new_mesh, class_cavs,
-            old_elem_densities, new_elem_densities, new_elem_errors_w);
+            old_elem_densities, new_elem_densities, ncomps, new_elem_errors_w);
       }
     }
     if (!conserved_bools.always[i]) {
@@ -685,10 +683,9 @@ static Reals diffuse_densities(Mesh* mesh, Graph g, Reals densities,
 }
 
 static Reals diffuse_integrals_weighted(Mesh* mesh, Graph g,
-    Reals error_integrals, Reals quantity_integrals, VarCompareOpts opts,
-    std::string const& name, bool verbose) {
+    Reals error_integrals, Reals quantity_integrals, Int ncomps,
+    VarCompareOpts opts, std::string const& name, bool verbose) {
   if (opts.type == VarCompareOpts::NONE) return error_integrals;
-  auto ncomps = divide_no_remainder(error_integrals.size(), g.nnodes());
   if (ncomps > 1) {
     Write<Real> out(error_integrals.size());
     for (Int c = 0; c < ncomps; ++c) {
@@ -697,7 +694,7 @@ static Reals diffuse_integrals_weighted(Mesh* mesh, Graph g,
           get_component(quantity_integrals, ncomps, c);
       auto comp_name = name + "_" + std::to_string(c);
       comp_integrals = diffuse_integrals_weighted(mesh, g, comp_integrals,
-          comp_quantity_integrals, opts, comp_name, verbose);
+          comp_quantity_integrals, 1, opts, comp_name, verbose);
       set_component(out, comp_integrals, ncomps, c);
     }
     return out;
@@ -726,7 +723,7 @@ static void correct_density_error(Mesh* mesh, TransferOpts const& xfer_opts,
   auto errors = mesh->get_array<Real>(dim, error_name);
   auto diffuse_tol = xfer_opts.integral_diffuse_map.find(integral_name)->second;
   errors = diffuse_integrals_weighted(mesh, diffusion_graph, errors,
-      old_integrals, diffuse_tol, error_name, verbose);
+      old_integrals, ncomps, diffuse_tol, error_name, verbose);
   mesh->set_tag(dim, error_name, errors);
   auto new_integrals = subtract_each(old_integrals, errors);
   auto new_densities = read(divide_each(new_integrals, sizes));
@@ -765,7 +762,7 @@ void correct_momentum_error(Mesh* mesh, TransferOpts const& xfer_opts,
   elem_errors = add_each(elem_errors, elem_errors_from_density);
   auto diffuse_tol = xfer_opts.integral_diffuse_map.find(momentum_name)->second;
   elem_errors = diffuse_integrals_weighted(mesh, diffusion_graph, elem_errors,
-      new_elem_momenta, diffuse_tol, error_name, verbose);
+      new_elem_momenta, ncomps, diffuse_tol, error_name, verbose);
   mesh->set_tag(dim, error_name, elem_errors);
   auto out = deep_copy(vert_velocities);
   auto f = OMEGA_H_LAMBDA(LO v) {
diff --git a/src/Omega_h_metric.cpp b/src/Omega_h_metric.cpp
index 7c5573d..c66376f 100644
--- a/src/Omega_h_metric.cpp
+++ b/src/Omega_h_metric.cpp
@@ -23,6 +23,8 @@ Int get_metric_dim(Int ncomps) {
 }
 
 Int get_metrics_dim(LO nmetrics, Reals metrics) {
+  // a part of the mesh may hold no vertices: no values to look at
+  if (nmetrics == 0) return 1;
   auto ncomps = divide_no_remainder(metrics.size(), nmetrics);
   return get_metric_dim(ncomps);
 }
diff --git a/src/Omega_h_metric_input.cpp b/src/Omega_h_metric_input.cpp
index 10a637a..9439a73 100644
--- a/src/Omega_h_metric_input.cpp
+++ b/src/Omega_h_metric_input.cpp
@@ -254,7 +254,9 @@ Reals generate_metrics(Mesh* mesh, MetricInput const& input) {
 }
 
 void add_metric_tag(Mesh* mesh, Reals metrics, std::string const& name) {
-  auto metric_dim = get_metrics_dim(mesh->nverts(), metrics);
+  // all parts need the same tag, including those which hold no vertices
+  auto metric_dim = mesh->comm()->allreduce(
+      get_metrics_dim(mesh->nverts(), metrics), OMEGA_H_MAX);
   mesh->add_tag(VERT, name, symm_ncomps(metric_dim), metrics);
 }
 
diff --git a/src/Omega_h_swap2d_qualities.cpp b/src/Omega_h_swap2d_qualities.cpp
index 441b3fd..4272eb0 100644
--- a/src/Omega_h_swap2d_qualities.cpp
+++ b/src/Omega_h_swap2d_qualities.cpp
@@ -73,8 +73,7 @@ Reals swap2d_qualities_tmpl(
 
 Reals swap2d_qualities(Mesh* mesh, AdaptOpts const& opts, LOs cands2edges) {
   OMEGA_H_CHECK(mesh->parting() == OMEGA_H_GHOSTED);
-  auto metrics = mesh->get_array<Real>(VERT, "metric");
-  auto metric_dim = get_metrics_dim(mesh->nverts(), metrics);
+  auto metric_dim = get_metric_dim(mesh);
   if (metric_dim == 2) {
     return swap2d_qualities_tmpl<2>(mesh, opts, cands2edges);
   }
diff --git a/src/Omega_h_swap3d_qualities.cpp b/src/Omega_h_swap3d_qualities.cpp
index 0df5091..186edec 100644
--- a/src/Omega_h_swap3d_qualities.cpp
+++ b/src/Omega_h_swap3d_qualities.cpp
@@ -61,8 +61,7 @@ void swap3d_qualities(Mesh* mesh, AdaptOpts const& opts, LOs cands2edges,
     Reals* cand_quals, Read<I8>* cand_configs) {
   OMEGA_H_CHECK(mesh->parting() == OMEGA_H_GHOSTED);
   OMEGA_H_CHECK(mesh->dim() == 3);
-  auto metrics = mesh->get_array<Real>(VERT, "metric");
-  auto metric_dim = get_metrics_dim(mesh->nverts(), metrics);
+  auto metric_dim = get_metric_dim(mesh);
   if (metric_dim == 3) {
     swap3d_qualities_tmpl<3>(mesh, opts, cands2edges, cand_quals, cand_configs);
     return;
-- 
2.43.0


From 5f007bc9020fee7574d40878312eaf37a037ad79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 04/49] fix: Dist::iexch callback used a Dist that may no
 longer exist

Mesh::isync_array exchanges through a temporary inverse of the Dist, so the
callback stored in the returned Future dereferenced a dead object. Capture the
permutation by value instead.
---
 src/Omega_h_dist.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_dist.cpp b/src/Omega_h_dist.cpp
index 771d228..e85ae44 100644
--- a/src/Omega_h_dist.cpp
+++ b/src/Omega_h_dist.cpp
@@ -132,9 +132,12 @@ Future<T> Dist::iexch(Read<T> data, Int width) const {
     data = permute(data, items2content_[F], width);
   }
   auto future = comm_[F]->ialltoallv(data, msgs2content_[F], msgs2content_[R], width);
-  auto callback = [this,width](Read<T> buf) {
-    if (this->items2content_[R].exists()) {
-      buf = unmap(this->items2content_[R], buf, width);
+  // the future may outlive this Dist (e.g. Mesh::isync_array exchanges through
+  // a temporary inverse), so the callback must own the permutation it applies
+  auto const ritems2content = items2content_[R];
+  auto callback = [ritems2content, width](Read<T> buf) {
+    if (ritems2content.exists()) {
+      buf = unmap(ritems2content, buf, width);
     }
     return buf;
   };
-- 
2.43.0


From 97d56d12ba898850fd8428952e42f703354587c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 05/49] fix: Future::completed reported pending communication
 as complete

MPI_Testall sets its flag to true when all requests are complete; the test was
inverted, so get() could return a receive buffer that was not filled yet.
---
 src/Omega_h_future.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_future.cpp b/src/Omega_h_future.cpp
index 32aa2a7..2f644a7 100644
--- a/src/Omega_h_future.cpp
+++ b/src/Omega_h_future.cpp
@@ -49,10 +49,10 @@ bool Future<T>::completed() {
   OMEGA_H_CHECK(
       MPI_SUCCESS == MPI_Testall(static_cast<int>(requests_.size()),
                          requests_.data(), &flag, MPI_STATUSES_IGNORE));
-  if (flag == 0) {
+  if (flag) {
     status_ = Status::completed;
   }
-  return flag == 0;
+  return flag != 0;
 #else   // !OMEGA_H_USE_MPI
   return true;
 #endif  // OMEGA_H_USE_MPI
-- 
2.43.0


From 357991d25e6d263cd7c44c95b85b03f128aafac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:01 +0000
Subject: [PATCH 06/49] fix: Comm::bcast_string took the length from rank 0
 whatever the root

---
 src/Omega_h_comm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_comm.cpp b/src/Omega_h_comm.cpp
index bb45468..f2bcdbf 100644
--- a/src/Omega_h_comm.cpp
+++ b/src/Omega_h_comm.cpp
@@ -267,7 +267,7 @@ void Comm::bcast(T& x, int root_rank) const {
 void Comm::bcast_string(std::string& s, int root_rank) const {
 #ifdef OMEGA_H_USE_MPI
   I32 len = static_cast<I32>(s.length());
-  bcast(len);
+  bcast(len, root_rank);
   s.resize(static_cast<std::size_t>(len));
   CALL(MPI_Bcast(&s[0], len, MPI_CHAR, root_rank, impl_));
 #else
-- 
2.43.0


From 788e64ddbd78945a233d1bcb30479789dcf25de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:49 +0000
Subject: [PATCH 07/49] fix: ghosting hypercube meshes with several layers at
 once aborts

close_down assumed simplex elements (dim + 1 vertices).
---
 src/Omega_h_ghost.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_ghost.cpp b/src/Omega_h_ghost.cpp
index 5f72da2..e190016 100644
--- a/src/Omega_h_ghost.cpp
+++ b/src/Omega_h_ghost.cpp
@@ -1,5 +1,6 @@
 #include "Omega_h_ghost.hpp"
 
+#include "Omega_h_element.hpp"
 #include "Omega_h_for.hpp"
 #include "Omega_h_map.hpp"
 #include "Omega_h_mesh.hpp"
@@ -89,7 +90,7 @@ static Dist close_up(
 }
 
 static Dist close_down(Mesh* mesh, Remotes old_use_owners, Dist elems2owners) {
-  auto nverts_per_elem = mesh->dim() + 1;
+  auto nverts_per_elem = element_degree(mesh->family(), mesh->dim(), VERT);
   auto owners2elems = elems2owners.invert();
   auto new_use_owners = owners2elems.exch(old_use_owners, nverts_per_elem);
   Dist uses2old_owners(mesh->comm(), new_use_owners, mesh->nents(VERT));
-- 
2.43.0


From 315ac74b0f02183a08d7f14febba58669b27c8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:07 +0000
Subject: [PATCH 08/49] fix: the dual graph of hypercube meshes used dim + 1
 sides per element

---
 src/Omega_h_adj.cpp      | 7 ++++---
 src/Omega_h_adj.hpp      | 5 +++--
 src/Omega_h_conserve.cpp | 3 ++-
 src/Omega_h_mesh.cpp     | 2 +-
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/Omega_h_adj.cpp b/src/Omega_h_adj.cpp
index 8b03448..ad15e6a 100644
--- a/src/Omega_h_adj.cpp
+++ b/src/Omega_h_adj.cpp
@@ -619,13 +619,14 @@ class elements_across_sides_count_functor {
   };
 };
 
-Graph elements_across_sides(Int const dim, Adj const elems2sides,
-    Adj const sides2elems, Read<I8> const side_is_exposed) {
+Graph elements_across_sides(Omega_h_Family const family, Int const dim,
+    Adj const elems2sides, Adj const sides2elems,
+    Read<I8> const side_is_exposed) {
   OMEGA_H_TIME_FUNCTION;
   auto const elem_side2side = elems2sides.ab2b;
   auto const side2side_elems = sides2elems.a2ab;
   auto const side_elem2elem = sides2elems.ab2b;
-  Int const nsides_per_elem = dim + 1;
+  Int const nsides_per_elem = element_degree(family, dim, dim - 1);
   auto const nelems =
       divide_no_remainder(elem_side2side.size(), nsides_per_elem);
   Write<LO> degrees(nelems);
diff --git a/src/Omega_h_adj.hpp b/src/Omega_h_adj.hpp
index 61dbd0b..90dfd1b 100644
--- a/src/Omega_h_adj.hpp
+++ b/src/Omega_h_adj.hpp
@@ -95,8 +95,9 @@ Adj transit(Adj const h2m, Adj const m2l, Omega_h_Family const family,
 Graph verts_across_edges(Adj const e2v, Adj const v2e);
 Graph edges_across_tris(Adj const f2e, Adj const e2f);
 Graph edges_across_tets(Adj const r2e, Adj const e2r);
-Graph elements_across_sides(Int const dim, Adj const elems2sides,
-    Adj const sides2elems, Read<I8> const side_is_exposed);
+Graph elements_across_sides(Omega_h_Family const family, Int const dim,
+    Adj const elems2sides, Adj const sides2elems,
+    Read<I8> const side_is_exposed);
 
 template <Int nhhl>
 OMEGA_H_DEVICE Few<LO, nhhl> gather_down(LOs const& hl2l, Int h) {
diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index 8d51cdc..c9e141a 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -628,7 +628,8 @@ static Graph get_elem_diffusion_graph(Mesh* mesh) {
   }
   auto elems2sides = mesh->ask_down(dim, dim - 1);
   auto sides2elems = mesh->ask_up(dim - 1, dim);
-  return elements_across_sides(dim, elems2sides, sides2elems, sides_are_bdry);
+  return elements_across_sides(
+      mesh->family(), dim, elems2sides, sides2elems, sides_are_bdry);
 }
 
 Reals diffuse_densities_once(
diff --git a/src/Omega_h_mesh.cpp b/src/Omega_h_mesh.cpp
index 8d75ff1..652cb89 100644
--- a/src/Omega_h_mesh.cpp
+++ b/src/Omega_h_mesh.cpp
@@ -327,7 +327,7 @@ Adj Mesh::derive_adj(Int from, Int to) {
     return h2l;
   } else {
     if (from == dim() && to == dim()) {
-      return elements_across_sides(dim(), ask_adj(dim(), dim() - 1),
+      return elements_across_sides(family_, dim(), ask_adj(dim(), dim() - 1),
           ask_adj(dim() - 1, dim()), mark_exposed_sides(this));
     }
     if (from == VERT && to == VERT) {
-- 
2.43.0


From 4ea89a87f6c5d4a7f78b14cfb3b015e1e096ebef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:43 +0000
Subject: [PATCH 09/49] fix: write the vertex itself for classified points in
 Gmsh files

---
 src/Omega_h_gmsh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 74191c1..db01627 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -743,7 +743,8 @@ void write(std::ostream& stream, Mesh* mesh) {
     auto nents = mesh->nents(ent_dim);
     auto d_class_ids = mesh->get_array<ClassId>(ent_dim, "class_id");
     auto d_class_dims = mesh->get_array<Byte>(ent_dim, "class_dim");
-    auto d_ents2verts = mesh->ask_verts_of(ent_dim);
+    auto d_ents2verts =
+        (ent_dim == VERT) ? LOs(nents, 0, 1) : mesh->ask_verts_of(ent_dim);
     auto h_class_ids = HostRead<ClassId>(d_class_ids);
     auto h_class_dims = HostRead<Byte>(d_class_dims);
     auto h_ents2verts = HostRead<LO>(d_ents2verts);
-- 
2.43.0


From b7ed80c4b870d875678e6d2912339c9a36089686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:14 +0000
Subject: [PATCH 10/49] fix: read hypercube meshes and their classification
 from Gmsh 2 ASCII files

---
 src/Omega_h_class.cpp | 3 ++-
 src/Omega_h_gmsh.cpp  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_class.cpp b/src/Omega_h_class.cpp
index 969d7a8..a42a400 100644
--- a/src/Omega_h_class.cpp
+++ b/src/Omega_h_class.cpp
@@ -1,6 +1,7 @@
 #include "Omega_h_class.hpp"
 
 #include "Omega_h_array_ops.hpp"
+#include "Omega_h_element.hpp"
 #include "Omega_h_for.hpp"
 #include "Omega_h_map.hpp"
 #include "Omega_h_mark.hpp"
@@ -181,7 +182,7 @@ void classify_equal_order(
     find_matches(mesh->family(), ent_dim, eqv2v, ev2v, v2e, &eq2e_w, &codes);
     eq2e = eq2e_w;
   }
-  auto neq = eqv2v.size() / (ent_dim + 1);
+  auto neq = eqv2v.size() / element_degree(mesh->family(), ent_dim, VERT);
   auto eq_class_dim = Read<I8>(neq, I8(ent_dim));
   auto class_dim =
       map_onto(eq_class_dim, eq2e, mesh->nents(ent_dim), I8(mesh->dim()), 1);
diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index db01627..982611a 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -451,7 +451,7 @@ void read_internal(std::istream& stream, Mesh* mesh) {
         for (Int j = 2; j < ntags; ++j) {
           stream >> tag;
         }
-        Int neev = dim + 1;
+        Int neev = element_degree(family, dim, VERT);
         LO node_number;
         for (Int j = 0; j < neev; ++j) {
           stream >> node_number;
-- 
2.43.0


From 1cbf9d9205d437b47fd8d093bfa6c5a25142b9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:23 +0000
Subject: [PATCH 11/49] fix: broadcast the ghost layer count when a mesh
 spreads to a larger communicator

---
 src/Omega_h_bcast.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_bcast.cpp b/src/Omega_h_bcast.cpp
index d74040a..9ee0ebc 100644
--- a/src/Omega_h_bcast.cpp
+++ b/src/Omega_h_bcast.cpp
@@ -19,7 +19,12 @@ void bcast_mesh(Mesh* mesh, CommPtr new_comm, bool is_source) {
   I32 parting;
   if (is_source) parting = mesh->parting();
   new_comm->bcast(parting);
-  if (!is_source) mesh->set_parting(Omega_h_Parting(parting));
+  I32 nghost_layers;
+  if (is_source) nghost_layers = mesh->nghost_layers();
+  new_comm->bcast(nghost_layers);
+  if (!is_source) {
+    mesh->set_parting(Omega_h_Parting(parting), nghost_layers, false);
+  }
   if (!is_source) mesh->set_verts(0);
   for (Int d = 0; d <= dim; ++d) {
     if (d > VERT && !is_source) {
-- 
2.43.0


From ed1b92dc61ec35d6a7311ed00c880f57b88e3783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 12/49] fix: reject truncated or unreadable .osh files

---
 src/Omega_h_file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 2febe4b..63b6f26 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -112,6 +112,7 @@ void write_value(std::ostream& stream, T val, bool needs_swapping) {
 template <typename T>
 void read_value(std::istream& stream, T& val, bool needs_swapping) {
   stream.read(reinterpret_cast<char*>(&val), sizeof(T));
+  OMEGA_H_CHECK(stream);
   if (needs_swapping) swap_bytes(val);
 }
 
@@ -163,6 +164,7 @@ void read_array(std::istream& stream, Read<T>& array, bool is_compressed,
     OMEGA_H_CHECK(compressed_bytes >= 0);
     auto compressed = new ::Bytef[compressed_bytes];
     stream.read(reinterpret_cast<char*>(compressed), compressed_bytes);
+    OMEGA_H_CHECK(stream);
     uLong dest_bytes = static_cast<uLong>(uncompressed_bytes);
     uLong source_bytes = static_cast<uLong>(compressed_bytes);
     ::Bytef* uncompressed_ptr =
@@ -179,6 +181,7 @@ void read_array(std::istream& stream, Read<T>& array, bool is_compressed,
   {
     stream.read(reinterpret_cast<char*>(nonnull(uncompressed.data())),
         uncompressed_bytes);
+    OMEGA_H_CHECK(stream);
   }
   array = swap_bytes(Read<T>(uncompressed.write()), needs_swapping);
 }
@@ -195,6 +198,7 @@ void read(std::istream& stream, std::string& val, bool needs_swapping) {
   OMEGA_H_CHECK(len >= 0);
   val.resize(static_cast<std::size_t>(len));
   stream.read(&val[0], len);
+  OMEGA_H_CHECK(stream);
 }
 
 static void write_meta(
-- 
2.43.0


From b8f7cb94d5f311ad796904bb5fe44e7e645af637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 13/49] fix: report failed writes of .osh files

---
 src/Omega_h_file.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 63b6f26..98068af 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -473,6 +473,8 @@ static void write_int_file(
     std::ofstream file(filepath.c_str());
     OMEGA_H_CHECK(file.is_open());
     file << value << '\n';
+    file.close();
+    OMEGA_H_CHECK(file);
   }
 }
 
@@ -534,6 +536,8 @@ void write(filesystem::path const& path, Mesh* mesh) {
   std::ofstream file(filepath.c_str());
   OMEGA_H_CHECK(file.is_open());
   write(file, mesh);
+  file.close();
+  OMEGA_H_CHECK(file);
   write_nparts(path, mesh);
   write_version(path, mesh);
   mesh->comm()->barrier();
-- 
2.43.0


From 7623450c752f151dcbf5c98cb5b228d9a269cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 14/49] fix: report failed reads and writes of text arrays

---
 src/Omega_h_file.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 98068af..63fdb6f 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -618,7 +618,10 @@ template void swap_bytes(std::uint64_t&);
 
 void write_reals_txt(filesystem::path const& filename, Reals a, Int ncomps) {
   std::ofstream stream(filename.c_str());
+  OMEGA_H_CHECK(stream.is_open());
   write_reals_txt(stream, a, ncomps);
+  stream.close();
+  OMEGA_H_CHECK(stream);
 }
 
 void write_reals_txt(std::ostream& stream, Reals a, Int ncomps) {
@@ -636,6 +639,7 @@ void write_reals_txt(std::ostream& stream, Reals a, Int ncomps) {
 
 Reals read_reals_txt(filesystem::path const& filename, LO n, Int ncomps) {
   std::ifstream stream(filename.c_str());
+  OMEGA_H_CHECK(stream.is_open());
   return read_reals_txt(stream, n, ncomps);
 }
 
@@ -644,6 +648,7 @@ Reals read_reals_txt(std::istream& stream, LO n, Int ncomps) {
   for (LO i = 0; i < n; ++i) {
     for (Int j = 0; j < ncomps; ++j) {
       stream >> h_a[i * ncomps + j];
+      OMEGA_H_CHECK(stream);
     }
   }
   return h_a.write();
-- 
2.43.0


From ac1c2beaa537bfa4937cb5072dae2e46f72efd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 15/49] fix: report failed writes of Gmsh files

---
 src/Omega_h_gmsh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Omega_h_gmsh.cpp b/src/Omega_h_gmsh.cpp
index 982611a..769de5d 100644
--- a/src/Omega_h_gmsh.cpp
+++ b/src/Omega_h_gmsh.cpp
@@ -767,7 +767,10 @@ void write(std::ostream& stream, Mesh* mesh) {
 
 void write(filesystem::path const& filepath, Mesh* mesh) {
   std::ofstream stream(filepath.c_str());
+  OMEGA_H_CHECK(stream.is_open());
   gmsh::write(stream, mesh);
+  stream.close();
+  OMEGA_H_CHECK(stream);
 }
 
 #ifdef OMEGA_H_USE_GMSH
-- 
2.43.0


From 686384048b2acf2e00183caf0710632348f36ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:12 +0000
Subject: [PATCH 16/49] fix: report failed writes of VTK files

---
 src/Omega_h_vtk.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Omega_h_vtk.cpp b/src/Omega_h_vtk.cpp
index 481084b..2a6ad3e 100644
--- a/src/Omega_h_vtk.cpp
+++ b/src/Omega_h_vtk.cpp
@@ -727,6 +727,8 @@ void write_vtu(filesystem::path const& filename, Mesh* mesh, Int cell_dim,
   OMEGA_H_CHECK(file.is_open());
   ask_for_mesh_tags(mesh, tags);
   write_vtu(file, mesh, cell_dim, tags, compress);
+  file.close();
+  OMEGA_H_CHECK(file);
 }
 
 void write_vtu(
@@ -812,6 +814,8 @@ void write_pvtu(filesystem::path const& filename, Mesh* mesh, Int cell_dim,
   std::ofstream file(filename.c_str());
   OMEGA_H_CHECK(file.is_open());
   write_pvtu(file, mesh, cell_dim, piecepath, tags);
+  file.close();
+  OMEGA_H_CHECK(file);
 }
 
 void read_pvtu(std::istream& stream, CommPtr comm, I32* npieces_out,
@@ -949,6 +953,8 @@ std::streampos write_initial_pvd(
   file << content;
   auto pos = file.tellp();
   file << pvd_epilogue;
+  file.close();
+  OMEGA_H_CHECK(file);
   return pos;
 }
 
@@ -967,6 +973,8 @@ void update_pvd(filesystem::path const& root_path, std::streampos* pos_inout,
   *pos_inout = file.tellp();
   file << "</Collection>\n";
   file << "</VTKFile>\n";
+  file.close();
+  OMEGA_H_CHECK(file);
 }
 
 void read_pvd(std::istream& stream, std::vector<Real>* times_out,
-- 
2.43.0


From afd6160a6409315739963cf0b118434c9127a6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 17/49] fix: reject truncated .pvtu files

---
 src/Omega_h_vtk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Omega_h_vtk.cpp b/src/Omega_h_vtk.cpp
index 2a6ad3e..89f731f 100644
--- a/src/Omega_h_vtk.cpp
+++ b/src/Omega_h_vtk.cpp
@@ -823,6 +823,7 @@ void read_pvtu(std::istream& stream, CommPtr comm, I32* npieces_out,
   I32 npieces = 0;
   std::string vtupath;
   Int nghost_layers = 0;
+  bool is_complete = false;
   for (std::string line; std::getline(stream, line);) {
     xml_lite::Tag tag;
     if (!xml_lite::parse_tag(line, &tag)) continue;
@@ -833,12 +834,14 @@ void read_pvtu(std::istream& stream, CommPtr comm, I32* npieces_out,
       ++npieces;
     }
     if (tag.elem_name == "PUnstructuredGrid") {
+      if (tag.type == xml_lite::Tag::END) is_complete = true;
       if (tag.attribs.find("GhostLevel") != tag.attribs.end()) {
         auto& ghostlevelstr = tag.attribs["GhostLevel"];
         nghost_layers = std::atoi(ghostlevelstr.c_str());
       }
     }
   }
+  OMEGA_H_CHECK(is_complete);
   OMEGA_H_CHECK(npieces >= 1);
   OMEGA_H_CHECK(npieces <= comm->size());
   *npieces_out = npieces;
-- 
2.43.0


From 639bb071ca598d199071671201a61a2790c4de19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:22 +0000
Subject: [PATCH 18/49] fix: do not return from VTK output before all pieces
 are written

---
 src/Omega_h_vtk.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_vtk.cpp b/src/Omega_h_vtk.cpp
index 89f731f..c6d4056 100644
--- a/src/Omega_h_vtk.cpp
+++ b/src/Omega_h_vtk.cpp
@@ -883,6 +883,7 @@ void write_parallel(filesystem::path const& path, Mesh* mesh, Int cell_dim,
     write_pvtu(pvtuname, mesh, cell_dim, relative_piecepath, tags);
   }
   write_vtu(piece_filename(piecepath, rank), mesh, cell_dim, tags, compress);
+  mesh->comm()->barrier();
 }
 
 void write_parallel(
-- 
2.43.0


From 1c448df1ab8ed21c16668bede32fac8bf7107d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:48 +0000
Subject: [PATCH 19/49] fix: reporting a failure outside any timed frame reads
 past the profile

---
 src/Omega_h_fail.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/Omega_h_fail.cpp b/src/Omega_h_fail.cpp
index 1b92746..0bdde38 100644
--- a/src/Omega_h_fail.cpp
+++ b/src/Omega_h_fail.cpp
@@ -35,10 +35,8 @@ void fail(char const* format, ...) {
 #  endif
   if (Omega_h::profile::global_singleton_history) {
     auto &h = *Omega_h::profile::global_singleton_history;
-    auto s = h.current_frame;
-    buf = buf + "\nFrames:\n" + h.get_name(s);
-    while (h.parent(s) != profile::invalid) {
-      s = h.parent(s);
+    buf = buf + "\nFrames:";
+    for (auto s = h.current_frame; s != profile::invalid; s = h.parent(s)) {
       buf = buf + "\n" + h.get_name(s);
     }
     buf = buf + "\n";
@@ -58,10 +56,8 @@ void fail(char const* format, ...) {
 #  endif
   if (Omega_h::profile::global_singleton_history) {
     auto &h = *Omega_h::profile::global_singleton_history;
-    auto s = h.current_frame;
-    std::cerr << "\nFrames:\n" << h.get_name(s);
-    while (h.parent(s) != Omega_h::profile::invalid) {
-      s = h.parent(s);
+    std::cerr << "\nFrames:";
+    for (auto s = h.current_frame; s != Omega_h::profile::invalid; s = h.parent(s)) {
       std::cerr << "\n" << h.get_name(s);
     }
     std::cerr << "\n" << std::endl;
-- 
2.43.0


From bce9d29c27befbcbcfbb2b989fb8f69aee5a7eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 20/49] fix: pointwise fields are dropped when a 1D mesh is
 coarsened

---
 src/Omega_h_transfer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Omega_h_transfer.cpp b/src/Omega_h_transfer.cpp
index 9aa7595..5d89ed0 100644
--- a/src/Omega_h_transfer.cpp
+++ b/src/Omega_h_transfer.cpp
@@ -577,6 +577,10 @@ void transfer_pointwise(Mesh* old_mesh, TransferOpts const& opts,
         transfer_pointwise_tmpl<2>(old_mesh, new_mesh, key_dim, keys2kds,
             keys2prods, prods2new_ents, same_ents2old_ents, same_ents2new_ents,
             tagbase);
+      } else if (dim == 1) {
+        transfer_pointwise_tmpl<1>(old_mesh, new_mesh, key_dim, keys2kds,
+            keys2prods, prods2new_ents, same_ents2old_ents, same_ents2new_ents,
+            tagbase);
       }
     }
   }
-- 
2.43.0


From 9662d10eb5928e57e16272e6be5642998d11954b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 21/49] fix: field recovery divides by zero on a part that
 holds no elements

---
 src/Omega_h_recover.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_recover.cpp b/src/Omega_h_recover.cpp
index 8e72075..db74512 100644
--- a/src/Omega_h_recover.cpp
+++ b/src/Omega_h_recover.cpp
@@ -133,11 +133,16 @@ bool has_interior_verts(Mesh* mesh) {
   return comm->reduce_or(have_local_interior);
 }
 
+// a part of the mesh may hold no elements: no values to look at
+static Int get_elem_ncomps(Mesh* mesh, Reals e_data) {
+  if (mesh->nelems() == 0) return 1;
+  return divide_no_remainder(e_data.size(), mesh->nelems());
+}
+
 Reals project_by_fit(Mesh* mesh, Reals e_data) {
   OMEGA_H_CHECK(mesh->owners_have_all_upward(VERT));
-  OMEGA_H_CHECK(e_data.size() % mesh->nelems() == 0);
   OMEGA_H_CHECK(has_interior_verts(mesh));
-  auto ncomps = e_data.size() / mesh->nelems();
+  auto ncomps = get_elem_ncomps(mesh, e_data);
   auto dim = mesh->dim();
   auto v_coeffs = get_interior_coeffs(mesh, e_data, ncomps);
   auto class_dim = mesh->get_array<I8>(VERT, "class_dim");
@@ -150,8 +155,7 @@ Reals project_by_fit(Mesh* mesh, Reals e_data) {
 
 Reals project_by_average(Mesh* mesh, Reals e_data) {
   OMEGA_H_CHECK(mesh->owners_have_all_upward(VERT));
-  OMEGA_H_CHECK(e_data.size() % mesh->nelems() == 0);
-  auto ncomps = e_data.size() / mesh->nelems();
+  auto ncomps = get_elem_ncomps(mesh, e_data);
   auto verts2elems = mesh->ask_up(VERT, mesh->dim());
   auto weights = Reals(verts2elems.ab2b.size(), 1.0);
   auto avgs = graph_weighted_average(verts2elems, weights, e_data, ncomps);
-- 
2.43.0


From ab411d7178276cf5700cbad26abcfb99293ec61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:50 +0000
Subject: [PATCH 22/49] fix: gradation limiting need not end when metrics have
 negligible components

---
 src/Omega_h_metric.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_metric.cpp b/src/Omega_h_metric.cpp
index c66376f..534cc1a 100644
--- a/src/Omega_h_metric.cpp
+++ b/src/Omega_h_metric.cpp
@@ -198,6 +198,29 @@ static Reals limit_gradation_once(Mesh* mesh, Reals values, Real max_rate) {
   OMEGA_H_NORETURN(Reals());
 }
 
+/* components which are negligible next to the largest one of their metric
+ * are rounding error, and their relative change need not become small */
+static bool metrics_are_close(LO nmetrics, Reals a, Reals b, Real tol) {
+  if (nmetrics == 0) return true;
+  auto ncomps = divide_no_remainder(a.size(), nmetrics);
+  auto close = Write<Byte>(nmetrics);
+  auto f = OMEGA_H_LAMBDA(LO i) {
+    Real size = 0.0;
+    for (Int j = 0; j < ncomps; ++j) {
+      size = max2(size, std::abs(a[i * ncomps + j]));
+    }
+    auto floor = max2(EPSILON, 1e-6 * size);
+    Byte ok = 1;
+    for (Int j = 0; j < ncomps; ++j) {
+      auto k = i * ncomps + j;
+      if (!are_close(a[k], b[k], tol, floor)) ok = 0;
+    }
+    close[i] = ok;
+  };
+  parallel_for(nmetrics, f, "metrics_are_close");
+  return get_min(Bytes(close)) == 1;
+}
+
 Reals limit_metric_gradation(
     Mesh* mesh, Reals values, Real max_rate, Real tol, bool verbose) {
   OMEGA_H_TIME_FUNCTION;
@@ -213,7 +236,8 @@ Reals limit_metric_gradation(
     if (verbose && can_print(mesh) && i > 0 && i % 50 == 0) {
       std::cout << "warning: gradation limiting is up to step " << i << '\n';
     }
-  } while (!comm->reduce_and(are_close(values, values2, tol)));
+  } while (!comm->reduce_and(
+      metrics_are_close(mesh->nverts(), values, values2, tol)));
   if (verbose && can_print(mesh)) {
     std::cout << "limited gradation in " << i << " steps\n";
   }
-- 
2.43.0


From d32bbddf63c8b6852c9b5860a2d30686819aff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:06 +0000
Subject: [PATCH 23/49] fix: error diffusion never ends when its tolerance is
 out of reach

---
 src/Omega_h_conserve.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index c9e141a..26abf6d 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -675,7 +675,12 @@ static Reals diffuse_densities(Mesh* mesh, Graph g, Reals densities,
   auto comm = mesh->comm();
   Int niters = 0;
   for (niters = 0; !all_bounded(comm, densities, opts.tolerance); ++niters) {
-    densities = diffuse_densities_once(mesh, g, densities, cell_sizes);
+    auto new_densities =
+        diffuse_densities_once(mesh, g, densities, cell_sizes);
+    // evenly spread already: the tolerance is out of reach
+    auto done = comm->reduce_and(are_close(densities, new_densities));
+    densities = new_densities;
+    if (done) break;
   }
   if (verbose && !comm->rank()) {
     std::cout << "diffused " << name << " in " << niters << " iterations\n";
-- 
2.43.0


From 9f56c38200afffea1a55919ddebcc40f0e276752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:48 +0000
Subject: [PATCH 24/49] fix: gradation limiting of full metrics need not
 converge term by term

---
 src/Omega_h_metric.cpp | 41 +++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/src/Omega_h_metric.cpp b/src/Omega_h_metric.cpp
index 534cc1a..d853d8f 100644
--- a/src/Omega_h_metric.cpp
+++ b/src/Omega_h_metric.cpp
@@ -198,27 +198,36 @@ static Reals limit_gradation_once(Mesh* mesh, Reals values, Real max_rate) {
   OMEGA_H_NORETURN(Reals());
 }
 
-/* components which are negligible next to the largest one of their metric
- * are rounding error, and their relative change need not become small */
-static bool metrics_are_close(LO nmetrics, Reals a, Reals b, Real tol) {
-  if (nmetrics == 0) return true;
-  auto ncomps = divide_no_remainder(a.size(), nmetrics);
-  auto close = Write<Byte>(nmetrics);
+/* off-diagonal terms are compared relative to the diagonal ones, because
+ * when they are small they are mostly the error of intersecting the metrics,
+ * whose relative change need not become small */
+template <Int metric_dim>
+static bool metrics_are_close_dim(Reals a, Reals b, Real tol) {
+  auto n = divide_no_remainder(a.size(), symm_ncomps(metric_dim));
+  auto close = Write<Byte>(n);
   auto f = OMEGA_H_LAMBDA(LO i) {
-    Real size = 0.0;
-    for (Int j = 0; j < ncomps; ++j) {
-      size = max2(size, std::abs(a[i * ncomps + j]));
-    }
-    auto floor = max2(EPSILON, 1e-6 * size);
+    auto am = get_symm<metric_dim>(a, i);
+    auto bm = get_symm<metric_dim>(b, i);
     Byte ok = 1;
-    for (Int j = 0; j < ncomps; ++j) {
-      auto k = i * ncomps + j;
-      if (!are_close(a[k], b[k], tol, floor)) ok = 0;
+    for (Int j = 0; j < metric_dim; ++j) {
+      if (!are_close(am[j][j], bm[j][j], tol)) ok = 0;
+      for (Int k = 0; k < j; ++k) {
+        auto size = std::sqrt(std::abs(am[j][j] * am[k][k]));
+        if (std::abs(am[j][k] - bm[j][k]) > tol * size) ok = 0;
+      }
     }
     close[i] = ok;
   };
-  parallel_for(nmetrics, f, "metrics_are_close");
-  return get_min(Bytes(close)) == 1;
+  parallel_for(n, f, "metrics_are_close");
+  return n == 0 || get_min(Bytes(close)) == 1;
+}
+
+static bool metrics_are_close(LO nmetrics, Reals a, Reals b, Real tol) {
+  auto dim = get_metrics_dim(nmetrics, a);
+  if (dim == 3) return metrics_are_close_dim<3>(a, b, tol);
+  if (dim == 2) return metrics_are_close_dim<2>(a, b, tol);
+  if (dim == 1) return metrics_are_close_dim<1>(a, b, tol);
+  OMEGA_H_NORETURN(false);
 }
 
 Reals limit_metric_gradation(
-- 
2.43.0


From 1a72079c2a937ff783da720253cc29ab4b3357b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:36 +0000
Subject: [PATCH 25/49] fix: metrics from element gradients and Hessians look
 for the field on vertices

---
 src/Omega_h_metric_input.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_metric_input.cpp b/src/Omega_h_metric_input.cpp
index 9439a73..1ed531f 100644
--- a/src/Omega_h_metric_input.cpp
+++ b/src/Omega_h_metric_input.cpp
@@ -105,7 +105,7 @@ Reals get_derivative_metrics(Mesh* mesh, std::string const& name, Real knob) {
       data = as<Real>(tagbase)->array();
     }
   } else if (mesh->has_tag(dim, name)) {
-    auto tagbase = mesh->get_tagbase(VERT, name);
+    auto tagbase = mesh->get_tagbase(dim, name);
     if (tagbase->type() == OMEGA_H_REAL) {
       if (tagbase->ncomps() == dim) {
         state = ELEM_GRADIENT;
-- 
2.43.0


From c08e8d353b2e94c722b29d2ef1c3aa942c126d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 26/49] fix: classification by angles assumes that sides point
 out of their elements and that a hinge has exactly two exposed sides

---
 src/Omega_h_class.cpp   |  3 ++-
 src/Omega_h_surface.cpp | 19 ++++++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_class.cpp b/src/Omega_h_class.cpp
index a42a400..3abd145 100644
--- a/src/Omega_h_class.cpp
+++ b/src/Omega_h_class.cpp
@@ -63,7 +63,8 @@ void classify_by_angles(Mesh* mesh, Real sharp_angle) {
     hinge_is_sharp[hinge] = (surf_hinge_angles[surf_hinge] >= sharp_angle);
   };
   parallel_for(nsurf_hinges, f, "classify_by_angles(is_sharp)");
-  classify_hinges_by_sharpness(mesh, hinge_is_exposed, hinge_is_sharp);
+  classify_hinges_by_sharpness(mesh, hinge_is_exposed,
+      mesh->sync_array(dim - 2, read(hinge_is_sharp), 1));
   if (dim == 2) return;
   finalize_classification(mesh);
 }
diff --git a/src/Omega_h_surface.cpp b/src/Omega_h_surface.cpp
index c087a36..b253144 100644
--- a/src/Omega_h_surface.cpp
+++ b/src/Omega_h_surface.cpp
@@ -14,6 +14,7 @@ Reals get_triangle_normals(Mesh* mesh, LOs surf_tri2tri) {
   OMEGA_H_CHECK(mesh->dim() == 3);
   auto nsurf_tris = surf_tri2tri.size();
   auto fv2v = mesh->ask_verts_of(FACE);
+  auto f2r = mesh->ask_up(FACE, REGION);
   auto coords = mesh->coords();
   Write<Real> normals(nsurf_tris * 3);
   auto lambda = OMEGA_H_LAMBDA(LO surf_tri) {
@@ -22,6 +23,10 @@ Reals get_triangle_normals(Mesh* mesh, LOs surf_tri2tri) {
     auto x = gather_vectors<3, 3>(coords, v);
     auto b = simplex_basis<3, 2>(x);
     auto n = normalize(cross(b[0], b[1]));
+    /* triangles can be reversed with respect to their tetrahedra,
+     * for example when they are shared by several ranks
+     */
+    if (code_is_flipped(f2r.codes[f2r.a2ab[f]])) n = -n;
     set_vector(normals, surf_tri, n);
   };
   parallel_for(nsurf_tris, lambda, "get_triangle_normals");
@@ -32,6 +37,7 @@ Reals get_edge_normals(Mesh* mesh, LOs surf_edge2edge) {
   OMEGA_H_CHECK(mesh->dim() == 2);
   auto nsurf_edges = surf_edge2edge.size();
   auto ev2v = mesh->ask_verts_of(EDGE);
+  auto e2f = mesh->ask_up(EDGE, FACE);
   auto coords = mesh->coords();
   Write<Real> normals(nsurf_edges * 2);
   auto lambda = OMEGA_H_LAMBDA(LO surf_edge) {
@@ -41,9 +47,11 @@ Reals get_edge_normals(Mesh* mesh, LOs surf_edge2edge) {
     auto b = simplex_basis<2, 1>(x);
     /* right now omega_h generates edges counter-clockwise
      * around triangles, so the outward-facing normal is the
-     * negative of what perp() gives
+     * negative of what perp() gives, unless the edge was
+     * reversed since then
      */
     auto n = -normalize(perp(b[0]));
+    if (code_rotation(e2f.codes[e2f.a2ab[e]]) == 1) n = -n;
     set_vector(normals, surf_edge, n);
   };
   parallel_for(nsurf_edges, lambda, "get_edge_normals");
@@ -68,9 +76,14 @@ Reals get_hinge_angles_tmpl(Mesh* mesh, Reals surf_side_normals,
       auto s = hinge_sides2sides[hs];
       auto ss = side2surf_side[s];
       if (-1 == ss) continue;
-      n[i++] = get_vector<dim>(surf_side_normals, ss);
+      if (i < 2) n[i] = get_vector<dim>(surf_side_normals, ss);
+      ++i;
     }
-    angles[surf_hinge] = std::acos(n[0] * n[1]);
+    /* a copy of a hinge may not see both sides, and surfaces that
+     * only touch each other at a hinge form a sharp feature there
+     */
+    if (i == 2) angles[surf_hinge] = std::acos(n[0] * n[1]);
+    else angles[surf_hinge] = (i < 2) ? 0.0 : PI;
   };
   parallel_for(nsurf_hinges, f, "get_hingle_angles");
   return angles;
-- 
2.43.0


From 14aba0e8675c567f0eae49925a0f645849ed397f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:22 +0000
Subject: [PATCH 27/49] fix: reproducible sums of subnormal values are zero,
 and sums of zeros leave a timer open

---
 src/Omega_h_array_ops.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index bb11b33..d56244d 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -534,6 +534,11 @@ Int128 int128_sum(Reals const a, double const unit) {
   return transform_reduce(first, last, init, op, std::move(transform));
 }
 
+/* the smallest subnormal number is 2^(-1074), a smaller unit would be zero */
+static double fixpt_unit(int expo) {
+  return exp2(double(max2(expo - MANTISSA_BITS, -1074)));
+}
+
 Real repro_sum(Reals a) {
   if (a.size() == 0) {
     return 0.0;
@@ -541,8 +546,11 @@ Real repro_sum(Reals a) {
   begin_code("repro_sum");
   int expo = max_exponent(a);
   auto const init = ArithTraits<int>::min();
-  if (expo == init) return 0.0;
-  double unit = exp2(double(expo - MANTISSA_BITS));
+  if (expo == init) {
+    end_code();
+    return 0.0;
+  }
+  double unit = fixpt_unit(expo);
   Int128 fixpt_sum = int128_sum(a, unit);
   double ret = fixpt_sum.to_double(unit);
   end_code();
@@ -554,8 +562,11 @@ Real repro_sum(CommPtr comm, Reals a) {
   auto const init = ArithTraits<int>::min();
   auto expo0 = max_exponent(a);
   int expo = comm->allreduce(expo0, OMEGA_H_MAX);
-  if (expo == init) return 0.0;
-  double unit = exp2(double(expo - MANTISSA_BITS));
+  if (expo == init) {
+    end_code();
+    return 0.0;
+  }
+  double unit = fixpt_unit(expo);
   Int128 fixpt_sum = int128_sum(a, unit);
   fixpt_sum = comm->add_int128(fixpt_sum);
   double ret = fixpt_sum.to_double(unit);
-- 
2.43.0


From 65f3807f970c4f2bf08acc55393a7ef463de8653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 28/49] fix: assigning an array to itself frees its storage

---
 src/Omega_h_shared_alloc.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/Omega_h_shared_alloc.hpp b/src/Omega_h_shared_alloc.hpp
index 75d75e9..f47e0a9 100644
--- a/src/Omega_h_shared_alloc.hpp
+++ b/src/Omega_h_shared_alloc.hpp
@@ -105,13 +105,17 @@ struct SharedAlloc {
   }
   OMEGA_H_INLINE SharedAlloc(SharedAlloc&& other) { move(std::move(other)); }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc const& other) {
-    clear();
-    copy(other);
+    if (this != &other) {
+      clear();
+      copy(other);
+    }
     return *this;
   }
   OMEGA_H_INLINE SharedAlloc& operator=(SharedAlloc&& other) {
-    clear();
-    move(std::move(other));
+    if (this != &other) {
+      clear();
+      move(std::move(other));
+    }
     return *this;
   }
   OMEGA_H_INLINE ~SharedAlloc() { clear(); }
-- 
2.43.0


From 539671eb1266942552a42d0dbfddd4b263171610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:03 +0000
Subject: [PATCH 29/49] fix: the list of tracked allocations loses entries and
 keeps freed ones

---
 src/Omega_h_shared_alloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_shared_alloc.cpp b/src/Omega_h_shared_alloc.cpp
index 6c3a0a9..e9e026c 100644
--- a/src/Omega_h_shared_alloc.cpp
+++ b/src/Omega_h_shared_alloc.cpp
@@ -98,8 +98,8 @@ void Alloc::init() {
       old_last->next = this;
     } else {
       ga->first = this;
-      ga->last = this;
     }
+    ga->last = this;
     ga->total_bytes += size;
     if (ga->total_bytes > ga->high_water_bytes) {
       Omega_h::ScopedTimer high_water_timer("high water update");
-- 
2.43.0


From 589882347f11a287763da236259150b9519618a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:18 +0000
Subject: [PATCH 30/49] fix: the timing report fails when another rank called a
 function that rank 0 did not

---
 src/Omega_h_profile.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Omega_h_profile.cpp b/src/Omega_h_profile.cpp
index e293e55..3bde426 100644
--- a/src/Omega_h_profile.cpp
+++ b/src/Omega_h_profile.cpp
@@ -247,9 +247,12 @@ void sendrecv(History const& h, std::map<std::string, std::vector<double> >& res
         split_char_vec(cvec, res);
         OMEGA_H_CHECK_OP(res.size(), ==, dvec.size());
         for (size_t i = 0; i < res.size(); ++i) {
-          result[res[i]][TOP_AVE] += dvec[i];
-          result[res[i]][TOP_MIN] = std::min(result[res[i]][TOP_MIN], dvec[i]);
-          result[res[i]][TOP_MAX] = std::max(result[res[i]][TOP_MAX], dvec[i]);
+          auto& entries = result[res[i]];
+          // a function which this rank never called
+          if (entries.empty()) entries.resize(TOP_NUM_ENTRIES);
+          entries[TOP_AVE] += dvec[i];
+          entries[TOP_MIN] = std::min(entries[TOP_MIN], dvec[i]);
+          entries[TOP_MAX] = std::max(entries[TOP_MAX], dvec[i]);
         }
       }
     }
-- 
2.43.0


From 6ca997b8c13f0ee4f85c91ce378f3abe09eaa58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:48 +0000
Subject: [PATCH 31/49] fix: conserved integrals change when a domain with
 curved boundaries is adapted

---
 src/Omega_h_conserve.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_conserve.cpp b/src/Omega_h_conserve.cpp
index 26abf6d..8e6f17c 100644
--- a/src/Omega_h_conserve.cpp
+++ b/src/Omega_h_conserve.cpp
@@ -326,7 +326,9 @@ static void transfer_momentum_error(Mesh* old_mesh, TransferOpts const& opts,
 
 struct OpConservation {
   OpConservation() {
-    density.always[NOT_BDRY] = true;
+    /* errors introduced at the boundary do not stay there: cavities which
+       touch the boundary spread them over all of their elements */
+    density.always[NOT_BDRY] = false;
     density.always[TOUCH_BDRY] = false;
     density.always[KEY_BDRY] = false;
     momentum.always[NOT_BDRY] = false;
-- 
2.43.0


From 20b4c02a6da6be36377623c99f0de6d7ec95346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:17 +0000
Subject: [PATCH 32/49] fix: comparing meshes reads outside an array when a
 value is not a number

---
 src/Omega_h_compare.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index 01caaef..c3f3829 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -121,6 +121,8 @@ struct CompareArrays<Real> {
     Real max_diff = 0.0;
     for (LO i = 0; i < ah.size(); ++i) {
       auto diff = get_real_diff(ah[i], bh[i], opts);
+      // a value which is not a number is as different as can be
+      if (std::isnan(diff)) diff = ArithTraits<Real>::max();
       if (diff > max_diff) {
         max_i = i;
         max_diff = diff;
-- 
2.43.0


From ebc0dd8336e0acbd43f5a876cbb4796c1ca87f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:34 +0000
Subject: [PATCH 33/49] fix: comparing meshes stops the program when a tag has
 another type or number of components

---
 src/Omega_h_compare.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index c3f3829..88560c1 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -235,6 +235,16 @@ Omega_h_Comparison compare_meshes(
       }
       auto ncomps = tag->ncomps();
       auto tag_opts = opts.tag_opts(dim, name);
+      auto b_tag = b->get_tagbase(dim, name);
+      if (tag_opts.type != VarCompareOpts::NONE &&
+          (b_tag->type() != tag->type() || b_tag->ncomps() != ncomps)) {
+        if (should_print) {
+          std::cout << topological_singular_name(a->family(), dim) << " tag \""
+                    << name << "\" types or numbers of components differ\n";
+        }
+        result = OMEGA_H_DIFF;
+        continue;
+      }
       bool ok = false;
       switch (tag->type()) {
         case OMEGA_H_I8:
-- 
2.43.0


From 0434696549387b6023f4787b2d9533a95656466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 34/49] fix: keep the parents of vertices when entities are
 unmapped

---
 src/Omega_h_unmap_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_unmap_mesh.cpp b/src/Omega_h_unmap_mesh.cpp
index 990ef61..0d9c098 100644
--- a/src/Omega_h_unmap_mesh.cpp
+++ b/src/Omega_h_unmap_mesh.cpp
@@ -67,7 +67,7 @@ void unmap_owners(Mesh* old_mesh, Mesh* new_mesh, Int ent_dim,
 
 void unmap_parents(Mesh* old_mesh, Mesh* new_mesh,
     LOs new_ents2old_ents_a[], Few<LOs, 4> old_ents2new_ents) {
-  for (Int ent_dim = 1; ent_dim <= new_mesh->dim(); ++ent_dim) {
+  for (Int ent_dim = 0; ent_dim <= new_mesh->dim(); ++ent_dim) {
     auto new_ents2old_ents = new_ents2old_ents_a[ent_dim];
     auto nnew_ents = new_ents2old_ents.size();
     Write<LO> new_parent_idx(nnew_ents, -1, "parent idx");
-- 
2.43.0


From fdd294ea347a148e13eb29dff4c28905bfd25cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:07 +0000
Subject: [PATCH 35/49] fix: enforce 2-to-1 refinement transitively and from
 initialized marks

---
 src/Omega_h_amr.cpp | 49 +++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/Omega_h_amr.cpp b/src/Omega_h_amr.cpp
index bd31771..657766a 100644
--- a/src/Omega_h_amr.cpp
+++ b/src/Omega_h_amr.cpp
@@ -1,6 +1,7 @@
 #include <Omega_h_amr.hpp>
 #include <Omega_h_amr_topology.hpp>
 #include <Omega_h_amr_transfer.hpp>
+#include <Omega_h_array_ops.hpp>
 #include <Omega_h_for.hpp>
 #include <Omega_h_globals.hpp>
 #include <Omega_h_hypercube.hpp>
@@ -30,13 +31,11 @@ void remove_non_leaf_uses(Mesh* mesh) {
 }
 
 static OMEGA_H_DEVICE Byte should_elem_be_refined(LO elem, Adj elems2bridges,
-    Adj bridges2elems, Bytes is_interior, Bytes is_bridge_leaf,
-    Int nbridges_per_elem, Children children, Bytes elems_are_marked,
-    Write<Byte> one_level_mark) {
+    Adj bridges2elems, Bytes is_bridge_leaf, Int nbridges_per_elem,
+    Children children, Bytes one_level_mark) {
   Byte mark = 0;
   for (Int b = 0; b < nbridges_per_elem; ++b) {
     auto bridge = elems2bridges.ab2b[elem * nbridges_per_elem + b];
-    if (!is_interior[bridge]) continue;
     if (is_bridge_leaf[bridge]) continue;
     auto bridge_child_begin = children.a2ab[bridge];
     auto bridge_child_end = children.a2ab[bridge + 1];
@@ -44,10 +43,10 @@ static OMEGA_H_DEVICE Byte should_elem_be_refined(LO elem, Adj elems2bridges,
       auto child = children.ab2b[c];
       auto child_adj_elem_begin = bridges2elems.a2ab[child];
       auto child_adj_elem_end = bridges2elems.a2ab[child + 1];
-      OMEGA_H_CHECK((child_adj_elem_end - child_adj_elem_begin) == 1);
-      auto child_adj_elem = bridges2elems.ab2b[child_adj_elem_begin];
-      if (elems_are_marked[child_adj_elem]) mark = 1;
-      if (one_level_mark[child_adj_elem]) mark = 1;
+      for (auto e = child_adj_elem_begin; e < child_adj_elem_end; ++e) {
+        auto child_adj_elem = bridges2elems.ab2b[e];
+        if (one_level_mark[child_adj_elem]) mark = 1;
+      }
     }
   }
   return mark;
@@ -62,21 +61,27 @@ Bytes enforce_2to1_refine(Mesh* mesh, Int bridge_dim, Bytes elems_are_marked) {
   auto elems2bridges = mesh->ask_down(elem_dim, bridge_dim);
   auto bridges2elems = mesh->ask_up(bridge_dim, elem_dim);
   auto nbridges_per_elem = Omega_h::hypercube_degree(elem_dim, bridge_dim);
-  auto is_interior = Omega_h::mark_by_class_dim(mesh, bridge_dim, elem_dim);
   auto children = mesh->ask_children(bridge_dim, bridge_dim);
-  Write<Byte> one_level_mark(mesh->nelems());
-  auto f = OMEGA_H_LAMBDA(LO elem) {
-    if (!is_elem_leaf[elem]) {
-      one_level_mark[elem] = 0;
-    } else if (elems_are_marked[elem]) {
-      one_level_mark[elem] = 1;
-    } else {
-      one_level_mark[elem] = should_elem_be_refined(elem, elems2bridges,
-          bridges2elems, is_interior, is_bridge_leaf, nbridges_per_elem,
-          children, elems_are_marked, one_level_mark);
-    }
-  };
-  Omega_h::parallel_for(mesh->nelems(), f, "enforce_one_level");
+  Bytes one_level_mark = land_each(is_elem_leaf, elems_are_marked);
+  // marking an element can require its coarser neighbors to be marked too,
+  // so repeat until nothing changes
+  while (true) {
+    Write<Byte> next_mark(mesh->nelems());
+    auto f = OMEGA_H_LAMBDA(LO elem) {
+      if (!is_elem_leaf[elem]) {
+        next_mark[elem] = 0;
+      } else if (one_level_mark[elem]) {
+        next_mark[elem] = 1;
+      } else {
+        next_mark[elem] = should_elem_be_refined(elem, elems2bridges,
+            bridges2elems, is_bridge_leaf, nbridges_per_elem, children,
+            one_level_mark);
+      }
+    };
+    Omega_h::parallel_for(mesh->nelems(), f, "enforce_one_level");
+    if (read(next_mark) == one_level_mark) break;
+    one_level_mark = next_mark;
+  }
   return one_level_mark;
 }
 
-- 
2.43.0


From f059a0602d6a568f6e31ababb9dd281a876e9e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:24 +0000
Subject: [PATCH 36/49] fix: allow refining a distributed quadrilateral or
 hexahedral mesh without marked elements

---
 src/Omega_h_modify.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Omega_h_modify.cpp b/src/Omega_h_modify.cpp
index bc8db43..47a844a 100644
--- a/src/Omega_h_modify.cpp
+++ b/src/Omega_h_modify.cpp
@@ -92,6 +92,8 @@ static Remotes get_prod_owners_shared(Mesh* mesh, Few<LOs, 4> mods2mds,
     if (nmods == 0) nprods_per_mod = 0;
     else nprods_per_mod = divide_no_remainder(nmod_prods, nmods);
     nprods_per_mod = mesh->comm()->allreduce(nprods_per_mod, OMEGA_H_MAX);
+    /* no rank splits entities of this dimension */
+    if (nprods_per_mod == 0) continue;
     auto md_ranks = mesh->ask_owners(mod_dim).ranks;
     auto mod_ranks = read(unmap(mods2mds[mod_dim], md_ranks, 1));
     auto mod_prod_idxs = unmap_range(prod_begin, prod_end, prods2new_ents, 1);
-- 
2.43.0


From 858c30f53b973a992297c66e12c3cb0d6d57ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:55 +0000
Subject: [PATCH 37/49] fix: inherit values with several components when
 refining quadrilateral and hexahedral meshes

---
 src/Omega_h_amr_transfer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_amr_transfer.cpp b/src/Omega_h_amr_transfer.cpp
index c339943..732b582 100644
--- a/src/Omega_h_amr_transfer.cpp
+++ b/src/Omega_h_amr_transfer.cpp
@@ -139,7 +139,7 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
   Few<Write<T>, 4> new_data;
   auto ncomps = old_mesh->get_tag<T>(0, name)->ncomps();
   for (Int prod_dim = 0; prod_dim <= old_mesh->dim(); ++prod_dim) {
-    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim), -1);
+    new_data[prod_dim] = Write<T>(new_mesh->nents(prod_dim) * ncomps, -1);
     auto old_data = old_mesh->get_array<T>(prod_dim, name);
     auto same_data =
         read(unmap(same_ents2old_ents[prod_dim], old_data, ncomps));
@@ -153,7 +153,10 @@ void transfer_inherit(Mesh* old_mesh, Mesh* new_mesh,
       auto parent_ent = parents.parent_idx[prod_ent];
       auto code = parents.codes[prod_ent];
       auto parent_dim = code_parent_dim(code);
-      new_data[prod_dim][prod_ent] = new_data[parent_dim][parent_ent];
+      for (Int comp = 0; comp < ncomps; ++comp) {
+        new_data[prod_dim][prod_ent * ncomps + comp] =
+            new_data[parent_dim][parent_ent * ncomps + comp];
+      }
     };
     parallel_for(prods2new_ents[prod_dim].size(), f);
     new_mesh->add_tag(
-- 
2.43.0


From cfc0b563b7d76b36a7ea4bd15766f6df87dd8812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:59 +0000
Subject: [PATCH 38/49] fix: keep empty class sets when a mesh is read or sent
 to other ranks

---
 src/Omega_h_bcast.cpp | 1 +
 src/Omega_h_file.cpp  | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Omega_h_bcast.cpp b/src/Omega_h_bcast.cpp
index 9ee0ebc..c18fc35 100644
--- a/src/Omega_h_bcast.cpp
+++ b/src/Omega_h_bcast.cpp
@@ -77,6 +77,7 @@ void bcast_mesh(Mesh* mesh, CommPtr new_comm, bool is_source) {
     I32 npairs;
     if (is_source) npairs = I32(it->second.size());
     new_comm->bcast(npairs);
+    if (!is_source) mesh->class_sets[name].clear();
     for (I32 j = 0; j < npairs; ++j) {
       ClassPair pair;
       if (is_source) pair = it->second[std::size_t(j)];
diff --git a/src/Omega_h_file.cpp b/src/Omega_h_file.cpp
index 63fdb6f..6b5b10a 100644
--- a/src/Omega_h_file.cpp
+++ b/src/Omega_h_file.cpp
@@ -355,6 +355,7 @@ static void read_sets(std::istream& stream, Mesh* mesh, bool needs_swapping) {
     read(stream, name, needs_swapping);
     I32 npairs;
     read_value(stream, npairs, needs_swapping);
+    mesh->class_sets[name].clear();
     for (I32 j = 0; j < npairs; ++j) {
       ClassPair pair;
       read_value(stream, pair.dim, needs_swapping);
-- 
2.43.0


From c8af8bd2de15c2412e555c034b68cc09984b5282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:07 +0000
Subject: [PATCH 39/49] fix: osh_part on more ranks than it makes parts

---
 src/osh_part.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/osh_part.cpp b/src/osh_part.cpp
index 7c04a72..4ee308e 100644
--- a/src/osh_part.cpp
+++ b/src/osh_part.cpp
@@ -59,9 +59,11 @@ int main(int argc, char** argv) {
   }
   world->barrier();
   auto t1 = Omega_h::now();
-  auto imb = mesh.imbalance();
-  if (!world->rank()) {
-    std::cout << "repartitioning took " << (t1 - t0) << " seconds\n";
-    std::cout << "imbalance is " << imb << "\n";
+  if (is_out) {
+    auto imb = mesh.imbalance();
+    if (!world->rank()) {
+      std::cout << "repartitioning took " << (t1 - t0) << " seconds\n";
+      std::cout << "imbalance is " << imb << "\n";
+    }
   }
 }
-- 
2.43.0


From de6e4dbf2ce58423bd309d7a7c981df6028aaef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 40/49] fix: osh_fix on several ranks

---
 src/Omega_h_fix.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Omega_h_fix.cpp b/src/Omega_h_fix.cpp
index fb2ac62..fb534f3 100644
--- a/src/Omega_h_fix.cpp
+++ b/src/Omega_h_fix.cpp
@@ -17,14 +17,17 @@ template <Int dim>
 void compute_ill_metric_dim(
     Mesh* mesh, AdaptOpts const& opts, Omega_h_Isotropy isotropy) {
   mesh->remove_tag(VERT, "metric");
+  // vertex metrics are averages over all adjacent elements
+  mesh->set_parting(OMEGA_H_GHOSTED);
   std::cout << "getting element implied metrics\n";
   auto elem_metrics = get_element_implied_length_metrics(mesh);
   elem_metrics = apply_isotropy(mesh->nelems(), elem_metrics, isotropy);
-  auto ncomps = divide_no_remainder(elem_metrics.size(), mesh->nelems());
+  auto const ncomps =
+      symm_ncomps((isotropy == OMEGA_H_ANISOTROPIC) ? dim : 1);
   mesh->add_tag(dim, "metric", ncomps, elem_metrics);
   std::cout << "projecting them\n";
   auto metrics = project_metrics(mesh, elem_metrics);
-  OMEGA_H_CHECK(ncomps == divide_no_remainder(metrics.size(), mesh->nverts()));
+  OMEGA_H_CHECK(metrics.size() == mesh->nverts() * ncomps);
   if (isotropy == OMEGA_H_ANISOTROPIC) {
     for (Int i = 0; i < 5; ++i) {
       std::cout << "metric smoothing iteration " << i << '\n';
@@ -53,16 +56,13 @@ void compute_ill_metric_dim(
   std::cout << "projecting metrics elem -> node\n";
   metrics = project_metrics(mesh, elem_metrics);
   mesh->remove_tag(VERT, "metric");
-  mesh->add_tag(VERT, "metric",
-      divide_no_remainder(metrics.size(), mesh->nverts()), metrics);
+  mesh->add_tag(VERT, "metric", ncomps, metrics);
   mesh->remove_tag(VERT, "metric");
-  mesh->add_tag(VERT, "metric",
-      divide_no_remainder(metrics.size(), mesh->nverts()), metrics);
+  mesh->add_tag(VERT, "metric", ncomps, metrics);
   std::cout << "limiting metric gradation\n";
   metrics = limit_metric_gradation(mesh, metrics, 1.0);
   mesh->remove_tag(VERT, "metric");
-  mesh->add_tag(VERT, "metric",
-      divide_no_remainder(metrics.size(), mesh->nverts()), metrics);
+  mesh->add_tag(VERT, "metric", ncomps, metrics);
   mesh->ask_qualities();
   std::cout << "done with \"ill\" metric\n";
 }
-- 
2.43.0


From 3ec5adce8529878308342a9657e8edca44f19595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 41/49] fix: osh_eval_implied averages over all adjacent
 elements on several ranks

---
 src/osh_eval_implied.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/osh_eval_implied.cpp b/src/osh_eval_implied.cpp
index 75966b0..45ca391 100644
--- a/src/osh_eval_implied.cpp
+++ b/src/osh_eval_implied.cpp
@@ -14,9 +14,14 @@ int main(int argc, char** argv) {
   auto path_out = cmdline.get<std::string>("mesh_out.osh");
   Omega_h::Mesh mesh(&lib);
   Omega_h::binary::read(path_in, lib.world(), &mesh);
+  auto const parting = mesh.parting();
+  auto const nghost_layers = mesh.nghost_layers();
+  // vertex metrics are averages over all adjacent elements
+  mesh.set_parting(OMEGA_H_GHOSTED);
   mesh.remove_tag(Omega_h::VERT, "metric");
   Omega_h::add_implied_metric_tag(&mesh);
   mesh.ask_lengths();
   mesh.ask_qualities();
+  mesh.set_parting(parting, nghost_layers, false);
   Omega_h::binary::write(path_out, &mesh);
 }
-- 
2.43.0


From 7f734187043b7d555f57c02429f387af1094601d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:22 +0000
Subject: [PATCH 42/49] fix: read every section of a comparison command file

---
 src/Omega_h_compare.cpp | 43 ++++++++++++++++++++---------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/Omega_h_compare.cpp b/src/Omega_h_compare.cpp
index 88560c1..dd772d5 100644
--- a/src/Omega_h_compare.cpp
+++ b/src/Omega_h_compare.cpp
@@ -351,7 +351,16 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
   auto mesh_dim = mesh->dim();
   Int linenum = 1;
   Int variables_dim = -1;
+  bool variables_listed = false;
   VarCompareOpts variables_opts;
+  // options given to a single variable stay
+  auto add_all_variables = [&]() {
+    for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
+      auto tagbase = mesh->get_tag(variables_dim, i);
+      p_opts->tags2opts[variables_dim].insert(
+          {tagbase->name(), variables_opts});
+    }
+  };
   for (std::string line; std::getline(file, line);) {
     std::stringstream line_stream(line);
     if (line.empty()) continue;
@@ -359,7 +368,13 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
     for (std::string token; line_stream >> token;) tokens.push_back(token);
     if (tokens.empty()) continue;
     if (tokens[0][0] == '#') continue;
-    if (variables_dim != -1 && line[0] == '\t') {
+    if (variables_dim != -1 && line[0] != '\t') {
+      // any other directive ends the list of variables
+      if (!variables_listed) add_all_variables();
+      variables_dim = -1;
+    }
+    if (variables_dim != -1) {
+      variables_listed = true;
       auto name = tokens[0];
       if (name[0] == '!') {
         name = name.substr(1, std::string::npos);
@@ -384,13 +399,6 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
             parse_compare_opts(tokens, 1, variables_opts, path, linenum);
         p_opts->tags2opts[variables_dim][name] = variable_opts;
       }
-    } else if (variables_dim != -1 && line[0] != '\t' &&
-               p_opts->tags2opts[variables_dim].empty()) {
-      for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-        auto tagbase = mesh->get_tag(variables_dim, i);
-        p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-      }
-      variables_dim = -1;
     } else if (tokens[0] == "COORDINATES") {
       auto opts = parse_compare_opts(tokens, 1, all_defaults, path, linenum);
       p_opts->tags2opts[VERT]["coordinates"] = opts;
@@ -399,8 +407,8 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
       auto opts =
           parse_compare_opts(tokens, 2, p_opts->time_step_opts, path, linenum);
       p_opts->time_step_opts = opts;
-    } else if (variables_dim == -1 &&
-               parse_dim_token(tokens[0], mesh_dim) != -1) {
+    } else if (parse_dim_token(tokens[0], mesh_dim) != -1) {
+      variables_listed = false;
       variables_dim = parse_dim_token(tokens[0], mesh_dim);
       if (!(tokens.size() > 1 && tokens[1] == "VARIABLES")) {
         Omega_h_fail("bad variables header at %s +%d\n", path.c_str(), linenum);
@@ -413,21 +421,11 @@ static void parse_exodiff_cmd_file(Mesh const* mesh, std::string const& path,
       }
       variables_opts =
           parse_compare_opts(tokens, start, all_defaults, path, linenum);
-      if (do_all) {
-        for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-          auto tagbase = mesh->get_tag(variables_dim, i);
-          p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-        }
-      }
+      if (do_all) add_all_variables();
     }
     ++linenum;
   }
-  if (variables_dim != -1 && p_opts->tags2opts[variables_dim].empty()) {
-    for (Int i = 0; i < mesh->ntags(variables_dim); ++i) {
-      auto tagbase = mesh->get_tag(variables_dim, i);
-      p_opts->tags2opts[variables_dim][tagbase->name()] = variables_opts;
-    }
-  }
+  if (variables_dim != -1 && !variables_listed) add_all_variables();
 }
 
 void accept_diff_program_cmdline(CmdLine const& cmdline, Mesh const* mesh,
@@ -445,6 +443,7 @@ void accept_diff_program_cmdline(CmdLine const& cmdline, Mesh const* mesh,
     *p_max_result = OMEGA_H_SAME;
   }
   if (cmdline.parsed("-f")) {
+    p_opts->time_step_opts = all_defaults;
     parse_exodiff_cmd_file(
         mesh, cmdline.get<std::string>("-f", "cmd_file"), p_opts, all_defaults);
   } else {
-- 
2.43.0


From 94f683f43bc256dfa9f1de7cbdf45054baa4f4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:17 +0000
Subject: [PATCH 43/49] fix: do not collapse an edge when that would recreate
 an existing entity

On curved domains the quality checks alone do not prevent it, and adapt
ended in "there can't be more than one!".
---
 src/Omega_h_check_collapse.cpp | 59 ++++++++++++++++++++++++++++++++++
 src/Omega_h_coarsen.cpp        |  3 ++
 src/Omega_h_collapse.hpp       |  2 ++
 3 files changed, 64 insertions(+)

diff --git a/src/Omega_h_check_collapse.cpp b/src/Omega_h_check_collapse.cpp
index fb74f95..3fa4666 100644
--- a/src/Omega_h_check_collapse.cpp
+++ b/src/Omega_h_check_collapse.cpp
@@ -116,4 +116,63 @@ Read<I8> check_collapse_exposure(
       EDGE, cand_codes, cands2edges, I8(DONT_COLLAPSE), 1);
 }
 
+/* replacing the collapsing vertex with the "onto" vertex in an entity
+   must not recreate an entity which already exists.
+   the entities adjacent to both vertices (through sides of the same
+   dimension) must therefore be exactly the ones opposite the edge in the
+   cells around it. straight-sided domains guarantee this by the quality
+   of the new elements, curved ones do not.
+*/
+
+static Read<I8> check_collapse_link(
+    Mesh* mesh, LOs cands2edges, Read<I8> cand_codes, Int side_dim) {
+  auto v2s = mesh->ask_up(VERT, side_dim);
+  auto v2vs = v2s.a2ab;
+  auto vs2s = v2s.ab2b;
+  auto vs_codes = v2s.codes;
+  auto sv2v = mesh->ask_verts_of(side_dim);
+  auto nssv = simplex_degree(side_dim, VERT);
+  auto e2ec = mesh->ask_up(EDGE, side_dim + 1).a2ab;
+  auto ev2v = mesh->ask_verts_of(EDGE);
+  auto cand_codes_w = Write<I8>(cands2edges.size());
+  auto f = OMEGA_H_LAMBDA(LO cand) {
+    auto e = cands2edges[cand];
+    LO const v[2] = {ev2v[e * 2 + 0], ev2v[e * 2 + 1]};
+    LO nshared = 0;
+    for (auto vs0 = v2vs[v[0]]; vs0 < v2vs[v[0] + 1]; ++vs0) {
+      auto s0 = vs2s[vs0];
+      auto ssv0 = code_which_down(vs_codes[vs0]);
+      for (auto vs1 = v2vs[v[1]]; vs1 < v2vs[v[1] + 1]; ++vs1) {
+        auto s1 = vs2s[vs1];
+        if (s0 == s1) continue;
+        auto ssv1 = code_which_down(vs_codes[vs1]);
+        Int nsame = 0;
+        for (Int i = 0; i < nssv; ++i) {
+          if (i == ssv0) continue;
+          for (Int j = 0; j < nssv; ++j) {
+            if (j == ssv1) continue;
+            if (sv2v[s0 * nssv + i] == sv2v[s1 * nssv + j]) ++nsame;
+          }
+        }
+        if (nsame == nssv - 1) ++nshared;
+      }
+    }
+    auto nopposite = e2ec[e + 1] - e2ec[e];
+    cand_codes_w[cand] =
+        (nshared == nopposite) ? cand_codes[cand] : I8(DONT_COLLAPSE);
+  };
+  parallel_for(cands2edges.size(), f, "check_collapse_link");
+  return cand_codes_w;
+}
+
+Read<I8> check_collapse_link(
+    Mesh* mesh, LOs cands2edges, Read<I8> cand_codes) {
+  OMEGA_H_CHECK(mesh->parting() == OMEGA_H_GHOSTED);
+  for (Int side_dim = EDGE; side_dim < mesh->dim(); ++side_dim) {
+    cand_codes = check_collapse_link(mesh, cands2edges, cand_codes, side_dim);
+  }
+  return mesh->sync_subset_array(
+      EDGE, cand_codes, cands2edges, I8(DONT_COLLAPSE), 1);
+}
+
 }  // end namespace Omega_h
diff --git a/src/Omega_h_coarsen.cpp b/src/Omega_h_coarsen.cpp
index c06b579..ac664c4 100644
--- a/src/Omega_h_coarsen.cpp
+++ b/src/Omega_h_coarsen.cpp
@@ -85,6 +85,9 @@ static bool coarsen_ghosted(Mesh* mesh, AdaptOpts const& opts,
         mesh, cands2edges, cand_edge_codes, cand_edge_quals);
   }
   filter_coarsen_candidates(&cands2edges, &cand_edge_codes, &cand_edge_quals);
+  /* topological check */
+  cand_edge_codes = check_collapse_link(mesh, cands2edges, cand_edge_codes);
+  filter_coarsen_candidates(&cands2edges, &cand_edge_codes, &cand_edge_quals);
   /* finished cavity quality checks */
   if (comm->reduce_and(cands2edges.size() == 0)) return false;
   auto verts_are_cands = Read<I8>();
diff --git a/src/Omega_h_collapse.hpp b/src/Omega_h_collapse.hpp
index 7800328..88b984f 100644
--- a/src/Omega_h_collapse.hpp
+++ b/src/Omega_h_collapse.hpp
@@ -32,6 +32,8 @@ Read<I8> check_collapse_class(Mesh* mesh, LOs cands2edges, Read<I8> cand_codes);
 Read<I8> check_collapse_exposure(
     Mesh* mesh, LOs cands2edges, Read<I8> cand_codes);
 
+Read<I8> check_collapse_link(Mesh* mesh, LOs cands2edges, Read<I8> cand_codes);
+
 }  // end namespace Omega_h
 
 #endif
-- 
2.43.0


From f7bd1d1b29a4a567c435816e7e69cdabedf45525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:37 +0000
Subject: [PATCH 44/49] fix: scatter plots written by several ranks keep the
 lines of all of them

---
 src/Omega_h_scatterplot.cpp | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/Omega_h_scatterplot.cpp b/src/Omega_h_scatterplot.cpp
index a029c6b..18a1e7a 100644
--- a/src/Omega_h_scatterplot.cpp
+++ b/src/Omega_h_scatterplot.cpp
@@ -38,19 +38,27 @@ Reals get_radial_scatter_coords(Reals coords, Vector<dim> center) {
   return coords_1d_w;
 }
 
+/* a rank that holds no entities learns the number of components from others */
+static Int get_scatter_ncomps(CommPtr comm, Reals coords_1d, Reals data) {
+  Int ncomps = 0;
+  if (coords_1d.size()) {
+    ncomps = divide_no_remainder(data.size(), coords_1d.size());
+  }
+  return comm->allreduce(ncomps, OMEGA_H_MAX);
+}
+
 void write_scatterplot(std::string const& path, CommPtr comm, Reals coords_1d,
     Reals data, std::string const& separator) {
   HostRead<Real> coords_1d_h(coords_1d);
   HostRead<Real> data_h(data);
-  auto ncomps = divide_no_remainder(data.size(), coords_1d.size());
+  auto ncomps = get_scatter_ncomps(comm, coords_1d, data);
   for (I32 rank = 0; rank < comm->size(); ++rank) {
-    std::ofstream os;
-    if (rank)
-      os.open(path.c_str(), std::ios_base::ate);
-    else
-      os.open(path.c_str(), std::ios_base::trunc);
-    os << std::scientific << std::setprecision(17);
     if (comm->rank() == rank) {
+      // rank zero creates the file, the others append to it in turn
+      std::ofstream os(path.c_str(),
+          rank ? std::ios_base::app : std::ios_base::trunc);
+      OMEGA_H_CHECK(os.is_open());
+      os << std::scientific << std::setprecision(17);
       for (LO i = 0; i < coords_1d_h.size(); ++i) {
         os << coords_1d_h[i];
         for (Int j = 0; j < ncomps; ++j) {
@@ -58,8 +66,9 @@ void write_scatterplot(std::string const& path, CommPtr comm, Reals coords_1d,
         }
         os << '\n';
       }
+      os.close();
+      OMEGA_H_CHECK(os);
     }
-    os.close();
     comm->barrier();
   }
 }
@@ -67,7 +76,7 @@ void write_scatterplot(std::string const& path, CommPtr comm, Reals coords_1d,
 void write_scatterplot(std::string const& path, Mesh* mesh, Int ent_dim,
     Reals coords_1d, Reals data, std::string const& separator) {
   auto comm = mesh->comm();
-  auto ncomps = divide_no_remainder(data.size(), coords_1d.size());
+  auto ncomps = get_scatter_ncomps(comm, coords_1d, data);
   if (comm->size() > 1) {
     auto copies2lins = copies_to_linear_owners(comm, mesh->globals(ent_dim));
     coords_1d = reduce_data_to_owners(coords_1d, copies2lins, 1);
-- 
2.43.0


From a12710d6e988c6d77b7f82d93ff5a167e466b51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 45/49] fix: distances of close boundaries depend on where the
 mesh is and can be negative

---
 src/Omega_h_confined.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_confined.cpp b/src/Omega_h_confined.cpp
index 0550d06..dbe5698 100644
--- a/src/Omega_h_confined.cpp
+++ b/src/Omega_h_confined.cpp
@@ -103,7 +103,7 @@ Reals get_tet_pad_dists(Mesh* mesh, Read<I8> edges_are_bridges) {
         auto ab = b - a;
         auto cd = d - c;
         auto n = normalize(cross(ab, cd));
-        auto h = (a - c) * n;
+        auto h = std::abs((a - c) * n);
         // project onto the normal plane
         a = a - (n * (n * a));
         b = b - (n * (n * b));
@@ -148,7 +148,7 @@ Reals get_tet_pad_dists(Mesh* mesh, Read<I8> edges_are_bridges) {
       auto oa = a - o;
       auto od = n * (n * oa);
       // parametric coords for triangle in 3d space
-      auto xi = barycentric_from_global<3,2>(od, vve2x);
+      auto xi = barycentric_from_global<3,2>(o + od, vve2x);
       if (!is_barycentric_inside(xi)) continue;
       auto this_h = norm(od);
       h = min2(h, this_h);
-- 
2.43.0


From 349b46d3e053e9fc9542e97c8a2a42de8fb060c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 46/49] fix: largest eigenvalues of small matrices are averaged
 with the others

---
 src/Omega_h_eigen.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/Omega_h_eigen.cpp b/src/Omega_h_eigen.cpp
index 616f85a..1ea099a 100644
--- a/src/Omega_h_eigen.cpp
+++ b/src/Omega_h_eigen.cpp
@@ -24,9 +24,16 @@ Reals get_max_eigenvalues_dim(Reals symms) {
   auto out = Write<Real>(n);
   auto f = OMEGA_H_LAMBDA(LO i) {
     auto a = get_symm<dim>(symms, i);
-    auto ews = get_eigenvalues(a);
+    /* the tolerance of the root finder is absolute, so as in
+       decompose_eigen() find the roots of the normalized matrix */
+    auto nm = max_norm(a);
+    if (!(nm > 0.0)) {
+      out[i] = 0.0;
+      return;
+    }
+    auto ews = get_eigenvalues(a / nm);
     auto max_ew = maximum_magnitude(ews.values, ews.n);
-    out[i] = max_ew;
+    out[i] = max_ew * nm;
   };
   parallel_for(n, f, "get_max_eigenvalues");
   return out;
-- 
2.43.0


From 20bef15aacb443a5db3551b53740ab4a4bd2e8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 47/49] fix: normals of surfaces between regions point to
 either side

---
 src/Omega_h_surface.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/Omega_h_surface.cpp b/src/Omega_h_surface.cpp
index b253144..0265000 100644
--- a/src/Omega_h_surface.cpp
+++ b/src/Omega_h_surface.cpp
@@ -16,6 +16,14 @@ Reals get_triangle_normals(Mesh* mesh, LOs surf_tri2tri) {
   auto fv2v = mesh->ask_verts_of(FACE);
   auto f2r = mesh->ask_up(FACE, REGION);
   auto coords = mesh->coords();
+  /* surfaces between regions get normals that all point away from
+   * the region with the lower class ID
+   */
+  Read<ClassId> r2class_id;
+  if (mesh->has_tag(REGION, "class_id")) {
+    r2class_id = mesh->get_array<ClassId>(REGION, "class_id");
+  }
+  auto have_class_ids = r2class_id.exists();
   Write<Real> normals(nsurf_tris * 3);
   auto lambda = OMEGA_H_LAMBDA(LO surf_tri) {
     auto f = surf_tri2tri[surf_tri];
@@ -26,7 +34,12 @@ Reals get_triangle_normals(Mesh* mesh, LOs surf_tri2tri) {
     /* triangles can be reversed with respect to their tetrahedra,
      * for example when they are shared by several ranks
      */
-    if (code_is_flipped(f2r.codes[f2r.a2ab[f]])) n = -n;
+    auto fr = f2r.a2ab[f];
+    if (have_class_ids && (f2r.a2ab[f + 1] - fr) == 2 &&
+        r2class_id[f2r.ab2b[fr + 1]] < r2class_id[f2r.ab2b[fr]]) {
+      ++fr;
+    }
+    if (code_is_flipped(f2r.codes[fr])) n = -n;
     set_vector(normals, surf_tri, n);
   };
   parallel_for(nsurf_tris, lambda, "get_triangle_normals");
-- 
2.43.0


From 265ed7ba68bc1a3849e5f7dd2063b9ec01b6e922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:11 +0000
Subject: [PATCH 48/49] fix: curvatures of curves next to their corners are not
 numbers

---
 src/Omega_h_surface.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Omega_h_surface.cpp b/src/Omega_h_surface.cpp
index 0265000..543ee18 100644
--- a/src/Omega_h_surface.cpp
+++ b/src/Omega_h_surface.cpp
@@ -566,6 +566,7 @@ Reals get_curv_vert_curvatures_dim(Mesh* mesh, LOs curv_edge2edge,
     for (auto ve = verts2edges.a2ab[vert]; ve < verts2edges.a2ab[vert + 1];
          ++ve) {
       auto edge = verts2edges.ab2b[ve];
+      if (edge2curv_edge[edge] < 0) continue;
       nadj_int_edges += !edges_touch_bdry[edge];
     }
     Real ws = 0.0;
-- 
2.43.0


From ab68b640824705aca3ae4aba9676589d7c04995f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:19 +0000
Subject: [PATCH 49/49] fix: coalesce places arrays by the sizes of the ones
 before them

---
 src/Omega_h_array_ops.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Omega_h_array_ops.cpp b/src/Omega_h_array_ops.cpp
index d56244d..2965735 100644
--- a/src/Omega_h_array_ops.cpp
+++ b/src/Omega_h_array_ops.cpp
@@ -455,7 +455,7 @@ Read<T> coalesce(std::vector<Read<T>> arrays) {
   OMEGA_H_CHECK(offsets.data() != nullptr);
   offsets[0] = 0;
   for (std::size_t i = 1; i <= arrays.size(); ++i) {
-    offsets[i] = offsets[i - 1] + arrays[i].size();
+    offsets[i] = offsets[i - 1] + arrays[i - 1].size();
   }
   auto out_size = offsets[arrays.size()];
   auto out = Write<T>(out_size);
-- 
2.43.0

