From 9c124bf6cd0a13b5c90ec21c17e985a11c247c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:52 +0000
Subject: [PATCH 01/32] fix:
 BoundaryMeshInterface::reverse_exchange_from_device unpacks from the device
 buffer

The unpack kernel was given the host staging vector when device aware MPI is
disabled. Kernels may only access device accessible memory; the data was
already copied to d_recv_packed.
---
 include/neso_particles/boundary/boundary_mesh_interface.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/boundary/boundary_mesh_interface.hpp b/include/neso_particles/boundary/boundary_mesh_interface.hpp
index 62e8ee4..30d4dc0 100644
--- a/include/neso_particles/boundary/boundary_mesh_interface.hpp
+++ b/include/neso_particles/boundary/boundary_mesh_interface.hpp
@@ -589,7 +589,7 @@ public:
       }
     }
 
-    this->reverse_exchange_from_device_unpack(m_recvd_packed, ncomp, d_dst)
+    this->reverse_exchange_from_device_unpack(d_recv_packed->ptr, ncomp, d_dst)
         .wait_and_throw();
 
     restore_resource(sycl_target->resource_stack_map,
-- 
2.43.0


From be6e0b1f080730737b25b87b5455a72c944d426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:59 +0000
Subject: [PATCH 02/32] fix: ParticleGroup::add_particles_local(ProductMatrix)
 reads CELL_ID at its component offset

---
 src/particle_group.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/particle_group.cpp b/src/particle_group.cpp
index db8864e..f9cf11c 100644
--- a/src/particle_group.cpp
+++ b/src/particle_group.cpp
@@ -326,7 +326,9 @@ void ParticleGroup::add_particles_local(
           .wait_and_throw();
     }
   } else { // Use cells explicitly defined in the product matrix
-    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_index;
+    const int cell_id_offset =
+        product_matrix->dh_offsets_int->h_buffer.ptr[cell_id_index];
+    INT const *source_cells_ptr = d_pm.ptr_int + num_products * cell_id_offset;
     this->sycl_target->queue
         .memcpy(cells_ptr, source_cells_ptr, sizeof(INT) * num_products)
         .wait_and_throw();
-- 
2.43.0


From 7bb280146ae48002cc4888505c49384c245842db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:36 +0000
Subject: [PATCH 03/32] fix: set_recv converts received elements to int for
 other element types

---
 include/neso_particles/communication/communication_utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/communication/communication_utility.hpp b/include/neso_particles/communication/communication_utility.hpp
index 3a0fb37..1e42ba1 100644
--- a/include/neso_particles/communication/communication_utility.hpp
+++ b/include/neso_particles/communication/communication_utility.hpp
@@ -158,7 +158,7 @@ std::set<T> set_recv(const int source, const int tag, MPI_Comm comm) {
     std::vector<T> recv_vector(recv_count);
     MPICHK(MPI_Recv(recv_vector.data(), recv_count, map_ctype_mpi_type<T>(),
                     source, tag, comm, MPI_STATUS_IGNORE));
-    for (int ix : recv_vector) {
+    for (const T &ix : recv_vector) {
       return_set.insert(ix);
     }
   }
-- 
2.43.0


From 2ed2d665ca8c0ab240c0cd2a4a9bc091189f733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:27 +0000
Subject: [PATCH 04/32] fix: zero the whole staging buffer in
 CartesianTrajectoryIntersection::function_project_initialise

The staging buffer can be larger than the number of geometry objects that
are accessible when the projection is initialised. If further geometry
objects are hit before function_project_contribute is called their staging
entries were accumulated onto uninitialised memory.
---
 src/cartesian_mesh/cartesian_trajectory_intersection.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
index 2a366c8..c287f06 100644
--- a/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
+++ b/src/cartesian_mesh/cartesian_trajectory_intersection.cpp
@@ -163,8 +163,12 @@ void CartesianTrajectoryIntersection::function_project_initialise(
   func->d_dofs_stage->realloc_no_copy(tmp_buffer_size);
   REAL *k_buffer = func->d_dofs_stage->ptr;
 
-  if (tmp_buffer_size > 0) {
-    this->sycl_target->queue.fill(k_buffer, (REAL)0.0, tmp_buffer_size)
+  // Zero the entire staging buffer. This buffer may be larger than the number of
+  // geometry objects which are currently accessible and the remainder is used
+  // if new geometry objects are hit before contributions are made.
+  const std::size_t stage_buffer_size = func->d_dofs_stage->size;
+  if (stage_buffer_size > 0) {
+    this->sycl_target->queue.fill(k_buffer, (REAL)0.0, stage_buffer_size)
         .wait_and_throw();
   }
   func->fill(0.0);
-- 
2.43.0


From a6a195755f9d10dd1f1a916df4a01034a5a2ff34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 05/32] fix: CellwisePairListSimple::clear leaves an empty list
 with zero pairs

---
 src/pair_loop/cellwise_pair_list_simple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index ffb2011..082344c 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -247,7 +247,7 @@ void CellwisePairListSimple::clear() {
   }
   this->max_pair_count = -1;
   this->max_wave_count = -1;
-  this->pair_count = -1;
+  this->pair_count = 0;
   this->mode = 0;
 }
 
-- 
2.43.0


From f40eafdec48fcae5efe4bf0d583395b5455de67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 06/32] fix: CellwisePairListSimple::clear after set keeps host
 and device counts in step

---
 src/pair_loop/cellwise_pair_list_simple.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pair_loop/cellwise_pair_list_simple.cpp b/src/pair_loop/cellwise_pair_list_simple.cpp
index 082344c..53e8a42 100644
--- a/src/pair_loop/cellwise_pair_list_simple.cpp
+++ b/src/pair_loop/cellwise_pair_list_simple.cpp
@@ -242,6 +242,9 @@ void CellwisePairListSimple::clear() {
         });
 
     std::fill(this->h_wave_count.begin(), this->h_wave_count.end(), 0);
+    // A call to set may have left the host counts with a different size to the
+    // device counts.
+    this->h_pair_counts.resize(this->d_pair_counts->size);
     std::fill(this->h_pair_counts.begin(), this->h_pair_counts.end(), 0);
     e0.wait_and_throw();
   }
-- 
2.43.0


From d96d1576d522ae42d74610c877d37cba6b7e36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 07/32] fix: pair loop execute(cell) runs only that cell

---
 .../pair_loop/particle_pair_loop_args.hpp        | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/neso_particles/pair_loop/particle_pair_loop_args.hpp b/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
index 548834f..6acaa10 100644
--- a/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
+++ b/include/neso_particles/pair_loop/particle_pair_loop_args.hpp
@@ -259,21 +259,13 @@ protected:
       ParticleLoopImplementation::ParticleLoopGlobalInfo *global_info_B =
           nullptr) {
 
-    int cell_start_actual = 0;
     const int cell_count =
         this->particle_group_A->domain->mesh->get_cell_count();
+    int cell_start_actual = 0;
     int cell_end_actual = cell_count;
-
-    if (cell_start != std::nullopt) {
-      cell_start_actual = cell_start.value();
-    }
-    if (cell_end != std::nullopt) {
-      cell_end_actual = cell_end.value();
-    }
-
-    const bool default_start = cell_start_actual == 0;
-    const bool default_end = cell_end_actual == cell_count;
-    const bool all_cells = default_start && default_end;
+    const bool all_cells =
+        determine_iteration_set(cell_count, cell_start, cell_end,
+                                &cell_start_actual, &cell_end_actual);
 
     const auto local_size =
         this->sycl_target->parameters
-- 
2.43.0


From 335dbbcadd91457582748378f504b735afc0867f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 08/32] fix: PairSamplerNTC accepts a ParticleSubGroup which is
 the entire ParticleGroup

---
 src/algorithms/dsmc/pair_sampler_ntc.cpp | 37 +++++++++++++++---------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/src/algorithms/dsmc/pair_sampler_ntc.cpp b/src/algorithms/dsmc/pair_sampler_ntc.cpp
index b1847a6..7a008e3 100644
--- a/src/algorithms/dsmc/pair_sampler_ntc.cpp
+++ b/src/algorithms/dsmc/pair_sampler_ntc.cpp
@@ -95,8 +95,13 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
   this->particle_sub_group_b = sub_group_b;
   this->version_a = sub_group_a->get_version();
   this->version_b = sub_group_b->get_version();
-  auto selection_a = sub_group_a->get_selection();
-  auto selection_b = sub_group_b->get_selection();
+  // A ParticleSubGroup which is the entire ParticleGroup has no selection map.
+  const bool a_is_entire = sub_group_a->is_entire_particle_group();
+  const bool b_is_entire = sub_group_b->is_entire_particle_group();
+  const auto k_map_a = sub_group_a->get_selection().d_map_cells_to_particles;
+  const auto k_map_b = sub_group_b->get_selection().d_map_cells_to_particles;
+  const int *k_npart_cell_a = Private::get_npart_cell_device_ptr(sub_group_a);
+  const int *k_npart_cell_b = Private::get_npart_cell_device_ptr(sub_group_b);
 
   const auto *k_npart_cell = particle_group->mpi_rank_dat->d_npart_cell;
   const auto *h_npart_cell = particle_group->mpi_rank_dat->h_npart_cell;
@@ -144,8 +149,8 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
             const int cell = idx.get_global_id(0);
             const int npart_cell = k_npart_cell[cell];
             const int npairs = k_pair_counts[cell];
-            const int npart_cell_a = selection_a.d_npart_cell[cell];
-            const int npart_cell_b = selection_b.d_npart_cell[cell];
+            const int npart_cell_a = k_npart_cell_a[cell];
+            const int npart_cell_b = k_npart_cell_b[cell];
             const int sample_range_a = npart_cell_a;
             const int sample_range_b = a_is_b ? npart_cell_a - 1 : npart_cell_b;
             const REAL scale_a = static_cast<REAL>(sample_range_a);
@@ -175,10 +180,12 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                const int i3 = selection_a.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, i2);
-                const int j3 = selection_b.d_map_cells_to_particles
-                                   .map_loop_layer_to_layer(cell, j2);
+                const int i3 =
+                    a_is_entire ? i2
+                                : k_map_a.map_loop_layer_to_layer(cell, i2);
+                const int j3 =
+                    b_is_entire ? j2
+                                : k_map_b.map_loop_layer_to_layer(cell, j2);
 
                 const int wave_i = la_flags[i3];
                 const int wave_j = la_flags[j3];
@@ -229,8 +236,8 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
             const int local_range = idx.get_group().get_local_linear_range();
             const int npart_cell = k_npart_cell[cell];
             const int npairs = k_pair_counts[cell];
-            const int npart_cell_a = selection_a.d_npart_cell[cell];
-            const int npart_cell_b = selection_b.d_npart_cell[cell];
+            const int npart_cell_a = k_npart_cell_a[cell];
+            const int npart_cell_b = k_npart_cell_b[cell];
             const int sample_range_a = npart_cell_a;
             const int sample_range_b = a_is_b ? npart_cell_a - 1 : npart_cell_b;
             const REAL scale_a = static_cast<REAL>(sample_range_a);
@@ -267,10 +274,12 @@ void PairSamplerNTC::sample(ParticleSubGroupSharedPtr sub_group_a,
                 const int i2 = i1;
                 const int j2 = a_is_b ? (i1 + 1 + j1) % npart_cell_a : j1;
 
-                i3 = selection_a.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, i2);
-                j3 = selection_b.d_map_cells_to_particles
-                         .map_loop_layer_to_layer(cell, j2);
+                i3 = a_is_entire
+                         ? i2
+                         : k_map_a.map_loop_layer_to_layer(cell, i2);
+                j3 = b_is_entire
+                         ? j2
+                         : k_map_b.map_loop_layer_to_layer(cell, j2);
 
                 const int flag_i =
                     sycl::atomic_ref<int, sycl::memory_order::relaxed,
-- 
2.43.0


From 94aba99338bc3882ced5203c684c2b7424044b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:34 +0000
Subject: [PATCH 09/32] fix: get_npart_cell accepts a ParticleSubGroup which is
 the entire ParticleGroup

---
 include/neso_particles/algorithms/cellwise_methods.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/neso_particles/algorithms/cellwise_methods.hpp b/include/neso_particles/algorithms/cellwise_methods.hpp
index 1a29de9..b41f054 100644
--- a/include/neso_particles/algorithms/cellwise_methods.hpp
+++ b/include/neso_particles/algorithms/cellwise_methods.hpp
@@ -34,9 +34,7 @@ void get_npart_cell(std::shared_ptr<GROUP_TYPE> particle_sub_group,
   auto d_cell_dat_const_ptr = cell_dat_const->device_ptr();
 
   if constexpr (std::is_same<GROUP_TYPE, ParticleSubGroup>::value == true) {
-    particle_sub_group->create_if_required();
-    auto selection = particle_sub_group->get_selection();
-    auto *k_npart_cell = selection.d_npart_cell;
+    auto *k_npart_cell = Private::get_npart_cell_device_ptr(particle_sub_group);
     sycl_target->queue
         .parallel_for(sycl::range<1>(cell_count),
                       [=](auto idx) {
-- 
2.43.0


From 5eea12546078657d2f6231daed9bb2024d5683eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 10/32] fix: HostAtomicBlockKernelRNG resets its counters for
 loops without samples

---
 .../containers/rng/host_atomic_block_kernel_rng.hpp            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
index da363d2..343515d 100644
--- a/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
+++ b/include/neso_particles/containers/rng/host_atomic_block_kernel_rng.hpp
@@ -192,6 +192,9 @@ public:
       sycl_target->profile_map.inc("HostAtomicBlockKernelRNG",
                                    "impl_pre_loop_read", 1,
                                    profile_elapsed(t0, profile_timestamp()));
+    } else {
+      // Reads are counted even if there are no samples.
+      this->reset_counter(global_info->particle_group->sycl_target);
     }
   }
 
-- 
2.43.0


From 3af027863a2703091da6220e6e4127325ee0fdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 11/32] fix: matrix_transpose copies matrices with one row or
 column

---
 include/neso_particles/algorithms/common.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/algorithms/common.hpp b/include/neso_particles/algorithms/common.hpp
index 44a2fd6..8b77e14 100644
--- a/include/neso_particles/algorithms/common.hpp
+++ b/include/neso_particles/algorithms/common.hpp
@@ -452,7 +452,7 @@ template <typename T>
 matrix_transpose(SYCLTargetSharedPtr sycl_target, const std::size_t num_rows,
                  const std::size_t num_cols, const T *RESTRICT const d_src,
                  T *RESTRICT d_dst) {
-  if ((num_rows <= 1) || (num_cols <= 1)) {
+  if ((num_rows == 0) || (num_cols == 0)) {
     return sycl::event();
   }
   const std::size_t num_bytes_per_item = sizeof(T);
-- 
2.43.0


From 0ba7028245dad35c6c47998c62e06981c3cb23b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:24 +0000
Subject: [PATCH 12/32] fix: reduce_dat_components_cellwise rejects a
 CellDatConst of the wrong size

---
 include/neso_particles/algorithms/reduce_dat_cellwise.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/algorithms/reduce_dat_cellwise.hpp b/include/neso_particles/algorithms/reduce_dat_cellwise.hpp
index cb9261d..f5c0659 100644
--- a/include/neso_particles/algorithms/reduce_dat_cellwise.hpp
+++ b/include/neso_particles/algorithms/reduce_dat_cellwise.hpp
@@ -366,7 +366,7 @@ void reduce_dat_components_cellwise(
   const auto nrow = cell_dat_const->nrow;
   const auto ncol = cell_dat_const->ncol;
   auto cell_dat_const_nelements = nrow * ncol;
-  NESOASSERT(dat_ncomp >= cell_dat_const_nelements,
+  NESOASSERT(dat_ncomp == cell_dat_const_nelements,
              "Missmatch between the number of particle components: " +
                  std::to_string(dat_ncomp) +
                  " and the matrix size of the CellDatConst: " +
-- 
2.43.0


From 9dda087e7a8ca9a78693b4361f1e34997fe10f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 13/32] fix: CellDat::set_value invalidates dependent sub
 groups

---
 include/neso_particles/containers/cell_dat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neso_particles/containers/cell_dat.hpp b/include/neso_particles/containers/cell_dat.hpp
index 9767113..77c116d 100644
--- a/include/neso_particles/containers/cell_dat.hpp
+++ b/include/neso_particles/containers/cell_dat.hpp
@@ -522,6 +522,9 @@ public:
    */
   inline void set_value(const int cell, const int row, const int col,
                         const T value) {
+    if (this->write_callback) {
+      this->write_callback(0);
+    }
     this->sycl_target->queue
         .memcpy(this->h_ptr_cols[cell * this->ncol + col] + row, &value,
                 sizeof(T))
-- 
2.43.0


From 3e0d873d69aa886b3e4a4fac34431347a2ae104a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 14/32] fix: BufferBase::realloc does not write past a smaller
 allocation

---
 include/neso_particles/device_buffers.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neso_particles/device_buffers.hpp b/include/neso_particles/device_buffers.hpp
index 835334b..f27bff2 100644
--- a/include/neso_particles/device_buffers.hpp
+++ b/include/neso_particles/device_buffers.hpp
@@ -2,6 +2,7 @@
 #define _NESO_PARTICLES_DEVICE_BUFFERS_HPP_
 
 #include "compute_target.hpp"
+#include <algorithm>
 #include <optional>
 
 namespace NESO::Particles {
@@ -117,7 +118,7 @@ public:
       this->ptr = this->malloc_wrapper(size * sizeof(T));
       const auto old_size = this->size;
       this->size = size;
-      this->memcpy_wrapper(this->ptr, ptr_old, old_size);
+      this->memcpy_wrapper(this->ptr, ptr_old, std::min(old_size, size));
       this->free_wrapper(ptr_old);
     }
     return this->size;
-- 
2.43.0


From 68fb86602e57b1934e766c99619e2bfa92048279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 15/32] fix: SymVector pointer cache follows added and removed
 dats

---
 .../containers/sym_vector_pointer_cache.hpp   | 59 ++++++++++++-------
 1 file changed, 38 insertions(+), 21 deletions(-)

diff --git a/include/neso_particles/containers/sym_vector_pointer_cache.hpp b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
index 80e7833..786481b 100644
--- a/include/neso_particles/containers/sym_vector_pointer_cache.hpp
+++ b/include/neso_particles/containers/sym_vector_pointer_cache.hpp
@@ -29,6 +29,12 @@ protected:
   std::map<std::vector<Sym<T>>,
            std::unique_ptr<BufferDevice<ParticleDatImplGetConstT<T>>>>
       map_syms_const_ptrs;
+  // Host copies of the cached pointers. These are used to identify cache
+  // entries created before a dat was added, removed or replaced.
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetT<T>>>
+      map_syms_host_ptrs;
+  std::map<std::vector<Sym<T>>, std::vector<ParticleDatImplGetConstT<T>>>
+      map_syms_host_const_ptrs;
 
   // Keys that contain EphemeralDats.
   std::set<std::vector<Sym<T>>> ephemeral_keys;
@@ -43,6 +49,8 @@ public:
   inline void reset() {
     this->map_syms_ptrs.clear();
     this->map_syms_const_ptrs.clear();
+    this->map_syms_host_ptrs.clear();
+    this->map_syms_host_const_ptrs.clear();
   }
 
   /**
@@ -52,6 +60,8 @@ public:
     for (auto &keyx : this->ephemeral_keys) {
       this->map_syms_ptrs.erase(keyx);
       this->map_syms_const_ptrs.erase(keyx);
+      this->map_syms_host_ptrs.erase(keyx);
+      this->map_syms_host_const_ptrs.erase(keyx);
     }
     this->ephemeral_keys.clear();
   }
@@ -158,19 +168,23 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create(std::vector<Sym<T>> &syms) {
-    if (!this->in_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetT<T>> ptrs(n);
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    // An existing entry is only valid if it was created from the dats which
+    // the syms currently refer to.
+    if (!this->in_cache(syms) ||
+        (this->map_syms_host_ptrs.at(syms) != ptrs)) {
       this->map_syms_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_host_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
@@ -183,20 +197,23 @@ public:
    * @param syms Syms to create entry for.
    */
   inline void create_const(std::vector<Sym<T>> &syms) {
-    if (!this->in_const_cache(syms)) {
-      const std::size_t n = syms.size();
-      std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
-
-      bool is_ephemeral = false;
-      for (std::size_t ix = 0; ix < n; ix++) {
-        // Use d_ptr to avoid side effects from impl_get
-        bool is_ephemeral_inner;
-        ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
-        is_ephemeral = is_ephemeral || is_ephemeral_inner;
-      }
+    const std::size_t n = syms.size();
+    std::vector<ParticleDatImplGetConstT<T>> ptrs(n);
+    bool is_ephemeral = false;
+    for (std::size_t ix = 0; ix < n; ix++) {
+      // Use d_ptr to avoid side effects from impl_get
+      bool is_ephemeral_inner;
+      ptrs[ix] = this->find(syms[ix], &is_ephemeral_inner)->cell_dat.d_ptr;
+      is_ephemeral = is_ephemeral || is_ephemeral_inner;
+    }
+    // An existing entry is only valid if it was created from the dats which
+    // the syms currently refer to.
+    if (!this->in_const_cache(syms) ||
+        (this->map_syms_host_const_ptrs.at(syms) != ptrs)) {
       this->map_syms_const_ptrs[syms] =
           std::make_unique<BufferDevice<ParticleDatImplGetConstT<T>>>(
               this->sycl_target, ptrs);
+      this->map_syms_host_const_ptrs[syms] = ptrs;
       if (is_ephemeral) {
         this->ephemeral_keys.insert(syms);
       }
-- 
2.43.0


From c78286de4b7b97c958446ad5e7f5281f43c3dcd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:23 +0000
Subject: [PATCH 16/32] fix: loops over whole sub groups drop stale
 EphemeralDats

---
 include/neso_particles/loop/particle_loop.hpp              | 3 +++
 include/neso_particles/loop/particle_loop_base.hpp         | 4 ++++
 .../particle_sub_group/particle_sub_group_base.hpp         | 1 +
 src/loop/particle_loop_base.cpp                            | 7 +++++++
 4 files changed, 15 insertions(+)

diff --git a/include/neso_particles/loop/particle_loop.hpp b/include/neso_particles/loop/particle_loop.hpp
index 79bb337..5d55baa 100644
--- a/include/neso_particles/loop/particle_loop.hpp
+++ b/include/neso_particles/loop/particle_loop.hpp
@@ -158,6 +158,9 @@ protected:
     NESOASSERT(
         (!this->loop_running) || (cell_start != std::nullopt),
         "ParticleLoop::submit called - but the loop is already submitted.");
+    if (!this->loop_running) {
+      this->invalidate_ephemeral_dats_if_required();
+    }
     this->loop_running = true;
 
     int cell_start_v = -1;
diff --git a/include/neso_particles/loop/particle_loop_base.hpp b/include/neso_particles/loop/particle_loop_base.hpp
index 0e19c98..fa396ca 100644
--- a/include/neso_particles/loop/particle_loop_base.hpp
+++ b/include/neso_particles/loop/particle_loop_base.hpp
@@ -235,6 +235,10 @@ public:
     return global_info;
   }
 
+  /// Drop the EphemeralDats of a ParticleSubGroup which wraps an entire
+  /// ParticleGroup if they were created before the group last changed.
+  void invalidate_ephemeral_dats_if_required();
+
   void profiling_region_init();
   virtual inline void profiling_region_metrics(const std::size_t size) = 0;
 
diff --git a/include/neso_particles/particle_sub_group/particle_sub_group_base.hpp b/include/neso_particles/particle_sub_group/particle_sub_group_base.hpp
index 394050f..0529e01 100644
--- a/include/neso_particles/particle_sub_group/particle_sub_group_base.hpp
+++ b/include/neso_particles/particle_sub_group/particle_sub_group_base.hpp
@@ -24,6 +24,7 @@ class ParticleSubGroup : public EphemeralDats {
   // This allows the ParticleLoop to access the implementation methods.
   template <typename KERNEL, typename... ARGS>
   friend class ParticleLoopSubGroup;
+  friend class ParticleLoopBase;
   friend class ParticleGroup;
   friend class ParticleSubGroupImplementation::SubGroupSelectorBase;
   friend inline SymVectorPointerCacheDispatchSharedPtr
diff --git a/src/loop/particle_loop_base.cpp b/src/loop/particle_loop_base.cpp
index 2d9b9ea..2112079 100644
--- a/src/loop/particle_loop_base.cpp
+++ b/src/loop/particle_loop_base.cpp
@@ -1,6 +1,7 @@
 #include <neso_particles/loop/particle_loop_base.hpp>
 #include <neso_particles/particle_dat.hpp>
 #include <neso_particles/particle_group.hpp>
+#include <neso_particles/particle_sub_group/particle_sub_group_base.hpp>
 
 namespace NESO::Particles {
 
@@ -31,6 +32,12 @@ bool determine_iteration_set(const int ncell,
   }
 }
 
+void ParticleLoopBase::invalidate_ephemeral_dats_if_required() {
+  if (this->particle_sub_group_shrptr != nullptr) {
+    this->particle_sub_group_shrptr->invalidate_ephemeral_dats_if_required();
+  }
+}
+
 void ParticleLoopBase::init_from_particle_dat(
     std::shared_ptr<ParticleDatT<REAL>> particle_dat) {
   this->ncell = particle_dat->ncell;
-- 
2.43.0


From 99279be3c2254d596e93b105facf7059f27b78d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 17/32] fix: CellDat minimum row count starts at zero

---
 include/neso_particles/containers/cell_dat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neso_particles/containers/cell_dat.hpp b/include/neso_particles/containers/cell_dat.hpp
index 77c116d..cc2f6d0 100644
--- a/include/neso_particles/containers/cell_dat.hpp
+++ b/include/neso_particles/containers/cell_dat.hpp
@@ -379,8 +379,8 @@ public:
    */
   inline CellDat(SYCLTargetSharedPtr sycl_target, const int ncells,
                  const int ncol)
-      : nrow_max(0), sycl_target(sycl_target), ncells(ncells), ncol(ncol),
-        fixed_size(false) {
+      : nrow_max(0), nrow_min(0), sycl_target(sycl_target), ncells(ncells),
+        ncol(ncol), fixed_size(false) {
     this->create(ncells, ncol);
   };
 
-- 
2.43.0


From c2f08f65c95d80f921df494fba2fa3c55977c67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:14 +0000
Subject: [PATCH 18/32] fix: CellDatConst::set_cell copies column by column
 from a larger source

---
 include/neso_particles/containers/cell_dat_const.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/neso_particles/containers/cell_dat_const.hpp b/include/neso_particles/containers/cell_dat_const.hpp
index 45ea1b1..04bf281 100644
--- a/include/neso_particles/containers/cell_dat_const.hpp
+++ b/include/neso_particles/containers/cell_dat_const.hpp
@@ -705,11 +705,13 @@ public:
                "CellData as insuffient column count.");
 
     if (this->nrow > 0 && this->ncol > 0) {
-      this->sycl_target->queue
-          .memcpy(&this->d_ptr[cell * this->stride],
-                  cell_data->get_column_ptr(0),
-                  this->nrow * this->ncol * sizeof(T))
-          .wait_and_throw();
+      // The source may have more rows than are stored in each column.
+      for (int colx = 0; colx < this->ncol; colx++) {
+        this->sycl_target->queue.memcpy(
+            &this->d_ptr[cell * this->stride + colx * this->nrow],
+            cell_data->get_column_ptr(colx), this->nrow * sizeof(T));
+      }
+      this->sycl_target->queue.wait_and_throw();
     }
   }
 
-- 
2.43.0


From 7a1cce0712f1e945fba4fe9d44e7a91c0fa89f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 19/32] fix: DOFMapperDG::copy_from_external copies from the
 external buffer

---
 src/external_interfaces/common/dof_mapper_dg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/dof_mapper_dg.cpp b/src/external_interfaces/common/dof_mapper_dg.cpp
index 6b3d550..bec1aba 100644
--- a/src/external_interfaces/common/dof_mapper_dg.cpp
+++ b/src/external_interfaces/common/dof_mapper_dg.cpp
@@ -86,7 +86,7 @@ void DOFMapperDG::copy_from_external(CellDatConstSharedPtr<REAL> cell_dat_const,
       k_num_cells_local * k_num_dofs_per_cell * sizeof(REAL);
 
   if (num_bytes > 0) {
-    this->sycl_target->queue.memcpy(h_external_dofs, k_dofs, num_bytes)
+    this->sycl_target->queue.memcpy(k_dofs, h_external_dofs, num_bytes)
         .wait_and_throw();
 
     auto e1 = this->sycl_target->queue.submit([&](sycl::handler &cgh) {
-- 
2.43.0


From 574e03d29dda321b578a526c23c0334db3b010e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 20/32] fix: OverlayCartesianMesh::get_intersecting_cells in
 three dimensions

---
 src/external_interfaces/common/overlay_cartesian_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/overlay_cartesian_mesh.cpp b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
index b66b234..1f099f0 100644
--- a/src/external_interfaces/common/overlay_cartesian_mesh.cpp
+++ b/src/external_interfaces/common/overlay_cartesian_mesh.cpp
@@ -162,7 +162,7 @@ void OverlayCartesianMesh::get_intersecting_cells(
     size *= (cell_upper - cell_lower);
   }
   cells.reserve(size);
-  std::vector<int> index(2);
+  std::vector<int> index(this->ndim);
   this->get_all_cells(0, cell_starts, cell_ends, index, cells);
 }
 
-- 
2.43.0


From 4ee46b503fac6d88c6b0ce61cb547af268696ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:51 +0000
Subject: [PATCH 21/32] fix: QuadraturePointMapper::get with several components
 and remote points

---
 src/external_interfaces/common/quadrature_point_mapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/common/quadrature_point_mapper.cpp b/src/external_interfaces/common/quadrature_point_mapper.cpp
index 8cdb0e9..cb1b9e4 100644
--- a/src/external_interfaces/common/quadrature_point_mapper.cpp
+++ b/src/external_interfaces/common/quadrature_point_mapper.cpp
@@ -326,7 +326,7 @@ void QuadraturePointMapper::get(const int ncomp, std::vector<REAL> &output) {
   // Need to exchange and populate the points where the evaluation point is
   // not owned by the rank which added the point.
   auto sizes = this->compute_num_bytes<REAL>(ncomp);
-  this->recv_buffer.resize(sizes.second);
+  this->recv_buffer.resize(sizes.second * ncomp);
   e1.wait_and_throw();
   this->compute_offsets<REAL>(ncomp, send_buffer, recv_buffer);
 
-- 
2.43.0


From 1c047b04b14e2a8da900e83ca28c6eb70e924e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:33 +0000
Subject: [PATCH 22/32] fix: quad_cartesian_to_collapsed on edges where one of
 the equations degenerates

---
 .../common/coordinate_mapping.hpp             | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/neso_particles/external_interfaces/common/coordinate_mapping.hpp b/include/neso_particles/external_interfaces/common/coordinate_mapping.hpp
index 676b63f..4fd253e 100644
--- a/include/neso_particles/external_interfaces/common/coordinate_mapping.hpp
+++ b/include/neso_particles/external_interfaces/common/coordinate_mapping.hpp
@@ -182,16 +182,28 @@ inline void quad_cartesian_to_collapsed(
   const bool bad_eta0p = Bpos ? bad2A : ((-B + determinate) == 0.0);
   const bool bad_eta0m = Bpos ? ((-B - determinate) == 0.0) : bad2A;
 
-  const REAL denom1p = Kernel::fma(b3, eta0p, b2);
-  const REAL denom1m = Kernel::fma(b3, eta0m, b2);
+  // For each root compute eta1 from the row with the largest denominator as the
+  // denominator of one of the rows may be zero for this eta0, e.g. on an edge.
+  const REAL denom1pa = Kernel::fma(a3, eta0p, a2);
+  const REAL denom1pb = Kernel::fma(b3, eta0p, b2);
+  const REAL denom1ma = Kernel::fma(a3, eta0m, a2);
+  const REAL denom1mb = Kernel::fma(b3, eta0m, b2);
+  const bool use_ap = Kernel::abs(denom1pa) > Kernel::abs(denom1pb);
+  const bool use_am = Kernel::abs(denom1ma) > Kernel::abs(denom1mb);
+  const REAL denom1p = use_ap ? denom1pa : denom1pb;
+  const REAL denom1m = use_am ? denom1ma : denom1mb;
   const bool bad_eta1p = (denom1p == 0.0) || (bad_eta0p);
   const bool bad_eta1m = (denom1m == 0.0) || (bad_eta0m);
 
   // pick correct eta0, eta1 pair
   // const REAL eta1p = (y - b0 - b1 * eta0p) / (b2 + b3 * eta0p);
-  REAL eta1p = Kernel::fma(-b1, eta0p, y - b0) / denom1p;
+  REAL eta1p = (use_ap ? Kernel::fma(-a1, eta0p, x - a0)
+                       : Kernel::fma(-b1, eta0p, y - b0)) /
+               denom1p;
   // const REAL eta1m = (y - b0 - b1 * eta0m) / (b2 + b3 * eta0m);
-  REAL eta1m = Kernel::fma(-b1, eta0m, y - b0) / denom1m;
+  REAL eta1m = (use_am ? Kernel::fma(-a1, eta0m, x - a0)
+                       : Kernel::fma(-b1, eta0m, y - b0)) /
+               denom1m;
 
   eta0p = (bad_eta0p) ? 1000.0 : eta0p;
   eta1p = (bad_eta1p) ? 1000.0 : eta1p;
-- 
2.43.0


From 7c9d4b65f3c821e5b5dc47e151c16d97c8f4ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:42 +0000
Subject: [PATCH 23/32] fix: H5Part::read of a step written without particles

---
 src/particle_io.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/particle_io.cpp b/src/particle_io.cpp
index 7624b9a..3b3a966 100644
--- a/src/particle_io.cpp
+++ b/src/particle_io.cpp
@@ -81,9 +81,12 @@ ParticleSetSharedPtr H5Part::read(ParticleSpec &particle_spec, INT step,
 
   hid_t group_step;
   H5CHK(group_step = H5Gopen(this->file_id, step_name.c_str(), H5P_DEFAULT));
-  INT npart_total;
+  INT npart_total = 0;
 
-  {
+  // No data is written for a step without particles.
+  htri_t has_particles;
+  H5CHK(has_particles = H5Lexists(group_step, "x", H5P_DEFAULT));
+  if (has_particles > 0) {
     hid_t dataset;
     H5CHK(dataset = H5Dopen(group_step, "x", H5P_DEFAULT));
     hid_t filespace;
-- 
2.43.0


From 39d96c166095818e0162e8c83cec3e91ee6602a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 24/32] fix: DMPlex mapping of points on the upper horizontal
 boundary

---
 src/external_interfaces/petsc/dmplex_helper.cpp            | 7 ++++++-
 .../petsc/particle_cell_mapping/dmplex_2d_mapper.cpp       | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/external_interfaces/petsc/dmplex_helper.cpp b/src/external_interfaces/petsc/dmplex_helper.cpp
index e0b9d7e..b75fe3c 100644
--- a/src/external_interfaces/petsc/dmplex_helper.cpp
+++ b/src/external_interfaces/petsc/dmplex_helper.cpp
@@ -561,7 +561,12 @@ bool DMPlexHelper::cell_contains_point(const PetscInt index,
     consistent_line_orientation_2d(xi_t, yi_t, xj_t, yj_t, &xi, &yi, &xj, &yj);
 
     // Is the point in a corner
-    if ((x0 == xj) && (x1 == yj)) {
+    if (((x0 == xi) && (x1 == yi)) || ((x0 == xj) && (x1 == yj))) {
+      num_crossings = 1;
+      break;
+    }
+    // Is the point on a horizontal line, here xi <= xj
+    if ((x1 == yi) && (x1 == yj) && (xi <= x0) && (x0 <= xj)) {
       num_crossings = 1;
       break;
     }
diff --git a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
index d5afb1f..33a9e81 100644
--- a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
+++ b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
@@ -217,7 +217,12 @@ void DMPlex2DMapper::map(ParticleGroup &particle_group, const int map_cell) {
                                            &xj, &yj);
 
             // Is the point in a corner
-            if ((x0 == xj) && (x1 == yj)) {
+            if (((x0 == xi) && (x1 == yi)) || ((x0 == xj) && (x1 == yj))) {
+              num_crossings = 1;
+              break;
+            }
+            // Is the point on a horizontal line, here xi <= xj
+            if ((x1 == yi) && (x1 == yj) && (xi <= x0) && (x0 <= xj)) {
               num_crossings = 1;
               break;
             }
-- 
2.43.0


From c7959191905782dd343d4fcb4703b32bfa8439d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 25/32] fix: DMPlex2DMapper expanded the bounding box of the
 mesh in place

---
 .../petsc/particle_cell_mapping/dmplex_2d_mapper.cpp        | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
index 33a9e81..ca10a54 100644
--- a/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
+++ b/src/external_interfaces/petsc/particle_cell_mapping/dmplex_2d_mapper.cpp
@@ -16,8 +16,10 @@ DMPlex2DMapper::DMPlex2DMapper(SYCLTargetSharedPtr sycl_target,
   const int num_halo_cells = dmh_halo ? dmh_halo->get_cell_count() : 0;
   const int num_total_cells = num_local_cells + num_halo_cells;
 
-  // Create a bounding box for halo cells and local cells.
-  auto bounding_box = dmplex_interface->dmh->get_bounding_box();
+  // Create a bounding box for halo cells and local cells. This is a copy as the
+  // bounding box of the local cells is held by the DMPlexHelper.
+  auto bounding_box = std::make_shared<ExternalCommon::BoundingBox>();
+  bounding_box->expand(dmplex_interface->dmh->get_bounding_box());
   if (dmh_halo) {
     bounding_box->expand(dmh_halo->get_bounding_box());
   }
-- 
2.43.0


From 41f7641201b9bd00f9e723bbfd995345939a017d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 26/32] fix: signed global indices in
 DMPlexHelper::get_local_point_from_global_point

---
 src/external_interfaces/petsc/dmplex_helper.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/external_interfaces/petsc/dmplex_helper.cpp b/src/external_interfaces/petsc/dmplex_helper.cpp
index b75fe3c..9e2be85 100644
--- a/src/external_interfaces/petsc/dmplex_helper.cpp
+++ b/src/external_interfaces/petsc/dmplex_helper.cpp
@@ -349,10 +349,11 @@ PetscInt DMPlexHelper::get_point_global_index(const PetscInt point,
 
 PetscInt DMPlexHelper::get_local_point_from_global_point(
     const PetscInt global_point_index) {
-  NESOASSERT(this->map_gobal_point_to_local_point.count(
-                 signed_global_id_to_global_id(global_point_index)),
+  const PetscInt global_point =
+      signed_global_id_to_global_id(global_point_index);
+  NESOASSERT(this->map_gobal_point_to_local_point.count(global_point),
              "Global point not found.");
-  return this->map_gobal_point_to_local_point[global_point_index];
+  return this->map_gobal_point_to_local_point.at(global_point);
 }
 
 ExternalCommon::BoundingBoxSharedPtr DMPlexHelper::get_bounding_box() {
-- 
2.43.0


From f8c1ac2a77f0ab691e2e9ff403d81a0252aefb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 27/32] fix: uniform_within_dmplex_cell failed when the last
 permitted attempt succeeds

---
 src/external_interfaces/petsc/dmplex_utility.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/external_interfaces/petsc/dmplex_utility.cpp b/src/external_interfaces/petsc/dmplex_utility.cpp
index ef6a1e8..8d9cbbc 100644
--- a/src/external_interfaces/petsc/dmplex_utility.cpp
+++ b/src/external_interfaces/petsc/dmplex_utility.cpp
@@ -46,7 +46,7 @@ int uniform_within_dmplex_cell(DMPlexInterfaceSharedPtr mesh, const int cell,
       contained = mesh->dmh->cell_contains_point(cell, proposed_position);
       attempt_count++;
     }
-    NESOASSERT(attempt_count < attempt_max, "Maximum attempt count reached.");
+    NESOASSERT(contained, "Maximum attempt count reached.");
     for (int dx = 0; dx < ndim; dx++) {
       positions.at(dx).at(index) = proposed_position.at(dx);
     }
-- 
2.43.0


From 381e6b456929e190488d9886699073b175b0dd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 28/32] fix: BoundaryNormalMapper::get dereferenced the data of
 unknown edges

---
 .../boundary_interaction/boundary_interaction_2d.hpp  | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp
index 39fb1ed..558f1dd 100644
--- a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp
+++ b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_2d.hpp
@@ -45,9 +45,14 @@ struct BoundaryNormalMapper {
   inline bool get(const INT global_id, REAL **normal) const {
     BoundaryInteractionNormalData2D *node = nullptr;
     bool *exists;
-    const bool e = root->get_location(global_id, &exists, &node);
-    *normal = node->d_normal;
-    return e && (*exists);
+    // The root is null if there are no boundary elements on this rank.
+    const bool found = (root != nullptr) &&
+                       root->get_location(global_id, &exists, &node) &&
+                       (*exists);
+    if (found) {
+      *normal = node->d_normal;
+    }
+    return found;
   }
 };
 
-- 
2.43.0


From 5b2e2b566f071fd9eba2af72af000784dc072370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 29/32] fix: line segment intersection missed crossings of axis
 aligned segments

---
 include/neso_particles/device_functions.hpp | 23 ++++++++++++---------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/neso_particles/device_functions.hpp b/include/neso_particles/device_functions.hpp
index 0d45396..854f088 100644
--- a/include/neso_particles/device_functions.hpp
+++ b/include/neso_particles/device_functions.hpp
@@ -210,16 +210,19 @@ inline bool line_segment_intersection_2d(const REAL &xa, const REAL &ya,
     const bool in_bounds_01 =
         ((0.0 - tol) <= l0_out) && (l0_out <= (1.0 + tol));
 
-    // This segment is the one where we want strict bounds.
-    const bool x_cond = (x0 < x1);
-    const REAL x_min = x_cond ? x0 : x1;
-    const REAL x_max = x_cond ? x1 : x0;
-    const bool y_cond = (y0 < y1);
-    const REAL y_min = y_cond ? y0 : y1;
-    const REAL y_max = y_cond ? y1 : y0;
-
-    const bool in_bounds_ab = (x_min - tol <= xi) && (xi <= x_max + tol) &&
-                              (y_min - tol <= yi) && (yi <= y_max + tol);
+    // This segment is the one where we want strict bounds. The intersection
+    // point is on the line through this segment up to rounding, hence compare
+    // the coordinate in which the segment is longest. The rounding error in the
+    // other coordinate can exceed the extent of the segment in that coordinate,
+    // e.g. for a segment parallel to an axis.
+    const bool use_x = KERNEL_ABS(v01x) >= KERNEL_ABS(v01y);
+    const REAL s0 = use_x ? x0 : y0;
+    const REAL s1 = use_x ? x1 : y1;
+    const REAL si = use_x ? xi : yi;
+    const REAL s_min = (s0 < s1) ? s0 : s1;
+    const REAL s_max = (s0 < s1) ? s1 : s0;
+
+    const bool in_bounds_ab = (s_min - tol <= si) && (si <= s_max + tol);
 
     return in_bounds_01 && in_bounds_ab;
   } else {
-- 
2.43.0


From 730fbc23d3a5e39b7e87631ae1377df3a65dcfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 30/32] fix: BoundaryInteraction missed trajectories leaving
 from the upper extent of the mesh

---
 .../boundary_interaction_common.hpp           | 21 ++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
index 2e077c1..1eec730 100644
--- a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
+++ b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
@@ -94,11 +94,14 @@ protected:
             }
 
             // Truncate the start/end cells to actually be within the range of
-            // the grid
+            // the grid. Both are truncated on both sides as a trajectory that
+            // starts exactly on the upper extent of the grid is in no cell.
             for (int dimx = 0; dimx < k_ndim; dimx++) {
-              cell_starts[dimx] = KERNEL_MAX(cell_starts[dimx], 0);
+              const INT max_cell = k_cell_bounds[dimx] - 1;
+              cell_starts[dimx] =
+                  KERNEL_MIN(max_cell, KERNEL_MAX(cell_starts[dimx], 0));
               cell_ends[dimx] =
-                  KERNEL_MIN(k_cell_bounds[dimx] - 1, cell_ends[dimx]);
+                  KERNEL_MIN(max_cell, KERNEL_MAX(cell_ends[dimx], 0));
               cell_ends[dimx] += 1;
             }
 
@@ -230,9 +233,17 @@ protected:
                 for (int dimx = 0; dimx < k_ndim; dimx++) {
 
                   const int index = idx * k_ndim + dimx;
-                  const int bound_min = KERNEL_MAX(0, k_cdc_min[index]);
+                  const int max_cell = k_cell_bounds[dimx] - 1;
+                  // The bounds are not ordered if there are no particles in
+                  // the cell.
+                  const bool empty = k_cdc_min[index] > k_cdc_max[index];
+                  const int bound_min =
+                      KERNEL_MIN(max_cell, KERNEL_MAX(0, k_cdc_min[index]));
                   const int bound_max =
-                      KERNEL_MIN(k_cell_bounds[dimx] - 1, k_cdc_max[index]);
+                      empty
+                          ? bound_min - 1
+                          : KERNEL_MIN(max_cell,
+                                       KERNEL_MAX(0, k_cdc_max[index]));
 
                   // Truncated for future computation.
                   k_cdc_min[index] = bound_min;
-- 
2.43.0


From b7921b0eb4499d4d92cff8bbcbba60dae41fd7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:43 +0000
Subject: [PATCH 31/32] fix: BoundaryInteraction2D with more position
 components than mesh dimensions

---
 .../petsc/boundary_interaction/boundary_interaction_common.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
index 1eec730..4a0cbe2 100644
--- a/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
+++ b/include/neso_particles/external_interfaces/petsc/boundary_interaction/boundary_interaction_common.hpp
@@ -60,7 +60,7 @@ protected:
                                        INT *d_int) {
     if (intersect_object.boundary_elements_exist()) {
       auto particle_group = get_particle_group(particle_sub_group);
-      const auto k_ndim = particle_group->position_dat->ncomp;
+      const int k_ndim = this->mesh->get_ndim();
 
       auto mesh_hierarchy_device_mapper =
           this->mesh_hierarchy_mapper->get_device_mapper();
-- 
2.43.0


From e8903a58511f29f0b0c65f75bf24d379de020d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:34 +0000
Subject: [PATCH 32/32] Model checking hook: smallest resource stack buffers
 (NESO_PARTICLES_MC_HOOKS)

---
 include/neso_particles/device_buffers.hpp | 38 +++++++++++++++++++----
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/include/neso_particles/device_buffers.hpp b/include/neso_particles/device_buffers.hpp
index f27bff2..eda8b3f 100644
--- a/include/neso_particles/device_buffers.hpp
+++ b/include/neso_particles/device_buffers.hpp
@@ -589,6 +589,14 @@ template <template <typename> typename D, template <typename> typename S,
   return dst.sycl_target->queue.memcpy(dst.ptr, src.ptr, dst.size * sizeof(T));
 }
 
+#ifndef NESO_PARTICLES_MC_HOOKS
+/// Number of elements in new buffers provided by resource stacks.
+constexpr std::size_t RESOURCE_STACK_BUFFER_SIZE = 64;
+#else
+// Model checking hook: provide the smallest possible buffer.
+constexpr std::size_t RESOURCE_STACK_BUFFER_SIZE = 1;
+#endif
+
 /**
  * ResourceStackInterface for BufferDeviceHost.
  */
@@ -601,7 +609,8 @@ struct ResourceStackInterfaceBufferDeviceHost
       : sycl_target(sycl_target) {}
 
   virtual inline std::shared_ptr<BufferDeviceHost<T>> construct() override {
-    return std::make_shared<BufferDeviceHost<T>>(this->sycl_target, 64);
+    return std::make_shared<BufferDeviceHost<T>>(this->sycl_target,
+                                                 RESOURCE_STACK_BUFFER_SIZE);
   }
 
   virtual inline void free([[maybe_unused]] std::shared_ptr<BufferDeviceHost<T>>
@@ -612,7 +621,12 @@ struct ResourceStackInterfaceBufferDeviceHost
 
   virtual inline void
   clean([[maybe_unused]] std::shared_ptr<BufferDeviceHost<T>> &resource)
-      override {}
+      override {
+#ifdef NESO_PARTICLES_MC_HOOKS
+    // Model checking hook: never pass a grown or filled buffer on.
+    resource = this->construct();
+#endif
+  }
 };
 
 /**
@@ -627,7 +641,8 @@ struct ResourceStackInterfaceBufferDevice
       : sycl_target(sycl_target) {}
 
   virtual inline std::shared_ptr<BufferDevice<T>> construct() override {
-    return std::make_shared<BufferDevice<T>>(this->sycl_target, 64);
+    return std::make_shared<BufferDevice<T>>(this->sycl_target,
+                                             RESOURCE_STACK_BUFFER_SIZE);
   }
 
   virtual inline void
@@ -637,7 +652,12 @@ struct ResourceStackInterfaceBufferDevice
   }
 
   virtual inline void
-  clean([[maybe_unused]] std::shared_ptr<BufferDevice<T>> &resource) override {}
+  clean([[maybe_unused]] std::shared_ptr<BufferDevice<T>> &resource) override {
+#ifdef NESO_PARTICLES_MC_HOOKS
+    // Model checking hook: never pass a grown or filled buffer on.
+    resource = this->construct();
+#endif
+  }
 };
 
 /**
@@ -652,7 +672,8 @@ struct ResourceStackInterfaceBufferHost
       : sycl_target(sycl_target) {}
 
   virtual inline std::shared_ptr<BufferHost<T>> construct() override {
-    return std::make_shared<BufferHost<T>>(this->sycl_target, 64);
+    return std::make_shared<BufferHost<T>>(this->sycl_target,
+                                           RESOURCE_STACK_BUFFER_SIZE);
   }
 
   virtual inline void
@@ -662,7 +683,12 @@ struct ResourceStackInterfaceBufferHost
   }
 
   virtual inline void
-  clean([[maybe_unused]] std::shared_ptr<BufferHost<T>> &resource) override {}
+  clean([[maybe_unused]] std::shared_ptr<BufferHost<T>> &resource) override {
+#ifdef NESO_PARTICLES_MC_HOOKS
+    // Model checking hook: never pass a grown or filled buffer on.
+    resource = this->construct();
+#endif
+  }
 };
 
 /**
-- 
2.43.0

