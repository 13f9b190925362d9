From 7ccd57c9a4eab4c553a55eec3c686a4cf7207236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 01/43] fix: rank lookup by position on non-square coarse grids

LightOctree_hashmap derived the first Morton index of each process with
2^level_max octants along every axis, whatever the coarse grid size, so
getDomainFromPos() returned the wrong process when the coarse grid is not
a full cube.
---
 core/src/amr/LightOctree_hashmap.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 79b987a..3081be4 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -52,11 +52,10 @@ public:
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
             index_t<3> logical_coords;
-            uint32_t octant_count = std::pow(2, max_level );
-            real_t octant_size = 1.0/octant_count;
-            logical_coords[IX] = std::floor(pos[IX]/octant_size);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size);
+            // Corner positions are multiples of the size of octants at max_level, which may differ along each axis
+            logical_coords[IX] = std::round(pos[IX]*this->storage.cell_count(IX, max_level));
+            logical_coords[IY] = std::round(pos[IY]*this->storage.cell_count(IY, max_level));
+            logical_coords[IZ] = (ndim-2)*std::round(pos[IZ]*this->storage.cell_count(IZ, max_level));
 
             first_morton = compute_morton_key( logical_coords );
         }
-- 
2.43.0


From 985e2c7803f9df6d6a0d2c8a2d2b2a4b38414dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 02/43] fix: processes left without octant by a coarsening

adapt() tested the octant count from before the adaptation, then read octant 0
of the new, possibly empty, storage; LightOctree_hashmap read octant 0
unconditionally. Both gave a random Morton interval for that process, so
ghosts and getDomainFromPos() were wrong.
---
 core/src/amr/AMRmesh_hashmap_new.cpp | 2 +-
 core/src/amr/LightOctree_hashmap.h   | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index d4fac06..47b8255 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -909,7 +909,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     std::vector<morton_t> morton_intervals(mpi_size+1);
     {
       morton_t morton_interval_begin;
-      if( storage.getNumOctants() != 0 )
+      if( new_nbOcts != 0 ) // `storage` still contains octants from before adapt
       {
         Kokkos::View<morton_t> morton_interval_begin_device("morton_interval_begin");
         Kokkos::parallel_for( "adapt:compute_morton", 1, KOKKOS_LAMBDA(int)
diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 3081be4..3d36aaa 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -47,7 +47,9 @@ public:
         private_init();
 
         // TODO use logical coords directly or even morton_intervals from AMRmesh
-        morton_t first_morton;
+        // A process may own no octant after coarsening : mark it with -1
+        morton_t first_morton = morton_t(-1);
+        if( pmesh->getNumOctants() > 0 )
         {
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
@@ -62,6 +64,10 @@ public:
         auto morton_intervals_host = Kokkos::create_mirror_view( morton_intervals );
         pmesh->getMpiComm().MPI_Allgather( &first_morton, morton_intervals_host.data(), 1 );
         morton_intervals_host(morton_intervals_host.size()-1) = uint64_t(-1);
+        // Interval is empty when process has no octant
+        for( int rank=(int)morton_intervals_host.size()-2; rank>=0; rank-- )
+            if( morton_intervals_host(rank) == morton_t(-1) )
+                morton_intervals_host(rank) = morton_intervals_host(rank+1);
         Kokkos::deep_copy(morton_intervals, morton_intervals_host);
 
     }
-- 
2.43.0


From f462e146c0050ea67c58e76b905ac3bc3229a6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:59 +0000
Subject: [PATCH 03/43] fix: getiOctFromCoordinates truncated coordinates to 16
 bits

Logical coordinates need more than 16 bits from level 17 on, while levels up
to 20 are supported.
---
 core/src/amr/LightOctree_hashmap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 3d36aaa..d1a422a 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -246,7 +246,7 @@ public:
      * Get octant from logical position
      **/
     KOKKOS_INLINE_FUNCTION
-    OctantIndex getiOctFromCoordinates(uint16_t ix, uint16_t iy, uint16_t iz, uint16_t level) const
+    OctantIndex getiOctFromCoordinates(uint32_t ix, uint32_t iy, uint32_t iz, uint32_t level) const
     {
         int ndim = getNdim();
 
-- 
2.43.0


From 84d2ab620dea83665c13b99f545ad6229df27908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:11 +0000
Subject: [PATCH 04/43] fix: load balancing scrambled fields not stored in
 alphabetical order

exchange_loadbalance() sent the first nbFields() columns of the old array into
columns renumbered in alphabetical order by backup_and_realloc(). As soon as a
field had been created, moved or deleted out of order, fields swapped their
content (or were lost) when load balancing.
---
 core/src/UserData_fields.h | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index f03dbc4..dc41a1a 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -280,16 +280,21 @@ inline void UserData_fields::exchange_loadbalance( const ViewCommunicator& ghost
     {  
         UserData_fields::FieldAccessor fields_old = this->backup_and_realloc();
         int nb_fields = this->nbFields();
-        auto old_fields_View = Kokkos::subview( fields_old.fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        auto new_fields_View = Kokkos::subview(this->fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        
-        ghost_comm.exchange_ghosts<2>(old_fields_View, new_fields_View );
+        // Fields may have been moved to another position in `fields` by backup_and_realloc() : exchange them one by one
+        for( int ivar=0; ivar<nb_fields; ivar++ )
+        {
+            int ivar_old = fields_old.fm_active[ivar];
+            auto old_field_View = Kokkos::subview( fields_old.fields.U, 
+                                                    Kokkos::ALL(),
+                                                    std::make_pair(ivar_old, ivar_old+1),
+                                                    Kokkos::ALL()  );
+            auto new_field_View = Kokkos::subview( this->fields.U, 
+                                                    Kokkos::ALL(),
+                                                    std::make_pair(ivar, ivar+1),
+                                                    Kokkos::ALL()  );
+            
+            ghost_comm.exchange_ghosts<2>(old_field_View, new_field_View );
+        }
     }// This block is important to deallocate fields_old before extend_fields()
 
     this->extend_fields();
-- 
2.43.0


From f2f1e1596e0354f73065b10d8158413d1fc844ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:44 +0000
Subject: [PATCH 05/43] fix: particle attribute creation after a deletion, and
 self-moves

new_ParticleAttribute() compared the needed number of columns with the number
of live attributes instead of the allocated ones, and aborted in deep_copy when
an attribute had been deleted before. Moving a field or an attribute onto
itself erased it.
---
 core/src/UserData_fields.h    | 2 ++
 core/src/UserData_particles.h | 4 +++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index dc41a1a..7a313ce 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -160,6 +160,8 @@ public:
     {
         DYABLO_ASSERT_HOST_RELEASE( this->has_field(src), "UserData_fields::move_field() - field doesn't exist : " << src);
 
+        if( dest == src ) return; // Nothing to move
+
         field_index[ dest ] = field_index.at( src );
         field_index.erase( src );
     }
diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index 3995418..6d5abad 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -42,7 +42,7 @@ public:
             int nb_new_attributes = 1;
             int needed_attr_count = nbAttributes() + nb_new_attributes;
             this->max_particle_count = std::max( this->max_particle_count, needed_attr_count );
-            int allocated_attr_count = nbAttributes();
+            int allocated_attr_count = particles.nbfields(); // May be more than nbAttributes() after a deletion
             if( needed_attr_count > allocated_attr_count )
             {
                 ParticleData particles_new( particles, FieldManager(needed_attr_count) );
@@ -125,6 +125,8 @@ public:
         {
             DYABLO_ASSERT_HOST_RELEASE( this->has_ParticleAttribute(attr_src), "move_ParticleAttribute() - source attribute doesn't exist : " << attr_src);
 
+            if( attr_dest == attr_src ) return; // Nothing to move
+
             attribute_index[ attr_dest ] = attribute_index.at(attr_src);
             attribute_index.erase( attr_src );
         }
-- 
2.43.0


From f35bfaa96595b2eaa5714937f6612536cec19615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:21 +0000
Subject: [PATCH 06/43] fix: positions next to the upper walls were rounded
 into a non-existing octant or cell

---
 core/src/amr/LightOctree_hashmap.h          | 20 ++++++++++++++------
 core/src/foreach_cell/AMRBlockForeachCell.h |  4 ++++
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index d1a422a..8f433f2 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -287,10 +287,14 @@ public:
             real_t octant_size_x = 1.0/( storage.cell_count(IX, max_level) );
             real_t octant_size_y = 1.0/( storage.cell_count(IY, max_level) );
             real_t octant_size_z = 1.0/( storage.cell_count(IZ, max_level) );
+            // Rounding in pos/octant_size must not reach the octant after the last
+            real_t last_oct_x = storage.cell_count(IX, max_level)-1;
+            real_t last_oct_y = storage.cell_count(IY, max_level)-1;
+            real_t last_oct_z = storage.cell_count(IZ, max_level)-1;
             logical_coords.level = max_level;
-            logical_coords.i = std::floor(pos[IX]/octant_size_x);
-            logical_coords.j = std::floor(pos[IY]/octant_size_y);
-            logical_coords.k = (ndim-2)*std::floor(pos[IZ]/octant_size_z);
+            logical_coords.i = FMIN( std::floor(pos[IX]/octant_size_x), last_oct_x );
+            logical_coords.j = FMIN( std::floor(pos[IY]/octant_size_y), last_oct_y );
+            logical_coords.k = (ndim-2)*FMIN( std::floor(pos[IZ]/octant_size_z), last_oct_z );
         }
 
         for(level_t level=max_level; level>=min_level; level--)
@@ -328,9 +332,13 @@ public:
             real_t octant_size_x = 1.0/( storage.cell_count(IX, max_level) );
             real_t octant_size_y = 1.0/( storage.cell_count(IY, max_level) );
             real_t octant_size_z = 1.0/( storage.cell_count(IZ, max_level) );
-            logical_coords[IX] = std::floor(pos[IX]/octant_size_x);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size_y);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size_z);
+            // Rounding in pos/octant_size must not reach the octant after the last
+            real_t last_oct_x = storage.cell_count(IX, max_level)-1;
+            real_t last_oct_y = storage.cell_count(IY, max_level)-1;
+            real_t last_oct_z = storage.cell_count(IZ, max_level)-1;
+            logical_coords[IX] = FMIN( std::floor(pos[IX]/octant_size_x), last_oct_x );
+            logical_coords[IY] = FMIN( std::floor(pos[IY]/octant_size_y), last_oct_y );
+            logical_coords[IZ] = (ndim-2)*FMIN( std::floor(pos[IZ]/octant_size_z), last_oct_z );
 
             morton = compute_morton_key( logical_coords );
         }
diff --git a/core/src/foreach_cell/AMRBlockForeachCell.h b/core/src/foreach_cell/AMRBlockForeachCell.h
index 4b603fd..82f8c99 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell.h
@@ -118,6 +118,10 @@ public:
     uint32_t ix = (x-oct_corner[IX])/cell_size[IX];
     uint32_t iy = (y-oct_corner[IY])/cell_size[IY];
     uint32_t iz = (z-oct_corner[IZ])/cell_size[IZ];      
+    // A position next to the upper faces of the octant may be rounded to the cell after the last
+    ix = FMIN( ix, bx-1 );
+    iy = FMIN( iy, by-1 );
+    iz = FMIN( iz, bz-1 );
 
     assert(!iOct.isGhost);
 
-- 
2.43.0


From 3689f9cceadfed51d2b392c5b36de793318e695b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:21 +0000
Subject: [PATCH 07/43] fix: MapUserData_mean uses the ghosts of the old mesh
 when a coarsened family was split over processes

---
 core/src/amr/MapUserData_mean.cpp            | 18 ++++++++++--------
 core/src/mpi/GhostCommunicator_full_blocks.h |  6 ++++++
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/src/amr/MapUserData_mean.cpp b/core/src/amr/MapUserData_mean.cpp
index 03b1530..b257842 100644
--- a/core/src/amr/MapUserData_mean.cpp
+++ b/core/src/amr/MapUserData_mean.cpp
@@ -4,6 +4,8 @@
 #include "mpi/GhostCommunicator_full_blocks.h"
 #include "UserData.h"
 
+#include <memory>
+
 namespace dyablo {
 
 /**
@@ -22,7 +24,10 @@ public:
 
   void save_old_mesh() override
   {
-    this->lmesh_old = this->foreach_cell.get_amr_mesh().getLightOctree();
+    AMRmesh& amr_mesh = this->foreach_cell.get_amr_mesh();
+    this->lmesh_old = amr_mesh.getLightOctree();
+    // Old data may need ghosts of the old mesh in remap()
+    this->ghost_comm_old = std::make_unique<GhostCommunicator_full_blocks>( amr_mesh );
   }
 
   void remap( UserData& user_data ) override
@@ -84,9 +89,6 @@ public:
               }
         }
       }, ghost_coarsen_count);
-      if( ghost_coarsen_count > 0 )
-        std::cout << "Warning : detected ghost subcells in coarsened octant during remap - this is so unlikely that it was never tested" << std::endl;
-
       return ghost_coarsen_count;
     };
 
@@ -98,18 +100,18 @@ public:
       // In rare cases, a coarsened cell could have it's subcells scattered on multiple process
       // If this happens, we perform a complete full-block communication of all ghosts
       // before remapping again
-      // TODO : find a test-case that uses that
+      // NOTE : Uin is on the old mesh : ghosts are those of the mesh at last save_old_mesh()
       // TODO : communicate only needed octants
 
-      GhostCommunicator_full_blocks ghost_comm(foreach_cell.get_amr_mesh(), Uin.getShape(), -1 );
-      ghost_comm.exchange_ghosts( Uin );
-      remap_aux(Uin, Uout);
+      ghost_comm_old->exchange_ghosts( Uin );
+      remap();
     }
   }
 
 private:
   ForeachCell& foreach_cell;
   LightOctree lmesh_old;
+  std::unique_ptr<GhostCommunicator_full_blocks> ghost_comm_old;
 };
 
 } // namespace dyablo;
diff --git a/core/src/mpi/GhostCommunicator_full_blocks.h b/core/src/mpi/GhostCommunicator_full_blocks.h
index f02125c..9d95ef4 100644
--- a/core/src/mpi/GhostCommunicator_full_blocks.h
+++ b/core/src/mpi/GhostCommunicator_full_blocks.h
@@ -14,6 +14,12 @@ public:
     : ViewCommunicator( ViewCommunicator::from_mesh(amr_mesh, mpi_comm) )
     {}
 
+    /// Full-block communicator does not depend on the content of the blocks : only the mesh is needed
+    template< typename AMRmesh_t >
+    explicit GhostCommunicator_full_blocks( const AMRmesh_t& amr_mesh )
+    : ViewCommunicator( ViewCommunicator::from_mesh(amr_mesh) )
+    {}
+
     static std::string name()
     {
       return "GhostCommunicator_full_blocks";
-- 
2.43.0


From ad9d32f08694170628ed00f307c528aeadac346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:31 +0000
Subject: [PATCH 08/43] fix: ConfigMap constructor read print_config before it
 was set

---
 core/src/utils/config/ConfigMap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/utils/config/ConfigMap.h b/core/src/utils/config/ConfigMap.h
index fa1d8e7..ee2e46f 100644
--- a/core/src/utils/config/ConfigMap.h
+++ b/core/src/utils/config/ConfigMap.h
@@ -383,7 +383,7 @@ protected:
     bool used = false;
   };
 
-  bool print_config;
+  bool print_config = false;
 
   std::map<std::string, std::map< std::string, value_container> > _values;
   static int valueHandler( void* user, const char* section_cstr, const char* name_cstr,
-- 
2.43.0


From ef077527f73590910bf6a86beb3bd9984dd63e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:26 +0000
Subject: [PATCH 09/43] fix: boundary conditions of the lower and upper side of
 an axis were exchanged

---
 core/src/boundary_conditions/BoundaryConditions.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/boundary_conditions/BoundaryConditions.h b/core/src/boundary_conditions/BoundaryConditions.h
index 3a5c29c..ef3a9c7 100644
--- a/core/src/boundary_conditions/BoundaryConditions.h
+++ b/core/src/boundary_conditions/BoundaryConditions.h
@@ -81,13 +81,13 @@ public:
     res = ref;
 
     // X dir
-    if (offset[IX] > 0) {
+    if (offset[IX] < 0) {
       if (bc_min[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
       else if (bc_min[IX] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IX);
     }
-    else if (offset[IX] < 0) {
+    else if (offset[IX] > 0) {
       if (bc_max[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
       else if (bc_max[IX] == BC_USER)
@@ -95,13 +95,13 @@ public:
     }
 
     // Y dir
-    if (offset[IY] > 0) {
+    if (offset[IY] < 0) {
       if (bc_min[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
       else if (bc_min[IY] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IY);
     }
-    else if (offset[IY] < 0) {
+    else if (offset[IY] > 0) {
       if (bc_max[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
       else if (bc_max[IY] == BC_USER)
@@ -110,13 +110,13 @@ public:
 
     // Z dir
     if (ndim == 3) {
-      if (offset[IZ] > 0) {
+      if (offset[IZ] < 0) {
         if (bc_min[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
         else if (bc_min[IZ] == BC_USER)
           res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IZ);
       }
-      else if (offset[IZ] < 0) {
+      else if (offset[IZ] > 0) {
         if (bc_max[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
         else if (bc_max[IZ] == BC_USER)
-- 
2.43.0


From 3dae8ee78ed956ca4b9ddb63379c1cedbe7655cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 10/43] fix: fast magnetosonic speed was NaN when rounding made
 its discriminant negative

---
 core/src/RiemannSolvers.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/RiemannSolvers.h b/core/src/RiemannSolvers.h
index 89ec062..0d9f08d 100644
--- a/core/src/RiemannSolvers.h
+++ b/core/src/RiemannSolvers.h
@@ -245,7 +245,7 @@ void riemann_five_waves(const PrimMHDState&  qleft,
     const real_t ca2  = B2 / q.rho;
     const real_t cap2 = q.Bx*q.Bx/q.rho;
     // Remi's version
-    return sqrt(0.5*(c02+ca2)+0.5*sqrt((c02+ca2)*(c02+ca2)-4.0*c02*cap2));
+    return sqrt(0.5*(c02+ca2)+0.5*sqrt(fmax(0.0, (c02+ca2)*(c02+ca2)-4.0*c02*cap2)));
   };
 
   // Using 3-wave if hyperbolicity is lost
@@ -357,7 +357,7 @@ void riemann_hlld( const PrimMHDState&  qleft,
     const real_t gp = params.gamma0 * q.p;
     const real_t B2 = Bx*Bx + q.By*q.By + q.Bz*q.Bz;
     
-    return sqrt(0.5 * (gp + B2 + sqrt((gp + B2)*(gp + B2) - 4.0*gp*Bx*Bx)) / q.rho);
+    return sqrt(0.5 * (gp + B2 + sqrt(fmax(0.0, (gp + B2)*(gp + B2) - 4.0*gp*Bx*Bx))) / q.rho);
   };
 
   const real_t cfL = computeFastMagnetoAcousticSpeed(qleft);
-- 
2.43.0


From 0bad80cb67f66ec8bb1acb94fbf682225e86a72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 11/43] fix: hancock_oneneighbor used an infinite slope for
 cells between two walls

---
 core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
index bf9abe8..a719a6b 100644
--- a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
+++ b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
@@ -148,6 +148,10 @@ void compute_limited_slopes(const GhostedArray& Q, const CellIndex& iCell_U,
     process_neighbors(IZ, -1);
   }
 
+  // No neighbor inside the domain in this direction : slope is zero
+  for (int d=0; d < ndim; ++d)
+    state_foreach_var( [](real_t& res){ if( res == big_real() ) res = 0.0; }, grad[d] );
+
   PrimState gradP[ndim]{};
 
   gradP[IX] = grad[IX];
-- 
2.43.0


From 4411f6b8071540809d099785b8c63921513253f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:44 +0000
Subject: [PATCH 12/43] fix: particle time step failed on processes without
 particles

---
 core/src/compute_dt/Compute_dt_particle_velocity.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/compute_dt/Compute_dt_particle_velocity.cpp b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
index a36a67a..acbf6a2 100644
--- a/core/src/compute_dt/Compute_dt_particle_velocity.cpp
+++ b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
@@ -76,6 +76,7 @@ public:
       inv_dt_update = FMAX( inv_dt_update, v/dmin);
     }, Kokkos::Max<real_t>(inv_dt));
 
+    inv_dt = FMAX( inv_dt, (real_t)0 ); // No local particles : no constraint on dt
     real_t dt = cfl / inv_dt;
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
-- 
2.43.0


From 097f0d9626a06ff6b1928ec3b9df7c43f1dfd740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:40 +0000
Subject: [PATCH 13/43] fix: hlld tested the right Alfven wave before the right
 fast wave

---
 core/src/RiemannSolvers.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/RiemannSolvers.h b/core/src/RiemannSolvers.h
index 0d9f08d..6e98564 100644
--- a/core/src/RiemannSolvers.h
+++ b/core/src/RiemannSolvers.h
@@ -474,6 +474,13 @@ void riemann_hlld( const PrimMHDState&  qleft,
 
     p_out = qleft.p;
   }
+  else if (!(SR > 0.0)) { // SR <= 0.0; qR (before SRS : rounding or strong jumps may give SRS > SR)
+    q = qright;
+    e_tot = ER;
+    q.p = pTR;
+
+    p_out = qright.p;
+  }
   else if (SLS > 0.0) { // qL*
     q.rho = rLS;
     q.u   = uS;
@@ -516,7 +523,7 @@ void riemann_hlld( const PrimMHDState&  qleft,
 
     p_out = qright.p;
   }
-  else if (SR > 0.0) { // qR*
+  else { // qR*
     q.rho = rRS;
     q.u   = uS;
     q.v   = vRS;
@@ -530,13 +537,6 @@ void riemann_hlld( const PrimMHDState&  qleft,
 
     p_out = qright.p;
   }
-  else { // SR < 0.0; qR
-    q = qright;
-    e_tot = ER;
-    q.p = pTR;
-
-    p_out = qright.p;
-  }
 
   flux = computeFlux(q, e_tot);
 }
-- 
2.43.0


From a8db8f72b81e3f7f6d77578550e8db7ca05e8ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 14/43] fix: cloud-in-cell lost mass and force at smaller edge
 and corner neighbours

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 9 +++++----
 core/src/particles/ParticleUpdate_CIC_move.cpp    | 3 ++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 0fc978b..413434e 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -98,10 +98,11 @@ public:
         else 
         {
           // Smaller : write to all smaller neighbors
-          //real_t volume_fraction_smaller = volume_fraction/(2*(ndim-1)); // Mass distributed accross neighbors
-          //real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ) // Volume 2^ndim times smaller
-          //real_t rho_contrib_smaller = (part_mass * volume_fraction_smaller) / Vcell_smaller;
-          real_t rho_contrib = 2 * (part_mass * volume_fraction) / Vcell;
+          // Mass distributed accross neighbors : 2^(ndim-1) across a face, fewer across an edge or a corner
+          int nneighbors = ((offset[IX]==0)?2:1) * ((offset[IY]==0)?2:1) * ((ndim==3 && offset[IZ]==0)?2:1);
+          real_t volume_fraction_smaller = volume_fraction/nneighbors;
+          real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ); // Volume 2^ndim times smaller
+          real_t rho_contrib = (part_mass * volume_fraction_smaller) / Vcell_smaller;
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 3c89bd0..d80ceb4 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -98,7 +98,8 @@ public:
         }
         else 
         {
-          int nneighbors = 2*(ndim-1);
+          // 2^(ndim-1) neighbors across a face, fewer across an edge or a corner
+          int nneighbors = ((offset[IX]==0)?2:1) * ((offset[IY]==0)?2:1) * ((ndim==3 && offset[IZ]==0)?2:1);
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
-- 
2.43.0


From 557bf528441221a2076794d5d577068aad6bd734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 15/43] fix: particle density in 2D divided by a volume that
 depends on the level

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 2 +-
 core/src/particles/ParticleUpdate_NGP_density.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 413434e..9ac455f 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -62,7 +62,7 @@ public:
       
       pos_t cell_size = cells.getCellSize( iCell );
       pos_t cell_pos = cells.getCellCenter( iCell );
-      real_t Vcell = cell_size[IX]*cell_size[IY]*cell_size[IZ];
+      real_t Vcell = cell_size[IX]*cell_size[IY]*((ndim==3)?cell_size[IZ]:1);
 
       pos_t p = { // Local position relative to center [-0.5, 0.5]^3
         (part_pos[IX] - cell_pos[IX])/cell_size[IX], 
diff --git a/core/src/particles/ParticleUpdate_NGP_density.cpp b/core/src/particles/ParticleUpdate_NGP_density.cpp
index 1c0033f..ba91523 100644
--- a/core/src/particles/ParticleUpdate_NGP_density.cpp
+++ b/core/src/particles/ParticleUpdate_NGP_density.cpp
@@ -33,6 +33,7 @@ public:
     UserData::ParticleAccessor Pdata = U.getParticleAccessor( "particles", {{"mass", IMass}} );
 
     ForeachCell::CellMetaData cells = foreach_cell.getCellMetaData();
+    int ndim = foreach_cell.getDim();
 
     foreach_cell.foreach_cell( "ParticleUpdate_NGP_density::copy_density", Uin.getShape(),
       KOKKOS_LAMBDA( const ForeachCell::CellIndex& iCell )
@@ -45,7 +46,7 @@ public:
     {
       ForeachCell::CellIndex iCell = cells.getCellFromPos( {Ppos.pos(iPart, IX), Ppos.pos(iPart, IY), Ppos.pos(iPart, IZ)} );
       auto size = cells.getCellSize( iCell );
-      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*size[IZ]);
+      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*((ndim==3)?size[IZ]:1));
 
       Kokkos::atomic_add( &Uin.at( iCell, IRhoG ), rho_contrib ) ;
     });   
-- 
2.43.0


From 54d62226856338d4982faed626298bbb70758a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:05 +0000
Subject: [PATCH 16/43] fix: tracers leaving a periodic domain did not re-enter

---
 .../particles/ParticleUpdate_tracers_move.cpp | 28 ++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/core/src/particles/ParticleUpdate_tracers_move.cpp b/core/src/particles/ParticleUpdate_tracers_move.cpp
index b22192e..034b3b4 100644
--- a/core/src/particles/ParticleUpdate_tracers_move.cpp
+++ b/core/src/particles/ParticleUpdate_tracers_move.cpp
@@ -12,7 +12,18 @@ public:
           Timers& timers) 
   : foreach_cell(foreach_cell),
     foreach_particle(foreach_cell.get_amr_mesh(), configMap),
-    timers(timers)
+    timers(timers),
+    data{
+      .xmin = configMap.getValue<real_t>("mesh", "xmin", 0.0),
+      .xmax = configMap.getValue<real_t>("mesh", "xmax", 1.0),
+      .ymin = configMap.getValue<real_t>("mesh", "ymin", 0.0),
+      .ymax = configMap.getValue<real_t>("mesh", "ymax", 1.0),
+      .zmin = configMap.getValue<real_t>("mesh", "zmin", 0.0),
+      .zmax = configMap.getValue<real_t>("mesh", "zmax", 1.0),
+      .periodic_x = foreach_cell.get_amr_mesh().getPeriodic(0),
+      .periodic_y = foreach_cell.get_amr_mesh().getPeriodic(2),
+      .periodic_z = foreach_cell.get_amr_mesh().getPeriodic(4)
+    }
   {}
 
   ~ParticleUpdate_tracers_move() {}
@@ -32,6 +43,8 @@ public:
 
     ForeachCell::CellMetaData cells = foreach_cell.getCellMetaData();
 
+    const Data& d = this->data;
+
     foreach_particle.foreach_particle( "tracers_update_position", P,
       KOKKOS_LAMBDA( const ForeachParticle::ParticleIndex& iPart )
     {
@@ -41,6 +54,14 @@ public:
       P.pos(iPart, IX) += dt * Uin.at( iCell, IVX )/rho;
       P.pos(iPart, IY) += dt * Uin.at( iCell, IVY )/rho;
       P.pos(iPart, IZ) += dt * Uin.at( iCell, IVZ )/rho;
+
+      // Compute periodic position
+      if( d.periodic_x )
+        P.pos(iPart, IX) = fmod( (P.pos(iPart, IX) - d.xmin) + (d.xmax-d.xmin) , d.xmax-d.xmin) + d.xmin;
+      if( d.periodic_y )
+        P.pos(iPart, IY) = fmod( (P.pos(iPart, IY) - d.ymin) + (d.ymax-d.ymin) , d.ymax-d.ymin) + d.ymin;
+      if( d.periodic_z )
+        P.pos(iPart, IZ) = fmod( (P.pos(iPart, IZ) - d.zmin) + (d.zmax-d.zmin) , d.zmax-d.zmin) + d.zmin;
     });   
 
     timers.get("ParticleUpdate_tracers_move").stop();
@@ -50,6 +71,11 @@ private:
   ForeachCell& foreach_cell;
   ForeachParticle foreach_particle;
   Timers& timers;  
+public: // Needed for nvcc
+  struct Data {
+    real_t xmin,xmax,ymin,ymax,zmin,zmax;
+    bool periodic_x,periodic_y,periodic_z;
+  } data;
 };
 
 } // namespace dyablo
-- 
2.43.0


From 0e3a86e1e953dc9b7c88def6350ff0d7e2c49fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:38 +0000
Subject: [PATCH 17/43] fix: cloud-in-cell accessed neighbours along z in 2D

---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 13 ++++++++-----
 core/src/particles/ParticleUpdate_CIC_move.cpp    | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 9ac455f..4efb3bd 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -80,7 +80,7 @@ public:
         ForeachCell::CellIndex iCell_neighbor = iCell.getNeighbor_ghost(offset, Uin);
         real_t cx = (offset[IX]==0)?v_in[IX]:v_out[IX];
         real_t cy = (offset[IY]==0)?v_in[IY]:v_out[IY];
-        real_t cz = (offset[IZ]==0)?v_in[IZ]:v_out[IZ];
+        real_t cz = (ndim==2)?1:(offset[IZ]==0)?v_in[IZ]:v_out[IZ];
         real_t volume_fraction = cx*cy*cz;
 
         assert( abs( iCell_neighbor.level_diff() ) <= 1 );
@@ -115,10 +115,13 @@ public:
       apply_rho_contrib( {part_offset[IX],0              ,0              });
       apply_rho_contrib( {0              ,part_offset[IY],0              });
       apply_rho_contrib( {part_offset[IX],part_offset[IY],0              });
-      apply_rho_contrib( {0              ,0              ,part_offset[IZ]});
-      apply_rho_contrib( {part_offset[IX],0              ,part_offset[IZ]});
-      apply_rho_contrib( {0              ,part_offset[IY],part_offset[IZ]});
-      apply_rho_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      if( ndim == 3 )
+      {
+        apply_rho_contrib( {0              ,0              ,part_offset[IZ]});
+        apply_rho_contrib( {part_offset[IX],0              ,part_offset[IZ]});
+        apply_rho_contrib( {0              ,part_offset[IY],part_offset[IZ]});
+        apply_rho_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      }
 
     });
 
diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index d80ceb4..8ff774a 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -85,7 +85,7 @@ public:
         ForeachCell::CellIndex iCell_neighbor = iCell.getNeighbor_ghost(offset, Uin);
         real_t cx = (offset[IX]==0)?v_in[IX]:v_out[IX];
         real_t cy = (offset[IY]==0)?v_in[IY]:v_out[IY];
-        real_t cz = (offset[IZ]==0)?v_in[IZ]:v_out[IZ];
+        real_t cz = (ndim==2)?1:(offset[IZ]==0)?v_in[IZ]:v_out[IZ];
         real_t volume_fraction = cx*cy*cz;
 
         assert( abs( iCell_neighbor.level_diff() ) <= 1 );
@@ -114,10 +114,13 @@ public:
       apply_g_contrib( {part_offset[IX],0              ,0              });
       apply_g_contrib( {0              ,part_offset[IY],0              });
       apply_g_contrib( {part_offset[IX],part_offset[IY],0              });
-      apply_g_contrib( {0              ,0              ,part_offset[IZ]});
-      apply_g_contrib( {part_offset[IX],0              ,part_offset[IZ]});
-      apply_g_contrib( {0              ,part_offset[IY],part_offset[IZ]});
-      apply_g_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      if( ndim == 3 )
+      {
+        apply_g_contrib( {0              ,0              ,part_offset[IZ]});
+        apply_g_contrib( {part_offset[IX],0              ,part_offset[IZ]});
+        apply_g_contrib( {0              ,part_offset[IY],part_offset[IZ]});
+        apply_g_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      }
 
       Pdata.at( iPart, IVX ) += dt * gx;
       Pdata.at( iPart, IVY ) += dt * gy;
-- 
2.43.0


From d38b2718faaa7eead55287ac9e9221924cd327d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:16 +0000
Subject: [PATCH 18/43] fix: gravity solver never stopped when the density is
 uniform

---
 core/src/gravity/GravitySolver_cg.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/core/src/gravity/GravitySolver_cg.cpp b/core/src/gravity/GravitySolver_cg.cpp
index ac0bddd..db44e36 100644
--- a/core/src/gravity/GravitySolver_cg.cpp
+++ b/core/src/gravity/GravitySolver_cg.cpp
@@ -275,18 +275,24 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
   real_t four_Pi_G = pdata->four_Pi_G;  
 
   // Compute initial residual
-  real_t R=0, B=0, r_dot_z=0;
+  real_t R=0, B=0, Brho=0, r_dot_z=0;
   foreach_cell.reduce_cell( "Gravity_cg::init_gc", CGdata, 
-    KOKKOS_LAMBDA(const CellIndex& iCell_CGdata, real_t& update_r, real_t& update_b, real_t& update_r_dot_z )
+    KOKKOS_LAMBDA(const CellIndex& iCell_CGdata, real_t& update_r, real_t& update_b, real_t& update_brho, real_t& update_r_dot_z )
   {
     // Get gravity potential from last iteration as approximate solution
     CGdata.at(iCell_CGdata, CG_PHI) = Uin.at(iCell_CGdata, IGPHI);
     auto cell_size = cells.getCellSize(iCell_CGdata);
-    real_t bi;
+    real_t bi, bi_mean;
     if( cosmo_run )
+    {
       bi = b_cosmo(Uin, iCell_CGdata, rho_mean, aexp, cell_size);
+      bi_mean = 6.0*aexp*cell_size[IX]*cell_size[IY]*cell_size[IZ];
+    }
     else
+    {
       bi = b(Uin, iCell_CGdata, rho_mean, four_Pi_G, cell_size);
+      bi_mean = four_Pi_G*rho_mean*cell_size[IX]*cell_size[IY]*cell_size[IZ];
+    }
 
     real_t r = bi - matprod(Uin, iCell_CGdata, IGPHI, cell_size[IX], cell_size[IY], cell_size[IZ], boundarycondition);
     CGdata.at(iCell_CGdata, CG_IR) = r; // r = b-A*x0
@@ -295,17 +301,21 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
     CGdata.at(iCell_CGdata, CG_IP) = z; // p <- r
     update_r += r*r ;
     update_b += bi*bi ;
+    update_brho += bi_mean*bi_mean ;
     update_r_dot_z += r*z;
-  }, R, B, r_dot_z );  
+  }, R, B, Brho, r_dot_z );  
   R = MPI_Allreduce_scalar(R);
   B = MPI_Allreduce_scalar(B);
+  Brho = MPI_Allreduce_scalar(Brho);
   r_dot_z = MPI_Allreduce_scalar(r_dot_z);
   
   if(pdata->print_cg_iter)
     std::cout << "GC : " << R << "...";
   // Conjugate gradient iteration
   int it=0;
-  while( R/B > eps*eps )
+  // When density is uniform b is only made of rounding errors : stop when residual is as small as rounding errors on A*x0 and rho
+  const real_t R_target = FMAX( eps*eps*B, 1e-24*FMAX(R, Brho) );
+  while( R > R_target )
   {
     it++;
     // Communicate ghosts for CG_IP
-- 
2.43.0


From 0c6b1feb7a59f42c7b2a43dba46d83a5a0804131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:50 +0000
Subject: [PATCH 19/43] fix: second_derivative_error criterion never marked a
 block for coarsening

---
 .../refine_condition/RefineCondition_second_derivative_error.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
index 446e2b4..e37f1b8 100644
--- a/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
+++ b/core/src/refine_condition/RefineCondition_second_derivative_error.cpp
@@ -117,6 +117,7 @@ public:
 
     uint32_t nbOcts = foreach_cell.get_amr_mesh().getNumOctants();
     Kokkos::View<int*> oct_marker_max("Oct_marker_max", nbOcts);
+    Kokkos::deep_copy( oct_marker_max, (int)RefineCondition::COARSEN );
 
     const UserData::FieldAccessor Uin = Uin_.getAccessor( ConsState::getFieldsInfo() );
 
-- 
2.43.0


From d30232ec021aa58a6bd46d4bd4165b05866e81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:37 +0000
Subject: [PATCH 20/43] fix: viscous fluxes in 2D were multiplied by the size
 of the cells along z

---
 core/src/parabolic/ParabolicTerm_viscosity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/parabolic/ParabolicTerm_viscosity.h b/core/src/parabolic/ParabolicTerm_viscosity.h
index 76bec7f..22f7968 100644
--- a/core/src/parabolic/ParabolicTerm_viscosity.h
+++ b/core/src/parabolic/ParabolicTerm_viscosity.h
@@ -136,7 +136,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IY] * size[IZ];
+        real_t area = size[IY] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xx;
         vf.rho_v += sign * area * tau_xy;
         vf.rho_w += sign * area * tau_xz;
@@ -176,7 +176,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IX] * size[IZ];
+        real_t area = size[IX] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xy;
         vf.rho_v += sign * area * tau_yy;
         vf.rho_w += sign * area * tau_yz;
-- 
2.43.0


From 3866928a827630fc2a47fea83aa411041b77b9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:11 +0000
Subject: [PATCH 21/43] fix: conductivity of a larger or periodic neighbour was
 taken at the wrong position

---
 core/src/parabolic/ParabolicTerm_thermal_conduction.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/parabolic/ParabolicTerm_thermal_conduction.h b/core/src/parabolic/ParabolicTerm_thermal_conduction.h
index 5726590..040158e 100644
--- a/core/src/parabolic/ParabolicTerm_thermal_conduction.h
+++ b/core/src/parabolic/ParabolicTerm_thermal_conduction.h
@@ -172,7 +172,7 @@ public:
       // LEFT :
       // Only one neighbor
       if (ldiff_L >= 0) {
-        auto pos = cellmetadata.getCellCenter(iCell_Ugroup + offsetm);
+        auto pos = cellmetadata.getCellCenter(iiL.is_boundary() ? iCell_Ugroup + offsetm : iiL);
         auto kappa = 0.5 * (kappaC + compute_kappa<ndim>(pos));
 
         PrimHydroState qL; 
@@ -205,7 +205,7 @@ public:
       // RIGHT :
       // Only one neighbor
       if (ldiff_R >= 0) {
-        auto pos = cellmetadata.getCellCenter(iCell_Ugroup + offsetp);
+        auto pos = cellmetadata.getCellCenter(iiR.is_boundary() ? iCell_Ugroup + offsetp : iiR);
         auto kappa = 0.5 * (kappaC + compute_kappa<ndim>(pos));
 
         PrimHydroState qR;
-- 
2.43.0


From 89564e13ecbef512441e5b389b49a6bbc2524ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 22/43] fix: expansion table read outside its bounds at the
 start of the run

---
 core/src/Cosmo.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/Cosmo.h b/core/src/Cosmo.h
index b4e5389..36dfded 100644
--- a/core/src/Cosmo.h
+++ b/core/src/Cosmo.h
@@ -15,6 +15,7 @@ real_t lookup_interpolate( const std::vector<real_t>& lookup_x, const std::vecto
   {
     auto lower_bound_it = std::lower_bound( lookup_x.begin(), lookup_x.end(), x );
     int i = lower_bound_it - lookup_x.begin(); // First greater or equal
+    i = std::max( 1, std::min( i, (int)lookup_x.size()-1 ) ); // Stay inside the table at its first entry and past its last
 
     real_t x_interp = ( x - lookup_x[i-1] ) / ( lookup_x[i] - lookup_x[i-1] );
     return lookup_y[i-1] + x_interp * ( lookup_y[i] - lookup_y[i-1]  );
-- 
2.43.0


From 2670d4a56f5ce7d0e6db994421eabc2bfef12a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 23/43] fix: out of bounds read when the Romberg integration
 does not converge

---
 core/src/Cosmo.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/Cosmo.h b/core/src/Cosmo.h
index 36dfded..576fa71 100644
--- a/core/src/Cosmo.h
+++ b/core/src/Cosmo.h
@@ -63,7 +63,7 @@ real_t romberg(const Func& f, real_t a, real_t b, size_t max_steps, real_t acc)
     Rc = rt;
   }
 
-  std::cout << "WARNING : Romberg did not converge in " << max_steps << " iterations; Error = " << fabs(Rp[max_steps-1]-Rc[max_steps]) << std::endl;
+  std::cout << "WARNING : Romberg did not converge in " << max_steps << " iterations; Error = " << fabs(Rp[max_steps-1]-Rc[max_steps-2]) << std::endl;
   return Rp[max_steps-1]; // return our best guess
 }
   
-- 
2.43.0


From ebb793dc8a69bdc6f430d4f73df623b2185d9ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:55 +0000
Subject: [PATCH 24/43] fix: the cosmological clock ignored cosmology/omegam
 and omegav

---
 core/src/Cosmo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/Cosmo.h b/core/src/Cosmo.h
index 576fa71..fe7e758 100644
--- a/core/src/Cosmo.h
+++ b/core/src/Cosmo.h
@@ -91,8 +91,8 @@ private:
 public:
   CosmoManager(ConfigMap &configMap)
     : cosmo_run(configMap.getValue<bool>("cosmology", "active", false)),
-      omega_m(configMap.getValue<real_t>("cosmology",  "omega_m", 0.3)),
-      omega_v(configMap.getValue<real_t>("cosmology",  "omega_v", 0.7)),
+      omega_m(configMap.getValue<real_t>("cosmology", "omegam", configMap.getValue<real_t>("cosmology",  "omega_m", 0.3))),
+      omega_v(configMap.getValue<real_t>("cosmology", "omegav", configMap.getValue<real_t>("cosmology",  "omega_v", 0.7))),
       a_start(configMap.getValue<real_t>("cosmology",  "aStart",  1.0e-2)),
       a_end(configMap.getValue<real_t>("cosmology", "aEnd", 1.00)),
       da(configMap.getValue<real_t>("cosmology", "da", 1.02)),
-- 
2.43.0


From 434d473134202e81c70f109245a170f7d86fe7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 25/43] fix: a negative value for an unsigned parameter was
 silently replaced by a huge one

---
 core/src/utils/config/ConfigMap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/utils/config/ConfigMap.h b/core/src/utils/config/ConfigMap.h
index ee2e46f..d7bce99 100644
--- a/core/src/utils/config/ConfigMap.h
+++ b/core/src/utils/config/ConfigMap.h
@@ -80,6 +80,7 @@ struct convert_to_t
       value_stream >> res;
 
       DYABLO_ASSERT_HOST_RELEASE( !value_stream.fail(), "Parse error. typeid : " << typeid(T).name() << ", Input : `" << str << "` -> " << res );
+      DYABLO_ASSERT_HOST_RELEASE( !std::is_unsigned_v<T> || str.find('-') == std::string::npos, "Negative value for an unsigned parameter. typeid : " << typeid(T).name() << ", Input : `" << str << "` -> " << res );
       DYABLO_ASSERT_HOST_RELEASE( value_stream.eof(), "Trailing junk on parse. typeid : " << typeid(T).name() << ", Input : `" << str << "` -> " << res );
 
       return res;
-- 
2.43.0


From 6d0dc450dda00a1abfb6a64a57fd1cd6cb0ab6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:45 +0000
Subject: [PATCH 26/43] fix: parameter file lines longer than 200 characters
 were cut

---
 core/src/utils/config/inih/ini.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/utils/config/inih/ini.h b/core/src/utils/config/inih/ini.h
index d1a2ba8..ac3e03e 100644
--- a/core/src/utils/config/inih/ini.h
+++ b/core/src/utils/config/inih/ini.h
@@ -127,7 +127,7 @@ INI_API int ini_parse_string(const char* string, ini_handler handler, void* user
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE 10000
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
-- 
2.43.0


From b1ae3b510d0d70bfcfd9b3c06f831026ec364bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:14 +0000
Subject: [PATCH 27/43] fix: checkpoint of particle attributes failed when
 processes hold different numbers of particles

---
 core/src/io/IOManager_checkpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/io/IOManager_checkpoint.cpp b/core/src/io/IOManager_checkpoint.cpp
index 64131d3..f192c5d 100644
--- a/core/src/io/IOManager_checkpoint.cpp
+++ b/core/src/io/IOManager_checkpoint.cpp
@@ -69,7 +69,7 @@ public:
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/y", Kokkos::subview( pos, Kokkos::ALL(), (int)IY ) );
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/z", Kokkos::subview( pos, Kokkos::ALL(), (int)IZ ) );
         for( const std::string& attr : U.getEnabledParticleAttributes( particle_array ) )
-          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, U.getParticleAttribute(particle_array, attr).particle_data );
+          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, Kokkos::subview( U.getParticleAttribute(particle_array, attr).particle_data, Kokkos::ALL(), 0 ) );
       }
 
       // Select subview containing local octants
-- 
2.43.0


From 554b50a614d3632d481c72184c143594af21f209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 28/43] fix: simple_particles read and wrote outside its arrays
 when a list does not have npart values

---
 core/src/init/InitialConditions_simple_particles.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/init/InitialConditions_simple_particles.cpp b/core/src/init/InitialConditions_simple_particles.cpp
index fe92b2f..cd56794 100644
--- a/core/src/init/InitialConditions_simple_particles.cpp
+++ b/core/src/init/InitialConditions_simple_particles.cpp
@@ -30,7 +30,7 @@ public:
     auto parse_array = [&](const Kokkos::View<double*>& a, const std::string& var)
     {
       std::vector<double> values = configMap.getValue< std::vector<double> >("simple_particles", var, {});
-      int nb_values = std::max((int)values.size(),npart); // Select at most npart values from .ini
+      int nb_values = std::min((int)values.size(),npart); // Select at most npart values from .ini
 
       // Create unmanaged view to copy vector
       using UnmanagedHostView = Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryTraits<Kokkos::Unmanaged> >;
-- 
2.43.0


From 9586f1bb3645d9797872b425eb885e1bdf943ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:55 +0000
Subject: [PATCH 29/43] fix: blast/center_x, center_y and center_z were ignored

---
 core/src/init/InitialConditions_MHD_blast.cpp | 6 +++---
 core/src/init/InitialConditions_blast.cpp     | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/init/InitialConditions_MHD_blast.cpp b/core/src/init/InitialConditions_MHD_blast.cpp
index cd51f6b..7eb64b4 100644
--- a/core/src/init/InitialConditions_MHD_blast.cpp
+++ b/core/src/init/InitialConditions_MHD_blast.cpp
@@ -83,9 +83,9 @@ struct AnalyticalFormula_MHD_blast : public AnalyticalFormula_base{
         int qiy = (int)(y / qsy);
         int qiz = (int)(z / qsz);
         // Quadrant physical center
-        real_t qcx = (qix+0.5)*qsx;
-        real_t qcy = (qiy+0.5)*qsy;
-        real_t qcz = (qiz+0.5)*qsz;
+        real_t qcx = (qix+blast_center_x)*qsx;
+        real_t qcy = (qiy+blast_center_y)*qsy;
+        real_t qcz = (qiz+blast_center_z)*qsz;
 
         const real_t Bx = blast_B * cos(blast_B_angle);
         const real_t By = blast_B * sin(blast_B_angle);
diff --git a/core/src/init/InitialConditions_blast.cpp b/core/src/init/InitialConditions_blast.cpp
index 23d7a93..3f1eb22 100644
--- a/core/src/init/InitialConditions_blast.cpp
+++ b/core/src/init/InitialConditions_blast.cpp
@@ -113,9 +113,9 @@ struct AnalyticalFormula_blast : public AnalyticalFormula_base{
         int qiy = (int)(y / qsy);
         int qiz = (int)(z / qsz);
         // Quadrant physical center
-        real_t qcx = (qix+0.5)*qsx;
-        real_t qcy = (qiy+0.5)*qsy;
-        real_t qcz = (qiz+0.5)*qsz;
+        real_t qcx = (qix+blast_center_x)*qsx;
+        real_t qcy = (qiy+blast_center_y)*qsy;
+        real_t qcz = (qiz+blast_center_z)*qsz;
 
         real_t r2 = (x-qcx)*(x-qcx) + (y-qcy)*(y-qcy);
         if( this->ndim == 3 ) r2 += (z-qcz)*(z-qcz);
-- 
2.43.0


From 333e221ac5d237f896a80b35f44fe5ae4ce52709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:29 +0000
Subject: [PATCH 30/43] fix: header of grafic files with the other byte order
 was swapped as a whole

---
 core/src/init/InitialConditions_grafic_fields.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/core/src/init/InitialConditions_grafic_fields.cpp b/core/src/init/InitialConditions_grafic_fields.cpp
index 910fa7d..cc29a53 100644
--- a/core/src/init/InitialConditions_grafic_fields.cpp
+++ b/core/src/init/InitialConditions_grafic_fields.cpp
@@ -17,6 +17,12 @@ class InitialConditions_grafic_fields : public InitialConditions
     float om,ov,H0;
   };
 
+  // Every member of the header is 4 bytes long : read them one by one to swap each of them separately if needed
+  static void read_header( std::istream& grafic_file, grafic_header& header )
+  {
+    FortranBinaryReader::read_record( grafic_file, reinterpret_cast<int32_t*>(&header), sizeof(grafic_header)/sizeof(int32_t) );
+  }
+
 public:
   InitialConditions_grafic_fields(
         ConfigMap& configMap, 
@@ -43,7 +49,7 @@ public:
     std::string grafic_filename = this->graficDir + "/ic_deltab";
     std::ifstream grafic_file(grafic_filename , std::ios::in|std::ios::binary );
     DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
-    FortranBinaryReader::read_record( grafic_file, &header, 1 );
+    read_header( grafic_file, header );
 
     printHeader(header, graficDir);
 
@@ -114,7 +120,7 @@ public:
       std::string grafic_filename = this->graficDir + "/ic_deltab";
       std::ifstream grafic_file(grafic_filename , std::ios::in|std::ios::binary );
       DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
-      FortranBinaryReader::read_record( grafic_file, &header, 1 );
+      read_header( grafic_file, header );
     }
 
     int32_t nx = header.nx;
@@ -137,7 +143,7 @@ public:
         DYABLO_ASSERT_HOST_RELEASE(grafic_file, "Could not open grafic file : `" + grafic_filename + "`");
         // Read header from grafic file
         grafic_header header;
-        FortranBinaryReader::read_record( grafic_file, &header, 1 );
+        read_header( grafic_file, header );
         // Read array from grafic file
         auto grafic_field_host = Kokkos::create_mirror_view( grafic_field_device );
         for(uint32_t z=0; z<(uint32_t)nz; z++)
-- 
2.43.0


From b09bfdd8a229ddb1144c3eb69b5f1534841c0aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:53 +0000
Subject: [PATCH 31/43] fix: hydro updates read uninitialised gravity with
 well_balanced when gravity is not constant

The members gx, gy, gz were only set for a constant gravity, but the
well-balanced reconstruction always uses them.
---
 core/src/hydro/HydroUpdate_RK2.cpp     | 2 +-
 core/src/hydro/HydroUpdate_euler.cpp   | 2 +-
 core/src/hydro/HydroUpdate_hancock.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_RK2.cpp b/core/src/hydro/HydroUpdate_RK2.cpp
index 31d7c40..bbfeed4 100644
--- a/core/src/hydro/HydroUpdate_RK2.cpp
+++ b/core/src/hydro/HydroUpdate_RK2.cpp
@@ -273,7 +273,7 @@ private:
   BoundaryConditions bc_manager;
   
   GravityType gravity_type;
-  real_t gx, gy, gz;
+  real_t gx = 0, gy = 0, gz = 0;
   bool well_balanced;
 };
 
diff --git a/core/src/hydro/HydroUpdate_euler.cpp b/core/src/hydro/HydroUpdate_euler.cpp
index c54eee7..c0a9eca 100644
--- a/core/src/hydro/HydroUpdate_euler.cpp
+++ b/core/src/hydro/HydroUpdate_euler.cpp
@@ -237,7 +237,7 @@ private:
 
   BoundaryConditions bc_manager;
   GravityType gravity_type;
-  real_t gx, gy, gz;
+  real_t gx = 0, gy = 0, gz = 0;
   bool well_balanced;
 };
 
diff --git a/core/src/hydro/HydroUpdate_hancock.cpp b/core/src/hydro/HydroUpdate_hancock.cpp
index 89b31f6..11cd54b 100644
--- a/core/src/hydro/HydroUpdate_hancock.cpp
+++ b/core/src/hydro/HydroUpdate_hancock.cpp
@@ -472,7 +472,7 @@ private:
   BoundaryConditions bc_manager;
 
   GravityType gravity_type;
-  real_t gx, gy, gz;
+  real_t gx = 0, gy = 0, gz = 0;
 };
 
 } // namespace dyablo
-- 
2.43.0


From 28a9bae5ec3b0ef9d0b42a8752ecd648112de46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 32/43] fix: particles were not on the process owning their
 position after a restart

The restart reads an even share of the particles on each process, without
looking at the position of the particles: send them to the process owning
the octant they are in before the first step uses them.
---
 core/src/DyabloTimeLoop.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 3c6a3fd..67bb1c1 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -264,6 +264,8 @@ public:
             timers);
         initial_conditions->init( U );
       }     
+      // Initial conditions may leave particles out of the process owning their position (e.g. restart)
+      U.distributeAllParticles();
     } 
     timers.get("initial_conditions").stop();
 
-- 
2.43.0


From 80cdc42f21d29eada1955d32227c7444ce8fddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 33/43] fix: run() did one more step when the end of the
 simulation is already met

Restarting a finished simulation did a step of zero or negative length, or
went one iteration beyond nstepmax.
---
 core/src/DyabloTimeLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 67bb1c1..fd1339e 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -517,7 +517,7 @@ public:
     // NOTE : mpirun catches SIGINT and forwards SIGTERM to child process
     // NOTE : scancel sends SIGTERM by default, you can use 'scancel -s INT'
     signal( SIGINT, interrupt_handler );
-    bool finished = false;
+    bool finished = m_iteration_handler->stop_criterion( m_scalar_data );
     while( !finished )
     {
       step();      
-- 
2.43.0


From 59138f0230a06079a01f673966a9e18e15ce77eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:11 +0000
Subject: [PATCH 34/43] fix: aexp and z were late by one step in outputs,
 triggers and stop criterion

aexp and z were only updated after the outputs, so snapshots stored the
values of the previous step, aexp triggers and t_end_var=aexp were late by
one step, and a restarted run started its triggers from cosmology/astart.
---
 core/src/DyabloTimeLoop.h | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index fd1339e..4f168d9 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -281,13 +281,15 @@ public:
     if( cosmo_manager->cosmo_run )
     {
       t0_default = cosmo_manager->expansionToTime( cosmo_manager->a_start );
-      m_scalar_data.set("aexp", cosmo_manager->a_start);
     }
 
     this->m_scalar_data.set("iter", m_iter_start);
     {
       real_t t0 = configMap.getValue<real_t>("run", "tStart", t0_default);
       this->m_scalar_data.set("time", t0);
+      update_cosmo_scalar_data();
+      if( cosmo_manager->cosmo_run && t0 == t0_default )
+        m_scalar_data.set("aexp", cosmo_manager->a_start); // exact value, without rounding through time
     }
 
     this->m_loadbalance_coherent_levels = configMap.getValue<int>("amr", "loadbalance_coherent_levels", 3);
@@ -596,14 +598,6 @@ public:
       timers.get("checkpoint").stop();
     }
 
-    if( cosmo_manager->cosmo_run )
-    {
-      real_t time = m_scalar_data.get<real_t>("time");
-      real_t aexp = cosmo_manager->timeToExpansion(time);
-      m_scalar_data.set("aexp", aexp);
-      m_scalar_data.set("z", 1.0/(aexp)-1.0);
-    }
-
     // Compute new dt
     {
       timers.get("dt").start();
@@ -746,6 +740,7 @@ public:
      
 
     m_iteration_handler->next_iter(m_scalar_data);
+    update_cosmo_scalar_data();
     
     if (m_gravity_type & GRAVITY_FIELD)
     {
@@ -810,6 +805,18 @@ public:
   }
 
 private:
+  /// Expansion factor and redshift for current time (cosmological runs)
+  void update_cosmo_scalar_data()
+  {
+    if( cosmo_manager->cosmo_run )
+    {
+      real_t time = m_scalar_data.get<real_t>("time");
+      real_t aexp = cosmo_manager->timeToExpansion(time);
+      m_scalar_data.set("aexp", aexp);
+      m_scalar_data.set("z", 1.0/(aexp)-1.0);
+    }
+  }
+
   // Simulation parameters
   int m_nlog; //! Timestep log frequency  
   bool m_enable_output; //! Enable vizualization output and output at least at beginning and end of simulation
-- 
2.43.0


From e7c6e06d8b5141d5a614611530ede3886c00c380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 35/43] fix: integer division by zero when an output,
 checkpoint, AMR or load balancing frequency is 0

A frequency that is not positive disables the trigger, but the last trigger
was still computed from it.
---
 core/src/DyabloTimeLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 4f168d9..28f6d6b 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -47,7 +47,7 @@ public:
     : var(var),
       enabled( interval > 0 ),
       interval(interval),
-      last_trigger( std::floor(scalar_data.get<T>(var)/interval) * interval )
+      last_trigger( enabled ? std::floor(scalar_data.get<T>(var)/interval) * interval : 0 )
   {}
 
   bool trigger( const ScalarSimulationData& scalar_data )
-- 
2.43.0


From 7043f3395ac6234944023993426df989124742f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 36/43] fix: GravitySolver_constant always failed in the time
 loop

The ghosts of gx, gy and gz were exchanged although these fields only exist
when the gravity is a field.
---
 core/src/DyabloTimeLoop.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 28f6d6b..cbf3f59 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -686,9 +686,12 @@ public:
       gravity_solver->update_gravity_field(U, m_scalar_data);
 
       // Maybe put this only in CIC move since we don't need it for NGP
-      timers.get("MPI ghosts").start();
-      communicate_ghosts( {"gx", "gy", "gz"} );
-      timers.get("MPI ghosts").stop();
+      if( m_gravity_type & GRAVITY_FIELD )
+      {
+        timers.get("MPI ghosts").start();
+        communicate_ghosts( {"gx", "gy", "gz"} );
+        timers.get("MPI ghosts").stop();
+      }
 
       // Restore rho before projection (only if particle projection)
       if( particle_update_density )
-- 
2.43.0


From 389e1c51ef15eda3499925c1e9df28792d965b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 37/43] fix: time step was negative on a process without
 octants

The result of the maximum over no cell is the lowest real number: the run
stopped with 'invalid dt' in Compute_dt_hydro, and Compute_dt_parabolic
returned a tiny negative time step.
---
 core/src/compute_dt/Compute_dt_hydro.cpp     | 1 +
 core/src/compute_dt/Compute_dt_parabolic.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/core/src/compute_dt/Compute_dt_hydro.cpp b/core/src/compute_dt/Compute_dt_hydro.cpp
index e32b6c2..7474804 100644
--- a/core/src/compute_dt/Compute_dt_hydro.cpp
+++ b/core/src/compute_dt/Compute_dt_hydro.cpp
@@ -119,6 +119,7 @@ public:
 
     }, Kokkos::Max<real_t>(inv_dt) );
 
+    if( inv_dt < 0 ) inv_dt = 0; // No local cells : no constraint on dt
     real_t dt = cfl / inv_dt;
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
diff --git a/core/src/compute_dt/Compute_dt_parabolic.cpp b/core/src/compute_dt/Compute_dt_parabolic.cpp
index 9702db2..dbaa716 100644
--- a/core/src/compute_dt/Compute_dt_parabolic.cpp
+++ b/core/src/compute_dt/Compute_dt_parabolic.cpp
@@ -102,6 +102,7 @@ public:
       inv_dt_update = FMAX( inv_dt_update, max_dt_visc );
     }, Kokkos::Max<real_t>(inv_dt) );
 
+    if( inv_dt < 0 ) inv_dt = 0; // No local cells : no constraint on dt
     real_t dt = cfl / inv_dt;
     DYABLO_ASSERT_HOST_RELEASE(dt>0, "invalid dt = " << dt);
     return dt;
-- 
2.43.0


From a91b85dfd073d6140ffebfce1099e7bd28b21022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:06 +0000
Subject: [PATCH 38/43] fix: octant of level 0 was coarsened to level -1 in a
 periodic mesh with only one octant

In adapt() level+marker-1 was computed with unsigned levels: with a neighbor
at level 0 (the octant itself in a periodic mesh), it wrapped around and the
2:1 check always asked for marker -1.
---
 core/src/amr/AMRmesh_hashmap_new.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index 47b8255..5d73466 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -721,7 +721,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     // return true if marker was modified, false otherwise
     auto check_21_cell = KOKKOS_LAMBDA( oct_index_t iOct )
     {
-      level_t level_current = lmesh.getLevel({iOct, false});
+      int level_current = lmesh.getLevel({iOct, false}); // Signed because level+marker may be negative
       int marker_current = getMarker( {iOct, false} );
       int marker_old = marker_current;
 
@@ -744,7 +744,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         {
           auto ns = lmesh.findNeighbors({iOct, false},{(int8_t)(sx*x),(int8_t)(sy*y),(int8_t)(sz*z)});
           DYABLO_ASSERT_KOKKOS_DEBUG(ns.size()>0, "Siblings can't be outside domain");
-          level_t level_siblings = lmesh.getLevel( ns[0] );
+          int level_siblings = lmesh.getLevel( ns[0] );
           DYABLO_ASSERT_KOKKOS_DEBUG( level_siblings >= level_current, "Siblings cannot be coarser");
 
           int marker_siblings = getMarker( ns[0] );
@@ -764,7 +764,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         auto ns = lmesh.findNeighbors({iOct,false}, {nx,ny,nz});
         for(int n=0; n<ns.size(); n++)
         {
-          level_t level_neighbor = lmesh.getLevel(ns[n]);
+          int level_neighbor = lmesh.getLevel(ns[n]);
           int maker_neighbor = getMarker( ns[n] );
           // If current marker violates 2:1 (too coarse compared to neighbors)
           if( level_current+marker_current < level_neighbor+maker_neighbor-1 )
-- 
2.43.0


From 266bb71c2c4cd75ecffa5364b8a2a9441dfcaf01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 39/43] fix: legacy hydro update divided by zero on a process
 without octants

---
 core/src/hydro/HydroUpdate_legacy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/hydro/HydroUpdate_legacy.cpp b/core/src/hydro/HydroUpdate_legacy.cpp
index 1c2f529..55e98ee 100644
--- a/core/src/hydro/HydroUpdate_legacy.cpp
+++ b/core/src/hydro/HydroUpdate_legacy.cpp
@@ -57,6 +57,7 @@ void HydroUpdate_legacy::update( UserData& U_, ScalarSimulationData& scalar_data
       lmesh.getNumOctants(), 
       pdata->nbOctsPerGroup
     );
+  nbOctsPerGroup = std::max( nbOctsPerGroup, 1u ); // Local process may have no octant
   uint32_t bx = foreach_cell.blockSize()[IX]; 
   uint32_t by = foreach_cell.blockSize()[IY]; 
   uint32_t bz = foreach_cell.blockSize()[IZ];
-- 
2.43.0


From 591fdd50089647d95320409b90b3082ca47bca2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:08 +0000
Subject: [PATCH 40/43] fix: wrong neighbors and lost octants when the first
 process has no octant

The begining of the interval of empty processes was set to 0, which is also
the (valid) first morton index of the first process that has octants.
---
 core/src/amr/AMRmesh_hashmap_new.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index 5d73466..4ac2ef6 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -551,14 +551,14 @@ AMRmesh_hashmap_new::GhostMap_t AMRmesh_hashmap_new::loadBalance(level_t level)
         {
           if( storage.getNumOctants() != 0 )
             old_morton_interval_begin = compute_morton( storage, 0, level_max );
-          else
-            old_morton_interval_begin = 0;
+          else // Interval is empty : cannot use 0, which is the beginning of the first process that has octants
+            old_morton_interval_begin = std::numeric_limits<morton_t>::max();
           std::vector<morton_t> old_morton_intervals(mpi_size+1);
           // TODO maybe just send to mpi_rank-1 ?
           mpi_comm.MPI_Allgather( &old_morton_interval_begin, old_morton_intervals.data(), 1);
           old_morton_intervals[mpi_size] = std::numeric_limits<morton_t>::max();
-          for(int rank=mpi_size-1; rank>0; rank--)
-            if( old_morton_intervals[rank] == 0 )
+          for(int rank=mpi_size-1; rank>=0; rank--)
+            if( old_morton_intervals[rank] == std::numeric_limits<morton_t>::max() )
               old_morton_intervals[rank] = old_morton_intervals[rank+1];
           old_morton_interval_begin = old_morton_intervals[mpi_rank];
           old_morton_interval_end = old_morton_intervals[mpi_rank+1];
@@ -920,14 +920,14 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         Kokkos::deep_copy( morton_interval_begin_host, morton_interval_begin_device );
         morton_interval_begin = morton_interval_begin_host();
       }
-      else
-        morton_interval_begin = 0;
+      else // Interval is empty : cannot use 0, which is the beginning of the first process that has octants
+        morton_interval_begin = std::numeric_limits<morton_t>::max();
       
       // TODO maybe just send to mpi_rank-1 ?
       mpi_comm.MPI_Allgather( &morton_interval_begin, morton_intervals.data(), 1);
       morton_intervals[mpi_size] = std::numeric_limits<morton_t>::max();
-      for(int rank=mpi_size-1; rank>0; rank--)
-        if( morton_intervals[rank] == 0 )
+      for(int rank=mpi_size-1; rank>=0; rank--)
+        if( morton_intervals[rank] == std::numeric_limits<morton_t>::max() )
          morton_intervals[rank] = morton_intervals[rank+1];
     }
   
-- 
2.43.0


From 911753283d87af65fe5f4b784131fead9a30142c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:34 +0000
Subject: [PATCH 41/43] fix: outward pressure of well-balanced fluxes was
 accumulated from an uninitialised value

At interfaces with smaller neighbours the pressures of the sub-faces were added to
variables that had never been set.
---
 core/src/hydro/HydroUpdate_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/hydro/HydroUpdate_utils.h b/core/src/hydro/HydroUpdate_utils.h
index 625aba2..b11c7cb 100644
--- a/core/src/hydro/HydroUpdate_utils.h
+++ b/core/src/hydro/HydroUpdate_utils.h
@@ -475,7 +475,7 @@ void euler_update(const RiemannParams&     params,
   real_t dflux_RR  = df_factors[ldiff_R+1][0];
 
   // Output pressures, necessary for the well-balanced solver
-  real_t poutL, poutR;
+  real_t poutL = 0, poutR = 0;
   
   // == Left interface
   // 1- Same size or bigger
-- 
2.43.0


From f11c6ea508cd1699e283992cd73893718e8cc67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:02 +0000
Subject: [PATCH 42/43] fix: well-balanced fluxes were not conservative where
 the refinement level changes

compute_euler_flux extrapolated the pressure of both sides over half of the
size of the current cell, also when the neighbor is bigger or smaller, so the
two sides of an interface computed different fluxes and mass was not
conserved. Use the distances to the interface.
---
 core/src/hydro/HydroUpdate_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_utils.h b/core/src/hydro/HydroUpdate_utils.h
index b11c7cb..8314986 100644
--- a/core/src/hydro/HydroUpdate_utils.h
+++ b/core/src/hydro/HydroUpdate_utils.h
@@ -147,8 +147,8 @@ compute_euler_flux(const typename State::PrimState& sourceL,
     qL = sourceL;
     qR = sourceR;
 
-    qL.p += qL.rho * gval * size * 0.5;
-    qR.p -= qR.rho * gval * size * 0.5;
+    qL.p += qL.rho * gval * size * dL;
+    qR.p -= qR.rho * gval * size * dR;
   }
   else {
     const real_t smallr = params.smallr;
-- 
2.43.0


From 3c93b322e87c110ee70324382e2e10eb2fd4fbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:35 +0000
Subject: [PATCH 43/43] fix: legacy hydro update read the gravity field of the
 wrong cell

The 2D correction read gx and gy of a non-ghosted index in the ghosted group,
the 3D correction read the fields also when gravity is a constant scalar, and
the prediction ignored gravity_type=field.
---
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index f8f10eb..d055c60 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -534,7 +534,7 @@ public:
       if (ndim == 3)
         res[IZ] = params.gz;
     }
-    else if (params.gravity_type == GRAVITY_CST_FIELD) {
+    else if (params.gravity_type & GRAVITY_FIELD) {
       res[IX] = Ugroup(index, fm[IGX], iOct_local);
       res[IY] = Ugroup(index, fm[IGY], iOct_local);
       if (ndim == 3)
@@ -765,8 +765,8 @@ public:
     real_t gx, gy, gz;
     if (params.gravity_type & GRAVITY_FIELD)
     {
-      gx = Ugroup(index, fm[IGX], iOct_g);
-      gy = Ugroup(index, fm[IGY], iOct_g);
+      gx = Ugroup(index_g, fm[IGX], iOct_g);
+      gy = Ugroup(index_g, fm[IGY], iOct_g);
 
       if (ndim == 3)
         gz = Ugroup(index_g, fm[IGZ], iOct_g);
@@ -1829,9 +1829,10 @@ public:
 
     const auto& fm_state = fm_state_3D();
 
-    const real_t gx = Ugroup(index, fm[IGX], iOct_local);
-    const real_t gy = Ugroup(index, fm[IGY], iOct_local);
-    const real_t gz = Ugroup(index, fm[IGZ], iOct_local);
+    const GravityField g = get_gravity_field(index, iOct_local);
+    const real_t gx = g[IX];
+    const real_t gy = g[IY];
+    const real_t gz = g[IZ];
 
     real_t rhoOld = qOld[fm_state[ID]];
     real_t rhoNew = qNew[fm_state[ID]];
-- 
2.43.0

