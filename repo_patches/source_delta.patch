From c99e78663d2e48017a7eda83ec29dee6a3e23659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:58 +0000
Subject: [PATCH 01/34] fix: ranks without octants and non-cubic coarse grids
 in LightOctree_hashmap::getDomainFromPos

The first octant of an empty rank was read out of bounds, and the intervals
were computed with 2^level_max while the queried position uses cell_count.
---
 core/src/amr/LightOctree_hashmap.h | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/core/src/amr/LightOctree_hashmap.h b/core/src/amr/LightOctree_hashmap.h
index 79b987a..0196b87 100644
--- a/core/src/amr/LightOctree_hashmap.h
+++ b/core/src/amr/LightOctree_hashmap.h
@@ -47,22 +47,28 @@ public:
         private_init();
 
         // TODO use logical coords directly or even morton_intervals from AMRmesh
-        morton_t first_morton;
+        constexpr morton_t no_octant = morton_t(-1);
+        morton_t first_morton = no_octant;
+        if( pmesh->getNumOctants() > 0 )
         {
             int ndim = getNdim();
             auto pos = pmesh->getCoordinates((uint32_t)0);
             index_t<3> logical_coords;
-            uint32_t octant_count = std::pow(2, max_level );
-            real_t octant_size = 1.0/octant_count;
-            logical_coords[IX] = std::floor(pos[IX]/octant_size);
-            logical_coords[IY] = std::floor(pos[IY]/octant_size);
-            logical_coords[IZ] = (ndim-2)*std::floor(pos[IZ]/octant_size);
+            // Same logical coordinates as getDomainFromPos() : cell_count differs from 2^level_max when coarse grid is not a full cube
+            logical_coords[IX] = std::round(pos[IX]*this->storage.cell_count(IX, max_level));
+            logical_coords[IY] = std::round(pos[IY]*this->storage.cell_count(IY, max_level));
+            logical_coords[IZ] = (ndim-2)*std::round(pos[IZ]*this->storage.cell_count(IZ, max_level));
 
             first_morton = compute_morton_key( logical_coords );
         }
         auto morton_intervals_host = Kokkos::create_mirror_view( morton_intervals );
         pmesh->getMpiComm().MPI_Allgather( &first_morton, morton_intervals_host.data(), 1 );
-        morton_intervals_host(morton_intervals_host.size()-1) = uint64_t(-1);
+        int mpi_size = pmesh->getMpiComm().MPI_Comm_size();
+        morton_intervals_host(mpi_size) = uint64_t(-1);
+        // Ranks without octants get an empty interval
+        for(int rank=mpi_size-1; rank>=0; rank--)
+            if( morton_intervals_host(rank) == no_octant )
+                morton_intervals_host(rank) = morton_intervals_host(rank+1);
         Kokkos::deep_copy(morton_intervals, morton_intervals_host);
 
     }
-- 
2.43.0


From 202dd3fc9e4d3cbec21dfecec25a9ac1d8259866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:06 +0000
Subject: [PATCH 02/34] fix: AMRmesh_hashmap_new::adapt: use the new octant
 count to detect empty ranks

A rank whose octants were all coarsened into parents owned by other ranks
read the first octant of an empty storage.
---
 core/src/amr/AMRmesh_hashmap_new.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index d4fac06..19466e8 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -909,7 +909,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     std::vector<morton_t> morton_intervals(mpi_size+1);
     {
       morton_t morton_interval_begin;
-      if( storage.getNumOctants() != 0 )
+      if( new_nbOcts != 0 )
       {
         Kokkos::View<morton_t> morton_interval_begin_device("morton_interval_begin");
         Kokkos::parallel_for( "adapt:compute_morton", 1, KOKKOS_LAMBDA(int)
-- 
2.43.0


From 18019e431476e9cba98e5b78c525173cf13e2bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:06 +0000
Subject: [PATCH 03/34] fix: UserData_fields::exchange_loadbalance: move every
 field from its own storage index

Fields were exchanged by position 0..nb_fields in the old allocation while the
new allocation is compacted and sorted by name: after a field was moved or
deleted, load balancing exchanged values between fields or lost them.
---
 core/src/UserData_fields.h | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/core/src/UserData_fields.h b/core/src/UserData_fields.h
index f03dbc4..8054cae 100644
--- a/core/src/UserData_fields.h
+++ b/core/src/UserData_fields.h
@@ -280,16 +280,22 @@ inline void UserData_fields::exchange_loadbalance( const ViewCommunicator& ghost
     {  
         UserData_fields::FieldAccessor fields_old = this->backup_and_realloc();
         int nb_fields = this->nbFields();
-        auto old_fields_View = Kokkos::subview( fields_old.fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        auto new_fields_View = Kokkos::subview(this->fields.U, 
-                                                Kokkos::ALL(),
-                                                std::make_pair(0, nb_fields),
-                                                Kokkos::ALL()  );
-        
-        ghost_comm.exchange_ghosts<2>(old_fields_View, new_fields_View );
+        // backup_and_realloc() compacts and reorders fields : field #i in the new layout
+        // is stored at index fields_old.fm_active[i] in the old one
+        for( int i=0; i<nb_fields; i++ )
+        {
+            int i_old = fields_old.fm_active[i];
+            auto old_field_View = Kokkos::subview( fields_old.fields.U, 
+                                                    Kokkos::ALL(),
+                                                    std::make_pair(i_old, i_old+1),
+                                                    Kokkos::ALL()  );
+            auto new_field_View = Kokkos::subview(this->fields.U, 
+                                                    Kokkos::ALL(),
+                                                    std::make_pair(i, i+1),
+                                                    Kokkos::ALL()  );
+
+            ghost_comm.exchange_ghosts<2>(old_field_View, new_field_View );
+        }
     }// This block is important to deallocate fields_old before extend_fields()
 
     this->extend_fields();
-- 
2.43.0


From 1aba65be2ee4ce570b520717af4221ab0306e303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:59 +0000
Subject: [PATCH 04/34] fix: AMRmesh_hashmap_new: do not mistake the rank
 owning the first octant for an empty rank

When rank 0 has no octants, the next rank starts at morton 0, which was the
marker for empty ranks: neighbors were then looked for on the wrong rank and
load balancing searched the empty storage of rank 0.
---
 core/src/amr/AMRmesh_hashmap_new.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index 19466e8..6026590 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -552,13 +552,13 @@ AMRmesh_hashmap_new::GhostMap_t AMRmesh_hashmap_new::loadBalance(level_t level)
           if( storage.getNumOctants() != 0 )
             old_morton_interval_begin = compute_morton( storage, 0, level_max );
           else
-            old_morton_interval_begin = 0;
+            old_morton_interval_begin = std::numeric_limits<morton_t>::max(); // Rank without octants
           std::vector<morton_t> old_morton_intervals(mpi_size+1);
           // TODO maybe just send to mpi_rank-1 ?
           mpi_comm.MPI_Allgather( &old_morton_interval_begin, old_morton_intervals.data(), 1);
           old_morton_intervals[mpi_size] = std::numeric_limits<morton_t>::max();
-          for(int rank=mpi_size-1; rank>0; rank--)
-            if( old_morton_intervals[rank] == 0 )
+          for(int rank=mpi_size-1; rank>=0; rank--)
+            if( old_morton_intervals[rank] == std::numeric_limits<morton_t>::max() )
               old_morton_intervals[rank] = old_morton_intervals[rank+1];
           old_morton_interval_begin = old_morton_intervals[mpi_rank];
           old_morton_interval_end = old_morton_intervals[mpi_rank+1];
@@ -921,13 +921,13 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         morton_interval_begin = morton_interval_begin_host();
       }
       else
-        morton_interval_begin = 0;
+        morton_interval_begin = std::numeric_limits<morton_t>::max(); // Rank without octants
       
       // TODO maybe just send to mpi_rank-1 ?
       mpi_comm.MPI_Allgather( &morton_interval_begin, morton_intervals.data(), 1);
       morton_intervals[mpi_size] = std::numeric_limits<morton_t>::max();
-      for(int rank=mpi_size-1; rank>0; rank--)
-        if( morton_intervals[rank] == 0 )
+      for(int rank=mpi_size-1; rank>=0; rank--)
+        if( morton_intervals[rank] == std::numeric_limits<morton_t>::max() )
          morton_intervals[rank] = morton_intervals[rank+1];
     }
   
-- 
2.43.0


From b2a60601a749563257c61c14e9ce604df0e844a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:04 +0000
Subject: [PATCH 05/34] fix: AMRmesh_hashmap_new::adapt: compare octant levels
 as signed integers

level_t is unsigned: when all octants of level 1 were coarsened to level 0 the
2:1 check wrapped around, set the markers to -2 and every octant was removed.
---
 core/src/amr/AMRmesh_hashmap_new.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/src/amr/AMRmesh_hashmap_new.cpp b/core/src/amr/AMRmesh_hashmap_new.cpp
index 6026590..6da37fc 100644
--- a/core/src/amr/AMRmesh_hashmap_new.cpp
+++ b/core/src/amr/AMRmesh_hashmap_new.cpp
@@ -721,7 +721,8 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
     // return true if marker was modified, false otherwise
     auto check_21_cell = KOKKOS_LAMBDA( oct_index_t iOct )
     {
-      level_t level_current = lmesh.getLevel({iOct, false});
+      // levels are signed here : unsigned comparisons would wrap when a neighbor is coarsened to level 0
+      int level_current = lmesh.getLevel({iOct, false});
       int marker_current = getMarker( {iOct, false} );
       int marker_old = marker_current;
 
@@ -744,7 +745,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         {
           auto ns = lmesh.findNeighbors({iOct, false},{(int8_t)(sx*x),(int8_t)(sy*y),(int8_t)(sz*z)});
           DYABLO_ASSERT_KOKKOS_DEBUG(ns.size()>0, "Siblings can't be outside domain");
-          level_t level_siblings = lmesh.getLevel( ns[0] );
+          int level_siblings = lmesh.getLevel( ns[0] );
           DYABLO_ASSERT_KOKKOS_DEBUG( level_siblings >= level_current, "Siblings cannot be coarser");
 
           int marker_siblings = getMarker( ns[0] );
@@ -764,7 +765,7 @@ void AMRmesh_hashmap_new::adapt(bool dummy)
         auto ns = lmesh.findNeighbors({iOct,false}, {nx,ny,nz});
         for(int n=0; n<ns.size(); n++)
         {
-          level_t level_neighbor = lmesh.getLevel(ns[n]);
+          int level_neighbor = lmesh.getLevel(ns[n]);
           int maker_neighbor = getMarker( ns[n] );
           // If current marker violates 2:1 (too coarse compared to neighbors)
           if( level_current+marker_current < level_neighbor+maker_neighbor-1 )
-- 
2.43.0


From 75503999e462e7e6986725a85ab5a98d10a0782d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:13 +0000
Subject: [PATCH 06/34] fix: MapUserData_mean: remap of octants whose siblings
 were on different ranks

The ghosts of the old data were exchanged with a communicator built for the
new mesh, then remap_aux() called itself for ever because the condition that
triggered the exchange is still true after it.
---
 core/src/amr/MapUserData_mean.cpp            | 17 ++++++++++-------
 core/src/mpi/GhostCommunicator_full_blocks.h |  5 +++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/core/src/amr/MapUserData_mean.cpp b/core/src/amr/MapUserData_mean.cpp
index 03b1530..865c297 100644
--- a/core/src/amr/MapUserData_mean.cpp
+++ b/core/src/amr/MapUserData_mean.cpp
@@ -1,3 +1,5 @@
+#include <memory>
+
 #include "amr/MapUserData_base.h"
 
 #include "amr/CellIndexRemapper.h"
@@ -22,7 +24,10 @@ public:
 
   void save_old_mesh() override
   {
-    this->lmesh_old = this->foreach_cell.get_amr_mesh().getLightOctree();
+    AMRmesh& mesh = this->foreach_cell.get_amr_mesh();
+    this->lmesh_old = mesh.getLightOctree();
+    // Ghosts of the old mesh may be needed in remap(), when the mesh has already changed
+    this->ghost_comm_old = std::make_unique<GhostCommunicator_full_blocks>( ViewCommunicator::from_mesh(mesh) );
   }
 
   void remap( UserData& user_data ) override
@@ -84,9 +89,6 @@ public:
               }
         }
       }, ghost_coarsen_count);
-      if( ghost_coarsen_count > 0 )
-        std::cout << "Warning : detected ghost subcells in coarsened octant during remap - this is so unlikely that it was never tested" << std::endl;
-
       return ghost_coarsen_count;
     };
 
@@ -101,15 +103,16 @@ public:
       // TODO : find a test-case that uses that
       // TODO : communicate only needed octants
 
-      GhostCommunicator_full_blocks ghost_comm(foreach_cell.get_amr_mesh(), Uin.getShape(), -1 );
-      ghost_comm.exchange_ghosts( Uin );
-      remap_aux(Uin, Uout);
+      // NOTE : Uin is still distributed according to the old mesh
+      ghost_comm_old->exchange_ghosts( Uin );
+      remap();
     }
   }
 
 private:
   ForeachCell& foreach_cell;
   LightOctree lmesh_old;
+  std::unique_ptr<GhostCommunicator_full_blocks> ghost_comm_old;
 };
 
 } // namespace dyablo;
diff --git a/core/src/mpi/GhostCommunicator_full_blocks.h b/core/src/mpi/GhostCommunicator_full_blocks.h
index f02125c..1cb7c20 100644
--- a/core/src/mpi/GhostCommunicator_full_blocks.h
+++ b/core/src/mpi/GhostCommunicator_full_blocks.h
@@ -14,6 +14,11 @@ public:
     : ViewCommunicator( ViewCommunicator::from_mesh(amr_mesh, mpi_comm) )
     {}
 
+    /// Use an existing communicator (e.g. one that was created before the mesh was modified)
+    explicit GhostCommunicator_full_blocks( const ViewCommunicator& view_communicator )
+    : ViewCommunicator( view_communicator )
+    {}
+
     static std::string name()
     {
       return "GhostCommunicator_full_blocks";
-- 
2.43.0


From 84e9f20d09d991b889e8a6a083edb102c3a93733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:39 +0000
Subject: [PATCH 07/34] fix: particle density: do not use the level-dependent
 dz as a cell thickness in 2D

The octants of a 2D mesh get thinner in z with their level, so the mass
deposited in 2D depended on the level of the cell. Use dx*dy as cell volume
in 2D, as the refine condition on mass, viscosity and conduction do.
---
 core/src/particles/ParticleUpdate_CIC_density.cpp | 2 +-
 core/src/particles/ParticleUpdate_NGP_density.cpp | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 0fc978b..6c3eded 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -62,7 +62,7 @@ public:
       
       pos_t cell_size = cells.getCellSize( iCell );
       pos_t cell_pos = cells.getCellCenter( iCell );
-      real_t Vcell = cell_size[IX]*cell_size[IY]*cell_size[IZ];
+      real_t Vcell = cell_size[IX]*cell_size[IY]*(ndim == 3 ? cell_size[IZ] : 1.0);
 
       pos_t p = { // Local position relative to center [-0.5, 0.5]^3
         (part_pos[IX] - cell_pos[IX])/cell_size[IX], 
diff --git a/core/src/particles/ParticleUpdate_NGP_density.cpp b/core/src/particles/ParticleUpdate_NGP_density.cpp
index 1c0033f..678471e 100644
--- a/core/src/particles/ParticleUpdate_NGP_density.cpp
+++ b/core/src/particles/ParticleUpdate_NGP_density.cpp
@@ -28,6 +28,7 @@ public:
       IMass
     };
 
+    const int ndim = foreach_cell.getDim();
     auto Uin = U.getAccessor( {{"rho", IRho}, {"rho_g", IRhoG}} );
     const ForeachParticle::ParticleArray& Ppos = U.getParticleArray( "particles" );
     UserData::ParticleAccessor Pdata = U.getParticleAccessor( "particles", {{"mass", IMass}} );
@@ -45,7 +46,7 @@ public:
     {
       ForeachCell::CellIndex iCell = cells.getCellFromPos( {Ppos.pos(iPart, IX), Ppos.pos(iPart, IY), Ppos.pos(iPart, IZ)} );
       auto size = cells.getCellSize( iCell );
-      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*size[IZ]);
+      real_t rho_contrib = Pdata.at( iPart, IMass ) / (size[IX]*size[IY]*(ndim == 3 ? size[IZ] : 1.0));
 
       Kokkos::atomic_add( &Uin.at( iCell, IRhoG ), rho_contrib ) ;
     });   
-- 
2.43.0


From 079f9856b2614e19ef20d21339e4526c180f3ffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:57:47 +0000
Subject: [PATCH 08/34] fix: UserData_particles::new_ParticleAttribute: reuse
 the storage left by deleted attributes

---
 core/src/UserData_particles.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/UserData_particles.h b/core/src/UserData_particles.h
index 3995418..7a8507e 100644
--- a/core/src/UserData_particles.h
+++ b/core/src/UserData_particles.h
@@ -42,7 +42,7 @@ public:
             int nb_new_attributes = 1;
             int needed_attr_count = nbAttributes() + nb_new_attributes;
             this->max_particle_count = std::max( this->max_particle_count, needed_attr_count );
-            int allocated_attr_count = nbAttributes();
+            int allocated_attr_count = particles.nbfields();
             if( needed_attr_count > allocated_attr_count )
             {
                 ParticleData particles_new( particles, FieldManager(needed_attr_count) );
-- 
2.43.0


From 1814d20a724d65788950905a004d219c4c27a7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:46 +0000
Subject: [PATCH 09/34] fix: ParticleUpdate_CIC_density: conserve mass at the
 domain borders, next to finer edge/corner neighbors and in 2D

---
 .../particles/ParticleUpdate_CIC_density.cpp  | 24 ++++++++++++-------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_density.cpp b/core/src/particles/ParticleUpdate_CIC_density.cpp
index 6c3eded..dcd6c6d 100644
--- a/core/src/particles/ParticleUpdate_CIC_density.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_density.cpp
@@ -78,9 +78,12 @@ public:
       auto apply_rho_contrib = [&]( const ForeachCell::CellIndex::offset_t& offset )
       {
         ForeachCell::CellIndex iCell_neighbor = iCell.getNeighbor_ghost(offset, Uin);
+        // Mass cannot leave the domain : it stays in the cell containing the particle
+        if( iCell_neighbor.is_boundary() )
+          iCell_neighbor = iCell;
         real_t cx = (offset[IX]==0)?v_in[IX]:v_out[IX];
         real_t cy = (offset[IY]==0)?v_in[IY]:v_out[IY];
-        real_t cz = (offset[IZ]==0)?v_in[IZ]:v_out[IZ];
+        real_t cz = (ndim==2)?1:((offset[IZ]==0)?v_in[IZ]:v_out[IZ]);
         real_t volume_fraction = cx*cy*cz;
 
         assert( abs( iCell_neighbor.level_diff() ) <= 1 );
@@ -98,10 +101,12 @@ public:
         else 
         {
           // Smaller : write to all smaller neighbors
-          //real_t volume_fraction_smaller = volume_fraction/(2*(ndim-1)); // Mass distributed accross neighbors
-          //real_t Vcell_smaller = Vcell/( 2*2*(ndim-1) ) // Volume 2^ndim times smaller
+          // Number of smaller neighbors is 2^(ndim - number of non-zero offsets) : 2*(ndim-1) through a face, but less through edges and corners
+          int nb_offsets = (offset[IX]!=0) + (offset[IY]!=0) + (offset[IZ]!=0);
+          //real_t volume_fraction_smaller = volume_fraction/2^(ndim-nb_offsets); // Mass distributed accross neighbors
+          //real_t Vcell_smaller = Vcell/2^ndim // Volume 2^ndim times smaller
           //real_t rho_contrib_smaller = (part_mass * volume_fraction_smaller) / Vcell_smaller;
-          real_t rho_contrib = 2 * (part_mass * volume_fraction) / Vcell;
+          real_t rho_contrib = (1<<nb_offsets) * (part_mass * volume_fraction) / Vcell;
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
@@ -114,10 +119,13 @@ public:
       apply_rho_contrib( {part_offset[IX],0              ,0              });
       apply_rho_contrib( {0              ,part_offset[IY],0              });
       apply_rho_contrib( {part_offset[IX],part_offset[IY],0              });
-      apply_rho_contrib( {0              ,0              ,part_offset[IZ]});
-      apply_rho_contrib( {part_offset[IX],0              ,part_offset[IZ]});
-      apply_rho_contrib( {0              ,part_offset[IY],part_offset[IZ]});
-      apply_rho_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      if( ndim == 3 )
+      {
+        apply_rho_contrib( {0              ,0              ,part_offset[IZ]});
+        apply_rho_contrib( {part_offset[IX],0              ,part_offset[IZ]});
+        apply_rho_contrib( {0              ,part_offset[IY],part_offset[IZ]});
+        apply_rho_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      }
 
     });
 
-- 
2.43.0


From 07c8e8f1d6f1159402fab983b19887d7bb9c43dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:00:30 +0000
Subject: [PATCH 10/34] fix: CellIndex::getNeighbor_ghost: return the adjacent
 smaller neighbor for diagonal offsets

---
 core/src/foreach_cell/AMRBlockForeachCell_CellArray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
index e9b2e6c..40889fb 100644
--- a/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
+++ b/core/src/foreach_cell/AMRBlockForeachCell_CellArray.h
@@ -698,9 +698,9 @@ CellIndex CellIndex::getNeighbor_ghost( const offset_t& offset, const CellArray_
 
       // Compute cell position in neighbor meta-bloc of size {2*bx, 2*by, 2*bz}
       // Pick the smallest index {i_smaller, j_smaller, k_smaller} contiguous to current cell
-      uint32_t i_smaller = i*2 + (int)(i<0) - oct_offset[IX] * bx * 2; 
-      uint32_t j_smaller = j*2 + (int)(j<0) - oct_offset[IY] * by * 2;
-      uint32_t k_smaller = k*2 + (int)(k<0) - oct_offset[IZ] * bz * 2;
+      uint32_t i_smaller = i*2 + (int)(offset[IX]<0) - oct_offset[IX] * bx * 2; 
+      uint32_t j_smaller = j*2 + (int)(offset[IY]<0) - oct_offset[IY] * by * 2;
+      uint32_t k_smaller = k*2 + (int)(offset[IZ]<0) - oct_offset[IZ] * bz * 2;
 
       DYABLO_ASSERT_KOKKOS_DEBUG(i_smaller<2*bx, "internal error : i out of block bounds");
       DYABLO_ASSERT_KOKKOS_DEBUG(j_smaller<2*by, "internal error : j out of block bounds");
-- 
2.43.0


From e60ddc4e1969864c976646c2b16d5911ebd7d47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 11/34] fix: DyabloTimeLoop: exchange enough ghost cells for
 HydroUpdate_legacy

---
 core/src/DyabloTimeLoop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 3c6a3fd..b35e860 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -312,7 +312,8 @@ public:
       int hydro_ghost_count;      
       if( godunov_updater_id.find("oneneighbor") != std::string::npos )
         hydro_ghost_count = 2; // Could be 1 but other kernels may need 2
-      else if( godunov_updater_id.find("hancock") != std::string::npos )
+      else if( godunov_updater_id.find("hancock") != std::string::npos 
+            || godunov_updater_id.find("legacy") != std::string::npos ) // legacy is also a MUSCL-Hancock scheme
         hydro_ghost_count = 4;
       else
         hydro_ghost_count = 2;
-- 
2.43.0


From 27d22612fee1182b55c0bbfa1a57af229aef3c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:51 +0000
Subject: [PATCH 12/34] fix: Compute_dt: ranks without octants or particles do
 not limit the timestep

---
 core/src/compute_dt/Compute_dt_hydro.cpp             | 6 ++++++
 core/src/compute_dt/Compute_dt_legacy.cpp            | 7 ++++++-
 core/src/compute_dt/Compute_dt_parabolic.cpp         | 6 ++++++
 core/src/compute_dt/Compute_dt_particle_velocity.cpp | 6 ++++++
 4 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/core/src/compute_dt/Compute_dt_hydro.cpp b/core/src/compute_dt/Compute_dt_hydro.cpp
index e32b6c2..01926e8 100644
--- a/core/src/compute_dt/Compute_dt_hydro.cpp
+++ b/core/src/compute_dt/Compute_dt_hydro.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "Compute_dt_base.h"
 
 #include "utils_hydro.h"
@@ -68,6 +70,10 @@ public:
 
     UserData::FieldAccessor Uin = U.getAccessor( ConsState::getFieldsInfo() );
 
+    // A rank without octants doesn't limit the timestep
+    if( foreach_cell.get_amr_mesh().getNumOctants() == 0 )
+      return std::numeric_limits<real_t>::max();
+
     real_t inv_dt;
     foreach_cell.reduce_cell( "compute_dt", U.getShape(),
     KOKKOS_LAMBDA( const ForeachCell::CellIndex& iCell, real_t& inv_dt_update )
diff --git a/core/src/compute_dt/Compute_dt_legacy.cpp b/core/src/compute_dt/Compute_dt_legacy.cpp
index bd56d17..7538527 100644
--- a/core/src/compute_dt/Compute_dt_legacy.cpp
+++ b/core/src/compute_dt/Compute_dt_legacy.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "Compute_dt_base.h"
 #include "legacy/ComputeDtHydroFunctor.h"
 
@@ -30,7 +32,10 @@ public:
                                   params, U.get_id2index(),
                                   foreach_cell.blockSize(), U, inv_dt);
 
-    real_t dt_local = cfl / inv_dt;
+    // A rank without octants doesn't limit the timestep
+    real_t dt_local = std::numeric_limits<real_t>::max();
+    if( pmesh.getNumOctants() > 0 )
+      dt_local = cfl / inv_dt;
 
     DYABLO_ASSERT_HOST_RELEASE(dt_local>0, "invalid dt = " << dt_local);
 
diff --git a/core/src/compute_dt/Compute_dt_parabolic.cpp b/core/src/compute_dt/Compute_dt_parabolic.cpp
index 9702db2..eee9064 100644
--- a/core/src/compute_dt/Compute_dt_parabolic.cpp
+++ b/core/src/compute_dt/Compute_dt_parabolic.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "Compute_dt_base.h"
 
 #include "utils_hydro.h"
@@ -70,6 +72,10 @@ public:
     auto compute_for_tc = this->compute_dt_for_tc;
     auto compute_for_visc = this->compute_dt_for_visc;
 
+    // A rank without octants doesn't limit the timestep
+    if( foreach_cell.get_amr_mesh().getNumOctants() == 0 )
+      return std::numeric_limits<real_t>::max();
+
     real_t inv_dt;
     foreach_cell.reduce_cell( "compute_dt_parabolic", U.getShape(),
     KOKKOS_LAMBDA( const ForeachCell::CellIndex& iCell, real_t& inv_dt_update )
diff --git a/core/src/compute_dt/Compute_dt_particle_velocity.cpp b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
index a36a67a..b8839b0 100644
--- a/core/src/compute_dt/Compute_dt_particle_velocity.cpp
+++ b/core/src/compute_dt/Compute_dt_particle_velocity.cpp
@@ -1,3 +1,5 @@
+#include <limits>
+
 #include "Compute_dt_base.h"
 
 #include "utils_hydro.h"
@@ -52,6 +54,10 @@ public:
     constexpr real_t small_v = 1.0e-10;
     using pos_t = Kokkos::Array<real_t, 3>;
 
+    // A rank without particles doesn't limit the timestep
+    if( Ppos.getNumParticles() == 0 )
+      return std::numeric_limits<real_t>::max();
+
     real_t inv_dt;
     foreach_particle.reduce_particle( "compute_dt", Pdata.getShape(),
     KOKKOS_LAMBDA( const ForeachParticle::ParticleIndex &iPart, real_t& inv_dt_update )
-- 
2.43.0


From 7257bc657ae31e0d21b551d6f1c257597185f332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:22 +0000
Subject: [PATCH 13/34] fix: write particle attributes of a checkpoint as
 one-dimensional arrays

The attribute view has extents (particles, 1). Written as it is, the last
extent (1) was taken as the distributed one, so that the dataset had one row
per rank and a row length that differs between ranks: with more than one rank
the checkpoint was wrong, and the collective write did not complete.
---
 core/src/io/IOManager_checkpoint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/io/IOManager_checkpoint.cpp b/core/src/io/IOManager_checkpoint.cpp
index 64131d3..f192c5d 100644
--- a/core/src/io/IOManager_checkpoint.cpp
+++ b/core/src/io/IOManager_checkpoint.cpp
@@ -69,7 +69,7 @@ public:
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/y", Kokkos::subview( pos, Kokkos::ALL(), (int)IY ) );
         hdf5_file.collective_write( std::string("particles/")+particle_array+"/pos/z", Kokkos::subview( pos, Kokkos::ALL(), (int)IZ ) );
         for( const std::string& attr : U.getEnabledParticleAttributes( particle_array ) )
-          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, U.getParticleAttribute(particle_array, attr).particle_data );
+          hdf5_file.collective_write( std::string("particles/")+particle_array+"/attributes/"+attr, Kokkos::subview( U.getParticleAttribute(particle_array, attr).particle_data, Kokkos::ALL(), 0 ) );
       }
 
       // Select subview containing local octants
-- 
2.43.0


From 4f2ad66d6e2f7e9965c9017f65cd5e8faa80e334 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:03 +0000
Subject: [PATCH 14/34] fix: keep tracers inside periodic domains

Tracers that crossed the border of the domain kept a position outside of it
and were given to no cell (out of bounds access). Wrap the position, like the
other particle updates do.
---
 .../particles/ParticleUpdate_tracers_move.cpp | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/core/src/particles/ParticleUpdate_tracers_move.cpp b/core/src/particles/ParticleUpdate_tracers_move.cpp
index b22192e..39dbd1d 100644
--- a/core/src/particles/ParticleUpdate_tracers_move.cpp
+++ b/core/src/particles/ParticleUpdate_tracers_move.cpp
@@ -12,7 +12,15 @@ public:
           Timers& timers) 
   : foreach_cell(foreach_cell),
     foreach_particle(foreach_cell.get_amr_mesh(), configMap),
-    timers(timers)
+    timers(timers),
+    data{
+      .xmin = configMap.getValue<real_t>("mesh", "xmin", 0.0),
+      .xmax = configMap.getValue<real_t>("mesh", "xmax", 1.0),      
+      .ymin = configMap.getValue<real_t>("mesh", "ymin", 0.0),
+      .ymax = configMap.getValue<real_t>("mesh", "ymax", 1.0),
+      .zmin = configMap.getValue<real_t>("mesh", "zmin", 0.0),
+      .zmax = configMap.getValue<real_t>("mesh", "zmax", 1.0)
+    }
   {}
 
   ~ParticleUpdate_tracers_move() {}
@@ -32,6 +40,8 @@ public:
 
     ForeachCell::CellMetaData cells = foreach_cell.getCellMetaData();
 
+    const Data& d = this->data;
+
     foreach_particle.foreach_particle( "tracers_update_position", P,
       KOKKOS_LAMBDA( const ForeachParticle::ParticleIndex& iPart )
     {
@@ -41,6 +51,11 @@ public:
       P.pos(iPart, IX) += dt * Uin.at( iCell, IVX )/rho;
       P.pos(iPart, IY) += dt * Uin.at( iCell, IVY )/rho;
       P.pos(iPart, IZ) += dt * Uin.at( iCell, IVZ )/rho;
+
+      // Compute periodic position
+      P.pos(iPart, IX) = fmod( (P.pos(iPart, IX) - d.xmin) + (d.xmax-d.xmin) , d.xmax-d.xmin) + d.xmin;
+      P.pos(iPart, IY) = fmod( (P.pos(iPart, IY) - d.ymin) + (d.ymax-d.ymin) , d.ymax-d.ymin) + d.ymin;
+      P.pos(iPart, IZ) = fmod( (P.pos(iPart, IZ) - d.zmin) + (d.zmax-d.zmin) , d.zmax-d.zmin) + d.zmin;
     });   
 
     timers.get("ParticleUpdate_tracers_move").stop();
@@ -50,6 +65,10 @@ private:
   ForeachCell& foreach_cell;
   ForeachParticle foreach_particle;
   Timers& timers;  
+public: // Needed for nvcc
+  struct Data {
+    real_t xmin,xmax,ymin,ymax,zmin,zmax;
+  } data;
 };
 
 } // namespace dyablo
-- 
2.43.0


From b15dcf95bce97f15a717b312244b9301f76a0c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:52 +0000
Subject: [PATCH 15/34] fix: ParticleUpdate_CIC_move: weights next to smaller
 cells, 2D, walls

As in ParticleUpdate_CIC_density: the number of smaller neighbours through an
edge or a corner is not the one through a face; in 2D there is no neighbour
along z (out of bounds access); there is no field beyond a wall.
---
 .../src/particles/ParticleUpdate_CIC_move.cpp | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/src/particles/ParticleUpdate_CIC_move.cpp b/core/src/particles/ParticleUpdate_CIC_move.cpp
index 3c89bd0..a667c50 100644
--- a/core/src/particles/ParticleUpdate_CIC_move.cpp
+++ b/core/src/particles/ParticleUpdate_CIC_move.cpp
@@ -83,9 +83,12 @@ public:
       auto apply_g_contrib = [&]( const ForeachCell::CellIndex::offset_t& offset )
       {
         ForeachCell::CellIndex iCell_neighbor = iCell.getNeighbor_ghost(offset, Uin);
+        // There is no field outside of the domain : use the cell containing the particle
+        if( iCell_neighbor.is_boundary() )
+          iCell_neighbor = iCell;
         real_t cx = (offset[IX]==0)?v_in[IX]:v_out[IX];
         real_t cy = (offset[IY]==0)?v_in[IY]:v_out[IY];
-        real_t cz = (offset[IZ]==0)?v_in[IZ]:v_out[IZ];
+        real_t cz = (ndim==2)?1:((offset[IZ]==0)?v_in[IZ]:v_out[IZ]);
         real_t volume_fraction = cx*cy*cz;
 
         assert( abs( iCell_neighbor.level_diff() ) <= 1 );
@@ -98,7 +101,9 @@ public:
         }
         else 
         {
-          int nneighbors = 2*(ndim-1);
+          // Number of smaller neighbors is 2^(ndim - number of non-zero offsets) : 2*(ndim-1) through a face, but less through edges and corners
+          int nb_offsets = (offset[IX]!=0) + (offset[IY]!=0) + (offset[IZ]!=0);
+          int nneighbors = 1<<(ndim-nb_offsets);
           foreach_smaller_neighbor<ndim>( iCell_neighbor, offset, Uin.getShape(),
             [&]( const ForeachCell::CellIndex& iCell_sn )
           {
@@ -113,10 +118,13 @@ public:
       apply_g_contrib( {part_offset[IX],0              ,0              });
       apply_g_contrib( {0              ,part_offset[IY],0              });
       apply_g_contrib( {part_offset[IX],part_offset[IY],0              });
-      apply_g_contrib( {0              ,0              ,part_offset[IZ]});
-      apply_g_contrib( {part_offset[IX],0              ,part_offset[IZ]});
-      apply_g_contrib( {0              ,part_offset[IY],part_offset[IZ]});
-      apply_g_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      if( ndim == 3 )
+      {
+        apply_g_contrib( {0              ,0              ,part_offset[IZ]});
+        apply_g_contrib( {part_offset[IX],0              ,part_offset[IZ]});
+        apply_g_contrib( {0              ,part_offset[IY],part_offset[IZ]});
+        apply_g_contrib( {part_offset[IX],part_offset[IY],part_offset[IZ]});
+      }
 
       Pdata.at( iPart, IVX ) += dt * gx;
       Pdata.at( iPart, IVY ) += dt * gy;
-- 
2.43.0


From a179a0bb03fbce349ccfdb04680a0348dd1b2e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:13 +0000
Subject: [PATCH 16/34] fix: restart: give particles to the process that owns
 their cell

Particles read from a checkpoint were split evenly over the processes, in file
order, and used like that in the first step: out of bounds accesses or
particles moved with the data of another cell.
---
 core/src/init/InitialConditions_restart.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/src/init/InitialConditions_restart.cpp b/core/src/init/InitialConditions_restart.cpp
index 6d7ce8e..673b548 100644
--- a/core/src/init/InitialConditions_restart.cpp
+++ b/core/src/init/InitialConditions_restart.cpp
@@ -332,6 +332,9 @@ public:
             Pwrite.at( iPart, Iattr ) = file_data.at_ivar(iPart, 0);
           });          
         }
+
+        // Particles were read in file order : send them to the process owning the cell they are in
+        U.distributeParticles(particle_array);
       }      
     }
   }  
-- 
2.43.0


From f7966ab6d3e2fb27f4f019367beb487e81a24480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:20 +0000
Subject: [PATCH 17/34] fix: restart: distribute particles once all initial
 conditions are set

The order of the particles given by the restart initial condition alone stays
the one of the file.
---
 core/src/DyabloTimeLoop.h                   | 5 ++++-
 core/src/init/InitialConditions_restart.cpp | 3 ---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index b35e860..62f3dd1 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -263,7 +263,10 @@ public:
             m_foreach_cell,
             timers);
         initial_conditions->init( U );
-      }     
+      }
+
+      // Particles read from a checkpoint are in file order : send them to the process owning the cell they are in
+      U.distributeAllParticles();     
     } 
     timers.get("initial_conditions").stop();
 
diff --git a/core/src/init/InitialConditions_restart.cpp b/core/src/init/InitialConditions_restart.cpp
index 673b548..6d7ce8e 100644
--- a/core/src/init/InitialConditions_restart.cpp
+++ b/core/src/init/InitialConditions_restart.cpp
@@ -332,9 +332,6 @@ public:
             Pwrite.at( iPart, Iattr ) = file_data.at_ivar(iPart, 0);
           });          
         }
-
-        // Particles were read in file order : send them to the process owning the cell they are in
-        U.distributeParticles(particle_array);
       }      
     }
   }  
-- 
2.43.0


From ed97f3ed0a6dffa97d71dfab0eea6c50c02facab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 18/34] fix: report failed writes of outputs and checkpoints

Errors of HDF5 calls and of the C and C++ streams were ignored: the run ended
with success while files were missing or incomplete.
---
 core/src/io/IOManager_checkpoint.cpp |  2 ++
 core/src/io/IOManager_hdf5.cpp       | 18 +++++++++++++-----
 core/src/utils/io/HDF5ViewWriter.h   | 28 +++++++++++++++++++++-------
 3 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/core/src/io/IOManager_checkpoint.cpp b/core/src/io/IOManager_checkpoint.cpp
index f192c5d..5646699 100644
--- a/core/src/io/IOManager_checkpoint.cpp
+++ b/core/src/io/IOManager_checkpoint.cpp
@@ -95,6 +95,8 @@ public:
 
       std::ofstream ini_file(filename.str()+".ini");
       configMap_copy.output(ini_file);
+      ini_file.close();
+      DYABLO_ASSERT_HOST_RELEASE( ini_file, "Could not write file " << filename.str() << ".ini" );
     }
   }
 
diff --git a/core/src/io/IOManager_hdf5.cpp b/core/src/io/IOManager_hdf5.cpp
index 00c14f4..4d60200 100644
--- a/core/src/io/IOManager_hdf5.cpp
+++ b/core/src/io/IOManager_hdf5.cpp
@@ -67,6 +67,7 @@ public:
     // Write main xdmf file with 0 timesteps
     // prepare suffix string
     this->main_xdmf_fd = fopen( filename.c_str(), "w" );
+    DYABLO_ASSERT_HOST_RELEASE( main_xdmf_fd, "Could not create file " << filename );
     fprintf(main_xdmf_fd, 
 R"xml(<?xml version="1.0" ?>
 <!DOCTYPE Xdmf SYSTEM "Xdmf.dtd" []>
@@ -74,7 +75,7 @@ R"xml(<?xml version="1.0" ?>
   <Domain Name="MainTimeSeries">
     <Grid Name="MainTimeSeries" GridType="Collection" CollectionType="Temporal">)xml");
     fprintf(main_xdmf_fd, "%s", std::string(main_xdmf_footer).c_str());
-    fflush(main_xdmf_fd);
+    DYABLO_ASSERT_HOST_RELEASE( fflush(main_xdmf_fd) == 0 && !ferror(main_xdmf_fd), "Could not write file " << filename );
   }
 
   void append_xmf(const std::string& xmf_filename)
@@ -86,13 +87,14 @@ R"xml(<?xml version="1.0" ?>
     }
 
     // Append Current timestep to main xmdf file
-    fseek( main_xdmf_fd, -main_xdmf_footer.size(), SEEK_END );
+    int seek_status = fseek( main_xdmf_fd, -main_xdmf_footer.size(), SEEK_END );
+    DYABLO_ASSERT_HOST_RELEASE( seek_status == 0, "Could not write file " << filename );
     fprintf(main_xdmf_fd,
 R"xml(
       <xi:include href="%s" xpointer="xpointer(//Xdmf/Domain/Grid)" />)xml",
       xmf_filename.c_str());
     fprintf(main_xdmf_fd, "%s", std::string(main_xdmf_footer).c_str());
-    fflush(main_xdmf_fd);
+    DYABLO_ASSERT_HOST_RELEASE( fflush(main_xdmf_fd) == 0 && !ferror(main_xdmf_fd), "Could not write file " << filename );
   }
 };
 
@@ -251,6 +253,7 @@ void IOManager_hdf5::save_snapshot_aux( const UserData& U_, ScalarSimulationData
 
     // Write xdmf file (only master MPI process)
     FILE* fd = fopen( (output_dir + "/" + base_filename + ".xmf").c_str(), "w" );
+    DYABLO_ASSERT_HOST_RELEASE( fd, "Could not create file " << base_filename << ".xmf" );
 
     uint64_t global_num_cells = foreach_cell.getNumCells_global();
 
@@ -326,7 +329,9 @@ R"xml(
 </Xdmf>
 )xml");
 
-    fclose(fd);
+    bool write_ok = !ferror(fd);
+    write_ok = (fclose(fd) == 0) && write_ok;
+    DYABLO_ASSERT_HOST_RELEASE( write_ok, "Could not write file " << base_filename << ".xmf" );
   }
 
   { 
@@ -514,6 +519,7 @@ void IOManager_hdf5::save_particles( const UserData& U, const std::string& parti
 
     // Write xdmf file (only master MPI process)
     FILE* fd = fopen( (output_dir + "/" + base_filename + ".xmf").c_str(), "w" );
+    DYABLO_ASSERT_HOST_RELEASE( fd, "Could not create file " << base_filename << ".xmf" );
 
     fprintf(fd, 
 R"xml(<?xml version="1.0" ?>
@@ -564,7 +570,9 @@ R"xml(
 </Xdmf>
 )xml");
 
-    fclose(fd);
+    bool write_ok = !ferror(fd);
+    write_ok = (fclose(fd) == 0) && write_ok;
+    DYABLO_ASSERT_HOST_RELEASE( write_ok, "Could not write file " << base_filename << ".xmf" );
   }
 
  { // Write hdf5 file
diff --git a/core/src/utils/io/HDF5ViewWriter.h b/core/src/utils/io/HDF5ViewWriter.h
index 8b6a69e..f8a5fca 100644
--- a/core/src/utils/io/HDF5ViewWriter.h
+++ b/core/src/utils/io/HDF5ViewWriter.h
@@ -2,6 +2,7 @@
 
 #include <string>
 #include "utils/mpi/GlobalMpiSession.h"
+#include "utils/misc/Dyablo_assert.h"
 
 #include <hdf5.h>
 #include <hdf5_hl.h>
@@ -37,6 +38,8 @@ public:
       H5Pset_fapl_mpio(file_params, MPI_COMM_WORLD, MPI_INFO_NULL);
     #endif
     m_hdf5_file = H5Fcreate(filename.c_str(), H5F_ACC_TRUNC, H5P_DEFAULT, file_params);
+    H5Pclose(file_params);
+    DYABLO_ASSERT_HOST_RELEASE( m_hdf5_file >= 0, "HDF5 error : could not create file " << filename );
   }
 
   ~HDF5ViewWriter()
@@ -47,9 +50,11 @@ public:
   void close()
   {
     if (m_hdf5_file) {
-      H5Fflush(m_hdf5_file, H5F_SCOPE_GLOBAL);
-      H5Fclose(m_hdf5_file);
+      hid_t hdf5_file = m_hdf5_file;
       m_hdf5_file = 0;
+      herr_t flush_status = H5Fflush(hdf5_file, H5F_SCOPE_GLOBAL);
+      herr_t close_status = H5Fclose(hdf5_file);
+      DYABLO_ASSERT_HOST_RELEASE( flush_status >= 0 && close_status >= 0, "HDF5 error : could not write file" );
     }
   }
 
@@ -82,10 +87,14 @@ public:
 
     hid_t attr = H5Acreate2(group_id, varname.c_str(), type_id, filespace, dataset, H5P_DEFAULT);
 
-    H5Awrite( attr, type_id, &value );
+    DYABLO_ASSERT_HOST_RELEASE( attr >= 0, "HDF5 error : could not create attribute " << varpath );
+
+    herr_t write_status = H5Awrite( attr, type_id, &value );
+    DYABLO_ASSERT_HOST_RELEASE( write_status >= 0, "HDF5 error : could not write attribute " << varpath );
   
     H5Aclose(attr);
-    H5Gclose(group_id);
+    if( group_id != m_hdf5_file )
+      H5Gclose(group_id);
     H5Pclose(dataset);
     H5Sclose(filespace);
   }
@@ -173,8 +182,10 @@ public:
       hid_t dataset_properties = H5Pcreate(H5P_DATASET_CREATE);
       dataset = H5Dcreate2(group_id, varname.c_str(), type_id, filespace, H5P_DEFAULT, dataset_properties, H5P_DEFAULT);
       H5Pclose(dataset_properties);
+      DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not create dataset " << varpath );
     }
 
+    herr_t write_status;
     {
       hid_t write_properties = H5Pcreate(H5P_DATASET_XFER);
       #ifdef DYABLO_USE_MPI
@@ -183,19 +194,20 @@ public:
       #ifdef HDF5_IS_CUDA_AWARE
       {
         Kokkos::fence();
-        H5Dwrite(dataset, type_id, memspace, filespace, write_properties, data.data());
+        write_status = H5Dwrite(dataset, type_id, memspace, filespace, write_properties, data.data());
       }
       #else
       {
         auto data_host = Kokkos::create_mirror_view( data );
         Kokkos::deep_copy( data_host, data );
-        H5Dwrite(dataset, type_id, memspace, filespace, write_properties, data_host.data());
+        write_status = H5Dwrite(dataset, type_id, memspace, filespace, write_properties, data_host.data());
       }
       #endif
       H5Pclose(write_properties);
     }
+    herr_t close_status = H5Dclose(dataset);
+    DYABLO_ASSERT_HOST_RELEASE( write_status >= 0 && close_status >= 0, "HDF5 error : could not write dataset " << varpath );
 
-    H5Dclose(dataset);
     if( group_id != m_hdf5_file )
       H5Gclose(group_id);
     H5Sclose(filespace);
@@ -220,6 +232,8 @@ private:
       else // Group exists
         group_id = H5Gopen(group_id, group_name.c_str(), H5P_DEFAULT);
       
+      DYABLO_ASSERT_HOST_RELEASE( group_id >= 0, "HDF5 error : could not create or open group " << group_path );
+
       if( group_id_old != m_hdf5_file )
         H5Gclose(group_id_old);
     }
-- 
2.43.0


From 3af2e24c324d5423596800fadab68d89dfaf346a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 19/34] fix: report failed writes of last.ini

---
 core/src/DyabloTimeLoop.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index 62f3dd1..b1a31c9 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -447,7 +447,9 @@ public:
     }
  
     std::ofstream out_ini("last.ini" );
-    configMap.output( out_ini );       
+    configMap.output( out_ini );
+    out_ini.close();
+    DYABLO_ASSERT_HOST_RELEASE( out_ini, "Could not write file last.ini" );
 
     timers.get("Init").stop();
   }
-- 
2.43.0


From 4852b3c9813d31939dbe304b3fc08e2a50d7819f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 20/34] fix: restart: report failed reads of the checkpoint

Errors of HDF5 calls were ignored: the run continued with zeros.
---
 core/src/init/InitialConditions_restart.cpp   | 20 ++++++++++++++-----
 .../init/InitialConditions_tiled_restart.cpp  | 20 ++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/core/src/init/InitialConditions_restart.cpp b/core/src/init/InitialConditions_restart.cpp
index 6d7ce8e..5a183fc 100644
--- a/core/src/init/InitialConditions_restart.cpp
+++ b/core/src/init/InitialConditions_restart.cpp
@@ -38,6 +38,7 @@ public:
 #endif
     m_hdf5_file = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, plist);
     H5Pclose(plist);
+    DYABLO_ASSERT_HOST_RELEASE( m_hdf5_file >= 0, "HDF5 error : could not open file " << filename );
   }
 
   std::vector<std::string> list_fields( std::string hdf5_path )
@@ -51,13 +52,15 @@ public:
     };
 
     htri_t group_exists = H5Lexists(m_hdf5_file, hdf5_path.c_str(), H5P_DEFAULT);
+    DYABLO_ASSERT_HOST_RELEASE( group_exists >= 0, "HDF5 error : could not read group " << hdf5_path );
     if( group_exists <= 0 ) // Group Does not exist : empty list
       return {};
 
     hid_t group_id = m_hdf5_file;
     if( hdf5_path!="" )
         group_id = H5Gopen(m_hdf5_file, hdf5_path.c_str(), H5P_DEFAULT);
-    H5Literate(group_id, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, op_func, &res);
+    herr_t iterate_status = H5Literate(group_id, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, op_func, &res);
+    DYABLO_ASSERT_HOST_RELEASE( iterate_status >= 0, "HDF5 error : could not read group " << hdf5_path );
     if(group_id != m_hdf5_file)
       H5Gclose( group_id );
     return res;
@@ -67,6 +70,7 @@ public:
   {
     hid_t dataset_properties = H5Pcreate(H5P_DATASET_ACCESS);
     hid_t dataset = H5Dopen2( m_hdf5_file, hdf5_path.c_str(), dataset_properties );
+    DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not open dataset " << hdf5_path );
     hid_t filespace = H5Dget_space( dataset );
     int rank = H5Sget_simple_extent_ndims(filespace);
     std::vector<hsize_t> dims(rank);
@@ -86,6 +90,7 @@ public:
 
     hid_t dataset_properties = H5Pcreate(H5P_DATASET_ACCESS);
     hid_t dataset = H5Dopen2( m_hdf5_file, name.c_str(), dataset_properties );
+    DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not open dataset " << name );
     hid_t filespace = H5Dget_space( dataset );
 
     DYABLO_ASSERT_HOST_RELEASE( rank == H5Sget_simple_extent_ndims(filespace), "hdf5 error : dataset rank doesn't match view rank" );
@@ -96,17 +101,19 @@ public:
     for(int i=0; i<rank; i++)
         layout_file.dimension[rank-1-i] = dims[i];
     T view_file(name, layout_file);
+    herr_t read_status;
     {
       hid_t read_properties = H5Pcreate(H5P_DATASET_XFER);
       #ifdef HDF5_IS_CUDA_AWARE      
-        H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view_file.data() );      
+        read_status = H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view_file.data() );      
       #else
         auto view_file_host = Kokkos::create_mirror_view( view_file );
-        H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view_file_host.data() );
+        read_status = H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view_file_host.data() );
         Kokkos::deep_copy( view_file, view_file_host );
       #endif
       H5Pclose(read_properties);
     }
+    DYABLO_ASSERT_HOST_RELEASE( read_status >= 0, "HDF5 error : could not read dataset " << name );
     userdata_utils::transpose_from_right_iOct<iOct_pos>(view_file, view);
 
     H5Dclose(dataset);
@@ -147,22 +154,25 @@ public:
     hid_t dataset_properties = H5Pcreate(H5P_DATASET_ACCESS);    
 
     hid_t dataset = H5Dopen2( m_hdf5_file, name.c_str(), dataset_properties );
+    DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not open dataset " << name );
     H5Sselect_hyperslab( filespace, H5S_SELECT_SET, local_start, nullptr, local_dims, nullptr );
     
+    herr_t read_status;
     {
       hid_t read_properties = H5Pcreate(H5P_DATASET_XFER);
       #ifdef DYABLO_USE_MPI
         H5Pset_dxpl_mpio(read_properties, H5FD_MPIO_COLLECTIVE);
       #endif
       #ifdef HDF5_IS_CUDA_AWARE      
-        H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view.data() );      
+        read_status = H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view.data() );      
       #else
         auto view_host = Kokkos::create_mirror_view( view );
-        H5Dread( dataset, hdf5_type, memspace, filespace, read_properties, view_host.data() );
+        read_status = H5Dread( dataset, hdf5_type, memspace, filespace, read_properties, view_host.data() );
         Kokkos::deep_copy( view, view_host );
       #endif
       H5Pclose(read_properties);
     }
+    DYABLO_ASSERT_HOST_RELEASE( read_status >= 0, "HDF5 error : could not read dataset " << name );
 
     H5Dclose(dataset);
     H5Sclose(filespace);
diff --git a/core/src/init/InitialConditions_tiled_restart.cpp b/core/src/init/InitialConditions_tiled_restart.cpp
index 415ebb0..d31167b 100644
--- a/core/src/init/InitialConditions_tiled_restart.cpp
+++ b/core/src/init/InitialConditions_tiled_restart.cpp
@@ -38,6 +38,7 @@ public:
 #endif
     m_hdf5_file = H5Fopen(filename.c_str(), H5F_ACC_RDONLY, plist);
     H5Pclose(plist);
+    DYABLO_ASSERT_HOST_RELEASE( m_hdf5_file >= 0, "HDF5 error : could not open file " << filename );
   }
 
   std::vector<std::string> list_fields( std::string hdf5_path )
@@ -51,13 +52,15 @@ public:
     };
 
     htri_t group_exists = H5Lexists(m_hdf5_file, hdf5_path.c_str(), H5P_DEFAULT);
+    DYABLO_ASSERT_HOST_RELEASE( group_exists >= 0, "HDF5 error : could not read group " << hdf5_path );
     if( group_exists <= 0 ) // Group Does not exist : empty list
       return {};
 
     hid_t group_id = m_hdf5_file;
     if( hdf5_path!="" )
         group_id = H5Gopen(m_hdf5_file, hdf5_path.c_str(), H5P_DEFAULT);
-    H5Literate(group_id, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, op_func, &res);
+    herr_t iterate_status = H5Literate(group_id, H5_INDEX_NAME, H5_ITER_NATIVE, NULL, op_func, &res);
+    DYABLO_ASSERT_HOST_RELEASE( iterate_status >= 0, "HDF5 error : could not read group " << hdf5_path );
     if(group_id != m_hdf5_file)
       H5Gclose( group_id );
     return res;
@@ -67,6 +70,7 @@ public:
   {
     hid_t dataset_properties = H5Pcreate(H5P_DATASET_ACCESS);
     hid_t dataset = H5Dopen2( m_hdf5_file, hdf5_path.c_str(), dataset_properties );
+    DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not open dataset " << hdf5_path );
     hid_t filespace = H5Dget_space( dataset );
     int rank = H5Sget_simple_extent_ndims(filespace);
     std::vector<hsize_t> dims(rank);
@@ -86,6 +90,7 @@ public:
 
     hid_t dataset_properties = H5Pcreate(H5P_DATASET_ACCESS);
     hid_t dataset = H5Dopen2( m_hdf5_file, name.c_str(), dataset_properties );
+    DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not open dataset " << name );
     hid_t filespace = H5Dget_space( dataset );
 
     DYABLO_ASSERT_HOST_RELEASE( rank == H5Sget_simple_extent_ndims(filespace), "hdf5 error : dataset rank doesn't match view rank" );
@@ -96,17 +101,19 @@ public:
     for(int i=0; i<rank; i++)
         layout_file.dimension[rank-1-i] = dims[i];
     T view_file(name, layout_file);
+    herr_t read_status;
     {
       hid_t read_properties = H5Pcreate(H5P_DATASET_XFER);
       #ifdef HDF5_IS_CUDA_AWARE      
-        H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view_file.data() );      
+        read_status = H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view_file.data() );      
       #else
         auto view_file_host = Kokkos::create_mirror_view( view_file );
-        H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view_file_host.data() );
+        read_status = H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view_file_host.data() );
         Kokkos::deep_copy( view_file, view_file_host );
       #endif
       H5Pclose(read_properties);
     }
+    DYABLO_ASSERT_HOST_RELEASE( read_status >= 0, "HDF5 error : could not read dataset " << name );
     userdata_utils::transpose_from_right_iOct<iOct_pos>(view_file, view);
 
     H5Dclose(dataset);
@@ -138,21 +145,24 @@ public:
     hid_t dataset_properties = H5Pcreate(H5P_DATASET_ACCESS);    
 
     hid_t dataset = H5Dopen2( m_hdf5_file, name.c_str(), dataset_properties );
+    DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not open dataset " << name );
     
+    herr_t read_status;
     {
       hid_t read_properties = H5Pcreate(H5P_DATASET_XFER);
       #ifdef DYABLO_USE_MPI
         H5Pset_dxpl_mpio(read_properties, H5FD_MPIO_COLLECTIVE);
       #endif
       #ifdef HDF5_IS_CUDA_AWARE      
-        H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view.data() );      
+        read_status = H5Dread( dataset, hdf5_type, filespace, filespace, read_properties, view.data() );      
       #else
         auto view_host = Kokkos::create_mirror_view( view );
-        H5Dread( dataset, hdf5_type, memspace, filespace, read_properties, view_host.data() );
+        read_status = H5Dread( dataset, hdf5_type, memspace, filespace, read_properties, view_host.data() );
         Kokkos::deep_copy( view, view_host );
       #endif
       H5Pclose(read_properties);
     }
+    DYABLO_ASSERT_HOST_RELEASE( read_status >= 0, "HDF5 error : could not read dataset " << name );
 
     H5Dclose(dataset);
     H5Sclose(filespace);
-- 
2.43.0


From 97a70b06f50b3fdad326e2a46722de3f2e6dfa35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:44 +0000
Subject: [PATCH 21/34] fix: report failed reads of the parameter file

---
 core/src/utils/config/ConfigMap.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/src/utils/config/ConfigMap.h b/core/src/utils/config/ConfigMap.h
index fa1d8e7..d370feb 100644
--- a/core/src/utils/config/ConfigMap.h
+++ b/core/src/utils/config/ConfigMap.h
@@ -226,6 +226,7 @@ public:
       buffer = new char[buffer_size+1];
       
       filein.read(buffer, buffer_size);
+      DYABLO_ASSERT_HOST_RELEASE(filein, "Could not read .ini file : `" + filename + "`");
       buffer[buffer_size] = '\0';
     }
     
-- 
2.43.0


From cdb040cff7e45c183ecdc045857b9d70cc31d31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:28 +0000
Subject: [PATCH 22/34] fix: an output, checkpoint or mesh cycle frequency of 0
 disables the trigger instead of dividing by zero

---
 core/src/DyabloTimeLoop.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/DyabloTimeLoop.h b/core/src/DyabloTimeLoop.h
index b1a31c9..320dcf9 100644
--- a/core/src/DyabloTimeLoop.h
+++ b/core/src/DyabloTimeLoop.h
@@ -47,7 +47,7 @@ public:
     : var(var),
       enabled( interval > 0 ),
       interval(interval),
-      last_trigger( std::floor(scalar_data.get<T>(var)/interval) * interval )
+      last_trigger( enabled ? static_cast<T>(std::floor(scalar_data.get<T>(var)/interval) * interval) : T(0) )
   {}
 
   bool trigger( const ScalarSimulationData& scalar_data )
-- 
2.43.0


From 051bfa6dd569337873e9f08fb0bda4de950c2721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:53 +0000
Subject: [PATCH 23/34] fix: parameter files: accept lines longer than 200
 characters, which recorded files contain

---
 core/src/utils/config/inih/ini.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/utils/config/inih/ini.h b/core/src/utils/config/inih/ini.h
index d1a2ba8..f6bde76 100644
--- a/core/src/utils/config/inih/ini.h
+++ b/core/src/utils/config/inih/ini.h
@@ -127,7 +127,7 @@ INI_API int ini_parse_string(const char* string, ini_handler handler, void* user
 /* Maximum line length for any line in INI file (stack or heap). Note that
    this must be 3 more than the longest line (due to '\r', '\n', and '\0'). */
 #ifndef INI_MAX_LINE
-#define INI_MAX_LINE 200
+#define INI_MAX_LINE 65536
 #endif
 
 /* Nonzero to allow heap line buffer to grow via realloc(), zero for a
-- 
2.43.0


From 949d4425cf789a0ed6dfdfd5a909f0ce1236cdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:26 +0000
Subject: [PATCH 24/34] fix: conjugate gradient gravity: uniform density gave
 an infinite loop or a force that is not a number

---
 core/src/gravity/GravitySolver_cg.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/src/gravity/GravitySolver_cg.cpp b/core/src/gravity/GravitySolver_cg.cpp
index ac0bddd..b93c651 100644
--- a/core/src/gravity/GravitySolver_cg.cpp
+++ b/core/src/gravity/GravitySolver_cg.cpp
@@ -4,6 +4,8 @@
 #include "mpi/GhostCommunicator.h"
 #include "foreach_cell/ForeachCell_utils.h"
 #include <mpi.h>
+#include <algorithm>
+#include <limits>
 
 namespace dyablo { 
 
@@ -275,9 +277,9 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
   real_t four_Pi_G = pdata->four_Pi_G;  
 
   // Compute initial residual
-  real_t R=0, B=0, r_dot_z=0;
+  real_t R=0, B=0, B_round=0, r_dot_z=0;
   foreach_cell.reduce_cell( "Gravity_cg::init_gc", CGdata, 
-    KOKKOS_LAMBDA(const CellIndex& iCell_CGdata, real_t& update_r, real_t& update_b, real_t& update_r_dot_z )
+    KOKKOS_LAMBDA(const CellIndex& iCell_CGdata, real_t& update_r, real_t& update_b, real_t& update_b_round, real_t& update_r_dot_z )
   {
     // Get gravity potential from last iteration as approximate solution
     CGdata.at(iCell_CGdata, CG_PHI) = Uin.at(iCell_CGdata, IGPHI);
@@ -295,17 +297,23 @@ void GravitySolver_cg::update_gravity_field( UserData& U, ScalarSimulationData&
     CGdata.at(iCell_CGdata, CG_IP) = z; // p <- r
     update_r += r*r ;
     update_b += bi*bi ;
+    // Magnitude of the terms that cancel out in bi
+    real_t bi_scale = (cosmo_run ? 6.0*aexp : four_Pi_G*rho_mean)*cell_size[IX]*cell_size[IY]*cell_size[IZ];
+    update_b_round += bi_scale*bi_scale;
     update_r_dot_z += r*z;
-  }, R, B, r_dot_z );  
+  }, R, B, B_round, r_dot_z );  
   R = MPI_Allreduce_scalar(R);
   B = MPI_Allreduce_scalar(B);
+  B_round = MPI_Allreduce_scalar(B_round);
   r_dot_z = MPI_Allreduce_scalar(r_dot_z);
   
   if(pdata->print_cg_iter)
     std::cout << "GC : " << R << "...";
   // Conjugate gradient iteration
   int it=0;
-  while( R/B > eps*eps )
+  // When density is (almost) uniform, b is mostly rounding errors : there may be no solution with residual eps*||b||
+  constexpr real_t eps_round = 1000*std::numeric_limits<real_t>::epsilon();
+  while( R > std::max( eps*eps*B, eps_round*eps_round*B_round ) )
   {
     it++;
     // Communicate ghosts for CG_IP
-- 
2.43.0


From 138286d4aa345c7cc95d117c34bc5d9d291f60cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:24 +0000
Subject: [PATCH 25/34] fix: outputs and checkpoints: nothing to write in an
 empty dataset

HDF5 has no storage for it and reports an error (ignored before errors of HDF5 were reported).
---
 core/src/utils/io/HDF5ViewWriter.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/src/utils/io/HDF5ViewWriter.h b/core/src/utils/io/HDF5ViewWriter.h
index f8a5fca..8a65221 100644
--- a/core/src/utils/io/HDF5ViewWriter.h
+++ b/core/src/utils/io/HDF5ViewWriter.h
@@ -185,7 +185,9 @@ public:
       DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not create dataset " << varpath );
     }
 
-    herr_t write_status;
+    // Nothing to write in an empty dataset (e.g. no particle in any process) : HDF5 allocates no storage for it and fails
+    herr_t write_status = 0;
+    if( H5Sget_simple_extent_npoints(filespace) > 0 )
     {
       hid_t write_properties = H5Pcreate(H5P_DATASET_XFER);
       #ifdef DYABLO_USE_MPI
-- 
2.43.0


From f32f526b2e54799a82f59685dd6dc45fae392828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:16 +0000
Subject: [PATCH 26/34] fix: restart: nothing to read in an empty dataset

HDF5 has no storage for it and reports an error (ignored before errors of HDF5 were reported).
---
 core/src/init/InitialConditions_restart.cpp       | 4 +++-
 core/src/init/InitialConditions_tiled_restart.cpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/src/init/InitialConditions_restart.cpp b/core/src/init/InitialConditions_restart.cpp
index 5a183fc..cd9d7ce 100644
--- a/core/src/init/InitialConditions_restart.cpp
+++ b/core/src/init/InitialConditions_restart.cpp
@@ -157,7 +157,9 @@ public:
     DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not open dataset " << name );
     H5Sselect_hyperslab( filespace, H5S_SELECT_SET, local_start, nullptr, local_dims, nullptr );
     
-    herr_t read_status;
+    // Nothing to read in an empty dataset (e.g. no particle in any process) : HDF5 has no storage for it and fails
+    herr_t read_status = 0;
+    if( H5Sget_simple_extent_npoints(filespace) > 0 )
     {
       hid_t read_properties = H5Pcreate(H5P_DATASET_XFER);
       #ifdef DYABLO_USE_MPI
diff --git a/core/src/init/InitialConditions_tiled_restart.cpp b/core/src/init/InitialConditions_tiled_restart.cpp
index d31167b..fa5943f 100644
--- a/core/src/init/InitialConditions_tiled_restart.cpp
+++ b/core/src/init/InitialConditions_tiled_restart.cpp
@@ -147,7 +147,9 @@ public:
     hid_t dataset = H5Dopen2( m_hdf5_file, name.c_str(), dataset_properties );
     DYABLO_ASSERT_HOST_RELEASE( dataset >= 0, "HDF5 error : could not open dataset " << name );
     
-    herr_t read_status;
+    // Nothing to read in an empty dataset (e.g. no particle in any process) : HDF5 has no storage for it and fails
+    herr_t read_status = 0;
+    if( H5Sget_simple_extent_npoints(filespace) > 0 )
     {
       hid_t read_properties = H5Pcreate(H5P_DATASET_XFER);
       #ifdef DYABLO_USE_MPI
-- 
2.43.0


From 9ca06208ba38e0438a45745533971d07d9a4d3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 27/34] fix: well-balanced hydro updates read uninitialised
 gravity constants unless gravity is constant

---
 core/src/hydro/HydroUpdate_RK2.cpp   | 2 +-
 core/src/hydro/HydroUpdate_euler.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_RK2.cpp b/core/src/hydro/HydroUpdate_RK2.cpp
index 31d7c40..bbfeed4 100644
--- a/core/src/hydro/HydroUpdate_RK2.cpp
+++ b/core/src/hydro/HydroUpdate_RK2.cpp
@@ -273,7 +273,7 @@ private:
   BoundaryConditions bc_manager;
   
   GravityType gravity_type;
-  real_t gx, gy, gz;
+  real_t gx = 0, gy = 0, gz = 0;
   bool well_balanced;
 };
 
diff --git a/core/src/hydro/HydroUpdate_euler.cpp b/core/src/hydro/HydroUpdate_euler.cpp
index c54eee7..c0a9eca 100644
--- a/core/src/hydro/HydroUpdate_euler.cpp
+++ b/core/src/hydro/HydroUpdate_euler.cpp
@@ -237,7 +237,7 @@ private:
 
   BoundaryConditions bc_manager;
   GravityType gravity_type;
-  real_t gx, gy, gz;
+  real_t gx = 0, gy = 0, gz = 0;
   bool well_balanced;
 };
 
-- 
2.43.0


From 6d06e30ae7fb7e7e3c2868498813223878d46962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:22 +0000
Subject: [PATCH 28/34] fix: well-balanced boundary flux accumulates into an
 uninitialised pressure

---
 core/src/hydro/HydroUpdate_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/hydro/HydroUpdate_utils.h b/core/src/hydro/HydroUpdate_utils.h
index 625aba2..b11c7cb 100644
--- a/core/src/hydro/HydroUpdate_utils.h
+++ b/core/src/hydro/HydroUpdate_utils.h
@@ -475,7 +475,7 @@ void euler_update(const RiemannParams&     params,
   real_t dflux_RR  = df_factors[ldiff_R+1][0];
 
   // Output pressures, necessary for the well-balanced solver
-  real_t poutL, poutR;
+  real_t poutL = 0, poutR = 0;
   
   // == Left interface
   // 1- Same size or bigger
-- 
2.43.0


From 83453e3ca8eeed8858a254c41036e4281ba0d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:42 +0000
Subject: [PATCH 29/34] fix: HydroUpdate_legacy divides by zero on a rank
 without octants

---
 core/src/hydro/HydroUpdate_legacy.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/src/hydro/HydroUpdate_legacy.cpp b/core/src/hydro/HydroUpdate_legacy.cpp
index 1c2f529..354fe6d 100644
--- a/core/src/hydro/HydroUpdate_legacy.cpp
+++ b/core/src/hydro/HydroUpdate_legacy.cpp
@@ -53,10 +53,11 @@ void HydroUpdate_legacy::update( UserData& U_, ScalarSimulationData& scalar_data
   ForeachCell& foreach_cell = pdata->foreach_cell;
   const LightOctree& lmesh = foreach_cell.get_amr_mesh().getLightOctree();
 
-  uint32_t nbOctsPerGroup = std::min( 
+  // At least one : some MPI ranks may have no octant
+  uint32_t nbOctsPerGroup = std::max<uint32_t>( 1, std::min( 
       lmesh.getNumOctants(), 
       pdata->nbOctsPerGroup
-    );
+    ));
   uint32_t bx = foreach_cell.blockSize()[IX]; 
   uint32_t by = foreach_cell.blockSize()[IY]; 
   uint32_t bz = foreach_cell.blockSize()[IZ];
-- 
2.43.0


From 7879552535044df34c60f85b88451e23748fe662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:40 +0000
Subject: [PATCH 30/34] fix: lower and upper boundary types are swapped when
 filling cells outside of the domain

The offset given by getBoundaryPosAndOffset() goes from the closest cell inside
of the block to the boundary cell: it is negative beyond the lower boundary.
HydroUpdate_hancock_oneneighbor applied the user flux override on the opposite
side for the same reason.
---
 core/src/boundary_conditions/BoundaryConditions.h  | 14 +++++++-------
 core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp |  4 ++--
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/core/src/boundary_conditions/BoundaryConditions.h b/core/src/boundary_conditions/BoundaryConditions.h
index 3a5c29c..30a5c20 100644
--- a/core/src/boundary_conditions/BoundaryConditions.h
+++ b/core/src/boundary_conditions/BoundaryConditions.h
@@ -81,13 +81,13 @@ public:
     res = ref;
 
     // X dir
-    if (offset[IX] > 0) {
+    if (offset[IX] < 0) {
       if (bc_min[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
       else if (bc_min[IX] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IX);
     }
-    else if (offset[IX] < 0) {
+    else if (offset[IX] > 0) {
       if (bc_max[IX] == BC_REFLECTING)
         res.rho_u = -ref.rho_u;
       else if (bc_max[IX] == BC_USER)
@@ -95,13 +95,13 @@ public:
     }
 
     // Y dir
-    if (offset[IY] > 0) {
+    if (offset[IY] < 0) {
       if (bc_min[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
       else if (bc_min[IY] == BC_USER)
         res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IY);
     }
-    else if (offset[IY] < 0) {
+    else if (offset[IY] > 0) {
       if (bc_max[IY] == BC_REFLECTING)
         res.rho_v = -ref.rho_v;
       else if (bc_max[IY] == BC_USER)
@@ -110,13 +110,13 @@ public:
 
     // Z dir
     if (ndim == 3) {
-      if (offset[IZ] > 0) {
+      if (offset[IZ] < 0) {
         if (bc_min[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
         else if (bc_min[IZ] == BC_USER)
           res = getUserdefBoundaryValue<ndim, State>(Uin, iCell_boundary, metadata, offset, IZ);
       }
-      else if (offset[IZ] < 0) {
+      else if (offset[IZ] > 0) {
         if (bc_max[IZ] == BC_REFLECTING)
           res.rho_w = -ref.rho_w;
         else if (bc_max[IZ] == BC_USER)
@@ -142,7 +142,7 @@ public:
    * \param Uin input array of conservative variables
    * \param iCell_boundary cell index outside of the domain (iCell_boundary.is_boundary() must be true)
    * \param metadata CellMetaData object allowing for mesh queries on size/position
-   * \param offset the offset to apply to iCell_boundary to get to the symmetrical cell inside the domain
+   * \param offset the offset from the closest cell of the block to iCell_boundary (negative beyond the lower boundary)
    * \param dir the direction along which we're getting out of the domain
    **/
   template <
diff --git a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
index bf9abe8..08927d4 100644
--- a/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
+++ b/core/src/hydro/HydroUpdate_hancock_oneneighbor.cpp
@@ -290,9 +290,9 @@ void compute_fluxes_and_update( const FieldArray& Uin, const FieldArray& Uout, c
       PrimState qr_n = consToPrim<ndim>(ur_n, params.gamma0);
       ConsState flux = riemann(qr_c, qr_n, dir, sign);
 
-      if (sign == 1 && bc_manager.bc_min[dir] == BC_USER)
+      if (sign == -1 && bc_manager.bc_min[dir] == BC_USER)
         flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, true);
-      else if (sign == -1 && bc_manager.bc_max[dir] == BC_USER)
+      else if (sign == 1 && bc_manager.bc_max[dir] == BC_USER)
         flux = bc_manager.template overrideBoundaryFlux<ndim, State>(flux, qr_c, dir, false);
         
       // +- dS / dV 
-- 
2.43.0


From a404395c53a76d6177235e52e68ccd86b5b50b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:24 +0000
Subject: [PATCH 31/34] fix: ghost cells beyond a wall and beside the block are
 reflected from the wrong cell

A ghost cell outside of the domain in one direction only, but outside of the
block in others, was reflected in all of them (velocity included), so that the
flux through a closed wall did not vanish at the edges of blocks:
HydroUpdate_hancock lost mass and energy. Reflect only in the directions that
leave the domain and fetch the symmetric cell from the neighbor block.
---
 .../boundary_conditions/BoundaryConditions.h  | 51 ++++++++++++++++---
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/core/src/boundary_conditions/BoundaryConditions.h b/core/src/boundary_conditions/BoundaryConditions.h
index 30a5c20..a8ca5e5 100644
--- a/core/src/boundary_conditions/BoundaryConditions.h
+++ b/core/src/boundary_conditions/BoundaryConditions.h
@@ -5,6 +5,7 @@
 #include "BoundaryConditions.h"
 
 #include "RiemannSolvers.h"
+#include "foreach_cell/ForeachCell_utils.h"
 
 namespace dyablo {
 namespace {
@@ -67,17 +68,53 @@ public:
 
     auto sign = [](int x){return (x>0)-(x<0);};
 
-    CellIndex::offset_t symmetric_offset {
-      (int16_t)(-offset[IX] + sign(offset[IX])), 
-      (int16_t)(-offset[IY] + sign(offset[IY])), 
-      (int16_t)(-offset[IZ] + sign(offset[IZ]))
-    }; 
+    // The cell may be outside of the block in several directions, but outside of 
+    // the domain only in some of them: only those are reflected
+    offset_t symmetric_offset{}, // From closest cell in block to its symmetric, in the block
+             inside_offset{};    // Remaining offset, inside the domain
+    int nb_outside_block = (offset[IX]!=0) + (offset[IY]!=0) + (offset[IZ]!=0);
+    for( ComponentIndex3D dir : {IX, IY, IZ} )
+    {
+      offset_t offset_dir{};
+      offset_dir[dir] = offset[dir];
+      if( offset[dir] != 0 
+       && ( nb_outside_block == 1 || iCell_ref.getNeighbor_ghost(offset_dir, Uin.getShape()).is_boundary() ) )
+      {
+        symmetric_offset[dir] = -offset[dir] + sign(offset[dir]);
+      }
+      else
+      {
+        inside_offset[dir] = offset[dir];
+        offset[dir] = 0;
+      }
+    }
 
-    iCell_ref = iCell_ref.getNeighbor(symmetric_offset);
+    iCell_ref = iCell_ref.getNeighbor(symmetric_offset).getNeighbor_ghost(inside_offset, Uin.getShape());
   
     // By default, we define the result as the reference state (ie the symmetrical state wrt the boundary)
     ConsState res{}, ref{};
-    getConservativeState<ndim>(Uin, iCell_ref, ref);
+    if( iCell_ref.level_diff() >= 0 )
+    {
+      getConservativeState<ndim>(Uin, iCell_ref, ref);
+    }
+    else // Symmetric cell is refined : average of its subcells
+    {
+      // Lower-left subcell, getNeighbor_ghost() returns the subcell closest to the block
+      CellIndex iCell_sub0 = iCell_ref.getNeighbor({
+        (int16_t)(-(inside_offset[IX]<0)),
+        (int16_t)(-(inside_offset[IY]<0)),
+        (int16_t)(-(inside_offset[IZ]<0))
+      });
+      iCell_sub0.status = CellIndex::SMALLER;
+      ConsState u_sub{};
+      int nbCells = foreach_sibling<ndim>( iCell_sub0, Uin.getShape(), 
+        [&](const CellIndex& iCell_sub)
+      {
+        getConservativeState<ndim>(Uin, iCell_sub, u_sub);
+        ref += u_sub;
+      });
+      ref = ref/nbCells;
+    }
     res = ref;
 
     // X dir
-- 
2.43.0


From 5f90aa48d35e562667c668b2d54bd85790e80b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 32/34] fix: HydroUpdate_legacy takes the gravity of another
 cell in 2D

The corrector indexed the ghosted group array with the index in the block
without ghosts.
---
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index f8f10eb..de36199 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -765,8 +765,8 @@ public:
     real_t gx, gy, gz;
     if (params.gravity_type & GRAVITY_FIELD)
     {
-      gx = Ugroup(index, fm[IGX], iOct_g);
-      gy = Ugroup(index, fm[IGY], iOct_g);
+      gx = Ugroup(index_g, fm[IGX], iOct_g);
+      gy = Ugroup(index_g, fm[IGY], iOct_g);
 
       if (ndim == 3)
         gz = Ugroup(index_g, fm[IGZ], iOct_g);
-- 
2.43.0


From de55f94ea026b697dd8fd64283eded476ddb15fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:25 +0000
Subject: [PATCH 33/34] fix: HydroUpdate_legacy reads a gravity field that does
 not exist in 3D

With gravity_type=constant_scalar there is no gravity field in the group array:
the corrector read another variable in place of the constant gravity.
---
 core/src/legacy/MusclBlockGodunovUpdateFunctor.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
index de36199..b344b79 100644
--- a/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
+++ b/core/src/legacy/MusclBlockGodunovUpdateFunctor.h
@@ -1829,9 +1829,11 @@ public:
 
     const auto& fm_state = fm_state_3D();
 
-    const real_t gx = Ugroup(index, fm[IGX], iOct_local);
-    const real_t gy = Ugroup(index, fm[IGY], iOct_local);
-    const real_t gz = Ugroup(index, fm[IGZ], iOct_local);
+    // Gravity is only a field of Ugroup with GRAVITY_FIELD
+    const bool gravity_field = params.gravity_type & GRAVITY_FIELD;
+    const real_t gx = gravity_field ? Ugroup(index, fm[IGX], iOct_local) : params.gx;
+    const real_t gy = gravity_field ? Ugroup(index, fm[IGY], iOct_local) : params.gy;
+    const real_t gz = gravity_field ? Ugroup(index, fm[IGZ], iOct_local) : params.gz;
 
     real_t rhoOld = qOld[fm_state[ID]];
     real_t rhoNew = qNew[fm_state[ID]];
-- 
2.43.0


From f2514ff4d9ae23dd1abc3866441280bc34964653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:34 +0000
Subject: [PATCH 34/34] fix: viscosity in 2D was multiplied by a cell size
 along z that has no meaning

The face areas of the viscous flux took size[IZ] in 2D as well, while the volume
does not: the viscosity was weaker by a factor that depends on the level of the
cell and on zmin/zmax.
---
 core/src/parabolic/ParabolicTerm_viscosity.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/src/parabolic/ParabolicTerm_viscosity.h b/core/src/parabolic/ParabolicTerm_viscosity.h
index 76bec7f..22f7968 100644
--- a/core/src/parabolic/ParabolicTerm_viscosity.h
+++ b/core/src/parabolic/ParabolicTerm_viscosity.h
@@ -136,7 +136,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IY] * size[IZ];
+        real_t area = size[IY] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xx;
         vf.rho_v += sign * area * tau_xy;
         vf.rho_w += sign * area * tau_xz;
@@ -176,7 +176,7 @@ public:
 
         // Building flux
         real_t sign = (side == 0 ? -1.0 : 1.0);
-        real_t area = size[IX] * size[IZ];
+        real_t area = size[IX] * (ndim == 3 ? size[IZ] : 1.0);
         vf.rho_u += sign * area * tau_xy;
         vf.rho_v += sign * area * tau_yy;
         vf.rho_w += sign * area * tau_yz;
-- 
2.43.0

