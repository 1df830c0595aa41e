From c87976530ae901db7cd62dc75734fde6e35a6275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:36 +0000
Subject: [PATCH 01/40] Add guarded phase-boundary hooks to the main loop
 (PICOPIC_SIM_HOOKS, off by default)

---
 src/PiCoPiC.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 23ddffe..9e77118 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -39,6 +39,14 @@ using namespace MPI;
 #include "specieP.hpp"
 #include "beamP.hpp"
 
+#ifdef PICOPIC_SIM_HOOKS
+// verification hooks: phase boundaries of the main loop (off by default)
+#include "simapi.h"
+#define SIM_HOOK(point) sim_point(point, &shared_mem_blk, sim_time_clock)
+#else
+#define SIM_HOOK(point)
+#endif // PICOPIC_SIM_HOOKS
+
 using namespace std;
 
 #ifdef ENABLE_HDF5
@@ -239,6 +247,7 @@ int main(int argc, char **argv)
     // define a shared memory block
     SMB shared_mem_blk ( &cfg, geometry_global, sim_time_clock, 0, 1);
 #endif // ENABLE_MPI
+    SIM_HOOK(SIM_SMB_READY);
 
     LOG_S(MAX) << "Initializing Data Paths";
 
@@ -292,6 +301,7 @@ int main(int argc, char **argv)
     LOG_S(INFO) << "Preparation to calculation";
 
     shared_mem_blk.distribute();
+    SIM_HOOK(SIM_DISTRIBUTED);
 
     //! Main calculation loop
     LOG_S(INFO) << "Launching calculation";
@@ -321,18 +331,23 @@ int main(int argc, char **argv)
       //! == current overlay ==
 
       LOG_S(MAX) << "Run calculation loop for timestamp: " << sim_time_clock->current;
+      SIM_HOOK(SIM_STEP_BEGIN);
 
 //// inject beam
       shared_mem_blk.inject_beam();
+      SIM_HOOK(SIM_INJECTED);
 
 //// solve maxwell equations
       shared_mem_blk.solve_maxvell();
+      SIM_HOOK(SIM_MAXWELL);
 
 //// advance particles
       shared_mem_blk.advance_particles();
+      SIM_HOOK(SIM_ADVANCED);
 
 //// solve currents
       shared_mem_blk.solve_current();
+      SIM_HOOK(SIM_CURRENT);
 
 //// output data
 #ifdef ENABLE_MPI
@@ -343,8 +358,10 @@ int main(int argc, char **argv)
                  << sim_time_clock->current << "''";
 #endif // ENABLE_MPI
       out_controller();
+      SIM_HOOK(SIM_OUTPUT);
 
       sim_time_clock->current += sim_time_clock->step;
+      SIM_HOOK(SIM_STEP_END);
 
 //// check if the simulation pause/unpause requested
       // (signals USR1 for pause and USR2 for unpause
@@ -394,6 +411,8 @@ int main(int argc, char **argv)
 #endif
     }
 
+    SIM_HOOK(SIM_LOOP_END);
+
 #ifdef ENABLE_HDF5
     delete file;
 #endif
-- 
2.43.0


From 1fbe617155eb66b7c7d3dc2acfdf06cd74d682ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 02/40] fix: allocate probe dimensions for col, row and dot
 probes

The dims vector was indexed while still empty, which is out-of-bounds
access for every probe shape except rec.
---
 src/cfg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index e2d09e1..81695d5 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -257,6 +257,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("col") == 0 )
     {
       p_p.shape = 1;
+      p_p.dims.resize(4);
       p_p.dims[0] = 0;
       p_p.dims[2] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
@@ -270,6 +271,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("row") == 0 )
     {
       p_p.shape = 2;
+      p_p.dims.resize(4);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[1] = 0;
@@ -283,6 +285,7 @@ void Cfg::init_probes ()
     else if ( p_shape.compare("dot") == 0 )
     {
       p_p.shape = 3;
+      p_p.dims.resize(4);
       p_p.dims[2] = (int)o["r"].get<double>();
       p_p.dims[0] = 0;
       p_p.dims[3] = (int)o["z"].get<double>();
-- 
2.43.0


From 14d2f62830cee6c3a9859eb87a187b8b97534179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 03/40] fix: size the buffer of the printed simulation duration

The text was printed into a single allocated char, overflowing the heap
at every printed progress line (and leaking the char).
---
 src/algo/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algo/common.cpp b/src/algo/common.cpp
index 76182c8..9698ce1 100644
--- a/src/algo/common.cpp
+++ b/src/algo/common.cpp
@@ -66,7 +66,7 @@ namespace algo::common
 
     int d, hr, min;
     double sec;
-    char* the_time = new char;
+    char the_time[64];
 
     int sec_in_min = 60;
     int sec_in_hr = 3600;
-- 
2.43.0


From 20c35194d1f6c991146a5c023a12a31d5e069521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:43 +0000
Subject: [PATCH 04/40] fix: give every thread its own random number generator

The shared generator was advanced by all of the OpenMP threads without
synchronisation (particle distribution and beam injection run in parallel
over domains), which is a data race on its state.
---
 src/math/rand.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/math/rand.cpp b/src/math/rand.cpp
index b80387c..91f987c 100644
--- a/src/math/rand.cpp
+++ b/src/math/rand.cpp
@@ -21,8 +21,10 @@ using namespace std;
 
 namespace math::random
 {
-  std::random_device device;
-  std::mt19937 gen(device());
+  // every thread draws from its own generator: they are used by several
+  // domains simultaneously
+  thread_local std::random_device device;
+  thread_local std::mt19937 gen(device());
 
   std::uniform_real_distribution<double> uniform_distribution(0., 1.);
   double uniform()
-- 
2.43.0


From 3c5b76166cdf497548ddc5a59da885b26d0e120d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:22 +0000
Subject: [PATCH 05/40] fix: bind injected beam particles to the z-cell of
 their z-position

The longitudinal cell number was calculated from the radial position.
---
 src/beamP.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index caeda24..aedef1e 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -134,7 +134,7 @@ void BeamP::inject()
 
         // set cell numbers
         int r_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[0]);
-        int z_cell = CELL_NUMBER(P_POS_R((*v)), geometry->cell_size[1]);
+        int z_cell = CELL_NUMBER(P_POS_Z((*v)), geometry->cell_size[1]);
 
         P_CELL_R((*v)) = r_cell;
         P_CELL_Z((*v)) = z_cell;
-- 
2.43.0


From 7e46c4da559c486182678ee50cc4a4e4c4cad470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:22 +0000
Subject: [PATCH 06/40] fix: advance the bunch counter in every domain, before
 injecting

Only the domain at the axis counted injected bunches, so every other
domain, crossed by the beam, kept its first bunch forever and never
injected the next ones. The counter also was advanced one step late, so a
bunch that follows its predecessor immediately lost its first portion.
---
 src/beamP.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/beamP.cpp b/src/beamP.cpp
index aedef1e..c42d2cd 100644
--- a/src/beamP.cpp
+++ b/src/beamP.cpp
@@ -70,6 +70,17 @@ BeamP::BeamP (unsigned int id, // ID for every particles specie
 
 void BeamP::inject()
 {
+  // switch to the next bunch after whole bunch injection
+  while (current_bunch_number < bunches_amount
+         && time->current >= start_time + bunch_length / velocity
+         + (bunch_length + bunches_distance) / velocity * current_bunch_number)
+  {
+    if (geometry->cell_dims[1] == 0 // print message only for domain 0,0
+        && geometry->cell_dims[0] == 0)
+      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
+    ++current_bunch_number;
+  }
+
   // check if limit of bunches is reached
   if (current_bunch_number < bunches_amount)
   {
@@ -144,15 +155,6 @@ void BeamP::inject()
         // particles_old.push_back(v_old);
       }
     }
-
-    // increase current bunch number after whole bunch injection
-    if (time->current > bunch_finish_time
-        && geometry->cell_dims[1] == 0 // print message only for domain 0,0
-        && geometry->cell_dims[0] == 0)
-    {
-      LOG_S(MAX) << "Bunch #" << current_bunch_number << " of beam ``" << name << "'' has been injected";
-      ++current_bunch_number;
-    }
   }
 }
 
-- 
2.43.0


From 4900dfaed6018e3560af36d5b5121723ec5f2705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:59 +0000
Subject: [PATCH 07/40] fix: share the group between probes of the same
 component and shape

Creation of the group that already exists failed, so configurations with
two probes of the same component and shape aborted at start.
---
 src/outEngine/outEngineHDF5.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 446e415..50501e8 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -118,13 +118,10 @@ void OutEngineHDF5::write_dot(size_t _num, double data)
 
 void OutEngineHDF5::create_dataset()
 {
-  string group_name = path.substr(0, path.find_last_of("\\/"));
-
   try
   {
-    LOG_S(MAX) << "Creating group ``" << group_name << "''";
-    Group group_instance = data_file->createGroup('/' + group_name);
-    LOG_S(MAX) << "Group ``" << group_name << "'' created";
+    // several probes of the same component and shape share the group
+    create_path();
 
     std::vector<size_t> dims_init = {1};
     std::vector<size_t> dims_final = {DataSpace::UNLIMITED};
-- 
2.43.0


From 0b9d79f8877ff382b62f29eae01f84f48809903e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:59 +0000
Subject: [PATCH 08/40] fix: round the number of the current time step

Model time is accumulated step by step, so its ratio to the step is an
integer up to a rounding error only: ceil() turned every positive error
into the next step number, skipping some of the scheduled frames and
dumping others twice.
---
 src/msg.cpp           | 2 +-
 src/outController.cpp | 2 +-
 src/outWriter.cpp     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/msg.cpp b/src/msg.cpp
index d833cfa..bf2a003 100644
--- a/src/msg.cpp
+++ b/src/msg.cpp
@@ -49,7 +49,7 @@ namespace msg
                      unsigned int probe_schedule, TimeSim *time)
   {
 #ifndef ENABLE_DEBUG
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     std::string dump_step = std::to_string((int)current_time_step / probe_schedule);
     std::ostringstream time_conv;
     time_conv << time->current;
diff --git a/src/outController.cpp b/src/outController.cpp
index aeaf1de..af9d045 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -338,7 +338,7 @@ void OutController::init_datasets()
     OutEngineHDF5 engine (hdf5_file, prb->path, hdf5_prb_size, offset, true, false);
 #endif // end of ENABLE_HDF5
 
-    int current_time_step = ceil(time->current / time->step);
+    int current_time_step = round(time->current / time->step);
     int is_run = current_time_step % prb->schedule;
 
     if (is_run == 0)
diff --git a/src/outWriter.cpp b/src/outWriter.cpp
index 6dc3912..78b0d9a 100644
--- a/src/outWriter.cpp
+++ b/src/outWriter.cpp
@@ -48,7 +48,7 @@ OutWriter::OutWriter ( HighFive::File* _file, string _path, unsigned short _shap
 
 void OutWriter::operator()()
 {
-  int current_time_step = ceil(time->current / time->step);
+  int current_time_step = round(time->current / time->step);
   int is_run = current_time_step % schedule;
 
   if (is_run == 0)
-- 
2.43.0


From eb740e9045efdfb0cfd6a933e7c4e26e1e52453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:32 +0000
Subject: [PATCH 09/40] fix: attach every cell of the probe to exactly one
 domain

Upper bounds of domains are exclusive, but were compared as inclusive: a
rec, starting or ending at the domain boundary, got an empty writer there
(which reads the first row of an empty vector), and a col, row or dot at the
boundary was written by both of the domains, from the overlay area of one
of them. The same for a col, row and dot outside of the last cell.
---
 src/cfg.cpp           |  5 +++--
 src/outController.cpp | 16 ++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 81695d5..55081da 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -309,13 +309,14 @@ void Cfg::init_probes ()
                    << p_p.dims[0] << "," << p_p.dims[2] << ","
                    << p_p.dims[1] << "," << p_p.dims[3] << "]";
     }
-    else if (p_p.dims[2] > geometry->cell_amount[0])
+    // the end of the rec is exclusive, while other shapes point to the cell itself
+    else if (p_p.dims[2] + (p_p.shape == 2 || p_p.shape == 3) > geometry->cell_amount[0])
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " radius is out of simulation domain: "
                    << p_p.dims[2] << ". Must be less, than "
                    << geometry->cell_amount[0];
     }
-    else if (p_p.dims[3] > geometry->cell_amount[1])
+    else if (p_p.dims[3] + (p_p.shape == 1 || p_p.shape == 3) > geometry->cell_amount[1])
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " longitude is out of simulation domain: "
                    << p_p.dims[3] << ". Must be less, than "
diff --git a/src/outController.cpp b/src/outController.cpp
index af9d045..0dcd32e 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -89,23 +89,23 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
         // check if probe possition intersects the domain
         if (
           ( prb->shape == 0                      // condition for rec
-            && prb_size[0] <= domain_size[2]
-            && prb_size[1] <= domain_size[3]
-            && prb_size[2] >= domain_size[0]
-            && prb_size[3] >= domain_size[1] )
+            && prb_size[0] < domain_size[2]
+            && prb_size[1] < domain_size[3]
+            && prb_size[2] > domain_size[0]
+            && prb_size[3] > domain_size[1] )
           || ( prb->shape == 1                    // condition for column
                && prb_size[3] >= domain_size[1]
-               && prb_size[3] <= domain_size[3]
+               && prb_size[3] < domain_size[3]
             )
           || ( prb->shape == 2                    // condition for row
                && prb_size[2] >= domain_size[0]
-               && prb_size[2] <= domain_size[2]
+               && prb_size[2] < domain_size[2]
             )
           || ( prb->shape == 3                      // condition for dot
                && prb_size[2] >= domain_size[0]
-               && prb_size[2] <= domain_size[2]
+               && prb_size[2] < domain_size[2]
                && prb_size[3] >= domain_size[1]
-               && prb_size[3] <= domain_size[3] )
+               && prb_size[3] < domain_size[3] )
           )
         {
           // calculate effective probe size
-- 
2.43.0


From 132cacf689098f9d33c7e38eddd07f7033339462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:26 +0000
Subject: [PATCH 10/40] fix: overlay corners of neighbor domains

Currents and fields at the corner, where four domains meet, were exchanged
between the two domains at the main diagonal only (and with row and column
indices mixed up, which is out of bounds for non-square domains). Overlay
along r for all of the domains first, then along z, each including overlay
areas of the other direction: it collects all of the four contributions.
---
 include/algo/grid.hpp |  12 ++--
 src/SMB.cpp           | 141 +++++++++++++++++++-----------------------
 2 files changed, 71 insertions(+), 82 deletions(-)

diff --git a/include/algo/grid.hpp b/include/algo/grid.hpp
index 1343cd4..4dae3f8 100644
--- a/include/algo/grid.hpp
+++ b/include/algo/grid.hpp
@@ -100,7 +100,7 @@ public:
   {
     if (x_real_size == rhsgrid.x_real_size)
       for (unsigned int d = 0; d < o_s; ++d)
-        for (unsigned int i = o_s; i < x_real_size - o_s; ++i)
+        for (unsigned int i = 0; i < x_real_size; ++i)
         {
           rhsgrid.grid[i][2*o_s-d-1] += grid[i][y_real_size-1-d];
           grid[i][y_real_size-2*o_s+d] += rhsgrid.grid[i][d];
@@ -118,7 +118,7 @@ public:
   {
     if (y_real_size == rhsgrid.y_real_size)
       for (unsigned int d = 0; d < o_s; ++d)
-        for (unsigned int i = o_s; i < y_real_size - o_s; ++i)
+        for (unsigned int i = 0; i < y_real_size; ++i)
         {
           rhsgrid.grid[2*o_s-d-1][i] += grid[x_real_size-1-d][i];
           grid[x_real_size-2*o_s+d][i] += rhsgrid.grid[d][i];
@@ -138,11 +138,11 @@ public:
       for (unsigned int d = 0; d < o_s; ++d)
         for (unsigned int e = 0; e < o_s; ++e)
         {
-          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][x_real_size-1-e];
-          grid[x_real_size-2*o_s+d][x_real_size-2*o_s+e] += rhsgrid.grid[d][e];
+          rhsgrid.grid[2*o_s-d-1][2*o_s-e-1] += grid[x_real_size-1-d][y_real_size-1-e];
+          grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e] += rhsgrid.grid[d][e];
 
-          rhsgrid.grid[d][e] = grid[y_real_size-2*o_s+d][y_real_size-2*o_s+e];
-          grid[x_real_size-1-d][x_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
+          rhsgrid.grid[d][e] = grid[x_real_size-2*o_s+d][y_real_size-2*o_s+e];
+          grid[x_real_size-1-d][y_real_size-1-e] = rhsgrid.grid[2*o_s-1-d][2*o_s-1-e];
         }
     else
     {
diff --git a/src/SMB.cpp b/src/SMB.cpp
index b3677ba..8404ac4 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -565,35 +565,35 @@ void SMB::particles_runaway_collector ()
 
 void SMB::current_overlay ()
 {
+  // overlay along r first, then along z. Both of the directions include
+  // overlay areas of each other, so that corners meet all of the neighbors
   for (unsigned int idx = 0; idx < 2; ++idx)
-    for (unsigned int idy = 0; idy < 2; ++idy)
-    {
+  {
 #pragma omp parallel for
-      for (unsigned int i = idx; i < r_domains; i+=2)
-        for (unsigned int j = idy; j < z_domains; j+=2)
+    for (unsigned int i = idx; i < r_domains; i+=2)
+      for (unsigned int j = 0; j < z_domains; ++j)
+        if (i < r_domains - 1)
         {
           Domain *sim_domain = domains(i, j);
+          Domain *dst_domain = domains(i + 1, j);
 
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = domains(i+1, j);
-            sim_domain->current->current.overlay_x(dst_domain->current->current);
-          }
+          sim_domain->current->current.overlay_x(dst_domain->current->current);
+        }
+  }
 
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i, j + 1);
-            sim_domain->current->current.overlay_y(dst_domain->current->current);
-          }
+  for (unsigned int idy = 0; idy < 2; ++idy)
+  {
+#pragma omp parallel for
+    for (unsigned int i = 0; i < r_domains; ++i)
+      for (unsigned int j = idy; j < z_domains; j+=2)
+        if (j < z_domains - 1)
+        {
+          Domain *sim_domain = domains(i, j);
+          Domain *dst_domain = domains(i, j + 1);
 
-          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i + 1, j + 1);
-            sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          }
+          sim_domain->current->current.overlay_y(dst_domain->current->current);
         }
-    }
+  }
 
 #ifdef ENABLE_MPI
   ////
@@ -783,44 +783,37 @@ void SMB::current_overlay ()
 
 void SMB::field_h_overlay ()
 {
+  // overlay along r first, then along z. Both of the directions include
+  // overlay areas of each other, so that corners meet all of the neighbors
   for (unsigned int idx = 0; idx < 2; ++idx)
-    for (unsigned int idy = 0; idy < 2; ++idy)
-    {
+  {
 #pragma omp parallel for
-      for (unsigned int i = idx; i < r_domains; i+=2)
-        for (unsigned int j = idy; j < z_domains; j+=2)
+    for (unsigned int i = idx; i < r_domains; i+=2)
+      for (unsigned int j = 0; j < z_domains; ++j)
+        if (i < r_domains - 1)
         {
           Domain *sim_domain = domains(i, j);
+          Domain *dst_domain = domains(i + 1, j);
 
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = domains(i+1, j);
-            sim_domain->maxwell_solver->field_h.overlay_x(
-              dst_domain->maxwell_solver->field_h
-              );
-            sim_domain->maxwell_solver->field_h_at_et.overlay_x(
-              dst_domain->maxwell_solver->field_h_at_et
-              );
-          }
+          sim_domain->maxwell_solver->field_h.overlay_x(dst_domain->maxwell_solver->field_h);
+          sim_domain->maxwell_solver->field_h_at_et.overlay_x(dst_domain->maxwell_solver->field_h_at_et);
+        }
+  }
 
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i, j + 1);
-            sim_domain->maxwell_solver->field_h.overlay_y(
-              dst_domain->maxwell_solver->field_h);
-            sim_domain->maxwell_solver->field_h_at_et.overlay_y(
-              dst_domain->maxwell_solver->field_h_at_et);
-          }
+  for (unsigned int idy = 0; idy < 2; ++idy)
+  {
+#pragma omp parallel for
+    for (unsigned int i = 0; i < r_domains; ++i)
+      for (unsigned int j = idy; j < z_domains; j+=2)
+        if (j < z_domains - 1)
+        {
+          Domain *sim_domain = domains(i, j);
+          Domain *dst_domain = domains(i, j + 1);
 
-          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i + 1, j + 1);
-            sim_domain->maxwell_solver->field_h.overlay_xy(dst_domain->maxwell_solver->field_h);
-            sim_domain->maxwell_solver->field_h_at_et.overlay_xy(dst_domain->maxwell_solver->field_h_at_et);
-          }
+          sim_domain->maxwell_solver->field_h.overlay_y(dst_domain->maxwell_solver->field_h);
+          sim_domain->maxwell_solver->field_h_at_et.overlay_y(dst_domain->maxwell_solver->field_h_at_et);
         }
-    }
+  }
 
 #ifdef ENABLE_MPI
   ////
@@ -1009,39 +1002,35 @@ void SMB::field_h_overlay ()
 
 void SMB::field_e_overlay ()
 {
+  // overlay along r first, then along z. Both of the directions include
+  // overlay areas of each other, so that corners meet all of the neighbors
   for (unsigned int idx = 0; idx < 2; ++idx)
-    for (unsigned int idy = 0; idy < 2; ++idy)
-    {
+  {
 #pragma omp parallel for
-      for (unsigned int i = idx; i < r_domains; i+=2)
-        for (unsigned int j = idy; j < z_domains; j+=2)
+    for (unsigned int i = idx; i < r_domains; i+=2)
+      for (unsigned int j = 0; j < z_domains; ++j)
+        if (i < r_domains - 1)
         {
           Domain *sim_domain = domains(i, j);
+          Domain *dst_domain = domains(i + 1, j);
 
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
-          {
-            Domain *dst_domain = domains(i+1, j);
-            sim_domain->maxwell_solver->field_e.overlay_x(
-              dst_domain->maxwell_solver->field_e
-              );
-          }
+          sim_domain->maxwell_solver->field_e.overlay_x(dst_domain->maxwell_solver->field_e);
+        }
+  }
 
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i, j + 1);
-            sim_domain->maxwell_solver->field_e.overlay_y(
-              dst_domain->maxwell_solver->field_e
-              );
-          }
+  for (unsigned int idy = 0; idy < 2; ++idy)
+  {
+#pragma omp parallel for
+    for (unsigned int i = 0; i < r_domains; ++i)
+      for (unsigned int j = idy; j < z_domains; j+=2)
+        if (j < z_domains - 1)
+        {
+          Domain *sim_domain = domains(i, j);
+          Domain *dst_domain = domains(i, j + 1);
 
-          if (i < geometry->domains_amount[0] - 1 && j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = domains(i + 1, j + 1);
-            sim_domain->maxwell_solver->field_e.overlay_xy(dst_domain->maxwell_solver->field_e);
-          }
+          sim_domain->maxwell_solver->field_e.overlay_y(dst_domain->maxwell_solver->field_e);
         }
-    }
+  }
 
 #ifdef ENABLE_MPI
   ////
-- 
2.43.0


From 0a4ddd35c4c0358b98b0562f1e39501d866de111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:06 +0000
Subject: [PATCH 11/40] fix: don't block on sends between neighbor MPI nodes

Neighbors sent overlays and particles to each other by the blocking
MPI_Send before any of them received anything, which deadlocks as soon as
the MPI implementation does not buffer the message (rendezvous protocol).
Use non-blocking sends and wait for them after receiving.
---
 src/SMB.cpp | 70 ++++++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 56 insertions(+), 14 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 8404ac4..940615c 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -372,15 +372,21 @@ void SMB::particles_runaway_collector ()
   MPI_Type_create_struct(3, blocklengths, offsets, types, &mpi_prtl_type);
   MPI_Type_commit(&mpi_prtl_type);
 
+  // both of the neighbors send first, so don't block on it
+  vector<MPI_Request> requests;
+  MPI_Request request;
+
   if (world_rank < world_size - 1)
   {
-    MPI_Send (
+    MPI_Isend (
       /* data         = */ &prtls_plus,
       /* count        = */ 1,
       /* datatype     = */ MPI_UNSIGNED,
       /* destination  = */ world_rank + 1,
       /* tag          = */ 0,
-      /* communicator = */ MPI_COMM_WORLD);
+      /* communicator = */ MPI_COMM_WORLD,
+      /* request      = */ &request);
+    requests.push_back(request);
 
     LOG_S(MAX) << "Number of particles to be sent from MPI node ``"
                << world_rank
@@ -390,25 +396,29 @@ void SMB::particles_runaway_collector ()
     if (prtls_plus > 0)
       for (unsigned prtl = 0; prtl < prtls_plus; ++prtl)
       {
-        MPI_Send (
+        MPI_Isend (
           /* data         = */ &(*queue_particles_plus[prtl]),
           /* count        = */ 1,
           /* datatype     = */ mpi_prtl_type,
           /* destination  = */ world_rank + 1,
           /* tag          = */ 0,
-          /* communicator = */ MPI_COMM_WORLD);
+          /* communicator = */ MPI_COMM_WORLD,
+          /* request      = */ &request);
+        requests.push_back(request);
       }
   }
 
   if (world_rank > 0)
   {
-    MPI_Send (
+    MPI_Isend (
       /* data         = */ &prtls_minus,
       /* count        = */ 1,
       /* datatype     = */ MPI_UNSIGNED,
       /* destination  = */ world_rank - 1,
       /* tag          = */ 0,
-      /* communicator = */ MPI_COMM_WORLD);
+      /* communicator = */ MPI_COMM_WORLD,
+      /* request      = */ &request);
+    requests.push_back(request);
 
     LOG_S(MAX) << "Number of particles to be sent from MPI node ``"
                << world_rank
@@ -418,13 +428,15 @@ void SMB::particles_runaway_collector ()
     if (prtls_minus > 0)
       for (unsigned prtl = 0; prtl < prtls_minus; ++prtl)
       {
-        MPI_Send (
+        MPI_Isend (
           /* data         = */ &(*queue_particles_minus[prtl]),
           /* count        = */ 1,
           /* datatype     = */ mpi_prtl_type,
           /* destination  = */ world_rank - 1,
           /* tag          = */ 0,
-          /* communicator = */ MPI_COMM_WORLD);
+          /* communicator = */ MPI_COMM_WORLD,
+          /* request      = */ &request);
+        requests.push_back(request);
       }
   }
 
@@ -545,6 +557,9 @@ void SMB::particles_runaway_collector ()
       }
   }
 
+  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+  MPI_Type_free(&mpi_prtl_type);
+
   // send/receive and update domain species, then continue
   MPI_Barrier(MPI_COMM_WORLD);
 
@@ -679,12 +694,17 @@ void SMB::current_overlay ()
     domains_minus_recv.push_back( item_minus_recv );
   }
 
+  // both of the neighbors send first, so don't block on it
+  vector<MPI_Request> requests;
+
   if (world_rank < world_size - 1)
   {
     for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
     {
       // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD);
+      MPI_Request request;
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, &request);
+      requests.push_back(request);
     }
 
     for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
@@ -699,7 +719,9 @@ void SMB::current_overlay ()
     for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
     {
       // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+      MPI_Request request;
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, &request);
+      requests.push_back(request);
     }
 
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
@@ -709,6 +731,8 @@ void SMB::current_overlay ()
     }
   }
 
+  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+
   MPI_Barrier(MPI_COMM_WORLD);
 
   ////////////////////////////////////////////////////////////
@@ -899,12 +923,17 @@ void SMB::field_h_overlay ()
     domains_minus_recv.push_back( item_minus_recv );
   }
 
+  // both of the neighbors send first, so don't block on it
+  vector<MPI_Request> requests;
+
   if (world_rank < world_size - 1)
   {
     for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
     {
       // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD);
+      MPI_Request request;
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, &request);
+      requests.push_back(request);
     }
 
     for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
@@ -919,7 +948,9 @@ void SMB::field_h_overlay ()
     for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
     {
       // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+      MPI_Request request;
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, &request);
+      requests.push_back(request);
     }
 
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
@@ -929,6 +960,8 @@ void SMB::field_h_overlay ()
     }
   }
 
+  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+
   MPI_Barrier(MPI_COMM_WORLD);
 
   ////////////////////////////////////////////////////////////
@@ -1116,12 +1149,17 @@ void SMB::field_e_overlay ()
     domains_minus_recv.push_back( item_minus_recv );
   }
 
+  // both of the neighbors send first, so don't block on it
+  vector<MPI_Request> requests;
+
   if (world_rank < world_size - 1)
   {
     for (auto i = domains_plus.begin(); i != domains_plus.end(); ++i)
     {
       // LOG_S(WARNING) << "1 Sending from " << world_rank << " to " << world_rank + 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD);
+      MPI_Request request;
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank + 1, 0, MPI_COMM_WORLD, &request);
+      requests.push_back(request);
     }
 
     for (auto i = domains_plus_recv.begin(); i != domains_plus_recv.end(); ++i)
@@ -1136,7 +1174,9 @@ void SMB::field_e_overlay ()
     for (auto i = domains_minus.begin(); i != domains_minus.end(); ++i)
     {
       // LOG_S(WARNING) << "3 Sending from " << world_rank << " to " << world_rank - 1;
-      MPI_Send(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD);
+      MPI_Request request;
+      MPI_Isend(MPI_BOTTOM, 1, i->mpi_dtype(), world_rank - 1, 0, MPI_COMM_WORLD, &request);
+      requests.push_back(request);
     }
 
     for (auto i = domains_minus_recv.begin(); i != domains_minus_recv.end(); ++i)
@@ -1146,6 +1186,8 @@ void SMB::field_e_overlay ()
     }
   }
 
+  MPI_Waitall(requests.size(), requests.data(), MPI_STATUSES_IGNORE);
+
   MPI_Barrier(MPI_COMM_WORLD);
 
   ////////////////////////////////////////////////////////////
-- 
2.43.0


From e3318a2070d33f20e5629bcd574e7bbc01998ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:06 +0000
Subject: [PATCH 12/40] fix: remove particles, leaving the r-range, before
 passing them to other MPI node

A particle, that leaves both the outer radius and the z-range of the node,
was sent to the neighbor node, which placed it to the domain that does not
exist (out of bounds).
---
 src/SMB.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 940615c..1447e35 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -257,23 +257,6 @@ void SMB::particles_runaway_collector ()
                     ++r_c;
                     res = true;
                   }
-                  ////
-                  //// check for conditions to send particle to previous/next SMB
-                  ////
-                  // send particle to previous SMB
-#ifdef ENABLE_MPI
-                  else if (z_cell < __geometry->cell_dims[1])
-                  {
-                    queue_particles_minus.push_back(o);
-                    res = true;
-                  }
-                  // send particle to next SMB
-                  else if (z_cell >= __geometry->cell_dims[3])
-                  {
-                    queue_particles_plus.push_back(o);
-                    res = true;
-                  }
-#endif // ENABLE_MPI
                   else if (r_cell >= __geometry->cell_dims[2])
                   {
                     // ``beam_'' at the begining of the name
@@ -294,7 +277,23 @@ void SMB::particles_runaway_collector ()
                     ++r_c;
                     res = true;
                   }
-
+                  ////
+                  //// check for conditions to send particle to previous/next SMB
+                  ////
+                  // send particle to previous SMB
+#ifdef ENABLE_MPI
+                  else if (z_cell < __geometry->cell_dims[1])
+                  {
+                    queue_particles_minus.push_back(o);
+                    res = true;
+                  }
+                  // send particle to next SMB
+                  else if (z_cell >= __geometry->cell_dims[3])
+                  {
+                    queue_particles_plus.push_back(o);
+                    res = true;
+                  }
+#endif // ENABLE_MPI
                   // remove out-of-simulation particles
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
-- 
2.43.0


From a86fe9caa412221b0f92eab8a31be2952ffaacee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:06 +0000
Subject: [PATCH 13/40] fix: synchronize threads moving particles between
 domains

Threads, that process domains i and i+2, push particles to domain i+1
simultaneously, and all of them share counters and queues to the other MPI
nodes: particles were lost or duplicated and vectors corrupted.
---
 src/SMB.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 1447e35..3f79715 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -254,6 +254,7 @@ void SMB::particles_runaway_collector ()
                     LOG_S(ERROR) << "Particle's position is less, than 0. Position is: ["
                                  << P_POS_R((*o)) << ", "
                                  << P_POS_Z((*o)) << "]. Removing";
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -274,6 +275,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -284,12 +286,14 @@ void SMB::particles_runaway_collector ()
 #ifdef ENABLE_MPI
                   else if (z_cell < __geometry->cell_dims[1])
                   {
+#pragma omp critical (runaway_minus)
                     queue_particles_minus.push_back(o);
                     res = true;
                   }
                   // send particle to next SMB
                   else if (z_cell >= __geometry->cell_dims[3])
                   {
+#pragma omp critical (runaway_plus)
                     queue_particles_plus.push_back(o);
                     res = true;
                   }
@@ -311,6 +315,7 @@ void SMB::particles_runaway_collector ()
                                    << P_POS_R((*o)) << ", "
                                    << P_POS_Z((*o)) << "]. Removing";
                     }
+#pragma omp atomic
                     ++r_c;
                     res = true;
                   }
@@ -318,6 +323,7 @@ void SMB::particles_runaway_collector ()
                   // move particles between cells
                   else if (i_dst != i || j_dst != j) // check that destination domain is different, than source
                   {
+#pragma omp atomic
                     ++j_c;
 
                     Domain *dst_domain = __domains(i_dst, j_dst);
@@ -330,6 +336,8 @@ void SMB::particles_runaway_collector ()
                                    << i << "," << j
                                    << "'' to domain ``"
                                    << i_dst << "," << j_dst << "''";
+                        // domains at both sides could push simultaneously
+#pragma omp critical (runaway_jump)
                         (**pd).particles.push_back(o);
                       }
 
-- 
2.43.0


From 534ca9efd267e9bd545445f52f0bbe7c7e105339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:11 +0000
Subject: [PATCH 14/40] fix: exchange all of the magnetic field grids between
 MPI nodes

Only the magnetic field at the integer time step was exchanged, while
particles near the node boundary are pushed by the field_h grid, whose overlay
areas were left zeroed.
---
 src/SMB.cpp | 130 +++++++++++++++++++++++++++-------------------------
 1 file changed, 68 insertions(+), 62 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index 3f79715..d4b276b 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -847,6 +847,11 @@ void SMB::field_h_overlay ()
   }
 
 #ifdef ENABLE_MPI
+  // both of the magnetic field grids should be exchanged
+  Grid3D<double> MaxwellSolverYee::*fields[] = { &MaxwellSolverYee::field_h,
+                                                 &MaxwellSolverYee::field_h_at_et };
+  for (auto field : fields)
+  {
   ////
   //// send particles to other domain
   ////
@@ -861,11 +866,11 @@ void SMB::field_h_overlay ()
     // send to +1 rank
     Domain *sim_domain_plus = domains(i, z_domains - 1);
 
-    int domain_r_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].x_size;
-    int domain_r_real_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].x_real_size;
-    int domain_o_s = sim_domain_plus->maxwell_solver->field_h_at_et[0].o_s;
-    int domain_z_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].y_size;
-    int domain_z_real_size = sim_domain_plus->maxwell_solver->field_h_at_et[0].y_real_size;
+    int domain_r_size = (sim_domain_plus->maxwell_solver->*field)[0].x_size;
+    int domain_r_real_size = (sim_domain_plus->maxwell_solver->*field)[0].x_real_size;
+    int domain_o_s = (sim_domain_plus->maxwell_solver->*field)[0].o_s;
+    int domain_z_size = (sim_domain_plus->maxwell_solver->*field)[0].y_size;
+    int domain_z_real_size = (sim_domain_plus->maxwell_solver->*field)[0].y_real_size;
 
     MPICommOverlay item_plus (domain_r_real_size, i, 0);
     MPICommOverlay item_plus_recv (domain_r_real_size, i, 0);
@@ -876,21 +881,21 @@ void SMB::field_h_overlay ()
       int j_s = j - domain_o_s;
       int d_r_s = domain_z_size + domain_o_s;
 
-      item_plus.col_0_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 4);
-      item_plus.col_0_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 4);
-      item_plus.col_0_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 4);
+      item_plus.col_0_0[j] = (sim_domain_plus->maxwell_solver->*field)[0](j_s, d_r_s - 4);
+      item_plus.col_0_1[j] = (sim_domain_plus->maxwell_solver->*field)[1](j_s, d_r_s - 4);
+      item_plus.col_0_2[j] = (sim_domain_plus->maxwell_solver->*field)[2](j_s, d_r_s - 4);
 
-      item_plus.col_1_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 3);
-      item_plus.col_1_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 3);
-      item_plus.col_1_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 3);
+      item_plus.col_1_0[j] = (sim_domain_plus->maxwell_solver->*field)[0](j_s, d_r_s - 3);
+      item_plus.col_1_1[j] = (sim_domain_plus->maxwell_solver->*field)[1](j_s, d_r_s - 3);
+      item_plus.col_1_2[j] = (sim_domain_plus->maxwell_solver->*field)[2](j_s, d_r_s - 3);
 
-      item_plus.col_2_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 2);
-      item_plus.col_2_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 2);
-      item_plus.col_2_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 2);
+      item_plus.col_2_0[j] = (sim_domain_plus->maxwell_solver->*field)[0](j_s, d_r_s - 2);
+      item_plus.col_2_1[j] = (sim_domain_plus->maxwell_solver->*field)[1](j_s, d_r_s - 2);
+      item_plus.col_2_2[j] = (sim_domain_plus->maxwell_solver->*field)[2](j_s, d_r_s - 2);
 
-      item_plus.col_3_0[j] = sim_domain_plus->maxwell_solver->field_h_at_et[0](j_s, d_r_s - 1);
-      item_plus.col_3_1[j] = sim_domain_plus->maxwell_solver->field_h_at_et[1](j_s, d_r_s - 1);
-      item_plus.col_3_2[j] = sim_domain_plus->maxwell_solver->field_h_at_et[2](j_s, d_r_s - 1);
+      item_plus.col_3_0[j] = (sim_domain_plus->maxwell_solver->*field)[0](j_s, d_r_s - 1);
+      item_plus.col_3_1[j] = (sim_domain_plus->maxwell_solver->*field)[1](j_s, d_r_s - 1);
+      item_plus.col_3_2[j] = (sim_domain_plus->maxwell_solver->*field)[2](j_s, d_r_s - 1);
     }
 
     domains_plus.push_back( item_plus );
@@ -899,8 +904,8 @@ void SMB::field_h_overlay ()
     // send to -1 rank
     Domain *sim_domain_minus = domains(i, 0);
 
-    domain_r_size = sim_domain_minus->maxwell_solver->field_h_at_et[0].x_size;
-    domain_o_s = sim_domain_minus->maxwell_solver->field_h_at_et[0].o_s;
+    domain_r_size = (sim_domain_minus->maxwell_solver->*field)[0].x_size;
+    domain_o_s = (sim_domain_minus->maxwell_solver->*field)[0].o_s;
 
     MPICommOverlay item_minus (domain_r_size + 2 * domain_o_s, i, 0);
     MPICommOverlay item_minus_recv (domain_r_size + 2 * domain_o_s, i, 0);
@@ -909,21 +914,21 @@ void SMB::field_h_overlay ()
     {
       int j_s = j + domain_o_s;
 
-      item_minus.col_0_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 0 - domain_o_s);
-      item_minus.col_0_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 0 - domain_o_s);
-      item_minus.col_0_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 0 - domain_o_s);
+      item_minus.col_0_0[j_s] = (sim_domain_minus->maxwell_solver->*field)[0](j, 0 - domain_o_s);
+      item_minus.col_0_1[j_s] = (sim_domain_minus->maxwell_solver->*field)[1](j, 0 - domain_o_s);
+      item_minus.col_0_2[j_s] = (sim_domain_minus->maxwell_solver->*field)[2](j, 0 - domain_o_s);
 
-      item_minus.col_1_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 1 - domain_o_s);
-      item_minus.col_1_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 1 - domain_o_s);
-      item_minus.col_1_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 1 - domain_o_s);
+      item_minus.col_1_0[j_s] = (sim_domain_minus->maxwell_solver->*field)[0](j, 1 - domain_o_s);
+      item_minus.col_1_1[j_s] = (sim_domain_minus->maxwell_solver->*field)[1](j, 1 - domain_o_s);
+      item_minus.col_1_2[j_s] = (sim_domain_minus->maxwell_solver->*field)[2](j, 1 - domain_o_s);
 
-      item_minus.col_2_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 2 - domain_o_s);
-      item_minus.col_2_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 2 - domain_o_s);
-      item_minus.col_2_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 2 - domain_o_s);
+      item_minus.col_2_0[j_s] = (sim_domain_minus->maxwell_solver->*field)[0](j, 2 - domain_o_s);
+      item_minus.col_2_1[j_s] = (sim_domain_minus->maxwell_solver->*field)[1](j, 2 - domain_o_s);
+      item_minus.col_2_2[j_s] = (sim_domain_minus->maxwell_solver->*field)[2](j, 2 - domain_o_s);
 
-      item_minus.col_3_0[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[0](j, 3 - domain_o_s);
-      item_minus.col_3_1[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[1](j, 3 - domain_o_s);
-      item_minus.col_3_2[j_s] = sim_domain_minus->maxwell_solver->field_h_at_et[2](j, 3 - domain_o_s);
+      item_minus.col_3_0[j_s] = (sim_domain_minus->maxwell_solver->*field)[0](j, 3 - domain_o_s);
+      item_minus.col_3_1[j_s] = (sim_domain_minus->maxwell_solver->*field)[1](j, 3 - domain_o_s);
+      item_minus.col_3_2[j_s] = (sim_domain_minus->maxwell_solver->*field)[2](j, 3 - domain_o_s);
     }
 
     domains_minus.push_back( item_minus );
@@ -978,29 +983,29 @@ void SMB::field_h_overlay ()
     {
       Domain *dst_domain_minus = domains(i->dst_domain[0], 0);
 
-      int domain_r_size = dst_domain_minus->maxwell_solver->field_h_at_et[0].x_size;
-      int domain_o_s = dst_domain_minus->maxwell_solver->field_h_at_et[0].o_s;
-      int domain_z_size = dst_domain_minus->maxwell_solver->field_h_at_et[0].y_size;
+      int domain_r_size = (dst_domain_minus->maxwell_solver->*field)[0].x_size;
+      int domain_o_s = (dst_domain_minus->maxwell_solver->*field)[0].o_s;
+      int domain_z_size = (dst_domain_minus->maxwell_solver->*field)[0].y_size;
 
       for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
       {
         int j_s = j + domain_o_s;
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 0 - domain_o_s, i->col_0_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 0 - domain_o_s, i->col_0_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 0 - domain_o_s, i->col_0_2[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[0].inc(j, 0 - domain_o_s, i->col_0_0[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[1].inc(j, 0 - domain_o_s, i->col_0_1[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[2].inc(j, 0 - domain_o_s, i->col_0_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 1 - domain_o_s, i->col_1_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 1 - domain_o_s, i->col_1_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 1 - domain_o_s, i->col_1_2[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[0].inc(j, 1 - domain_o_s, i->col_1_0[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[1].inc(j, 1 - domain_o_s, i->col_1_1[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[2].inc(j, 1 - domain_o_s, i->col_1_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 2 - domain_o_s, i->col_2_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 2 - domain_o_s, i->col_2_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 2 - domain_o_s, i->col_2_2[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[0].inc(j, 2 - domain_o_s, i->col_2_0[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[1].inc(j, 2 - domain_o_s, i->col_2_1[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[2].inc(j, 2 - domain_o_s, i->col_2_2[j_s]);
 
-        dst_domain_minus->maxwell_solver->field_h_at_et[0].inc(j, 3 - domain_o_s, i->col_3_0[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[1].inc(j, 3 - domain_o_s, i->col_3_1[j_s]);
-        dst_domain_minus->maxwell_solver->field_h_at_et[2].inc(j, 3 - domain_o_s, i->col_3_2[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[0].inc(j, 3 - domain_o_s, i->col_3_0[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[1].inc(j, 3 - domain_o_s, i->col_3_1[j_s]);
+        (dst_domain_minus->maxwell_solver->*field)[2].inc(j, 3 - domain_o_s, i->col_3_2[j_s]);
       }
     }
 
@@ -1010,33 +1015,34 @@ void SMB::field_h_overlay ()
 
       Domain *dst_domain_plus = domains(i->dst_domain[0], z_domains - 1);
 
-      int domain_r_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].x_size;
-      int domain_o_s = dst_domain_plus->maxwell_solver->field_h_at_et[0].o_s;
-      int domain_z_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].y_size;
-      int domain_z_real_size = dst_domain_plus->maxwell_solver->field_h_at_et[0].y_real_size;
+      int domain_r_size = (dst_domain_plus->maxwell_solver->*field)[0].x_size;
+      int domain_o_s = (dst_domain_plus->maxwell_solver->*field)[0].o_s;
+      int domain_z_size = (dst_domain_plus->maxwell_solver->*field)[0].y_size;
+      int domain_z_real_size = (dst_domain_plus->maxwell_solver->*field)[0].y_real_size;
 
       for (int j = -domain_o_s; j < domain_r_size + domain_o_s; ++j)
       {
         int j_s = j + domain_o_s;
         int d_r_s = domain_z_size + domain_o_s;
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 1, i->col_3_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 1, i->col_3_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 1, i->col_3_2[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[0].inc(j, d_r_s - 1, i->col_3_0[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[1].inc(j, d_r_s - 1, i->col_3_1[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[2].inc(j, d_r_s - 1, i->col_3_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 2, i->col_2_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 2, i->col_2_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 2, i->col_2_2[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[0].inc(j, d_r_s - 2, i->col_2_0[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[1].inc(j, d_r_s - 2, i->col_2_1[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[2].inc(j, d_r_s - 2, i->col_2_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 3, i->col_1_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 3, i->col_1_2[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[0].inc(j, d_r_s - 3, i->col_1_0[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[1].inc(j, d_r_s - 3, i->col_1_1[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[2].inc(j, d_r_s - 3, i->col_1_2[j_s]);
 
-        dst_domain_plus->maxwell_solver->field_h_at_et[0].inc(j, d_r_s - 4, i->col_0_0[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[1].inc(j, d_r_s - 4, i->col_0_1[j_s]);
-        dst_domain_plus->maxwell_solver->field_h_at_et[2].inc(j, d_r_s - 4, i->col_0_2[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[0].inc(j, d_r_s - 4, i->col_0_0[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[1].inc(j, d_r_s - 4, i->col_0_1[j_s]);
+        (dst_domain_plus->maxwell_solver->*field)[2].inc(j, d_r_s - 4, i->col_0_2[j_s]);
       }
     }
+  }
 #endif // ENABLE_MPI
 }
 
-- 
2.43.0


From 096999fe1f9c7663d4f1674542a093d4ec3f6335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 15/40] fix: round the global amount of cells

---
 include/geometry.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/geometry.hpp b/include/geometry.hpp
index 64b09ab..20ea798 100644
--- a/include/geometry.hpp
+++ b/include/geometry.hpp
@@ -18,6 +18,7 @@
 #ifndef _GEOMETRY_HPP_
 #define _GEOMETRY_HPP_
 
+#include <cmath>
 #include <vector>
 
 #include "defines.hpp"
@@ -68,7 +69,7 @@ public:
       cell_size.push_back(size[i] / cell_amount[i]);
 
     for (size_t i = 0; i < _global_size.size(); ++i)
-      global_cell_amount.push_back(global_size[i] / cell_size[i]);
+      global_cell_amount.push_back(round(global_size[i] / cell_size[i]));
 
     walls = _walls;
     pml_size = _pml_size;
-- 
2.43.0


From 16026104b896083dd2174faf6167f7af0be7c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:43:10 +0000
Subject: [PATCH 16/40] fix: size row and col datasets by the whole simulation
 area, not by the MPI node

---
 src/outController.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/outController.cpp b/src/outController.cpp
index 0dcd32e..0ded887 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -61,10 +61,10 @@ OutController::OutController ( Geometry *_geometry, TimeSim *_time,
       hdf5_prb_size = {prb->dims[2] - prb->dims[0], prb->dims[3] - prb->dims[1]};
       break;
     case 1:
-      hdf5_prb_size = {geometry->cell_amount[0]};
+      hdf5_prb_size = {geometry->global_cell_amount[0]};
       break;
     case 2:
-      hdf5_prb_size = {geometry->cell_amount[1]};
+      hdf5_prb_size = {geometry->global_cell_amount[1]};
       break;
     case 3:
       hdf5_prb_size = {1};
@@ -326,10 +326,10 @@ void OutController::init_datasets()
       hdf5_prb_size = {prb->dims[2] - prb->dims[0], prb->dims[3] - prb->dims[1]};
       break;
     case 1:
-      hdf5_prb_size = {geometry->cell_amount[0]};
+      hdf5_prb_size = {geometry->global_cell_amount[0]};
       break;
     case 2:
-      hdf5_prb_size = {geometry->cell_amount[1]};
+      hdf5_prb_size = {geometry->global_cell_amount[1]};
       break;
     case 3:
       hdf5_prb_size = {1};
@@ -360,11 +360,11 @@ void OutController::init_datasets()
         break;
       case 1:
         shape_name = "col";
-        probe_size.push_back(geometry->cell_amount[0]);
+        probe_size.push_back(geometry->global_cell_amount[0]);
         break;
       case 2:
         shape_name = "row";
-        probe_size.push_back(geometry->cell_amount[1]);
+        probe_size.push_back(geometry->global_cell_amount[1]);
         break;
       case 3:
         shape_name = "dot";
-- 
2.43.0


From 1b21325f1b1b848e8955f0d34e7ff16a38929580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:18 +0000
Subject: [PATCH 17/40] fix: weigh absolute momentum before temperature
 calculation

---
 src/specieP.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 1999711..eb16d7d 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -683,7 +683,8 @@ void SpecieP::calc_temperature()
 
   // calculate density initially
   calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_momentum_w();
+  calc_momentum_abs_w();
 
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
-- 
2.43.0


From 4763fbefc1c0990378f4b30fd49f9e456a16dfe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:31 +0000
Subject: [PATCH 18/40] fix: overlay weighed moments of the specie before
 normalization and output

Averages at the domain borders were computed of the part of particles, energy
and momentum was not overlaid along z, nothing was overlaid between MPI nodes
and density was replaced by not overlaid one if other probe of the same specie
follows.
---
 include/SMB.hpp       |   1 +
 include/specieP.hpp   |   7 +++
 src/SMB.cpp           |  76 +++++++++++++++++++++++++
 src/outController.cpp | 128 +++++++++---------------------------------
 src/specieP.cpp       |  35 ++++++++----
 5 files changed, 133 insertions(+), 114 deletions(-)

diff --git a/include/SMB.hpp b/include/SMB.hpp
index 64bce63..0efb143 100644
--- a/include/SMB.hpp
+++ b/include/SMB.hpp
@@ -201,6 +201,7 @@ public:
   void current_overlay ();
   void field_h_overlay ();
   void field_e_overlay ();
+  void moments_overlay (std::string specie);
 
   // public:
   void solve_maxvell();
diff --git a/include/specieP.hpp b/include/specieP.hpp
index 8fe1ec0..e194fb1 100644
--- a/include/specieP.hpp
+++ b/include/specieP.hpp
@@ -238,6 +238,13 @@ public:
   void calc_energy ();
   void calc_momentum ();
 
+  // values above, separated to weighing of the particles and
+  // to normalization of the weighed (and, maybe, overlaid) moments
+  void calc_moments ();
+  void normalize_temperature ();
+  void normalize_energy ();
+  void normalize_momentum ();
+
 protected:
   void rectangular_random_placement (unsigned int int_cell_number,
                                      unsigned int ext_cell_number,
diff --git a/src/SMB.cpp b/src/SMB.cpp
index d4b276b..f8dcb88 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -1272,6 +1272,82 @@ void SMB::field_e_overlay ()
 #endif // ENABLE_MPI
 }
 
+void SMB::moments_overlay (std::string specie)
+{
+  // density, absolute momentum and momentum components
+  // of the specie with given name
+  auto moments = [&specie] (Domain *domain)
+  {
+    vector<Grid<double> *> res;
+    for (auto ps = domain->species_p.begin(); ps != domain->species_p.end(); ++ps)
+      if (specie.compare((**ps).name) == 0)
+        res = { &((**ps).density_map), &((**ps).momentum_abs_map_w),
+                &((**ps).momentum_map_w[0]),
+                &((**ps).momentum_map_w[1]),
+                &((**ps).momentum_map_w[2]) };
+    return res;
+  };
+
+  // overlay along r first, then along z. Both of the directions include
+  // overlay areas of each other, so that corners meet all of the neighbors
+  for (unsigned int i = 0; i + 1 < r_domains; ++i)
+    for (unsigned int j = 0; j < z_domains; ++j)
+    {
+      vector<Grid<double> *> src = moments(domains(i, j));
+      vector<Grid<double> *> dst = moments(domains(i + 1, j));
+      for (unsigned int m = 0; m < src.size(); ++m)
+        src[m]->overlay_x(*dst[m]);
+    }
+
+  for (unsigned int i = 0; i < r_domains; ++i)
+    for (unsigned int j = 0; j + 1 < z_domains; ++j)
+    {
+      vector<Grid<double> *> src = moments(domains(i, j));
+      vector<Grid<double> *> dst = moments(domains(i, j + 1));
+      for (unsigned int m = 0; m < src.size(); ++m)
+        src[m]->overlay_y(*dst[m]);
+    }
+
+#ifdef ENABLE_MPI
+  // sum columns, common with neighbor MPI nodes
+  auto columns = [this, &moments] (unsigned int z_domain, bool is_end, const vector<double> *add)
+  {
+    vector<double> res;
+    size_t pos = 0;
+    for (unsigned int i = 0; i < r_domains; ++i)
+      for (Grid<double> *m : moments(domains(i, z_domain)))
+        for (unsigned int d = 0; d < 2 * m->o_s; ++d)
+          for (unsigned int r = 0; r < m->x_real_size; ++r)
+          {
+            double &val = m->get_grid()[r][is_end ? m->y_real_size - 2 * m->o_s + d : d];
+            if (add)
+              val += (*add)[pos++];
+            res.push_back(val);
+          }
+    return res;
+  };
+
+  vector<double> plus = columns(z_domains - 1, true, nullptr);
+  vector<double> minus = columns(0, false, nullptr);
+  vector<double> plus_recv (plus.size(), 0);
+  vector<double> minus_recv (minus.size(), 0);
+  int rank_plus = world_rank < world_size - 1 ? world_rank + 1 : MPI_PROC_NULL;
+  int rank_minus = world_rank > 0 ? world_rank - 1 : MPI_PROC_NULL;
+
+  MPI_Sendrecv ( plus.data(), plus.size(), MPI_DOUBLE, rank_plus, 0,
+                 minus_recv.data(), minus_recv.size(), MPI_DOUBLE, rank_minus, 0,
+                 MPI_COMM_WORLD, MPI_STATUS_IGNORE );
+  MPI_Sendrecv ( minus.data(), minus.size(), MPI_DOUBLE, rank_minus, 0,
+                 plus_recv.data(), plus_recv.size(), MPI_DOUBLE, rank_plus, 0,
+                 MPI_COMM_WORLD, MPI_STATUS_IGNORE );
+
+  if (rank_plus != MPI_PROC_NULL)
+    columns(z_domains - 1, true, &plus_recv);
+  if (rank_minus != MPI_PROC_NULL)
+    columns(0, false, &minus_recv);
+#endif // ENABLE_MPI
+}
+
 void SMB::solve_maxvell()
 {
 #pragma omp parallel for collapse(2)
diff --git a/src/outController.cpp b/src/outController.cpp
index 0ded887..a3565fa 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -375,120 +375,42 @@ void OutController::init_datasets()
       engine.extend_dataset(slices);
 
       ////
-      //// calculate and overlay temperatures and densities before dump
+      //// calculate temperatures, densities etc. before dump
       ////
-      // calculate temperature and/or density before dump
-      for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
-        for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
-        {
-          Domain *sim_domain = smb->domains(r, z);
-          SpecieP *speciep;
-          bool specie_exists = false;
-
-          for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
-            if (prb->specie.compare((**ps).name) == 0)
-            {
-              speciep = (*ps);
-              specie_exists = true;
-            }
-
-          if (!specie_exists)
-            continue; // skip if there is no specie for probe
-
-          if (prb->component.compare("density") == 0)
-            speciep->calc_density();
-          else if (prb->component.compare("temperature") == 0)
-            speciep->calc_temperature();
-          else if (prb->component.compare("energy") == 0)
-            speciep->calc_energy();
-          else if (prb->component.compare("momentum/r") == 0
-                   || prb->component.compare("momentum/phi") == 0
-                   || prb->component.compare("momentum/z") == 0)
-            speciep->calc_momentum();
-        }
-
-      // overlay domains before dump
-      for (unsigned int i=0; i < geometry->domains_amount[0]; i++)
-        for (unsigned int j = 0; j < geometry->domains_amount[1]; j++)
-        {
-          Domain *sim_domain = smb->domains(i, j);
-          SpecieP *speciep;
-          bool specie_exists = false;
-
-          for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
-            if (prb->specie.compare((**ps).name) == 0)
-            {
-              speciep = (*ps);
-              specie_exists = true;
-            }
-
-          if (!specie_exists)
-            continue; // skip if there is no specie for probe
+      if (! prb->specie.empty())
+      {
+        vector<SpecieP *> species_p;
 
-          // update grid
-          if (i < geometry->domains_amount[0] - 1)
+        // weigh particles in every domain
+        for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+          for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
           {
-            Domain *dst_domain = smb->domains(i+1, j);
-            SpecieP *speciep_dst;
-            bool specie_exists = false;
+            Domain *sim_domain = smb->domains(r, z);
 
-            for (auto ps = dst_domain->species_p.begin(); ps != dst_domain->species_p.end(); ++ps)
+            for (auto ps = sim_domain->species_p.begin(); ps != sim_domain->species_p.end(); ++ps)
               if (prb->specie.compare((**ps).name) == 0)
               {
-                speciep_dst = (*ps);
-                specie_exists = true;
+                (**ps).calc_moments();
+                species_p.push_back(*ps);
               }
-            if (!specie_exists)
-              LOG_S(FATAL) << "There is no particles specie ``"
-                           << prb->specie
-                           << "'' in destination domain, while overlaying for probe dump. Exiting";
-
-            if (prb->component.compare("density") == 0)
-              speciep->density_map.overlay_x(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
-              speciep->temperature_map.overlay_x(speciep_dst->temperature_map);
-            else if (prb->component.compare("energy") == 0)
-              speciep->energy_map.overlay_x(speciep_dst->energy_map);
-            else if (prb->component.compare("momentum/r") == 0
-                     || prb->component.compare("momentum/phi") == 0
-                     || prb->component.compare("momentum/z") == 0)
-            {
-              speciep->momentum_map[0].overlay_x(speciep_dst->momentum_map[0]);
-              speciep->momentum_map[1].overlay_x(speciep_dst->momentum_map[1]);
-              speciep->momentum_map[2].overlay_x(speciep_dst->momentum_map[2]);
-            }
           }
 
-          if (j < geometry->domains_amount[1] - 1)
-          {
-            Domain *dst_domain = smb->domains(i, j + 1);
-            SpecieP *speciep_dst;
-            bool specie_exists = false;
+        // overlay domains before normalization, because averages
+        // at the border depend on particles of both of the sides
+        if (! species_p.empty())
+          smb->moments_overlay(prb->specie);
 
-            for (auto ps = dst_domain->species_p.begin(); ps != dst_domain->species_p.end(); ++ps)
-              if (prb->specie.compare((**ps).name) == 0)
-              {
-                speciep_dst = (*ps);
-                specie_exists = true;
-              }
-
-            if (!specie_exists)
-              LOG_S(FATAL) << "There is no particles specie ``"
-                           << prb->specie
-                           << "'' in destination domain, while overlaying for probe dump. Exiting";
-
-            if (prb->component.compare("density") == 0)
-              speciep->density_map.overlay_y(speciep_dst->density_map);
-            else if (prb->component.compare("temperature") == 0)
-              speciep->temperature_map.overlay_y(speciep_dst->temperature_map);
-          }
+        for (auto ps = species_p.begin(); ps != species_p.end(); ++ps)
+          if (prb->component.compare("temperature") == 0)
+            (**ps).normalize_temperature();
+          else if (prb->component.compare("energy") == 0)
+            (**ps).normalize_energy();
+          else if (prb->component.compare("momentum/r") == 0
+                   || prb->component.compare("momentum/phi") == 0
+                   || prb->component.compare("momentum/z") == 0)
+            (**ps).normalize_momentum();
+      }
 
-          // if (i < geometry_global->domains_amount[0] - 1 && j < geometry_global->domains_amount[1] - 1)
-          // {
-          //   Domain *dst_domain = smb->domains(i + 1, j + 1);
-          //   sim_domain->current->current.overlay_xy(dst_domain->current->current);
-          // }
-        }
       if (print_progress_table)
         msg::print_values (prb->path, shape_name, prb->schedule, time);
     }
diff --git a/src/specieP.cpp b/src/specieP.cpp
index eb16d7d..7d364aa 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -675,17 +675,25 @@ void SpecieP::calc_density()
                                  P_WEIGHT((**i)));
 }
 
+void SpecieP::calc_moments()
+{
+  calc_density();
+  calc_momentum_w();
+  calc_momentum_abs_w();
+}
+
 void SpecieP::calc_temperature()
+{
+  calc_moments();
+  normalize_temperature();
+}
+
+void SpecieP::normalize_temperature()
 {
   // clear grid values
   temperature_map = 0;
   temperature_map.overlay_set(0);
 
-  // calculate density initially
-  calc_density();
-  calc_momentum_w();
-  calc_momentum_abs_w();
-
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
     {
@@ -788,15 +796,17 @@ void SpecieP::calc_momentum_w()
 }
 
 void SpecieP::calc_energy()
+{
+  calc_moments();
+  normalize_energy();
+}
+
+void SpecieP::normalize_energy()
 {
   // clear grid values
   energy_map = 0;
   energy_map.overlay_set(0);
 
-  // calculate density initially
-  calc_density();
-  calc_momentum_abs_w();
-
   for (int r = 0; r < geometry->cell_amount[0]; r++)
     for (int z = 0; z < geometry->cell_amount[1]; z++)
     {
@@ -823,9 +833,12 @@ void SpecieP::calc_energy()
 
 void SpecieP::calc_momentum ()
 {
-  calc_density();
-  calc_momentum_w(); // calculates absolute momentum values also
+  calc_moments();
+  normalize_momentum();
+}
 
+void SpecieP::normalize_momentum ()
+{
   momentum_map = 0;
   momentum_map.overlay_set(0);
 
-- 
2.43.0


From 2e00f3c5cc7b226ead80e01fc42468c7a98bb8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:46:22 +0000
Subject: [PATCH 19/40] fix: keep azimuthal current in overlay areas while
 distributing the rest of components

---
 src/current/currentVB.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 3c248b9..4e4d01d 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -174,8 +174,6 @@ void CurrentVB::simple_current_distribution(double radius_new,
 
 void CurrentVB::rz_current_distribution()
 {
-  current.overlay_set(0);
-
   double dr = geometry->cell_size[0];
   double dz = geometry->cell_size[1];
 
-- 
2.43.0


From 4a01b28c9caec4b85f869e08209f91615ebf8beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:07 +0000
Subject: [PATCH 20/40] fix: pause at the end of the time step and continue
 with reopened data file

The signal handler closed the file in the middle of any operation with it, the
file was not reopened, because of exclusive mode, and writers kept pointers to
the closed one.
---
 include/outController.hpp |   4 ++
 include/outWriter.hpp     |   6 +++
 src/PiCoPiC.cpp           | 104 +++++++++++++++++++++-----------------
 src/outController.cpp     |  15 ++++++
 4 files changed, 84 insertions(+), 45 deletions(-)

diff --git a/include/outController.hpp b/include/outController.hpp
index f00dd41..8a3679d 100644
--- a/include/outController.hpp
+++ b/include/outController.hpp
@@ -62,6 +62,10 @@ public:
 #endif
   ~OutController() {};
 
+#ifdef ENABLE_HDF5
+  void set_file(HighFive::File *_file); // use other (reopened) file for all of the writers
+#endif // ENABLE_HDF5
+
   void operator()(); // launch writers on all domains of all SMBs
 
 private:
diff --git a/include/outWriter.hpp b/include/outWriter.hpp
index 401e7fa..eb024ba 100644
--- a/include/outWriter.hpp
+++ b/include/outWriter.hpp
@@ -61,6 +61,12 @@ public:
 
 #ifdef ENABLE_HDF5
   HighFive::File *hdf5_file;
+
+  void set_file(HighFive::File *_file)
+  {
+    hdf5_file = _file;
+    engine.data_file = _file;
+  };
 #endif
 };
 
diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 9e77118..f3abec4 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -62,6 +62,23 @@ string hdf5_filepath;
 // using namespace HighFive;
 
 HighFive::File *file;
+
+void close_file()
+{
+  HighFive::File *closing_file = file;
+  file = NULL;
+  delete closing_file;
+}
+
+bool is_requested ( const std::atomic<bool> &flag )
+{
+  int res = flag;
+#ifdef ENABLE_MPI
+  // all of the MPI nodes should react to the signal simultaneously
+  MPI_Allreduce(MPI_IN_PLACE, &res, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
+#endif // ENABLE_MPI
+  return res;
+}
 #endif // ENABLE_HDF5
 
 void signal_handler( int signum )
@@ -69,17 +86,12 @@ void signal_handler( int signum )
 #ifdef ENABLE_HDF5
   if (signum == SIGUSR1 && !lock_)
   {
-    LOG_S(INFO) << "Pause calculation";
-    LOG_S(INFO) << "Unlocking data file...";
-    delete file;
+    // data file is unlocked at the end of the time step, because
+    // signal can interrupt any operation with it
     lock_.store(true, std::memory_order_relaxed);
-    LOG_S(INFO) << "Unlocked";
-    cout << "Waiting for ``USR2'' OS signal to continue" << flush;
   }
   else if (signum == SIGUSR2 && lock_) // reopen
   {
-    cout << endl;
-    LOG_S(INFO) << "Continue calculation";
     recreate_writers_.store(true, std::memory_order_relaxed);
   }
 #endif // ENABLE_HDF5
@@ -97,7 +109,7 @@ void signal_handler( int signum )
        || signum == SIGSEGV )
   {
 #ifdef ENABLE_HDF5
-    delete file;
+    close_file();
 #endif // ENABLE_HDF5
 
     const char * sigstr = strsignal(signum);
@@ -366,47 +378,49 @@ int main(int argc, char **argv)
 //// check if the simulation pause/unpause requested
       // (signals USR1 for pause and USR2 for unpause
 #ifdef ENABLE_HDF5
-      while (lock_)
+      if (is_requested(lock_))
       {
-        if (recreate_writers_)
+        lock_.store(true, std::memory_order_relaxed);
+        LOG_S(INFO) << "Pause calculation";
+        LOG_S(INFO) << "Unlocking data file...";
+        close_file();
+        LOG_S(INFO) << "Unlocked";
+        cout << "Waiting for ``USR2'' OS signal to continue" << flush;
+
+        while (! is_requested(recreate_writers_))
         {
-          // reopen HDF file initially
-          try
-          {
-            LOG_S(INFO) << "Locking data file...";
-            file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite | HighFive::File::Excl);
-            LOG_S(INFO) << "Locked";
-          }
-          catch (const HighFive::Exception&)
-          {
-            LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
-          }
-
-          // recreate all of the writers
-          // data_writers.clear();
-
-          // for (auto i = cfg.probes.begin(); i != cfg.probes.end(); ++i)
-          // {
-          //   int probe_size[4] = {i->dims[0], i->dims[1], i->dims[2], i->dims[3]};
-
-          //   DataWriter writer (cfg.output_data->data_root, i->component,
-          //                      i->specie, i->shape, probe_size, i->schedule,
-          //                      cfg.output_data->compress, cfg.output_data->compress_level,
-          //                      geometry_global, sim_time_clock, domains, cfg.cfg2str());
-
-          //   writer.hdf5_file = file; // pass pointer to opened HDF5 file to outEngineHDF5's object
-          //   writer.hdf5_init(cfg.cfg2str());
-
-          //   data_writers.push_back(writer);
-          // }
-          lock_.store(false, std::memory_order_relaxed);
-          recreate_writers_.store(false, std::memory_order_relaxed);
+          cout << "." << flush;
+          sleep(1);
         }
-        else
+
+        cout << endl;
+        LOG_S(INFO) << "Continue calculation";
+
+        // reopen HDF file
+        try
         {
-          cout << "." << flush;
+          LOG_S(INFO) << "Locking data file...";
+#ifdef ENABLE_MPI
+          file = new HighFive::File (
+            hdf5_filepath.c_str(),
+            HighFive::File::ReadWrite,
+            HighFive::MPIOFileDriver(COMM_WORLD, MPI_INFO_NULL)
+            );
+#else
+          file = new HighFive::File(hdf5_filepath.c_str(), HighFive::File::ReadWrite);
+#endif // ENABLE_MPI
+          LOG_S(INFO) << "Locked";
         }
-        sleep(1);
+        catch (const HighFive::Exception&)
+        {
+          LOG_S(FATAL) << "Can not open data file ``" << hdf5_filepath << "''. Not accessible, or corrupted";
+        }
+
+        // pass reopened file to all of the writers
+        out_controller.set_file(file);
+
+        recreate_writers_.store(false, std::memory_order_relaxed);
+        lock_.store(false, std::memory_order_relaxed);
       }
 #endif
     }
@@ -414,7 +428,7 @@ int main(int argc, char **argv)
     SIM_HOOK(SIM_LOOP_END);
 
 #ifdef ENABLE_HDF5
-    delete file;
+    close_file();
 #endif
     if (print_progress_table)
       msg::print_final();
diff --git a/src/outController.cpp b/src/outController.cpp
index a3565fa..5613f63 100644
--- a/src/outController.cpp
+++ b/src/outController.cpp
@@ -417,6 +417,21 @@ void OutController::init_datasets()
   }
 }
 
+#ifdef ENABLE_HDF5
+void OutController::set_file(HighFive::File *_file)
+{
+  hdf5_file = _file;
+
+  for (unsigned int r = 0; r < geometry->domains_amount[0]; ++r)
+    for (unsigned int z = 0; z < geometry->domains_amount[1]; ++z)
+    {
+      Domain *dmn = smb->domains(r, z);
+      for (auto w = dmn->out_writers.begin(); w != dmn->out_writers.end(); ++w)
+        w->set_file(hdf5_file);
+    }
+}
+#endif // ENABLE_HDF5
+
 void OutController::operator()()
 {
   init_datasets();
-- 
2.43.0


From afbcfc25015322f4e923302c415074fb78eaac2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:49:32 +0000
Subject: [PATCH 21/40] fix: exit by the termination signal at the end of the
 time step

The handler closed the file, while the interrupted code could be in the middle
of the operation with it (or could already have it closed, when paused).
---
 src/PiCoPiC.cpp | 48 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index f3abec4..3b2798b 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -69,8 +69,13 @@ void close_file()
   file = NULL;
   delete closing_file;
 }
+#endif // ENABLE_HDF5
+
+// number of the signal, that requested to exit
+std::atomic<int> exit_signal_(0);
 
-bool is_requested ( const std::atomic<bool> &flag )
+template <typename T>
+int is_requested ( const std::atomic<T> &flag )
 {
   int res = flag;
 #ifdef ENABLE_MPI
@@ -79,8 +84,25 @@ bool is_requested ( const std::atomic<bool> &flag )
 #endif // ENABLE_MPI
   return res;
 }
+
+void exit_by_signal( int signum )
+{
+#ifdef ENABLE_HDF5
+  close_file();
 #endif // ENABLE_HDF5
 
+  const char * sigstr = strsignal(signum);
+  std::cerr << "Signal ``" << strdup(sigstr) << " (" << signum << ")'' received. Exiting" << std::endl;
+  exit(signum);
+}
+
+void exit_if_requested()
+{
+  int signum = is_requested(exit_signal_);
+  if (signum)
+    exit_by_signal(signum);
+}
+
 void signal_handler( int signum )
 {
 #ifdef ENABLE_HDF5
@@ -88,6 +110,7 @@ void signal_handler( int signum )
   {
     // data file is unlocked at the end of the time step, because
     // signal can interrupt any operation with it
+    recreate_writers_.store(false, std::memory_order_relaxed);
     lock_.store(true, std::memory_order_relaxed);
   }
   else if (signum == SIGUSR2 && lock_) // reopen
@@ -96,25 +119,23 @@ void signal_handler( int signum )
   }
 #endif // ENABLE_HDF5
 
-  // exit
+  // exit at the end of the time step, because signal
+  // can interrupt any operation with the data file
   if ( signum == SIGINT
        || signum == SIGQUIT
        || signum == SIGPIPE
        || signum == SIGTERM
-       || signum == SIGTSTP
-       || signum == SIGABRT
+       || signum == SIGTSTP )
+    exit_signal_.store(signum, std::memory_order_relaxed);
+
+  // exit immediately
+  if ( signum == SIGABRT
        || signum == SIGBUS
        || signum == SIGFPE
        || signum == SIGILL
        || signum == SIGSEGV )
   {
-#ifdef ENABLE_HDF5
-    close_file();
-#endif // ENABLE_HDF5
-
-    const char * sigstr = strsignal(signum);
-    std::cerr << "Signal ``" << strdup(sigstr) << " (" << signum << ")'' received. Exiting" << std::endl;
-    exit(signum);
+    exit_by_signal(signum);
   }
 }
 
@@ -318,6 +339,8 @@ int main(int argc, char **argv)
     //! Main calculation loop
     LOG_S(INFO) << "Launching calculation";
 
+    exit_if_requested();
+
     while (sim_time_clock->current <= sim_time_clock->end)
     {
       //! Steps:
@@ -375,6 +398,8 @@ int main(int argc, char **argv)
       sim_time_clock->current += sim_time_clock->step;
       SIM_HOOK(SIM_STEP_END);
 
+      exit_if_requested();
+
 //// check if the simulation pause/unpause requested
       // (signals USR1 for pause and USR2 for unpause
 #ifdef ENABLE_HDF5
@@ -389,6 +414,7 @@ int main(int argc, char **argv)
 
         while (! is_requested(recreate_writers_))
         {
+          exit_if_requested();
           cout << "." << flush;
           sleep(1);
         }
-- 
2.43.0


From 46472b466a06cd56aed0a85214c43e867d958289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:28 +0000
Subject: [PATCH 22/40] fix: abort the whole MPI job, when one of the nodes
 fails

---
 src/PiCoPiC.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index 3b2798b..b8e8d5d 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -135,6 +135,15 @@ void signal_handler( int signum )
        || signum == SIGILL
        || signum == SIGSEGV )
   {
+#ifdef ENABLE_MPI
+    // file could be closed only by all of the MPI nodes together,
+    // so stop them all, instead of endless waiting
+    int is_initialized = 0;
+    MPI_Initialized(&is_initialized);
+    if (is_initialized)
+      MPI_Abort(MPI_COMM_WORLD, signum);
+#endif // ENABLE_MPI
+
     exit_by_signal(signum);
   }
 }
-- 
2.43.0


From 36e26ed4343e437f63eb732b0b45ddbaf24b4398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:28 +0000
Subject: [PATCH 23/40] fix: don't ignore failure to save the data file at the
 end

---
 src/PiCoPiC.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/PiCoPiC.cpp b/src/PiCoPiC.cpp
index b8e8d5d..b495695 100644
--- a/src/PiCoPiC.cpp
+++ b/src/PiCoPiC.cpp
@@ -69,6 +69,17 @@ void close_file()
   file = NULL;
   delete closing_file;
 }
+
+void flush_file()
+{
+  // destructor of the file does not report failures
+  try { file->flush(); }
+  catch (const HighFive::Exception& error)
+  {
+    LOG_S(FATAL) << "Can not save data file ``" << hdf5_filepath << "''"
+                 << endl << error.what();
+  }
+}
 #endif // ENABLE_HDF5
 
 // number of the signal, that requested to exit
@@ -417,6 +428,7 @@ int main(int argc, char **argv)
         lock_.store(true, std::memory_order_relaxed);
         LOG_S(INFO) << "Pause calculation";
         LOG_S(INFO) << "Unlocking data file...";
+        flush_file();
         close_file();
         LOG_S(INFO) << "Unlocked";
         cout << "Waiting for ``USR2'' OS signal to continue" << flush;
@@ -463,6 +475,7 @@ int main(int argc, char **argv)
     SIM_HOOK(SIM_LOOP_END);
 
 #ifdef ENABLE_HDF5
+    flush_file();
     close_file();
 #endif
     if (print_progress_table)
-- 
2.43.0


From 54066d73b92ab9b1e3f3dc7b29e62613f3614dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:52 +0000
Subject: [PATCH 24/40] fix: don't ignore failures to create or extend dataset
 and to write metadata

---
 src/outEngine/outEngineHDF5.cpp | 36 +++++----------------------------
 1 file changed, 5 insertions(+), 31 deletions(-)

diff --git a/src/outEngine/outEngineHDF5.cpp b/src/outEngine/outEngineHDF5.cpp
index 50501e8..e2566c5 100644
--- a/src/outEngine/outEngineHDF5.cpp
+++ b/src/outEngine/outEngineHDF5.cpp
@@ -150,23 +150,12 @@ void OutEngineHDF5::create_dataset()
     // DataSet dataset = data_file.createDataSet<double>(_path, dataspace);
     // exit(0);
   }
-  catch (FileException& error)
-  {
-    LOG_S(ERROR) << "FileException: " << error.what();
-  }
-
-  catch (GroupException& error)
+  catch (Exception& error)
   {
     LOG_S(ERROR) << error.what();
     LOG_S(FATAL) << "Can not write data to dataset ``/" << path << "''";
   }
 
-  // catch failure caused by the DataSet operations
-  catch (DataSetException& error)
-  {
-    LOG_S(ERROR) << "DataSetException: " << error.what();
-  }
-
 
   // try
   // {
@@ -215,23 +204,12 @@ void OutEngineHDF5::extend_dataset(size_t _num)
       dataset.resize(local_size);
     }
   }
-  catch (FileException& error)
-  {
-    LOG_S(ERROR) << "FileException: " << error.what();
-  }
-
-  catch (GroupException& error)
+  catch (Exception& error)
   {
     LOG_S(ERROR) << error.what();
     LOG_S(FATAL) << "Can not write data to dataset ``/" << path << "''";
   }
 
-  // catch failure caused by the DataSet operations
-  catch (DataSetException& error)
-  {
-    LOG_S(ERROR) << "DataSetException: " << error.what();
-  }
-
 
   // try
   // {
@@ -374,14 +352,10 @@ void OutEngineHDF5::write_metadata(picojson::value _metadata)
     comment_a.write(comment);
 
   }
-  catch(GroupException& error)
-  {
-    LOG_S(MAX) << "Group ``metadata'' already exists. Skipping";
-  }
-
-  catch(DataSetException& error)
+  catch (Exception& error)
   {
-    LOG_S(MAX) << "metadata already exists. Skipping";
+    LOG_S(ERROR) << error.what();
+    LOG_S(FATAL) << "Can not write metadata";
   }
 }
 
-- 
2.43.0


From 79b19446b45580076f1cd1cbf5eed3ae350b1ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:09 +0000
Subject: [PATCH 25/40] fix: don't wipe radial current by the particles, moving
 strictly along the axis

---
 src/current/currentVB.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 4e4d01d..94a7dd8 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -541,10 +541,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
       / (delta_t * 2 * PI * (i_n + 1) * dr * dr)
       * PI * (r3 * r3 - r2 * r2) / value_part;
 
-    // this_j->inc_j_r(i_n, k_n, 0.);
-    // this_j->inc_j_r(i_n, k_n + 1,0.);
-    current[0].set(i_n_shift, k_n_shift, 0.);
-    current[0].set(i_n_shift, k_n_shift + 1, 0.);
+    // strict axis motion adds nothing to radial current
 
     int res_k = k_n - k_o;
 
-- 
2.43.0


From 4c14529bd10a497fda36c07fbecc5dc7019c813d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:15 +0000
Subject: [PATCH 26/40] fix: initialize relativistic flag of adaptive Boris
 pusher

it was set for fast particles only and was read for all of them
---
 src/pusher/pusherBoris.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pusher/pusherBoris.cpp b/src/pusher/pusherBoris.cpp
index 046e90d..10637b0 100644
--- a/src/pusher/pusherBoris.cpp
+++ b/src/pusher/pusherBoris.cpp
@@ -35,7 +35,7 @@ void PusherBoris::operator()()
       // define vars directly in loop, because of multithreading
       double charge_over_2mass_dt, const2, sq_velocity;
 #ifdef SWITCH_PUSHER_BORIS_ADAPTIVE
-      bool use_rel; // use relativistic calculations
+      bool use_rel = false; // use relativistic calculations
 #endif // SWITCH_PUSHER
 #if defined(SWITCH_PUSHER_BORIS_ADAPTIVE) || defined(SWITCH_PUSHER_BORIS_RELATIVISTIC) // do not use gamma in non-relativistic boris pusher
       double gamma = 1;
-- 
2.43.0


From 50311ce7b058499abc6221eab1bc88f2d414dfd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:57 +0000
Subject: [PATCH 27/40] fix: decide absorbing layer cells at the left wall
 without rounding

The distance of a cell to the left wall was computed as a sum of two
rounded products, so that the cell next to the layer could be taken into
it, depending on how the area is divided to domains.
---
 src/maxwellSolver/externalFields.cpp   | 2 +-
 src/maxwellSolver/maxwellSolverYee.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 438e2d6..fe722fb 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -121,7 +121,7 @@ void ExternalFields::set_pml()
     for(int k = 0; k < geometry->cell_amount[1]; k++)
       for(int i = 0; i < geometry->cell_amount[0]; i++)
         // z=0 wall
-        if (cell_size_z * k + longitudinal_cell_offset < lenght_sigma_left)
+        if (cell_size_z * (k + geometry->cell_dims[1]) < lenght_sigma_left)
           sigma.inc(i, k, geometry->pml_sigma[0]
                     + delta_sigma
                     / pow(lenght_sigma_left, 2)
diff --git a/src/maxwellSolver/maxwellSolverYee.cpp b/src/maxwellSolver/maxwellSolverYee.cpp
index bb9345d..eb41a34 100644
--- a/src/maxwellSolver/maxwellSolverYee.cpp
+++ b/src/maxwellSolver/maxwellSolverYee.cpp
@@ -89,7 +89,7 @@ void MaxwellSolverYee::set_pml()
     for(int k = 0; k < geometry->cell_amount[1]; k++)
       for(int i = 0; i < geometry->cell_amount[0]; i++)
         // z=0 wall
-        if (cell_size_z * k + longitudinal_cell_offset < lenght_sigma_left)
+        if (cell_size_z * (k + geometry->cell_dims[1]) < lenght_sigma_left)
           sigma.inc(i, k, geometry->pml_sigma[0]
                     + delta_sigma
                     / pow(lenght_sigma_left, 2)
-- 
2.43.0


From 81d8cd944d6a71430dbf826d72993ba373bba6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 28/40] fix: weight the azimuthal electric field of the fourth
 node into its own component

---
 include/maxwellSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maxwellSolver.hpp b/include/maxwellSolver.hpp
index 9a5bf8d..eb05e6d 100644
--- a/include/maxwellSolver.hpp
+++ b/include/maxwellSolver.hpp
@@ -310,7 +310,7 @@ public:
     cmp[1] += field_e(1, i_r_shift, k_z_shift+1) * CYL_RNG_VOL(dz2, r1, r2) / vol_1;
 
     // weighting Efi[i+1][k+1]
-    cmp[2] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
+    cmp[1] += field_e(1, i_r_shift+1, k_z_shift+1) * CYL_RNG_VOL(dz2, r2, r3) / vol_2;
 
     return cmp;
   };
-- 
2.43.0


From f26a1ed947dbc983594945af83b6f31ec628b663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 29/40] fix: rotate velocities into the new rz plane, not away
 from it

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 7d364aa..e592a72 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -632,8 +632,8 @@ void SpecieP::back_velocity_to_rz()
     double v_r = P_VEL_R((**p));
     double v_phi = P_VEL_PHI((**p));
 
-    double u_2 = cos * v_r - sin * v_phi;
-    double v_2 = sin * v_r + cos * v_phi;
+    double u_2 = cos * v_r + sin * v_phi;
+    double v_2 = cos * v_phi - sin * v_r;
     P_VEL_R((**p)) = u_2;
     P_VEL_PHI((**p)) = v_2;
   }
-- 
2.43.0


From 564cb1135617392ebe209e7a4c1b7a62eac0fee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 30/40] fix: reflect particles by their velocity in the new rz
 plane

---
 src/SMB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SMB.cpp b/src/SMB.cpp
index f8dcb88..f9cf8c4 100644
--- a/src/SMB.cpp
+++ b/src/SMB.cpp
@@ -1416,10 +1416,10 @@ void SMB::advance_particles()
       sim_domain->update_particles_coords();
       sim_domain->particles_back_position_to_rz();
 
-      sim_domain->reflect();
-
       sim_domain->particles_back_velocity_to_rz();
 
+      sim_domain->reflect();
+
       sim_domain->bind_cell_numbers();
     }
   particles_runaway_collector();
-- 
2.43.0


From 7a3503a3c373fb4dcf1185b45b3d26e081575fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 31/40] fix: Higuera-Cary pusher: rotation matrix and units of
 the intermediate gamma

---
 src/pusher/pusherHC.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pusher/pusherHC.cpp b/src/pusher/pusherHC.cpp
index 7b39a80..cfe7b48 100644
--- a/src/pusher/pusherHC.cpp
+++ b/src/pusher/pusherHC.cpp
@@ -72,7 +72,7 @@ void PusherHC::operator()()
       um += psm;
       // Intermediate gamma factor: only this part differs from the Boris scheme
       // Square Gamma factor from um
-      double gfm2 = (1. + um.length2());
+      double gfm2 = (1. + um.length2() / LIGHT_VEL_POW_2);
 
       b *= charge_over_2mass_dt * MAGN_CONST;
       B2 = b.length2();
@@ -82,7 +82,7 @@ void PusherHC::operator()()
                                 sqrt ( pow( gfm2 - B2, 2 )
                                        + 4.0 * ( B2 + pow( b[0]*um[0]
                                                            + b[1]*um[1]
-                                                           + b[2]*um[2], 2 ) ) ) ) );
+                                                           + b[2]*um[2], 2 ) / LIGHT_VEL_POW_2 ) ) ) );
 
       b *= gamma;
       b2 = b;
@@ -91,10 +91,10 @@ void PusherHC::operator()()
       b_cross[0] = b[0]*b[1];
       b_cross[1] = b[1]*b[2];
       b_cross[2] = b[2]*b[0];
-      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[0] );
+      double inv_det_B = 1.0/( 1.0+b2[0]+b2[1]+b2[2] );
 
       up[0] = ( ( 1.0+b2[0]-b2[1]-b2[2] ) * um[0] + 2. * ( b_cross[0]+b[2] )
-                * um[1] + 2. * ( b_cross[2] - b[2] ) * um[2] ) * inv_det_B;
+                * um[1] + 2. * ( b_cross[2] - b[1] ) * um[2] ) * inv_det_B;
       up[1] = ( 2. * ( b_cross[0]-b[2] ) * um[0] + ( 1. - b2[0]+b2[1]-b2[2] )
                 * um[1] + 2. * ( b_cross[1] + b[0] ) * um[2] ) * inv_det_B;
       up[2] = ( 2. * ( b_cross[2] + b[1] ) * um[0] + 2. * ( b_cross[1] - b[0] )
-- 
2.43.0


From 0b44d12a5502897b456da302fec1e7ba66b1143f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:02 +0000
Subject: [PATCH 32/40] fix: Vay pusher: units of the intermediate gamma

---
 src/pusher/pusherVay.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pusher/pusherVay.cpp b/src/pusher/pusherVay.cpp
index 025c5b8..299a080 100644
--- a/src/pusher/pusherVay.cpp
+++ b/src/pusher/pusherVay.cpp
@@ -78,7 +78,7 @@ void PusherVay::operator()()
       uplocity[2] += gamma * ( velocity[0] * b[1] - velocity[1] * b[0] );
 
       // alpha is gamma^2
-      alpha = 1. + uplocity.length2();
+      alpha = 1. + uplocity.length2() / LIGHT_VEL_POW_2;
       B2 = b.length2();
 
       //
@@ -88,7 +88,7 @@ void PusherVay::operator()()
       // s is sigma
       s = alpha - B2;
       // TODO: implement * operator for vector3d
-      us2 = pow(uplocity.dot(b), 2);
+      us2 = pow(uplocity.dot(b), 2) / LIGHT_VEL_POW_2;
 
       // alpha becomes 1/gamma^{i+1}
       alpha = 1. / sqrt( 0.5 * ( s + sqrt( s * s + 4. * ( B2 + us2 ) ) ) );
-- 
2.43.0


From 1e68e19b20dbabf7f4fa8d3147832fbb82f7fd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:27 +0000
Subject: [PATCH 33/40] fix: select the configured profile of the external
 electric field

---
 src/maxwellSolver/externalFields.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index fe722fb..633f981 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -48,20 +48,20 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
     z_end = geometry->cell_amount[1];
 
   // set electric and magnetic profiles
-  if ( _el_field_profile.compare("none") )
+  if ( _el_field_profile.compare("none") == 0 )
     e_profile_enum = 0;
-  else if ( _el_field_profile.compare("const_r") )
+  else if ( _el_field_profile.compare("const_r") == 0 )
     e_profile_enum = 1;
-  else if ( _el_field_profile.compare("const_phi") )
+  else if ( _el_field_profile.compare("const_phi") == 0 )
     e_profile_enum = 2;
-  else if ( _el_field_profile.compare("const_z") )
+  else if ( _el_field_profile.compare("const_z") == 0 )
     e_profile_enum = 3;
-  else if ( _el_field_profile.compare("linerad_r") )
+  else if ( _el_field_profile.compare("linerad_r") == 0 )
     e_profile_enum = 4;
-  else if ( _el_field_profile.compare("linerad_z") )
+  else if ( _el_field_profile.compare("linerad_z") == 0 )
     e_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no electric field profile, named ``" << _el_field_profile;
 
   if ( _magn_field_profile.compare("none") == 0 )
     m_profile_enum = 0;
@@ -76,7 +76,7 @@ ExternalFields::ExternalFields ( Geometry *_geometry, TimeSim *_time,
   else if ( _magn_field_profile.compare("linerad_z") == 0 )
     m_profile_enum = 5;
   else
-    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _el_field_profile;
+    LOG_S(FATAL) << "There is no magnetic field profile, named ``" << _magn_field_profile;
 
   e_field_params = _el_field_params;
   m_field_params = _magn_field_params;
-- 
2.43.0


From 36e8bbd7957fabdf618d405b7c3f4c2ee9fecebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:27 +0000
Subject: [PATCH 34/40] fix: keep the external electric field, when the
 magnetic one is set

---
 src/maxwellSolver/externalFields.cpp | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 633f981..1295f32 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -229,10 +229,6 @@ void ExternalFields::set_pml()
 
 void ExternalFields::set_el_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_h = 0;
-  field_h.overlay_set(0);
-
   // set electric field's overlay to 0
   field_e = 0; // reset electric field
   field_e.overlay_set(0);
@@ -278,12 +274,8 @@ void ExternalFields::set_el_field_homogenous_z ()
 
 void ExternalFields::set_magn_field_homogenous_z ()
 {
-  // set magnetic field to 0
-  field_e = 0;
-  field_e.overlay_set(0);
-
-  // set electric field's overlay to 0
-  field_h = 0; // reset electric field
+  // set magnetic field's overlay to 0
+  field_h = 0; // reset magnetic field
   field_h.overlay_set(0);
 
   double dr = geometry->cell_size[0];
-- 
2.43.0


From 1f7a52bce92182c9658112d3d55391c61461189b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:51 +0000
Subject: [PATCH 35/40] fix: external fields cover the overlay between domains

---
 src/maxwellSolver/externalFields.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/maxwellSolver/externalFields.cpp b/src/maxwellSolver/externalFields.cpp
index 1295f32..01d1475 100644
--- a/src/maxwellSolver/externalFields.cpp
+++ b/src/maxwellSolver/externalFields.cpp
@@ -251,9 +251,15 @@ void ExternalFields::set_el_field_homogenous_z ()
     for (unsigned int i = r_begin; i < r_end; ++i)
       field_e[2].set(i, 0, 0);
 
-  // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  // regular case, including neighbours' cells in the overlay
+  const int o_s = field_e[2].o_s;
+  const int r_first = geometry->walls[0] ? r_begin : -o_s;
+  const int z_first = geometry->walls[1] ? z_begin : -o_s;
+  const int r_last = geometry->walls[2] ? r_end : r_end + o_s;
+  const int z_last = geometry->walls[3] ? z_end : z_end + o_s;
+
+  for (int i = r_first; i < r_last; i++)
+    for (int k = z_first; k < z_last; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
@@ -296,9 +302,15 @@ void ExternalFields::set_magn_field_homogenous_z ()
     for (unsigned int i = r_begin; i < r_end; ++i)
       field_h[2].set(i, 0, 0);
 
-  // regular case
-  for (unsigned int i = r_begin; i < r_end; i++)
-    for (unsigned int k = z_begin; k < z_end; k++)
+  // regular case, including neighbours' cells in the overlay
+  const int o_s = field_h[2].o_s;
+  const int r_first = geometry->walls[0] ? r_begin : -o_s;
+  const int z_first = geometry->walls[1] ? z_begin : -o_s;
+  const int r_last = geometry->walls[2] ? r_end : r_end + o_s;
+  const int z_last = geometry->walls[3] ? z_end : z_end + o_s;
+
+  for (int i = r_first; i < r_last; i++)
+    for (int k = z_first; k < z_last; k++)
     {
       double epsilonx2 = 2 * epsilon(i, k);
 
-- 
2.43.0


From 2a3a16642e99f5356f69b97ee8073f2299c6eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:34 +0000
Subject: [PATCH 36/40] fix: don't hang on regular/centered placement, when
 cell sizes ratio is rounded

---
 src/specieP.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index e592a72..4042884 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -45,12 +45,8 @@ SpecieP::SpecieP (unsigned int p_id,
 /// spatial distributions
 #if defined(SWITCH_PLASMA_SPATIAL_REGULAR) || defined(SWITCH_PLASMA_SPATIAL_CENTERED)
   LOG_S(MAX) << "Correcting domain plasma particles macro amount to satisfy spatial distribution";
-  double r_size = geometry->size[0];
-  double z_size = geometry->size[1];
-  double dr = geometry->cell_size[0];
-  double dz = geometry->cell_size[1];
-
-  macro_amount = algo::common::nearest_divide(p_macro_amount, r_size / dr * z_size / dz);
+  // number of cells is taken directly: sizes ratio is not always a whole number because of rounding
+  macro_amount = algo::common::nearest_divide(p_macro_amount, geometry->cell_amount[0] * geometry->cell_amount[1]);
 #else
   macro_amount = p_macro_amount;
 #endif // WITH_PLASMA_SPATIAL
-- 
2.43.0


From a5c500f986412c33716be4027b1dcef4be889a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:11 +0000
Subject: [PATCH 37/40] fix: radial current of particles, moving strictly along
 radius through a cell border

---
 src/current/currentVB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/current/currentVB.cpp b/src/current/currentVB.cpp
index 94a7dd8..c55dcd6 100644
--- a/src/current/currentVB.cpp
+++ b/src/current/currentVB.cpp
@@ -665,7 +665,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / (i_n * dr + delta_r)
-           + r0 * r0 / i_n * dr
+           + r0 * r0 / (i_n * dr)
            + dr * dr / (4. * (i_n * dr + delta_r))
            - dr * dr / (4. * i_n * dr));
 
@@ -706,7 +706,7 @@ void CurrentVB::strict_motion_distribution(double radius_new,
 
       wj = some_shit_density
         * (delta_r - r0 * r0 / ((i_n + 1) * dr + delta_r)
-           + r0 * r0 / (i_n + 1) * dr
+           + r0 * r0 / ((i_n + 1) * dr)
            + dr * dr / (4. * ((i_n + 1) * dr + delta_r))
            - dr * dr / (4. * (i_n + 1) * dr));
 
-- 
2.43.0


From 6e34d6b94a280a53f4d83e36367249df4dbc06e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:01 +0000
Subject: [PATCH 38/40] fix: take relativistic factor into account in moments
 of fast particles, not of slow ones

---
 src/specieP.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/specieP.cpp b/src/specieP.cpp
index 4042884..7c38757 100644
--- a/src/specieP.cpp
+++ b/src/specieP.cpp
@@ -734,7 +734,7 @@ void SpecieP::calc_momentum_abs_w()
 
     double p_abs = mass * P_WEIGHT((**i)) * v_abs;
 
-    if (v_abs < REL_LIMIT)
+    if (v_abs > REL_LIMIT)
     {
       double gamma = phys::rel::lorenz_factor(pow(v_abs, 2));
       p_abs *= gamma;
@@ -766,7 +766,7 @@ void SpecieP::calc_momentum_w()
 
     // check for relativistic case
     double v_abs_2 = pow(v_r, 2) + pow(v_phi, 2) + pow(v_z, 2);
-    if (v_abs_2 < REL_LIMIT_POW_2)
+    if (v_abs_2 > REL_LIMIT_POW_2)
     {
       double gamma = phys::rel::lorenz_factor(v_abs_2);
       p_r *= gamma;
-- 
2.43.0


From ed30564990b6e25905a0a70b30b63a8466dc3709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:55 +0000
Subject: [PATCH 39/40] fix: negative place of row, col and dot probes has to
 be refused (regression of eb740e9)

---
 src/cfg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 55081da..2448132 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -310,13 +310,13 @@ void Cfg::init_probes ()
                    << p_p.dims[1] << "," << p_p.dims[3] << "]";
     }
     // the end of the rec is exclusive, while other shapes point to the cell itself
-    else if (p_p.dims[2] + (p_p.shape == 2 || p_p.shape == 3) > geometry->cell_amount[0])
+    else if (p_p.dims[2] > geometry->cell_amount[0] - (p_p.shape == 2 || p_p.shape == 3))
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " radius is out of simulation domain: "
                    << p_p.dims[2] << ". Must be less, than "
                    << geometry->cell_amount[0];
     }
-    else if (p_p.dims[3] + (p_p.shape == 1 || p_p.shape == 3) > geometry->cell_amount[1])
+    else if (p_p.dims[3] > geometry->cell_amount[1] - (p_p.shape == 1 || p_p.shape == 3))
     {
       LOG_S(FATAL) << "Probe's " << p_p.component << "/" << p_shape << " longitude is out of simulation domain: "
                    << p_p.dims[3] << ". Must be less, than "
-- 
2.43.0


From 018e5bcc721ed9978940091ad4375ccd62d52a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:32 +0000
Subject: [PATCH 40/40] fix: a probe of an unknown component has to be refused,
 not written from a garbage pointer

---
 src/cfg.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cfg.cpp b/src/cfg.cpp
index 2448132..91e510e 100644
--- a/src/cfg.cpp
+++ b/src/cfg.cpp
@@ -15,6 +15,8 @@
  * along with this program. If not, see <http://www.gnu.org/licenses/>.
  */
 
+#include <algorithm>
+
 #include "cfg.hpp"
 
 using namespace std;
@@ -217,6 +219,13 @@ void Cfg::init_probes ()
     try { p_p.specie = o["specie"].get<string>().c_str(); }
     catch (std::exception& e) { p_p.specie = "unknown"; }
 
+    // there is nothing to store for a component, which does not exist
+    const vector<string> components = { "E/r", "E/phi", "E/z", "H/r", "H/phi", "H/z", "J/r", "J/phi", "J/z",
+                                        "temperature", "density", "energy",
+                                        "momentum/r", "momentum/phi", "momentum/z" };
+    if (find(components.begin(), components.end(), p_p.component) == components.end())
+      LOG_S(FATAL) << "Unknown probe component ``" << p_p.component << "''";
+
     string p_shape = o["shape"].get<string>().c_str();
 
     //// generate probe path
-- 
2.43.0

