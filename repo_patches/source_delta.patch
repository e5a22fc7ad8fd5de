From 39ac943eea8fc9b7428955ab99e3a5cabbc82894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:58 +0000
Subject: [PATCH 01/19] fix: integrate series correctly if both bounds are in
 the same sampling interval

---
 src/linalg/Series.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/linalg/Series.hpp b/src/linalg/Series.hpp
index 0fdbd77..7cb8934 100644
--- a/src/linalg/Series.hpp
+++ b/src/linalg/Series.hpp
@@ -74,7 +74,21 @@ class edge::linalg::Series {
       std::size_t l_first = std::max( (i_x1 - i_xStart + i_dx)/i_dx, (TL_T_REAL) 0 );
       std::size_t l_last  = std::max( (i_x2 - i_xStart       )/i_dx, (TL_T_REAL) 0 );
                   l_last  = std::min( l_last,  i_nPts-1 );
-                  l_first = std::min( l_first, l_last );
+
+      // no point is covered and x1, x2 are both in the interval of the points (last, last+1)
+      if( l_first > l_last && l_last+1 < i_nPts ) {
+        // offset of the center of [x1, x2] w.r.t. the left point, where the linear function has the mean value
+        TL_T_REAL l_off = (TL_T_REAL) 0.5 * (i_x1 + i_x2) - (i_xStart + l_last*i_dx);
+
+        for( unsigned short l_se = 0; l_se < TL_N_SERIES; l_se++ ) {
+          TL_T_REAL l_mean  = i_vals[l_last][l_se];
+                    l_mean += (l_off / i_dx) * (i_vals[l_last+1][l_se] - i_vals[l_last][l_se]);
+          o_int[l_se] = l_mean * (i_x2 - i_x1);
+        }
+        return;
+      }
+
+      l_first = std::min( l_first, l_last );
 
 
       // add contribution of the covered intervals
-- 
2.43.0


From 6583d24ce420ecef915f58de5d12274a32484c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:16 +0000
Subject: [PATCH 02/19] fix: flush only receivers of the scheduled time group,
 others might be written concurrently

---
 src/impl/seismic/inc/time/man_sched.inc | 4 ++--
 src/io/Receivers.cpp                    | 6 ++++--
 src/io/Receivers.h                      | 7 +++++--
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/impl/seismic/inc/time/man_sched.inc b/src/impl/seismic/inc/time/man_sched.inc
index b9169a8..4d45a30 100644
--- a/src/impl/seismic/inc/time/man_sched.inc
+++ b/src/impl/seismic/inc/time/man_sched.inc
@@ -161,8 +161,8 @@ for( unsigned short l_tg = 0; l_tg < m_timeGroups.size(); l_tg++ ) {
     m_cflow[l_tg][2] = 3;
     m_cflow[l_tg][4] = 1;
 
-    // flush receivers if buffer size gets low
-    m_recvs.flushIf();
+    // flush receivers of this time group (no concurrent writes) if buffer size gets low
+    m_recvs.flushIf( l_tg );
   }
 
   // issue recvs
diff --git a/src/io/Receivers.cpp b/src/io/Receivers.cpp
index 5670676..591d6b7 100644
--- a/src/io/Receivers.cpp
+++ b/src/io/Receivers.cpp
@@ -322,8 +322,10 @@ void edge::io::Receivers::flushAll() {
   for( std::size_t l_re = 0; l_re < m_recvs.size(); l_re++ ) flush( l_re );
 }
 
-void edge::io::Receivers::flushIf( unsigned int i_tresh ) {
+void edge::io::Receivers::flushIf( int_tg       i_tg,
+                                   unsigned int i_tresh ) {
   for( std::size_t l_re = 0; l_re < m_recvs.size(); l_re++ ) {
-    if( m_buffSize - m_recvs[l_re].nBuff < i_tresh ) flush( l_re );
+    if(    m_recvs[l_re].tg == i_tg
+        && m_buffSize - m_recvs[l_re].nBuff < i_tresh ) flush( l_re );
   }
 }
diff --git a/src/io/Receivers.h b/src/io/Receivers.h
index 89ea06f..28e5aeb 100644
--- a/src/io/Receivers.h
+++ b/src/io/Receivers.h
@@ -166,11 +166,14 @@ class edge::io::Receivers {
                        const real_base i_dofs[N_QUANTITIES][N_ELEMENT_MODES][N_CRUNS] );
 
     /**
-     * Flushes receiver's buffers to disk if the remaining size in the buffer if below the treshold.
+     * Flushes the buffers of a time group's receivers to disk if the remaining size in the buffer if below the treshold.
+     * Remark: The receivers of the time group must not be written concurrently.
      *
+     * @param i_tg time group, whose receivers are considered.
      * @param i_treshold, which triggers writers if the buffers remaining entries is below. 
      **/
-    virtual void flushIf( unsigned int i_tresh=50 );
+    virtual void flushIf( int_tg       i_tg,
+                          unsigned int i_tresh=50 );
 };
 
 #endif
-- 
2.43.0


From 4297d2b2a4fa1a804c748c628ba5b9f6640f212b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 03/19] fix: mark undefined adjacencies as invalid in the
 sparse adjacency link

---
 src/data/SparseEntities.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/data/SparseEntities.hpp b/src/data/SparseEntities.hpp
index 6005d1c..0144439 100644
--- a/src/data/SparseEntities.hpp
+++ b/src/data/SparseEntities.hpp
@@ -540,8 +540,11 @@ class edge::data::SparseEntities {
           for( unsigned short l_ae = 0; l_ae < i_nAdjPerEn; l_ae++ ) {
             TL_T_INT_LID l_aeId = i_enEn[ l_de * i_nAdjPerEn + l_ae ];
 
-            // ignore undefined adjacencies
-            if( l_aeId == std::numeric_limits< TL_T_INT_LID >::max() ) continue;
+            // undefined adjacencies have no sparse counterpart
+            if( l_aeId == std::numeric_limits< TL_T_INT_LID >::max() ) {
+              o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = std::numeric_limits< TL_T_INT_LID >::max();
+              continue;
+            }
 
             if( ( i_charsAdj[l_aeId].spType & i_spType ) == i_spType ) o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = l_adjDeToSp[l_aeId];
             else                                                       o_spLink[ l_spId*i_nAdjPerEn + l_ae ] = std::numeric_limits< TL_T_INT_LID >::max();
-- 
2.43.0


From 0881e331fd941d16b9c5b117c29ddc40e24ca285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:24 +0000
Subject: [PATCH 04/19] fix: allow partitions without communicating elements in
 between communicating ones

---
 tools/edge_v/src/mesh/Communication.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_v/src/mesh/Communication.cpp b/tools/edge_v/src/mesh/Communication.cpp
index 266d1c2..44a22cf 100644
--- a/tools/edge_v/src/mesh/Communication.cpp
+++ b/tools/edge_v/src/mesh/Communication.cpp
@@ -66,7 +66,7 @@ void edge_v::mesh::Communication::getPaElComm( t_entityType         i_elTy,
     if( l_regPa != l_elPa && l_commEl == true  ) {
       // sanity check on the element order
       EDGE_V_CHECK( l_regPa == std::numeric_limits< t_idx >::max() ||
-                    l_elPa  == l_regPa+1 );
+                    l_elPa  >  l_regPa );
 
       o_first[l_elPa] = l_el;
       l_regPa = l_elPa;
-- 
2.43.0


From 30ba9cb6003a1264fe358415a7b9c5a0fedb3048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:35 +0000
Subject: [PATCH 05/19] fix: initialize centroid before summing up the vertex
 coordinates

---
 tools/edge_v/src/geom/Generic.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/edge_v/src/geom/Generic.cpp b/tools/edge_v/src/geom/Generic.cpp
index cf0fff0..da78a41 100644
--- a/tools/edge_v/src/geom/Generic.cpp
+++ b/tools/edge_v/src/geom/Generic.cpp
@@ -29,6 +29,10 @@ void edge_v::geom::Generic::centroid( t_entityType         i_enTy,
                                       double               o_cen[3] ) {
   unsigned short l_nEnVes = CE_N_VES( i_enTy );
 
+  for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
+    o_cen[l_di] = 0;
+  }
+
   for( unsigned short l_ve = 0; l_ve < l_nEnVes; l_ve++ ) {
     for( unsigned short l_di = 0; l_di < 3; l_di++ ) {
       o_cen[l_di] += i_veCrds[l_ve][l_di];
-- 
2.43.0


From e4538a6e6df3668b8d8480740f3f07fb72885693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:55 +0000
Subject: [PATCH 06/19] fix: match order of edge weights and edges in the
 weighted dual graph

---
 tools/edge_v/src/mesh/Partition.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/tools/edge_v/src/mesh/Partition.h b/tools/edge_v/src/mesh/Partition.h
index 7cd710f..ad4d2d3 100644
--- a/tools/edge_v/src/mesh/Partition.h
+++ b/tools/edge_v/src/mesh/Partition.h
@@ -26,6 +26,7 @@
 
 #include "Mesh.h"
 #include <algorithm>
+#include <vector>
 
 namespace edge_v {
   namespace mesh {
@@ -176,8 +177,12 @@ class edge_v::mesh::Partition {
           o_vwgt[l_el] *= 2;
         }
 
+        // sort adjacent elements by id to match the order of the edges in the dual graph
+        std::vector< t_idx > l_elFaEl( i_elFaEl+l_el*l_nElFas, i_elFaEl+(l_el+1)*l_nElFas );
+        std::sort( l_elFaEl.begin(), l_elFaEl.end() );
+
         for( t_idx l_fa = 0; l_fa < l_nElFas; l_fa++ ) {
-          t_idx l_ad = i_elFaEl[l_el*l_nElFas + l_fa];
+          t_idx l_ad = l_elFaEl[l_fa];
 
           if( l_ad != std::numeric_limits< t_idx >::max() ) {
             // larger time group elements have to sent twice the amount
-- 
2.43.0


From e59463fba1d89c1cd5276322b75d0fcd29d41171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:41:23 +0000
Subject: [PATCH 07/19] fix: consider the momentum of all directions in the
 shallow water CFL time step

---
 src/impl/swe/solvers/FiniteVolume.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/impl/swe/solvers/FiniteVolume.hpp b/src/impl/swe/solvers/FiniteVolume.hpp
index 08afea7..e28b917 100644
--- a/src/impl/swe/solvers/FiniteVolume.hpp
+++ b/src/impl/swe/solvers/FiniteVolume.hpp
@@ -193,8 +193,14 @@ class edge::swe::solvers::FiniteVolume {
         // compute minum CFL associated time step for all concurrent runs
         double l_cDt = std::numeric_limits< double >::max();
         for( unsigned short l_ru = 0; l_ru < TL_N_CRS; l_ru++ ) {
+          // derive the magnitude of the momentum, considering all directions
+          double l_hu = 0;
+          for( unsigned short l_di = 0; l_di < TL_N_DIS; l_di++ )
+            l_hu += double(i_dofs[l_el][1+l_di][0][l_ru]) * i_dofs[l_el][1+l_di][0][l_ru];
+          l_hu = std::sqrt( l_hu );
+
           l_cDt = std::min( l_cDt, computeCflTimeStep( i_dofs[l_el][0][0][l_ru],
-                                                       i_dofs[l_el][1][0][l_ru],
+                                                       l_hu,
                                                        i_charsEl[l_el].inDia ) );
         }
 
-- 
2.43.0


From 64e0fac0b920c9231e4a2686efc81124171d6b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 08/19] fix: let the extruded sides end exactly at the target
 depth

---
 tools/edge_cut/src/mesh/Extrude.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index cd37b94..aa02e2c 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -34,6 +34,8 @@ void edge_cut::mesh::Extrude::addSide( std::size_t                  i_nSteps,
       double l_z = std::get<2>( i_veCrdsBnd[l_ve] );
       double l_dx = (i_zTarget - l_z) / i_nSteps;
              l_z += l_st * l_dx;
+      // match the bottom exactly
+      if( l_st == i_nSteps ) l_z = i_zTarget;
 
       o_veCrds.push_back( std::make_tuple( std::get<0>( i_veCrdsBnd[l_ve] ),
                                            std::get<1>( i_veCrdsBnd[l_ve] ),
-- 
2.43.0


From bc544c1c2cf8bbb7f7c0adc3b5ec36b19744d806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 09/19] fix: order surface points whose x-coordinates differ by
 less than epsilon by y

---
 tools/edge_cut/src/mesh/Extrude.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index aa02e2c..4c9dba6 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -296,6 +296,13 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
   EDGE_CUT_CHECK_EQ( i_nVes%m_ny[0], 0 );
   m_nx[0] = i_nVes / m_ny[0];
 
+  // sort by y for constant x, which might differ by up to epsilon
+  for( std::size_t l_vx = 0; l_vx < m_nx[0]; l_vx++ ) {
+    std::sort( m_veCrdsSurf.begin() +  l_vx    * m_ny[0],
+               m_veCrdsSurf.begin() + (l_vx+1) * m_ny[0],
+               []( point const & i_pt0, point const & i_pt1 ) { return std::get<1>( i_pt0 ) < std::get<1>( i_pt1 ); } );
+  }
+
   // derive refinement ratio nad number of coarse cells
   for( unsigned short l_le = 0; l_le < i_nLevels; l_le++)
     m_refRatio *= 2;
-- 
2.43.0


From 8eee8e56b0bd2da580fede3fdc17b733c6c9fb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 10/19] fix: reject surface meshes which are too small for the
 requested coarsening

---
 tools/edge_cut/src/mesh/Extrude.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index 4c9dba6..600759f 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -309,6 +309,9 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
 
   EDGE_CUT_CHECK_EQ( (m_nx[0]-1)%m_refRatio, 0 );
   EDGE_CUT_CHECK_EQ( (m_ny[0]-1)%m_refRatio, 0 );
+  // the coarsened layers of opposite sides are not allowed to overlap
+  EDGE_CUT_CHECK_GE( m_nx[0]-1, std::size_t(4*(m_refRatio-1)) );
+  EDGE_CUT_CHECK_GE( m_ny[0]-1, std::size_t(4*(m_refRatio-1)) );
 
   if( m_refRatio > 1 ) {
     m_nx[1] = m_nx[0] / m_refRatio + 1;
-- 
2.43.0


From 6967b2d310104e15b2443b50fd21898844f76c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:12 +0000
Subject: [PATCH 11/19] fix: derive the minimum y-spacing of the coarse mesh
 from the coarse points

---
 tools/edge_cut/src/mesh/Extrude.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index 600759f..0b6afbf 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -325,7 +325,7 @@ edge_cut::mesh::Extrude::Extrude( std::size_t          i_nVes,
   // derive minimum dx and dy in the coarse mesh
   for( std::size_t l_ve = 0; l_ve < m_ny[1]-1; l_ve++ ) {
     std::size_t l_veNext = (l_ve+1) * m_refRatio;
-    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve] );
+    double l_diff = std::get<1>( m_veCrdsSurf[l_veNext] ) - std::get<1>( m_veCrdsSurf[l_ve*m_refRatio] );
     m_dMin[1] = std::min( m_dMin[1], l_diff );
   }
   for( std::size_t l_ve = 0; l_ve < (m_nx[0]-m_refRatio)*m_ny[0]; l_ve+=m_ny[0]*m_refRatio ) {
-- 
2.43.0


From 5a71a07fc36804c328714e5d2501030fab0e606d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:13 +0000
Subject: [PATCH 12/19] fix: write the coordinates of the extruded surfaces
 with full precision

---
 tools/edge_cut/src/main.cpp         | 5 +++++
 tools/edge_cut/src/mesh/Extrude.cpp | 1 +
 2 files changed, 6 insertions(+)

diff --git a/tools/edge_cut/src/main.cpp b/tools/edge_cut/src/main.cpp
index cfc4441..dfd3866 100644
--- a/tools/edge_cut/src/main.cpp
+++ b/tools/edge_cut/src/main.cpp
@@ -85,6 +85,11 @@ int main( int i_argc, char *i_argv[] ) {
   std::ofstream l_top(    l_config.getMeshOutTop(),
                           std::ios::out );
 
+  // keep the precision of the coordinates
+  for( std::ofstream * l_out : { &l_left, &l_right, &l_front, &l_back, &l_bottom, &l_top } ) {
+    l_out->precision( std::numeric_limits< double >::digits10 );
+  }
+
   // write
   EDGE_CUT_LOG_INFO << "writing output meshes";
   l_ext.writeOff( l_left,
diff --git a/tools/edge_cut/src/mesh/Extrude.cpp b/tools/edge_cut/src/mesh/Extrude.cpp
index 0b6afbf..03e2c4b 100644
--- a/tools/edge_cut/src/mesh/Extrude.cpp
+++ b/tools/edge_cut/src/mesh/Extrude.cpp
@@ -457,6 +457,7 @@ void edge_cut::mesh::Extrude::writeOff( std::ostream & io_left,
 
   // top
   std::stringstream l_top;
+  l_top.precision( io_top.precision() );
   writePtsOff( m_veCrdsSurf,
                l_top );
   std::size_t l_nTria = writeTriaOff( m_nx[0],
-- 
2.43.0


From 2a7f4a44edbb086963acbae228d07155bf10218d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:08 +0000
Subject: [PATCH 13/19] fix: do not scale the advection flux solvers of first
 order tets by six

The inverse mass matrix is part of the flux matrices for every order.
---
 src/impl/advection/solvers/common.hpp | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/src/impl/advection/solvers/common.hpp b/src/impl/advection/solvers/common.hpp
index 2e46f9c..6c5a447 100644
--- a/src/impl/advection/solvers/common.hpp
+++ b/src/impl/advection/solvers/common.hpp
@@ -295,14 +295,6 @@ class edge::advection::solvers::common {
 #error number of dimensions not supported.
 #endif
 
-        if( T_SDISC.ELEMENT == TET4 && ORDER == 1 ) {
-          // Remark: For tets the determinant is not equal to the volume of the tets.
-          //         We apply the effect of the inverse mass matrix right here.
-          //         Effectively this just scales the flux solver by the volume of the tets.
-          if( l_exL == true ) l_jL /= (double) 6;
-          if( l_exR == true ) l_jR /= (double) 6;
-        }
-
         // ensure positive determinants
         EDGE_CHECK( l_exL == false || l_jL > 0 );  EDGE_CHECK( l_exR == false || l_jR > 0 );
         EDGE_CHECK_GT( i_faChars[l_fa].area, 0 );
-- 
2.43.0


From 40da496f8d623eb2c493cce31fa56124f15f1fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:53 +0000
Subject: [PATCH 14/19] fix: use elastic Lame parameters of receive elements in
 viscoelastic settings

The parameters are exchanged before the solver replaces phase by elastic
values; faces at partition boundaries mixed both.
---
 src/impl/seismic/solvers/AderDg.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/impl/seismic/solvers/AderDg.hpp b/src/impl/seismic/solvers/AderDg.hpp
index b91fa2d..dec40b1 100644
--- a/src/impl/seismic/solvers/AderDg.hpp
+++ b/src/impl/seismic/solvers/AderDg.hpp
@@ -26,6 +26,7 @@
 #ifndef EDGE_SEISMIC_SOLVERS_ADER_DG_HPP
 #define EDGE_SEISMIC_SOLVERS_ADER_DG_HPP
 
+#include <vector>
 #include <limits>
 #include "constants.hpp"
 #include "mesh/common.hpp"
@@ -215,7 +216,7 @@ class edge::seismic::solvers::AderDg {
      * @param i_faChars face characteristics.
      * @param i_elChars elements characteristics.
      * @param io_bgPars background parameters (phase lambda and mu will be replaced with elastic lambda an mu if TL_N_RMS>0).
-     * @param i_bgParsRe background parameters of the receive elements.
+     * @param i_bgParsRe background parameters of the receive elements (phase lambda and mu if TL_N_RMS>0).
      * @param i_freqCen central frequency for attenuation.
      * @param i_freqRat frequency ratio between upper and lower frequencies for attenuation.
      * @param io_dynMem dynamic memory management.
@@ -282,6 +283,19 @@ class edge::seismic::solvers::AderDg {
                                             m_srcA );
       }
 
+      // the receive elements' parameters are given as phase values as well
+      std::vector< t_bgPars > l_bgParsRe( i_bgParsRe, i_bgParsRe+i_nCommElFa );
+      if( TL_N_RMS > 0 ) {
+        std::vector< TL_T_REAL > l_srcRe( i_nCommElFa * std::size_t(TL_N_RMS) * TL_N_ENS_SRC_A );
+        AderDgInit< TL_T_EL,
+                    TL_MATS_SP >::initSrcA( i_nCommElFa,
+                                            TL_N_RMS,
+                                            i_freqCen,
+                                            i_freqRat,
+                                            l_bgParsRe.data(),
+                                            (TL_T_REAL (*)[TL_N_ENS_SRC_A]) l_srcRe.data() );
+      }
+
       // init star matrices
       AderDgInit< TL_T_EL,
                   TL_MATS_SP >::initStar( l_nEls,
@@ -306,7 +320,7 @@ class edge::seismic::solvers::AderDg {
                                         i_faChars,
                                         i_elChars,
                                         io_bgPars,
-                                        i_bgParsRe,
+                                        l_bgParsRe.data(),
                                         m_fsE,
                                         m_fsA );
     }
-- 
2.43.0


From 430ea0a4666a909134ea820fb7dbf66d80343ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:49 +0000
Subject: [PATCH 15/19] fix: pass the communication buffers to the advection
 solver

The buffers' pointers were never assigned: simulations with more than one
rank dereferenced a null pointer.
---
 src/impl/advection/inc/time/tgs_steps.inc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/impl/advection/inc/time/tgs_steps.inc b/src/impl/advection/inc/time/tgs_steps.inc
index 5c3d9b7..712b979 100644
--- a/src/impl/advection/inc/time/tgs_steps.inc
+++ b/src/impl/advection/inc/time/tgs_steps.inc
@@ -24,7 +24,7 @@
 if( i_step == 0 ) {
   real_base (** l_sendPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
+    l_sendPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_sendPtrs[getUpdatesSync()%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->local(  i_first,
                                          i_size,
@@ -40,7 +40,7 @@ if( i_step == 0 ) {
 else if( i_step == 1 ) {
   real_base (** l_recvPtrs)[N_ELEMENT_MODES][N_CRUNS] = nullptr;
   if( m_nCommBuffers > 0 ) {
-    (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
+    l_recvPtrs = (real_base (**) [N_ELEMENT_MODES][N_CRUNS]) m_recvPtrs[(getUpdatesSync()/m_nCommBuffers)%m_nCommBuffers];
   }
   m_internal.m_globalShared4[0]->neigh( i_first,
                                         i_size,
-- 
2.43.0


From b72021a8c04176ac1a8adce3dd745a32d346b2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:30 +0000
Subject: [PATCH 16/19] fix: evaluate the derivative of line basis functions
 for the first reference direction

Only direction 1, which doesn't exist for lines, returned the derivative.
---
 src/dg/Basis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dg/Basis.cpp b/src/dg/Basis.cpp
index 3f2f70d..66c3c4f 100644
--- a/src/dg/Basis.cpp
+++ b/src/dg/Basis.cpp
@@ -376,7 +376,7 @@ real_base edge::dg::Basis::evalBasis( unsigned int  i_b,
   real_base l_val = std::numeric_limits< real_base >::max();
 
   if( i_entType == LINE )
-    if( i_der != 1 ) evalBasisLine( i_b,
+    if( i_der != 0 ) evalBasisLine( i_b,
                                     i_xi,
                                     l_val );
     else             evalBasisDerLine( i_b,
@@ -428,7 +428,7 @@ real_base edge::dg::Basis::evalBasis( unsigned int        i_b,
   real_base l_val = std::numeric_limits< real_base >::max();
 
   if( i_enType == LINE )
-    if( i_der != 1 ) evalBasisLine( i_b,
+    if( i_der != 0 ) evalBasisLine( i_b,
                                     i_pt[0],
                                     l_val );
     else             evalBasisDerLine( i_b,
-- 
2.43.0


From d48ec9ae11cf1d6670fa03ad44d3c8f6a652a61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:37 +0000
Subject: [PATCH 17/19] fix: shallow water set-up in double precision and for
 line elements

std::max was called with a float and a double, and the loop wrote a third
quantity which line elements do not have.
---
 src/impl/swe/setup.inc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/impl/swe/setup.inc b/src/impl/swe/setup.inc
index 3b876ce..a76fbce 100644
--- a/src/impl/swe/setup.inc
+++ b/src/impl/swe/setup.inc
@@ -54,9 +54,9 @@ if( l_meshData ) {
     l_internal.m_elementModeShared1[l_el][0][0] = l_bath[l_el];
     for( unsigned short l_cr = 0; l_cr < N_CRUNS; l_cr++ ) {
       // add displacement to water column since we share the bathymetry
-      l_internal.m_elementModePrivate1[l_el][0][0][l_cr] = std::max( -l_bath[l_el] + l_disp[l_cr][l_el], real_base(0) );
-      l_internal.m_elementModePrivate1[l_el][1][0][l_cr] = 0;
-      l_internal.m_elementModePrivate1[l_el][2][0][l_cr] = 0;
+      l_internal.m_elementModePrivate1[l_el][0][0][l_cr] = std::max( real_base( -l_bath[l_el] + l_disp[l_cr][l_el] ), real_base(0) );
+      for( unsigned short l_qt = 1; l_qt < N_QUANTITIES; l_qt++ )
+        l_internal.m_elementModePrivate1[l_el][l_qt][0][l_cr] = 0;
     }
   }
 
-- 
2.43.0


From 1e22a47eea95c41577b0dac0e323db2005b48469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:37 +0000
Subject: [PATCH 18/19] fix: no wave field files without an output type

---
 src/io/WaveField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/WaveField.cpp b/src/io/WaveField.cpp
index 4faafd0..f81516c 100644
--- a/src/io/WaveField.cpp
+++ b/src/io/WaveField.cpp
@@ -101,7 +101,7 @@ void edge::io::WaveField::write( double i_time ) {
   l_outFile += "_" + parallel::g_rankStr + "_" + std::to_string((unsigned long long) m_writeStep) + ".vtk";
 
   // write output
-  if( m_elPrint.size() > 0 )
+  if( m_type != none && m_elPrint.size() > 0 )
     m_vtk.write( l_outFile,
                   m_type==vtkBinary,
                   m_nVes,
-- 
2.43.0


From ddc52906eb3f49e135bcae3a22fa667b833a3a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:37 +0000
Subject: [PATCH 19/19] fix: keep EDGE-V's default dry tolerance if none is
 given

---
 tools/edge_v/src/io/Config.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/edge_v/src/io/Config.cpp b/tools/edge_v/src/io/Config.cpp
index a626093..25c8e79 100644
--- a/tools/edge_v/src/io/Config.cpp
+++ b/tools/edge_v/src/io/Config.cpp
@@ -77,7 +77,7 @@ edge_v::io::Config::Config( std::string & i_xml ) {
 
   // tsunami models
   pugi::xml_node l_tsunami = l_velMod.child("tsunami");
-  m_tsunami.dryTol = l_tsunami.child("dry_tolerance").text().as_double();
+  m_tsunami.dryTol = l_tsunami.child("dry_tolerance").text().as_double( m_tsunami.dryTol );
   m_tsunami.bath = l_tsunami.child("bathymetry").text().as_string();
   for( pugi::xml_node l_disp = l_tsunami.child("displacements"); l_disp; l_disp = l_disp.next_sibling("displacements") ) {
     m_tsunami.disp.push_back( l_disp.text().as_string() );
-- 
2.43.0

