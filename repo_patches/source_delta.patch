From 13295c6ea80bd60c1ff994ddd2aef2f390abf3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:52 +0000
Subject: [PATCH 01/96] fix: clear point references to a triangle removed by
 DeleteTri

---
 include/delfem2/dtri_topology.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/dtri_topology.cpp b/include/delfem2/dtri_topology.cpp
index 01a3c40..33157e8 100644
--- a/include/delfem2/dtri_topology.cpp
+++ b/include/delfem2/dtri_topology.cpp
@@ -637,6 +637,9 @@ DFM2_INLINE bool delfem2::DeleteTri(
   assert(aTri[itri_to].s2[1] == UINT_MAX);
   assert(aTri[itri_to].s2[2] == UINT_MAX);
   assert(aTri.size() > 0);
+  for (unsigned int ipo0 : aTri[itri_to].v) { // points must not refer to the deleted triangle
+    if (aPo[ipo0].e == itri_to) { aPo[ipo0].e = UINT_MAX; }
+  }
   const size_t itri_from = aTri.size() - 1;
   if (itri_to == itri_from) {
     aTri.resize(aTri.size() - 1);
-- 
2.43.0


From 29bcaa4a6324932f03e566b2e476d1dcb1cd2419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:57 +0000
Subject: [PATCH 02/96] fix: walk around a point with the right neighbour index
 when looking for the edge crossed by a segment

---
 include/delfem2/dtri2_v2dtri.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index b062af1..79764f1 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -80,7 +80,7 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
       const unsigned int inotri2 = (inotri_cur + 1) % 3;
       const unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
       if (itri_nex == UINT_MAX) { break; }
-      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_nex], inotri2, aDTri);
+      const unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
       const unsigned int inotri3 = (jnob + 1) % 3;
       assert(itri_nex < aDTri.size());
       assert(aDTri[itri_nex].v[inotri3] == ipo0);
@@ -123,8 +123,9 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
     {
       const unsigned int inotri2 = (inotri_cur + 2) % 3;
       unsigned int itri_nex = aDTri[itri_cur].s2[inotri2];
+      if (itri_nex == UINT_MAX) { break; }
       unsigned int jnob = FindAdjEdgeIndex(aDTri[itri_cur], inotri2, aDTri);
-      const unsigned int inotri3 = (jnob + 1) % 3;
+      const unsigned int inotri3 = (jnob + 2) % 3;
       assert(aDTri[itri_nex].v[inotri3] == ipo0);
       if (itri_nex == itri_ini) {
         assert(0);
-- 
2.43.0


From f3a8296aee850d414058ff67264c3c70a008c86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:44 +0000
Subject: [PATCH 03/96] fix: force an edge into a triangulation by flipping
 only convex quadrilaterals

---
 include/delfem2/dtri2_v2dtri.cpp | 112 +++++++++++++++++++++++--------
 1 file changed, 83 insertions(+), 29 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 79764f1..0c18399 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -8,6 +8,7 @@
 #include "delfem2/dtri2_v2dtri.h"
 
 #include <set>
+#include <deque>
 #include <algorithm>
 #include <climits>
 
@@ -143,6 +144,87 @@ DFM2_INLINE bool FindEdgePoint_AcrossEdge(
   return false;
 }
 
+/**
+ * @brief flip the edges crossing the segment (ip0,ip1) until the segment is an edge
+ * @details an edge is flipped only if the two triangles around it make a strictly convex quadrilateral,
+ * otherwise the flip would make an inverted triangle. Such edge is postponed.
+ */
+DFM2_INLINE bool ClearEdgesAcrossSegment(
+    const unsigned int ip0,
+    const unsigned int ip1,
+    std::vector<CDynPntSur> &aPo2D,
+    std::vector<CDynTri> &aTri,
+    const std::vector<CVec2d> &aVec2) {
+  std::deque<std::pair<unsigned int, unsigned int> > aEdge; // points of edge on the right and left of the segment
+  {
+    unsigned int itri0, inotri0, inotri1;
+    double ratio;
+    if (!FindEdgePoint_AcrossEdge(itri0, inotri0, inotri1, ratio,
+                                  ip0, ip1,
+                                  aPo2D, aTri, aVec2)) {
+      assert(0);
+      return false;
+    }
+    for (;;) {
+      const unsigned int ipR = aTri[itri0].v[inotri0];
+      const unsigned int ipL = aTri[itri0].v[inotri1];
+      if (Area_Tri2(aVec2[ip0], aVec2[ipR], aVec2[ip1]) < 1.0e-20 ||
+          Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[ipL]) < 1.0e-20) { // there is a point on the segment
+        assert(0);
+        abort();
+      }
+      aEdge.emplace_back(ipR, ipL);
+      const unsigned int ied0 = 3 - inotri0 - inotri1;
+      const unsigned int itri1 = aTri[itri0].s2[ied0];
+      if (itri1 == UINT_MAX) { return false; } // segment goes out of the mesh
+      const unsigned int ied1 = FindAdjEdgeIndex(aTri[itri0], ied0, aTri);
+      const unsigned int ip2 = aTri[itri1].v[ied1];
+      if (ip2 == ip1) { break; }
+      itri0 = itri1;
+      if (Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[ip2]) > 0) { // (ipR,ip2)
+        inotri0 = (ied1 + 2) % 3;
+        inotri1 = ied1;
+      } else { // (ip2,ipL)
+        inotri0 = ied1;
+        inotri1 = (ied1 + 1) % 3;
+      }
+    }
+  }
+  size_t npostpone = 0;
+  while (!aEdge.empty()) {
+    const unsigned int ipR = aEdge.front().first;
+    const unsigned int ipL = aEdge.front().second;
+    aEdge.pop_front();
+    unsigned int itri0 = UINT_MAX, inotri0 = 0;
+    // the points may belong to several fans of triangles after some edges are enforced
+    FindEdge_LookAllTriangles(itri0, inotri0, ipR, ipL, aTri);
+    if (itri0 == UINT_MAX) {
+      assert(0);
+      return false;
+    }
+    const unsigned int ied0 = (inotri0 + 2) % 3;
+    if (aTri[itri0].s2[ied0] == UINT_MAX) { return false; } // the segment crosses another enforced edge
+    const unsigned int ipA = aTri[itri0].v[ied0];
+    const unsigned int ipB = aTri[aTri[itri0].s2[ied0]].v[FindAdjEdgeIndex(aTri[itri0], ied0, aTri)];
+    if (Area_Tri2(aVec2[ipA], aVec2[ipR], aVec2[ipB]) < 1.0e-20 ||
+        Area_Tri2(aVec2[ipA], aVec2[ipB], aVec2[ipL]) < 1.0e-20) { // not convex
+      aEdge.emplace_back(ipR, ipL);
+      npostpone++;
+      if (npostpone > aEdge.size()) { return false; } // no edge can be flipped
+      continue;
+    }
+    npostpone = 0;
+    FlipEdge(itri0, ied0, aPo2D, aTri);
+    if (ipA == ip0 || ipA == ip1 || ipB == ip0 || ipB == ip1) { continue; }
+    const bool isA = Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[ipA]) > 0; // true: point is on the left
+    const bool isB = Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[ipB]) > 0;
+    if (isA == isB) { continue; }
+    if (isA) { aEdge.emplace_back(ipB, ipA); }
+    else { aEdge.emplace_back(ipA, ipB); }
+  }
+  return true;
+}
+
 } // cad2
 } // delfem2
 
@@ -441,35 +523,7 @@ DFM2_INLINE void delfem2::EnforceEdge
       }
       break;
     } else { // this edge is devided from connection outer triangle
-      double ratio;
-      if (!dtri2::FindEdgePoint_AcrossEdge(itri0, inotri0, inotri1, ratio,
-                                           ip0, ip1,
-                                           aPo2D, aTri, aVec2)) { assert(0); }
-      assert(ratio > -1.0e-20 && ratio < 1.0 + 1.0e-20);
-      assert(Area_Tri2(aVec2[ip0], aVec2[aTri[itri0].v[inotri0]], aVec2[ip1]) > 1.0e-20);
-      assert(Area_Tri2(aVec2[ip0], aVec2[ip1], aVec2[aTri[itri0].v[inotri1]]) > 1.0e-20);
-      //            std::cout << ratio << std::endl;
-      if (ratio < 1.0e-20) {
-        assert(0);
-        abort();
-      } else if (ratio > 1.0 - 1.0e-10) {
-        assert(0);
-        abort();
-      } else {
-        const int ied0 = 3 - inotri0 - inotri1;
-        assert(aTri[itri0].s2[ied0] < aTri.size());
-#if !defined(NDEBUG)
-        const unsigned int itri1 = aTri[itri0].s2[ied0];
-        const unsigned int ied1 = FindAdjEdgeIndex(aTri[itri0], ied0, aTri);
-        assert(aTri[itri1].s2[ied1] == itri0);
-#endif
-        bool res = FlipEdge(itri0, ied0, aPo2D, aTri);
-//        std::cout << itri0 << " " << ied0 << " " << ratio << " " << res << std::endl;
-//        continue;
-        if (!res) {
-          break;
-        }
-      }
+      if (!dtri2::ClearEdgesAcrossSegment(ip0, ip1, aPo2D, aTri, aVec2)) { break; }
     }
   }
 }
-- 
2.43.0


From 19c6cc787b0bdc498c1a839905d4458f5ca58b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:45 +0000
Subject: [PATCH 04/96] fix: read the added points of the current segment in
 ResamplingLoop

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index 18e0956..b381555 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -341,7 +341,7 @@ void delfem2::ResamplingLoop(
       const int ip_loop = loopIP0[iip_loop];
       loopIP1[ivtx0] = ip_loop;
       ivtx0++;
-      for (std::size_t iadd = 0; iadd < aPoInEd[ip_loop].size(); iadd++) {
+      for (std::size_t iadd = 0; iadd < aPoInEd[iip_loop].size(); iadd++) {
         loopIP1[ivtx0] = aPoInEd[iip_loop][iadd];
         ivtx0++;
       }
-- 
2.43.0


From 358e4f95b4156c08bf29a701a887ba0a8bcaf93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 05/96] fix: read x of the segment end when checking crossing
 of two loops

---
 include/delfem2/geo_polygon2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polygon2.cpp b/include/delfem2/geo_polygon2.cpp
index b381555..eeb9b5f 100644
--- a/include/delfem2/geo_polygon2.cpp
+++ b/include/delfem2/geo_polygon2.cpp
@@ -481,7 +481,7 @@ bool delfem2::CheckInputBoundaryForTriangulation(
             int jpo1 = loopIP_ind[jloop] + jbar + 1;
             if (jbar == nbar_j - 1) { jpo1 = loopIP_ind[jloop]; }
             const double pj0[2] = {aXY[jpo0].p[0], aXY[jpo0].p[1]};
-            const double pj1[2] = {aXY[jpo1].p[1], aXY[jpo1].p[1]};
+            const double pj1[2] = {aXY[jpo1].p[0], aXY[jpo1].p[1]};
             const double xmax_j = (pj1[0] > pj0[0]) ? pj1[0] : pj0[0];
             const double xmin_j = (pj1[0] < pj0[0]) ? pj1[0] : pj0[0];
             const double ymax_j = (pj1[1] > pj0[1]) ? pj1[1] : pj0[1];
-- 
2.43.0


From 38c6e032ef2d4a27f49f0c118ef463c57fa1945a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:55 +0000
Subject: [PATCH 06/96] fix: reset point references under the new numbering
 when points are removed

---
 include/delfem2/dtri2_v2dtri.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index 0c18399..fa6c0ec 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -624,6 +624,8 @@ DFM2_INLINE void delfem2::DeleteUnrefPoints(
       if (map_po_del[ipo] == UINT_MAX) continue;
       unsigned int ipo1 = map_po_del[ipo];
       aPo2D[ipo1] = aPo_tmp[ipo];
+      aPo2D[ipo1].e = UINT_MAX; // set below if some triangle uses this point
+      aPo2D[ipo1].d = 0;
       aVec2[ipo1] = aVec2_tmp[ipo];
     }
   }
@@ -631,9 +633,10 @@ DFM2_INLINE void delfem2::DeleteUnrefPoints(
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri_in[itri].v[ifatri];
       assert(map_po_del[ipo] != UINT_MAX);
-      aTri_in[itri].v[ifatri] = map_po_del[ipo];
-      aPo2D[ipo].e = itri;
-      aPo2D[ipo].d = ifatri;
+      const unsigned int ipo1 = map_po_del[ipo];
+      aTri_in[itri].v[ifatri] = ipo1;
+      aPo2D[ipo1].e = itri;
+      aPo2D[ipo1].d = ifatri;
     }
   }
 }
@@ -670,6 +673,8 @@ DFM2_INLINE void delfem2::DeletePointsFlag(
       int ipo1 = map01[ipo0];
       assert(ipo1 >= 0 && ipo1 < npo1);
       aPo1[ipo1] = aPo0[ipo0];
+      aPo1[ipo1].e = UINT_MAX; // set below if some triangle uses this point
+      aPo1[ipo1].d = 0;
       aVec1[ipo1] = aVec0[ipo0];
       aFlgPnt1[ipo1] = aFlgPnt0[ipo0];
     }
@@ -677,9 +682,11 @@ DFM2_INLINE void delfem2::DeletePointsFlag(
   for (unsigned int itri = 0; itri < aTri.size(); itri++) {
     for (int ifatri = 0; ifatri < 3; ifatri++) {
       const unsigned int ipo = aTri[itri].v[ifatri];
-      aTri[itri].v[ifatri] = map01[ipo];
-      aPo1[ipo].e = itri;
-      aPo1[ipo].d = ifatri;
+      const int ipo1 = map01[ipo];
+      assert(ipo1 >= 0 && ipo1 < npo1);
+      aTri[itri].v[ifatri] = ipo1;
+      aPo1[ipo1].e = itri;
+      aPo1[ipo1].d = ifatri;
     }
   }
 }
-- 
2.43.0


From df01ddf99dba982949b776d68f7d1d6b21e7ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:22 +0000
Subject: [PATCH 07/96] fix: look up the vertices of a CAD face through the
 loops of that face

---
 include/delfem2/cad2.cpp  |  2 +-
 include/delfem2/cadtopo.h | 10 ++++++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index c23121f..3516769 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -437,7 +437,7 @@ DFM2_INLINE void delfem2::Cad2_Ui::DragPicked(
     return;
   }
   if (iface_picked < cad.topo.faces.size()) {
-    std::vector<unsigned int> aIdV = cad.topo.loops[iface_picked].GetArray_IdVertex(cad.topo.edges);
+    std::vector<unsigned int> aIdV = cad.topo.VertexIndexs_Face(iface_picked);
     for (unsigned int iv1: aIdV) {
       cad.aVtx[iv1].pos.p[0] += p1x - p0x;
       cad.aVtx[iv1].pos.p[1] += p1y - p0y;
diff --git a/include/delfem2/cadtopo.h b/include/delfem2/cadtopo.h
index d329f52..80b823a 100644
--- a/include/delfem2/cadtopo.h
+++ b/include/delfem2/cadtopo.h
@@ -31,6 +31,7 @@ class CadTopo_Loop {
 
   std::vector<unsigned int> GetArray_IdVertex(
       const std::vector<CadTopo_Edge> &edges) const {
+    if( iv != UINT_MAX ){ return {iv}; }
     std::vector<unsigned int> res;
     for ( auto [ie0,dir] : aIE ) {
       assert( ie0 < edges.size() );
@@ -59,7 +60,7 @@ class CadTopo_Loop {
       const std::vector<CadTopo_Edge> &edges) const {
     if( iv != UINT_MAX ){
       assert( aIE.empty() );
-      return true;
+      return ivtx == iv;
     }
     for (auto [ie0,dir] : aIE) {
       assert( ie0 < edges.size() );
@@ -201,7 +202,12 @@ public:
       unsigned int iface) const
   {
     assert(iface < faces.size());
-    return loops[iface].GetArray_IdVertex(this->edges);
+    std::vector<unsigned int> res;
+    for(unsigned int il : faces[iface].aIL) {
+      const std::vector<unsigned int> tmp = loops[il].GetArray_IdVertex(this->edges);
+      res.insert( res.end(), tmp.begin(), tmp.end() );
+    }
+    return res;
   }
 
   std::vector<std::pair<unsigned int,bool> > EdgeIndexes_Face(unsigned int iface) const
-- 
2.43.0


From 5a2cd097002d7f622988d28a6cf69d1442a48779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:23 +0000
Subject: [PATCH 08/96] fix: keep the control point of quadratic curves when a
 CAD loop is inverted

---
 include/delfem2/cad2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/cad2.cpp b/include/delfem2/cad2.cpp
index 3516769..369a06e 100644
--- a/include/delfem2/cad2.cpp
+++ b/include/delfem2/cad2.cpp
@@ -269,6 +269,10 @@ DFM2_INLINE std::vector<delfem2::CCad2D_EdgeGeo> delfem2::InvertLoop(
       eo.param[1] = (pB - eo.p0).y;
       eo.param[2] = (pA - eo.p1).x;
       eo.param[3] = (pA - eo.p1).y;
+    } else if (ei.type_edge == CCad2D_EdgeGeo::BEZIER_QUADRATIC) {
+      CVec2d pA = ei.p0 + CVec2d(ei.param[0], ei.param[1]);
+      eo.param[0] = (pA - eo.p0).x;
+      eo.param[1] = (pA - eo.p0).y;
     }
   }
   return aEdgeOut;
-- 
2.43.0


From c518096822957e11906866234c2523e8e3518bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:38 +0000
Subject: [PATCH 09/96] fix: do not let Laplacian smoothing invert triangles
 when meshing inside a region

---
 include/delfem2/dtri2_v2dtri.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/delfem2/dtri2_v2dtri.cpp b/include/delfem2/dtri2_v2dtri.cpp
index fa6c0ec..90cdad9 100644
--- a/include/delfem2/dtri2_v2dtri.cpp
+++ b/include/delfem2/dtri2_v2dtri.cpp
@@ -37,7 +37,21 @@ DFM2_INLINE bool LaplacianArroundPoint
     if (!MoveCCW(itri0, ino0, UINT_MAX, aTri)) { return false; }
     if (itri0 == aPo[ipoin].e) { break; }
   }
+  const CVec2d pos_old = aVec2[ipoin];
   aVec2[ipoin] = vec_delta / ntri_around;
+  itri0 = aPo[ipoin].e;
+  ino0 = aPo[ipoin].d;
+  for (;;) { // do not move the point if it makes a triangle around it inverted
+    const double area = Area_Tri2(aVec2[aTri[itri0].v[0]],
+                                  aVec2[aTri[itri0].v[1]],
+                                  aVec2[aTri[itri0].v[2]]);
+    if (!(area > 0.)) {
+      aVec2[ipoin] = pos_old;
+      return false;
+    }
+    MoveCCW(itri0, ino0, UINT_MAX, aTri);
+    if (itri0 == aPo[ipoin].e) { break; }
+  }
   return true;
 }
 
-- 
2.43.0


From 207f8acdc545c9d9a20ae5e043b2960aa5ae0aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 10/96] fix: list the edge between vertices 2 and 3 of a
 tetrahedron

---
 include/delfem2/mshelm.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mshelm.h b/include/delfem2/mshelm.h
index d43e3cb..e045794 100644
--- a/include/delfem2/mshelm.h
+++ b/include/delfem2/mshelm.h
@@ -149,7 +149,7 @@ const int noelElemEdge_Tet[6][2] = {
   { 0, 3},
   { 1, 2},
   { 1, 3},
-  { 2, 2},
+  { 2, 3},
 };
 const int noelElemEdge_Quad[4][2] = {
   { 0, 1},
-- 
2.43.0


From 57074fc813faba39ee7df4a265e22e826b2dc77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:12 +0000
Subject: [PATCH 11/96] fix: reset the output arrays of the edge and line
 tables

---
 include/delfem2/jagarray.cpp             | 3 +--
 include/delfem2/msh_topology_uniform.cpp | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/jagarray.cpp b/include/delfem2/jagarray.cpp
index bb66659..54ba3d6 100644
--- a/include/delfem2/jagarray.cpp
+++ b/include/delfem2/jagarray.cpp
@@ -21,8 +21,7 @@ DFM2_INLINE void delfem2::JArrayEdgeUnidir_PointSurPoint(
     const std::vector<unsigned int> &psup) {
   assert(psup_ind.size() >= 2);
   const std::size_t np = psup_ind.size() - 1;
-  edge_ind.resize(np + 1);
-  edge_ind[0] = 0;
+  edge_ind.assign(np + 1, 0);
   edge.clear();
   //
   for (unsigned int ip = 0; ip < np; ++ip) {
diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 21aab1f..76ad481 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -70,6 +70,7 @@ DFM2_INLINE void delfem2::ElemQuad_DihedralTri(
     const unsigned int *tri_vtx_idx,
     const size_t num_tri,
     const size_t num_vtx) {
+  quad_vtx_idx.clear();
   std::vector<unsigned int> aElSuEl;
   ElSuEl_MeshElem(
       aElSuEl,
@@ -373,6 +374,7 @@ DFM2_INLINE void delfem2::JArrayEdge_MeshElem(
   const std::size_t nPoint0 = elsup_ind.size() - 1;
   edge_ind.resize(nPoint0 + 1);
   edge_ind[0] = 0;
+  edge.clear();
   for (unsigned int ip = 0; ip < nPoint0; ++ip) {
     std::set<unsigned int> setIP;
     for (unsigned int ielsup = elsup_ind[ip]; ielsup < elsup_ind[ip + 1]; ++ielsup) {
@@ -402,6 +404,7 @@ DFM2_INLINE void delfem2::MeshLine_JArrayEdge(
     //
     const std::vector<unsigned int> &psup_ind,
     const std::vector<unsigned int> &psup) {
+  line_vtx.clear();
   line_vtx.reserve(psup.size() * 2);
   const std::size_t np = psup_ind.size() - 1;
   for (unsigned int ip = 0; ip < np; ++ip) {
-- 
2.43.0


From 0934a1d9a85f4fb925a5e133d36b5ddd5c0badfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 12/96] fix: merge only texture vertices at the same corner
 when unifying separate indexing

---
 include/delfem2/msh_topology_uniform.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 76ad481..8351cff 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -522,7 +522,9 @@ void delfem2::UnifySeparateIndexing_PosTex(
   std::vector<unsigned int> elsup1_ind, elsup1;
   JArray_ElSuP_MeshTri(
       elsup1_ind, elsup1, elem_vtx_tex, vtx_tex.size()/2);
-  tri_uni.resize(elem_vtx_xyz.size(),UINT_MAX);
+  uni_xyz.clear();
+  uni_tex.clear();
+  tri_uni.assign(elem_vtx_xyz.size(),UINT_MAX);
   for(unsigned int itri=0;itri<elem_vtx_xyz.size()/3;++itri){
     for(unsigned int ino=0;ino<3;++ino){
       if( tri_uni[itri*3+ino] != UINT_MAX ) { continue; }
@@ -542,7 +544,7 @@ void delfem2::UnifySeparateIndexing_PosTex(
       for(unsigned jtri : tris){
         const unsigned int jno = FindIndexTri(elem_vtx_xyz.data()+jtri*3, ixyz);
         assert( elem_vtx_xyz[jtri*3+jno] == ixyz );
-        assert( elem_vtx_tex[jtri*3+jno] == itex );
+        if( elem_vtx_tex[jtri*3+jno] != itex ) { continue; } // this pair is not at the same corner
         assert( tri_uni[jtri*3+jno] == UINT_MAX );
         tri_uni[jtri*3+jno] = iuni;
       }
-- 
2.43.0


From a1b101100e4d73a1efd3d870a484fc0692835428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 13/96] fix: allow adding elements to an empty mixed mesh

---
 include/delfem2/msh_topology_mix.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 24f39a4..75601c2 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -19,7 +19,7 @@ DFM2_INLINE void delfem2::AddElement
   //
   std::copy(aElemIn.begin(), aElemIn.end(), std::back_inserter(aElem));
   //
-  assert( aElemInd.size() >= 2 );
+  assert( !aElemInd.empty() );
   const std::size_t nelem0 = aElemInd.size()-1;
   const int nei0 = aElemInd[nelem0];
   aElemInd.reserve(aElemInd.size()+nElemIn);
-- 
2.43.0


From 8db5d754a34e334dd49eed689777da337714745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 14/96] fix: give boundary lines of a mixed mesh their element
 type

---
 include/delfem2/msh_topology_mix.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 75601c2..8d4fecd 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -175,7 +175,8 @@ DFM2_INLINE void delfem2::Boundary_MeshMix
       if( aElemFaceRel[iiface*2+0] != -1 ) continue;
       const int iface = iiface-aElemFaceInd[ielem];
       const int nnofa_i = nNodeElemFace(type_i,iface);
-      if(      nnofa_i == 3 ){ aElemType_Bound.push_back(MESHELEM_TRI ); }
+      if(      nnofa_i == 2 ){ aElemType_Bound.push_back(MESHELEM_LINE); }
+      else if( nnofa_i == 3 ){ aElemType_Bound.push_back(MESHELEM_TRI ); }
       else if( nnofa_i == 4 ){ aElemType_Bound.push_back(MESHELEM_QUAD); }
       aElemInd_Bound.push_back(nnofa_i);
       for(int inofa=0;inofa<nnofa_i;++inofa){
-- 
2.43.0


From 367fab8f8fcf360ac8fb0a9083fb1925c5171dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:41 +0000
Subject: [PATCH 15/96] fix: group elements that share a side with more than
 one other element

---
 include/delfem2/msh_topology_mix.cpp     | 33 +++++++++++++++---------
 include/delfem2/msh_topology_uniform.cpp | 33 +++++++++++++++---------
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/include/delfem2/msh_topology_mix.cpp b/include/delfem2/msh_topology_mix.cpp
index 8d4fecd..a5813b1 100644
--- a/include/delfem2/msh_topology_mix.cpp
+++ b/include/delfem2/msh_topology_mix.cpp
@@ -3,6 +3,7 @@
 #include "delfem2/msh_topology_mix.h"
 
 #include <stack>
+#include <algorithm>
 #include <cassert>
 
 DFM2_INLINE void delfem2::AddElement
@@ -334,20 +335,28 @@ DFM2_INLINE void delfem2::MakeGroupElem(
   assert(!aElemInd.empty());
   const int unsigned nelem = aElemInd.size()-1;
   assert( aElemFaceInd.size() == (nelem+1) );
-  aIndGroup.assign(nelem,-1);
-  int igroup = -1;
-  for(;;){
-    unsigned int ielem_ker = 0;
-    for(;ielem_ker<nelem;++ielem_ker){
-      if( aIndGroup[ielem_ker]==-1) break;
+  // the relation is one-sided where more than two elements share a side,
+  // so merge sets instead of following the relation in its direction
+  std::vector<unsigned int> parent(nelem); // an element of the same group, not larger than itself
+  for(unsigned int ie=0;ie<nelem;++ie){ parent[ie] = ie; }
+  const auto root = [&parent](unsigned int ie){
+    while( parent[ie] != ie ){ ie = parent[ie]; }
+    return ie;
+  };
+  for(unsigned int ie=0;ie<nelem;++ie){
+    for(int iiface=aElemFaceInd[ie];iiface<aElemFaceInd[ie+1];++iiface){
+      const int je = aElemFaceRel[iiface*2+0];
+      if( je == -1 ) continue;
+      const unsigned int ir = root(ie), jr = root(je);
+      parent[std::max(ir,jr)] = parent[ie] = parent[je] = std::min(ir,jr);
     }
-    if( ielem_ker == nelem ) break;
-    igroup++;
-    MarkConnectedElements(aIndGroup,
-                          ielem_ker, igroup,
-                          aElemFaceInd,aElemFaceRel);
   }
-  ngroup = igroup+1;
+  ngroup = 0;
+  aIndGroup.resize(nelem);
+  for(unsigned int ie=0;ie<nelem;++ie){
+    if( parent[ie] == ie ){ aIndGroup[ie] = ngroup++; }
+    else{ aIndGroup[ie] = aIndGroup[parent[ie]]; }
+  }
 }
 
 
diff --git a/include/delfem2/msh_topology_uniform.cpp b/include/delfem2/msh_topology_uniform.cpp
index 8351cff..43d1bb0 100644
--- a/include/delfem2/msh_topology_uniform.cpp
+++ b/include/delfem2/msh_topology_uniform.cpp
@@ -474,20 +474,29 @@ DFM2_INLINE void delfem2::MakeGroupElem(
     [[maybe_unused]] const int num_face_par_elem,
     const int num_vtx_par_elem) {
   const std::size_t nelem = elem_vtx.size() / num_vtx_par_elem;
-  elem_flag.assign(nelem, UINT_MAX);
-  int igroup = -1;
-  for (;;) {
-    unsigned int itri_ker = 0;
-    for (; itri_ker < nelem; ++itri_ker) {
-      if (elem_flag[itri_ker] == UINT_MAX) break;
+  // the adjacency is one-sided where more than two elements share a side,
+  // so merge sets instead of following the adjacency in its direction
+  std::vector<unsigned int> parent(nelem); // an element of the same group, not larger than itself
+  for (unsigned int iel = 0; iel < nelem; ++iel) { parent[iel] = iel; }
+  const auto root = [&parent](unsigned int iel) {
+    while (parent[iel] != iel) { iel = parent[iel]; }
+    return iel;
+  };
+  const std::size_t nfael = nelem == 0 ? 0 : elem_adjelem.size() / nelem;
+  for (unsigned int iel = 0; iel < nelem; ++iel) {
+    for (unsigned int ifael = 0; ifael < nfael; ++ifael) {
+      const unsigned int jel = elem_adjelem[iel * nfael + ifael];
+      if (jel == UINT_MAX) { continue; }
+      const unsigned int ir = root(iel), jr = root(jel);
+      parent[std::max(ir, jr)] = parent[iel] = parent[jel] = std::min(ir, jr);
     }
-    if (itri_ker == nelem) break;
-    igroup++;
-    MarkConnectedElements(
-        elem_flag,
-        itri_ker, igroup, elem_adjelem);
   }
-  num_group = igroup + 1;
+  num_group = 0;
+  elem_flag.resize(nelem);
+  for (unsigned int iel = 0; iel < nelem; ++iel) {
+    if (parent[iel] == iel) { elem_flag[iel] = num_group++; }
+    else { elem_flag[iel] = elem_flag[parent[iel]]; }
+  }
 }
 
 // ----------------------
-- 
2.43.0


From 54147a5eed1f51efb0b309c547b1d7aa2f6ca576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:48 +0000
Subject: [PATCH 16/96] fix: SubdivTopo_MeshQuad took quads having the two ends
 of an edge on their diagonal as touching the edge

---
 include/delfem2/mshsubdiv.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/mshsubdiv.cpp b/include/delfem2/mshsubdiv.cpp
index 36909ed..6c17a6b 100644
--- a/include/delfem2/mshsubdiv.cpp
+++ b/include/delfem2/mshsubdiv.cpp
@@ -94,8 +94,13 @@ DFM2_INLINE void delfem2::SubdivTopo_MeshQuad(
         const unsigned int jp1 = quad_vtxidx0[jq0 * 4 + 1];
         const unsigned int jp2 = quad_vtxidx0[jq0 * 4 + 2];
         const unsigned int jp3 = quad_vtxidx0[jq0 * 4 + 3];
-        if ((jp0 != ip) && (jp1 != ip) && (jp2 != ip) && (jp3 != ip)) { continue; }
-        if ((jp0 != ip1) && (jp1 != ip1) && (jp2 != ip1) && (jp3 != ip1)) { continue; }
+        // the two points have to be on the same side of the quad, not on its diagonal
+        const bool is_edge =
+            (jp0 == ip && (jp1 == ip1 || jp3 == ip1)) ||
+            (jp1 == ip && (jp2 == ip1 || jp0 == ip1)) ||
+            (jp2 == ip && (jp3 == ip1 || jp1 == ip1)) ||
+            (jp3 == ip && (jp0 == ip1 || jp2 == ip1));
+        if (!is_edge) { continue; }
         // ----------------------------
         if (iq0 == UINT_MAX) { iq0 = jq0; }
         else {
-- 
2.43.0


From 09f9af9a90a633097c2af0d14acadc078a973a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:28 +0000
Subject: [PATCH 17/96] fix: one order of cells for all functions on a voxel
 grid (Set and the meshing functions disagreed with dilation, erosion,
 geodesic and line intersection)

---
 include/delfem2/gridvoxel.cpp | 14 +++++++-------
 include/delfem2/gridvoxel.h   |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 9da9dd4..075e014 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -97,7 +97,7 @@ void delfem2::MeshQuad3D_VoxelGrid(
   for (unsigned int igvx = 0; igvx < ndivx; ++igvx) {
     for (unsigned int igvy = 0; igvy < ndivy; ++igvy) {
       for (unsigned int igvz = 0; igvz < ndivz; ++igvz) {
-        const unsigned int ivoxel = igvx * (ndivy * ndivz) + igvy * ndivz + igvz;
+        const unsigned int ivoxel = igvz * (ndivy * ndivx) + igvy * ndivx + igvx;
         assert(ivoxel < aIsVox.size());
         if (aIsVox[ivoxel] == 0) { continue; }
         //
@@ -163,7 +163,7 @@ void delfem2::MeshHex3D_VoxelGrid(
   for (unsigned int igvx = 0; igvx < ndivx; ++igvx) {
     for (unsigned int igvy = 0; igvy < ndivy; ++igvy) {
       for (unsigned int igvz = 0; igvz < ndivz; ++igvz) {
-        const unsigned int ivoxel = igvx * (ndivy * ndivz) + igvy * ndivz + igvz;
+        const unsigned int ivoxel = igvz * (ndivy * ndivx) + igvy * ndivx + igvx;
         assert(ivoxel < aIsVox.size());
         if (aIsVox[ivoxel] == 0) { continue; }
         //
@@ -221,7 +221,7 @@ void delfem2::MeshTet3D_VoxelGrid(
   for (unsigned int igvx = 0; igvx < ndivx; ++igvx) {
     for (unsigned int igvy = 0; igvy < ndivy; ++igvy) {
       for (unsigned int igvz = 0; igvz < ndivz; ++igvz) {
-        const unsigned int ivoxel = igvx * (ndivy * ndivz) + igvy * ndivz + igvz;
+        const unsigned int ivoxel = igvz * (ndivy * ndivx) + igvy * ndivx + igvx;
         assert(ivoxel < aIsVox.size());
         if (aIsVox[ivoxel] == 0) { continue; }
         //
@@ -273,9 +273,9 @@ void delfem2::MeshTet3D_VoxelGrid(
 int delfem2::Adj_Grid (
     int igridvox, int iface,
     int ndivx, int ndivy, int ndivz) {
-  int ivx0 = igridvox / (ndivy * ndivz);
-  int ivy0 = (igridvox - ivx0 * (ndivy * ndivz)) / ndivz;
-  int ivz0 = igridvox - ivx0 * (ndivy * ndivz) - ivy0 * ndivz;
+  int ivz0 = igridvox / (ndivy * ndivx);
+  int ivy0 = (igridvox - ivz0 * (ndivy * ndivx)) / ndivx;
+  int ivx0 = igridvox - ivz0 * (ndivy * ndivx) - ivy0 * ndivx;
   if (iface == 0) { ivx0 -= 1; }
   if (iface == 1) { ivx0 += 1; }
   if (iface == 2) { ivy0 -= 1; }
@@ -285,7 +285,7 @@ int delfem2::Adj_Grid (
   if (ivx0 < 0 || ivx0 >= ndivx) { return -1; }
   if (ivy0 < 0 || ivy0 >= ndivy) { return -1; }
   if (ivz0 < 0 || ivz0 >= ndivz) { return -1; }
-  int igv1 = ivx0 * (ndivy * ndivz) + ivy0 * ndivz + ivz0;
+  int igv1 = ivz0 * (ndivy * ndivx) + ivy0 * ndivx + ivx0;
   assert(igv1 >= 0 && igv1 < ndivx * ndivy * ndivz);
   return igv1;
 }
diff --git a/include/delfem2/gridvoxel.h b/include/delfem2/gridvoxel.h
index 9b22b3d..2e3aa01 100644
--- a/include/delfem2/gridvoxel.h
+++ b/include/delfem2/gridvoxel.h
@@ -78,7 +78,7 @@ class CGrid3 {
   }
   void Set(int ivx, int ivy, int ivz, int isVox) {
     if (!this->IsInclude(ivx, ivy, ivz)) { return; }
-    const int ivoxel = ivx * (ndivy * ndivz) + ivy * ndivz + ivz;
+    const unsigned int ivoxel = ivz * (ndivy * ndivx) + ivy * ndivx + ivx;
     aVal[ivoxel] = isVox;
   }
  public:
-- 
2.43.0


From d208f16466d8f74ddb3c4b3c400c276ac3efb3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 18/96] fix: segment through a voxel grid along an axis, a
 plane or a corner, and geodesic distance of a voxel given twice

---
 include/delfem2/gridvoxel.cpp | 59 ++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/include/delfem2/gridvoxel.cpp b/include/delfem2/gridvoxel.cpp
index 075e014..6f61674 100644
--- a/include/delfem2/gridvoxel.cpp
+++ b/include/delfem2/gridvoxel.cpp
@@ -7,6 +7,8 @@
 
 #include "delfem2/gridvoxel.h"
 
+#include <cmath>
+#include <limits>
 #include <queue>
 
 #include "delfem2/vec3.h"
@@ -381,6 +383,7 @@ void delfem2::VoxelGeodesic
   for (const auto &idvox_dist: aIdvoxDist) {
     const unsigned int ivox0 = idvox_dist.first;
     const double dist0 = idvox_dist.second;
+    if (aDist[ivox0] >= 0 && aDist[ivox0] <= dist0) { continue; } // the voxel was given twice
     aNext.push(std::make_pair(dist0, ivox0));
     aDist[ivox0] = dist0;
   }
@@ -420,12 +423,12 @@ int signum(double x) {
   return x > 0.0 ? 1 : x < 0.0 ? -1 : 0;
 }
 
-// Find the smallest positive t such that s+t*ds is an integer.
+// Find the t such that s+t*ds leaves the cell [floor(s),floor(s)+1)
 double intbound(double s, double ds) {
   if (ds < 0) {
-    return intbound(-s, -ds);
+    return (s - floor(s)) / -ds;
   } else {
-    return (ceil(s) - s) / ds;
+    return (floor(s) + 1 - s) / ds;
   }
 }
 
@@ -435,7 +438,6 @@ double intbound(double s, double ds) {
 /**
  * @details this is the implementation of the following paper
  * Amanatides, John, and Andrew Woo. "A fast voxel traversal algorithm for ray tracing." In Eurographics, vol. 87, no. 3, pp. 3-10. 1987.
- * TODO: zero division might occur when (ps - pe ) is aligned to axis.
  */
 void delfem2::Intersection_VoxelGrid_LinSeg(
     std::vector<unsigned int> &aIndVox,
@@ -461,40 +463,33 @@ void delfem2::Intersection_VoxelGrid_LinSeg(
       static_cast<int>(floor(Pe.z))};
   int ic[3] = {is[0], is[1], is[2]};
   const dfm2::CVec3d direction = Pe - Ps;
-  const double dx = direction[0];
-  const double dy = direction[1];
-  const double dz = direction[2];
-  const int stepX = dfm2::gridvoxel::signum(dx);
-  const int stepY = dfm2::gridvoxel::signum(dy);
-  const int stepZ = dfm2::gridvoxel::signum(dz);
-  const double tDeltaX = stepX / dx;
-  assert(tDeltaX > 0);
-  const double tDeltaY = stepY / dy;
-  assert(tDeltaY > 0);
-  const double tDeltaZ = stepZ / dz;
-  assert(tDeltaZ > 0);
-  double tMaxX = dfm2::gridvoxel::intbound(Ps.x, dx);
-  assert(tMaxX > 0);
-  double tMaxY = dfm2::gridvoxel::intbound(Ps.y, dy);
-  assert(tMaxY > 0);
-  double tMaxZ = dfm2::gridvoxel::intbound(Ps.z, dz);
-  assert(tMaxZ > 0);
+  int step[3];
+  double tDelta[3], tMax[3];
+  for (int i = 0; i < 3; ++i) {
+    step[i] = dfm2::gridvoxel::signum(direction[i]);
+    if (ic[i] == ie[i]) { // no plane to cross in this direction
+      tDelta[i] = 0.0;
+      tMax[i] = std::numeric_limits<double>::infinity();
+    } else {
+      tDelta[i] = step[i] / direction[i];
+      tMax[i] = dfm2::gridvoxel::intbound(Ps[i], direction[i]);
+    }
+  }
   aIndVox.clear();
-  for (int itr = 0; itr < 1000; ++itr) {
+  while (true) {
     if (ic[0] >= 0 && ic[1] >= 0 && ic[2] >= 0 &&
         ic[0] < (int) nx && ic[1] < (int) ny && ic[2] < (int) nz) {
       aIndVox.push_back(ic[2] * ny * nx + ic[1] * nx + ic[0]);
     }
     if (ic[0] == ie[0] && ic[1] == ie[1] && ic[2] == ie[2]) { break; }
-    if (tMaxX < tMaxY && tMaxX < tMaxZ) {
-      tMaxX = tMaxX + tDeltaX;
-      ic[0] += stepX;
-    } else if (tMaxY < tMaxX && tMaxY < tMaxZ) {
-      tMaxY = tMaxY + tDeltaY;
-      ic[1] += stepY;
-    } else if (tMaxZ < tMaxX && tMaxZ < tMaxY) {
-      tMaxZ = tMaxZ + tDeltaZ;
-      ic[2] += stepZ;
+    int i = 0;
+    if (tMax[1] < tMax[i]) { i = 1; }
+    if (tMax[2] < tMax[i]) { i = 2; }
+    ic[i] += step[i];
+    if (ic[i] == ie[i]) { // last plane in this direction
+      tMax[i] = std::numeric_limits<double>::infinity();
+    } else {
+      tMax[i] += tDelta[i];
     }
   }
   /*
-- 
2.43.0


From 3ee2f91e50dc6345c6c8d169119b46fa26ef3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 19/96] fix: volume of a point leaf is made anew, not enlarged
 by the previous position

---
 include/delfem2/srch_bvh.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_bvh.h b/include/delfem2/srch_bvh.h
index 2210fe7..306caa4 100755
--- a/include/delfem2/srch_bvh.h
+++ b/include/delfem2/srch_bvh.h
@@ -174,6 +174,7 @@ public:
   void SetVolume(BBOX& bb,
 	  unsigned int ielem) const {
     assert( ielem < nXYZ );
+    bb.Set_Inactive();
     bb.AddPoint(aXYZ+ielem*3, 0.0);
     return;
   }
-- 
2.43.0


From 5ffa4673d3270949aeebe5b8edad46bcc9e89776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 20/96] fix: BVH construction for one object, for ties of the
 longest axis and for coincident centers

---
 include/delfem2/srch_bvh.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/srch_bvh.cpp b/include/delfem2/srch_bvh.cpp
index f83f76d..4046b01 100755
--- a/include/delfem2/srch_bvh.cpp
+++ b/include/delfem2/srch_bvh.cpp
@@ -66,9 +66,9 @@ DFM2_INLINE void DevideElemAryConnex(
     double lenx = x_max - x_min;
     double leny = y_max - y_min;
     double lenz = z_max - z_min;
-    if (lenx > leny && lenx > lenz) { dir[0] = 1; }
-    if (leny > lenz && leny > lenx) { dir[1] = 1; }
-    if (lenz > lenx && lenz > leny) { dir[2] = 1; }
+    if (lenx >= leny && lenx >= lenz) { dir[0] = 1; }
+    else if (leny >= lenz) { dir[1] = 1; }
+    else { dir[2] = 1; }
   }
   double org[3] = {(x_min + x_max) * 0.5, (y_min + y_max) * 0.5, (z_min + z_max) * 0.5};
   unsigned int itri_ker = UINT_MAX;
@@ -112,6 +112,7 @@ DFM2_INLINE void DevideElemAryConnex(
           mat[1][0] * dir[0] + mat[1][1] * dir[1] + mat[1][2] * dir[2],
           mat[2][0] * dir[0] + mat[2][1] * dir[1] + mat[2][2] * dir[2]};
       double len = sqrt(tmp[0] * tmp[0] + tmp[1] * tmp[1] + tmp[2] * tmp[2]);
+      if (len <= 0.0) { break; } // all the centers are at the same position
       dir[0] = tmp[0] / len;
       dir[1] = tmp[1] / len;
       dir[2] = tmp[2] / len;
@@ -128,6 +129,8 @@ DFM2_INLINE void DevideElemAryConnex(
       break;
     }
   }
+  const bool is_coincide = (itri_ker == UINT_MAX); // there is no direction to divide the elements
+  if (is_coincide) { itri_ker = list[0]; }
   const auto inode_ch0 = static_cast<unsigned int>(aNodeBVH.size());
   const auto inode_ch1 = static_cast<unsigned int>(aNodeBVH.size() + 1);
   aNodeBVH.resize(aNodeBVH.size() + 2);
@@ -142,7 +145,7 @@ DFM2_INLINE void DevideElemAryConnex(
     aElem2Node[itri_ker] = inode_ch0;
     list_ch0.push_back(itri_ker);
     std::stack<unsigned int> stack;
-    stack.push(itri_ker);
+    if (!is_coincide) { stack.push(itri_ker); }
     while (!stack.empty()) {
       unsigned int itri0 = stack.top();
       stack.pop();
@@ -278,6 +281,11 @@ DFM2_INLINE int delfem2::BVHTopology_TopDown_MeshElem(
   aElem2Node.resize(nelem, 0);
   aNodeBVH.resize(1);
   aNodeBVH[0].iparent = UINT_MAX;
+  if (nelem == 1) { // the root is a leaf
+    aNodeBVH[0].ichild[0] = 0;
+    aNodeBVH[0].ichild[1] = UINT_MAX;
+    return 0;
+  }
   bvh::DevideElemAryConnex(
       0, aElem2Node, aNodeBVH,
       list, static_cast<int>(nfael), aElSuEl, aElemCenter);
@@ -448,6 +456,11 @@ DFM2_INLINE void delfem2::BVHTopology_Morton(
   assert(!sorted_morton_codes.empty());
   bvh_nodes.resize(sorted_morton_codes.size() * 2 - 1);
   bvh_nodes[0].iparent = UINT_MAX;
+  if (sorted_morton_codes.size() == 1) { // the root is a leaf
+    bvh_nodes[0].ichild[0] = sorted_object_indexes[0];
+    bvh_nodes[0].ichild[1] = UINT_MAX;
+    return;
+  }
   const auto nni = static_cast<unsigned int>(sorted_morton_codes.size() - 1); // number of internal node
   for (unsigned int ini = 0; ini < nni; ++ini) {
     const std::pair<unsigned int, unsigned int>
-- 
2.43.0


From 5f056fd5f59fe0b9f1a25859e15f705e2bb659c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 21/96] fix: proximity search culls with the volume of the leaf
 and keeps both contacts of the same four points

---
 include/delfem2/srch_selfintersection_bvh.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/srch_selfintersection_bvh.h b/include/delfem2/srch_selfintersection_bvh.h
index e56c482..9517eb8 100644
--- a/include/delfem2/srch_selfintersection_bvh.h
+++ b/include/delfem2/srch_selfintersection_bvh.h
@@ -237,7 +237,8 @@ public:
     if( ino0 != p2.ino0 ){ return ino0 < p2.ino0; }
     if( ino1 != p2.ino1 ){ return ino1 < p2.ino1; }
     if( ino2 != p2.ino2 ){ return ino2 < p2.ino2; }
-    return ino3 < p2.ino3;
+    if( ino3 != p2.ino3 ){ return ino3 < p2.ino3; }
+    return is_fv < p2.is_fv;
   }
 public:
   bool is_fv; // true: ee contact, false: vf contact
@@ -295,22 +296,22 @@ void delfem2::GetContactElement_Proximity
     const CVec3d q0(aXYZ[jn0*3+0], aXYZ[jn0*3+1], aXYZ[jn0*3+2]);
     const CVec3d q1(aXYZ[jn1*3+0], aXYZ[jn1*3+1], aXYZ[jn1*3+2]);
     const CVec3d q2(aXYZ[jn2*3+0], aXYZ[jn2*3+1], aXYZ[jn2*3+2]);
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn0, p0,p1,p2,q0, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn0) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn1, p0,p1,p2,q1, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn1) );
     }
-    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ichild0_0], delta) ){
+    if( IsContact_FV_Proximity(   in0,in1,in2,jn2, p0,p1,p2,q2, aBB[ibvh0], delta) ){
       aContactElem.insert( CContactElement(true,    in0,in1,in2,jn2) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in0, q0,q1,q2,p0, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in0) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in1, q0,q1,q2,p1, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in1) );
     }
-    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ichild1_0], delta) ){
+    if( IsContact_FV_Proximity(   jn0,jn1,jn2,in2, q0,q1,q2,p2, aBB[ibvh1], delta) ){
       aContactElem.insert( CContactElement(true,    jn0,jn1,jn2,in2) );
     }
     ////
-- 
2.43.0


From 6f23e23d97591bdb337199fb1ac4913588cd6f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:14 +0000
Subject: [PATCH 22/96] fix: bounding sphere is closed and an inactive one
 holds nothing

---
 include/delfem2/srch_bv3_sphere.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/srch_bv3_sphere.h b/include/delfem2/srch_bv3_sphere.h
index 9d95770..3014e78 100755
--- a/include/delfem2/srch_bv3_sphere.h
+++ b/include/delfem2/srch_bv3_sphere.h
@@ -55,6 +55,7 @@ public:
   }
   bool IsIntersect(const CBV3_Sphere& bb) const
   {
+    if( !this->IsActive() || !bb.IsActive() ) return false;
     const double L = this->Distance3(bb.c,c);
     if( L > bb.r + r ) return false;
     return true;
@@ -98,7 +99,7 @@ public:
   }
   bool isInclude_Point(double x, double y, double z) const {
     const double L = (x-c[0])*(x-c[0]) + (y-c[1])*(y-c[1]) + (z-c[2])*(z-c[2]);
-    if( L < r*r ){ return true; }
+    if( this->IsActive() && L <= r*r ){ return true; }
     return false;
   }
   bool IsInclude(const CBV3_Sphere& bv, double margin) const {
-- 
2.43.0


From aa5dbfd1a9ac7401e6c47cfb3ddda633c090e8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:32 +0000
Subject: [PATCH 23/96] fix: triangle-triangle intersection when a vertex lies
 on the plane of the other or the overlaps have common ends

---
 include/delfem2/geo_tri.cpp | 32 +++++++-------------------------
 1 file changed, 7 insertions(+), 25 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 406da70..cfeb177 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -233,6 +233,7 @@ bool delfem2::isIntersectTriPair(
   double dq2 = (q2 - p0).dot(np);
   if (((dp0 > 0) == (dp1 > 0)) && ((dp1 > 0) == (dp2 > 0))) return false;
   if (((dq0 > 0) == (dq1 > 0)) && ((dq1 > 0) == (dq2 > 0))) return false;
+  // the points below are used only for the two edges crossing the plane (i.e., one end is positive and another is not)
   const CVec3<T> p01 = (1.0 / (dp0 - dp1)) * (dp0 * p1 - dp1 * p0);
   const CVec3<T> p12 = (1.0 / (dp1 - dp2)) * (dp1 * p2 - dp2 * p1);
   const CVec3<T> p20 = (1.0 / (dp2 - dp0)) * (dp2 * p0 - dp0 * p2);
@@ -241,10 +242,10 @@ bool delfem2::isIntersectTriPair(
   const CVec3<T> q20 = (1.0 / (dq2 - dq0)) * (dq2 * q0 - dq0 * q2);
   const CVec3<T> vz = np.cross(nq);
   CVec3<T> ps, pe;
-  if (dp0 * dp1 > 0) {
+  if ((dp0 > 0) == (dp1 > 0)) {
     ps = p20;
     pe = p12;
-  } else if (dp1 * dp2 > 0) {
+  } else if ((dp1 > 0) == (dp2 > 0)) {
     ps = p01;
     pe = p20;
   } else {
@@ -261,10 +262,10 @@ bool delfem2::isIntersectTriPair(
   assert(zps <= zpe);
   //
   CVec3<T> qs, qe;
-  if (dq0 * dq1 > 0) {
+  if ((dq0 > 0) == (dq1 > 0)) {
     qs = q20;
     qe = q12;
-  } else if (dq1 * dq2 > 0) {
+  } else if ((dq1 > 0) == (dq2 > 0)) {
     qs = q01;
     qe = q20;
   } else {
@@ -281,27 +282,8 @@ bool delfem2::isIntersectTriPair(
   assert(zqs <= zqe);
   //
   if (zps > zqe || zqs > zpe) return false;
-  CVec3<T> P[4];
-  int icnt = 0;
-  if (zps > zqs && zps < zqe) {
-    P[icnt] = ps;
-    icnt++;
-  }
-  if (zpe > zqs && zpe < zqe) {
-    P[icnt] = pe;
-    icnt++;
-  }
-  if (zqs > zps && zqs < zpe) {
-    P[icnt] = qs;
-    icnt++;
-  }
-  if (zqe > zps && zqe < zpe) {
-    P[icnt] = qe;
-    icnt++;
-  }
-  if (icnt != 2) return false;
-  P0 = P[0];
-  P1 = P[1];
+  P0 = (zps >= zqs) ? ps : qs;
+  P1 = (zpe <= zqe) ? pe : qe;
   return true;
 }
 #ifdef DFM2_STATIC_LIBRARY
-- 
2.43.0


From 3f2f0b49efe612bc538d10a7487e415d6d5be7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 24/96] fix: k-d tree of triangles measured the distance to the
 corners of a box, not to the box

---
 include/delfem2/srch_kdtree_tri.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index e395c37..f87283d 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -45,7 +45,6 @@ struct KDTTriangle {
 				SCALAR max, min;
 			} dist;
 
-			dist.min = (Q - VEC { AABBmax[0], AABBmax[1], AABBmax[2] }).norm();
 			dist.max = (Q - VEC { AABBmax[0], AABBmax[1], AABBmax[2] }).norm();
 
 			for (int i = 0; i < 8; i++) {
@@ -55,14 +54,15 @@ struct KDTTriangle {
 
 				SCALAR hogedist = (Q - VEC { hogex, hogey, hogez }).norm();
 
-				if (hogedist < dist.min)
-					dist.min = hogedist;
 				if (hogedist > dist.max)
 					dist.max = hogedist;
 			}
 
-			if (Q[0] < AABBmax[0] && Q[0] > AABBmin[0] && Q[1] < AABBmax[1] && Q[1] > AABBmin[1] && Q[2] < AABBmax[2] && Q[2] > AABBmin[2])
-				dist.min = 0.0;
+			// the nearest point of the box is not necessarily a corner
+			dist.min = (Q - VEC {
+			    std::min(std::max(Q[0], AABBmin[0]), AABBmax[0]),
+			    std::min(std::max(Q[1], AABBmin[1]), AABBmax[1]),
+			    std::min(std::max(Q[2], AABBmin[2]), AABBmax[2]) }).norm();
 
 			return dist;
 		}
-- 
2.43.0


From 23d7718bf71fee4eb12e0473698a2f29c1e8a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 25/96] fix: k-d tree of triangles kept its bounds in single
 precision

---
 include/delfem2/srch_kdtree_tri.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_kdtree_tri.h b/include/delfem2/srch_kdtree_tri.h
index f87283d..9631468 100644
--- a/include/delfem2/srch_kdtree_tri.h
+++ b/include/delfem2/srch_kdtree_tri.h
@@ -23,9 +23,9 @@ struct KDTTriangle {
 
 		int parent	     = -1;
 		int rightchild	     = -1;
-		float realboundright = 0.0;
+		SCALAR realboundright = 0.0;
 		int leftchild	     = -1;
-		float realboundleft  = 0.0;
+		SCALAR realboundleft  = 0.0;
 
 		KDTNodeTriangle(const int TriInd, const std::vector<VEC>& PointList, const std::vector<unsigned int>& TriList)
 		    : TriInd(TriInd)
-- 
2.43.0


From ec5aa95019c0382365e26b25366c0a4f559667ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 26/96] fix: SearchGrid of a flat box has at least one cell; do
 not read past the last object

---
 include/delfem2/srchgrid.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/srchgrid.h b/include/delfem2/srchgrid.h
index 497809b..063ef55 100644
--- a/include/delfem2/srchgrid.h
+++ b/include/delfem2/srchgrid.h
@@ -2,6 +2,7 @@
 #define DFM2_SRCHGRID_H
 
 #include <vector>
+#include <cmath> // for ceil and floor
 #include <algorithm> // for sort
 
 namespace delfem2 {
@@ -48,9 +49,9 @@ public:
     bbmax[0] = bbmax_[0];
     bbmax[1] = bbmax_[1];
     bbmax[2] = bbmax_[2];
-    nx = static_cast<unsigned int>(ceil((bbmax[0] - bbmin[0]) / h));
-    ny = static_cast<unsigned int>(ceil((bbmax[1] - bbmin[1]) / h));
-    nz = static_cast<unsigned int>(ceil((bbmax[2] - bbmin[2]) / h));
+    nx = std::max(1u, static_cast<unsigned int>(ceil((bbmax[0] - bbmin[0]) / h)));
+    ny = std::max(1u, static_cast<unsigned int>(ceil((bbmax[1] - bbmin[1]) / h)));
+    nz = std::max(1u, static_cast<unsigned int>(ceil((bbmax[2] - bbmin[2]) / h)));
     aGrid2Obj.resize(nobj);
   }
 
@@ -97,7 +98,7 @@ public:
     {
       unsigned int i0 = 0;
       for (unsigned int ig = 0; ig < ng; ++ig) {
-        while (aGrid2Obj[i0].igrid <= ig && i0 < aGrid2Obj.size()) { i0++; }
+        while (i0 < aGrid2Obj.size() && aGrid2Obj[i0].igrid <= ig) { i0++; }
         aGrid2Obj_ind[ig + 1] = i0;
       }
     }
-- 
2.43.0


From 45f48d9a010a0d4cca1420f4b87fa0ed03c87dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:21 +0000
Subject: [PATCH 27/96] fix: Nearest_Triangle3_Point3 for a point on the plane
 of the triangle

---
 include/delfem2/geo_tri.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index cfeb177..6e2b2c5 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -66,13 +66,10 @@ DFM2_INLINE void delfem2::Nearest_Triangle3_Point3(
   double area, n012[3];
   UnitNormalAreaTri3(n012, area, q0, q1, q2);
   const double pe[3] = {ps[0] + n012[0], ps[1] + n012[1], ps[2] + n012[2]};
-  const double v012 = lcl::Volume_Tet3(ps, q0, q1, q2);
-  if (fabs(v012) > 1.0e-10) {
-    const double sign = (v012 > 0) ? +1 : -1;
-    const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe) * sign;
-    const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe) * sign;
-    const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe) * sign;
-    assert(fabs(v0 + v1 + v2) > 1.0e-10);
+  const double v0 = lcl::Volume_Tet3(ps, q1, q2, pe);
+  const double v1 = lcl::Volume_Tet3(ps, q2, q0, pe);
+  const double v2 = lcl::Volume_Tet3(ps, q0, q1, pe);
+  if (fabs(v0 + v1 + v2) > 1.0e-10) { // the point may be on the plane of the triangle
     double inv_v012 = 1.0 / (v0 + v1 + v2);
     r0 = v0 * inv_v012;
     r1 = v1 * inv_v012;
-- 
2.43.0


From 80fd8de8d59b5f462d7bda8c6935c69ceb6d9bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 28/96] fix: DijkstraPoint_MeshTri3D gave the source the length
 of a round trip instead of zero

---
 include/delfem2/dijkstra.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/dijkstra.h b/include/delfem2/dijkstra.h
index 342501a..eb8bb06 100644
--- a/include/delfem2/dijkstra.h
+++ b/include/delfem2/dijkstra.h
@@ -276,6 +276,7 @@ void DijkstraPoint_MeshTri3D(
   const size_t np = aXYZ.size()/3;
   aOrder.assign(np,UINT_MAX);
   aDist.assign(np,-1.);
+  aDist[ip_ker] = 0.;
   std::priority_queue<dijkstra::CNode<double>> que;
   unsigned int icnt = 0;
   que.push(dijkstra::CNode<double>(ip_ker, 0.0));
-- 
2.43.0


From 2b0069207eb403f4c3a87b33830fd564a0b55ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 29/96] fix: binary clustering considered only one of the edges
 with the same score

---
 include/delfem2/clusterpoints.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/clusterpoints.cpp b/include/delfem2/clusterpoints.cpp
index 17ae3eb..200aad7 100644
--- a/include/delfem2/clusterpoints.cpp
+++ b/include/delfem2/clusterpoints.cpp
@@ -37,7 +37,8 @@ class CData{
 public:
   CData(double score0, unsigned int ipsup0): score(score0), ipsup(ipsup0) {}
   bool operator < (const CData& d) const {
-    return score < d.score;
+    if (score != d.score) { return score < d.score; }
+    return ipsup < d.ipsup; // edges of the same score are different edges
   }
 public:
   double score;
-- 
2.43.0


From e92bb6328d93e50aa45494db137601c7c6b0a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 30/96] fix: slice at the height of a vertex: choose the cut
 triangles with the criterion the segments are made with

---
 include/delfem2/slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/slice.cpp b/include/delfem2/slice.cpp
index 11f1188..2939c23 100644
--- a/include/delfem2/slice.cpp
+++ b/include/delfem2/slice.cpp
@@ -33,7 +33,7 @@ DFM2_INLINE void IndexElement_OverlapLevels_MeshTri3D(
     for(unsigned int ih=0;ih<nH;ih++){
       unsigned int icnt = 0;
       for(double inotri : ah){
-        if( inotri-aH[ih] > 0 ){ icnt++; }
+        if( inotri-aH[ih] >= 0 ){ icnt++; } // same criterion as in CSegInfo::Initialize
       }
       if( icnt == 1 || icnt == 2 ){
         aCST[ih].push_back(itri);
-- 
2.43.0


From 397c75a6297bf106fbe5175793ed69bd907523c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 31/96] fix: AddContour lost the contour that runs along edges
 of the mesh

---
 include/delfem2/slice.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/slice.cpp b/include/delfem2/slice.cpp
index 2939c23..2bbcd39 100644
--- a/include/delfem2/slice.cpp
+++ b/include/delfem2/slice.cpp
@@ -210,11 +210,11 @@ void delfem2::AddContour(
     const double v0 = value_tri[ vec_tri[itri*3+0] ];
     const double v1 = value_tri[ vec_tri[itri*3+1] ];
     const double v2 = value_tri[ vec_tri[itri*3+2] ];
-    if(   (v0-thres)*(v1-thres) >= 0
-       && (v1-thres)*(v2-thres) >= 0
-       && (v2-thres)*(v0-thres) >= 0 ){
-      continue;
-    }
+    const int nabove = (v0>thres) + (v1>thres) + (v2>thres);
+    const int nbelow = (v0<thres) + (v1<thres) + (v2<thres);
+    const bool is_crossed = ( nabove > 0 && nbelow > 0 );
+    const bool is_edge_on_level = ( nabove == 0 && nbelow == 1 ); // the other side does not list it
+    if( !is_crossed && !is_edge_on_level ){ continue; }
     delfem2::CSegInfo seg;
     seg.Initialize(itri,
                    vec_tri,num_tri,value_tri,
-- 
2.43.0


From f4302ca7692cafd6d3406a4014a8a7a6a2c71e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 32/96] fix: MakeReebGraph read outside of its tables at the
 boundary of a mesh

---
 include/delfem2/slice.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/delfem2/slice.h b/include/delfem2/slice.h
index 2ea7d66..673c35e 100644
--- a/include/delfem2/slice.h
+++ b/include/delfem2/slice.h
@@ -10,6 +10,7 @@
 #define DFM2_SLICE_H
 
 #include <stdio.h>
+#include <climits>
 #include <set>
 #include <stack>
 #include <vector>
@@ -114,6 +115,7 @@ void MakeReebGraph
       unsigned int itri0 = cs0.IndTri_Seg(iseg);
       for(unsigned int iedtri=0;iedtri<3;iedtri++){
         unsigned int jtri0 = aTriSuTri[itri0*3+iedtri];
+        if( jtri0 == UINT_MAX ){ continue; } // boundary of the mesh
         if( Tri2HCS[jtri0] == -1 ){ continue; }
         unsigned int jhcs = Tri2HCS[jtri0];
         const T& cs1 = aCrossSection[jhcs];
@@ -140,6 +142,7 @@ void MakeReebGraph
       Tri2HCS[jtri0] = -2;
       for(unsigned int jedtri=0;jedtri<3;jedtri++){
         unsigned int ktri0 = aTriSuTri[jtri0*3+jedtri];
+        if( ktri0 == UINT_MAX ){ continue; } // boundary of the mesh
         if(      Tri2HCS[ktri0] == -2 ) continue; // already studied
         else if( Tri2HCS[ktri0] == -1 ){ stackTri.push(ktri0); }
         else{
-- 
2.43.0


From 881817e381fffc5fa036796ec986c6136ba7e76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:45 +0000
Subject: [PATCH 33/96] fix: MakeReebGraph compared a section only with the
 first one through the same triangle

---
 include/delfem2/slice.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/slice.h b/include/delfem2/slice.h
index 673c35e..6f5fb63 100644
--- a/include/delfem2/slice.h
+++ b/include/delfem2/slice.h
@@ -92,21 +92,20 @@ void MakeReebGraph
   aConnectivity.resize(nCS);
   std::vector<int> Tri2HCS;
   Tri2HCS.resize(ntri,-1);
+  std::vector<std::vector<unsigned int>> Tri2CSs(ntri); // all the sections that cut the triangle
   for(unsigned int ics=0;ics<nCS;ics++){
     const T& cs0 = aCrossSection[ics];
     for(unsigned int iseg=0;iseg<cs0.NumSeg();iseg++){
       unsigned int itri0 = cs0.IndTri_Seg(iseg);
-      if( Tri2HCS[itri0] != -1 ){
-        unsigned int jcs0 = Tri2HCS[itri0];
+      for(unsigned int jcs0 : Tri2CSs[itri0]){
         const T& cs1 = aCrossSection[jcs0];
         if( abs( cs0.IndHeight() - cs1.IndHeight()) == 1 ){
           aConnectivity[ics].insert(jcs0);
           aConnectivity[jcs0].insert(ics);
         }
       }
-      else{
-        Tri2HCS[itri0] = ics;
-      }
+      Tri2CSs[itri0].push_back(ics);
+      if( Tri2HCS[itri0] == -1 ){ Tri2HCS[itri0] = ics; }
     }
   }
   for(unsigned int ics=0;ics<nCS;ics++){
-- 
2.43.0


From de3c3ff14a8b7f8c1200de4fe02bdba54b1c5bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:25 +0000
Subject: [PATCH 34/96] fix: copying a CMatrixSparse and adding a lumped mass
 did not compile

---
 include/delfem2/ls_block_sparse.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 6ac30b2..3e5255f 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -59,14 +59,14 @@ class CMatrixSparse {
    * @param m
    */
   void operator=(const CMatrixSparse &m) {
-    this->nrowblk = m.nrowblk;
-    this->nrowdim = m.nrowdim;
-    this->ncolblk = m.ncolblk;
-    this->ncoldim = m.ncoldim;
-    col_ind_ = m.colInd;
-    row_ptr_ = m.rowPtr;
-    val_crs_ = m.valCrs;
-    val_dia_ = m.valDia; // copy value
+    this->nrowblk_ = m.nrowblk_;
+    this->nrowdim_ = m.nrowdim_;
+    this->ncolblk_ = m.ncolblk_;
+    this->ncoldim_ = m.ncoldim_;
+    col_ind_ = m.col_ind_;
+    row_ptr_ = m.row_ptr_;
+    val_crs_ = m.val_crs_;
+    val_dia_ = m.val_dia_; // copy value
   }
 
   void SetPattern(
@@ -172,10 +172,10 @@ class CMatrixSparse {
   void AddDia_LumpedMass(
       const T *lm,
       double scale) {
-    assert(this->nblk_row == this->nblk_col);
-    assert(this->len_row == this->nrowdim);
+    assert(this->nrowblk_ == this->ncolblk_);
+    assert(this->nrowdim_ == this->ncoldim_);
     const int blksize = nrowdim_ * ncoldim_;
-    const int nlen = this->nrowdim;
+    const int nlen = this->nrowdim_;
     if (val_dia_.empty()) { return; }
     for (unsigned int iblk = 0; iblk < nrowblk_; ++iblk) {
       for (int ilen = 0; ilen < nlen; ++ilen) {
-- 
2.43.0


From 5260cb8cb6da762b8990b632149ad5412ced4a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:04 +0000
Subject: [PATCH 35/96] fix: merging an element matrix took the diagonal block
 of the wrong column when rows and columns differ

---
 include/delfem2/ls_block_sparse.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_block_sparse.h b/include/delfem2/ls_block_sparse.h
index 3e5255f..e440b00 100755
--- a/include/delfem2/ls_block_sparse.h
+++ b/include/delfem2/ls_block_sparse.h
@@ -232,7 +232,7 @@ bool Mearge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[(irow * ncol + irow) * blksize];
+        const T *pval_in = &emat[(irow * ncol + jcol) * blksize];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -284,7 +284,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        const T *pval_in = &emat[irow][irow][0][0];
+        const T *pval_in = &emat[irow][jcol][0][0];
         T *pval_out = &vdia[iblk1 * blksize];
         for (unsigned int i = 0; i < blksize; i++) { pval_out[i] += pval_in[i]; }
       } else {  // Marge Non-Diagonal
@@ -335,7 +335,7 @@ bool Merge(
       const unsigned int jblk1 = aIpCol[jcol];
       assert(jblk1 < A.ncolblk_);
       if (iblk1 == jblk1) {  // Marge Diagonal
-        vdia[iblk1] += emat[irow][irow];
+        vdia[iblk1] += emat[irow][jcol];
       } else {  // Marge Non-Diagonal
         if (merge_buffer[jblk1] == UINT_MAX) {
           assert(0);
-- 
2.43.0


From 5d8b5f59bb70984ba91df44b364824925f068e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:25 +0000
Subject: [PATCH 36/96] fix: copying a CPreconditionerILU did not compile

---
 include/delfem2/ls_ilu_block_sparse.cpp | 12 ------------
 include/delfem2/ls_ilu_block_sparse.h   |  2 +-
 2 files changed, 1 insertion(+), 13 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 21cbb62..7738c92 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -132,18 +132,6 @@ class CRowLevNext {
 
 // -----------------------------------------------------------------
 
-template<typename T>
-delfem2::CPreconditionerILU<T>::CPreconditionerILU(
-    const CPreconditionerILU<T> &p) {
-//  std::cout << "CPreconditionerILU -- construct copy" << std::endl;
-  this->mat = p.mat; // deep copy
-  assert(nblk == this->mat.nblk_col);
-  this->m_diaInd.resize(nblk);
-  for (int iblk = 0; iblk < nblk; ++iblk) {
-    this->m_diaInd[iblk] = p.m_diaInd[iblk];
-  }
-}
-
 // -------------------------------------------------------------------
 
 namespace delfem2 {
diff --git a/include/delfem2/ls_ilu_block_sparse.h b/include/delfem2/ls_ilu_block_sparse.h
index ae072d2..07770c8 100755
--- a/include/delfem2/ls_ilu_block_sparse.h
+++ b/include/delfem2/ls_ilu_block_sparse.h
@@ -22,7 +22,7 @@ template<typename T>
 class CPreconditionerILU {
  public:
   CPreconditionerILU() noexcept {}
-  CPreconditionerILU(const CPreconditionerILU &); // copy
+  CPreconditionerILU(const CPreconditionerILU &) = default; // copy
   ~CPreconditionerILU() { m_diaInd.clear(); }
   void Clear() {
     colInd.clear();
-- 
2.43.0


From 421ad8bfc35f5f671d8ec1b45445eff746435646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 37/96] fix: Initialize_ILUk wrote outside of its list for a
 row without off-diagonal entry

---
 include/delfem2/ls_ilu_block_sparse.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/ls_ilu_block_sparse.cpp b/include/delfem2/ls_ilu_block_sparse.cpp
index 7738c92..aec66dc 100755
--- a/include/delfem2/ls_ilu_block_sparse.cpp
+++ b/include/delfem2/ls_ilu_block_sparse.cpp
@@ -884,11 +884,11 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
         listNonzero[inz].next = inz + 1;
         inz++;
       }
-      listNonzero[inz - 1].next = UINT_MAX;
+      if (inz != 0) { listNonzero[inz - 1].next = UINT_MAX; }
     }
 
     unsigned int knz_cur = 0;
-    for (;;) {
+    while (!listNonzero.empty()) {  // a row may have no off-diagonal entry
       const unsigned int kblk0 = listNonzero[knz_cur].row;
       assert(kblk0 < nblk);
       const unsigned int ik_lev0 = listNonzero[knz_cur].lev;
@@ -947,7 +947,7 @@ void delfem2::CPreconditionerILU<T>::Initialize_ILUk(
     {
       aRowLev.resize(colInd[iblk] + listNonzero.size());
       unsigned int icrs0 = colInd[iblk];
-      for (int inz = 0; inz != -1; inz = listNonzero[inz].next) {
+      for (int inz = listNonzero.empty() ? -1 : 0; inz != -1; inz = listNonzero[inz].next) {
         const unsigned int jblk = listNonzero[inz].row;
         const unsigned int jlev = listNonzero[inz].lev;
         assert(jblk < nblk);
-- 
2.43.0


From 52417ba3ac2781da6caacd9dc109d315d534afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 38/96] fix: JArray_AddMasterSlavePattern missed couplings that
 SetMasterSlave adds to

---
 include/delfem2/ls_masterslave.cpp | 112 ++++++++---------------------
 1 file changed, 28 insertions(+), 84 deletions(-)

diff --git a/include/delfem2/ls_masterslave.cpp b/include/delfem2/ls_masterslave.cpp
index 2f69c15..fdbd565 100755
--- a/include/delfem2/ls_masterslave.cpp
+++ b/include/delfem2/ls_masterslave.cpp
@@ -8,6 +8,8 @@
 #include "delfem2/ls_masterslave.h"
 
 #include <cassert>
+#include <set>
+#include <utility>
 #include <vector>
 #include <climits>
 
@@ -35,7 +37,11 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
 {
   assert(npsup_ind0>0);
   const size_t nno = npsup_ind0-1;
-  std::vector< std::vector<int> > mapM2S(nno);
+  std::vector< std::set<unsigned int> > rows(nno);
+  for(unsigned int ino=0;ino<nno;++ino){
+    rows[ino].insert(psup0+psup_ind0[ino], psup0+psup_ind0[ino+1]);
+  }
+  std::set< std::pair<unsigned int, unsigned int> > ties; // slave node and master node
   for(unsigned int ino1=0;ino1<nno;++ino1){
     for(unsigned int idim1=0;idim1<ndim;++idim1){
       unsigned int idof0 = aMSFlag[ino1*ndim+idim1];
@@ -43,97 +49,35 @@ DFM2_INLINE void delfem2::JArray_AddMasterSlavePattern(
       unsigned int ino0 = idof0/ndim;
       assert( ino0 < nno && idof0 < ndim + ino0*ndim );
       assert( idim1 + ino0*ndim == idof0  );
-      mapM2S[ino0].push_back(ino1);
+      ties.insert( std::make_pair(ino1, ino0) );
     }
   }
-  //
-  index.assign(nno+1,0);
-  array.clear();
-  std::vector<unsigned int> aflg(nno,UINT_MAX);
-  //
-  for(unsigned int ino0=0;ino0<nno;++ino0){
-    aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      index[ino0+1]++;
-    }
-    for(int iino1=0;iino1<(int)mapM2S[ino0].size();++iino1){
-      const int ino1 = mapM2S[ino0][iino1];
-      if( aflg[ino1] != ino0 ){
-        aflg[ino1] = ino0;
-        index[ino0+1]++;
-      }
-      for(unsigned int jcrs=psup_ind0[ino1];jcrs<psup_ind0[ino1+1];++jcrs){
-        const unsigned int jno1 = psup0[jcrs];
-        if( aflg[jno1] == ino0 ){ continue; }
-        aflg[jno1] = ino0;
-        index[ino0+1]++;
+  // the rows and columns of a slave are added to those of its master.
+  // Repeat until nothing is added because a node can be slave and master for different dimensions
+  for(bool is_added=true;is_added;){
+    is_added = false;
+    for(const auto &tie : ties) {
+      const unsigned int islave = tie.first;
+      const unsigned int imaster = tie.second;
+      is_added |= rows[islave].insert(imaster).second;
+      is_added |= rows[imaster].insert(islave).second;
+      for(unsigned int jno : rows[islave]) {
+        if( jno == imaster ){ continue; }
+        is_added |= rows[imaster].insert(jno).second;
       }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        index[ino0+1]++;
+      for(unsigned int ino=0;ino<nno;++ino){
+        if( ino == imaster || rows[ino].count(islave) == 0 ){ continue; }
+        is_added |= rows[ino].insert(imaster).second;
       }
     }
   }
   //
-  for(unsigned int ino=0;ino<nno;ino++){ index[ino+1] += index[ino]; }
-  const unsigned int narray = index[nno];
-  array.resize(narray);
-  for(unsigned int ino=0;ino<nno;ino++){ aflg[ino] = -1; }
-  //
-  for(unsigned int ino0=0;ino0<nno;++ino0){
-    aflg[ino0] = ino0;
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      if( aflg[jno] == ino0 ){ continue; }
-      aflg[jno] = ino0;
-      const unsigned int ind = index[ino0];
-      array[ind] = jno;
-      index[ino0]++;
-    }
-    for(std::size_t jjno=0;jjno<mapM2S[ino0].size();++jjno){
-      const int jno = mapM2S[ino0][jjno];
-      if( aflg[jno] != ino0 ){
-        aflg[jno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = jno;
-        index[ino0]++;
-      }
-      for(unsigned int jcrs=psup_ind0[jno];jcrs<psup_ind0[jno+1];++jcrs){
-        const unsigned int kno = psup0[jcrs];
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
-    }
-    for(unsigned int icrs=psup_ind0[ino0];icrs<psup_ind0[ino0+1];++icrs){
-      const unsigned int jno = psup0[icrs];
-      for(unsigned int jdim=0;jdim<ndim;++jdim){
-        unsigned int kdof = aMSFlag[jno*ndim+jdim];
-        if( kdof == UINT_MAX ) continue;
-        unsigned int kno = kdof/ndim;
-        if( aflg[kno] == ino0 ){ continue; }
-        aflg[kno] = ino0;
-        const unsigned int ind = index[ino0];
-        array[ind] = kno;
-        index[ino0]++;
-      }
-    }
+  index.assign(nno+1,0);
+  array.clear();
+  for(unsigned int ino=0;ino<nno;++ino){
+    array.insert(array.end(), rows[ino].begin(), rows[ino].end());
+    index[ino+1] = static_cast<unsigned int>(array.size());
   }
-  // ---------
-  for(int ino=static_cast<int>(nno);ino>0;--ino){ index[ino] = index[ino-1]; }
-  index[0] = 0;
 }
 
 
-- 
2.43.0


From 86d05f9e4a44bae77ad6a99183d812e3ad059b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 39/96] fix: CLinPro::Precomp started from the table of the
 program solved before

---
 include/delfem2/lp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e7e30b7..e5e100b 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -294,7 +294,7 @@ int delfem2::CLinPro::Precomp(int& nitr)
   const unsigned int ncol = (neq+1); // neq,trg
   const unsigned int nrow = (1+1+nvar+nslk+nart); // rhs,trg,var,slk,art
 //  std::cout << neq << " " << nvar << " " << nslk << " " << nart << "  " << ncol << " " << nrow << std::endl;
-  A.resize(ncol*nrow,0.0);
+  A.assign(ncol*nrow,0.0);
   for(unsigned int ieq=0;ieq<neq;++ieq){
     A[ieq*nrow] = aEq[ieq].rhs;
     for(size_t ic=0;ic<aEq[ieq].aCoeff.size();++ic){
-- 
2.43.0


From 11a6f48256ff5d2566ce4df3d34a7de1b3da3629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:52 +0000
Subject: [PATCH 40/96] fix: CLinPro failed for '>=' when the origin is valid

---
 include/delfem2/lp.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index e5e100b..d28ead1 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -338,7 +338,14 @@ int delfem2::CLinPro::Precomp(int& nitr)
   }
 //  std::cout << "precomp" << std::endl;
 //  ::Print(A, ncol, nrow, map_col2row);
-  if( nart == 0 ){ nitr=0; return 0; }
+  if( nart == 0 ){
+    for(unsigned int icol=0;icol<neq;++icol){ // the coefficient of the slack variable in ">=" is negative
+      if( A[icol*nrow+map_col2row[icol]] > 0 ){ continue; }
+      for(unsigned int jrow=0;jrow<nrow;++jrow){ A[icol*nrow+jrow] = -A[icol*nrow+jrow]; }
+    }
+    nitr=0;
+    return 0;
+  }
   ////
   A[(ncol-1)*nrow+1] = 1.0;
   for(unsigned int ieq=0;ieq<aEq.size();++ieq){
-- 
2.43.0


From 914357463c214919888155ace552dc2f317a2b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:44 +0000
Subject: [PATCH 41/96] fix: CLinPro refused valid programs when an artificial
 variable stays in the basis at zero

---
 include/delfem2/lp.cpp | 72 ++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 23 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index d28ead1..01430e4 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -85,6 +85,25 @@ bool LinPro_CheckTable(
   return true;
 }
 
+// Gauss's sweep
+void LinPro_Sweep(
+    std::vector<double>& B,
+    unsigned int icol0,
+    unsigned int jrow0,
+    unsigned int ncol,
+    unsigned int nrow)
+{
+  const double vpiv = B[icol0*nrow+jrow0];
+  for(unsigned int jrow=0;jrow<nrow;++jrow){ B[icol0*nrow+jrow] /= vpiv; }
+  for(unsigned int icol=0;icol<ncol;++icol){
+    if( icol == icol0 ) continue;
+    const double vpiv0 = B[icol*nrow+jrow0];
+    for(unsigned int jrow=0;jrow<nrow;jrow++){
+      B[icol*nrow+jrow] -= vpiv0*B[icol0*nrow+jrow];
+    }
+  }
+}
+
 // return value
 // 0: converged
 // 1: input value wrong
@@ -169,17 +188,7 @@ int LinPro_SolveTable(
       assert( jrow_min >= 0 && jrow_min < nrow );
     }
     assert( fabs(B[icol_min*nrow+jrow_min]) > 0 );
-    { // Gauss's sweep
-      const double vpiv = B[icol_min*nrow+jrow_min];
-      for(unsigned int jrow=0;jrow<nrow;++jrow){ B[icol_min*nrow+jrow] /= vpiv; }
-      for(unsigned int icol=0;icol<ncol;++icol){
-        if( icol == icol_min ) continue;
-        const double vpiv0 = B[icol*nrow+jrow_min];
-        for(unsigned int jrow=0;jrow<nrow;jrow++){
-          B[icol*nrow+jrow] -= vpiv0*B[icol_min*nrow+jrow];
-        }
-      }
-    }
+    LinPro_Sweep(B, icol_min, jrow_min, ncol, nrow);
     // swap basic-nonbasic index
     flg_row[jrow_min] = 1;
     unsigned int jrow_new = map_col2row[icol_min];
@@ -375,27 +384,44 @@ int delfem2::CLinPro::Precomp(int& nitr)
 //    std::cout << "no bound in solution" << std::endl;
     return 2;
   }
-  for(unsigned int icol=0;icol<ncol;++icol){
-    unsigned int jrow_dia = map_col2row[icol];
-    if( jrow_dia < 1 || jrow_dia >= 2+nvar+nslk ){
-//      std::cout << "precomputation is not solved: " << jrow_dia << " " << 2+nvar+nslk << std::endl;
-      return 3;
-    }
+  if( fabs(A[(ncol-1)*nrow]) > 1.0e-8 ){ // artificial variables remain
+//    std::cout << "precomputation is not solved" << std::endl;
+    return 3;
   }
-  assert( fabs(A[(ncol-1)*nrow]) < 1.0e-8 );
 //  std::cout << "  solved" << std::endl;
 //  ::(A, ncol, nrow, map_col2row);
 //    std::cout << "couldn't found solution" << std::endl;
 //    return 3;
 //  }
 //  std::cout << "succesfully found a valid solution" << std::endl;
-  const std::vector<double> B = A;
   const unsigned int nrow1 = 1+1+nvar+nslk;
-//  std::cout << "hugahugat" << ncol << " " << nrow1 << std::endl;
-  A.resize(ncol*nrow1);
-  for(unsigned int icol=0;icol<ncol;++icol){
+  // artificial variables still in the basis are zero, take them out of it
+  std::vector<unsigned int> aKeep; // an equation without other variable is redundant
+  for(unsigned int icol=0;icol<neq;++icol){
+    if( map_col2row[icol] >= nrow1 ){
+      unsigned int jrow_max = UINT_MAX;
+      double max_coeff = 1.0e-8;
+      for(unsigned int jrow=2;jrow<nrow1;++jrow){
+        if( fabs(A[icol*nrow+jrow]) < max_coeff ){ continue; }
+        max_coeff = fabs(A[icol*nrow+jrow]);
+        jrow_max = jrow;
+      }
+      if( jrow_max == UINT_MAX ){ continue; }
+      A[icol*nrow] = 0.0;
+      LinPro_Sweep(A, icol, jrow_max, ncol, nrow);
+      map_col2row[icol] = jrow_max;
+    }
+    aKeep.push_back(icol);
+  }
+  const std::vector<double> B = A;
+  const std::vector<unsigned int> map_col2row0 = map_col2row;
+  neq = static_cast<unsigned int>(aKeep.size());
+  A.assign((neq+1)*nrow1, 0.0); // the target is set in "Solve"
+  map_col2row.assign(neq+1, 1);
+  for(unsigned int icol=0;icol<neq;++icol){
+    map_col2row[icol] = map_col2row0[aKeep[icol]];
     for(unsigned int irow=0;irow<nrow1;++irow){
-      A[icol*nrow1+irow] = B[icol*nrow+irow];
+      A[icol*nrow1+irow] = B[aKeep[icol]*nrow+irow];
     }
   }
   return 0;
-- 
2.43.0


From 8c405cc07640dd7a23dabc121efa278e88efa1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:07 +0000
Subject: [PATCH 42/96] fix: CLinPro took round-off error for an improving
 direction or a pivot

---
 include/delfem2/lp.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/lp.cpp b/include/delfem2/lp.cpp
index 01430e4..ab10dea 100644
--- a/include/delfem2/lp.cpp
+++ b/include/delfem2/lp.cpp
@@ -116,6 +116,7 @@ int LinPro_SolveTable(
     unsigned int nrow)
 {
   assert(ncol>0);
+  const double eps = 1.0e-10; // smaller entries are round-off error
   for(unsigned int icol=0;icol<ncol-1;++icol){
     unsigned int jrow = map_col2row[icol];
     double b0 = B[icol*nrow+jrow];
@@ -145,7 +146,7 @@ int LinPro_SolveTable(
       for(unsigned int jrow=0;jrow<nrow;++jrow){
         if( flg_row[jrow] != 0 ){ continue; }
         double d0 = B[(ncol-1)*nrow+jrow];
-        if( d0 >= 0 ){ continue; }
+        if( d0 > -eps ){ continue; }
         is_optim = false;
       }
       if( is_optim ){ // no way to furthre increase the value
@@ -159,14 +160,14 @@ int LinPro_SolveTable(
       for(unsigned int jrow=0;jrow<nrow;++jrow){
         if( flg_row[jrow] != 0 ){ continue; }
         double d0 = B[(ncol-1)*nrow+jrow];
-        if( d0 >= 0 ){ continue; }
+        if( d0 > -eps ){ continue; }
         double min_bound = -1;
         unsigned int icol_min_cand = UINT_MAX;
         for(unsigned int icol=0;icol<ncol-1;++icol){
           const double dia0 = B[icol*nrow+jrow];
           const double rhs0 = B[icol*nrow];
 //          std::cout << "hoge" << dia0 << std::endl;
-          if( dia0 <= 0 ){ continue; } // negative dia makes the rhs netgative
+          if( dia0 < eps ){ continue; } // negative dia makes the rhs netgative
           double bound0 = rhs0/dia0;
           if( bound0 > 1.0e+10 ) continue;
           if( icol_min_cand == UINT_MAX || bound0 < min_bound ){
-- 
2.43.0


From 87ed5e812c63c93dca372a28ffb2d31480ec13f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 43/96] fix: CMathExpressionEvaluator failed an assertion for a
 sign in front of an operand

---
 include/delfem2/parse_math_expression.cpp | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 531fc4d..25c2c0e 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -292,20 +292,14 @@ int GetLowestPriorityOperator(
     std::cerr << "Error!-->(hoge)foo" << std::endl;
     return 3;
   }
-  // binary operator(+とか-)
+  // binary operator(+とか-) or sign operator( -hoge )
   if (ipos_min != UINT_MAX) {
 //    std::cout << ipos_min << " " << itype_min << std::endl;
-    assert(itype_min == 3);
-    assert(iopr_min != -1);
-    ibegin = ipos_min;
-    iend = ipos_min + 1;
-    itype = itype_min;
-    iopr = iopr_min;
-    return 0;
-  }
-  // sign operator( -hoge )
-  if (ipos_min == 0) {   // this looks always false
-    assert(itype_min == 2);
+    if (itype_min == 2 && exp.size() == 1) {
+      std::cerr << "Error!-->Sign without operand" << std::endl;
+      return 9;
+    }
+    assert(itype_min == 3 || (itype_min == 2 && ipos_min == 0));
     assert(iopr_min != -1);
     ibegin = ipos_min;
     iend = ipos_min + 1;
-- 
2.43.0


From 034923e731d7423b4c0b0688a5213e9ce99ca503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 44/96] fix: CMathExpressionEvaluator evaluated "a-b+c" and
 "a/b/c" from the right

---
 include/delfem2/parse_math_expression.cpp | 31 +++++++++++++----------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 25c2c0e..03f050c 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -202,6 +202,7 @@ int GetLowestPriorityOperator(
   iopr = -1;
 
   const int ipriority_max = 10;
+  const auto is_operator = [](char c) { return c == '+' || c == '-' || c == '*' || c == '/' || c == '^'; };
 
   unsigned int ipos_min = UINT_MAX;
   int ipriority_min = ipriority_max;
@@ -228,37 +229,37 @@ int GetLowestPriorityOperator(
     int itype_curr = -1;
     int iopr_curr = -1;
     switch (exp[ipos_curr]) {
-      case '+':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
+      case '+':
         if (ipos_curr == 0) { // sign operator
           ipriority_curr = 5;
           itype_curr = 2;
           iopr_curr = 0;
           break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 0;
-          itype = 3;
-          return 0;  // binary operator
+        } else if (!is_operator(exp[ipos_curr - 1])) {  // binary operator
+          ipriority_curr = 1;
+          itype_curr = 3;
+          iopr_curr = 0;
+          break;
         }
         continue;
-      case '-':ibegin = ipos_curr;
-        iend = ipos_curr + 1;
+      case '-':
         if (ipos_curr == 0) { // sign operator
           ipriority_curr = 5;
           itype_curr = 2;
           iopr_curr = 1;
           break;
-        } else if (exp[ipos_curr - 1] != '*' && exp[ipos_curr - 1] != '/' && exp[ipos_curr - 1] != '^') {
-          iopr = 1;
-          itype = 3;
-          return 0;  // binary operator
+        } else if (!is_operator(exp[ipos_curr - 1])) {  // binary operator
+          ipriority_curr = 1;
+          itype_curr = 3;
+          iopr_curr = 1;
+          break;
         }
         continue;
       case '*':ipriority_curr = 3;
         itype_curr = 3;
         iopr_curr = 2;
         break;
-      case '/':ipriority_curr = 4;
+      case '/':ipriority_curr = 3;
         itype_curr = 3;
         iopr_curr = 3;
         break;
@@ -272,7 +273,9 @@ int GetLowestPriorityOperator(
         }
         break;
     }
-    if (ipriority_curr < ipriority_min) {
+    // operators of the same priority are applied from the left, except for "^"
+    const bool is_from_left = (itype_curr == 3 && iopr_curr != 4);
+    if (ipriority_curr < ipriority_min || (is_from_left && ipriority_curr == ipriority_min)) {
       ipos_min = ipos_curr;
       ipriority_min = ipriority_curr;
       itype_min = itype_curr;
-- 
2.43.0


From 9f3f506f6d8d09bfdf00a265391b001cff3e9e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 45/96] fix: CMathExpressionEvaluator dropped numbers when
 errno was left at ERANGE

---
 include/delfem2/parse_math_expression.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 03f050c..9edcf50 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -435,13 +435,13 @@ bool MakeCmdAry(
     const SExpCompo &compo = exp_node_vec[iexp];
     if (compo.iOpeType == 0) { // numeric
       char *e;
+      errno = 0; // it may be left from a function evaluated before
       double val = strtod(compo.sOpe.c_str(), &e);
-      if (errno != ERANGE) {
-        cmd_vec[iexp] = new COperand(val);
-      } else if (val == HUGE_VAL) {
+      if (errno == ERANGE && val == HUGE_VAL) {
         std::cout << "Exceeding the range of (double)" << std::endl;
         return false;
       }
+      cmd_vec[iexp] = new COperand(val);
     } else if (compo.iOpeType == 1) { // symbol
       if (compo.iOpe == -1) {
         bool bflg = false;
-- 
2.43.0


From 442544eb7f93d5e2606c66fed3d48e490bfa28cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:51 +0000
Subject: [PATCH 46/96] fix: CMathExpressionEvaluator accepted malformed
 numbers such as "1.2.3" and "2(3)"

---
 include/delfem2/parse_math_expression.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/parse_math_expression.cpp b/include/delfem2/parse_math_expression.cpp
index 9edcf50..91a1ffa 100644
--- a/include/delfem2/parse_math_expression.cpp
+++ b/include/delfem2/parse_math_expression.cpp
@@ -441,6 +441,10 @@ bool MakeCmdAry(
         std::cout << "Exceeding the range of (double)" << std::endl;
         return false;
       }
+      if (e == compo.sOpe.c_str() || *e != '\0') {
+        std::cout << "Error!-->Cannot interprit this number : " << compo.sOpe << std::endl;
+        return false;
+      }
       cmd_vec[iexp] = new COperand(val);
     } else if (compo.iOpeType == 1) { // symbol
       if (compo.iOpe == -1) {
-- 
2.43.0


From c834ab9eda0a56e952a13ecccea25ddfa296e4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 47/96] fix: Split_Parentheses and Split_Quote returned the
 last piece twice for text ending with a delimiter

---
 include/delfem2/str.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 6a2ccd5..6dffdcf 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -117,9 +117,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
   unsigned int is=0;
   int ilevel = 0;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == cs ){ ilevel++; }
     if( str[ie] == ce ){ ilevel--; }
     if( str[ie] == delimiter && ilevel == 0 ){
@@ -127,6 +124,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Parentheses(
       is = ie+1;
     }
   }
+  if( !str.empty() ){ // text after the last delimiter
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
@@ -139,9 +139,6 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
   unsigned int is=0;
   bool is_in = false;
   for(unsigned int ie=0;ie<str.size();++ie){
-    if( ie == str.size()-1 ){
-      aToken.emplace_back(str.data()+is,str.data()+ie+1 );
-    }
     if( str[ie] == quote ){ is_in = !is_in; }
     if( str[ie] == delimiter && !is_in ){
       if( str[is] != delimiter ) { // skip the sequence of the delimiter
@@ -150,6 +147,9 @@ DFM2_INLINE std::vector<std::string> delfem2::Split_Quote(
       is = ie+1;
     }
   }
+  if( is < str.size() ){ // text after the last delimiter
+    aToken.emplace_back(str.data()+is,str.data()+str.size() );
+  }
   return aToken;
 }
 
-- 
2.43.0


From 6ed8c1b0a9dade63c8e6f158ffa0eb200e70b6f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 48/96] fix: RemoveBeginning kept text of which every character
 is to be removed

---
 include/delfem2/str.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 6dffdcf..093f9e6 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -206,7 +206,7 @@ DFM2_INLINE std::string delfem2::RemoveBeginning(
   const size_t n = str.size();
   const size_t ndel = del.size();
   //
-  int istat = 0;
+  size_t istat = n; // nothing is left if all the characters are removed
   for(unsigned int i=0;i<n;++i){
     bool is_del = false;
     for(unsigned int idel=0;idel<ndel;++idel){
-- 
2.43.0


From 077805a07723c43039fecca35492406e9946125b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 49/96] fix: ParseAttributes dropped attributes with "=" in the
 quoted value

---
 include/delfem2/str.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index 093f9e6..c9f86c1 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -409,7 +409,7 @@ DFM2_INLINE void delfem2::ParseAttributes
   }
    */
   for(const auto & is : aS){
-    std::vector<std::string> aS1 = Split(is, '=');
+    std::vector<std::string> aS1 = Split_Quote(is, '=', '\"');
     if( aS1.size() != 2 ) continue;
     std::string s1 = Remove_Quote(aS1[1], '\"');
     mapAttr.insert( std::make_pair(aS1[0],s1) );
-- 
2.43.0


From 904e586dac104878b0d1da7c484c3ff62572df35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:55 +0000
Subject: [PATCH 50/96] fix: getCmdOptionDouble truncated the default value to
 a whole number

---
 include/delfem2/str.cpp | 2 +-
 include/delfem2/str.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/str.cpp b/include/delfem2/str.cpp
index c9f86c1..861cd2b 100644
--- a/include/delfem2/str.cpp
+++ b/include/delfem2/str.cpp
@@ -359,7 +359,7 @@ DFM2_INLINE bool delfem2::cmdOptionExists
 }
 
 DFM2_INLINE double delfem2::getCmdOptionDouble
- (char ** begin, char ** end, const std::string & option, int ddef)
+ (char ** begin, char ** end, const std::string & option, double ddef)
 {
   char ** itr = std::find(begin, end, option);
   if (itr != end && ++itr != end){ return myStod(*itr); }
diff --git a/include/delfem2/str.h b/include/delfem2/str.h
index f57a0cc..8369279 100644
--- a/include/delfem2/str.h
+++ b/include/delfem2/str.h
@@ -42,7 +42,7 @@ DFM2_INLINE double getCmdOptionDouble(
     char ** begin,
     char ** end,
     const std::string & option,
-    int ddef);
+    double ddef);
 
 DFM2_INLINE bool cmdOptionExists(
     char** begin,
-- 
2.43.0


From 0ac02f436efef6db29f5d92eb228ca9500a1ad13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 51/96] fix: obj readers stopped at a line of 256 or more
 characters

---
 include/delfem2/msh_io_obj.cpp | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index f387f97..95d7076 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -266,9 +266,8 @@ DFM2_INLINE void delfem2::Read_Obj(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff; // a line can have any length
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       char str[256];
@@ -311,9 +310,8 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
   quad_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   quad_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff; // a line can have any length
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       char str[256];
@@ -353,9 +351,8 @@ DFM2_INLINE void delfem2::Read_Obj2(
   aTri.clear();
   aXYZ.reserve(256 * 16);
   aTri.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff; // a line can have any length
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       char str[256];
@@ -405,9 +402,8 @@ void delfem2::Read_Obj3(
   tri_vtx.clear();
   vtx_xyz.reserve(256 * 16);
   tri_vtx.reserve(256 * 16);
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff; // a line can have any length
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'v' && buff[1] == ' ') {
       char str[256];
@@ -508,11 +504,10 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
   group_elem_index.clear();
   group_elem_index.push_back(0);
   //
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
+  std::string buff; // a line can have any length
   fname_mtl.clear();
   std::string current_material_name;
-  while (fin.getline(buff, BUFF_SIZE)) {
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == 'm') {
       std::stringstream ss(buff);
@@ -627,9 +622,8 @@ void delfem2::Read_WavefrontMaterial(
     return;
   }
   materials.clear();
-  const int BUFF_SIZE = 256;
-  char buff[BUFF_SIZE];
-  while (fin.getline(buff, BUFF_SIZE)) {
+  std::string buff; // a line can have any length
+  while (std::getline(fin, buff)) {
     if (buff[0] == '#') { continue; }
     if (buff[0] == '\n') { continue; }
     std::stringstream ss(buff);
-- 
2.43.0


From 9a36b37b51843f6539b552bd4425bbab4dcc4385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 52/96] fix: obj readers did not resolve negative indices, and
 Read_Obj and Read_Obj_MeshQuad3 indices with "/"

---
 include/delfem2/msh_io_obj.cpp | 72 ++++++++++++++++------------------
 1 file changed, 34 insertions(+), 38 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index 95d7076..adb99ba 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -20,6 +20,18 @@
 
 namespace delfem2::msh_ioobj {
 
+/**
+ * vertex index of a reference in the element line such as "3", "3/1/2" and "-1/-2/-1"
+ * @param str_ref reference
+ * @param num_vtx number of the vertices read so far. The negative index is relative to it
+ */
+DFM2_INLINE unsigned int IndexVtxObj_(
+    const std::string &str_ref,
+    size_t num_vtx) {
+  const int i0 = std::stoi(str_ref); // the number ends at '/'
+  return i0 < 0 ? static_cast<unsigned int>(static_cast<int>(num_vtx) + i0) : static_cast<unsigned int>(i0 - 1);
+}
+
 DFM2_INLINE void ParseVtxObj_(
     int &ip,
     int &it,
@@ -282,16 +294,14 @@ DFM2_INLINE void delfem2::Read_Obj(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
-      int i0, i1, i2;
+      std::string str, str0, str1, str2;
       {
         std::istringstream is(buff);
-        is >> str >> i0 >> i1 >> i2;
-//       sscanf(buff, "%s %d %d %d", str, &i0, &i1, &i2);
+        is >> str >> str0 >> str1 >> str2;
       }
-      tri_vtx.push_back(i0 - 1);
-      tri_vtx.push_back(i1 - 1);
-      tri_vtx.push_back(i2 - 1);
+      tri_vtx.push_back(msh_ioobj::IndexVtxObj_(str0, vtx_xyz.size() / 3));
+      tri_vtx.push_back(msh_ioobj::IndexVtxObj_(str1, vtx_xyz.size() / 3));
+      tri_vtx.push_back(msh_ioobj::IndexVtxObj_(str2, vtx_xyz.size() / 3));
     }
   }
 }
@@ -324,15 +334,13 @@ DFM2_INLINE void delfem2::Read_Obj_MeshQuad3(
       vtx_xyz.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256];
-      int i0, i1, i2, i3;
+      std::string str, str0, str1, str2, str3;
       std::istringstream is(buff);
-      is >> str >> i0 >> i1 >> i2 >> i3;
-//      sscanf(buff, "%s %d %d %d %d", str, &i0, &i1, &i2, &i3);
-      quad_vtx.push_back(i0 - 1);
-      quad_vtx.push_back(i1 - 1);
-      quad_vtx.push_back(i2 - 1);
-      quad_vtx.push_back(i3 - 1);
+      is >> str >> str0 >> str1 >> str2 >> str3;
+      quad_vtx.push_back(msh_ioobj::IndexVtxObj_(str0, vtx_xyz.size() / 3));
+      quad_vtx.push_back(msh_ioobj::IndexVtxObj_(str1, vtx_xyz.size() / 3));
+      quad_vtx.push_back(msh_ioobj::IndexVtxObj_(str2, vtx_xyz.size() / 3));
+      quad_vtx.push_back(msh_ioobj::IndexVtxObj_(str3, vtx_xyz.size() / 3));
     }
   }
 }
@@ -365,24 +373,15 @@ DFM2_INLINE void delfem2::Read_Obj2(
       aXYZ.push_back(z);
     }
     if (buff[0] == 'f') {
-      char str[256], str0[256], str1[256], str2[256];
+      std::string str, str0, str1, str2;
       {
         std::istringstream is(buff);
         is >> str >> str0 >> str1 >> str2;
 //        sscanf(buff, "%s %s %s %s", str, str0, str1, str2);
       }
-      for (unsigned int i = 0; i < strlen(str0); ++i) { if (str0[i] == '/') { str0[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str1); ++i) { if (str1[i] == '/') { str1[i] = '\0'; }}
-      for (unsigned int i = 0; i < strlen(str2); ++i) { if (str2[i] == '/') { str2[i] = '\0'; }}
-      const int i0 = std::stoi(str0);
-      const int i1 = std::stoi(str1);
-      const int i2 = std::stoi(str2);
-//      sscanf(str0,"%d",&i0);
-//      sscanf(str1,"%d",&i1);
-//      sscanf(str2,"%d",&i2);
-      aTri.push_back(i0 - 1);
-      aTri.push_back(i1 - 1);
-      aTri.push_back(i2 - 1);
+      aTri.push_back(msh_ioobj::IndexVtxObj_(str0, aXYZ.size() / 3));
+      aTri.push_back(msh_ioobj::IndexVtxObj_(str1, aXYZ.size() / 3));
+      aTri.push_back(msh_ioobj::IndexVtxObj_(str2, aXYZ.size() / 3));
     }
   }
 }
@@ -429,17 +428,10 @@ void delfem2::Read_Obj3(
           vec_str.push_back(s);
         }
       }
-      std::vector<int> aI;
+      std::vector<unsigned int> aI;
       aI.reserve(4);
-      for (auto str : vec_str) {
-        for (size_t i=0;i<str.size();++i) {
-          if (str[i] == '/') {
-            str[i] = '\0';
-            break;
-          }
-        }
-        int i0 = std::stoi(str);
-        aI.push_back(i0-1);
+      for (const auto &str : vec_str) {
+        aI.push_back(msh_ioobj::IndexVtxObj_(str, vtx_xyz.size() / 3));
       }
       if (aI.size() == 3) {
         tri_vtx.push_back(aI[0]);
@@ -575,6 +567,10 @@ DFM2_INLINE bool delfem2::Read_WavefrontObjWithMaterialMixedElem(
         buff1[str0.size()] = '\0';
         int ip0, it0, in0;
         msh_ioobj::ParseVtxObj_(ip0, it0, in0, buff1);
+        // negative index is relative to the number of the vertices read so far
+        if (ip0 < -1) { ip0 += static_cast<int>(vtx_xyz.size() / 3) + 1; }
+        if (it0 < -1) { it0 += static_cast<int>(vtx_tex.size() / 2) + 1; }
+        if (in0 < -1) { in0 += static_cast<int>(vtx_nrm.size() / 3) + 1; }
         elem_vtx_xyz.push_back(ip0);
         elem_vtx_tex.push_back(it0);
         elem_vtx_nrm.push_back(in0);
-- 
2.43.0


From 120c097019a67c69df724b475d02381f54b44e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 53/96] fix: Read_Obj3 dropped the faces with more than four
 corners

---
 include/delfem2/msh_io_obj.cpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index adb99ba..a891de5 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -433,19 +433,10 @@ void delfem2::Read_Obj3(
       for (const auto &str : vec_str) {
         aI.push_back(msh_ioobj::IndexVtxObj_(str, vtx_xyz.size() / 3));
       }
-      if (aI.size() == 3) {
+      for (size_t i = 2; i < aI.size(); ++i) { // fan of triangles
         tri_vtx.push_back(aI[0]);
-        tri_vtx.push_back(aI[1]);
-        tri_vtx.push_back(aI[2]);
-      }
-      if (aI.size() == 4) {
-        tri_vtx.push_back(aI[0]);
-        tri_vtx.push_back(aI[1]);
-        tri_vtx.push_back(aI[2]);
-        //
-        tri_vtx.push_back(aI[0]);
-        tri_vtx.push_back(aI[2]);
-        tri_vtx.push_back(aI[3]);
+        tri_vtx.push_back(aI[i - 1]);
+        tri_vtx.push_back(aI[i]);
       }
     }
   }
-- 
2.43.0


From 4e3447cc0eb637e6f5a6352316a75e8e73aefae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 54/96] fix: Write_WavefrontObj wrote the name of the previous
 group

---
 include/delfem2/msh_io_obj.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_io_obj.cpp b/include/delfem2/msh_io_obj.cpp
index a891de5..0c4e2ff 100644
--- a/include/delfem2/msh_io_obj.cpp
+++ b/include/delfem2/msh_io_obj.cpp
@@ -241,8 +241,8 @@ DFM2_INLINE void delfem2::Write_WavefrontObj(
     fout << vtx_nrm[ip * 3 + 2] << std::endl;
   }
   for (size_t ig = 0; ig < group_elem_index.size() - 1; ++ig) {
-    if (ig-1 < group_names.size() && ig != 0) {
-      fout << "g " << group_names[ig-1] << std::endl;
+    if (ig < group_names.size() && ig != 0) { // first group is the default one
+      fout << "g " << group_names[ig] << std::endl;
     }
     for (size_t itri = group_elem_index[ig]; itri < group_elem_index[ig + 1]; itri++) {
       assert(itri<tri_vtx_xyz.size()/3);
-- 
2.43.0


From 5853751ae9fa84b1dfa26d145b48c1ab081172d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 55/96] fix: Read_MeshTet3D_TetGen took attributes and boundary
 markers for the next entry

---
 include/delfem2/msh_io_misc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index 5014ea9..7aca499 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -16,6 +16,7 @@
 #include <string>
 #include <cstring>
 #include <climits>
+#include <limits>
 
 namespace delfem2::msh_iomisc {
 
@@ -138,6 +139,7 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
     aXYZ.resize(nnode * 3);
     for (unsigned int ino = 0; ino < nnode; ino++) {
       fin >> i1 >> aXYZ[ino * 3 + 0] >> aXYZ[ino * 3 + 1] >> aXYZ[ino * 3 + 2];
+      fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // attributes and boundary marker
       //        std::cout << i1 << " " << aXYZ[ino*3+0] << " " << aXYZ[ino*3+1] << " " << aXYZ[ino*3+2] << std::endl;
     }
   }
@@ -149,6 +151,7 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
     aTet.resize(ntet * 4);
     for (unsigned int itet = 0; itet < ntet; itet++) {
       fin >> i1 >> aTet[itet * 4 + 0] >> aTet[itet * 4 + 1] >> aTet[itet * 4 + 2] >> aTet[itet * 4 + 3];
+      fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // attributes
       //        std::cout << i1 << " " << aTet[itet*4+0] << " ";
       //        std::cout << aTet[itet*4+1] << " ";
       //        std::cout << aTet[itet*4+2] << " ";
@@ -176,6 +179,7 @@ DFM2_INLINE void delfem2::Read_MeshTet3D_TetGen(
        //        fin >> i1 >> aTri[itri*3+0] >> aTri[itri*3+2] >> aTri[itri*3+1] >> i2;
        */
       fin >> i1 >> aTri[itri * 3 + 0] >> aTri[itri * 3 + 2] >> aTri[itri * 3 + 1];
+      fin.ignore(std::numeric_limits<std::streamsize>::max(), '\n'); // boundary marker
       //        aTri[itri*3+0] -= 1;
       //        aTri[itri*3+1] -= 1;
       //        aTri[itri*3+2] -= 1;
-- 
2.43.0


From b594a3d9514370c4e0a2feef58822b6aadc078af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 56/96] fix: Read_MeshTri3D_Nas dropped the last line without
 line break and did not end for long lines

---
 include/delfem2/msh_io_misc.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/msh_io_misc.cpp b/include/delfem2/msh_io_misc.cpp
index 7aca499..ab25286 100644
--- a/include/delfem2/msh_io_misc.cpp
+++ b/include/delfem2/msh_io_misc.cpp
@@ -16,6 +16,7 @@
 #include <string>
 #include <cstring>
 #include <climits>
+#include <algorithm>
 #include <limits>
 
 namespace delfem2::msh_iomisc {
@@ -666,10 +667,12 @@ DFM2_INLINE void delfem2::Read_MeshTri3D_Nas(
   std::vector<int> map01;
   const int nbuff = 256;
   std::vector<char> buff(nbuff);
+  std::string line;
   char buff1[16], buff2[16], buff3[16], buff4[16], buff5[16];
   while (true) {
-    fin.getline(buff.data(), nbuff);
-    if (fin.eof()) { break; } // eof
+    if (!std::getline(fin, line)) { break; } // eof
+    line.resize(nbuff, '\0'); // only the first columns are used
+    std::copy(line.begin(), line.end(), buff.begin());
     if (buff[0] == 'G' && buff[1] == 'R' && buff[2] == 'I' && buff[3] == 'D') {
       for (int i = 0; i < 8; ++i) { buff1[i] = buff[i + 8]; }
       buff1[8] = '\0';
-- 
2.43.0


From cec94aab500db0d2d73f8f950475ea7105a1f385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 57/96] fix: numpy loaders read behind the header, and
 LoadNumpy_2Dim did not refuse files with a wrong header

---
 include/delfem2/filenpy_str.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index c882ecf..9d03f3b 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -47,12 +47,12 @@ DFM2_INLINE bool LoadNumpy(
   ndim0 = 0;
   ndim1 = 0;
   { // format
-    char buff[256];
+    std::string buff(npy.header_len, ' '); // header is not null-terminated
 //    size_t n1 = fread(buff, 1, npy.header_len, fp);
 //    if( n1 != npy.header_len ){ return false; }
-    fp.read(buff,npy.header_len);
+    fp.read(&buff[0],npy.header_len);
     if( fp.fail() ){ return false; }
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
+    std::map<std::string, std::string> map0 = ReadDictionary_Python(buff);
     std::string str_shape = map0["'shape'"];
     str_shape = Get_Parentheses(str_shape,"()");
     std::vector<std::string> aToken = Split(str_shape,',');
@@ -133,7 +133,7 @@ DFM2_INLINE bool delfem2::LoadNumpy_2Dim(
 //  FILE* fp = fopen(path.c_str(),"rb");
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
-  funcs::LoadNumpy(ndim0, ndim1, fin);
+  if( !funcs::LoadNumpy(ndim0, ndim1, fin) ){ return false; }
   int size = ndim0*ndim1;
   aData.resize(size);
 //  size_t n0 = fread(&aData[0], sizeof(float), size, fp);
@@ -178,13 +178,13 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
   
   ndim0 = 0;
   { // format
-    char buff[256];
+    std::string buff(npy.header_len, ' '); // header is not null-terminated
 //    size_t n1 = fread(buff, 1, npy.header_len, fp);
 //    if( n1 != npy.header_len ){ return false; }
-    fin.read(buff,npy.header_len);
+    fin.read(&buff[0],npy.header_len);
     if(fin.fail()){ return false; }
     //    std::cout << buff << "###" << strlen(buff) << std::endl;
-    std::map<std::string, std::string> map0 = ReadDictionary_Python(std::string(buff));
+    std::map<std::string, std::string> map0 = ReadDictionary_Python(buff);
     //    for(std::map<std::string, std::string>::iterator itr=map0.begin();itr!=map0.end();++itr){
     //      std::cout << itr->first << " --> " << itr->second << std::endl;
     //    }
-- 
2.43.0


From 911cc0788598861915b8bf13241de60584952267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 58/96] fix: numpy loaders ignored the type of the entries and
 the order of the axes

---
 include/delfem2/filenpy_str.cpp | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/filenpy_str.cpp b/include/delfem2/filenpy_str.cpp
index 9d03f3b..fee08ed 100644
--- a/include/delfem2/filenpy_str.cpp
+++ b/include/delfem2/filenpy_str.cpp
@@ -28,10 +28,23 @@ struct NPY
   unsigned short header_len = 0; // 2 bytes
 };
 
+/**
+ * @return true if the entries are little-endian floating-point numbers of this size
+ */
+DFM2_INLINE bool IsNumpyFloat_(
+    std::map<std::string, std::string>& map0,
+    size_t nbyte)
+{
+  const std::string descr = map0["'descr'"];
+  return descr == "'<f" + std::to_string(nbyte) + "'";
+}
+
 DFM2_INLINE bool LoadNumpy(
     int& ndim0,
     int& ndim1,
-    std::ifstream& fp)
+    bool& is_fortran_order,
+    std::ifstream& fp,
+    size_t nbyte_entry)
 {
   NPY npy;
 //  size_t n0 = fread(&npy, sizeof(npy), 1, fp);
@@ -53,6 +66,8 @@ DFM2_INLINE bool LoadNumpy(
     fp.read(&buff[0],npy.header_len);
     if( fp.fail() ){ return false; }
     std::map<std::string, std::string> map0 = ReadDictionary_Python(buff);
+    if( !IsNumpyFloat_(map0, nbyte_entry) ){ return false; }
+    is_fortran_order = (map0["'fortran_order'"] == "True");
     std::string str_shape = map0["'shape'"];
     str_shape = Get_Parentheses(str_shape,"()");
     std::vector<std::string> aToken = Split(str_shape,',');
@@ -133,13 +148,21 @@ DFM2_INLINE bool delfem2::LoadNumpy_2Dim(
 //  FILE* fp = fopen(path.c_str(),"rb");
   std::ifstream fin(path,std::ios::in | std::ios::binary);
   if( fin.fail() ) { return false; }
-  if( !funcs::LoadNumpy(ndim0, ndim1, fin) ){ return false; }
+  bool is_fortran_order = false;
+  if( !funcs::LoadNumpy(ndim0, ndim1, is_fortran_order, fin, sizeof(REAL)) ){ return false; }
   int size = ndim0*ndim1;
   aData.resize(size);
 //  size_t n0 = fread(&aData[0], sizeof(float), size, fp);
 //  return (int) n0 == size;
   fin.read( (char*)&aData[0], sizeof(REAL)*size );
-  return !fin.fail();
+  if( fin.fail() ){ return false; }
+  if( is_fortran_order ){ // columns are stored one after another
+    const std::vector<REAL> aTmp = aData;
+    for(int i=0;i<ndim0;++i){
+      for(int j=0;j<ndim1;++j){ aData[i*ndim1+j] = aTmp[j*ndim0+i]; }
+    }
+  }
+  return true;
 }
 #ifdef DFM2_STATIC_LIBRARY
 template bool delfem2::LoadNumpy_2Dim(
@@ -188,6 +211,7 @@ DFM2_INLINE bool delfem2::LoadNumpy_1DimF(
     //    for(std::map<std::string, std::string>::iterator itr=map0.begin();itr!=map0.end();++itr){
     //      std::cout << itr->first << " --> " << itr->second << std::endl;
     //    }
+    if( !funcs::IsNumpyFloat_(map0, sizeof(float)) ){ return false; }
     std::string str_shape = map0["'shape'"];
     str_shape = Get_Parentheses(str_shape,"()");
     std::vector<std::string> aToken = Split(str_shape,',');
-- 
2.43.0


From 6d237c1a14b79bc083f68f644441288a645aa478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 59/96] fix: LoadImage_PPMBinary read the data from a wrong
 position

---
 include/delfem2/img_ioppm.cpp | 55 +++++++++++++++--------------------
 1 file changed, 24 insertions(+), 31 deletions(-)

diff --git a/include/delfem2/img_ioppm.cpp b/include/delfem2/img_ioppm.cpp
index fb1838d..62a589d 100644
--- a/include/delfem2/img_ioppm.cpp
+++ b/include/delfem2/img_ioppm.cpp
@@ -13,6 +13,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <cassert>
+#include <limits>
 
 #include "delfem2/img_ioppm.h"
 
@@ -29,38 +30,30 @@ bool delfem2::LoadImage_PPMBinary(
   }
   
   std::string header;
-  {
-    char buff[256];
-    file.getline(buff, 256);
-    header = std::string(buff);
-  }
-  if (header=="P6") { // binary format
-    {
-      int max;
-      char buff[256];
-      file.getline(buff,256);
-      if (buff[0]=='#'){
-        file>>width>>height>>max;
-      }
-      else{
-        std::stringstream ss(buff);
-        ss>>width>>height>>max;
-      }
-      //      std::cout<<header<<" "<<width<<" "<<height<<" "<<max<<std::endl;
+  file >> header;
+  if (header!="P6") { return false; } // binary format
+  int max;
+  for (int* value : {&width, &height, &max}) { // comments may come before each of them
+    while ((file >> std::ws).peek() == '#') {
+      file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
     }
-    // max is supporse to be 255
-    const int size = width*height*3+1;
-    std::vector<unsigned char> data(size);
-    file.read(reinterpret_cast<char*>(&(data[0])), size);
-    image.resize(3*height*width+256);
-    for (int row = 0; row < height; ++row) {
-      for (int col = 0; col < width; ++col) {
-        int dest_index = 3*((height-row-1) * width+col);
-        int src_index = (row * width+col)*3;
-        image[dest_index+0] = data[src_index+1];
-        image[dest_index+1] = data[src_index+2];
-        image[dest_index+2] = data[src_index+3];
-      }
+    file >> *value;
+  }
+  file.get(); // one white space before the data
+  if (!file || width < 0 || height < 0) { return false; }
+  // max is supporse to be 255
+  const int size = width*height*3;
+  std::vector<unsigned char> data(size);
+  file.read(reinterpret_cast<char*>(data.data()), size);
+  if (file.gcount() != size) { return false; }
+  image.resize(3*height*width+256);
+  for (int row = 0; row < height; ++row) {
+    for (int col = 0; col < width; ++col) {
+      int dest_index = 3*((height-row-1) * width+col);
+      int src_index = (row * width+col)*3;
+      image[dest_index+0] = data[src_index+0];
+      image[dest_index+1] = data[src_index+1];
+      image[dest_index+2] = data[src_index+2];
     }
   }
 
-- 
2.43.0


From 249f3ab2b8eeb08c5a27330e02bf63df3101f21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 60/96] fix: pathRemoveExtension dropped the other dots of the
 path, getPathDir failed without directory

---
 include/delfem2/file.cpp | 41 ++++++++++++++--------------------------
 1 file changed, 14 insertions(+), 27 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 324496b..311f009 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -17,18 +17,14 @@
 namespace delfem2{
 namespace file{
 
-DFM2_INLINE void Split(
-    std::vector<std::string>& aToken,
-    const std::string& str,
-    char delimiter)
+// location of the last '.' in the file name
+DFM2_INLINE size_t LocationExtension_(const std::string& fpath)
 {
-  aToken.clear();
-  std::stringstream data(str);
-  std::string line;
-  while(std::getline(data,line,delimiter)){
-    if( line.empty() ){ continue; }
-    aToken.push_back(line);
-  }
+  const size_t iloc = fpath.find_last_of('.');
+  if( iloc == std::string::npos ){ return std::string::npos; }
+  const size_t idir = fpath.find_last_of('/');
+  if( idir != std::string::npos && iloc < idir ){ return std::string::npos; }
+  return iloc;
 }
 
 }
@@ -61,31 +57,22 @@ DFM2_INLINE bool delfem2::isFileExists(const std::string& fpath)
 
 DFM2_INLINE std::string delfem2::pathRemoveExtension(const std::string& fpath)
 {
-  std::vector<std::string> aToken;
-  file::Split(aToken, fpath, '.');
-  std::string sRes;
-  for(int it=0;it<(int)aToken.size()-1;++it){
-    sRes += aToken[it];
-  }
-  return sRes;
+  const size_t iloc = file::LocationExtension_(fpath);
+  return fpath.substr(0, iloc);
 }
 
 DFM2_INLINE std::string delfem2::pathGetExtension(const std::string& fpath)
 {
-  std::vector<std::string> aToken;
-  file::Split(aToken, fpath, '.');
-  std::string sRes;
-  if( !aToken.empty() ){
-    sRes = aToken[aToken.size()-1];
-  }
-  return sRes;
+  const size_t iloc = file::LocationExtension_(fpath);
+  if( iloc == std::string::npos ){ return std::string(); }
+  return fpath.substr(iloc+1);
 }
 
 DFM2_INLINE std::string delfem2::getPathDir(const std::string& fpath)
 {
   const size_t iloc = fpath.find_last_of('/');
-  std::string sres = std::string(fpath.begin(),fpath.begin()+iloc);
-  return sres;
+  if( iloc == std::string::npos ){ return std::string(); }
+  return fpath.substr(0, iloc);
 }
 
 // ----------------------------------
-- 
2.43.0


From a326694e5a58362aaa1040b9bae0082b24933c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:02 +0000
Subject: [PATCH 61/96] fix: ReadParam dropped the last value without line
 break and did not end for text

---
 include/delfem2/file.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/file.cpp b/include/delfem2/file.cpp
index 311f009..2685cc4 100644
--- a/include/delfem2/file.cpp
+++ b/include/delfem2/file.cpp
@@ -85,10 +85,8 @@ DFM2_INLINE bool delfem2::ReadParam(
   fin.open(fname.c_str());
   if( !fin.is_open() ) return false;
   aPara.clear();
-  for(;;){
-    double d;
-    fin >> d;
-    if( fin.eof() ) break;
+  double d;
+  while( fin >> d ){
     aPara.push_back(static_cast<float>(d));
   }
   return true;
-- 
2.43.0


From 0c00f293b0fdfdd55929f2c60499f8537223c56b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 62/96] fix: parallel_for handled no index when the number of
 processors is not known

---
 include/delfem2/thread.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 74e2bbf..493dc9f 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -8,6 +8,8 @@
 #ifndef DFM2_THREAD_H
 #define DFM2_THREAD_H
 
+#include <algorithm>
+#include <atomic>
 #include <functional>
 #include <future>
 #include <mutex>
@@ -26,7 +28,7 @@ inline void parallel_for(
   auto futures = std::vector<std::future<void>>{};
 
   const unsigned int nthreads = (target_concurrency == 0) ?
-                                std::thread::hardware_concurrency() : target_concurrency;
+                                std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<T> next_idx(0);
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
@@ -56,7 +58,7 @@ inline void parallel_for(
     unsigned int target_concurrency = 0) {
   auto futures = std::vector<std::future<void>>{};
   const unsigned int nthreads = (target_concurrency == 0) ?
-                                std::thread::hardware_concurrency() : target_concurrency;
+                                std::max(1u, std::thread::hardware_concurrency()) : target_concurrency;
   std::atomic<T> next_idx(0);
   std::atomic<bool> has_error(false);
   for (auto thread_id = 0; thread_id < (int) nthreads; thread_id++) {
-- 
2.43.0


From b6499bc9a60eb6d11a9c346a6dfdcffc9665c987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 63/96] fix: parallel_for started over when the counter passed
 the end of a narrow index type

---
 include/delfem2/thread.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/thread.h b/include/delfem2/thread.h
index 493dc9f..8310c4e 100644
--- a/include/delfem2/thread.h
+++ b/include/delfem2/thread.h
@@ -36,7 +36,8 @@ inline void parallel_for(
         std::async(std::launch::async, [&func, &next_idx, &has_error, num]() {
           try {
             while (true) {
-              auto idx = next_idx.fetch_add(1);
+              T idx = next_idx.load();
+              while (idx < num && !next_idx.compare_exchange_weak(idx, (T) (idx + 1))) {}
               if (idx >= num) break;
               if (has_error) break;
               func(idx);
@@ -66,7 +67,8 @@ inline void parallel_for(
         std::launch::async, [&func, &next_idx, &has_error, num1, num2]() {
           try {
             while (true) {
-              auto j = next_idx.fetch_add(1);
+              T j = next_idx.load();
+              while (j < num2 && !next_idx.compare_exchange_weak(j, (T) (j + 1))) {}
               if (j >= num2) break;
               if (has_error) break;
               for (auto i = (T) 0; i < num1; i++) func(i, j);
-- 
2.43.0


From 1ca00812ba3aa13531dcefb6e500d8dc6e4c540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 64/96] fix: parallel Intersection_ImageRay_TriMesh3 exchanged
 rows and columns

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index a77cea9..8e0aeed 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -472,7 +472,7 @@ void Intersection_ImageRay_TriMesh3(
     aPointElemSurf[ih * nwidth + iw] = pos_mesh;
   };
   if( is_parallel ) {
-    parallel_for(nwidth, nheight, func);
+    parallel_for(nheight, nwidth, func);
   }
   else {
     for (unsigned int ih = 0; ih < nheight; ++ih) {
-- 
2.43.0


From e23371ad35fe65f7df58540b0216b0cffaba23ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:08 +0000
Subject: [PATCH 65/96] fix: Intersection_ImageRay_TriMesh3 kept the previous
 content for rays without a hit

---
 include/delfem2/srch_trimesh3_class.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/srch_trimesh3_class.h b/include/delfem2/srch_trimesh3_class.h
index 8e0aeed..30b2ca8 100644
--- a/include/delfem2/srch_trimesh3_class.h
+++ b/include/delfem2/srch_trimesh3_class.h
@@ -459,7 +459,7 @@ void Intersection_ImageRay_TriMesh3(
     const std::vector<double> &aXYZ, // 3d points
     const std::vector<unsigned int> &aTri,
     bool is_parallel) {
-  aPointElemSurf.resize(nheight * nwidth);
+  aPointElemSurf.assign(nheight * nwidth, PointOnSurfaceMesh<double>());
   const std::array<double, 16> mMVPd_inv = Inverse_Mat4(mMVPd);
   auto func = [&](int ih, int iw) {
     const std::pair<CVec3d, CVec3d> ray = RayFromInverseMvpMatrix(mMVPd_inv.data(), iw, ih, nwidth, nheight);
-- 
2.43.0


From 5328edc40f05ff34cffdeff7286210a1c332b667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 66/96] fix: ConvexHull2 repeated the first point and failed
 for collinear, coincident, distant or few points

---
 include/delfem2/geo_convhull2.h | 100 +++++++++++---------------------
 1 file changed, 33 insertions(+), 67 deletions(-)

diff --git a/include/delfem2/geo_convhull2.h b/include/delfem2/geo_convhull2.h
index c2f2511..51b8ba7 100644
--- a/include/delfem2/geo_convhull2.h
+++ b/include/delfem2/geo_convhull2.h
@@ -14,6 +14,7 @@
 
 #include <vector>
 #include <algorithm>  // sort
+#include <iterator>
 
 namespace delfem2 {
 
@@ -29,77 +30,42 @@ void ConvexHull2(
     std::vector<unsigned int> &point_idxs,
     const std::vector<VEC> &points) {
   using SCALAR = typename VEC::Scalar;
-  const SCALAR EPSILON = 1.0e-8;
-
-  unsigned int p0_idx;
-  { // find the index with minimum y coordinate
-    p0_idx = 0;
-    VEC p0 = points[0];
-    for (unsigned int i = 1; i < points.size(); ++i) {
-      if (points[i][1] > p0[1]) { continue; }
-      if (points[i][1] == p0[1] && points[i][0] > p0[0]) { continue; }
-      p0_idx = i;
-      p0 = points[i];
-    }
-  }
-  assert(p0_idx < points.size());
-
-  std::vector<std::pair<unsigned int, SCALAR> > idxcos;
-  { // compute and sort points by cosine value
-    VEC x_axis = {1, 0};
-    for (unsigned int i = 0; i < points.size(); i++) {
-      if (i == p0_idx) { continue; }
-      VEC dir = points[i] - points[p0_idx];
-      idxcos.emplace_back(i, x_axis.dot(dir) / dir.norm());
-    }
-  }
-
-  { // sort idxcos
-    auto comp = [&points, &p0_idx, &EPSILON](
-        const std::pair<unsigned int, SCALAR> &a,
-        const std::pair<unsigned int, SCALAR> &b) {
-      if (std::abs(a.second - b.second) > EPSILON) {
-        return a.second > b.second;
-      } else {
-        assert(a.first < points.size() && b.first < points.size() && p0_idx < points.size());
-        const SCALAR dista = (points[a.first] - points[p0_idx]).squaredNorm();
-        const SCALAR distb = (points[b.first] - points[p0_idx]).squaredNorm();
-        return dista > distb;
-      }
-    };
-    std::sort(idxcos.begin(), idxcos.end(), comp);
-  }
-
-  // check for collinear points
-  for (auto itr = ++idxcos.begin(); std::next(itr) != idxcos.end(); itr++) {
-    if (std::abs((*itr).second - (*std::next(itr)).second) < EPSILON) {
-      idxcos.erase(std::next(itr)); // only keep the furthest
-    }
-  }
-
-  idxcos.emplace_back(p0_idx, 0);
-
+  // sort by y coordinate, then by x coordinate
+  std::vector<unsigned int> sorted(points.size());
+  for (unsigned int i = 0; i < points.size(); i++) { sorted[i] = i; }
+  std::sort(sorted.begin(), sorted.end(), [&points](unsigned int a, unsigned int b) {
+    if (points[a][1] != points[b][1]) { return points[a][1] < points[b][1]; }
+    if (points[a][0] != points[b][0]) { return points[a][0] < points[b][0]; }
+    return a < b;
+  });
+  // points at the same position are used once
+  sorted.erase(std::unique(sorted.begin(), sorted.end(), [&points](unsigned int a, unsigned int b) {
+    return points[a][0] == points[b][0] && points[a][1] == points[b][1];
+  }), sorted.end());
   point_idxs.clear();
-  point_idxs.push_back(p0_idx);
-  point_idxs.push_back(idxcos.begin()->first);
-  unsigned int stack_top = 1;
-  for (auto itr = ++idxcos.begin(); itr != idxcos.end(); itr++) {
-    unsigned int p3_idx = itr->first;
-    while (true) {
-      unsigned int p1_idx = point_idxs[stack_top - 1];
-      unsigned int p2_idx = point_idxs[stack_top];
-      const VEC p1p2 = points[p2_idx] - points[p1_idx];
-      const VEC p1p3 = points[p3_idx] - points[p1_idx];
-      if (p1p2[0] * p1p3[1] - p1p2[1] * p1p3[0] <= 0) { // right turn or collinear
-        point_idxs.pop_back(); // pop top of the stack
-        stack_top--;
-      } else {
-        break;
-      }
+  if (sorted.size() < 3) {
+    point_idxs = sorted;
+    return;
+  }
+  const auto append = [&point_idxs, &points](unsigned int p3_idx, std::size_t num_keep) {
+    while (point_idxs.size() > num_keep) {
+      const VEC &p1 = points[point_idxs[point_idxs.size() - 2]];
+      const VEC &p2 = points[point_idxs[point_idxs.size() - 1]];
+      const VEC &p3 = points[p3_idx];
+      const SCALAR area = (p2[0] - p1[0]) * (p3[1] - p1[1]) - (p2[1] - p1[1]) * (p3[0] - p1[0]);
+      if (area > 0) { break; } // left turn
+      point_idxs.pop_back(); // right turn or collinear
     }
     point_idxs.push_back(p3_idx);
-    stack_top++;
+  };
+  for (auto itr = sorted.begin(); itr != sorted.end(); ++itr) { // right side upward
+    append(*itr, 1);
+  }
+  const std::size_t num_right = point_idxs.size();
+  for (auto itr = std::next(sorted.rbegin()); itr != sorted.rend(); ++itr) { // left side downward
+    append(*itr, num_right);
   }
+  point_idxs.pop_back(); // the first point comes again at the end
 }
 
 }
-- 
2.43.0


From 81a574222be8c145174f499e70a9d7653b46936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:01 +0000
Subject: [PATCH 67/96] fix: ConvexHull3 failed when the first four points are
 on a plane or there are fewer than four

---
 include/delfem2/geo_convhull3.h | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/geo_convhull3.h b/include/delfem2/geo_convhull3.h
index 83a01a1..8a4fc74 100644
--- a/include/delfem2/geo_convhull3.h
+++ b/include/delfem2/geo_convhull3.h
@@ -113,6 +113,28 @@ void delfem2::ConvexHull3(
   using REAL = typename VEC::Scalar;
   std::vector<int> aBflg(aXYZ.size(), -1);
   aTri.reserve(aXYZ.size() * 6);
+  // start from four points that span a tetrahedron
+  unsigned int iv0 = 0, iv1 = 1, iv2 = 2, iv3 = 3;
+  {
+    const auto nv = static_cast<unsigned int>(aXYZ.size());
+    const auto is_same = [&aXYZ](unsigned int i, unsigned int j) {
+      return aXYZ[i](0) == aXYZ[j](0) && aXYZ[i](1) == aXYZ[j](1) && aXYZ[i](2) == aXYZ[j](2);
+    };
+    const auto is_collinear = [&aXYZ](unsigned int i, unsigned int j, unsigned int k) {
+      VEC n; n.setZero();
+      lcl::Normal(n, aXYZ[i], aXYZ[j], aXYZ[k]);
+      return n(0) == 0 && n(1) == 0 && n(2) == 0;
+    };
+    while (iv1 < nv && is_same(iv0, iv1)) { ++iv1; }
+    iv2 = iv1 + 1;
+    while (iv2 < nv && is_collinear(iv0, iv1, iv2)) { ++iv2; }
+    iv3 = iv2 + 1;
+    while (iv3 < nv && lcl::Volume_Tet<REAL>(aXYZ[iv0], aXYZ[iv1], aXYZ[iv2], aXYZ[iv3]) == 0) { ++iv3; }
+    if (iv3 >= nv) { // all the points are on a plane
+      aTri.clear();
+      return;
+    }
+  }
   aTri = {
       1,2,3,
       0,3,2,
@@ -125,7 +147,7 @@ void delfem2::ConvexHull3(
       {0,1},{1,2},{3,1},{0,2},{2,2},{1,1}
   };
   {
-    REAL vol = lcl::Volume_Tet<REAL>(aXYZ[0], aXYZ[1], aXYZ[2], aXYZ[3]);
+    REAL vol = lcl::Volume_Tet<REAL>(aXYZ[iv0], aXYZ[iv1], aXYZ[iv2], aXYZ[iv3]);
     if (vol < 0) {
       aTri = {
           3,2,1,
@@ -136,12 +158,15 @@ void delfem2::ConvexHull3(
           {3,2,},{2,2},{1,2},{2,1},{3,0},{0,2},
           {3,1},{1,0},{0,1},{1,1},{2,0},{0,0} };
     }
+    const unsigned int ivs[4] = {iv0, iv1, iv2, iv3};
+    for (auto &ip : aTri) { ip = ivs[ip]; }
   }
   const int triEd[3][2] = {
       {1, 2},
       {2, 0},
       {0, 1}};
-  for (unsigned iv = 4; iv < static_cast<unsigned int>(aXYZ.size()); iv++) {
+  for (unsigned iv = 0; iv < static_cast<unsigned int>(aXYZ.size()); iv++) {
+    if (iv == iv0 || iv == iv1 || iv == iv2 || iv == iv3) { continue; }
     VEC v = aXYZ[iv];
     int itri_ker = -1;
 	const unsigned int ntri = static_cast<unsigned int>(aTri.size() / 3);
-- 
2.43.0


From 9eeabf509e3fe0f181df2ed624afa256621743a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:32 +0000
Subject: [PATCH 68/96] fix: IsIntersect_AABB2_Edge2 was defined outside of its
 namespace

---
 include/delfem2/geo_edge.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 1d0e64d..5a902f9 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -197,7 +197,7 @@ double delfem2::Distance_Edge2_Edge2(
 }
 
 template<typename VEC>
-bool IsIntersect_AABB2_Edge2(
+bool delfem2::IsIntersect_AABB2_Edge2(
   const VEC &pmin,
   const VEC &pmax,
   const VEC &p0,
@@ -268,12 +268,12 @@ bool IsIntersect_AABB2_Edge2(
   return false;
 }
 #ifdef DFM2_STATIC_LIBRARY
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2d &pmin,
   const delfem2::CVec2d &pmax,
   const delfem2::CVec2d &p0,
   const delfem2::CVec2d &p1);
-template bool IsIntersect_AABB2_Edge2(
+template bool delfem2::IsIntersect_AABB2_Edge2(
   const delfem2::CVec2f &pmin,
   const delfem2::CVec2f &pmax,
   const delfem2::CVec2f &p0,
-- 
2.43.0


From 618d523887c0d54d131ca041ed5858d536beacf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:48 +0000
Subject: [PATCH 69/96] fix: ConvexHull2 closes the polygon with the first
 point

---
 include/delfem2/geo_convhull2.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/delfem2/geo_convhull2.h b/include/delfem2/geo_convhull2.h
index 51b8ba7..252b7cb 100644
--- a/include/delfem2/geo_convhull2.h
+++ b/include/delfem2/geo_convhull2.h
@@ -20,7 +20,7 @@ namespace delfem2 {
 
 /**
  * This function return the array of indices of the input 2D points on the convex hull
- * in the counterclockwise orientation.
+ * in the counterclockwise orientation. The first index comes again at the end.
  * @tparam VEC CVec2X or Eigen::Vector2x
  * @param point_idxs
  * @param points
@@ -43,10 +43,7 @@ void ConvexHull2(
     return points[a][0] == points[b][0] && points[a][1] == points[b][1];
   }), sorted.end());
   point_idxs.clear();
-  if (sorted.size() < 3) {
-    point_idxs = sorted;
-    return;
-  }
+  if (sorted.empty()) { return; }
   const auto append = [&point_idxs, &points](unsigned int p3_idx, std::size_t num_keep) {
     while (point_idxs.size() > num_keep) {
       const VEC &p1 = points[point_idxs[point_idxs.size() - 2]];
@@ -65,7 +62,6 @@ void ConvexHull2(
   for (auto itr = std::next(sorted.rbegin()); itr != sorted.rend(); ++itr) { // left side downward
     append(*itr, num_right);
   }
-  point_idxs.pop_back(); // the first point comes again at the end
 }
 
 }
-- 
2.43.0


From 78231a897309a48b28583e42e3fdd2a774ee6561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:46 +0000
Subject: [PATCH 70/96] fix: Gjk failed to decide for origin on a line or plane
 of the simplex, touching and small shapes

---
 include/delfem2/geo_gjksat2.h |  72 ++++++++------
 include/delfem2/geo_gjksat3.h | 173 +++++++++++++++++++++-------------
 2 files changed, 146 insertions(+), 99 deletions(-)

diff --git a/include/delfem2/geo_gjksat2.h b/include/delfem2/geo_gjksat2.h
index 3d7c590..6af3957 100644
--- a/include/delfem2/geo_gjksat2.h
+++ b/include/delfem2/geo_gjksat2.h
@@ -6,7 +6,9 @@
 #define GJK2_GEO_GJK2_H_
 
 #include <vector>
+#include <cassert>
 #include <climits>
+#include <limits>
 #include <utility>  // for pair
 
 namespace delfem2 {
@@ -39,6 +41,7 @@ auto FindIntersectingSimplexForGjk2(
     const std::vector<VEC> &vtxsA,
     const std::vector<VEC> &vtxsB) -> std::vector<VEC> {
   assert(!vtxsA.empty() && !vtxsB.empty());
+  using SCALAR = typename VEC::Scalar;
 
   // compute support on Minkowski difference
   auto support = [&vtxsA, &vtxsB](const VEC &dir) -> VEC {
@@ -46,43 +49,50 @@ auto FindIntersectingSimplexForGjk2(
     return FindFurthest(vtxsA, dir) - FindFurthest(vtxsB, ndir);
   };
 
-  // add first and second points of simplex
-  std::vector<VEC> simplex;
+  // threshold relative to the magnitude of the vectors
+  const SCALAR eps = 10 * std::numeric_limits<SCALAR>::epsilon();
+  // the first point of simplex. It needs to be on the boundary of Minkowski difference
   VEC init_dir = vtxsB[0] - vtxsA[0];
-  simplex.push_back(support(init_dir));
-  VEC O = VEC{0, 0};
-  VEC d = O - simplex[0];
-
-  VEC AB, AC, AO, ABperp, ACperp; // all temporary variables
-  while (true) {
-    VEC P = support(d);
-    if (P.dot(d) < 0) {
-      return std::vector<VEC>();
-    } else {
-      simplex.push_back(P);
-    }
-
-    if (simplex.size() == 2) { // line case
-      AB = simplex[0] - simplex[1];
-      AO = O - simplex[1];
-      d = AO - AB.dot(AO) / AB.squaredNorm() * AB; // ABperp
-    } else if (simplex.size() == 3) { // triangle case
-      AB = simplex[1] - simplex[2];
-      AC = simplex[0] - simplex[2];
-      AO = O - simplex[2];
-      ABperp = -(AC - AB.dot(AC) / AB.squaredNorm() * AB);
-      ACperp = -(AB - AC.dot(AB) / AC.squaredNorm() * AC);
-      if (ABperp.dot(AO) > 0) {
-        simplex.erase(simplex.begin()); // remove C
-        d = ABperp;
-      } else if (ACperp.dot(AO) > 0) {
+  if (init_dir.squaredNorm() == 0) { init_dir = VEC{1, 0}; }
+  std::vector<VEC> simplex = {support(init_dir)};
+  for (unsigned int itr = 0; itr < 1000; ++itr) {
+    if (simplex.size() == 3) { // triangle case. The last point is the newest
+      const VEC A = simplex[0], B = simplex[1], C = simplex[2];
+      VEC BCperp{C[1] - B[1], B[0] - C[0]};
+      if (BCperp.dot(A - B) > 0) { BCperp = -BCperp; } // looking outside
+      VEC CAperp{A[1] - C[1], C[0] - A[0]};
+      if (CAperp.dot(B - C) > 0) { CAperp = -CAperp; } // looking outside
+      if (BCperp.dot(B) < 0) {
+        simplex.erase(simplex.begin()); // remove A
+      } else if (CAperp.dot(C) < 0) {
         simplex.erase(simplex.begin() + 1); // remove B
-        d = ACperp;
-      } else {
+      } else { // the triangle contains Origin
         return simplex;
       }
     }
+    VEC d; // search direction
+    if (simplex.size() == 2) { // line case
+      const VEC A = simplex[0], B = simplex[1];
+      if (A.dot(B - A) > 0) { // Origin is beyond A
+        simplex.pop_back();
+      } else if (B.dot(A - B) > 0) { // Origin is beyond B
+        simplex.erase(simplex.begin());
+      } else { // perpendicular to AB, toward Origin
+        d = VEC{A[1] - B[1], B[0] - A[0]};
+        if (d.dot(A) > 0) { d = -d; }
+      }
+    }
+    if (simplex.size() == 1) { // point case
+      d = -simplex[0];
+      if (d.squaredNorm() == 0) { d = VEC{1, 0}; }
+    }
+    const VEC P = support(d);
+    if (P.dot(d) <= eps * P.norm() * d.norm()) { // Minkowski difference does not contain Origin
+      return {};
+    }
+    simplex.push_back(P);
   }
+  return {};
 }
 
 /**
diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index 1574edd..cf891ea 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -1,6 +1,7 @@
 #ifndef GJK3_GEO_GJK3_H_
 #define GJK3_GEO_GJK3_H_
 
+#include <algorithm>
 #include <cassert>
 #include <vector>
 #include <limits>
@@ -26,6 +27,74 @@ VEC FindFurthest(const std::vector<VEC>& poly, const VEC& dir)
 	return ret;
 }
 
+/**
+ * Remove the points of the simplex that are not necessary to express its nearest point to the origin
+ * @tparam VEC
+ * @param[in,out] simplex one to four points. Four points are left if the tetrahedron contains the origin
+ * @param[in] tol the origin closer than this to a line or a plane is on it
+ * @return the nearest point
+ */
+template <typename VEC, typename SCALAR = typename VEC::Scalar>
+VEC ReduceSimplexNearestOrigin3(std::vector<VEC>& simplex, SCALAR tol)
+{
+	if (simplex.size() == 1)
+		return simplex[0];
+
+	if (simplex.size() == 2) {
+		const VEC A = simplex[0], B = simplex[1], AB = B - A;
+		if (A.dot(AB) > tol * AB.norm()) { // Origin is beyond A
+			simplex = { A };
+			return A;
+		}
+		if (B.dot(AB) < -tol * AB.norm()) { // Origin is beyond B
+			simplex = { B };
+			return B;
+		}
+		return A - (A.dot(AB) / AB.squaredNorm()) * AB;
+	}
+
+	// the nearest point is on one of the faces that look the origin
+	std::vector<VEC> simplex_near;
+	VEC near;
+	auto add = [&simplex_near, &near, tol](std::vector<VEC> face) {
+		const VEC p = ReduceSimplexNearestOrigin3(face, tol);
+		if (!simplex_near.empty() && near.squaredNorm() <= p.squaredNorm())
+			return;
+		simplex_near = face;
+		near	     = p;
+	};
+
+	if (simplex.size() == 3) {
+		const VEC A = simplex[0], B = simplex[1], C = simplex[2];
+		const VEC n = (B - A).cross(C - A);
+		auto is_outside = [&n, tol](const VEC& P, const VEC& Q) -> bool {
+			const VEC m = (Q - P).cross(n); // looking outside
+			return m.dot(P) < -tol * m.norm();
+		};
+		if (is_outside(A, B))
+			add({ A, B });
+		if (is_outside(B, C))
+			add({ B, C });
+		if (is_outside(C, A))
+			add({ C, A });
+		if (simplex_near.empty())
+			return (A.dot(n) / n.squaredNorm()) * n;
+	} else {
+		for (unsigned int i = 0; i < 4; ++i) {
+			const VEC A = simplex[i], B = simplex[(i + 1) % 4], C = simplex[(i + 2) % 4], D = simplex[(i + 3) % 4];
+			const VEC n = (B - A).cross(C - A);
+			const SCALAR h = (n.dot(D - A) > 0) ? n.dot(A) : -n.dot(A);
+			const bool is_outside = h > tol * n.norm();
+			if (is_outside)
+				add({ A, B, C });
+		}
+		if (simplex_near.empty())
+			return VEC { 0, 0, 0 };
+	}
+	simplex = simplex_near;
+	return near;
+}
+
 /**
  * The functions returns the tetrahedra(tetrahedron) simplex that GJK finds if there is intersection
  * @tparam VEC
@@ -36,6 +105,7 @@ template <typename VEC>
 auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::vector<VEC>& vtxsB) -> std::vector<VEC>
 {
 	assert(!vtxsA.empty() && !vtxsB.empty());
+	using SCALAR = typename VEC::Scalar;
 
 	// compute support on Minkowski difference
 	auto support = [&vtxsA, &vtxsB](const VEC& dir) -> VEC {
@@ -43,79 +113,46 @@ auto FindIntersectingSimplexForGjk3(const std::vector<VEC>& vtxsA, const std::ve
 		return FindFurthest(vtxsA, dir) - FindFurthest(vtxsB, ndir);
 	};
 
-	std::vector<VEC> simplex;
-
-	{ // add first point of simplex
-		VEC init_dir = vtxsB[0] - vtxsA[0];
-		simplex.push_back(support(init_dir));
+	// rounding error of the Minkowski difference
+	SCALAR tol = 0;
+	for (const auto& vtxs : { &vtxsA, &vtxsB }) {
+		for (const VEC& v : *vtxs)
+			tol = std::max(tol, v.norm());
 	}
-
-	const VEC O = VEC { 0.0, 0.0, 0.0 };
-	VEC d	    = O - simplex[0];
-
-	{ // add second point
-		VEC P = support(d);
-		simplex.push_back(P);
-	}
-
-	{ // add thierd point
-		VEC AB = simplex[0] - simplex[1];
-		VEC AO = O - simplex[1];
-		d      = AO - AB.dot(AO) / AB.squaredNorm() * AB; // ABperp
-		VEC P  = support(d);
-		simplex.push_back(P);
-	}
-
-	{ //set direction as the triangle normal (looking Origin)
-		VEC AB = simplex[0] - simplex[1];
-		VEC AC = simplex[0] - simplex[2];
-		d      = AB.cross(AC);
-		if ((O - simplex[0]).dot(d) < 0.0)
-			d = -d;
-	}
-
-	VEC AB, AC, AD, AO, ABCperp, ACDperp, ADBperp; // all temporary variables
-	while (true) {
-		VEC P = support(d);
-		if (P.dot(d) < 0) { // Minkowski difference does not contain Origin
-			return std::vector<VEC>();
-		} else {
-			simplex.push_back(P);
+	tol *= 10 * std::numeric_limits<SCALAR>::epsilon();
+	// the first point of simplex. It needs to be on the boundary of Minkowski difference
+	VEC init_dir = vtxsB[0] - vtxsA[0];
+	if (init_dir.squaredNorm() == 0)
+		init_dir = VEC { 1, 0, 0 };
+	std::vector<VEC> simplex = { support(init_dir) };
+	for (unsigned int itr = 0; itr < 1000; ++itr) {
+		VEC d = -ReduceSimplexNearestOrigin3(simplex, tol); // search direction
+		if (simplex.size() == 4) { // the tetrahedron contains Origin
+			return simplex;
 		}
-
-		AB = simplex[2] - simplex[3];
-		AC = simplex[1] - simplex[3];
-		AD = simplex[0] - simplex[3];
-		AO = O - simplex[3];
-
-		if (std::abs(AB.dot(AC.cross(AD))) < 0.000001) {
-			return std::vector<VEC>();
+		const bool is_on_simplex = d.norm() <= tol;
+		if (simplex.size() == 3) {
+			const VEC n = (simplex[1] - simplex[0]).cross(simplex[2] - simplex[0]);
+			d	    = (n.dot(simplex[0]) > 0) ? -n : n;
+		} else if (is_on_simplex && simplex.size() == 2) { // any direction perpendicular to the line
+			const VEC AB = simplex[1] - simplex[0];
+			const SCALAR x = std::abs(AB[0]), y = std::abs(AB[1]), z = std::abs(AB[2]);
+			if (x <= y && x <= z)
+				d = VEC { 0, AB[2], -AB[1] };
+			else if (y <= z)
+				d = VEC { -AB[2], 0, AB[0] };
+			else
+				d = VEC { AB[1], -AB[0], 0 };
+		} else if (is_on_simplex && d.squaredNorm() == 0) {
+			d = VEC { 1, 0, 0 };
 		}
-
-		// compute normal of each faces (looking outside of the tetrahedron)
-		ABCperp = AB.cross(AC);
-		if (ABCperp.dot(AD) > 0.0)
-			ABCperp = -ABCperp;
-		ACDperp = AC.cross(AD);
-		if (ACDperp.dot(AB) > 0.0)
-			ACDperp = -ACDperp;
-		ADBperp = AD.cross(AB);
-		if (ADBperp.dot(AC) > 0.0)
-			ADBperp = -ADBperp;
-
-		if (ABCperp.dot(AO) > 0) {
-			simplex.erase(simplex.begin()); // remove D
-			d = ABCperp;
-		} else if (ACDperp.dot(AO) > 0) {
-			simplex.erase(simplex.begin() + 2); // remove B
-			d = ACDperp;
-		} else if (ADBperp.dot(AO) > 0) {
-			simplex.erase(simplex.begin() + 1); // remove C
-			d = ADBperp;
-		} else { // the tetrahedron contains Origin
-			return simplex;
+		const VEC P = support(d);
+		if (P.dot(d) <= tol * d.norm()) { // Minkowski difference does not contain Origin
+			return {};
 		}
+		simplex.push_back(P);
 	}
+	return {};
 }
 
 /**
-- 
2.43.0


From 0667bdbfb257cc895a6a7bbc87e476633fd6bda1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 71/96] fix: IsIntersect_Points3_Points3_Sat skipped three of
 the nine pairs of edges

---
 include/delfem2/geo_gjksat3.h | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/include/delfem2/geo_gjksat3.h b/include/delfem2/geo_gjksat3.h
index cf891ea..4048a79 100644
--- a/include/delfem2/geo_gjksat3.h
+++ b/include/delfem2/geo_gjksat3.h
@@ -444,18 +444,9 @@ bool IsIntersect_Points3_Points3_Sat(
 			edgeA[1] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 0]];
 			edgeA[2] = vtxsA[faceA[3 * fiA + 2]] - vtxsA[faceA[3 * fiA + 1]];
 
-			for (unsigned int i = 0; i < 6; i++) {
-
-				constexpr unsigned int FaceToEdge[12] = {
-					0, 0,
-					0, 1,
-					0, 2,
-					1, 1,
-					1, 2,
-					2, 2
-				};
-
-				const VEC normal = (edgeB[FaceToEdge[2 * i + 1]]).cross(edgeA[FaceToEdge[2 * i + 0]]);
+			for (unsigned int i = 0; i < 9; i++) {
+
+				const VEC normal = edgeB[i / 3].cross(edgeA[i % 3]);
 
 				const auto rangeA = Range_ProjectionPointsOnAxis(vtxsA, normal);
 				const auto rangeB = Range_ProjectionPointsOnAxis(vtxsB, normal);
-- 
2.43.0


From 816a06af36ef431091600c7c6c61eeca5095d601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 72/96] fix: IsIntersect_Points2_Points2_Sat had no axis to
 separate points and collinear sets

---
 include/delfem2/geo_gjksat2.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/delfem2/geo_gjksat2.h b/include/delfem2/geo_gjksat2.h
index 6af3957..4d735df 100644
--- a/include/delfem2/geo_gjksat2.h
+++ b/include/delfem2/geo_gjksat2.h
@@ -213,6 +213,16 @@ template<typename VEC>
 bool IsIntersect_Points2_Points2_Sat(
     const std::vector<VEC> &vtxsA,
     const std::vector<VEC> &vtxsB) {
+  // for points and lines: directions from A to B
+  for (unsigned int iA = 0; iA < vtxsA.size(); ++iA) {
+    for (unsigned int iB = 0; iB < vtxsB.size(); ++iB) {
+      const VEC a = vtxsB[iB] - vtxsA[iA];
+      const auto rangeA = Range_ProjectionPointsOnAxis(vtxsA, a);
+      const auto rangeB = Range_ProjectionPointsOnAxis(vtxsB, a);
+      if (rangeA.second < rangeB.first) { return false; } // not intersect
+      if (rangeB.second < rangeA.first) { return false; } // not intersect
+    }
+  }
   for (unsigned int iB = 0; iB < vtxsB.size(); ++iB) {
     for (unsigned int jB = iB + 1; jB < vtxsB.size(); ++jB) {
       VEC a = vtxsB[iB] - vtxsB[jB];
-- 
2.43.0


From 192e25d4d42e3ffdca8f103484cc31b79deffcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 73/96] fix: IsIntersect_AABB2_Edge2 missed edges touching the
 box, depending on the order of the end points

---
 include/delfem2/geo_edge.cpp | 35 +++++++----------------------------
 1 file changed, 7 insertions(+), 28 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 5a902f9..e4e50cb 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -238,34 +238,13 @@ bool delfem2::IsIntersect_AABB2_Edge2(
   const VEC direction = p1 - p0;
   const VEC normal = {direction[1], -direction[0]};
 
-  bool positive = false, negative = false;
-  if (normal.dot(pmin - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
-
-  if (normal.dot(pmax - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
-
-  if (normal.dot(VEC(pmin[0], pmax[1]) - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
-
-  if (normal.dot(VEC(pmax[0], pmin[1]) - p0) > 0) {
-    positive = true;
-  } else {
-    negative = true;
-  }
-
-  if (positive && negative) { return true; }
-
-  return false;
+  const SCALAR v0 = normal.dot(pmin - p0);
+  const SCALAR v1 = normal.dot(pmax - p0);
+  const SCALAR v2 = normal.dot(VEC(pmin[0], pmax[1]) - p0);
+  const SCALAR v3 = normal.dot(VEC(pmax[0], pmin[1]) - p0);
+  if (v0 > 0 && v1 > 0 && v2 > 0 && v3 > 0) { return false; }
+  if (v0 < 0 && v1 < 0 && v2 < 0 && v3 < 0) { return false; }
+  return true;
 }
 #ifdef DFM2_STATIC_LIBRARY
 template bool delfem2::IsIntersect_AABB2_Edge2(
-- 
2.43.0


From db0d5803fe72ffa8650fda557f923498ac58d5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 74/96] fix: CBoundingBox2::IsIntersectSphere took the disk for
 a square

---
 include/delfem2/srch_bv2_aabb.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/srch_bv2_aabb.h b/include/delfem2/srch_bv2_aabb.h
index c791573..b1e8000 100644
--- a/include/delfem2/srch_bv2_aabb.h
+++ b/include/delfem2/srch_bv2_aabb.h
@@ -45,9 +45,9 @@ public:
   [[nodiscard]] bool IsIntersectSphere(const CVec2<double>& vec, const double radius ) const
   {
     if( !isActive() ) return false;
-    if( vec.p[0] < x_min-radius || vec.p[0] > x_max+radius ||
-       vec.p[1] < y_min-radius || vec.p[1] > y_max+radius ) return false;
-    return true;
+    const double dx = (vec.p[0] < x_min) ? x_min-vec.p[0] : ( (vec.p[0] > x_max) ? vec.p[0]-x_max : 0.0 );
+    const double dy = (vec.p[1] < y_min) ? y_min-vec.p[1] : ( (vec.p[1] > y_max) ? vec.p[1]-y_max : 0.0 );
+    return dx*dx + dy*dy <= radius*radius;
   }
   [[nodiscard]] bool IsIntersect(const CBoundingBox2& bb_j, double clearance) const
   {
-- 
2.43.0


From 7eac76ec05668b400c0c6f3ecb1973e82e62b44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:23 +0000
Subject: [PATCH 75/96] fix: CBoundingBox2::IsIntersect said yes for inactive
 boxes

---
 include/delfem2/srch_bv2_aabb.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/srch_bv2_aabb.h b/include/delfem2/srch_bv2_aabb.h
index b1e8000..e65bb0e 100644
--- a/include/delfem2/srch_bv2_aabb.h
+++ b/include/delfem2/srch_bv2_aabb.h
@@ -51,6 +51,7 @@ public:
   }
   [[nodiscard]] bool IsIntersect(const CBoundingBox2& bb_j, double clearance) const
   {
+    if( !isActive() || !bb_j.isActive() ) return false;
     if( bb_j.x_min > x_max+clearance || bb_j.x_max < x_min-clearance ) return false;
     if( bb_j.y_min > y_max+clearance || bb_j.y_max < y_min-clearance ) return false;
     return true;
-- 
2.43.0


From c1627b25691331036d3d8ed8ce2e58756abf45f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 76/96] fix: Distance_Edge2_Edge2 called a function that does
 not exist

---
 include/delfem2/geo_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index e4e50cb..17f4381 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -184,7 +184,7 @@ double delfem2::Distance_Edge2_Edge2(
   const CVec2<T> &po_e0,
   const CVec2<T> &po_s1,
   const CVec2<T> &po_e1) {
-  if (IsCross_LineSeg_LineSeg(po_s0, po_e0, po_s1, po_e1)) return -1;
+  if (IsIntersect_Edge2_Edge2(po_s0, po_e0, po_s1, po_e1)) return -1;
   const double ds1 = Distance_Edge_Point(po_s0, po_s1, po_e1);
   const double de1 = Distance_Edge_Point(po_e0, po_s1, po_e1);
   const double ds0 = Distance_Edge_Point(po_s1, po_s0, po_e0);
-- 
2.43.0


From b24b9cef81f722d7bcb9bb4b40b57259ed2f4bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:39 +0000
Subject: [PATCH 77/96] fix: CBV3_Sphere::IsIntersectRay stopped with an
 absolute tolerance for large coordinates

---
 include/delfem2/srch_bv3_sphere.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/delfem2/srch_bv3_sphere.h b/include/delfem2/srch_bv3_sphere.h
index 3014e78..8148d65 100755
--- a/include/delfem2/srch_bv3_sphere.h
+++ b/include/delfem2/srch_bv3_sphere.h
@@ -74,7 +74,9 @@ public:
     const REAL py = src[1] + ratio*dir[1];
     const REAL pz = src[2] + ratio*dir[2];
     const REAL L = sqrt((px-c[0])*(px-c[0]) + (py-c[1])*(py-c[1]) + (pz-c[2])*(pz-c[2]));
-    assert( fabs(dir[0]*(px-c[0]) + dir[1]*(py-c[1]) + dir[2]*(pz-c[2])) < 1.0e-4 );
+    assert( fabs(dir[0]*(px-c[0]) + dir[1]*(py-c[1]) + dir[2]*(pz-c[2])) <=
+        1.0e-4 * (fabs(dir[0])+fabs(dir[1])+fabs(dir[2])) *
+        (fabs(src[0])+fabs(src[1])+fabs(src[2])+fabs(c[0])+fabs(c[1])+fabs(c[2])) );
     if( L <= r ){ return true; }
     return false;
   }
@@ -88,7 +90,9 @@ public:
     const double py = src[1] + ratio*dir[1];
     const double pz = src[2] + ratio*dir[2];
     const double L = sqrt((px-c[0])*(px-c[0]) + (py-c[1])*(py-c[1]) + (pz-c[2])*(pz-c[2]));
-    assert( fabs(dir[0]*(px-c[0]) + dir[1]*(py-c[1]) + dir[2]*(pz-c[2])) < 1.0e-10 );
+    assert( fabs(dir[0]*(px-c[0]) + dir[1]*(py-c[1]) + dir[2]*(pz-c[2])) <=
+        1.0e-10 * (fabs(dir[0])+fabs(dir[1])+fabs(dir[2])) *
+        (fabs(src[0])+fabs(src[1])+fabs(src[2])+fabs(c[0])+fabs(c[1])+fabs(c[2])) );
     if( L <= r ){ return true; }
     return false;
   }
-- 
2.43.0


From 8ae2e675a151d9b52ffd19d0215f27eb17900d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 78/96] fix: Nearst_Origin3_Quad3 returned the origin instead
 of the point of the quad

---
 include/delfem2/geo_quad.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/geo_quad.cpp b/include/delfem2/geo_quad.cpp
index b2af965..2dc54af 100644
--- a/include/delfem2/geo_quad.cpp
+++ b/include/delfem2/geo_quad.cpp
@@ -64,6 +64,7 @@ DFM2_INLINE delfem2::CVec3<T> delfem2::Nearst_Origin3_Quad3(
       t0 += d0;
       t1 += d1;
     }
+    q = (1 - t0) * (1 - t1) * q0 + t0 * (1 - t1) * q1 + t0 * t1 * q2 + (1 - t0) * t1 * q3;
     double tol = 1.0e-4;
     if (t0 > -tol && t0 < 1.0 + tol && t1 > -tol && t1 < 1.0 + tol) {
       double d0 = q.norm();
-- 
2.43.0


From a2840270c822d1f6f0bd0eff4d4799cfb987a56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 79/96] fix: Distance_Edge3_Edge3 left the shorter of two
 parallel edges

---
 include/delfem2/geo_edge.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 17f4381..071e9b5 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -370,11 +370,10 @@ double delfem2::Distance_Edge3_Edge3(
     double p_max = (lp0 > lp1) ? lp0 : lp1;
     double q_min = (lq0 < lq1) ? lq0 : lq1;
     double q_max = (lq0 > lq1) ? lq0 : lq1;
-    double lm;
-    if (p_max < q_min) { lm = (p_max + q_min) * 0.5; }
-    else if (q_max < p_min) { lm = (q_max + p_min) * 0.5; }
-    else if (p_max < q_max) { lm = (p_max + q_min) * 0.5; }
-    else { lm = (q_max + p_min) * 0.5; }
+    // the middle of the overlap, or of the gap when the edges do not overlap
+    const double l_min = (p_min > q_min) ? p_min : q_min;
+    const double l_max = (p_max < q_max) ? p_max : q_max;
+    const double lm = (l_min + l_max) * 0.5;
     ratio_p = (lm - lp0) / (lp1 - lp0);
     ratio_q = (lm - lq0) / (lq1 - lq0);
     return dist;
-- 
2.43.0


From a6e3eb00b9d7e61a1ea7ffde4009aa545cf1d0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 80/96] fix: ProjectPointOnTriangle did not compile in some
 include orders and gave NaN at the first corner

---
 include/delfem2/geo_tri.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 6e2b2c5..3295cba 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -301,11 +301,9 @@ delfem2::CVec3<T> delfem2::ProjectPointOnTriangle(
     const CVec3<T> &tri_p1,
     const CVec3<T> &tri_p2,
     const CVec3<T> &tri_p3) {
-  CVec3<T> normal = Cross(tri_p2 - tri_p1, tri_p3 - tri_p1);
-  double cosAlpha = Dot(p0 - tri_p1, normal) / (Length(p0 - tri_p1) * Length(normal));
-  double lenP0ProjectedP0 = Length(tri_p1 - p0) * cosAlpha;
-  CVec3<T> p0ProjectedP0 = -1 * lenP0ProjectedP0 * normal / Length(normal);
-  return p0 + p0ProjectedP0;
+  const CVec3<T> normal = (tri_p2 - tri_p1).cross(tri_p3 - tri_p1);
+  const T ratio = (p0 - tri_p1).dot(normal) / normal.squaredNorm();
+  return p0 - ratio * normal;
 }
 
 // ----------------------
-- 
2.43.0


From 37fb677b32271c6c7741d058637373e7bb52072e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 81/96] fix: Nearest_Polyline gave NaN on a polyline with a
 repeated point

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index ab854f9..bd0d886 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -185,7 +185,7 @@ template<typename VEC>
     const VEC &sc = polyline[ip] - scr;
     const SCALAR a = es.squaredNorm();
     const SCALAR b = es.dot(sc);
-    const SCALAR ratio = std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1));
+    const SCALAR ratio = (a > 0) ? std::clamp(-b / a, static_cast<SCALAR>(0), static_cast<SCALAR>(1)) : static_cast<SCALAR>(0);
     VEC p = (1 - ratio) * polyline[ip] + ratio * polyline[ip + 1];
     SCALAR dist = (p - scr).norm();
     if (dist_min < 0 || dist < dist_min) {
-- 
2.43.0


From 5e215a70581dc680233b18ddc47ebf6fd2957332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 82/96] fix: Tangent_Polyline read past the last edge at the
 end of the polyline

---
 include/delfem2/geo_polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index bd0d886..2523b03 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -155,7 +155,7 @@ VEC Tangent_Polyline(
   assert(np>=2);
   if (np < 2) { return VEC(0, 0); }
   if (param <= 0) { return polyline[1] - polyline[0]; }
-  if (param >= static_cast<SCALAR>(np)) {
+  if (param >= static_cast<SCALAR>(np - 1)) {
     return polyline[np - 1] - polyline[np - 2];
   }
   const unsigned int ie = int(param);
-- 
2.43.0


From 075c67945b2947382b49026d6a1fddbf39069b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:07 +0000
Subject: [PATCH 83/96] fix: FindNearestPointInPoints and
 ArcLengthPointInPolyline compared distances in single precision

---
 include/delfem2/geo_polyline.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geo_polyline.h b/include/delfem2/geo_polyline.h
index 2523b03..a8dc1a3 100644
--- a/include/delfem2/geo_polyline.h
+++ b/include/delfem2/geo_polyline.h
@@ -55,9 +55,10 @@ unsigned int FindNearestPointInPoints(
     const std::vector<VEC> &polyline,
     const VEC &scr) {
   unsigned int idx_point_min_dist = UINT_MAX;
-  float dist_min = -1;
+  using SCALAR = typename VEC::Scalar;
+  SCALAR dist_min = -1;
   for (unsigned int ip = 0; ip < polyline.size(); ++ip) {
-    auto dist = (scr - polyline[ip]).norm();
+    const SCALAR dist = (scr - polyline[ip]).norm();
     if (dist_min < 0 || dist < dist_min) {
       idx_point_min_dist = ip;
       dist_min = dist;
@@ -223,12 +224,12 @@ auto ArcLengthPointInPolyline(
     const VEC &scr) -> typename VEC::Scalar {
   using SCALAR = typename VEC::Scalar;
   if (polyline.size() < 2) { return 0; }
-  float dist_min = -1;
+  SCALAR dist_min = -1;
   VEC p_min;
   unsigned int ip_min = -1;
   for (unsigned int ip = 0; ip < polyline.size() - 1; ++ip) {
     VEC p_near = Nearest_Edge_Point(scr, polyline[ip], polyline[ip + 1]);
-    float dist = (p_near - scr).norm();
+    SCALAR dist = (p_near - scr).norm();
     if (dist_min < 0 || dist < dist_min) {
       dist_min = dist;
       p_min = p_near;
-- 
2.43.0


From e7121b9544fb37580677aad864d2ebd22a3e4668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 84/96] fix: Nearest_Edge3_Line3 took the integer absolute
 value of the determinant

---
 include/delfem2/geo_edge.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_edge.cpp b/include/delfem2/geo_edge.cpp
index 071e9b5..8d26468 100644
--- a/include/delfem2/geo_edge.cpp
+++ b/include/delfem2/geo_edge.cpp
@@ -307,7 +307,7 @@ void delfem2::Nearest_Edge3_Line3(
   Nearest_Line3_Line3(
     D0, Da0, Db0, Dta0, Dtb0,
     lineseg_start, lineseg_end - lineseg_start, line_origin, line_direction);
-  if (abs(D0) < 1.0e-10) { // pararell
+  if (std::fabs(D0) < 1.0e-10) { // pararell
     nearest_lineseg = (lineseg_start + lineseg_end) * static_cast<T>(0.5);
     nearest_line = ::delfem2::Nearest_Line3_Point3<VEC>(
       nearest_lineseg, line_origin, line_direction);
-- 
2.43.0


From 56108df058eb47934f4926ad451a5163c85544c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:37 +0000
Subject: [PATCH 85/96] fix: the solid angle of a large triangle was off by a
 full half turn

---
 include/delfem2/geo_tri.cpp | 3 +--
 include/delfem2/mshmisc.cpp | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/delfem2/geo_tri.cpp b/include/delfem2/geo_tri.cpp
index 3295cba..83cad8a 100644
--- a/include/delfem2/geo_tri.cpp
+++ b/include/delfem2/geo_tri.cpp
@@ -393,8 +393,7 @@ T delfem2::SolidAngleTri(
   const T l3 = v3.norm();
   const T den = (v1.cross(v2)).dot(v3);
   const T num = l1 * l2 * l3 + (v1.dot(v2)) * l3 + (v2.dot(v3)) * l1 + (v3.dot(v1)) * l2;
-  const T tho = den / num;
-  T v = std::atan(tho);
+  T v = std::atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
diff --git a/include/delfem2/mshmisc.cpp b/include/delfem2/mshmisc.cpp
index 100c30a..bab2282 100644
--- a/include/delfem2/mshmisc.cpp
+++ b/include/delfem2/mshmisc.cpp
@@ -517,8 +517,7 @@ DFM2_INLINE double delfem2::SolidAngleTri3D(
       + (mshmisc::Dot3(v1, v2)) * l3
       + (mshmisc::Dot3(v2, v3)) * l1
       + (mshmisc::Dot3(v3, v1)) * l2;
-  double tho = den / num;
-  double v = atan(tho);
+  double v = atan2(den, num);
   if (v < 0) { v += 2 * M_PI; }
   v *= 2;
   return v;
-- 
2.43.0


From d65ff781b0a5bcade01bb76600a4a127cfb0501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:31 +0000
Subject: [PATCH 86/96] fix: Nearest_Plane3_Point3 did not compile: vectors
 have no operator* product

---
 include/delfem2/geo_plane.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/geo_plane.cpp b/include/delfem2/geo_plane.cpp
index 94c9f78..eb34902 100644
--- a/include/delfem2/geo_plane.cpp
+++ b/include/delfem2/geo_plane.cpp
@@ -57,7 +57,7 @@ delfem2::CVec3<T> delfem2::Nearest_Plane3_Point3(
   const CVec3<T> &n) // normal
 {
   const CVec3<T> n0 = n.normalized();
-  return p + ((o - p) * n0) * n0;
+  return p + (o - p).dot(n0) * n0;
 }
 
 // -------------------------------------
-- 
2.43.0


From 93580f9535690f24cbf0cd8df11402738a298b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:58 +0000
Subject: [PATCH 87/96] fix: Nearest_Line3_Point3 with a parameter did not
 compile

---
 include/delfem2/geo_line.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/geo_line.cpp b/include/delfem2/geo_line.cpp
index efdef3b..785017f 100644
--- a/include/delfem2/geo_line.cpp
+++ b/include/delfem2/geo_line.cpp
@@ -168,13 +168,13 @@ delfem2::CVec3<T> delfem2::Nearest_Line3_Point3(
   const CVec3<T> &s, // source
   const CVec3<T> &d) // direction
 {
-  if (Dot(d, d) < 1.0e-20) {
+  if (d.dot(d) < 1.0e-20) {
     t = 0;
     return s;
   }
   const CVec3<T> ps = s - p;
-  double a = Dot(d, d);
-  double b = Dot(d, s - p);
+  double a = d.dot(d);
+  double b = d.dot(s - p);
   t = -b / a;
   return s + t * d;
 }
-- 
2.43.0


From 1ad33a7d10c890823e87db37df634d10f77f6227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 88/96] fix: IsContact_Orgin_AabbOfPoint* and AABB_* did not
 compile for CVec3 as documented

---
 include/delfem2/vec3.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/delfem2/vec3.h b/include/delfem2/vec3.h
index d8ee52e..6950a47 100644
--- a/include/delfem2/vec3.h
+++ b/include/delfem2/vec3.h
@@ -258,6 +258,7 @@ class CVec3 {
 
   using Scalar = T;
   using value_type = Scalar;
+  static constexpr int SizeAtCompileTime = 3;  // size of vector evaluated at compile time
   static constexpr T NEARLY_ZERO = static_cast<T>(1.e-16);
 
  public:
-- 
2.43.0


From f59fedc30abc849598debb1ff17267dd5a825467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 89/96] fix: TangentVector_Points3 multiplied the tangents by
 their length instead of normalizing them

---
 include/delfem2/msh_affine_transformation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_affine_transformation.cpp b/include/delfem2/msh_affine_transformation.cpp
index c2a8ec7..e13f195 100644
--- a/include/delfem2/msh_affine_transformation.cpp
+++ b/include/delfem2/msh_affine_transformation.cpp
@@ -372,7 +372,7 @@ void delfem2::TangentVector_Points3(
         o0[0] - on * n[0],
         o0[1] - on * n[1],
         o0[2] - on * n[2]};
-    const double leninv = points::Length3(o1);
+    const double leninv = 1 / points::Length3(o1);
     aOdir[ip * 3 + 0] = o1[0] * leninv;
     aOdir[ip * 3 + 1] = o1[1] * leninv;
     aOdir[ip * 3 + 2] = o1[2] * leninv;
-- 
2.43.0


From ad4404262c5467392f529cbd5606b0e0f8107e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 90/96] fix: GetCenterWidthGroup read the corners of the wrong
 elements for other than three corners

---
 include/delfem2/msh_boundingbox.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/msh_boundingbox.cpp b/include/delfem2/msh_boundingbox.cpp
index 5bf6096..8b51501 100644
--- a/include/delfem2/msh_boundingbox.cpp
+++ b/include/delfem2/msh_boundingbox.cpp
@@ -448,7 +448,7 @@ void delfem2::GetCenterWidthGroup(
   for (unsigned int ielem = 0; ielem < nelem; ielem++) {
     if (elm_groupidx[ielem] != igroup) { continue; }
     for (unsigned int inotri = 0; inotri < nnoel; inotri++) {
-      const unsigned int ip = elm_vtx[ielem * 3 + inotri];
+      const unsigned int ip = elm_vtx[ielem * nnoel + inotri];
       if (is_ini) {
         x_min = x_max = vtx_xyz[ip * 3 + 0];
         y_min = y_max = vtx_xyz[ip * 3 + 1];
-- 
2.43.0


From fb4d4d09e5601f79c5c3bb0b2a81acd8c59b632a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:20 +0000
Subject: [PATCH 91/96] fix: CG_Tri had an error of one millionth from a
 rounded third

---
 include/delfem2/msh_center_of_gravity.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/delfem2/msh_center_of_gravity.cpp b/include/delfem2/msh_center_of_gravity.cpp
index c1b40e5..2290786 100644
--- a/include/delfem2/msh_center_of_gravity.cpp
+++ b/include/delfem2/msh_center_of_gravity.cpp
@@ -427,9 +427,9 @@ void delfem2::CG_Tri(
   const double q2[3] = {aXYZ[i2 * 3 + 0], aXYZ[i2 * 3 + 1], aXYZ[i2 * 3 + 2]};
   const double q3[3] = {aXYZ[i3 * 3 + 0], aXYZ[i3 * 3 + 1], aXYZ[i3 * 3 + 2]};
 //  double a = TriArea3D(q1, q2, q3);
-  cgx = (q1[0] + q2[0] + q3[0]) * 0.333333;
-  cgy = (q1[1] + q2[1] + q3[1]) * 0.333333;
-  cgz = (q1[2] + q2[2] + q3[2]) * 0.333333;
+  cgx = (q1[0] + q2[0] + q3[0]) / 3.0;
+  cgy = (q1[1] + q2[1] + q3[1]) / 3.0;
+  cgz = (q1[2] + q2[2] + q3[2]) / 3.0;
 }
 
 // -------------------------------
-- 
2.43.0


From 3f9b3c1e7f7c4c2d54738828dbc1202e0f675247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:06 +0000
Subject: [PATCH 92/96] fix: Inverse_Mat4 lost all digits when a pivot was a
 rounding residue instead of zero

---
 include/delfem2/mat4.cpp | 42 ++--------------------------------------
 1 file changed, 2 insertions(+), 40 deletions(-)

diff --git a/include/delfem2/mat4.cpp b/include/delfem2/mat4.cpp
index 9b9feb2..32dac58 100644
--- a/include/delfem2/mat4.cpp
+++ b/include/delfem2/mat4.cpp
@@ -14,39 +14,6 @@
 
 namespace delfem2::mat4 {
 
-template<typename REAL>
-DFM2_INLINE void CalcInvMat(
-    REAL *a,
-    const unsigned int n,
-    int &info) {
-  REAL tmp1;
-
-  info = 0;
-  for (unsigned int i = 0; i < n; i++) {
-    if (fabs(a[i * n + i]) < 1.0e-30) {
-      info = 1;
-      return;
-    }
-    if (a[i * n + i] < 0.0) {
-      info--;
-    }
-    tmp1 = 1 / a[i * n + i];
-    a[i * n + i] = 1.0;
-    for (unsigned int k = 0; k < n; k++) {
-      a[i * n + k] *= tmp1;
-    }
-    for (unsigned int j = 0; j < n; j++) {
-      if (j != i) {
-        tmp1 = a[j * n + i];
-        a[j * n + i] = 0.0;
-        for (unsigned int k = 0; k < n; k++) {
-          a[j * n + k] -= tmp1 * a[i * n + k];
-        }
-      }
-    }
-  }
-}
-
 template<typename REAL>
 bool CalcInvMatPivot(REAL *a, unsigned int n, unsigned int *tmp) {
   unsigned int *row = tmp;
@@ -746,13 +713,8 @@ DFM2_INLINE void delfem2::Inverse_Mat4(
     REAL minv[16],
     const REAL m[16]) {
   for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-  int info;
-  mat4::CalcInvMat(minv, 4, info);
-  if (info != 0) {
-    for (int i = 0; i < 16; ++i) { minv[i] = m[i]; }
-    unsigned int tmp[4];
-    mat4::CalcInvMatPivot(minv, 4, tmp);
-  }
+  unsigned int tmp[4];
+  mat4::CalcInvMatPivot(minv, 4, tmp);
 }
 #ifdef DFM2_STATIC_LIBRARY
 template void delfem2::Inverse_Mat4(float minv[], const float m[]);
-- 
2.43.0


From 4c7ea50a1aeaeec7f55bb38a46f7464170d104ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:46 +0000
Subject: [PATCH 93/96] fix: Vec3_SpinVectorFromMat3 returned the y component
 as z

---
 include/delfem2/mat3_funcs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 73f9346..3b33d98 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -710,7 +710,7 @@ std::array<T, 3> delfem2::Vec3_SpinVectorFromMat3(
   return {
       (m[7] - m[5]) * half,
       (m[2] - m[6]) * half,
-      (m[2] - m[6]) * half};
+      (m[3] - m[1]) * half};
 }
 
 template<typename MAT, typename T>
-- 
2.43.0


From 4434c1c125d049d7b639f3bbc67009133e3cfc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:11 +0000
Subject: [PATCH 94/96] fix: the axis-angle vector of a matrix was undefined
 for half turns

---
 include/delfem2/mat3_funcs.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 3b33d98..96cf4c9 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -726,8 +726,13 @@ std::array<T, 3> delfem2::Vec3_AxisAngleVecFromMat3(
   double theta = std::acos(act);
   if (myIsNAN_Matrix3(theta)) { return a; }
   if (fabs(theta) < 1.0e-5) { return {a[0]/2, a[1]/2, a[2]/2}; }
-  T mag = 0.5 * theta / sin(theta);
-  return {a[0]*mag, a[1]*mag, a[2]*mag };
+  // by way of the quaternion, as sin(theta) vanishes for a half turn
+  const T p[9] = {m[0], m[1], m[2], m[3], m[4], m[5], m[6], m[7], m[8]};
+  T q[4];
+  Quat_Mat3(q, p);
+  const T s = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
+  const T mag = (q[3] < 0 ? -2 : 2) * std::atan2(s, std::fabs(q[3])) / s;
+  return {q[0]*mag, q[1]*mag, q[2]*mag };
 }
 
 // https://en.wikipedia.org/wiki/Axis%E2%80%93angle_representation
@@ -742,11 +747,14 @@ DFM2_INLINE void delfem2::AxisAngleVectorCartesian_Mat3(
     v[2] = (m[3 * 1 + 0] - m[3 * 0 + 1]) / 2;
     return;
   }
-  const T t0 = std::acos(cos_t0);
-  const T c0 = t0 / (2 * std::sin(t0));
-  v[0] = c0 * (m[3 * 2 + 1] - m[3 * 1 + 2]);
-  v[1] = c0 * (m[3 * 0 + 2] - m[3 * 2 + 0]);
-  v[2] = c0 * (m[3 * 1 + 0] - m[3 * 0 + 1]);
+  // by way of the quaternion, as the sine of the angle vanishes for a half turn
+  T q[4];
+  Quat_Mat3(q, m);
+  const T s = std::sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2]);
+  const T c0 = (q[3] < 0 ? -2 : 2) * std::atan2(s, std::fabs(q[3])) / s;
+  v[0] = c0 * q[0];
+  v[1] = c0 * q[1];
+  v[2] = c0 * q[2];
 }
 
 template<typename T>
-- 
2.43.0


From 95ec70397d1201d4f5658a01b18b98c145fa838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:45 +0000
Subject: [PATCH 95/96] fix: Mat3_MinimumRotation did not rotate a vector into
 the opposite one

---
 include/delfem2/mat3_funcs.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/delfem2/mat3_funcs.cpp b/include/delfem2/mat3_funcs.cpp
index 96cf4c9..b70890f 100644
--- a/include/delfem2/mat3_funcs.cpp
+++ b/include/delfem2/mat3_funcs.cpp
@@ -835,15 +835,17 @@ std::array<REAL, 9> delfem2::Mat3_MinimumRotation(
       FrameFromVectorZ(epx, epy, ep);
       const VEC eqx = epx - eq.dot(epx) * eq; // vector orthogonal to eq
       const VEC eqy = eq.cross(eqx);
+      // Rq * transpose(Rp), where the columns of Rp are epx, epy, ep and those of Rq are eqx, eqy, eq
       return {
-          eqx.dot(epx), eqy.dot(epx), eq.dot(epx),
-          eqx.dot(epy), eqy.dot(epy), eq.dot(epy),
-          eqx.dot(ep), eqy.dot(ep), eq.dot(ep)};
-      /*
-      const CMat3<REAL> Rp = Mat3_3Bases(epx, epy, ep);
-      const CMat3<REAL> Rq = Mat3_3Bases(eqx, eqy, eq);
-      return Rq * Rp.transpose();
-       */
+          eqx.x * epx.x + eqy.x * epy.x + eq.x * ep.x,
+          eqx.x * epx.y + eqy.x * epy.y + eq.x * ep.y,
+          eqx.x * epx.z + eqy.x * epy.z + eq.x * ep.z,
+          eqx.y * epx.x + eqy.y * epy.x + eq.y * ep.x,
+          eqx.y * epx.y + eqy.y * epy.y + eq.y * ep.y,
+          eqx.y * epx.z + eqy.y * epy.z + eq.y * ep.z,
+          eqx.z * epx.x + eqy.z * epy.x + eq.z * ep.x,
+          eqx.z * epx.y + eqy.z * epy.y + eq.z * ep.y,
+          eqx.z * epx.z + eqy.z * epy.z + eq.z * ep.z};
     }
   }
   const REAL st = std::sqrt(st2);
-- 
2.43.0


From a6057922b3a2297e44bf57baf7f277c1f4709398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:23 +0000
Subject: [PATCH 96/96] fix: SphericalLinearInterp gave NaN when the dot
 product rounds above one

---
 include/delfem2/quat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/delfem2/quat.cpp b/include/delfem2/quat.cpp
index 0534778..383ccd3 100644
--- a/include/delfem2/quat.cpp
+++ b/include/delfem2/quat.cpp
@@ -368,7 +368,7 @@ delfem2::CQuat<T> delfem2::SphericalLinearInterp(
   const T qr = Dot_Quat(q0.p, q1.p);
   const T ss = 1 - qr * qr;
 
-  if (ss == 0.0) { return q0; }
+  if (ss <= 0.0) { return q0; }
   const T sp = std::sqrt(ss);
   const T ph = std::acos(qr);
   const T pt = ph * t;
-- 
2.43.0

