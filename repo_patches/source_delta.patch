From e2c9b625f8aed354fb1d4b71e231cb892352b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 01/28] fix: flipHorz swapped each row with an end pointer one
 past the row

---
 include/richdem/common/Array2D.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index 46fd58e..a5a46c9 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -724,7 +724,7 @@ class Array2D {
   void flipHorz(){
     for(xy_t y=0;y<view_height;y++){
       T* start = &_data[xyToI(0,y)];
-      T* end   = &_data[xyToI(view_width,y)];
+      T* end   = &_data[xyToI(view_width-1,y)];
       while(start<end){
         std::swap(*start,*end);
         start++;
-- 
2.43.0


From 18e5aa67ba5bdaabfd4a16e9977ad3a451ae384f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:37 +0000
Subject: [PATCH 02/28] fix: transpose scrambled the data and left the
 neighbour shifts of the old width

---
 include/richdem/common/Array2D.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index a5a46c9..d4ef0f4 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -738,11 +738,14 @@ class Array2D {
   */
   void transpose(){
     RDLOG_WARN<<"transpose() is an experimental feature.";
-    std::vector<T> new_data(view_width*view_height);
+    std::vector<T> new_data(size());
     for(xy_t y=0;y<view_height;y++)
     for(xy_t x=0;x<view_width;x++)
-      std::swap(_data[(i_t)x*(i_t)view_height+(i_t)y], _data[xyToI(x,y)]);
+      new_data[(i_t)x*(i_t)view_height+(i_t)y] = _data[xyToI(x,y)];
+    for(i_t i=0;i<size();i++)
+      _data[i] = new_data[i];
     std::swap(view_width,view_height);
+    _nshift = {{0,-1,-view_width-1,-view_width,-view_width+1,1,view_width+1,view_width,view_width-1}};
     //TODO: Offsets?
   }
 
-- 
2.43.0


From 777220e8809b74f8c6239dc499a8668c26cc41fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:57 +0000
Subject: [PATCH 03/28] fix: DetermineWaterLevel was declared with a const
 parameter that its definition modifies

---
 include/richdem/depressions/fill_spill_merge.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/depressions/fill_spill_merge.hpp b/include/richdem/depressions/fill_spill_merge.hpp
index 1e33158..9ca3510 100644
--- a/include/richdem/depressions/fill_spill_merge.hpp
+++ b/include/richdem/depressions/fill_spill_merge.hpp
@@ -100,7 +100,7 @@ void BackfillDepression(
 template<class wtd_t>
 double DetermineWaterLevel(
   wtd_t &sill_wtd,
-  const double water_vol,
+  double water_vol,
   const double sill_elevation,
   const size_t cells_to_spread_across,
   const double total_elevation
-- 
2.43.0


From a16f2ba930554221b5f98b14c8782e3c4eaa2b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:56 +0000
Subject: [PATCH 04/28] fix: parallel dependency counts lost increments
 (d8_flow_accum, dinf_upslope_area)

---
 include/richdem/methods/d8_methods.hpp   | 1 +
 include/richdem/methods/dinf_methods.hpp | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/richdem/methods/d8_methods.hpp b/include/richdem/methods/d8_methods.hpp
index f2010c6..5925b0e 100644
--- a/include/richdem/methods/d8_methods.hpp
+++ b/include/richdem/methods/d8_methods.hpp
@@ -87,6 +87,7 @@ void d8_flow_accum(const Array2D<T> &flowdirs, Array2D<U> &area){
 
       //Neighbour is valid and is part of the grid. The neighbour depends on this
       //cell, so increment its dependency count.
+      #pragma omp atomic
       ++dependency(nx,ny);
     }
   }
diff --git a/include/richdem/methods/dinf_methods.hpp b/include/richdem/methods/dinf_methods.hpp
index 6535315..d68cc3e 100644
--- a/include/richdem/methods/dinf_methods.hpp
+++ b/include/richdem/methods/dinf_methods.hpp
@@ -149,6 +149,7 @@ void dinf_upslope_area(
       //If the flow direction of the cell is NoData, mark its area as NoData
       if(flowdirs.isNoData(x,y)){
         area(x,y)       = area.noData();
+        #pragma omp atomic write
         dependency(x,y) = 9;  //TODO: This is an unnecessary safety precaution. This prevents the cell from ever being enqueued (an unnecessary safe guard? TODO)
         continue;             //Only necessary if there are bugs below (TODO)
       }
@@ -169,10 +170,14 @@ void dinf_upslope_area(
         nlx = x+dinf_dx[n_low];
         nly = y+dinf_dy[n_low];
       }
-      if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() )
+      if( n_low!=-1 && flowdirs.inGrid(nlx,nly) && flowdirs(nlx,nly)!=flowdirs.noData() ){
+        #pragma omp atomic
         dependency(nlx,nly)++;
-      if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() )
+      }
+      if( flowdirs.inGrid(nhx,nhy) && flowdirs(nhx,nhy)!=flowdirs.noData() ){
+        #pragma omp atomic
         dependency(nhx,nhy)++;
+      }
     }
   }
   RDLOG_TIME_USE<<"Succeeded in = "<<progress.stop()<<" s";
-- 
2.43.0


From 1a3544a2255481a7860802cc76a0e3be54f96888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 05/28] fix: FindFlatEdges counted cells without flow in a data
 race

---
 include/richdem/flats/Barnes2014.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 78ffb73..5aa4ee9 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -319,7 +319,7 @@ static void FindFlatEdges(
 
   progress.start( flats.size() );
 
-  #pragma omp parallel for collapse(2)
+  #pragma omp parallel for collapse(2) reduction(+:cells_without_flow)
   for(int y=0;y<flats.height();y++)
   for(int x=0;x<flats.width();x++){
     ++progress;
-- 
2.43.0


From 58882de7acf44e9bac64ea2e71c51d32067360a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:57 +0000
Subject: [PATCH 06/28] fix: raising flats read neighbouring elevations while
 other threads changed them

---
 include/richdem/flats/Barnes2014.hpp      | 2 +-
 include/richdem/flats/flat_resolution.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/flats/Barnes2014.hpp b/include/richdem/flats/Barnes2014.hpp
index 5aa4ee9..fde3a0e 100644
--- a/include/richdem/flats/Barnes2014.hpp
+++ b/include/richdem/flats/Barnes2014.hpp
@@ -507,7 +507,7 @@ void ResolveFlatsEpsilon_Barnes2014(
 
   int raise_warn = 0;
 
-  #pragma omp parallel for collapse(2)
+  //Not parallel: each cell is compared with neighbours this loop also raises
   for(int y=1;y<flat_mask.height()-1;y++)
   for(int x=1;x<flat_mask.width()-1;x++){
     ++progress;
diff --git a/include/richdem/flats/flat_resolution.hpp b/include/richdem/flats/flat_resolution.hpp
index 6edc9c4..cded77e 100644
--- a/include/richdem/flats/flat_resolution.hpp
+++ b/include/richdem/flats/flat_resolution.hpp
@@ -552,7 +552,7 @@ void d8_flats_alter_dem(
 
   RDLOG_ALG_NAME<<"Calculating D8 flow directions using flat mask...";
   progress.start( flat_mask.width()*flat_mask.height() );
-  #pragma omp parallel for
+  //Not parallel: each cell is compared with neighbours this loop also raises
   for(int x=1;x<flat_mask.width()-1;x++){
     progress.update( x*flat_mask.height() );
     for(int y=1;y<flat_mask.height()-1;y++){
-- 
2.43.0


From 7cbd69a640196c83fc4c406d31bf885adb934a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:09 +0000
Subject: [PATCH 07/28] fix: exceptions were thrown out of parallel regions,
 ending the process

---
 .../richdem/depressions/depression_hierarchy.hpp  | 13 ++++++++++---
 include/richdem/misc/misc_methods.hpp             | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/richdem/depressions/depression_hierarchy.hpp b/include/richdem/depressions/depression_hierarchy.hpp
index 101fc9d..13a2c37 100644
--- a/include/richdem/depressions/depression_hierarchy.hpp
+++ b/include/richdem/depressions/depression_hierarchy.hpp
@@ -283,14 +283,16 @@ GetDepressionHierarchy(const Array2D<elev_t>& dem, Array2D<dh_label_t>& label, A
   // begin looking for depressions. We add all of these ocean cells to the
   // priority queue now.
   uint64_t ocean_cells = 0;
-#pragma omp parallel for collapse(2) reduction(+ : ocean_cells) reduction(merge : ocean_seeds)
+  // An exception must not leave a parallel region, so bad labels are noted here
+  // and reported after the loop.
+  bool bad_labels = false;
+#pragma omp parallel for collapse(2) reduction(+ : ocean_cells) reduction(merge : ocean_seeds) reduction(|| : bad_labels)
   for (int y = 0; y < dem.height(); y++)
     for (int x = 0; x < dem.width(); x++) {
       // Ensure the input only has OCEAN and NO_DEP labels.
       if (label(x, y) != OCEAN) {
         if (label(x, y) != NO_DEP) {
-          throw std::runtime_error(
-              "Label array given to GetDepressionHierarchy must contain only NO_DEP and OCEAN labels!");
+          bad_labels = true;
         }
         continue;
       }
@@ -309,6 +311,11 @@ GetDepressionHierarchy(const Array2D<elev_t>& dem, Array2D<dh_label_t>& label, A
       }
     }
 
+  if (bad_labels) {
+    throw std::runtime_error(
+        "Label array given to GetDepressionHierarchy must contain only NO_DEP and OCEAN labels!");
+  }
+
   if (ocean_cells == 0) {
     throw std::runtime_error("No OCEAN cells found, could not make a DepressionHierarchy!");
   }
diff --git a/include/richdem/misc/misc_methods.hpp b/include/richdem/misc/misc_methods.hpp
index 445ba0c..732ade6 100644
--- a/include/richdem/misc/misc_methods.hpp
+++ b/include/richdem/misc/misc_methods.hpp
@@ -75,8 +75,12 @@ double dem_surface_area(
   const double planar_diag_dist = euc_dist(xdist,ydist);
 
   //TODO: This algorithm would benefit from GPU integration
+  //An exception must not leave a parallel region, so the problem is noted here
+  //and reported after the loop
+  bool below_planar = false;
+
   progress.start(elevations.size());
-  #pragma omp parallel for reduction(+:area)
+  #pragma omp parallel for reduction(+:area) reduction(||:below_planar)
   for(int y=0;y<elevations.height();y++){
     progress.update( y*elevations.width() );
     for(int x=0;x<elevations.width();x++){
@@ -151,7 +155,7 @@ double dem_surface_area(
         if(cell_area+fudge_factor>=elevations.getCellArea())
           cell_area = elevations.getCellArea();
         else
-          throw std::runtime_error("A cell had a topographic surface area less than its planar surface area!");
+          below_planar = true;
       }
 
       area += cell_area;
@@ -159,6 +163,9 @@ double dem_surface_area(
   }
   std::cerr<<"p Succeeded in = "<<progress.stop()<<" s"<<std::endl;
 
+  if(below_planar)
+    throw std::runtime_error("A cell had a topographic surface area less than its planar surface area!");
+
   const double dem_planar_area = elevations.numDataCells()*elevations.getCellArea();
   if(area<dem_planar_area){
     std::cerr<<"W Topographic surface area ("+std::to_string(area)+") < planar surface area ("+std::to_string(dem_planar_area) +")! Choosing planar area.";
@@ -224,9 +231,7 @@ double Perimeter(
               vertical_edges++;
           }
         }
-      } else {
-        throw std::runtime_error("Unrecognised PerimType!");
-      }
+      } //An unrecognised type is reported after the loop: exceptions must not leave a parallel region
     }
   }
   std::cerr<<"p Succeeded in = "<<progress.stop()<<" s"<<std::endl;
-- 
2.43.0


From 9892ab45ef0beab54e6c0d3e2f5094c8112b26c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:07 +0000
Subject: [PATCH 08/28] fix: the insertion number of stable priority queues was
 truncated to int

---
 include/richdem/common/grid_cell.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/richdem/common/grid_cell.hpp b/include/richdem/common/grid_cell.hpp
index 6a8dfaf..07b8052 100644
--- a/include/richdem/common/grid_cell.hpp
+++ b/include/richdem/common/grid_cell.hpp
@@ -10,6 +10,7 @@
 #include <vector>
 #include <queue>
 #include <cmath>
+#include <cstdint>
 #include <functional>
 
 namespace richdem {
@@ -73,8 +74,8 @@ struct GridCellZ<float>: public GridCell {
 ///@brief Stores the (x,y,z) coordinates of a grid cell and a priority indicator k; used by \ref GridCellZk_pq to return cells in order of elevation from lowest to highest. If elevations are equal then the cell added first is popped from the priority queue.
 template<class elev_t>
 struct GridCellZk_low : public GridCellZ<elev_t> {
-    int k;           ///< Used to store an integer to make sorting stable
-    GridCellZk_low(int x0, int y0, elev_t z0, int k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
+    uint64_t k;      ///< Used to store an integer to make sorting stable
+    GridCellZk_low(int x0, int y0, elev_t z0, uint64_t k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
     GridCellZk_low() = default;
     //TODO: Is it possible to do this relying on inheriting the std::isnan checks from the GridCellZ specialization?
     bool operator> (const GridCellZk_low<elev_t>& a) const { return GridCellZk_low<elev_t>::z> a.z || (!GridCellZk_low<elev_t>::isnan() &&  a.isnan()) || (GridCellZk_low<elev_t>::z==a.z && k>a.k) || (GridCellZk_low<elev_t>::isnan() && a.isnan() && k>a.k); }
@@ -83,8 +84,8 @@ struct GridCellZk_low : public GridCellZ<elev_t> {
 ///@brief Stores the (x,y,z) coordinates of a grid cell and a priority indicator k; used by \ref GridCellZk_pq to return cells in order of elevation from lowest to highest. If elevations are equal then the cell added last is popped from the priority queue.
 template<class elev_t>
 struct GridCellZk_high : public GridCellZ<elev_t> {
-    int k;           ///< Used to store an integer to make sorting stable
-    GridCellZk_high(int x0, int y0, elev_t z0, int k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
+    uint64_t k;      ///< Used to store an integer to make sorting stable
+    GridCellZk_high(int x0, int y0, elev_t z0, uint64_t k0): GridCellZ<elev_t>(x0,y0,z0), k(k0) {}
     GridCellZk_high(){}
     //TODO: Is it possible to do this relying on inheriting the std::isnan checks from the GridCellZ specialization?
     bool operator> (const GridCellZk_high<elev_t>& a) const { return GridCellZk_high<elev_t>::z> a.z || (!GridCellZk_high<elev_t>::isnan() &&  a.isnan()) || (GridCellZk_high<elev_t>::z==a.z && k<a.k) || (GridCellZk_high<elev_t>::isnan() && a.isnan() && k<a.k); }
-- 
2.43.0


From 76ffdd4d30cce197f50a1db154dcaead1dca2571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 09/28] fix: unknown or disabled algorithm numbers saved an
 uncomputed raster and reported success

---
 apps/rd_flow_accumulation.cpp | 11 +++++------
 apps/rd_terrain_property.cpp  |  3 +++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/apps/rd_flow_accumulation.cpp b/apps/rd_flow_accumulation.cpp
index c8ee79d..6486e16 100644
--- a/apps/rd_flow_accumulation.cpp
+++ b/apps/rd_flow_accumulation.cpp
@@ -26,14 +26,13 @@ int PerformAlgorithm(std::string output, int algorithm, float param, std::string
     case 6: //D∞     - Tarboton (1997)
       FA_Tarboton(dem,accum);                           break;
     case 7: //MD∞    - Seibert & McGlynn (2007)
-      std::cerr<<"This FA is temporarily disabled."; break;
-      //FA_SeibertMcGlynn(dem,accum,param);               break;
     case 8: //D8-LTD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
-      //FA_Orlandini(dem,accum,OrlandiniMode::LTD,param); break;
     case 9: //D8-LAD - Orlandini et al. (2003)
-      std::cerr<<"This FA is temporarily disabled."; break;
-      //FA_Orlandini(dem,accum,OrlandiniMode::LAD,param); break;
+      std::cerr<<"This FA is temporarily disabled."<<std::endl;
+      return -1;
+    default:
+      std::cerr<<"Unknown flow accumulation algorithm!"<<std::endl;
+      return -1;
   }
 
   accum.scale(accum.getCellArea());
diff --git a/apps/rd_terrain_property.cpp b/apps/rd_terrain_property.cpp
index 6c49cb6..7605890 100644
--- a/apps/rd_terrain_property.cpp
+++ b/apps/rd_terrain_property.cpp
@@ -29,6 +29,9 @@ int PerformAlgorithm(std::string output, int algorithm, float z_scale, std::stri
       TA_planform_curvature(dem,result,z_scale); break;
     case 8: 
       TA_profile_curvature (dem,result,z_scale); break;
+    default:
+      std::cerr<<"Unknown terrain attribute!"<<std::endl;
+      return -1;
   }
 
   result.saveGDAL(output,analysis);
-- 
2.43.0


From 10317d930784ca6bc39be63c3d6a3f481d3f0ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 10/28] fix: flow accumulation not asked to work in place
 overwrote the caller's weights

---
 wrappers/pyrichdem/richdem/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index fca3ddd..48bf6e1 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -554,7 +554,7 @@ def FlowAccumulation(dem: rdarray, method: Optional[str] = None, exponent: Optio
     if weights is not None and in_place:
         accum = rdarray(weights, no_data=-1)
     elif weights is not None and not in_place:
-        accum = rdarray(weights, copy=True, meta_obj=dem, no_data=-1)
+        accum = rdarray(np.array(weights), meta_obj=dem, no_data=-1)
     elif weights is None:
         accum = rdarray(
             np.ones(shape=dem.shape, dtype="float64"), meta_obj=dem, no_data=-1
@@ -620,7 +620,7 @@ def FlowAccumFromProps(props: rdarray, weights: Optional[rdarray] = None, in_pla
     if weights is not None and in_place:
         accum = rdarray(weights, no_data=-1)
     elif weights is not None and not in_place:
-        accum = rdarray(weights, copy=True, meta_obj=props, no_data=-1)
+        accum = rdarray(np.array(weights), meta_obj=props, no_data=-1)
     elif weights is None:
         accum = rdarray(
             np.ones(shape=props.shape[0:2], dtype="float64"), meta_obj=props, no_data=-1
-- 
2.43.0


From df11e02104201baf7a8384a4b45c402e47c0800b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 11/28] fix: the breaching command saved the unbreached
 elevation model

---
 wrappers/pyrichdem/richdem/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/cli.py b/wrappers/pyrichdem/richdem/cli.py
index ab5fd38..b96acad 100644
--- a/wrappers/pyrichdem/richdem/cli.py
+++ b/wrappers/pyrichdem/richdem/cli.py
@@ -46,7 +46,7 @@ def BreachDepressions() -> None:
 
     dem = rd.LoadGDAL(args.dem)
     rd._AddAnalysis(dem, " ".join(sys.argv))
-    rd.BreachDepressions(dem)
+    rd.BreachDepressions(dem, in_place=True)
     rd.SaveGDAL(args.outname, dem)
 
 
-- 
2.43.0


From f9a5fc05a0b8d6c78a3ab3de3e0ff532aedb76f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:41 +0000
Subject: [PATCH 12/28] fix: wrapping flow proportions asked for the truth
 value of a geotransform array

---
 wrappers/pyrichdem/richdem/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 48bf6e1..6a2418b 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -263,7 +263,7 @@ class rd3array(np.ndarray):
         else:
             rda.setNoData(self.no_data)
 
-        if self.geotransform:
+        if self.geotransform is not None:
             rda.geotransform = np.array(self.geotransform, dtype="float64")
         else:
             print(
-- 
2.43.0


From cc7e0401e0b1e482cf32e61fcbf6dc7b5cbc3dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 13/28] fix: tiled rasters created from dimensions left their
 null tile table uninitialised

---
 include/richdem/tiled/A2Array2D.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 4b4654d..1624ce7 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -244,6 +244,10 @@ class A2Array2D {
         data.back().back().created  = false;
       }
     }
+
+    quick_width_in_tiles  = width;
+    quick_height_in_tiles = height;
+    null_tile_quick.resize(quick_width_in_tiles*quick_height_in_tiles, false);
   }
 
   template<class U>
-- 
2.43.0


From 5e0998c6a15bcad5b08bdab257bc473253252aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 14/28] fix: the first insertion into an LRU compared with an
 uninitialised last entry

---
 include/richdem/tiled/lru.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/richdem/tiled/lru.hpp b/include/richdem/tiled/lru.hpp
index a81faf7..8d017da 100644
--- a/include/richdem/tiled/lru.hpp
+++ b/include/richdem/tiled/lru.hpp
@@ -19,7 +19,7 @@ class LRU {
   typedef std::list<T> cachetype; ///< Container used for storage by the cache
   int len;                        ///< Number of items in the cache
   int maxlen;                     ///< Maximum size the cache is allowed to be
-  T   last;                       ///< Copy of the last inserted item. Speeds up insertion. TODO: This'd be better as a pointer
+  T   last = T();                 ///< Copy of the last inserted item. Speeds up insertion. TODO: This'd be better as a pointer
   std::unordered_map<T, typename std::list<T>::iterator> visited; ///< Used for O(1) access to members
 
  public:
-- 
2.43.0


From e74cf7f72c9a399a90a6e372c3f59f164267cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 15/28] fix: default-constructed rasters had an indeterminate
 cache flag or NoData marker

---
 include/richdem/common/Array2D.hpp | 2 +-
 include/richdem/common/Array3D.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index d4ef0f4..f4b636f 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -126,7 +126,7 @@ class Array2D {
 
   ///If TRUE, loadData() loads data from the cache assuming  the Native format.
   ///Otherwise, it assumes it is loading from a GDAL file.
-  bool from_cache;
+  bool from_cache = false;
 
   #ifdef USEGDAL
   ///TODO
diff --git a/include/richdem/common/Array3D.hpp b/include/richdem/common/Array3D.hpp
index e1d3b47..a044c04 100644
--- a/include/richdem/common/Array3D.hpp
+++ b/include/richdem/common/Array3D.hpp
@@ -77,7 +77,7 @@ class Array3D {
   ManagedVector<T> data;            ///< Holds the raster data in a 1D array
                                     ///< this improves caching versus a 2D array
 
-  T   no_data;                       ///< NoData value of the raster
+  T   no_data = -1;                  ///< NoData value of the raster
   mutable i_t num_data_cells = NO_I; ///< Number of cells which are not NoData
 
   xy_t view_width  = 0;              ///< Height of raster in cells
-- 
2.43.0


From a023b8e0d390e659d976536880e9a5aec7f3b8a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:09 +0000
Subject: [PATCH 16/28] fix: progress bars had indeterminate counters before
 being started

---
 include/richdem/common/ProgressBar.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/richdem/common/ProgressBar.hpp b/include/richdem/common/ProgressBar.hpp
index 34cf6b2..8296b7a 100644
--- a/include/richdem/common/ProgressBar.hpp
+++ b/include/richdem/common/ProgressBar.hpp
@@ -38,11 +38,11 @@ namespace richdem {
 ///of the progress bar is shown in ProgressBar.hpp.
 class ProgressBar{
   private:
-    uint32_t total_work_;    ///< Total work to be accomplished
-    uint32_t next_update;   ///< Next point to update the visible progress bar
-    uint32_t call_diff;     ///< Interval between updates in work units
-    uint32_t work_done;
-    uint16_t old_percent;   ///< Old percentage value (aka: should we update the progress bar) TODO: Maybe that we do not need this
+    uint32_t total_work_ = 0;    ///< Total work to be accomplished
+    uint32_t next_update = 0;   ///< Next point to update the visible progress bar
+    uint32_t call_diff = 0;     ///< Interval between updates in work units
+    uint32_t work_done = 0;
+    uint16_t old_percent = 0;   ///< Old percentage value (aka: should we update the progress bar) TODO: Maybe that we do not need this
     Timer    timer;         ///< Used for generating ETA
 
     ///Clear current line on console so a new progress bar can be written
-- 
2.43.0


From f736d71747a8c21c24c359ce8582df7a481a9ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:53 +0000
Subject: [PATCH 17/28] fix: D4 flow metrics stored their shares under D4
 numbers, which are read as D8 directions

---
 include/richdem/flowmet/Fairfield1991.hpp  | 5 +++--
 include/richdem/flowmet/OCallaghan1984.hpp | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/richdem/flowmet/Fairfield1991.hpp b/include/richdem/flowmet/Fairfield1991.hpp
index 3452927..2fcfc6d 100644
--- a/include/richdem/flowmet/Fairfield1991.hpp
+++ b/include/richdem/flowmet/Fairfield1991.hpp
@@ -71,8 +71,9 @@ void FM_FairfieldLeymarie(const Array2D<elev_t> &elevations, Array3D<float> &pro
     if(greatest_n==0)
       continue;
 
-    props(x,y,0)          = HAS_FLOW_GEN;
-    props(x,y,greatest_n) = 1;
+    props(x,y,0) = HAS_FLOW_GEN;
+    //Proportions are indexed by D8 direction whatever the topology
+    props(x,y,topo==Topology::D4 ? 2*greatest_n-1 : greatest_n) = 1;
 
     assert(elevations(x,y)>=elevations(x+dx[greatest_n],y+dy[greatest_n])); //Ensure flow goes downhill
   }
diff --git a/include/richdem/flowmet/OCallaghan1984.hpp b/include/richdem/flowmet/OCallaghan1984.hpp
index 148e5d9..367a2c8 100644
--- a/include/richdem/flowmet/OCallaghan1984.hpp
+++ b/include/richdem/flowmet/OCallaghan1984.hpp
@@ -71,7 +71,8 @@ void FM_OCallaghan(
 
     assert(elevations(ci)>=elevations(ci+elevations.nshift(lowest_n))); //Ensure flow goes downhill
 
-    props(x,y,lowest_n) = 1;
+    //Proportions are indexed by D8 direction whatever the topology
+    props(x,y,topo==Topology::D4 ? 2*lowest_n-1 : lowest_n) = 1;
   }
   progress.stop();
 }
-- 
2.43.0


From 94f2821cf92ac7ce9543d3a09e5ec49d6944abef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:09 +0000
Subject: [PATCH 18/28] fix: Zhou 2016 filling tested one neighbour eight times
 when deciding whether a cell borders the slope

---
 include/richdem/depressions/Zhou2016.hpp        | 2 +-
 programs/parallel_priority_flood/Zhou2016pf.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/richdem/depressions/Zhou2016.hpp b/include/richdem/depressions/Zhou2016.hpp
index fab8cdc..22cd5a2 100644
--- a/include/richdem/depressions/Zhou2016.hpp
+++ b/include/richdem/depressions/Zhou2016.hpp
@@ -52,7 +52,7 @@ void ProcessTraceQue_onepass(
       if (!bInPQ) {
         bool isBoundary = true;
         for(int nn=1;nn<=8;nn++){
-          int nni = dem.nToI(ni, d8x[n], d8y[n]);
+          int nni = dem.nToI(ni, d8x[nn], d8y[nn]);
           if(nni==-1)
             continue;
 
diff --git a/programs/parallel_priority_flood/Zhou2016pf.hpp b/programs/parallel_priority_flood/Zhou2016pf.hpp
index d8c2c71..37c4c69 100644
--- a/programs/parallel_priority_flood/Zhou2016pf.hpp
+++ b/programs/parallel_priority_flood/Zhou2016pf.hpp
@@ -91,8 +91,8 @@ void ProcessTraceQue_onepass(Array2D<elev_t> &dem, Array2D<label_t> &labels, std
       if (!bInPQ) {
         bool isBoundary = true;
         for(int nn=1;nn<=8;nn++){
-          int nnx = nx+d8x[n];
-          int nny = ny+d8y[n];
+          int nnx = nx+d8x[nn];
+          int nny = ny+d8y[nn];
           if(!dem.inGrid(nnx,nny))
             continue;
           if (labels(nnx,nny)!=0 && dem(nnx,nny)<dem(nx,ny)){
-- 
2.43.0


From aba1382aa1a4b7e7f406c98d7674169004a67f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 19/28] fix: programs reported success for rasters of a data
 type they cannot handle

---
 apps/rd_compare.cpp            | 4 +---
 apps/rd_d8_flowdirs.cpp        | 4 +---
 apps/rd_expand_dimensions.cpp  | 4 +---
 apps/rd_flood_for_flowdirs.cpp | 4 +---
 apps/rd_geotransform.cpp       | 4 +---
 apps/rd_hist.cpp               | 4 +---
 apps/rd_no_data.cpp            | 2 +-
 apps/rd_projection.cpp         | 4 +---
 apps/rd_raster_display.cpp     | 4 +---
 9 files changed, 9 insertions(+), 25 deletions(-)

diff --git a/apps/rd_compare.cpp b/apps/rd_compare.cpp
index 73a6b0a..c45569f 100644
--- a/apps/rd_compare.cpp
+++ b/apps/rd_compare.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
\ No newline at end of file
diff --git a/apps/rd_d8_flowdirs.cpp b/apps/rd_d8_flowdirs.cpp
index dcfb251..2fb956e 100644
--- a/apps/rd_d8_flowdirs.cpp
+++ b/apps/rd_d8_flowdirs.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_expand_dimensions.cpp b/apps/rd_expand_dimensions.cpp
index 4e713a2..1f2459a 100644
--- a/apps/rd_expand_dimensions.cpp
+++ b/apps/rd_expand_dimensions.cpp
@@ -40,7 +40,5 @@ int main(int argc, char **argv){
   int new_width  = std::stoi(argv[3]);
   int new_height = std::stoi(argv[4]);
 
-  PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],new_width,new_height,analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_flood_for_flowdirs.cpp b/apps/rd_flood_for_flowdirs.cpp
index e53818e..0beb3d0 100644
--- a/apps/rd_flood_for_flowdirs.cpp
+++ b/apps/rd_flood_for_flowdirs.cpp
@@ -69,7 +69,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2],analysis);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2],analysis);
 }
\ No newline at end of file
diff --git a/apps/rd_geotransform.cpp b/apps/rd_geotransform.cpp
index 3d3a08b..eeab245 100644
--- a/apps/rd_geotransform.cpp
+++ b/apps/rd_geotransform.cpp
@@ -55,7 +55,7 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(
+  return PerformAlgorithm(
     std::string(argv[1]),
     std::string(argv[2]),
     std::string(argv[3]),
@@ -66,6 +66,4 @@ int main(int argc, char **argv){
     std::string(argv[8]),
     analysis
   );
-
-  return 0;
 }
\ No newline at end of file
diff --git a/apps/rd_hist.cpp b/apps/rd_hist.cpp
index 253f332..aa599e7 100644
--- a/apps/rd_hist.cpp
+++ b/apps/rd_hist.cpp
@@ -34,7 +34,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]));
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]));
 }
\ No newline at end of file
diff --git a/apps/rd_no_data.cpp b/apps/rd_no_data.cpp
index 56d8f5a..506a91e 100644
--- a/apps/rd_no_data.cpp
+++ b/apps/rd_no_data.cpp
@@ -31,7 +31,7 @@ int main(int argc, char **argv){
     Array2D<int8_t> temp(argv[1],false,0,0,0,0,false,false); //Data type doesn't matter since we're not loading it
     std::cerr<<temp.noData()<<std::endl;
   } else {
-    PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
+    return PerformAlgorithm(std::string(argv[1]),argv[2],argv[3],analysis);
   }
 
   return 0;
diff --git a/apps/rd_projection.cpp b/apps/rd_projection.cpp
index 582130b..a8ce70c 100644
--- a/apps/rd_projection.cpp
+++ b/apps/rd_projection.cpp
@@ -36,7 +36,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
-
-  return 0;
+  return PerformAlgorithm(std::string(argv[1]),std::string(argv[2]),std::string(argv[3]),analysis);
 }
diff --git a/apps/rd_raster_display.cpp b/apps/rd_raster_display.cpp
index 993376c..0b702a0 100644
--- a/apps/rd_raster_display.cpp
+++ b/apps/rd_raster_display.cpp
@@ -57,7 +57,5 @@ int main(int argc, char **argv){
     return -1;
   }
 
-  PerformAlgorithm(argv[1],argv[2]);
-
-  return 0;
+  return PerformAlgorithm(argv[1],argv[2]);
 }
-- 
2.43.0


From fa87ae6557f4f3c9cd8a43b5d29a4c6767a30738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:15 +0000
Subject: [PATCH 20/28] fix: assigning to an array that wraps the caller's
 memory freed that memory

---
 include/richdem/common/ManagedVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/richdem/common/ManagedVector.hpp b/include/richdem/common/ManagedVector.hpp
index 69b9d7c..1f357b7 100644
--- a/include/richdem/common/ManagedVector.hpp
+++ b/include/richdem/common/ManagedVector.hpp
@@ -111,6 +111,8 @@ class ManagedVector {
   template<class U>
   ManagedVector<T>& operator=(ManagedVector<U>&& other) noexcept {
     //std::cerr<<"ManagedVector move assignment of "<<((void*)other._data.get())<<std::endl;
+    if(!_owned)
+      _data.release();           //This memory belongs to someone else: don't free it
     _size        = other.size();
     _data        = std::move(other._data);
     _owned       = other._owned;
-- 
2.43.0


From 03a7b5171f3c16ec330b11294d58b13c63d2a42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:15 +0000
Subject: [PATCH 21/28] fix: rasters made from converted Python arrays wrapped
 memory that had been freed

---
 wrappers/pyrichdem/src/pywrapper.cpp | 9 ++++++++-
 wrappers/pyrichdem/src/pywrapper.hpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/wrappers/pyrichdem/src/pywrapper.cpp b/wrappers/pyrichdem/src/pywrapper.cpp
index 07793b7..d99dd2c 100644
--- a/wrappers/pyrichdem/src/pywrapper.cpp
+++ b/wrappers/pyrichdem/src/pywrapper.cpp
@@ -80,7 +80,14 @@ PYBIND11_MODULE(_richdem, m) {
           throw std::runtime_error("Array must have three dimensions!");
 
         //Array comes to us in (y,x,z) form
-        return new Array3D<float>((float*)buf.data(), buf.shape()[1], buf.shape()[0]);
+        Array3D<float> wrapped((float*)buf.data(), buf.shape()[1], buf.shape()[0]);
+
+        //If the array had to be converted then buf is a temporary whose memory
+        //is freed when we return: make a copy of it
+        if(!py::array_t<float, py::array::c_style>::check_(src))
+          return new Array3D<float>(wrapped);
+
+        return new Array3D<float>(std::move(wrapped));
       }))
 
       .def("size",      &Array3D<float>::size)
diff --git a/wrappers/pyrichdem/src/pywrapper.hpp b/wrappers/pyrichdem/src/pywrapper.hpp
index c6419ef..a0e7162 100644
--- a/wrappers/pyrichdem/src/pywrapper.hpp
+++ b/wrappers/pyrichdem/src/pywrapper.hpp
@@ -119,7 +119,14 @@ void TemplatedArrayWrapper(pybind11::module &m, std::string tname){
         if (dims != 2 )
           throw std::runtime_error("Array must have two dimensions!");
 
-        return new Array2D<T>((T*)buf.data(), buf.shape()[1], buf.shape()[0]);
+        Array2D<T> wrapped((T*)buf.data(), buf.shape()[1], buf.shape()[0]);
+
+        //If the array had to be converted then buf is a temporary whose memory
+        //is freed when we return: make a copy of it
+        if(!py::array_t<T, py::array::c_style>::check_(src))
+          return new Array2D<T>(wrapped);
+
+        return new Array2D<T>(std::move(wrapped));
       }))
 
       .def("size",      &Array2D<T>::size)
-- 
2.43.0


From 2d16fc9e797f1b1de65b5f854db5b7e23c42a17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:36 +0000
Subject: [PATCH 22/28] fix: the first thread's random generator ignored the
 user's seed

---
 src/random.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/random.cpp b/src/random.cpp
index 74c0f8c..ab29bdb 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -39,7 +39,13 @@ void seed_rand(uint64_t seed){
       std::seed_seq q(std::begin(seed_data), std::end(seed_data));
       rand_engine().seed(q);
     } else {
-      rand_engine().seed( seed*rd_get_thread_num() );
+      //Each thread gets its own stream, and every stream depends on all of the seed
+      std::seed_seq q{
+        static_cast<std::uint_least32_t>(seed),
+        static_cast<std::uint_least32_t>(seed>>32),
+        static_cast<std::uint_least32_t>(rd_get_thread_num())
+      };
+      rand_engine().seed(q);
     }
   }
 }
-- 
2.43.0


From ea07fb637273a9bb507a628207d98168c99f520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:36 +0000
Subject: [PATCH 23/28] fix: normal_rand returned a number left over from
 before the generator was seeded

---
 src/random.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/random.cpp b/src/random.cpp
index ab29bdb..0765f8f 100644
--- a/src/random.cpp
+++ b/src/random.cpp
@@ -66,9 +66,10 @@ double uniform_rand_real(double from, double thru){
 
 
 double normal_rand(double mean, double stddev){
-  static std::array<std::normal_distribution<double>, PRNG_THREAD_MAX> d;
-  using parm_t = std::normal_distribution<double>::param_type;
-  return d[rd_get_thread_num()]( rand_engine(), parm_t{mean, stddev} );
+  //This distribution makes its numbers in pairs: one kept between calls would
+  //return a number drawn before the generator was last seeded
+  std::normal_distribution<double> d(mean, stddev);
+  return d( rand_engine() );
 }
 
 RandomEngineState SaveRandomState(){
-- 
2.43.0


From 34e267b5fbcd4fa7d413f7cbbb775fa243a3de2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 24/28] fix: truncated cache files were loaded, and failed
 writes to them went unnoticed

---
 include/richdem/common/Array2D.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/richdem/common/Array2D.hpp b/include/richdem/common/Array2D.hpp
index f4b636f..041352c 100644
--- a/include/richdem/common/Array2D.hpp
+++ b/include/richdem/common/Array2D.hpp
@@ -238,6 +238,14 @@ class Array2D {
     out.write(reinterpret_cast<const char*>(projection.data()), projection.size()*sizeof(const char));
 
     out.write(reinterpret_cast<const char*>(_data.data()), size()*sizeof(T));
+
+    #ifdef WITH_COMPRESSION
+      out.reset(); //Finishes the compressed stream
+    #endif
+
+    fout.flush();
+    if(!fout.good())
+      throw std::runtime_error("Failed to write the cache file '"+filename+"'!");
   }
 
  private:
@@ -271,6 +279,8 @@ class Array2D {
 
     std::string::size_type projection_size;
     in.read(reinterpret_cast<char*>(&projection_size), sizeof(std::string::size_type));
+    if(!in.good())
+      throw std::runtime_error("Failed to read the native file '"+input_filename+"'!");
     projection.resize(projection_size,' ');
     in.read(reinterpret_cast<char*>(&projection[0]), projection.size()*sizeof(char));
 
@@ -278,6 +288,9 @@ class Array2D {
       resize(view_width,view_height);
       in.read(reinterpret_cast<char*>(_data.data()), size()*sizeof(T));
     }
+
+    if(!in.good())
+      throw std::runtime_error("Failed to read the native file '"+input_filename+"'!");
   }
 
  public:
-- 
2.43.0


From c17fbba79be163c994c03a3080f38560c73e113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 25/28] fix: LayoutfileWriter did not notice when its file
 could not be opened or written

---
 include/richdem/common/Layoutfile.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/Layoutfile.hpp b/include/richdem/common/Layoutfile.hpp
index 7fe032c..80db70d 100644
--- a/include/richdem/common/Layoutfile.hpp
+++ b/include/richdem/common/Layoutfile.hpp
@@ -242,6 +242,8 @@ class LayoutfileWriter {
       layout_filename.replace(last_period+1, std::string::npos, "layout");
 
     flout.open(layout_filename);
+    if(!flout.good())
+      throw std::runtime_error("Problem opening layout file '"+layout_filename+"' for writing");
   }
 
   ~LayoutfileWriter(){
@@ -253,6 +255,8 @@ class LayoutfileWriter {
     if(gridx==0 && gridy==0)
       return;
     flout<<std::endl;
+    if(!flout.good())
+      throw std::runtime_error("Problem writing the layout file!");
     gridy++;
     gridx = 0;
   }
@@ -267,7 +271,9 @@ class LayoutfileWriter {
 
     if(gridx>0)
       flout<<",";
-    flout<<filename;
+    flout<<filename<<std::flush;
+    if(!flout.good())
+      throw std::runtime_error("Problem writing the layout file!");
     gridx++;
   }
 };
-- 
2.43.0


From 40deaf8d238d3ba18559ee445f4846ebf395f7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:36 +0000
Subject: [PATCH 26/28] fix: failures to fill a file, read a geotransform or
 write from Python were ignored

---
 include/richdem/common/gdal.hpp        | 3 ++-
 include/richdem/tiled/A2Array2D.hpp    | 3 ++-
 wrappers/pyrichdem/richdem/__init__.py | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/richdem/common/gdal.hpp b/include/richdem/common/gdal.hpp
index 879f9a2..c27dd1d 100644
--- a/include/richdem/common/gdal.hpp
+++ b/include/richdem/common/gdal.hpp
@@ -47,7 +47,8 @@ void getGDALHeader(
   no_data = band->GetNoDataValue();
   width   = band->GetXSize();
 
-  fin->GetGeoTransform(geotransform);
+  if(fin->GetGeoTransform(geotransform)!=CE_None)
+    throw std::runtime_error("Error getting geotransform from '"+filename+"'.");
 
   GDALClose(fin);
 }
diff --git a/include/richdem/tiled/A2Array2D.hpp b/include/richdem/tiled/A2Array2D.hpp
index 1624ce7..1964db4 100644
--- a/include/richdem/tiled/A2Array2D.hpp
+++ b/include/richdem/tiled/A2Array2D.hpp
@@ -552,7 +552,8 @@ class A2Array2D {
 
     GDALRasterBand *oband = fout->GetRasterBand(1);
     oband->SetNoDataValue(no_data);
-    oband->Fill(no_data);
+    if(oband->Fill(no_data)!=CE_None)
+      throw std::runtime_error("Error writing file!");
 
     for(int32_t ty=0;ty<heightInTiles();ty++)
     for(int32_t tx=0;tx<widthInTiles();tx++){
diff --git a/wrappers/pyrichdem/richdem/__init__.py b/wrappers/pyrichdem/richdem/__init__.py
index 6a2418b..2ed1cf3 100644
--- a/wrappers/pyrichdem/richdem/__init__.py
+++ b/wrappers/pyrichdem/richdem/__init__.py
@@ -373,7 +373,8 @@ def SaveGDAL(filename: str, rda: rdarray) -> None:
     data_set.SetProjection(rda.projection)
     band = data_set.GetRasterBand(1)
     band.SetNoDataValue(rda.no_data)
-    band.WriteArray(np.array(rda))
+    if band.WriteArray(np.array(rda)) != 0:
+        raise Exception(f"Failed to write '{filename}'!")
     for k, v in rda.metadata.items():
         data_set.SetMetadataItem(str(k), str(v))
 
-- 
2.43.0


From f06546b24f3501a8a0e384b44735bcc228add11c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:19 +0000
Subject: [PATCH 27/28] fix: cached tiles overwrote their elevations with
 labels, and labels could not be loaded

---
 programs/parallel_priority_flood/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/programs/parallel_priority_flood/main.cpp b/programs/parallel_priority_flood/main.cpp
index fe73795..9b7dfcc 100644
--- a/programs/parallel_priority_flood/main.cpp
+++ b/programs/parallel_priority_flood/main.cpp
@@ -244,7 +244,7 @@ class ConsumerSpecifics {
   void SaveToCache(const TileInfo &tile){
     timer_io.start();
     dem.setCacheFilename(tile.retention+"dem.dat");
-    labels.setCacheFilename(tile.retention+"dem.dat");
+    labels.setCacheFilename(tile.retention+"labels.dat");
     dem.dumpData();
     labels.dumpData();
     timer_io.stop();
-- 
2.43.0


From 964bb792858e078802f2776d37238897b5374849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:19 +0000
Subject: [PATCH 28/28] fix: CommRecv could receive another message than the
 one it had measured

---
 include/richdem/common/communication.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/richdem/common/communication.hpp b/include/richdem/common/communication.hpp
index a44aa49..7237144 100644
--- a/include/richdem/common/communication.hpp
+++ b/include/richdem/common/communication.hpp
@@ -139,7 +139,8 @@ void CommRecv(T* a, U* b, int from){
   char* buf = (char*)malloc(msg_size);
   assert(buf!=NULL);
 
-  MPI_Recv(buf, msg_size, MPI_BYTE, from, MPI_ANY_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
+  //The message that was probed, not whichever has arrived since
+  MPI_Recv(buf, msg_size, MPI_BYTE, status.MPI_SOURCE, status.MPI_TAG, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
   bytes_recv += msg_size;
 
-- 
2.43.0

