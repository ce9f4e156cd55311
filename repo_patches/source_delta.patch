From ed11727f975af9c78a77e290afd8bf0755a36125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:44 +0000
Subject: [PATCH 01/63] fix: LinkCell.cell_width raised AttributeError (binding
 name mismatch)

---
 freud/locality/export-NeighborQuery.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/export-NeighborQuery.cc b/freud/locality/export-NeighborQuery.cc
index 974f4b1..254f3b3 100644
--- a/freud/locality/export-NeighborQuery.cc
+++ b/freud/locality/export-NeighborQuery.cc
@@ -84,7 +84,7 @@ void export_LinkCell(nb::module_& module)
 {
     nb::class_<LinkCell, NeighborQuery>(module, "LinkCell")
         .def("__init__", &wrap::LinkCellConstructor)
-        .def("GetCellWidth", &LinkCell::getCellWidth);
+        .def("getCellWidth", &LinkCell::getCellWidth);
 }
 
 void export_RawPoints(nb::module_& module)
-- 
2.43.0


From b37b0aeae44cfb859a39a73ac5ce6effccf53515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:17 +0000
Subject: [PATCH 02/63] fix: CorrelationFunction.bins raised AttributeError
 (getNBins is not bound)

---
 freud/density.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index c47ad95..4bb870c 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -145,7 +145,7 @@ class CorrelationFunction(_SpatialHistogram1D):
     @property
     def bins(self):
         """int: Number of bins used in the calculation."""
-        return self._cpp_obj.getNBins()
+        return self.nbins
 
     def __repr__(self):
         return (
-- 
2.43.0


From 687ec7c3b476b1a47f9c3842e3e0d683a2353424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:25 +0000
Subject: [PATCH 03/63] fix: NeighborList.all_pairs stored vectors pointing
 from point to query point

---
 freud/locality/NeighborList.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 96baa23..83b7056 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -118,7 +118,7 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
                 (*m_neighbors)(bond_idx, 0) = i;
                 (*m_neighbors)(bond_idx, 1) = j;
                 (*m_weights)(bond_idx) = 1.0;
-                const auto dr = box.wrap(query_points[i] - points[j]);
+                const auto dr = -box.wrap(query_points[i] - points[j]);
                 (*m_distances)(bond_idx) = sqrt(dot(dr, dr));
                 (*m_vectors)(bond_idx) = dr;
                 ++bond_idx;
-- 
2.43.0


From 68f79ac37ca17e9d6cb30aab05c44bbc97a7bd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:52 +0000
Subject: [PATCH 04/63] fix: NeighborList.all_pairs rejected query points given
 as a list

---
 freud/locality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 20b941c..8abc16d 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -587,7 +587,7 @@ class NeighborList:
 
         points = freud.util._convert_array(points, shape=points.shape, dtype=np.float32)
         query_points = freud.util._convert_array(
-            query_points, shape=query_points.shape, dtype=np.float32
+            query_points, shape=(None, 3), dtype=np.float32
         )
 
         result = cls()
-- 
2.43.0


From bc343da4a8c717035b93448738377368ac945fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:15 +0000
Subject: [PATCH 05/63] fix: FilterRAD reversed bond vectors and discarded bond
 weights

---
 freud/locality/FilterRAD.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index 9eb2715..e6f31c0 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -47,6 +47,7 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     const auto& box = nq->getBox();
     const auto& sorted_neighbors = *sorted_nlist.getNeighbors();
     const auto& sorted_dist = *sorted_nlist.getDistances();
+    const auto& sorted_vecs = *sorted_nlist.getVectors();
     const auto& sorted_weights = *sorted_nlist.getWeights();
     const auto& sorted_counts = *sorted_nlist.getCounts();
 
@@ -93,7 +94,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
                 // if no k blocks j, add a bond from i to j
                 if (good_neighbor)
                 {
-                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j), 1, v1);
+                    local_bonds.emplace_back(i, first_neighbor_idx, sorted_dist(first_idx + j),
+                                             sorted_weights(first_idx + j), sorted_vecs(first_idx + j));
                 }
                 else if (m_terminate_after_blocked)
                 {
-- 
2.43.0


From c95859d5124c67f37d008a534978ab36f08a8742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:10 +0000
Subject: [PATCH 06/63] fix: neighbor filters lost the point counts and crashed
 on empty results

---
 freud/locality/FilterRAD.cc    |  3 ++-
 freud/locality/FilterSANN.cc   |  3 ++-
 freud/locality/NeighborList.cc | 42 ++++++++--------------------------
 freud/locality/NeighborList.h  |  3 ++-
 4 files changed, 15 insertions(+), 36 deletions(-)

diff --git a/freud/locality/FilterRAD.cc b/freud/locality/FilterRAD.cc
index e6f31c0..414b5b1 100644
--- a/freud/locality/FilterRAD.cc
+++ b/freud/locality/FilterRAD.cc
@@ -129,7 +129,8 @@ void FilterRAD::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* qu
     // sort final bonds array by distance
     tbb::parallel_sort(rad_bonds.begin(), rad_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(rad_bonds, m_unfiltered_nlist->getNumQueryPoints(),
+                                                     m_unfiltered_nlist->getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/FilterSANN.cc b/freud/locality/FilterSANN.cc
index d66c31f..3317af7 100644
--- a/freud/locality/FilterSANN.cc
+++ b/freud/locality/FilterSANN.cc
@@ -99,7 +99,8 @@ void FilterSANN::compute(std::shared_ptr<NeighborQuery> nq, const vec3<float>* q
     // sort final bonds array by distance
     tbb::parallel_sort(sann_bonds.begin(), sann_bonds.end(), compareNeighborDistance);
 
-    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds);
+    m_filtered_nlist = std::make_shared<NeighborList>(sann_bonds, m_unfiltered_nlist->getNumQueryPoints(),
+                                                     m_unfiltered_nlist->getNumPoints());
 };
 
 }; }; // namespace freud::locality
diff --git a/freud/locality/NeighborList.cc b/freud/locality/NeighborList.cc
index 83b7056..7ad7937 100644
--- a/freud/locality/NeighborList.cc
+++ b/freud/locality/NeighborList.cc
@@ -5,10 +5,8 @@
 #include <cmath>
 #include <cstddef>
 #include <memory>
-#include <oneapi/tbb/enumerable_thread_specific.h>
 #include <oneapi/tbb/parallel_sort.h>
 #include <stdexcept>
-#include <tbb/enumerable_thread_specific.h>
 #include <tbb/parallel_sort.h>
 #include <utility>
 #include <vector>
@@ -127,36 +125,21 @@ NeighborList::NeighborList(const vec3<float>* points, const vec3<float>* query_p
     });
 }
 
-NeighborList::NeighborList(std::vector<NeighborBond> bonds)
-    : m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
+NeighborList::NeighborList(const std::vector<NeighborBond>& bonds, unsigned int num_query_points,
+                           unsigned int num_points)
+    : m_num_query_points(num_query_points), m_num_points(num_points), m_segments_counts_updated(false),
+      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2})),
+      m_distances(std::make_shared<util::ManagedArray<float>>(bonds.size())),
       m_weights(std::make_shared<util::ManagedArray<float>>(bonds.size())),
-      m_neighbors(std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {bonds.size(), 2}))
+      m_vectors(std::make_shared<util::ManagedArray<vec3<float>>>(bonds.size())),
+      m_segments(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points)),
+      m_counts(std::make_shared<util::ManagedArray<unsigned int>>(num_query_points))
 {
-    // keep track of maximum indices
-    using MaxIndex = tbb::enumerable_thread_specific<unsigned int>;
-    MaxIndex max_idx_query = 0;
-    MaxIndex max_idx_point = 0;
-
     // fill arrays in parallel
     util::forLoopWrapper(0, bonds.size(), [&](size_t begin, size_t end) {
-        MaxIndex::reference max_point_idx(max_idx_point.local());
-        MaxIndex::reference max_query_idx(max_idx_query.local());
         for (auto i = begin; i < end; ++i)
         {
-            auto bond = bonds[i];
-
-            // update max bond indices
-            if (max_point_idx < bond.getPointIdx())
-            {
-                max_point_idx = bond.getPointIdx();
-            }
-            if (max_query_idx < bond.getQueryPointIdx())
-            {
-                max_query_idx = bond.getQueryPointIdx();
-            }
-
-            // fill in array data
+            const auto& bond = bonds[i];
             (*m_distances)(i) = bond.getDistance();
             (*m_weights)(i) = bond.getWeight();
             (*m_neighbors)(i, 0) = bond.getQueryPointIdx();
@@ -164,13 +147,6 @@ NeighborList::NeighborList(std::vector<NeighborBond> bonds)
             (*m_vectors)(i) = bond.getVector();
         }
     });
-
-    // set num points, query points as max of thread-local maxes
-    m_num_points = (*std::max_element(max_idx_point.begin(), max_idx_point.end())) + 1;
-    m_num_query_points = (*std::max_element(max_idx_query.begin(), max_idx_query.end())) + 1;
-    m_segments = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_counts = std::make_shared<util::ManagedArray<unsigned int>>(m_num_query_points);
-    m_segments_counts_updated = false;
 }
 
 unsigned int NeighborList::getNumBonds() const
diff --git a/freud/locality/NeighborList.h b/freud/locality/NeighborList.h
index b73b844..14c2019 100644
--- a/freud/locality/NeighborList.h
+++ b/freud/locality/NeighborList.h
@@ -44,7 +44,8 @@ public:
                  const bool exclude_ii, const unsigned int num_points, const unsigned int num_query_points);
 
     //! Construct from vector of NeighborBonds
-    explicit NeighborList(std::vector<NeighborBond> bonds);
+    NeighborList(const std::vector<NeighborBond>& bonds, unsigned int num_query_points,
+                 unsigned int num_points);
 
     //! Return the number of bonds stored in this NeighborList
     unsigned int getNumBonds() const;
-- 
2.43.0


From fc224722241982df67a92626e1fca6a13c43ba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:55 +0000
Subject: [PATCH 07/63] fix: interleaved CellQuery results read each other's
 grid

---
 freud/locality/CellIterator.h | 26 ++++++++++++++------------
 freud/locality/CellQuery.cc   |  8 ++++++--
 2 files changed, 20 insertions(+), 14 deletions(-)

diff --git a/freud/locality/CellIterator.h b/freud/locality/CellIterator.h
index 103c9dc..b39b4b1 100644
--- a/freud/locality/CellIterator.h
+++ b/freud/locality/CellIterator.h
@@ -7,6 +7,7 @@
 #include "NeighborQuery.h"
 #include "VectorMath.h"
 #include <cmath>
+#include <cstddef>
 #include <stdexcept>
 #include <vector>
 
@@ -68,7 +69,14 @@ public:
         m_particle_idx = -1;
         m_list_end = -1;
 
+        // Collect all bonds now, because the grid may be rebuilt by a later
+        // query before this iterator is exhausted.
         find_next_pair();
+        while (m_current_bond != ITERATOR_TERMINATOR)
+        {
+            m_bonds.push_back(m_current_bond);
+            find_next_pair();
+        }
     }
 
     //! Empty Destructor
@@ -77,21 +85,12 @@ public:
     //! Get the next element.
     NeighborBond next() final
     {
-        if (m_finished)
-        {
-            return ITERATOR_TERMINATOR;
-        }
-
-        NeighborBond res = m_current_bond;
-        if (res == ITERATOR_TERMINATOR)
+        if (m_next_bond >= m_bonds.size())
         {
             m_finished = true;
+            return ITERATOR_TERMINATOR;
         }
-        else
-        {
-            find_next_pair();
-        }
-        return res;
+        return m_bonds[m_next_bond++];
     }
 
 private:
@@ -193,6 +192,9 @@ private:
     int m_particle_idx;   // Current particle index in linear buffer
     int m_list_end;       // End index of the current contiguous block
     NeighborBond m_current_bond;
+
+    std::vector<NeighborBond> m_bonds; // All bonds of the query point
+    size_t m_next_bond {0};            // Next bond to return
 };
 
 } // namespace freud::locality
diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 6cc263b..4660bac 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -24,8 +24,9 @@ CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, Q
     // although confusingly, that method is also named  `query`. For stronger
     // guarantees, we could use a mutex here.
 
-    // Build the grid if needed
-    if (!m_built)
+    // Build the grid if needed. A grid of at least the requested width stays
+    // valid, so results that are still being iterated over keep their grid.
+    if (!m_built || query_args.r_max > m_grid_r_cut)
     {
         this->buildGrid(query_args.r_max);
     }
@@ -134,6 +135,9 @@ void CellQuery::buildGrid(const float r_cut) const
     // Place particles directly in sorted order
     placeParticlesInSortedOrder(particle_cell_mapping, sorted);
     m_linear_buffer = std::move(sorted);
+
+    m_grid_r_cut = r_cut;
+    m_built = true;
 }
 
 //! Place particles into sorted linear buffer using cell starts and counts.
-- 
2.43.0


From 33115fdc2a82d40646f9f7c1784b152d0dae7c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:36 +0000
Subject: [PATCH 08/63] fix: CellQuery accepted non-periodic boxes, returning
 periodic neighbors

---
 freud/locality/CellQuery.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index 4660bac..becbbb3 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -17,6 +17,13 @@ namespace freud::locality {
 std::shared_ptr<NeighborQueryIterator>
 CellQuery::query(const vec3<float>* query_points, unsigned int n_query_points, QueryArgs query_args) const
 {
+    // pair calculations using non-periodic boxes should fail
+    vec3<bool> const periodic = m_box.getPeriodic();
+    if (!(periodic.x && periodic.y && periodic.z))
+    {
+        throw std::domain_error("Pair queries in a non-periodic box are not implemented.");
+    }
+
     this->validateQueryArgs(query_args);
     // SAFETY: This lazy initialization can cause UB if `CellQuery.query` is
     // called in a parallel loop. This  never occurs as of writing this method,
-- 
2.43.0


From 9b03a2f3ce99c7b0097fa5e118931d71497d2518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:34 +0000
Subject: [PATCH 09/63] fix: AABBQuery nearest-neighbor search stopped before
 its limits were searched

---
 freud/locality/AABBQuery.cc | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/freud/locality/AABBQuery.cc b/freud/locality/AABBQuery.cc
index 2d607e9..7eea424 100644
--- a/freud/locality/AABBQuery.cc
+++ b/freud/locality/AABBQuery.cc
@@ -174,13 +174,27 @@ NeighborBond AABBQueryIterator::next()
             // the _check_r_max. We also can't depend on the ball query for
             // r_min filtering because we're querying beyond the normally safe
             // bounds, so we have to do it in this class.
+            float const r_search = std::min(m_r_cur, m_r_max);
+            if (r_search > min_plane_distance / 2)
+            {
+                // If we have to go beyond the cutoff radius, we need to
+                // start tracking what particles are already in the set so
+                // that we can make sure that we find the closest image
+                // because we now run the risk of finding duplicates.
+                //
+                // We could make this marginally more efficient by checking
+                // whether we've exactly hit the limit, or if there's a
+                // rescaling that would let us try the exact limit once
+                // before going beyond the min plane distance.
+                m_search_extended = true;
+            }
             m_current_neighbors.clear();
             m_all_bonds_minimum_distance.clear();
             m_query_points_below_r_min.clear();
             std::shared_ptr<NeighborQueryPerPointIterator> const ball_it
                 = std::make_shared<AABBQueryBallIterator>(static_cast<const AABBQuery*>(m_neighbor_query),
                                                           m_query_point, m_query_point_idx,
-                                                          std::min(m_r_cur, m_r_max), 0, m_exclude_ii, false);
+                                                          r_search, 0, m_exclude_ii, false);
             while (!ball_it->end())
             {
                 NeighborBond nb = ball_it->next();
@@ -228,7 +242,7 @@ NeighborBond AABBQueryIterator::next()
                 break;
             }
 
-            if ((m_r_cur >= m_r_max) || (m_r_cur >= max_plane_distance)
+            if ((r_search >= m_r_max) || (r_search >= max_plane_distance)
                 || ((m_all_bonds_minimum_distance.size() - m_query_points_below_r_min.size())
                     >= m_num_neighbors))
             {
@@ -246,20 +260,6 @@ NeighborBond AABBQueryIterator::next()
                 std::sort(m_current_neighbors.begin(), m_current_neighbors.end());
                 break;
             }
-
-            if (m_r_cur > min_plane_distance / 2)
-            {
-                // If we have to go beyond the cutoff radius, we need to
-                // start tracking what particles are already in the set so
-                // that we can make sure that we find the closest image
-                // because we now run the risk of finding duplicates.
-                //
-                // We could make this marginally more efficient by checking
-                // whether we've exactly hit the limit, or if there's a
-                // rescaling that would let us try the exact limit once
-                // before going beyond the min plane distance.
-                m_search_extended = true;
-            }
         }
     }
 
-- 
2.43.0


From cdd611d73d5393c0e9a3d33804ef9a35920d5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 10/63] fix: LinkCell put points on the lower box faces in the
 wrong cell

---
 freud/locality/LinkCell.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 1d2cb9e..9992d6c 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -357,12 +357,15 @@ vec3<unsigned int> LinkCell::getCellCoord(const vec3<float>& p) const
 {
     vec3<float> const alpha = m_box.makeFractional(p);
     vec3<unsigned int> c;
-    c.x = (unsigned int) std::floor(alpha.x * float(m_celldim.x));
-    c.x %= m_celldim.x;
-    c.y = (unsigned int) std::floor(alpha.y * float(m_celldim.y));
-    c.y %= m_celldim.y;
-    c.z = (unsigned int) std::floor(alpha.z * float(m_celldim.z));
-    c.z %= m_celldim.z;
+    // Rounding can place points on the box faces at slightly negative fractional
+    // coordinates, which have to be wrapped before the conversion to unsigned.
+    const auto wrap_cell = [](float fraction, unsigned int dim) {
+        return static_cast<unsigned int>(
+            util::modulusPositive(std::floor(fraction * float(dim)), float(dim)));
+    };
+    c.x = wrap_cell(alpha.x, m_celldim.x);
+    c.y = wrap_cell(alpha.y, m_celldim.y);
+    c.z = wrap_cell(alpha.z, m_celldim.z);
     return c;
 }
 
-- 
2.43.0


From 7bbff4e181c4d068bae916bc1eca9da19d934150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:56 +0000
Subject: [PATCH 11/63] fix: Box.get_images gave image -1 to points on the
 lower faces, unlike wrap

---
 freud/box/Box.h | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 7578ba5..a726123 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -275,14 +275,12 @@ public:
      */
     void getImage(const vec3<float>& v, vec3<int>& image) const
     {
-        vec3<float> f = makeFractional(v) - vec3<float>(0.5, 0.5, 0.5);
-        if (m_2d)
-        {
-            f.z = float(0.0);
-        }
-        image.x = (int) ((f.x >= float(0.0)) ? f.x + float(0.5) : f.x - float(0.5));
-        image.y = (int) ((f.y >= float(0.0)) ? f.y + float(0.5) : f.y - float(0.5));
-        image.z = (int) ((f.z >= float(0.0)) ? f.z + float(0.5) : f.z - float(0.5));
+        vec3<float> const f = makeFractional(v);
+        // The image is the lattice translation that wrap() removes, so that unwrapping a wrapped vector
+        // recovers it even for vectors on (or within rounding of) a face of the box.
+        image.x = (int) std::lround(f.x - util::modulusPositive(f.x, float(1.0)));
+        image.y = (int) std::lround(f.y - util::modulusPositive(f.y, float(1.0)));
+        image.z = m_2d ? 0 : (int) std::lround(f.z - util::modulusPositive(f.z, float(1.0)));
     }
 
     //! Get the periodic image vectors belongs to
-- 
2.43.0


From bf4bcdce9754a23293e310940191d8a0af288239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 12/63] fix: setting Box.dimensions left stale z bounds in 2D
 and zeroed Lz in 3D

---
 freud/box/Box.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index a726123..1b82126 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -118,8 +118,11 @@ public:
     void set2D(bool _2d)
     {
         m_2d = _2d;
-        m_L.z = 0;
-        m_Linv.z = 0;
+        if (m_2d)
+        {
+            // Also updates the bounds of the box, which must lie at z = 0.
+            setL(m_L.x, m_L.y, 0);
+        }
     }
 
     //! Returns whether box is two dimensional
-- 
2.43.0


From 08702b5b87e66cd8554d104d85b1c911d4b2494f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:47 +0000
Subject: [PATCH 13/63] fix: copying or scaling a Box dropped its periodicity

---
 freud/box.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/freud/box.py b/freud/box.py
index 8280930..414b5ba 100644
--- a/freud/box.py
+++ b/freud/box.py
@@ -699,7 +699,7 @@ class Box:  # noqa: PLW1641
 
     def __mul__(self, scale):
         if scale > 0:
-            return self.__class__(
+            scaled = self.__class__(
                 Lx=self.Lx * scale,
                 Ly=self.Ly * scale,
                 Lz=self.Lz * scale,
@@ -708,6 +708,8 @@ class Box:  # noqa: PLW1641
                 yz=self.yz,
                 is2D=self.is2D,
             )
+            scaled.periodic = self.periodic.tolist()
+            return scaled
         msg = "Box can only be multiplied by positive values."
         raise ValueError(msg)
 
@@ -840,7 +842,10 @@ class Box:  # noqa: PLW1641
         if dimensions is None:
             dimensions = 2 if Lz == 0 else 3
         is2D = dimensions == 2
-        return cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        new_box = cls(Lx=Lx, Ly=Ly, Lz=Lz, xy=xy, xz=xz, yz=yz, is2D=is2D)
+        if isinstance(box, freud.box.Box):
+            new_box.periodic = box.periodic.tolist()
+        return new_box
 
     @classmethod
     def from_matrix(cls, box_matrix, dimensions=None):
-- 
2.43.0


From b09244b752725b209f40a48b89eb749d84c62bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:26 +0000
Subject: [PATCH 14/63] fix: ClusterProperties weighted each cluster with the
 wrong points' masses

---
 freud/cluster.py                   |  2 +-
 freud/cluster/ClusterProperties.cc | 15 ++++-----------
 2 files changed, 5 insertions(+), 12 deletions(-)

diff --git a/freud/cluster.py b/freud/cluster.py
index aedb75c..ec9907c 100644
--- a/freud/cluster.py
+++ b/freud/cluster.py
@@ -180,7 +180,7 @@ class ClusterProperties(_Compute):
             cluster_idx, shape=(nq.points.shape[0],), dtype=np.uint32
         )
         if masses is not None:
-            masses = freud.util._convert_array(masses, shape=(len(masses),))
+            masses = freud.util._convert_array(masses, shape=(nq.points.shape[0],))
         self._cpp_obj.compute(nq._cpp_obj, cluster_idx, masses)
         return self
 
diff --git a/freud/cluster/ClusterProperties.cc b/freud/cluster/ClusterProperties.cc
index 0274e3d..c4ae9d0 100644
--- a/freud/cluster/ClusterProperties.cc
+++ b/freud/cluster/ClusterProperties.cc
@@ -44,8 +44,9 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
     m_cluster_sizes = std::make_shared<util::ManagedArray<unsigned int>>(num_clusters);
     m_cluster_masses = std::make_shared<util::ManagedArray<float>>(num_clusters);
 
-    // Create a vector to store cluster points, used to compute center of mass
+    // Create vectors to store cluster points and masses, used to compute center of mass
     std::vector<std::vector<vec3<float>>> cluster_points(num_clusters, std::vector<vec3<float>>());
+    std::vector<std::vector<float>> cluster_point_masses(num_clusters, std::vector<float>());
 
     // Start by determining the center of mass of each cluster. Since we are
     // given an array of points, the easiest way to do this is to loop over
@@ -57,24 +58,16 @@ void ClusterProperties::compute(const std::shared_ptr<locality::NeighborQuery>&
         cluster_points[c].push_back((*nq)[i]);
         (*m_cluster_sizes)[c]++;
         float const mass = (masses != nullptr) ? masses[i] : float(1.0);
+        cluster_point_masses[c].push_back(mass);
         (*m_cluster_masses)[c] += mass;
     }
 
     // Now that we have located all of the cluster vectors, compute the centers
-    const float* cluster_point_masses = masses;
     for (unsigned int c = 0; c < num_clusters; c++)
     {
         (*m_cluster_centers)[c] = nq->getBox().centerOfMass(cluster_points[c].data(), (*m_cluster_sizes)[c]);
         (*m_cluster_centers_of_mass)[c] = nq->getBox().centerOfMass(
-            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses);
-        if (masses == nullptr)
-        {
-            cluster_point_masses = nullptr;
-        }
-        else
-        {
-            cluster_point_masses = cluster_point_masses + (*m_cluster_sizes)[c];
-        }
+            cluster_points[c].data(), (*m_cluster_sizes)[c], cluster_point_masses[c].data());
     }
 
     // Now that we have determined the centers of mass for each cluster, tally
-- 
2.43.0


From 0fb813becc8f7a106e073e56d8d20d3e0d449e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:30 +0000
Subject: [PATCH 15/63] fix: GaussianDensity skipped cells within r_max and
 counted others twice

---
 freud/density/GaussianDensity.cc | 42 +++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index d28b667..feef395 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <cstddef>
 #include <memory>
@@ -81,10 +82,11 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins that can have their center within r_max
+    const int bin_cut_x = int(m_r_max / grid_size_x) + 1;
+    const int bin_cut_y = int(m_r_max / grid_size_y) + 1;
+    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z) + 1;
+    const vec3<int> width(int(m_width.x), int(m_width.y), int(m_width.z));
     const float r_max_sq = m_r_max * m_r_max;
     const float sigmasq = m_sigma * m_sigma;
     const float normalization_base = float(1.0) / std::sqrt(constants::TWO_PI * sigmasq);
@@ -101,17 +103,29 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
             // Find which bin the particle is in
             const int bin_x = int((point.x + Lx / float(2.0)) / grid_size_x);
             const int bin_y = int((point.y + Ly / float(2.0)) / grid_size_y);
-            int bin_z = int((point.z + Lz / float(2.0)) / grid_size_z);
-
             // In 2D, only loop over the z=0 plane
-            if (m_box.is2D())
+            const int bin_z = m_box.is2D() ? 0 : int((point.z + Lz / float(2.0)) / grid_size_z);
+
+            // In periodic directions, bins repeat after the grid width and each may be visited only once
+            int last_x = bin_x + bin_cut_x;
+            int last_y = bin_y + bin_cut_y;
+            int last_z = bin_z + bin_cut_z;
+            if (periodic.x)
+            {
+                last_x = std::min(last_x, bin_x - bin_cut_x + width.x - 1);
+            }
+            if (periodic.y)
+            {
+                last_y = std::min(last_y, bin_y - bin_cut_y + width.y - 1);
+            }
+            if (periodic.z)
             {
-                bin_z = 0;
+                last_z = std::min(last_z, bin_z - bin_cut_z + width.z - 1);
             }
 
             // Reject bins that are outside the box in aperiodic directions
             // Only evaluate over bins that are within the cutoff
-            for (int k = bin_z - bin_cut_z; k <= bin_z + bin_cut_z; k++)
+            for (int k = bin_z - bin_cut_z; k <= last_z; k++)
             {
                 if (!periodic.z && (k < 0 || k >= int(m_width.z)))
                 {
@@ -120,7 +134,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                 const float dz = (grid_size_z * static_cast<float>(k)) + (grid_size_z / float(2.0)) - point.z
                     - (Lz / float(2.0));
 
-                for (int j = bin_y - bin_cut_y; j <= bin_y + bin_cut_y; j++)
+                for (int j = bin_y - bin_cut_y; j <= last_y; j++)
                 {
                     if (!periodic.y && (j < 0 || j >= int(m_width.y)))
                     {
@@ -129,7 +143,7 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
                     const float dy = (grid_size_y * static_cast<float>(j)) + (grid_size_y / float(2.0))
                         - point.y - (Ly / float(2.0));
 
-                    for (int i = bin_x - bin_cut_x; i <= bin_x + bin_cut_x; i++)
+                    for (int i = bin_x - bin_cut_x; i <= last_x; i++)
                     {
                         if (!periodic.x && (i < 0 || i >= int(m_width.x)))
                         {
@@ -152,9 +166,9 @@ void GaussianDensity::compute(const freud::locality::NeighborQuery* nq, const fl
 
                             // Assure that out of range indices are corrected for storage
                             // in the array i.e. bin -1 is actually bin 29 for nbins = 30
-                            const auto ni = float((i + m_width.x) % m_width.x);
-                            const auto nj = float((j + m_width.y) % m_width.y);
-                            const auto nk = float((k + m_width.z) % m_width.z);
+                            const size_t ni = ((i % width.x) + width.x) % width.x;
+                            const size_t nj = ((j % width.y) + width.y) % width.y;
+                            const size_t nk = ((k % width.z) + width.z) % width.z;
 
                             // Store the gaussian contribution
                             local_bin_counts.local()(ni, nj, nk) += gaussian;
-- 
2.43.0


From d18ca97c6fb6a293aebf6629c91d0f174d360897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 16/63] fix: SphereVoxelization skipped voxels within r_max

---
 freud/density/SphereVoxelization.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index a50cdef..3420143 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -77,10 +77,11 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
     const float grid_size_y = Ly / static_cast<float>(m_width.y);
     const float grid_size_z = m_box.is2D() ? 0 : Lz / static_cast<float>(m_width.z);
 
-    // Find the number of bins within r_max
-    const int bin_cut_x = int(m_r_max / grid_size_x);
-    const int bin_cut_y = int(m_r_max / grid_size_y);
-    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z);
+    // Find the number of bins that can have their center within r_max
+    const int bin_cut_x = int(m_r_max / grid_size_x) + 1;
+    const int bin_cut_y = int(m_r_max / grid_size_y) + 1;
+    const int bin_cut_z = m_box.is2D() ? 0 : int(m_r_max / grid_size_z) + 1;
+    const vec3<int> width(int(m_width.x), int(m_width.y), int(m_width.z));
     const float r_max_sq = m_r_max * m_r_max;
 
     util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
@@ -133,9 +134,9 @@ void SphereVoxelization::compute(const std::shared_ptr<locality::NeighborQuery>&
                         {
                             // Assure that out of range indices are corrected for storage
                             // in the array i.e. bin -1 is actually bin 29 for nbins = 30
-                            const unsigned int ni = (i + m_width.x) % m_width.x;
-                            const unsigned int nj = (j + m_width.y) % m_width.y;
-                            const unsigned int nk = (k + m_width.z) % m_width.z;
+                            const size_t ni = ((i % width.x) + width.x) % width.x;
+                            const size_t nj = ((j % width.y) + width.y) % width.y;
+                            const size_t nk = ((k % width.z) + width.z) % width.z;
 
                             // This array value could be written by multiple threads in parallel.
                             // This is only safe because all threads are writing the same value (1).
-- 
2.43.0


From 46a2b5619b38ecb790fe9d176229ff76ed13c99f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 17/63] fix: LocalDensity subtracted neighbors outside r_max
 and divided by zero diameters

---
 freud/density/LocalDensity.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/density/LocalDensity.cc b/freud/density/LocalDensity.cc
index 8a09dce..af82384 100644
--- a/freud/density/LocalDensity.cc
+++ b/freud/density/LocalDensity.cc
@@ -60,7 +60,7 @@ void LocalDensity::compute(const std::shared_ptr<locality::NeighborQuery>& neigh
                 {
                     num_neighbors += float(1.0);
                 }
-                else
+                else if (nb.getDistance() < (m_r_max + m_diameter / float(2.0)))
                 {
                     // partially count particles that intersect the r_max sphere
                     // this is not particularly accurate for a single particle, but works well on average for
-- 
2.43.0


From 58277596d7cadbd7d2db5c1d4834a22822ed3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 18/63] fix: AngularSeparationNeighbor swapped points and query
 points

---
 freud/environment/AngularSeparation.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/freud/environment/AngularSeparation.cc b/freud/environment/AngularSeparation.cc
index dbe4fb1..85d431d 100644
--- a/freud/environment/AngularSeparation.cc
+++ b/freud/environment/AngularSeparation.cc
@@ -73,19 +73,19 @@ void AngularSeparationNeighbor::compute(const std::shared_ptr<locality::Neighbor
     const size_t tot_num_neigh = m_nlist->getNumBonds();
     m_angles = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {tot_num_neigh});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         size_t bond(m_nlist->find_first_index(begin));
         for (size_t i = begin; i < end; ++i)
         {
-            const quat<float> q = orientations[i];
+            const quat<float> query_q = query_orientations[i];
 
             for (; bond < tot_num_neigh && (*m_nlist->getNeighbors())(bond, 0) == i; ++bond)
             {
                 const size_t j((*m_nlist->getNeighbors())(bond, 1));
-                const quat<float> query_q = query_orientations[j];
+                const quat<float> q = orientations[j];
 
                 const float theta
-                    = computeMinSeparationAngle(q, query_q, equiv_orientations, n_equiv_orientations);
+                    = computeMinSeparationAngle(query_q, q, equiv_orientations, n_equiv_orientations);
                 (*m_angles)[bond] = theta;
             }
         }
-- 
2.43.0


From 68183c0e4298f36dd281e1df72cd29397d82421c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 19/63] fix: BondOrder dropped bonds pointing along -z

---
 freud/environment/BondOrder.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/freud/environment/BondOrder.cc b/freud/environment/BondOrder.cc
index f65e43c..f52848c 100644
--- a/freud/environment/BondOrder.cc
+++ b/freud/environment/BondOrder.cc
@@ -1,6 +1,7 @@
 // Copyright (c) 2010-2026 The Regents of the University of Michigan
 // This file is from the freud project, released under the BSD 3-Clause License.
 
+#include <algorithm>
 #include <cmath>
 #include <stdexcept>
 #ifdef __SSE2__
@@ -143,7 +144,9 @@ void BondOrder::accumulate(const std::shared_ptr<locality::NeighborQuery>& neigh
                           theta = util::modulusPositive(theta, constants::TWO_PI);
 
                           // NOTE that the below has replaced the commented out expression for phi.
-                          const float phi = std::acos(v.z / std::sqrt(dot(v, v))); // 0..Pi
+                          // The last bin includes Pi, so that bonds along -z are counted.
+                          const float phi = std::min(std::acos(v.z / std::sqrt(dot(v, v))),
+                                                     std::nextafter(float(M_PI), float(0.0))); // 0..Pi
 
                           m_local_histograms(theta, phi);
                       });
-- 
2.43.0


From 3ee4382d1f6b4df5ab132e6065679d746fce926b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:17 +0000
Subject: [PATCH 20/63] fix: RotationalAutocorrelation overflowed its
 factorials for l >= 10

---
 freud/order/RotationalAutocorrelation.cc | 47 ++++++++++++------------
 freud/order/RotationalAutocorrelation.h  |  8 ++--
 2 files changed, 27 insertions(+), 28 deletions(-)

diff --git a/freud/order/RotationalAutocorrelation.cc b/freud/order/RotationalAutocorrelation.cc
index 82cc4d8..aa48a56 100644
--- a/freud/order/RotationalAutocorrelation.cc
+++ b/freud/order/RotationalAutocorrelation.cc
@@ -23,13 +23,13 @@ namespace freud { namespace order {
 // serves as a micro-optimization since std::pow can be slow. We can take the
 // exponent to be an unsigned int since all the sums in the hyperspherical
 // harmonic below guarantee this.
-inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
+inline std::complex<double> cpow(std::complex<double> base, unsigned int p)
 {
     if (p == 0)
     {
         return {1, 0};
     }
-    std::complex<float> val(base);
+    std::complex<double> val(base);
     for (unsigned int i = 1; i < p; i++)
     {
         val *= base;
@@ -37,21 +37,20 @@ inline std::complex<float> cpow(std::complex<float> base, unsigned int p)
     return val;
 }
 
-inline std::complex<float> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<float> xi,
-                                                                           std::complex<float> zeta,
-                                                                           const unsigned int m1,
-                                                                           const unsigned int m2)
+inline std::complex<double> RotationalAutocorrelation::hypersphere_harmonic(const std::complex<double> xi,
+                                                                            std::complex<double> zeta,
+                                                                            const unsigned int m1,
+                                                                            const unsigned int m2)
 {
-    const std::complex<float> xi_conj = std::conj(xi);
-    const std::complex<float> zeta_conj = std::conj(zeta);
+    const std::complex<double> xi_conj = std::conj(xi);
+    const std::complex<double> zeta_conj = std::conj(zeta);
 
     // Doing a summation over non-negative exponents, which requires the additional inner conditional.
-    std::complex<float> sum_tracker(0, 0);
+    std::complex<double> sum_tracker(0, 0);
     for (unsigned int k = (m1 + m2 < m_l ? 0 : m1 + m2 - m_l); k <= std::min(m1, m2); k++)
     {
-        const float fact_product = static_cast<float>((*m_factorials)[k])
-            * static_cast<float>((*m_factorials)[m_l + k - m1 - m2])
-            * static_cast<float>((*m_factorials)[m1 - k]) * static_cast<float>((*m_factorials)[m2 - k]);
+        const double fact_product = (*m_factorials)[k] * (*m_factorials)[m_l + k - m1 - m2]
+            * (*m_factorials)[m1 - k] * (*m_factorials)[m2 - k];
         sum_tracker += cpow(xi_conj, k) * cpow(zeta, m2 - k) * cpow(zeta_conj, m1 - k)
             * cpow(-xi, m_l + k - m1 - m2) / fact_product;
     }
@@ -67,18 +66,17 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
     // default quaternion constructor gives a unit quaternion. We will assume
     // the same iteration order here as in the loop below to save ourselves
     // from having to use a more expensive process (i.e. a map).
-    const std::complex<float> xi = std::complex<float>(0, 0);
-    const std::complex<float> zeta = std::complex<float>(0, 1);
-    std::vector<std::complex<float>> unit_harmonics;
-    std::vector<std::vector<float>> prefactors(m_l + 1, std::vector<float>(m_l + 1, float(0)));
+    const std::complex<double> xi = std::complex<double>(0, 0);
+    const std::complex<double> zeta = std::complex<double>(0, 1);
+    std::vector<std::complex<double>> unit_harmonics;
+    std::vector<std::vector<double>> prefactors(m_l + 1, std::vector<double>(m_l + 1, double(0)));
     for (unsigned int a = 0; a <= m_l; a++)
     {
         for (unsigned int b = 0; b <= m_l; b++)
         {
             unit_harmonics.push_back(std::conj(hypersphere_harmonic(xi, zeta, a, b)));
-            prefactors[a][b] = static_cast<float>((*m_factorials)[a] * (*m_factorials)[m_l - a]
-                                                  * (*m_factorials)[b] * (*m_factorials)[m_l - b])
-                / (static_cast<float>(m_l + 1));
+            prefactors[a][b] = (*m_factorials)[a] * (*m_factorials)[m_l - a] * (*m_factorials)[b]
+                * (*m_factorials)[m_l - b] / (static_cast<double>(m_l + 1));
         }
     }
 
@@ -88,22 +86,23 @@ void RotationalAutocorrelation::compute(const quat<float>* ref_orientations, con
         {
             // Transform the orientation quaternions into Xi/Zeta coordinates;
             const quat<float> qq_1 = conj(ref_orientations[i]) * orientations[i];
-            const std::complex<float> xi = std::complex<float>(qq_1.v.x, qq_1.v.y);
-            const std::complex<float> zeta = std::complex<float>(qq_1.v.z, qq_1.s);
+            const std::complex<double> xi = std::complex<double>(qq_1.v.x, qq_1.v.y);
+            const std::complex<double> zeta = std::complex<double>(qq_1.v.z, qq_1.s);
 
             // Loop through the valid quantum numbers.
-            (*m_RA_array)[i] = std::complex<float>(0, 0);
+            std::complex<double> sum(0, 0);
             unsigned int uh_index = 0;
             for (unsigned int a = 0; a <= m_l; a++)
             {
                 for (unsigned int b = 0; b <= m_l; b++)
                 {
-                    const std::complex<float> combined_value
+                    const std::complex<double> combined_value
                         = unit_harmonics[uh_index] * hypersphere_harmonic(xi, zeta, a, b);
-                    (*m_RA_array)[i] += prefactors[a][b] * combined_value;
+                    sum += prefactors[a][b] * combined_value;
                     uh_index += 1;
                 }
             }
+            (*m_RA_array)[i] = std::complex<float>(sum);
         }
     });
 
diff --git a/freud/order/RotationalAutocorrelation.h b/freud/order/RotationalAutocorrelation.h
index e15f958..8a25aa7 100644
--- a/freud/order/RotationalAutocorrelation.h
+++ b/freud/order/RotationalAutocorrelation.h
@@ -56,7 +56,7 @@ public:
     {
         // For efficiency, we precompute all required factorials for use during
         // the per-particle computation.
-        m_factorials = std::make_shared<util::ManagedArray<unsigned int>>(m_l + 1);
+        m_factorials = std::make_shared<util::ManagedArray<double>>(m_l + 1);
         (*m_factorials)[0] = 1;
         for (unsigned int i = 1; i <= m_l; i++)
         {
@@ -116,14 +116,14 @@ private:
      *  method to access the cached factorial values for the class's value of
      *  m_l.
      */
-    std::complex<float> hypersphere_harmonic(const std::complex<float> xi, std::complex<float> zeta,
-                                             const unsigned int m1, const unsigned int m2);
+    std::complex<double> hypersphere_harmonic(const std::complex<double> xi, std::complex<double> zeta,
+                                              const unsigned int m1, const unsigned int m2);
 
     unsigned int m_l; //!< Order of the hyperspherical harmonic.
     float m_Ft {0};   //!< Real value of calculated RA function.
 
     std::shared_ptr<util::ManagedArray<std::complex<float>>> m_RA_array; //!< Array of RA values per particle
-    std::shared_ptr<util::ManagedArray<unsigned int>> m_factorials;      //!< Array of cached factorials
+    std::shared_ptr<util::ManagedArray<double>> m_factorials;            //!< Array of cached factorials
 };
 
 }; }; // end namespace freud::order
-- 
2.43.0


From 931a16d20acbfd5cf56ac179121de5408ff52322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 21/63] fix: Cubatic results depended on how replicates were
 split over threads

---
 freud/order/Cubatic.cc | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index 854de27..b02249b 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -260,20 +260,19 @@ void Cubatic::compute(const quat<float>* orientations, unsigned int num_orientat
     util::ManagedArray<quat<float>> p_cubatic_orientation(m_n_replicates);
 
     util::forLoopWrapper(0, m_n_replicates, [&](size_t begin, size_t end) {
-        // create thread-specific rng
-        const auto thread_start = static_cast<unsigned int>(begin);
-
-        std::vector<unsigned int> seed_seq(3);
-        seed_seq[0] = m_seed;
-        seed_seq[1] = thread_start;
-        seed_seq[2] = 0xffaabb;
-        std::seed_seq seed(seed_seq.begin(), seed_seq.end());
-        std::mt19937 rng(seed);
-        std::uniform_real_distribution<float> base_dist(0, 1);
-        auto dist = [&]() { return base_dist(rng); };
-
         for (size_t i = begin; i < end; i++)
         {
+            // create replicate-specific rng, so that results do not depend on how the replicates are
+            // distributed over threads
+            std::vector<unsigned int> seed_seq(3);
+            seed_seq[0] = m_seed;
+            seed_seq[1] = static_cast<unsigned int>(i);
+            seed_seq[2] = 0xffaabb;
+            std::seed_seq seed(seed_seq.begin(), seed_seq.end());
+            std::mt19937 rng(seed);
+            std::uniform_real_distribution<float> base_dist(0, 1);
+            auto dist = [&]() { return base_dist(rng); };
+
             // need to generate random orientation
             quat<float> cubatic_orientation = calcRandomQuaternion(dist);
             quat<float> new_orientation = cubatic_orientation;
-- 
2.43.0


From 49b9d669b830ab93b73e44e86ee213d975605641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:03 +0000
Subject: [PATCH 22/63] fix: neighbor lists of other sizes than the points were
 read out of bounds

---
 freud/locality/NeighborComputeFunctional.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/locality/NeighborComputeFunctional.h b/freud/locality/NeighborComputeFunctional.h
index d43cb37..9759058 100644
--- a/freud/locality/NeighborComputeFunctional.h
+++ b/freud/locality/NeighborComputeFunctional.h
@@ -118,6 +118,7 @@ void loopOverNeighborsIterator(const std::shared_ptr<NeighborQuery>& neighbor_qu
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, n_query_points,
             [&](size_t begin, size_t end) {
@@ -179,6 +180,7 @@ void loopOverNeighbors(const std::shared_ptr<NeighborQuery>& neighbor_query, con
     // check if nlist exists
     if (nlist != nullptr)
     {
+        nlist->validate(n_query_points, neighbor_query->getNPoints());
         util::forLoopWrapper(
             0, nlist->getNumBonds(),
             [&](size_t begin, size_t end) {
-- 
2.43.0


From 3c45530739b44558a36575558c42d0990a1302f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 23/63] fix: NeighborList.filter read past the end of masks of
 the wrong length

---
 freud/locality.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freud/locality.py b/freud/locality.py
index 8abc16d..0bb2a5a 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -720,6 +720,9 @@ class NeighborList:
             nlist.filter(types[nlist.query_point_indices] != types[nlist.point_indices])
         """  # E501
         filt = np.ascontiguousarray(filt, dtype=bool)
+        if filt.shape != (len(self),):
+            msg = f"The filter must contain one value per bond ({len(self)})."
+            raise ValueError(msg)
         self._cpp_obj.filter(filt)
         return self
 
-- 
2.43.0


From 68f2f68f4973e848b2051e23f47b8b77f1e7eecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:23 +0000
Subject: [PATCH 24/63] fix: per-particle arrays of the wrong length were read
 out of bounds

---
 freud/density.py     | 11 +++++------
 freud/environment.py | 11 ++++++-----
 freud/pmft.py        | 14 ++++++--------
 3 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/freud/density.py b/freud/density.py
index 4bb870c..4292216 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -119,12 +119,11 @@ class CorrelationFunction(_SpatialHistogram1D):
         )
         if query_values is None:
             query_values = values
-        else:
-            query_values = freud.util._convert_array(
-                query_values,
-                shape=(l_query_points.shape[0],),
-                dtype=np.complex128,
-            )
+        query_values = freud.util._convert_array(
+            query_values,
+            shape=(l_query_points.shape[0],),
+            dtype=np.complex128,
+        )
         self._cpp_obj.accumulate(
             nq._cpp_obj,
             values,
diff --git a/freud/environment.py b/freud/environment.py
index edb2681..130ca21 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -102,10 +102,9 @@ class AngularSeparationNeighbor(_PairCompute):
         )
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = freud.util._convert_array(
-                query_orientations, shape=(query_points.shape[0], 4)
-            )
+        query_orientations = freud.util._convert_array(
+            query_orientations, shape=(query_points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
@@ -1055,7 +1054,9 @@ class LocalBondProjection(_PairCompute):
             system, query_points, neighbors
         )
 
-        orientations = freud.util._convert_array(orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(
+            orientations, shape=(nq.points.shape[0], 4)
+        )
 
         equiv_orientations = freud.util._convert_array(
             equiv_orientations, shape=(None, 4)
diff --git a/freud/pmft.py b/freud/pmft.py
index 420c751..fb1ca5e 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -198,10 +198,9 @@ class PMFTR12(_PMFT):
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = _gen_angle_array(
-                query_orientations, shape=(query_points.shape[0],)
-            )
+        query_orientations = _gen_angle_array(
+            query_orientations, shape=(query_points.shape[0],)
+        )
 
         self._cpp_obj.accumulate(
             nq._cpp_obj,
@@ -300,10 +299,9 @@ class PMFTXYT(_PMFT):
         orientations = _gen_angle_array(orientations, shape=(nq.points.shape[0],))
         if query_orientations is None:
             query_orientations = orientations
-        else:
-            query_orientations = _gen_angle_array(
-                query_orientations, shape=(query_points.shape[0],)
-            )
+        query_orientations = _gen_angle_array(
+            query_orientations, shape=(query_points.shape[0],)
+        )
 
         self._cpp_obj.accumulate(
             nq._cpp_obj,
-- 
2.43.0


From 7a08bf9c00c23addf87a30519fb2269d5cb87fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:11 +0000
Subject: [PATCH 25/63] fix: RDF allocated bins^3 shell volumes, exhausting
 memory for fine bins

---
 freud/density/RDF.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/freud/density/RDF.cc b/freud/density/RDF.cc
index b072d7d..2c20c85 100644
--- a/freud/density/RDF.cc
+++ b/freud/density/RDF.cc
@@ -49,8 +49,8 @@ RDF::RDF(unsigned int bins, float r_max, float r_min) : BondHistogramCompute()
     m_N_r = std::make_shared<util::ManagedArray<float>>(m_histogram.shape());
 
     // Precompute the cell volumes to speed up later calculations.
-    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins});
-    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins, bins, bins});
+    m_vol_array2D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
+    m_vol_array3D = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {bins});
     const float volume_prefactor = (float(4.0) / float(3.0)) * M_PI;
     std::vector<float> bin_boundaries = getBinEdges()[0];
 
-- 
2.43.0


From 76302b002c70b4a9d0d29a1fa5bb729e55ac84d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:58 +0000
Subject: [PATCH 26/63] fix: queries without query points read a query point
 out of bounds

---
 freud/locality/NeighborQuery.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/freud/locality/NeighborQuery.h b/freud/locality/NeighborQuery.h
index fc83024..6b98111 100644
--- a/freud/locality/NeighborQuery.h
+++ b/freud/locality/NeighborQuery.h
@@ -370,6 +370,11 @@ public:
         : m_neighbor_query(neighbor_query), m_query_points(query_points),
           m_num_query_points(num_query_points), m_qargs(qargs)
     {
+        if (m_num_query_points == 0)
+        {
+            m_finished = true;
+            return;
+        }
         m_iter = this->query(m_cur_p);
     }
 
-- 
2.43.0


From b19a90743811d6586707848a0cd9f7863f6ed22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:26 +0000
Subject: [PATCH 27/63] fix: Cubatic with no replicates read uninitialised
 results

---
 freud/order/Cubatic.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/freud/order/Cubatic.cc b/freud/order/Cubatic.cc
index b02249b..f8ef3b6 100644
--- a/freud/order/Cubatic.cc
+++ b/freud/order/Cubatic.cc
@@ -152,6 +152,10 @@ Cubatic::Cubatic(float t_initial, float t_final, float scale, unsigned int n_rep
     {
         throw std::invalid_argument("Cubatic requires that scale must be between 0 and 1.");
     }
+    if (n_replicates == 0)
+    {
+        throw std::invalid_argument("Cubatic requires that n_replicates must be positive.");
+    }
 
     m_gen_r4_tensor = genR4Tensor();
 
-- 
2.43.0


From ba33da4d2fa99f747c9ec1b7b408bef12222c85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:48 +0000
Subject: [PATCH 28/63] fix: RotationalAutocorrelation rejected lists of
 orientations

---
 freud/order.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/order.py b/freud/order.py
index b6e014c..5ad0803 100644
--- a/freud/order.py
+++ b/freud/order.py
@@ -861,6 +861,8 @@ class RotationalAutocorrelation(_Compute):
         assert len(ref_orientations) == len(orientations), (
             "orientations and ref_orientations must have the same shape."
         )
+        ref_orientations = freud.util._convert_array(ref_orientations, shape=(None, 4))
+        orientations = freud.util._convert_array(orientations, shape=(None, 4))
         self._cpp_obj.compute(ref_orientations, orientations)
         return self
 
-- 
2.43.0


From 55daa84342bd24c439ebc852e605326333744563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:43 +0000
Subject: [PATCH 29/63] fix: CellQuery overflowed its cell count for tiny
 cutoffs and wrote out of bounds

---
 freud/locality/CellQuery.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/locality/CellQuery.cc b/freud/locality/CellQuery.cc
index becbbb3..67bd29d 100644
--- a/freud/locality/CellQuery.cc
+++ b/freud/locality/CellQuery.cc
@@ -7,6 +7,7 @@
 #include "VectorMath.h"
 #include "utils.h"
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <utility>
@@ -77,6 +78,12 @@ void CellQuery::buildGrid(const float r_cut) const
             "CellQuery::buildGrid produced invalid grid dimensions (zero cells in one or more dimensions).");
     }
 
+    // Cells are indexed by unsigned integers, which must not overflow for tiny cutoffs in large boxes
+    if (static_cast<double>(m_nx) * m_ny * m_nz > static_cast<double>(std::numeric_limits<int>::max()))
+    {
+        throw std::runtime_error("The CellQuery r_max is too small for this box (too many cells).");
+    }
+
     const unsigned int n_cells_total = m_nx * m_ny * m_nz;
     // Allocate buffers
     m_counts.assign(n_cells_total, 0);      // Total occupancy of cell
-- 
2.43.0


From 9e4ba790525d9d336677483580d430a01cd1a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:02 +0000
Subject: [PATCH 30/63] fix: NeighborList.sort orders repeated bonds by
 distance, as documented, before weight

---
 freud/locality/NeighborBond.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/freud/locality/NeighborBond.h b/freud/locality/NeighborBond.h
index 78a85d9..bcefc1e 100644
--- a/freud/locality/NeighborBond.h
+++ b/freud/locality/NeighborBond.h
@@ -87,11 +87,11 @@ public:
         {
             return point_idx < n.point_idx;
         }
-        if (weight != n.weight)
+        if (distance != n.distance)
         {
-            return weight < n.weight;
+            return distance < n.distance;
         }
-        return distance < n.distance;
+        return weight < n.weight;
     }
 
     bool less_as_distance(const NeighborBond& n) const
-- 
2.43.0


From ec3672ea275166da732e2ff24eac9508570c63c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:17 +0000
Subject: [PATCH 31/63] fix: CorrelationFunction.bounds raised AttributeError

---
 freud/density/export-CorrelationFunction.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/density/export-CorrelationFunction.cc b/freud/density/export-CorrelationFunction.cc
index a868bd3..14afa76 100644
--- a/freud/density/export-CorrelationFunction.cc
+++ b/freud/density/export-CorrelationFunction.cc
@@ -5,6 +5,7 @@
 #include <memory>
 #include <nanobind/nanobind.h>
 #include <nanobind/ndarray.h>
+#include <nanobind/stl/pair.h>       // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
@@ -54,6 +55,7 @@ void export_CorrelationFunction(nanobind::module_& m)
         .def("getAxisSizes", &CorrelationFunction::getAxisSizes)
         .def("getBinCounts", &CorrelationFunction::getBinCounts)
         .def("getBinEdges", &CorrelationFunction::getBinEdges)
+        .def("getBounds", &CorrelationFunction::getBounds)
         .def("getBox", &CorrelationFunction::getBox)
         .def("getCorrelation", &CorrelationFunction::getCorrelation);
 }
-- 
2.43.0


From 2add69b547537e70901ebda7a0673335740ca745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 32/63] fix: PMFTs accept all quaternions about the z axis,
 also with the identity among them

---
 freud/pmft.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/freud/pmft.py b/freud/pmft.py
index fb1ca5e..db9d9a6 100644
--- a/freud/pmft.py
+++ b/freud/pmft.py
@@ -71,13 +71,16 @@ def _quat_to_z_angle(orientations, num_points):
     ) or (len(orientations.shape) == 2 and orientations.shape[1] == 4)
 
     if is_quat:
-        axes, orientations = rowan.to_axis_angle(orientations)
-        if not (np.allclose(orientations, 0) or np.allclose(axes, [0, 0, 1])):
+        if not np.allclose(rowan.norm(orientations), 1):
+            msg = "Orientations provided as quaternions must be unit quaternions."
+            raise ValueError(msg)
+        if not np.allclose(orientations[..., 1:3], 0, atol=1e-5):
             msg = (
                 "Orientations provided as quaternions "
                 "must represent rotations about the z-axis."
             )
             raise ValueError(msg)
+        orientations = 2 * np.arctan2(orientations[..., 3], orientations[..., 0])
     return orientations
 
 
-- 
2.43.0


From 05f9c7bcc18c38e3a035001c288b0d9afb12edc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:26 +0000
Subject: [PATCH 33/63] fix: DiffractionPattern misplaced peaks for views other
 than the box axes

The box vectors are the columns of the box matrix, and wavevectors
transform with the inverse transpose of the projected box.
---
 freud/diffraction.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 609818b..f25747c 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -588,8 +588,9 @@ class DiffractionPattern(_Compute):
             (2, 2) :class:`numpy.ndarray`:
                 Inverse shear matrix.
         """
-        # Rotate the box matrix by the view orientation.
-        box_matrix = rowan.rotate(view_orientation, box.to_matrix())
+        # Rotate the box vectors (columns of the box matrix) by the view
+        # orientation.
+        box_matrix = rowan.rotate(view_orientation, box.to_matrix().T).T
 
         # Compute normals for each box face.
         # The area of the face is the length of the vector.
@@ -654,8 +655,8 @@ class DiffractionPattern(_Compute):
         # Then shift using ss
         shear_matrix = np.array(
             [
-                [ss[1, 0], ss[0, 0], roll_shift],
-                [ss[1, 1], ss[0, 1], roll_shift],
+                [ss[0, 1], ss[1, 1], roll_shift],
+                [ss[0, 0], ss[1, 0], roll_shift],
                 [0, 0, 1],
             ]
         )
-- 
2.43.0


From aeca442991bb5f520f86fec07557cbf7c3756f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:51 +0000
Subject: [PATCH 34/63] fix: DiffractionPattern.k_vectors rotated against the
 view

Points are rotated into the view frame, so the wavevectors of the view
plane have to be rotated back to be those of the system.
---
 freud/diffraction.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index f25747c..da28cde 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -828,7 +828,9 @@ class DiffractionPattern(_Compute):
         k-vectors."""
         if not self._k_vectors_cached:
             self._k_vectors = (
-                rowan.rotate(self._view_orientation, self._k_vectors_orig)
+                rowan.rotate(
+                    rowan.conjugate(self._view_orientation), self._k_vectors_orig
+                )
                 * self._k_scale_factor
             )
             self._k_vectors_cached = True
-- 
2.43.0


From a6ba7ef2d132c8d7ad13a9e03bf06d5d5ca4f412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 35/63] fix: DiffractionPattern weights given as a list were
 rejected

---
 freud/diffraction.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index da28cde..109a565 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -733,6 +733,9 @@ class DiffractionPattern(_Compute):
 
         # Normalize weights s.t. S(0) = N
         if weights is not None:
+            weights = freud.util._convert_array(
+                weights, shape=(len(system.points),), dtype=np.double
+            )
             weights = weights * len(weights) / np.sum(weights)
 
         # Map positions to [0, 1] and compute a histogram "image"
-- 
2.43.0


From e186558a41f5b241ce16a6555d958df75da56bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 36/63] fix: read-only arrays were rejected by LocalDensity,
 AngularSeparationNeighbor and LocalBondProjection

---
 freud/density/export-LocalDensity.cc             |  4 ++--
 .../export-AngularSeparationNeighbor.cc          | 16 ++++++++--------
 freud/environment/export-LocalBondProjection.cc  | 16 ++++++++--------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/freud/density/export-LocalDensity.cc b/freud/density/export-LocalDensity.cc
index 55e5bcf..3318b4b 100644
--- a/freud/density/export-LocalDensity.cc
+++ b/freud/density/export-LocalDensity.cc
@@ -20,11 +20,11 @@ namespace wrap {
 
 void computeLocalDensity(const std::shared_ptr<LocalDensity>& self,
                          const std::shared_ptr<locality::NeighborQuery>& points,
-                         nb_array<float, nanobind::shape<-1, 3>>& query_points,
+                         nb_array<const float, nanobind::shape<-1, 3>>& query_points,
                          const unsigned int num_query_points, std::shared_ptr<locality::NeighborList>& nlist,
                          const locality::QueryArgs& qargs)
 {
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
+    const auto* const query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
     self->compute(points, query_points_data, num_query_points, nlist, qargs);
 }
 
diff --git a/freud/environment/export-AngularSeparationNeighbor.cc b/freud/environment/export-AngularSeparationNeighbor.cc
index b846697..7f138fc 100644
--- a/freud/environment/export-AngularSeparationNeighbor.cc
+++ b/freud/environment/export-AngularSeparationNeighbor.cc
@@ -23,16 +23,16 @@ namespace wrap {
 
 void compute(std::shared_ptr<AngularSeparationNeighbor>& angular_separation,
              const std::shared_ptr<locality::NeighborQuery>& nq,
-             nb_array<float, nanobind::shape<-1, 4>>& orientations,
-             nb_array<float, nanobind::shape<-1, 3>>& query_points,
-             nb_array<float, nanobind::shape<-1, 4>>& query_orientations,
-             nb_array<float, nanobind::shape<-1, 4>>& equiv_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& orientations,
+             nb_array<const float, nanobind::shape<-1, 3>>& query_points,
+             nb_array<const float, nanobind::shape<-1, 4>>& query_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& equiv_orientations,
              const std::shared_ptr<locality::NeighborList>& nlist, const locality::QueryArgs& qargs)
 {
-    auto* orientations_data = reinterpret_cast<quat<float>*>(orientations.data());
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
-    auto* query_orientations_data = reinterpret_cast<quat<float>*>(query_orientations.data());
-    auto* equiv_orientations_data = reinterpret_cast<quat<float>*>(equiv_orientations.data());
+    const auto* const orientations_data = reinterpret_cast<const quat<float>*>(orientations.data());
+    const auto* const query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
+    const auto* const query_orientations_data = reinterpret_cast<const quat<float>*>(query_orientations.data());
+    const auto* const equiv_orientations_data = reinterpret_cast<const quat<float>*>(equiv_orientations.data());
     const unsigned int n_equiv_orientations = equiv_orientations.shape(0);
     const unsigned int n_query_points = query_orientations.shape(0);
     angular_separation->compute(nq, orientations_data, query_points_data, query_orientations_data,
diff --git a/freud/environment/export-LocalBondProjection.cc b/freud/environment/export-LocalBondProjection.cc
index 4dca8b8..7734438 100644
--- a/freud/environment/export-LocalBondProjection.cc
+++ b/freud/environment/export-LocalBondProjection.cc
@@ -23,16 +23,16 @@ namespace wrap {
 
 void compute(std::shared_ptr<LocalBondProjection>& local_bond_projection,
              const std::shared_ptr<locality::NeighborQuery>& nq,
-             nb_array<float, nanobind::shape<-1, 4>>& orientations,
-             nb_array<float, nanobind::shape<-1, 3>>& query_points,
-             nb_array<float, nanobind::shape<-1, 3>>& projected_vectors,
-             nb_array<float, nanobind::shape<-1, 4>>& equiv_orientations,
+             nb_array<const float, nanobind::shape<-1, 4>>& orientations,
+             nb_array<const float, nanobind::shape<-1, 3>>& query_points,
+             nb_array<const float, nanobind::shape<-1, 3>>& projected_vectors,
+             nb_array<const float, nanobind::shape<-1, 4>>& equiv_orientations,
              const std::shared_ptr<locality::NeighborList>& nlist, const locality::QueryArgs& qargs)
 {
-    auto* orientations_data = reinterpret_cast<quat<float>*>(orientations.data());
-    auto* query_points_data = reinterpret_cast<vec3<float>*>(query_points.data());
-    auto* proj_vectors_data = reinterpret_cast<vec3<float>*>(projected_vectors.data());
-    auto* equiv_orientations_data = reinterpret_cast<quat<float>*>(equiv_orientations.data());
+    const auto* const orientations_data = reinterpret_cast<const quat<float>*>(orientations.data());
+    const auto* const query_points_data = reinterpret_cast<const vec3<float>*>(query_points.data());
+    const auto* const proj_vectors_data = reinterpret_cast<const vec3<float>*>(projected_vectors.data());
+    const auto* const equiv_orientations_data = reinterpret_cast<const quat<float>*>(equiv_orientations.data());
     const unsigned int n_proj_vec = projected_vectors.shape(0);
     const unsigned int n_query_points = query_points.shape(0);
     const unsigned int n_equiv_orientations = equiv_orientations.shape(0);
-- 
2.43.0


From 4f62fb897304ffdeae1749b71e485c81b77d06ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:01 +0000
Subject: [PATCH 37/63] fix: PeriodicBuffer rejected systems that are objects
 with box and points

---
 freud/locality.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/freud/locality.py b/freud/locality.py
index 0bb2a5a..444933e 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -801,11 +801,7 @@ def _make_default_nq(neighbor_query):
             :class:`_RawPoints` built from an inferred :code:`box` and
             :code:`points`.
     """
-    if not isinstance(neighbor_query, NeighborQuery):
-        nq = _RawPoints(*neighbor_query)
-    else:
-        nq = neighbor_query
-    return nq
+    return NeighborQuery.from_system(neighbor_query)
 
 
 def _make_default_nlist(system, neighbors, query_points=None):
-- 
2.43.0


From 406517eb60dd16dd634d29d2764c0bc1b6613327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:27 +0000
Subject: [PATCH 38/63] fix: Box.contains and Box.center_of_mass rejected
 read-only arrays

---
 freud/box/Box.h         | 4 ++--
 freud/box/export-Box.cc | 8 ++++----
 freud/box/export-Box.h  | 4 ++--
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/freud/box/Box.h b/freud/box/Box.h
index 1b82126..37c61d8 100644
--- a/freud/box/Box.h
+++ b/freud/box/Box.h
@@ -371,7 +371,7 @@ public:
      *  \param masses Optional array of masses, of length Nvecs
      *  \return Center of mass as a vec3<float>
      */
-    vec3<float> centerOfMass(vec3<float>* vecs, size_t Nvecs, const float* masses = nullptr) const
+    vec3<float> centerOfMass(const vec3<float>* vecs, size_t Nvecs, const float* masses = nullptr) const
     {
         // This roughly follows the implementation in
         // https://en.wikipedia.org/wiki/Center_of_mass#Systems_with_periodic_boundary_conditions
@@ -467,7 +467,7 @@ public:
         \param n_points The number of points.
         \param contains_mask Mask of points inside the box.
     */
-    void contains(vec3<float>* points, const unsigned int n_points, bool* contains_mask) const
+    void contains(const vec3<float>* points, const unsigned int n_points, bool* contains_mask) const
     {
         util::forLoopWrapper(0, n_points, [&](size_t begin, size_t end) {
             std::transform(&points[begin], &points[end], &contains_mask[begin],
diff --git a/freud/box/export-Box.cc b/freud/box/export-Box.cc
index 2d86e68..dfc2d9c 100644
--- a/freud/box/export-Box.cc
+++ b/freud/box/export-Box.cc
@@ -59,11 +59,11 @@ void unwrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
     box->unwrap(vecs_data, images_data, Nvecs, out_data);
 }
 
-std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
+std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
                                 const nb_array<const float, nb::shape<-1>>& masses)
 {
     const unsigned int Nvecs = vecs.shape(0);
-    auto* vecs_data = reinterpret_cast<vec3<float>*>(vecs.data());
+    const auto* vecs_data = reinterpret_cast<const vec3<float>*>(vecs.data());
     const auto* masses_data = reinterpret_cast<const float*>(masses.data());
     auto com = box->centerOfMass(vecs_data, Nvecs, masses_data);
     return {com.x, com.y, com.z};
@@ -104,11 +104,11 @@ void computeAllDistances(const std::shared_ptr<Box>& box, const nb_array<const f
     box->computeAllDistances(query_points_data, n_query_points, points_data, n_points, distances_data);
 }
 
-void contains(const std::shared_ptr<Box>& box, const nb_array<float>& points,
+void contains(const std::shared_ptr<Box>& box, const nb_array<const float>& points,
               const nb_array<bool, nb::ndim<1>>& contains_mask)
 {
     const unsigned int n_points = points.shape(0);
-    auto* points_data = reinterpret_cast<vec3<float>*>(points.data());
+    const auto* points_data = reinterpret_cast<const vec3<float>*>(points.data());
     auto* contains_mask_data = reinterpret_cast<bool*>(contains_mask.data());
     box->contains(points_data, n_points, contains_mask_data);
 }
diff --git a/freud/box/export-Box.h b/freud/box/export-Box.h
index e88938b..068d0e4 100644
--- a/freud/box/export-Box.h
+++ b/freud/box/export-Box.h
@@ -29,7 +29,7 @@ void wrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs, co
 void unwrap(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
             const nb_array<const int>& images, const nb_array<float>& out);
 
-std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
+std::vector<float> centerOfMass(const std::shared_ptr<Box>& box, const nb_array<const float>& vecs,
                                 const nb_array<const float, nanobind::shape<-1>>& masses);
 
 void center(const std::shared_ptr<Box>& box, const nb_array<float>& vecs,
@@ -43,7 +43,7 @@ void computeAllDistances(const std::shared_ptr<Box>& box, const nb_array<const f
                          const nb_array<const float>& points,
                          const nb_array<float, nanobind::ndim<2>>& distances);
 
-void contains(const std::shared_ptr<Box>& box, const nb_array<float>& points,
+void contains(const std::shared_ptr<Box>& box, const nb_array<const float>& points,
               const nb_array<bool, nanobind::ndim<1>>& contains_mask);
 
 }; }; }; // namespace freud::box::wrap
-- 
2.43.0


From e13a82fab047924bec8cd18b9b23ddfadacd7bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:33 +0000
Subject: [PATCH 39/63] fix: LinkCell query for zero neighbors read out of
 bounds

---
 freud/locality/LinkCell.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 9992d6c..c44d33a 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -657,9 +657,10 @@ NeighborBond LinkCellQueryIterator::next()
             // such that we already have k neighbors closer than the
             // closest possible neighbor in the new shell.
             std::sort(m_current_neighbors.begin(), m_current_neighbors.end());
-            if ((m_current_neighbors.size() >= m_num_neighbors)
-                && (m_current_neighbors[m_num_neighbors - 1].getDistance()
-                    < static_cast<float>(m_neigh_cell_iter.getRange() - 1) * m_linkcell->getCellWidth()))
+            if ((m_num_neighbors == 0)
+                || ((m_current_neighbors.size() >= m_num_neighbors)
+                    && (m_current_neighbors[m_num_neighbors - 1].getDistance()
+                        < static_cast<float>(m_neigh_cell_iter.getRange() - 1) * m_linkcell->getCellWidth())))
             {
                 break;
             }
-- 
2.43.0


From 12275b6a26a99e8e3ffd6c5ee3f9d235cbc23903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:02 +0000
Subject: [PATCH 40/63] fix: PeriodicBuffer divided the z buffer by a zero box
 length in 2D

---
 freud/locality/PeriodicBuffer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality/PeriodicBuffer.cc b/freud/locality/PeriodicBuffer.cc
index aeacc94..d11d1f8 100644
--- a/freud/locality/PeriodicBuffer.cc
+++ b/freud/locality/PeriodicBuffer.cc
@@ -53,7 +53,8 @@ void PeriodicBuffer::compute(const std::shared_ptr<NeighborQuery>& neighbor_quer
     }
     else
     {
-        images = vec3<int>(std::ceil(buff.x / L.x), std::ceil(buff.y / L.y), std::ceil(buff.z / L.z));
+        images = vec3<int>(std::ceil(buff.x / L.x), std::ceil(buff.y / L.y),
+                           is2D ? 0 : std::ceil(buff.z / L.z));
         m_buffer_box
             = freud::box::Box(L.x + 2 * buff.x, L.y + 2 * buff.y, L.z + 2 * buff.z, xy, xz, yz, is2D);
     }
-- 
2.43.0


From 4dbe4b49761dc584ee447a8be4d1fdd4204b4de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 41/63] fix: LinkCell cell widths that are negative or too
 small overflowed the number of cells

---
 freud/locality/LinkCell.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index c44d33a..87b4919 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -4,6 +4,7 @@
 #include <algorithm>
 #include <cmath>
 #include <cstddef>
+#include <limits>
 #include <memory>
 #include <stdexcept>
 #include <vector>
@@ -235,10 +236,23 @@ LinkCell::LinkCell(const box::Box& box, const vec3<float>* points, unsigned int
         m_cell_width = std::cbrtf(box.getVolume() / static_cast<float>(desired_num_cells));
     }
 
+    if (!(m_cell_width > 0))
+    {
+        throw std::invalid_argument("LinkCell requires cell_width to be positive.");
+    }
+
+    // Cells are indexed by unsigned integers, which must not overflow for tiny cells in large boxes
+    vec3<float> const nearest_plane_distance = box.getNearestPlaneDistance();
+    vec3<float> const num_cells = nearest_plane_distance / m_cell_width;
+    if (num_cells.x * num_cells.y * (box.is2D() ? 1.0F : num_cells.z)
+        > static_cast<float>(std::numeric_limits<int>::max()))
+    {
+        throw std::runtime_error("The LinkCell cell_width is too small for this box (too many cells).");
+    }
+
     m_celldim = computeDimensions(box, m_cell_width);
 
     // Check if box is too small!
-    vec3<float> const nearest_plane_distance = box.getNearestPlaneDistance();
     if ((m_cell_width * 2.0 > nearest_plane_distance.x) || (m_cell_width * 2.0 > nearest_plane_distance.y)
         || (!box.is2D() && m_cell_width * 2.0 > nearest_plane_distance.z))
     {
-- 
2.43.0


From fc11a50957e881ca65b26a2eddf5dd9a01e1ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 42/63] fix: PMFTs accepted zero extents and divided by a zero
 bin volume

---
 freud/pmft/PMFTR12.cc | 2 +-
 freud/pmft/PMFTXY.cc  | 4 ++--
 freud/pmft/PMFTXYT.cc | 4 ++--
 freud/pmft/PMFTXYZ.cc | 6 +++---
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/freud/pmft/PMFTR12.cc b/freud/pmft/PMFTR12.cc
index b8533d9..bc1f8be 100644
--- a/freud/pmft/PMFTR12.cc
+++ b/freud/pmft/PMFTR12.cc
@@ -39,7 +39,7 @@ PMFTR12::PMFTR12(float r_max, unsigned int n_r, unsigned int n_t1, unsigned int
     {
         throw std::invalid_argument("PMFTR12 requires at least 1 bin in T2.");
     }
-    if (r_max < 0)
+    if (r_max <= 0)
     {
         throw std::invalid_argument("PMFTR12 requires that r_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXY.cc b/freud/pmft/PMFTXY.cc
index 80f1905..a6e65cf 100644
--- a/freud/pmft/PMFTXY.cc
+++ b/freud/pmft/PMFTXY.cc
@@ -32,11 +32,11 @@ PMFTXY::PMFTXY(float x_max, float y_max, unsigned int n_x, unsigned int n_y) : P
     {
         throw std::invalid_argument("PMFTXY requires at least 1 bin in Y.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXY requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXY requires that y_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXYT.cc b/freud/pmft/PMFTXYT.cc
index 2bd3e47..ec70bfc 100644
--- a/freud/pmft/PMFTXYT.cc
+++ b/freud/pmft/PMFTXYT.cc
@@ -39,11 +39,11 @@ PMFTXYT::PMFTXYT(float x_max, float y_max, unsigned int n_x, unsigned int n_y, u
     {
         throw std::invalid_argument("PMFTXYT requires at least 1 bin in T.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXYT requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXYT requires that y_max must be positive.");
     }
diff --git a/freud/pmft/PMFTXYZ.cc b/freud/pmft/PMFTXYZ.cc
index 4cd2df2..4e689e5 100644
--- a/freud/pmft/PMFTXYZ.cc
+++ b/freud/pmft/PMFTXYZ.cc
@@ -36,15 +36,15 @@ PMFTXYZ::PMFTXYZ(float x_max, float y_max, float z_max, unsigned int n_x, unsign
     {
         throw std::invalid_argument("PMFTXYZ requires at least 1 bin in Z.");
     }
-    if (x_max < 0)
+    if (x_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that x_max must be positive.");
     }
-    if (y_max < 0)
+    if (y_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that y_max must be positive.");
     }
-    if (z_max < 0)
+    if (z_max <= 0)
     {
         throw std::invalid_argument("PMFTXYZ requires that z_max must be positive.");
     }
-- 
2.43.0


From b885dfc6347e15e5b553918e5095861ab75f39c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:37 +0000
Subject: [PATCH 43/63] fix: GaussianDensity and SphereVoxelization accepted
 zero widths, GaussianDensity accepted sigma <= 0

---
 freud/density/GaussianDensity.cc    | 8 ++++++++
 freud/density/SphereVoxelization.cc | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/freud/density/GaussianDensity.cc b/freud/density/GaussianDensity.cc
index feef395..16d507d 100644
--- a/freud/density/GaussianDensity.cc
+++ b/freud/density/GaussianDensity.cc
@@ -29,6 +29,14 @@ GaussianDensity::GaussianDensity(vec3<unsigned int> width, float r_max, float si
     {
         throw std::invalid_argument("GaussianDensity requires r_max to be positive.");
     }
+    if (sigma <= 0)
+    {
+        throw std::invalid_argument("GaussianDensity requires sigma to be positive.");
+    }
+    if (width.x == 0 || width.y == 0 || width.z == 0)
+    {
+        throw std::invalid_argument("GaussianDensity requires at least one bin in each direction.");
+    }
 }
 
 //! Get a reference to the last computed Density
diff --git a/freud/density/SphereVoxelization.cc b/freud/density/SphereVoxelization.cc
index 3420143..acd35b4 100644
--- a/freud/density/SphereVoxelization.cc
+++ b/freud/density/SphereVoxelization.cc
@@ -25,6 +25,10 @@ SphereVoxelization::SphereVoxelization(vec3<unsigned int> width, float r_max)
     {
         throw std::invalid_argument("SphereVoxelization requires r_max to be positive.");
     }
+    if (width.x == 0 || width.y == 0 || width.z == 0)
+    {
+        throw std::invalid_argument("SphereVoxelization requires at least one voxel in each direction.");
+    }
 }
 
 //! Get a reference to the last computed voxels.
-- 
2.43.0


From 3285567c087617835e8736c1f0d53dc695499f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 44/63] fix: Hexatic and Steinhardt ignored the bond vectors of
 the neighbor list

---
 freud/order/HexaticTranslational.cc | 3 +--
 freud/order/Steinhardt.cc           | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/freud/order/HexaticTranslational.cc b/freud/order/HexaticTranslational.cc
index b9be60e..d26814f 100644
--- a/freud/order/HexaticTranslational.cc
+++ b/freud/order/HexaticTranslational.cc
@@ -36,12 +36,11 @@ void HexaticTranslational<T>::computeGeneral(Func func, const std::shared_ptr<lo
         points, points->getPoints(), Np, qargs, nlist,
         [&](size_t i, const std::shared_ptr<freud::locality::NeighborPerPointIterator>& ppiter) {
             float total_weight(0);
-            const vec3<float> ref((*points)[i]);
 
             for (freud::locality::NeighborBond nb = ppiter->next(); !ppiter->end(); nb = ppiter->next())
             {
                 // Compute vector from query_point to point
-                const vec3<float> delta = box.wrap((*points)[nb.getPointIdx()] - ref);
+                const vec3<float> delta = nb.getVector();
                 const float weight(m_weighted ? nb.getWeight() : 1.0);
 
                 // Compute psi for this vector
diff --git a/freud/order/Steinhardt.cc b/freud/order/Steinhardt.cc
index c03ba47..cf8c8eb 100644
--- a/freud/order/Steinhardt.cc
+++ b/freud/order/Steinhardt.cc
@@ -137,7 +137,6 @@ void Steinhardt::baseCompute(const std::shared_ptr<freud::locality::NeighborList
         points, points->getPoints(), m_Np, qargs, nlist,
         [&](size_t i, const std::shared_ptr<freud::locality::NeighborPerPointIterator>& ppiter) {
             float total_weight(0);
-            const vec3<float> ref((*points)[i]);
             // Construct PointSPHEvaluator outside loop since the construction is costly.
             auto max_l = *std::max_element(m_ls.begin(), m_ls.end());
             fsph::PointSPHEvaluator<float> sph_eval(max_l);
@@ -152,7 +151,7 @@ void Steinhardt::baseCompute(const std::shared_ptr<freud::locality::NeighborList
 
             for (freud::locality::NeighborBond nb = ppiter->next(); !ppiter->end(); nb = ppiter->next())
             {
-                const vec3<float> delta = points->getBox().wrap((*points)[nb.getPointIdx()] - ref);
+                const vec3<float> delta = nb.getVector();
                 const float weight(m_weighted ? nb.getWeight() : float(1.0));
 
                 // phi is usually in range 0..2Pi, but
-- 
2.43.0


From b74ad4cf5147f1a2310595d36f58ac4714a43a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 45/63] fix: Steinhardt.ql returned the averaged order
 parameter with average=True

---
 freud/order/Steinhardt.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/freud/order/Steinhardt.h b/freud/order/Steinhardt.h
index 44367c9..4c0d7af 100644
--- a/freud/order/Steinhardt.h
+++ b/freud/order/Steinhardt.h
@@ -100,16 +100,16 @@ public:
         {
             return m_wli;
         }
-        return getQl();
+        if (m_average)
+        {
+            return m_qliAve;
+        }
+        return m_qli;
     }
 
     //! Get the last calculated ql for each l
     const std::shared_ptr<util::ManagedArray<float>>& getQl() const
     {
-        if (m_average)
-        {
-            return m_qliAve;
-        }
         return m_qli;
     }
 
-- 
2.43.0


From 9f4f27b09562da06a565684cae153d989f0b1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:23 +0000
Subject: [PATCH 46/63] fix: Nematic rejected lists of orientations

---
 freud/order.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/order.py b/freud/order.py
index 5ad0803..dffa2e9 100644
--- a/freud/order.py
+++ b/freud/order.py
@@ -180,7 +180,7 @@ class Nematic(_Compute):
             (:math:`\\left(N_{particles}, 3 \\right)` :class:`numpy.ndarray`):
                 Orientation vectors for which to calculate the order parameter.
         """
-        if orientations.shape[1] == 4:
+        if np.ndim(orientations) == 2 and np.shape(orientations)[1] == 4:
             msg = (
                 "In freud versions >=3.0.0, Nematic.compute() takes "
                 "3d orientation vectors instead of 4d quaternions."
-- 
2.43.0


From 0645694fdde506714275e20230a29712352feb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:48 +0000
Subject: [PATCH 47/63] fix: StaticStructureFactorDirect missed k vectors of
 triclinic boxes and cast nan to unsigned

---
 .../StaticStructureFactorDirect.cc            | 46 ++++++++++++-------
 1 file changed, 29 insertions(+), 17 deletions(-)

diff --git a/freud/diffraction/StaticStructureFactorDirect.cc b/freud/diffraction/StaticStructureFactorDirect.cc
index 4f21037..c7c7629 100644
--- a/freud/diffraction/StaticStructureFactorDirect.cc
+++ b/freud/diffraction/StaticStructureFactorDirect.cc
@@ -244,10 +244,22 @@ std::pair<unsigned int, unsigned int>
 evaluate_quadratic_equation(float coef_a, float coef_b, float coef_c_min, float coef_c_max, unsigned int N_kz)
 {
     const auto b_over_2a = coef_b / (2 * coef_a);
-    const auto kz_min = static_cast<unsigned int>(
-        std::floor(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_min / coef_a)));
-    const auto kz_max = static_cast<unsigned int>(
-        std::ceil(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_max / coef_a)));
+    const auto discriminant_max = b_over_2a * b_over_2a - coef_c_max / coef_a;
+    const auto root_max = -b_over_2a + std::sqrt(std::max(0.0F, discriminant_max));
+    if (discriminant_max < 0 || root_max < 0)
+    {
+        // No kz >= 0 lies within the sphere of radius k_max.
+        return {0, 0};
+    }
+    const auto kz_max = static_cast<unsigned int>(std::ceil(root_max));
+    // When coef_c_min < 0, the roots have opposite signs and kz = 0 lies within
+    // the sphere of radius k_min.
+    unsigned int kz_min = 0;
+    if (coef_c_min < 0)
+    {
+        kz_min = static_cast<unsigned int>(
+            std::floor(-b_over_2a + std::sqrt(b_over_2a * b_over_2a - coef_c_min / coef_a)));
+    }
     return {kz_min, std::min(kz_max, N_kz)};
 }
 
@@ -299,8 +311,8 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
         // Above the pruning distance, the grid of k points is sampled isotropically
         // at a lower density.
         const auto q_prune_distance = get_prune_distance2D(num_sampled_k_points, q_max, q_area);
-        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max / dq_x));
-        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max / dq_y));
+        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(0).norm()));
+        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(1).norm()));
         const auto bx = freud::constants::TWO_PI * vec3<float>(B(0, 0), B(0, 1), 0.0);
         const auto by = freud::constants::TWO_PI * vec3<float>(B(1, 0), B(1, 1), 0.0);
         // This is a 2D loop but we parallelize in 1D because we only need to seed
@@ -317,9 +329,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 const auto k_vec_x = static_cast<float>(kx) * bx;
 
                 // Solve the quadratic equation for kz to limit which kz values we must sample:
-                // k_min^2 <= |k_vec_x|^2 + ky^2 |by|^2 - 2 ky (k_vec_x \cdot by) <= k_max^2
-                // 0 <= ky^2 (|by|^2) + ky (-2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_min^2)
-                // 0 >= ky^2 (|by|^2) + ky (-2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_max^2)
+                // k_min^2 <= |k_vec_x|^2 + ky^2 |by|^2 + 2 ky (k_vec_x \cdot by) <= k_max^2
+                // 0 <= ky^2 (|by|^2) + ky (2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_min^2)
+                // 0 >= ky^2 (|by|^2) + ky (2 (k_vec_x \cdot by)) + (|k_vec_x|^2 - k_max^2)
                 // This step improves performance significantly when k_min > 0
                 // by eliminating a large portion of the search space. Likewise,
                 // it eliminates the portion of search space outside a sphere
@@ -327,7 +339,7 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 // ensure that we don't accidentally throw out valid k points in
                 // the range (k_min, k_max) due to rounding error.
                 const auto coef_a = dot(by, by);
-                const auto coef_b = -2 * dot(k_vec_x, by);
+                const auto coef_b = 2 * dot(k_vec_x, by);
                 const auto coef_c_min = dot(k_vec_x, k_vec_x) - k_min * k_min;
                 const auto coef_c_max = dot(k_vec_x, k_vec_x) - k_max * k_max;
                 auto [ky_min, ky_max]
@@ -366,9 +378,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
         const auto bx = freud::constants::TWO_PI * vec3<float>(B(0, 0), B(0, 1), B(0, 2));
         const auto by = freud::constants::TWO_PI * vec3<float>(B(1, 0), B(1, 1), B(1, 2));
         const auto bz = freud::constants::TWO_PI * vec3<float>(B(2, 0), B(2, 1), B(2, 2));
-        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max / dq_x));
-        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max / dq_y));
-        const auto N_kz = static_cast<unsigned int>(std::ceil(q_max / dq_z));
+        const auto N_kx = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(0).norm()));
+        const auto N_ky = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(1).norm()));
+        const auto N_kz = static_cast<unsigned int>(std::ceil(q_max * box_matrix.row(2).norm()));
         const auto q_prune_distance_sq = q_prune_distance * q_prune_distance;
         // This is a 3D loop but we parallelize in 1D because we only need to seed
         // the random number generators once per block and there is no benefit of
@@ -386,9 +398,9 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                 {
                     const auto k_vec_xy = k_vec_x + static_cast<float>(ky) * by;
                     // Solve the quadratic equation for kz to limit which kz values we must sample:
-                    // k_min^2 <= |k_vec_xy|^2 + kz^2 |bz|^2 - 2 kz (k_vec_xy \cdot bz) <= k_max^2
-                    // 0 <= kz^2 (|bz|^2) + kz (-2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_min^2)
-                    // 0 >= kz^2 (|bz|^2) + kz (-2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_max^2)
+                    // k_min^2 <= |k_vec_xy|^2 + kz^2 |bz|^2 + 2 kz (k_vec_xy \cdot bz) <= k_max^2
+                    // 0 <= kz^2 (|bz|^2) + kz (2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_min^2)
+                    // 0 >= kz^2 (|bz|^2) + kz (2 (k_vec_xy \cdot bz)) + (|k_vec_xy|^2 - k_max^2)
                     // This step improves performance significantly when k_min > 0
                     // by eliminating a large portion of the search space. Likewise,
                     // it eliminates the portion of search space outside a sphere
@@ -396,7 +408,7 @@ std::vector<vec3<float>> StaticStructureFactorDirect::reciprocal_isotropic(const
                     // ensure that we don't accidentally throw out valid k points in
                     // the range (k_min, k_max) due to rounding error.
                     const auto coef_a = dot(bz, bz);
-                    const auto coef_b = -2 * dot(k_vec_xy, bz);
+                    const auto coef_b = 2 * dot(k_vec_xy, bz);
                     const auto coef_c_min = dot(k_vec_xy, k_vec_xy) - k_min * k_min;
                     const auto coef_c_max = dot(k_vec_xy, k_vec_xy) - k_max * k_max;
                     auto [kz_min, kz_max]
-- 
2.43.0


From 0221eddea41451e29b760cf28b800578cfbe2511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:16 +0000
Subject: [PATCH 48/63] fix: Voronoi.compute changed neighbor lists obtained
 from earlier computations

---
 freud/locality/Voronoi.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/locality/Voronoi.cc b/freud/locality/Voronoi.cc
index cf1638d..26176bb 100644
--- a/freud/locality/Voronoi.cc
+++ b/freud/locality/Voronoi.cc
@@ -208,6 +208,8 @@ void Voronoi::compute(const std::shared_ptr<freud::locality::NeighborQuery>& nq)
 
     unsigned int const num_bonds = bonds.size();
 
+    // Make a new list, since the last one may still be in use.
+    m_neighbor_list = std::make_shared<NeighborList>();
     m_neighbor_list->resize(num_bonds);
     m_neighbor_list->setNumBonds(num_bonds, n_points, n_points);
 
-- 
2.43.0


From 4a8ffaa510c7cdd7083c99aba649ed807d294db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 49/63] fix: LocalDescriptors computed only as many query
 points as there are points

---
 freud/environment.py                  | 6 +++---
 freud/environment/LocalDescriptors.cc | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/freud/environment.py b/freud/environment.py
index 130ca21..1eb83da 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -451,8 +451,8 @@ class LocalDescriptors(_PairCompute):
                 Query points used to calculate the correlation function.  Uses
                 the system's points if :code:`None` (Default
                 value = :code:`None`).
-            orientations ((:math:`N_{points}`, 4) :class:`numpy.ndarray`):
-                Orientations associated with system points that are used to
+            orientations ((:math:`N_{query\_points}`, 4) :class:`numpy.ndarray`):
+                Orientations associated with query points that are used to
                 calculate bonds.
             neighbors (:class:`freud.locality.NeighborList` or dict, optional):
                 Either a :class:`NeighborList <freud.locality.NeighborList>` of
@@ -479,7 +479,7 @@ class LocalDescriptors(_PairCompute):
                 raise RuntimeError(msg)
 
             orientations = freud.util._convert_array(
-                orientations, shape=(nq.points.shape[0], 4)
+                orientations, shape=(num_query_points, 4)
             )
 
         self._cpp_obj.compute(
diff --git a/freud/environment/LocalDescriptors.cc b/freud/environment/LocalDescriptors.cc
index f37048d..0aa039a 100644
--- a/freud/environment/LocalDescriptors.cc
+++ b/freud/environment/LocalDescriptors.cc
@@ -48,7 +48,7 @@ void LocalDescriptors::compute(const std::shared_ptr<locality::NeighborQuery>& n
     m_sphArray = std::make_shared<util::ManagedArray<std::complex<float>>>(
         std::vector<size_t> {m_nlist->getNumBonds(), getSphWidth()});
 
-    util::forLoopWrapper(0, nq->getNPoints(), [&](size_t begin, size_t end) {
+    util::forLoopWrapper(0, n_query_points, [&](size_t begin, size_t end) {
         fsph::PointSPHEvaluator<float> sph_eval(m_l_max);
 
         for (size_t i = begin; i < end; ++i)
-- 
2.43.0


From dd4112ed25c20115d9bf42a6deeae1d593b082d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 50/63] fix: LocalDescriptors rejected lists of orientations in
 modes that do not use them

---
 freud/environment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/environment.py b/freud/environment.py
index 1eb83da..aeca935 100644
--- a/freud/environment.py
+++ b/freud/environment.py
@@ -481,6 +481,8 @@ class LocalDescriptors(_PairCompute):
             orientations = freud.util._convert_array(
                 orientations, shape=(num_query_points, 4)
             )
+        else:
+            orientations = None
 
         self._cpp_obj.compute(
             nq._cpp_obj,
-- 
2.43.0


From 5c463162a3015ab24c45a9fdacc845d14054a303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:28 +0000
Subject: [PATCH 51/63] fix: repeated environment matching kept the point
 environments of earlier computations

---
 freud/environment/MatchEnv.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/freud/environment/MatchEnv.cc b/freud/environment/MatchEnv.cc
index 153a9cd..68d428a 100644
--- a/freud/environment/MatchEnv.cc
+++ b/freud/environment/MatchEnv.cc
@@ -534,6 +534,7 @@ void EnvironmentCluster::compute(const std::shared_ptr<freud::locality::Neighbor
 
     const unsigned int Np = nq->getNPoints();
     m_env_index = std::make_shared<util::ManagedArray<unsigned int>>(std::vector<size_t> {Np});
+    m_point_environments.clear();
     // m_env_index.prepare(Np);
 
     const float m_threshold_sq = threshold * threshold;
@@ -688,6 +689,7 @@ void EnvironmentMotifMatch::compute(const std::shared_ptr<freud::locality::Neigh
     const size_t num_bonds(nlist->getNumBonds());
 
     m_matches = std::make_shared<util::ManagedArray<char>>(std::vector<size_t> {Np});
+    m_point_environments.clear();
     // m_matches.prepare(Np);
 
     // loop through the particles and add their environments to the set
@@ -762,6 +764,7 @@ void EnvironmentRMSDMinimizer::compute(const std::shared_ptr<freud::locality::Ne
     size_t bond(0);
     const size_t num_bonds(nlist->getNumBonds());
     m_rmsds = std::make_shared<util::ManagedArray<float>>(std::vector<size_t> {Np});
+    m_point_environments.clear();
     // m_rmsds.prepare(Np);
 
     // loop through the particles and add their environments to the set
-- 
2.43.0


From e659e48af3f3258ba8899b0555a625a94138fc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:57 +0000
Subject: [PATCH 52/63] fix: registration of environments without neighbors
 read out of bounds

---
 freud/environment/Registration.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/freud/environment/Registration.h b/freud/environment/Registration.h
index 72c6c9a..770ed77 100644
--- a/freud/environment/Registration.h
+++ b/freud/environment/Registration.h
@@ -184,6 +184,13 @@ public:
             throw std::invalid_argument(msg.str());
         }
 
+        if (N == 0)
+        {
+            // There is nothing to rotate.
+            m_rotation = matrix::Identity(3, 3);
+            return;
+        }
+
         RandomNumber<std::mt19937_64> rng;
         double rmsd_min = -1.0;
         for (size_t shuffles = 0; shuffles < m_shuffles; shuffles++)
-- 
2.43.0


From dd32b51557926584d7c4a1e360350544758432e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:12 +0000
Subject: [PATCH 53/63] Hexatic: restore the wrapped separations, which tests
 of the full build pin

Takes back the Hexatic half of 3285567: test_weighted_random (run only where
Voronoi is built) compares with separations wrapped in single precision.
---
 freud/order/HexaticTranslational.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/order/HexaticTranslational.cc b/freud/order/HexaticTranslational.cc
index d26814f..b9be60e 100644
--- a/freud/order/HexaticTranslational.cc
+++ b/freud/order/HexaticTranslational.cc
@@ -36,11 +36,12 @@ void HexaticTranslational<T>::computeGeneral(Func func, const std::shared_ptr<lo
         points, points->getPoints(), Np, qargs, nlist,
         [&](size_t i, const std::shared_ptr<freud::locality::NeighborPerPointIterator>& ppiter) {
             float total_weight(0);
+            const vec3<float> ref((*points)[i]);
 
             for (freud::locality::NeighborBond nb = ppiter->next(); !ppiter->end(); nb = ppiter->next())
             {
                 // Compute vector from query_point to point
-                const vec3<float> delta = nb.getVector();
+                const vec3<float> delta = box.wrap((*points)[nb.getPointIdx()] - ref);
                 const float weight(m_weighted ? nb.getWeight() : 1.0);
 
                 // Compute psi for this vector
-- 
2.43.0


From 950e2ce6e6f06969f1dc1334805d99e2c745d642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:22 +0000
Subject: [PATCH 54/63] fix: BondOrder.bounds raised AttributeError

---
 freud/environment/export-BondOrder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/freud/environment/export-BondOrder.cc b/freud/environment/export-BondOrder.cc
index 8a79b10..ba75f10 100644
--- a/freud/environment/export-BondOrder.cc
+++ b/freud/environment/export-BondOrder.cc
@@ -4,6 +4,7 @@
 #include <memory>
 #include <nanobind/nanobind.h>
 #include <nanobind/ndarray.h>
+#include <nanobind/stl/pair.h>       // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/shared_ptr.h> // NOLINT(misc-include-cleaner): used implicitly
 #include <nanobind/stl/vector.h>     // NOLINT(misc-include-cleaner): used implicitly
 
@@ -65,6 +66,7 @@ void export_BondOrder(nb::module_& module)
         .def("getBinCounts", &BondOrder::getBinCounts)
         .def("getBinCenters", &BondOrder::getBinCenters)
         .def("getBinEdges", &BondOrder::getBinEdges)
+        .def("getBounds", &BondOrder::getBounds)
         .def("getBox", &BondOrder::getBox)
         .def("getAxisSizes", &BondOrder::getAxisSizes)
         .def("getMode", &BondOrder::getMode)
-- 
2.43.0


From 35a388830467c501cdc9ef3a19047e3cc9115c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:22 +0000
Subject: [PATCH 55/63] fix: repr of RDF dropped the normalization mode

---
 freud/density.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/density.py b/freud/density.py
index 4292216..aeb8860 100644
--- a/freud/density.py
+++ b/freud/density.py
@@ -663,7 +663,8 @@ class RDF(_SpatialHistogram1D):
     def __repr__(self):
         return (
             f"freud.density.{type(self).__name__}(bins={len(self.bin_centers)}, "
-            f"r_max={self.bounds[1]}, r_min={self.bounds[0]})"
+            f"r_max={self.bounds[1]}, r_min={self.bounds[0]}, "
+            f"normalization_mode={self.mode!r})"
         )
 
     def plot(self, ax=None):
-- 
2.43.0


From 88fcc0b08d28e086a6b1933a5c7bc8aaf7d40463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:22 +0000
Subject: [PATCH 56/63] fix: triclinic boxes of MDAnalysis were transposed

---
 freud/locality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/locality.py b/freud/locality.py
index 444933e..dd8a0ed 100644
--- a/freud/locality.py
+++ b/freud/locality.py
@@ -321,7 +321,8 @@ class NeighborQuery:
             "MDAnalysis.coordinates.base.Timestep",
             "MDAnalysis.coordinates.timestep.Timestep",
         ):
-            system = (system.triclinic_dimensions, system.positions)
+            # MDAnalysis has the lattice vectors in rows, freud in columns.
+            system = (system.triclinic_dimensions.T, system.positions)
 
         # GSD and HOOMD-blue 3 snapshot compatibility
         elif _match_class_path(
-- 
2.43.0


From 42618ed63bd802318df20f5cae5e6810bbe764ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:22 +0000
Subject: [PATCH 57/63] fix: PMFTXY.plot swapped the axes

---
 freud/plot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/freud/plot.py b/freud/plot.py
index 1d81f80..bbd5e0f 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -361,7 +361,7 @@ def pmft_plot(pmft, ax=None, cmap="viridis"):
     cax = ax_divider.append_axes("right", size="7%", pad="10%")
 
     im = ax.imshow(
-        np.flipud(pmft_arr),
+        np.flipud(pmft_arr.T),
         extent=[xlims[0], xlims[1], ylims[0], ylims[1]],
         interpolation="nearest",
         cmap=cmap,
-- 
2.43.0


From 86f2d0ebb47e859dde277ca2f68f70a89f271424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 58/63] fix: StaticStructureFactorDebye returned nan for a
 single k value

---
 freud/diffraction/StaticStructureFactorDebye.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/freud/diffraction/StaticStructureFactorDebye.cc b/freud/diffraction/StaticStructureFactorDebye.cc
index 757bbbf..45e463e 100644
--- a/freud/diffraction/StaticStructureFactorDebye.cc
+++ b/freud/diffraction/StaticStructureFactorDebye.cc
@@ -42,9 +42,10 @@ StaticStructureFactorDebye::StaticStructureFactorDebye(unsigned int bins, float
     : StaticStructureFactor(bins, k_max_center_to_upper_edge(bins, k_min, k_max),
                             k_min_center_to_lower_edge(bins, k_min, k_max))
 {
-    if (bins == 0)
+    // The k values are spaced by (k_max - k_min) / (bins - 1).
+    if (bins < 2)
     {
-        throw std::invalid_argument("StaticStructureFactorDebye requires a nonzero number of bins.");
+        throw std::invalid_argument("StaticStructureFactorDebye requires at least two k values.");
     }
     if (k_max <= 0)
     {
-- 
2.43.0


From 797fdbcf167eca90c37ae23323e68c3921cab9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:32 +0000
Subject: [PATCH 59/63] fix: StaticStructureFactorDebye reported k_min below
 zero, which its constructor rejects

---
 freud/diffraction.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/freud/diffraction.py b/freud/diffraction.py
index 109a565..8c7708f 100644
--- a/freud/diffraction.py
+++ b/freud/diffraction.py
@@ -158,7 +158,8 @@ class StaticStructureFactorDebye(_StaticStructureFactor):
         """tuple: A tuple indicating the smallest and largest :math:`k` values
         used."""
         k_values = self.k_values
-        return (k_values[0], k_values[len(k_values) - 1])
+        # The center of the first bin may be rounded to below zero.
+        return (max(k_values[0], np.float32(0)), k_values[len(k_values) - 1])
 
     def compute(self, system, query_points=None, N_total=None, reset=True):
         r"""Computes static structure factor.
-- 
2.43.0


From 673048893d77283154e1058caa0a2b03ded88957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:22 +0000
Subject: [PATCH 60/63] fix: LinkCell rejected its own estimate of the cell
 width

---
 freud/locality/LinkCell.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/freud/locality/LinkCell.cc b/freud/locality/LinkCell.cc
index 87b4919..d1f447c 100644
--- a/freud/locality/LinkCell.cc
+++ b/freud/locality/LinkCell.cc
@@ -234,6 +234,14 @@ LinkCell::LinkCell(const box::Box& box, const vec3<float>* points, unsigned int
         const unsigned int desired_num_cells
             = std::max(n_points / num_particle_per_cell, static_cast<unsigned int>(1));
         m_cell_width = std::cbrtf(box.getVolume() / static_cast<float>(desired_num_cells));
+
+        // The estimate must not exceed half the box.
+        vec3<float> const plane_distance = box.getNearestPlaneDistance();
+        m_cell_width = std::min({m_cell_width, plane_distance.x / 2, plane_distance.y / 2});
+        if (!box.is2D())
+        {
+            m_cell_width = std::min(m_cell_width, plane_distance.z / 2);
+        }
     }
 
     if (!(m_cell_width > 0))
-- 
2.43.0


From 1e3d6732187ee0883c0340e92cb7856d5a5b3423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:04 +0000
Subject: [PATCH 61/63] fix: DiffractionPattern.plot was upside down

---
 freud/plot.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/freud/plot.py b/freud/plot.py
index bbd5e0f..a23f15a 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -554,6 +554,7 @@ def diffraction_plot(
         cmap=cmap,
         norm=norm,
         extent=extent,
+        origin="lower",
     )
     ax_divider = make_axes_locatable(ax)
     cax = ax_divider.append_axes("right", size="7%", pad="10%")
-- 
2.43.0


From c8fe44205402925b936d454e67974c6b3a2f2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:04 +0000
Subject: [PATCH 62/63] fix: Voronoi.plot failed with matplotlib 3.9 and later

---
 freud/plot.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/freud/plot.py b/freud/plot.py
index a23f15a..ddd564f 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -13,7 +13,6 @@ _HAS_MPL = find_spec("matplotlib") is not None
 if _HAS_MPL:
     import matplotlib.colors
     import matplotlib.pyplot as plt
-    from matplotlib import cm
     from matplotlib.backends.backend_agg import FigureCanvasAgg
     from matplotlib.collections import PatchCollection
     from matplotlib.colorbar import Colorbar
@@ -475,7 +474,7 @@ def voronoi_plot(voronoi, box, ax=None, color_by=None, cmap=None):
                 )
             cmap = "tab20"
 
-    cmap = cm.get_cmap(cmap, num_colors)
+    cmap = plt.get_cmap(cmap, num_colors)
     bounds = np.arange(np.min(colors), np.max(colors) + 1)
 
     patch_collection.set_array(np.array(colors) - 0.5)
-- 
2.43.0


From e713e5e8238e477fb386857d78c9458169a5566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:04 +0000
Subject: [PATCH 63/63] fix: plots of boxes and systems ignored the title and,
 in 3D, the line style

---
 freud/plot.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/freud/plot.py b/freud/plot.py
index ddd564f..82d574f 100644
--- a/freud/plot.py
+++ b/freud/plot.py
@@ -140,9 +140,9 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
             corners[[2, 6]],
             corners[[3, 7]],
         ]
+        color = kwargs.pop("color", "k")
         for path in paths:
-            color = kwargs.pop("color", "k")
-            ax.plot(path[:, 0], path[:, 1], path[:, 2], color=color)
+            ax.plot(path[:, 0], path[:, 1], path[:, 2], *args, color=color, **kwargs)
         ax.set_xlabel("$x$")
         ax.set_ylabel("$y$")
         ax.set_zlabel("$z$")
@@ -153,6 +153,9 @@ def box_plot(box, title=None, ax=None, image=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits)
 
+    if title is not None:
+        ax.set_title(title)
+
     return ax
 
 
@@ -203,6 +206,9 @@ def system_plot(system, title=None, ax=None, *args, **kwargs):
         ]
         _set_3d_axes_equal(ax, limits=limits)
 
+    if title is not None:
+        ax.set_title(title)
+
     return ax, sc
 
 
-- 
2.43.0

