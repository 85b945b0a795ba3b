From 42dcdd20537b4d6826fa1cca8dcd29c8c3d00756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:21 +0000
Subject: [PATCH 01/35] fix: assigning or resizing a range from itself no
 longer zeroes its bounds

---
 src/lib/range.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/range.cpp b/src/lib/range.cpp
index f495daa..7a270e2 100644
--- a/src/lib/range.cpp
+++ b/src/lib/range.cpp
@@ -73,22 +73,23 @@ range::includes(const qk::range & rng) const
 void
 range::setup(const int num_dims, const int *lower, const int *upper)
 {
+    // lower and upper may point into this range's own storage (e.g. self assignment)
+    std::vector<int> new_lower, new_upper;
+    if(num_dims>0){
+        new_lower.assign(lower, lower + num_dims);
+        new_upper.assign(upper, upper + num_dims);
+    }
+
     // initialize
     _num_dims = num_dims;
-    _lower.clear();
-    _upper.clear();
+    _lower.swap(new_lower);
+    _upper.swap(new_upper);
     _stride.clear();
 
     // Setup new range
 
     if(_num_dims>0){
-        _lower.resize(_num_dims,0);
-        _upper.resize(_num_dims,0);
         _stride.resize(_num_dims,0);
-        for(int i = 0; i < _num_dims; ++i){
-            _lower[i] = lower[i];
-            _upper[i] = upper[i];
-        }
         _stride[_num_dims-1] = 1;
         for(int i = _num_dims-2; i >= 0; --i){
             _stride[i] = _stride[i+1] * length(i+1);
-- 
2.43.0


From b60169ddda7c6fc693f5667cd11af0cb8857e541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:21 +0000
Subject: [PATCH 02/35] fix: indexer range checks refuse the one-past-the-end
 dimension

---
 src/lib/indexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index d3253f7..bc54292 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -46,7 +46,7 @@ const int &
 indexer::operator[](const int & dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::operator[] : Dimension out of range.");
     }
 #endif
@@ -56,7 +56,7 @@ indexer::operator[](const int & dim) const
 int indexer::index(const int dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::index : Dimension out of range.");
     }
 #endif
@@ -87,7 +87,7 @@ indexer::operator++()
 void indexer::increment(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::increment : Dimension out of range.");
     }
 #endif
@@ -98,7 +98,7 @@ void indexer::increment(const int dim)
 void indexer::decrement(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::decrement : Dimension out of range.");
     }
 #endif
-- 
2.43.0


From 2f506fd3281467209a400f8f6cff760dda69113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:21 +0000
Subject: [PATCH 03/35] fix: an indexer over an empty sub range has no cells to
 visit

---
 src/lib/indexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index bc54292..dac74f5 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -25,6 +25,10 @@ indexer::indexer(const qk::range & sub_range, const qk::range & sup_range) :
 
     if (_num_dims > 0) {
         _exists = this->includes(_sub_range);
+        // An empty (or inverted) sub range has no cells to visit
+        for(int i = 0; _exists and i < _num_dims; i++){
+            _exists = _sub_range.length(i) > 0;
+        }
         if(_exists){
             for(int i = 0; i < _num_dims; i++){
                 _index[i] = sub_range.lower(i);
-- 
2.43.0


From 884e2e5cfbd878158ed02557dc60b53d61456e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:21 +0000
Subject: [PATCH 04/35] fix: copying an indexed container copies its elements

---
 src/lib/indexer_interface.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index d847a64..cbceab0 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -21,6 +21,7 @@ public:
     indexer_interface(const indexer_interface & interface)
     {
         resize(interface.range());
+        _data = interface._data;
     }
 
     virtual ~indexer_interface()
-- 
2.43.0


From b4146503b336a519587bea4fa6c73e9f5eafab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:18 +0000
Subject: [PATCH 05/35] fix: pull reads its source over the source range and
 refuses ranges outside either container

---
 src/lib/indexer_interface.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index cbceab0..de25405 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -43,6 +43,9 @@ public:
         if (from_range.volume() != to_range.volume()) {
             throw qk::exception("qk::indexer_interface::pull : Volume mismatch.");
         }
+        if (!interface.includes(from_range) or !includes(to_range)) {
+            throw qk::exception("qk::indexer_interface::pull : Requested range extends outside of interface bounds.");
+        }
 
         // TODO: this needs to be sped up
         qk::indexer src_indexer = interface.indexer(from_range);
@@ -56,7 +59,7 @@ public:
 
     void pull(const indexer_interface<T> & interface)
     {
-        pull(interface, this->range(), interface.range());
+        pull(interface, interface.range(), this->range());
     }
 
     void fill(const T & value)
-- 
2.43.0


From d5c692518bc67e21137e33212e5b33da2ded5f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:19 +0000
Subject: [PATCH 06/35] fix: copying an empty sub range between chunks copies
 nothing

---
 src/data/functions.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/data/functions.h b/src/data/functions.h
index 37fc657..67c9dc7 100644
--- a/src/data/functions.h
+++ b/src/data/functions.h
@@ -25,16 +25,13 @@ namespace data
         qk::indexer from_idx = from_chunk.indexer(from_range);
         qk::indexer to_idx = to_chunk.indexer(to_range);
 
-        while(true){
+        while(to_idx.exists()){
 
             to_chunk[to_idx] = from_chunk[from_idx];
 
             to_idx.next();
             from_idx.next();
 
-            if(!to_idx.exists()){
-                break;
-            }
         }
     }
 
-- 
2.43.0


From 681025dfe30bd7018e338785931083d14f969df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:43 +0000
Subject: [PATCH 07/35] fix: subdividing a range always tiles it (no inverted
 pieces, no rounding)

---
 src/lib/range_set.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/range_set.cpp b/src/lib/range_set.cpp
index fe618f7..e6d6580 100644
--- a/src/lib/range_set.cpp
+++ b/src/lib/range_set.cpp
@@ -1,7 +1,7 @@
 #include "range_set.h"
 
 // STL includes
-#include <cmath>
+#include <algorithm>
 
 namespace qk
 {
@@ -30,7 +30,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     int subRangeSizePerDivision[_num_dims];
     for(int i = 0; i < _num_dims; i++){
-        subRangeSizePerDivision[i] = int(std::ceil(float(superRange.length(i)) / float(numSubdivisions[i])));
+        subRangeSizePerDivision[i] = (superRange.length(i) + numSubdivisions[i] - 1) / numSubdivisions[i];
     }
 
     int lowers[_num_dims];
@@ -38,7 +38,7 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     for(qk::indexer indexer = this->indexer(); indexer.exists(); indexer.next()){
         for(int i = 0; i < _num_dims; i++){
-            lowers[i] = _superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i];
+            lowers[i] = std::min(_superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i], _superRange.upper(i));
             uppers[i] = std::min(lowers[i] + subRangeSizePerDivision[i], _superRange.upper(i));
         }
 
-- 
2.43.0


From 58d19568b99a62011991d9e8cb96f66a205611be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:28 +0000
Subject: [PATCH 08/35] fix: free slip walls reverse only the momentum normal
 to the wall

---
 src/solver/bc_free_slip.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/bc_free_slip.cpp b/src/solver/bc_free_slip.cpp
index 7292f03..cdf51a3 100644
--- a/src/solver/bc_free_slip.cpp
+++ b/src/solver/bc_free_slip.cpp
@@ -66,14 +66,14 @@ bc_free_slip::solve(qk::variable::variable_manager & variable_manager, const int
                 // Lower boundary
                 {
                     qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(lower_external_range.num_dims()-1, 1+i,2+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
 
                 // Upper boundary
                 {
                     qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 1,4);
+                    efield_rng.set(upper_external_range.num_dims()-1, 1+i,2+i);
                     chunk.multiply_by_scalar(efield_rng, -1.);
                 }
             }
-- 
2.43.0


From 7160e67fcffd718bf974a16116af083bd3ba7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:28 +0000
Subject: [PATCH 09/35] fix: conducting walls reverse the magnetic component
 normal to the wall, not always Bx

---
 src/solver/bc_conducting_wall.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/solver/bc_conducting_wall.cpp b/src/solver/bc_conducting_wall.cpp
index 7ce71ef..6c3830d 100644
--- a/src/solver/bc_conducting_wall.cpp
+++ b/src/solver/bc_conducting_wall.cpp
@@ -61,20 +61,28 @@ bc_conducting_wall::solve(qk::variable::variable_manager & variable_manager, con
                     qk::data::copy_to(chunk, from_rng, chunk, to_rng);
                 }
 
-                // Reverse the electric field
+                // Reverse the electric field and the magnetic field normal to the wall
 
                 // Lower boundary
                 {
                     qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 0,4);
+                    efield_rng.set(lower_external_range.num_dims()-1, 0,3);
                     chunk.multiply_by_scalar(efield_rng, -1.);
+
+                    qk::range bnormal_rng(lower_external_range);
+                    bnormal_rng.set(lower_external_range.num_dims()-1, 3+i,4+i);
+                    chunk.multiply_by_scalar(bnormal_rng, -1.);
                 }
 
                 // Upper boundary
                 {
                     qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 0,4);
+                    efield_rng.set(upper_external_range.num_dims()-1, 0,3);
                     chunk.multiply_by_scalar(efield_rng, -1.);
+
+                    qk::range bnormal_rng(upper_external_range);
+                    bnormal_rng.set(upper_external_range.num_dims()-1, 3+i,4+i);
+                    chunk.multiply_by_scalar(bnormal_rng, -1.);
                 }
             }
         }
-- 
2.43.0


From 3af0575e853b0761552abcc7321223492f00da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:31 +0000
Subject: [PATCH 10/35] fix: do not promise the compiler 64-byte alignment that
 chunk storage does not have

---
 src/lib/parallelization.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lib/parallelization.h b/src/lib/parallelization.h
index 91a5107..057a296 100644
--- a/src/lib/parallelization.h
+++ b/src/lib/parallelization.h
@@ -2,7 +2,6 @@
 
 #define _QK_NUM_THREADS_ 8
 
-#define _QK_DOUBLE_ALIGNMENT_ 64
-#define _QK_ASSUME_ALIGNED(ptr) (double*)__builtin_assume_aligned(ptr,_QK_DOUBLE_ALIGNMENT_)
-#define _QK_ASSUME_ALIGNED_CONST(ptr) (const double*)__builtin_assume_aligned(ptr,_QK_DOUBLE_ALIGNMENT_)
-
+// Chunk storage is a std::vector<double>, which guarantees no alignment beyond that of double
+#define _QK_ASSUME_ALIGNED(ptr) (double*)(ptr)
+#define _QK_ASSUME_ALIGNED_CONST(ptr) (const double*)(ptr)
-- 
2.43.0


From e24a67fb831f1e0c7c1e1b027b9ce70f52551139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:52 +0000
Subject: [PATCH 11/35] fix: bases are ordered by name first, points second
 (the order was not asymmetric)

---
 src/basis/basis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/basis.h b/src/basis/basis.h
index 639920c..54fed6a 100644
--- a/src/basis/basis.h
+++ b/src/basis/basis.h
@@ -45,8 +45,8 @@ public:
     friend bool operator <(const basis & a, const basis & b)
     {
         // Test if they have the same name
-        if (a._name < b._name) {
-            return true;
+        if (a._name != b._name) {
+            return a._name < b._name;
         }
 
         return a._num_points < b._num_points;
-- 
2.43.0


From cd10daa410a5aaa80b187fa94e201b3e9bb1243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:52 +0000
Subject: [PATCH 12/35] fix: reading a variable that does not exist raises the
 error it constructs

---
 src/variable/variable_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 3be3c21..566326c 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -35,7 +35,7 @@ variable_manager::output_variable(const qk::variable::variable_id & var)
        add_variable(var);
        itr = _variables.find(var);
        if (itr == _variables.end()) {
-           qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
+           throw qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
        }
     }
     return *(itr->second);
@@ -46,7 +46,7 @@ variable_manager::input_variable(const qk::variable::variable_id & var) const
 {
     const auto & itr = _variables.find(var);
     if (itr == _variables.end()) {
-       qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
+       throw qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
     }
     return *(itr->second);
 }
-- 
2.43.0


From 17c3598cc70a8846b118b852b9555faad64b00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:58 +0000
Subject: [PATCH 13/35] fix: an exception's message outlives the call that
 returns it, and assignment replaces it

---
 src/lib/exception.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/exception.h b/src/lib/exception.h
index 295c9b6..99f89cd 100644
--- a/src/lib/exception.h
+++ b/src/lib/exception.h
@@ -4,6 +4,7 @@
 // STL includes
 #include <exception>
 #include <sstream>
+#include <string>
 
 namespace qk
 {
@@ -19,17 +20,17 @@ public:
 
     exception(const std::string error)
     {
-        _what << error;
+        _what = error;
     }
 
     exception(const std::exception & other)
     {
-        _what << std::string(other.what());
+        _what = other.what();
     }
 
     exception(const qk::exception & other)
     {
-        _what << other._what.str();
+        _what = other._what;
     }
 
     virtual ~exception() throw()
@@ -40,32 +41,31 @@ public:
 
     const char* what() const noexcept
     {
-        return _what.str().c_str();
+        return _what.c_str();
     }
 
     exception& operator=(const qk::exception & other)
     {
-        this->_what.clear();
-        *this << std::string(other.what());
+        _what = other._what;
         return *this;
     }
 
     friend std::ostream& operator<<(std::ostream& os, const qk::exception& qke)
     {
-        os << qke._what.str();
+        os << qke._what;
         return os;
     }
 
     exception &
     operator<<(const std::string & s)
     {
-        _what << s;
+        _what += s;
         return *this;
     }
 
 protected:
 
-    std::stringstream _what;
+    std::string _what;
 };
 
 }
-- 
2.43.0


From 98a1564d0296c4368190ca8cb276b5f4e2340bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:57 +0000
Subject: [PATCH 14/35] fix: VTK frames place the mesh at its lowest corner,
 not at its centre

---
 src/grid/rectilinear.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/grid/rectilinear.cpp b/src/grid/rectilinear.cpp
index 126e13f..772c197 100644
--- a/src/grid/rectilinear.cpp
+++ b/src/grid/rectilinear.cpp
@@ -46,10 +46,11 @@ rectilinear::write_vtk(std::ofstream & file, const qk::basis::basis & basis) con
         if(_num_dims > 1){ny = length(1)+1;}
         if(_num_dims > 2){nz = length(2)+1;}
 
-        double cx=0, cy=0, cz=0;
-        if(_num_dims > 0){cx = _startxs[0] + _widths[0] / 2.;}
-        if(_num_dims > 1){cy = _startxs[1] + _widths[1] / 2.;}
-        if(_num_dims > 2){cz = _startxs[2] + _widths[2] / 2.;}
+        // Lowest corner of the mesh
+        double ox=0, oy=0, oz=0;
+        if(_num_dims > 0){ox = _startxs[0] + lower(0) * _dxs[0];}
+        if(_num_dims > 1){oy = _startxs[1] + lower(1) * _dxs[1];}
+        if(_num_dims > 2){oz = _startxs[2] + lower(2) * _dxs[2];}
 
         double sx=0, sy=0, sz=0;
         if(_num_dims > 0){sx = _dxs[0];}
@@ -58,7 +59,7 @@ rectilinear::write_vtk(std::ofstream & file, const qk::basis::basis & basis) con
 
         file << "DATASET STRUCTURED_POINTS\n";
         file << "DIMENSIONS " << nx << " " << ny << " " << nz << "\n";
-        file << "ORIGIN " << cx << " " << cy << " " << cz << "\n";
+        file << "ORIGIN " << ox << " " << oy << " " << oz << "\n";
         file << "SPACING " << sx << " " << sy << " " << sz << "\n";
 
 
-- 
2.43.0


From 4291bc74206d24872cab17c960adb7b1d81b2d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 15/35] fix: the radial shock tube's radius uses the third
 coordinate squared

---
 src/solver/radial_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 53e3784..bd2a348 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -54,7 +54,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
                 double r2 = (x[0]-_center[0])*(x[0]-_center[0]);
                 r2 += (x[1]-_center[1])*(x[1]-_center[1]);
-                r2 += (x[2]-_center[2])*(x[1]-_center[2]);
+                r2 += (x[2]-_center[2])*(x[2]-_center[2]);
 
                 const double rho = (r2 < R2) ? rho0 : rho0 * _rho_jump;
                 const double e = (r2 < R2) ? e0 : e0 * _P_jump;
-- 
2.43.0


From 655870ab5ee0d136237f596342e76a06f512afbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 16/35] fix: a radial shock tube used without setup has a
 centre

---
 src/solver/radial_shock_tube.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index bd2a348..9519df9 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -13,6 +13,7 @@ namespace solver
 {
 
 radial_shock_tube::radial_shock_tube():
+    _center(3,0.),
     _radius(0.125),
     _rho_jump(0.125),
     _P_jump(0.1),
-- 
2.43.0


From e605eea99bf5d60040b8048c08e57a0c54425b72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 17/35] fix: initial conditions read zero, not garbage, for
 coordinates the mesh does not have

---
 src/solver/gaussian.cpp          | 2 +-
 src/solver/magnetic_pulse.cpp    | 2 +-
 src/solver/radial_shock_tube.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/gaussian.cpp b/src/solver/gaussian.cpp
index d16c2a9..f5cc080 100644
--- a/src/solver/gaussian.cpp
+++ b/src/solver/gaussian.cpp
@@ -38,7 +38,7 @@ gaussian::solve(qk::variable::variable_manager & variable_manager, const int tag
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0., 0., 0.};
     double w[3];
 
     for(int i = 0; i < _output_variable_ids.size(); i++){
diff --git a/src/solver/magnetic_pulse.cpp b/src/solver/magnetic_pulse.cpp
index 05cb095..f472061 100644
--- a/src/solver/magnetic_pulse.cpp
+++ b/src/solver/magnetic_pulse.cpp
@@ -17,7 +17,7 @@ void magnetic_pulse::solve(qk::variable::variable_manager & variable_manager, co
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0., 0., 0.};
     const double Bz = _amplitude;
 
     for (int i = 0; i < _output_variable_ids.size(); i++) {
diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 9519df9..afcfe78 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -33,7 +33,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0., 0., 0.};
     const double R2 = _radius*_radius;
     const double rho0 = 1.;
     const double e0 = 1. / (_gamma-1.);
-- 
2.43.0


From d554463e0fb175c94459c178d95960be5f945cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:18 +0000
Subject: [PATCH 18/35] fix: the transverse field of the Brio-Wu problem does
 not depend on gamma

---
 src/solver/brio_wu_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/brio_wu_shock_tube.cpp b/src/solver/brio_wu_shock_tube.cpp
index f2e3cd3..d1a76f5 100644
--- a/src/solver/brio_wu_shock_tube.cpp
+++ b/src/solver/brio_wu_shock_tube.cpp
@@ -79,7 +79,7 @@ void brio_wu_shock_tube::solve(qk::variable::variable_manager & variable_manager
         for (qk::indexer idx = field.indexer(By_range); idx.exists(); idx.next()) {
             grid.xc(idx, x);
 
-            const double By = _By * ((x[0] < 0.) ? 1. : -1.) * P_mult;
+            const double By = _By * ((x[0] < 0.) ? 1. : -1.);
             field[idx] = By;
         }
 
-- 
2.43.0


From 73260584f70c095128542278289ebcbcfdfa88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:21 +0000
Subject: [PATCH 19/35] fix: initial conditions use pi, not a truncated
 constant with wrong digits

---
 src/solver/electromagnetic_wave_1D.h | 5 ++++-
 src/solver/gem_challenge.cpp         | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/solver/electromagnetic_wave_1D.h b/src/solver/electromagnetic_wave_1D.h
index e32848b..b4a527f 100644
--- a/src/solver/electromagnetic_wave_1D.h
+++ b/src/solver/electromagnetic_wave_1D.h
@@ -1,6 +1,9 @@
 #ifndef _qk_solver_electromagnetic_wave_1D_H
 #define _qk_solver_electromagnetic_wave_1D_H
 
+// STL includes
+#include <cmath>
+
 // QK includes
 #include "solver/solver.h"
 
@@ -15,7 +18,7 @@ class electromagnetic_wave_1D: public solver
 public:
     electromagnetic_wave_1D(){
         _dim=0;
-        _k = 2*3.14159263;
+        _k = 2*M_PI;
         _c = 1.;
         _Bx=0;
         _By=1.;
diff --git a/src/solver/gem_challenge.cpp b/src/solver/gem_challenge.cpp
index 8a74c48..ef99043 100644
--- a/src/solver/gem_challenge.cpp
+++ b/src/solver/gem_challenge.cpp
@@ -31,7 +31,7 @@ void gem_challenge::solve(qk::variable::variable_manager & variable_manager, con
     double * __restrict__ f;
     double x[3] = {0};
 
-    const double pi = 3.14159263;
+    const double pi = M_PI;
     const double Lx = _Lx;
     const double Ly = 2*Lx;
 
-- 
2.43.0


From 08e7ca0ec583b14ce43d31098159f650bbb7b201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:21 +0000
Subject: [PATCH 20/35] fix: the GEM challenge refuses a wrong number of
 outputs instead of reading past the list

---
 src/solver/gem_challenge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/gem_challenge.cpp b/src/solver/gem_challenge.cpp
index ef99043..096d03a 100644
--- a/src/solver/gem_challenge.cpp
+++ b/src/solver/gem_challenge.cpp
@@ -26,6 +26,10 @@ gem_challenge::~gem_challenge()
 void gem_challenge::solve(qk::variable::variable_manager & variable_manager, const int tag) const
 {
 
+    if (_output_variable_ids.size() != 3) {
+        throw qk::exception("qk::solver::gem_challenge::solve : Must have three output variables (electrons, ions, field).");
+    }
+
     double * __restrict__ e;
     double * __restrict__ i;
     double * __restrict__ f;
-- 
2.43.0


From 9d14ff533a0be8e7b7d0016cf92c34b6efc7657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:21 +0000
Subject: [PATCH 21/35] fix: advection does not share cells between threads

---
 src/solver/ssprk2_advection.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index 82fbcba..8e1292e 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -38,8 +38,7 @@ void advection_iterate(const int start,
     const double * __restrict__ a = n;        //(const double *) __builtin_assume_aligned((const void *) n, 32);
     double * __restrict__ b = np;        //(double *) __builtin_assume_aligned((void *) np, 32);
 
-    // Iterate - should autovectorize
-#pragma omp parallel for
+    // Iterate - each step updates two cells, so the iterations are not independent
     for (int i = start; i < end; i++) {
         // Center cell value
         const double vc = a[i - downstream_stride];
-- 
2.43.0


From 8e77ae8623156c8be3f3217ae703a4c505f5b094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:21 +0000
Subject: [PATCH 22/35] fix: printing a range returns the stream

---
 src/lib/range.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/range.h b/src/lib/range.h
index 2c58532..9892c5a 100644
--- a/src/lib/range.h
+++ b/src/lib/range.h
@@ -61,6 +61,7 @@ public:
             }
         }
         os<<"]";
+        return os;
     }
 
 protected:
-- 
2.43.0


From f35e6f71ea85400980848d5211a98a881384a25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:21 +0000
Subject: [PATCH 23/35] fix: biased meshes keep fractional extents and
 exponents

---
 src/grid/structured.cpp | 8 ++++----
 src/grid/structured.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index eb6a532..20c34f0 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -41,13 +41,13 @@ structured::~structured()
 }
 
 void
-structured::bias_array(double * dxs, const int size, const int pow)
+structured::bias_array(double * dxs, const int size, const double pow)
 {
     // Thi
     double xs[size+1];
     xs[0] = 0.;
     const double dV = 1.0 / double(size);
-    const double invPow = 1. / double(pow);
+    const double invPow = 1. / pow;
     for(int i = 0; i < size; i++){
         xs[i+1]=std::pow(std::pow(xs[i],pow) + dV, invPow);
         dxs[i] = xs[i+1]-xs[i];
@@ -62,7 +62,7 @@ structured::apply_bias_symmetric(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_symmetric : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim)/2.;
+    const double L = width(dim)/2.;
     const int N = length(dim);
 
     if(N %2 == 1){
@@ -89,7 +89,7 @@ structured::apply_bias_linear(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_linear : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim);
+    const double L = width(dim);
     const int N = length(dim);
     double n_dxs[N];
     bias_array(n_dxs,N,pow);
diff --git a/src/grid/structured.h b/src/grid/structured.h
index 6450af6..26d9400 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -32,7 +32,7 @@ public:
 
 protected:
 
-    void bias_array(double * dxs, const int size, const int pow);
+    void bias_array(double * dxs, const int size, const double pow);
     void recalculate_xcs(const int dim);
 
     std::vector<std::vector<double> > _dxs;
-- 
2.43.0


From f54b75c79dac42b17469b2bdf6f4c4614c8e2773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:22 +0000
Subject: [PATCH 24/35] fix: structured meshes that do not start at index 0
 look up their own cells

---
 src/grid/structured.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index 20c34f0..34946c9 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -113,7 +113,7 @@ structured::centroid(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::centroid : Requested index out of range.");
     }
 #endif
-    return _xcs[dim][index];
+    return _xcs[dim][index-lower(dim)];
 }
 
 double
@@ -127,7 +127,7 @@ structured::dx(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::dx : Requested index out of range.");
     }
 #endif
-    return _dxs[dim][index];
+    return _dxs[dim][index-lower(dim)];
 }
 
 void
-- 
2.43.0


From b150e019a58ebd5879d6f6700cfc20a457a3e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:38 +0000
Subject: [PATCH 25/35] fix: printing a variable that does not exist is refused
 instead of creating it

---
 src/solver/print.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/print.cpp b/src/solver/print.cpp
index 9d1d8e8..da5052d 100644
--- a/src/solver/print.cpp
+++ b/src/solver/print.cpp
@@ -17,7 +17,7 @@ void print::solve(qk::variable::variable_manager & variable_manager, const int t
     std::ostream & os = std::cout;
 
     for(const qk::variable::variable_id & var_id : _input_variable_ids){
-        const qk::variable::variable & var = variable_manager.output_variable(var_id);
+        const qk::variable::variable & var = variable_manager.input_variable(var_id);
 
         os << "Printing Variable '"<<var.name()<<"'\n";
 
-- 
2.43.0


From 6cd2289ab990dc8100ca4ba4216f579506b1cec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:09:35 +0000
Subject: [PATCH 26/35] fix: the wall boundary conditions can be included
 together (they shared one include guard)

---
 src/solver/bc_free_slip.h | 6 +++---
 src/solver/bc_no_slip.h   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/solver/bc_free_slip.h b/src/solver/bc_free_slip.h
index e18224c..91f7b8f 100644
--- a/src/solver/bc_free_slip.h
+++ b/src/solver/bc_free_slip.h
@@ -1,5 +1,5 @@
-#ifndef _qk_solver_bc_copy_out_H
-#define _qk_solver_bc_copy_out_H
+#ifndef _qk_solver_bc_free_slip_H
+#define _qk_solver_bc_free_slip_H
 
 // QK includes
 #include "solver/solver.h"
@@ -36,4 +36,4 @@ protected:
 }
 }
 
-#endif // _qk_solver_bc_copy_out_H
+#endif // _qk_solver_bc_free_slip_H
diff --git a/src/solver/bc_no_slip.h b/src/solver/bc_no_slip.h
index e2a9cb9..d0800f6 100644
--- a/src/solver/bc_no_slip.h
+++ b/src/solver/bc_no_slip.h
@@ -1,5 +1,5 @@
-#ifndef _qk_solver_bc_copy_out_H
-#define _qk_solver_bc_copy_out_H
+#ifndef _qk_solver_bc_no_slip_H
+#define _qk_solver_bc_no_slip_H
 
 // QK includes
 #include "solver/solver.h"
@@ -36,4 +36,4 @@ protected:
 }
 }
 
-#endif // _qk_solver_bc_copy_out_H
+#endif // _qk_solver_bc_no_slip_H
-- 
2.43.0


From d6eaa04473aad761c8f6fd5527335f007b39213e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 27/35] fix: a frame that could not be written completely is
 reported

---
 src/variable/variable_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 566326c..71a5f02 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -105,6 +105,9 @@ void variable_manager::write_vtk(const std::string & prefix,
         }
 
         file.close();
+        if(!file){
+            throw qk::exception("qk::variable::variable_manager::write_VTK : File '" + filename + "' could not be written.");
+        }
     }
 
 }
-- 
2.43.0


From d03c73291094e0ad444166e471171418b754f2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:36 +0000
Subject: [PATCH 28/35] fix: a face basis refuses unsupported points before
 changing, and setting up again replaces

---
 src/basis/face_basis.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/basis/face_basis.cpp b/src/basis/face_basis.cpp
index a9ff0e3..1341fa9 100644
--- a/src/basis/face_basis.cpp
+++ b/src/basis/face_basis.cpp
@@ -23,16 +23,16 @@ face_basis::~face_basis()
 
 void face_basis::setup(const int num_dims, const int num_points_per_dim)
 {
-    _num_dims = num_dims;
-    _num_points_per_dim = num_points_per_dim;
-    _num_points = _num_dims * _num_points_per_dim;
-
     if (num_points_per_dim != 1) {
         throw qk::exception("qk::basis::face_basis::setup : Not yet setup for multiple points per dimensions.");
     }
 
-    _normalized_face_points.push_back(0.);
-    _normalized_quadrature_weights.push_back(1.);
+    _num_dims = num_dims;
+    _num_points_per_dim = num_points_per_dim;
+    _num_points = _num_dims * _num_points_per_dim;
+
+    _normalized_face_points.assign(1, 0.);
+    _normalized_quadrature_weights.assign(1, 1.);
 
 }
 
-- 
2.43.0


From 34dba7cec0d086146f1c89011fd55424186fea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:22 +0000
Subject: [PATCH 29/35] fix: copying between chunks refuses ranges outside
 either chunk

---
 src/data/functions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/data/functions.h b/src/data/functions.h
index 67c9dc7..4a510b7 100644
--- a/src/data/functions.h
+++ b/src/data/functions.h
@@ -21,6 +21,9 @@ namespace data
         if(from_range.volume() != to_range.volume()){
             throw qk::exception("qk::data::copy_to : Array mismatch.");
         }
+        if(!from_chunk.includes(from_range) or !to_chunk.includes(to_range)){
+            throw qk::exception("qk::data::copy_to : Requested range extends outside of chunk bounds.");
+        }
 
         qk::indexer from_idx = from_chunk.indexer(from_range);
         qk::indexer to_idx = to_chunk.indexer(to_range);
-- 
2.43.0


From 55a926694df0c69d8e1dd1d5d3bf0aefb15eca95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 30/35] fix: a wave along a dimension the mesh does not have
 reads zero, not garbage

---
 src/solver/electromagnetic_wave_1D.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/electromagnetic_wave_1D.cpp b/src/solver/electromagnetic_wave_1D.cpp
index 8d68a0b..7f979d3 100644
--- a/src/solver/electromagnetic_wave_1D.cpp
+++ b/src/solver/electromagnetic_wave_1D.cpp
@@ -17,7 +17,7 @@ void electromagnetic_wave_1D::solve(qk::variable::variable_manager & variable_ma
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0., 0., 0.};
     double * __restrict__ f;
 
     for (const qk::variable::variable_id var_id : _output_variable_ids) {
-- 
2.43.0


From ea5f7e9f0ae5e02008c7844018ced7f84e5ca6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 31/35] fix: a gas solver used without setup has an adiabatic
 index

---
 src/solver/euler.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/solver/euler.h b/src/solver/euler.h
index c6787c9..6136f94 100644
--- a/src/solver/euler.h
+++ b/src/solver/euler.h
@@ -14,7 +14,11 @@ class euler: public solver
 {
 public:
 
-    euler() = default;
+    euler() :
+            _gamma(1.4)
+    {
+
+    }
     ~euler() = default;
 
     void
-- 
2.43.0


From 981d14eb94b9602342a7c3b8bc0fc4b08efd1909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 32/35] fix: a gaussian or magnetic pulse used without setup
 has an amplitude, a centre and a width

---
 src/solver/gaussian.cpp     | 5 ++++-
 src/solver/magnetic_pulse.h | 7 ++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/solver/gaussian.cpp b/src/solver/gaussian.cpp
index f5cc080..0856aa9 100644
--- a/src/solver/gaussian.cpp
+++ b/src/solver/gaussian.cpp
@@ -12,7 +12,10 @@ namespace qk
 namespace solver
 {
 
-gaussian::gaussian()
+gaussian::gaussian():
+    _amplitude(1.),
+    _average(3,0.),
+    _standard_deviation(1.)
 {
 
 }
diff --git a/src/solver/magnetic_pulse.h b/src/solver/magnetic_pulse.h
index 05b3560..310a86f 100644
--- a/src/solver/magnetic_pulse.h
+++ b/src/solver/magnetic_pulse.h
@@ -13,7 +13,12 @@ namespace solver
 class magnetic_pulse: public solver
 {
 public:
-    magnetic_pulse() = default;
+    magnetic_pulse() :
+            _amplitude(1.),
+            _standard_deviation(1.)
+    {
+
+    }
     ~magnetic_pulse() = default;
 
     void setup(const double amplitude, const double standard_deviation)
-- 
2.43.0


From 3bfc03d2ea99e2a31c027510a735ff99e36361e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 33/35] fix: a GEM challenge used without setup has the
 parameters of the problem

---
 src/solver/gem_challenge.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/solver/gem_challenge.cpp b/src/solver/gem_challenge.cpp
index 096d03a..061e85a 100644
--- a/src/solver/gem_challenge.cpp
+++ b/src/solver/gem_challenge.cpp
@@ -12,7 +12,21 @@ namespace qk
 namespace solver
 {
 
-gem_challenge::gem_challenge()
+gem_challenge::gem_challenge() :
+        _lambda(0.5),
+        _Lx(12.8),
+        _n0(1.),
+        _n1(0.2),
+        _gamma(5./3.),
+        _qe(-1.),
+        _qi(1.),
+        _me(0.04),
+        _mi(1.),
+        _ue(0.),
+        _ui(0.),
+        _Te(1./12.),
+        _Ti(5./12.),
+        _B0(1.)
 {
 
 }
-- 
2.43.0


From 9796f2962e0c83735f1d2a337601343d765ee661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 34/35] fix: time and time step are zero until they are set

---
 src/variable/variable_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 71a5f02..e19e1db 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -13,7 +13,9 @@ namespace variable
 {
 
 variable_manager::variable_manager(const qk::grid::grid & grid) :
-        _grid(grid)
+        _grid(grid),
+        _dt(0.),
+        _time(0.)
 {
 
 }
-- 
2.43.0


From 742054433f754b32ce1d61cd0e8f0ef442e73fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 35/35] fix: advection refuses a velocity with fewer components
 than the mesh has dimensions

---
 src/solver/ssprk2_advection.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index 8e1292e..e60c15e 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -169,6 +169,10 @@ void ssprk2_advection::solve(qk::variable::variable_manager & variable_manager,
 
     const qk::grid::rectilinear & grid = dynamic_cast<const qk::grid::rectilinear &>(variable_manager.grid());
 
+    if (_velocity.size() < grid.num_dims()) {
+        throw qk::exception("qk::solver::ssprk2_advection::solve : Velocity must have a component for every dimension of the mesh.");
+    }
+
     const double time = variable_manager.time();
     const double dt = variable_manager.dt();
 
-- 
2.43.0

