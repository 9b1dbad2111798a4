From 555f040f3467fe846263de306e9b8e0c5a018366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:05 +0000
Subject: [PATCH 01/39] fix: tolerate roundoff at block and surface boundaries
 when querying

Fractional indices that exceed the grid by roundoff, and elevations that fall
between blocks by roundoff, aborted the process in an assertion.
---
 libsrc/geomodelgrids/serial/Block.cc   | 6 ++++++
 libsrc/geomodelgrids/serial/Model.cc   | 5 +++++
 libsrc/geomodelgrids/serial/Surface.cc | 8 ++++++--
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index cec79b2..3b6db67 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -331,6 +331,12 @@ geomodelgrids::serial::Block::query(const double x,
     index[1] = _indexingY->getIndex(y);
     index[2] = _indexingZ->getIndex(_zTop - z);
 
+    // Remove effects of roundoff at boundary of block.
+    for (size_t i = 0; i < 3; ++i) {
+        assert(_dims[i] > 0);
+        index[i] = std::min(std::max(index[i], 0.0), double(_dims[i]-1));
+    } // for
+
     assert( (_numValues > 0 && _values) || (!_numValues && !_values) );
 
     assert(_hyperslab);
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index ffb0efb..0c06c00 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -506,6 +506,11 @@ geomodelgrids::serial::Model::_findBlock(const double x,
             return block;
         } // if
     } // for
+    for (auto block : _blocks) { // Permit roundoff in elevation of block boundaries.
+        if (( z <= block->getZTop() + TOLERANCE) && ( z >= block->getZBottom() - TOLERANCE) ) {
+            return block;
+        } // if
+    } // for
     static std::shared_ptr<geomodelgrids::serial::Block> empty;
     return empty;
 } // _findBlock
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 648d93c..09f4397 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -217,8 +217,12 @@ geomodelgrids::serial::Surface::query(const double x,
     index[1] = _indexingY->getIndex(y);
 
     double elevation = geomodelgrids::NODATA_VALUE;
-    if ((index[0] >= 0) && (index[0] <= double(_dims[0]-1))
-        && (index[1] >= 0) && (index[1] <= double(_dims[1]-1))) {
+    const double tolerance = 1.0e-6; // Tolerance for roundoff at boundary of surface.
+    if ((index[0] >= -tolerance) && (index[0] <= double(_dims[0]-1) + tolerance)
+        && (index[1] >= -tolerance) && (index[1] <= double(_dims[1]-1) + tolerance)) {
+        for (size_t i = 0; i < 2; ++i) {
+            index[i] = std::min(std::max(index[i], 0.0), double(_dims[i]-1));
+        } // for
         assert(_hyperslab);
         _hyperslab->interpolate(&elevation, index);
     } // if
-- 
2.43.0


From 3667293ba368b12929ce1887c13973ff86d46dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:13 +0000
Subject: [PATCH 02/39] fix: decide no-data from contributing grid points only

At a point on a face of a grid cell, grid points with zero weight made the value
no-data depending on which part of the dataset happened to be cached.
---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 62edad3..33fd4a7 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -369,6 +369,13 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
         indexSlab[2] - dfloor[2],
     };
 
+    // Weights along each axis.
+    const double wtsAxis[spaceDim][2] = {
+        { 1.0 - xRef[0], xRef[0] },
+        { 1.0 - xRef[1], xRef[1] },
+        { 1.0 - xRef[2], xRef[2] },
+    };
+
     const double wts[2][2][2] = {
         {
             {
@@ -420,14 +427,17 @@ geomodelgrids::serial::_Hyperslab::_interpolate3D(double* const values,
                 for (hsize_t kDim = 0; kDim < 2; ++kDim) {
                     const double interpolateValue = _hyperslab._values[ii[iDim][jDim][kDim] + iValue];
                     if (fabs(1.0 - interpolateValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
-                        hasNoDataValue = true;
+                        if ((wtsAxis[0][iDim] > tolerance) && (wtsAxis[1][jDim] > tolerance) && (wtsAxis[2][kDim] > tolerance)) {
+                            hasNoDataValue = true;
+                        } // if
+                        continue;
                     } // if
                     values[iValue] += wts[iDim][jDim][kDim] * interpolateValue;
                 } // for
             } // for
         } // for
         if (hasNoDataValue) {
-            // Set value to NODATA_VALUE if any values used in interpolation are NODATA_VALUE.
+            // Set value to NODATA_VALUE if any values contributing to interpolation are NODATA_VALUE.
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
     } // for
-- 
2.43.0


From 321f4a57715a84890a0e28744277be1104aca7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:45 +0000
Subject: [PATCH 03/39] fix: index coordinates outside variable resolution
 grids without aborting

A point outside a surface or block with variable resolution (or not finite)
aborted the process in an assertion instead of being outside the domain.
---
 libsrc/geomodelgrids/utils/Indexing.cc | 14 +++++++-------
 libsrc/geomodelgrids/utils/Indexing.hh |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 96060fa..0f9e41f 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -78,9 +78,10 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
     size_t indexL = 0;
     size_t indexR = _numX - 1;
     const double xN = (_order == ASCENDING) ? _x[0] + x : _x[0] - x;
-    const double tolerance = 1.0e-6;
-    assert((ASCENDING == _order && (xN >= _x[indexL]-tolerance) && (xN <= _x[indexR]+tolerance)) ||
-           (DESCENDING == _order && (xN <= _x[indexL]+tolerance) && (xN >= _x[indexR]-tolerance)));
+    if (1 == _numX) {
+        // Single coordinate; distance from it.
+        return x;
+    } // if
 
     typedef bool (*cmp_fn)(const double,
                            const double);
@@ -94,10 +95,9 @@ geomodelgrids::utils::IndexingVariable::getIndex(const double x) const {
             indexL = indexM;
         } // if/else
     } // while
-    assert((ASCENDING == _order && xN >= _x[indexL]-tolerance && _x[indexR] > _x[indexL]) ||
-           (DESCENDING == _order && xN <= _x[indexL]+tolerance && _x[indexR] <= _x[indexL]));
-
-    index = double(indexL) + (xN - _x[indexL]) / (_x[indexR] - _x[indexL]);
+    // Coordinates outside the range of the grid coordinates give indices outside the grid.
+    const double dx = _x[indexR] - _x[indexL];
+    index = double(indexL) + ((dx != 0.0) ? (xN - _x[indexL]) / dx : (_order == ASCENDING) ? xN - _x[indexL] : _x[indexL] - xN);
     return index;
 }
 
diff --git a/libsrc/geomodelgrids/utils/Indexing.hh b/libsrc/geomodelgrids/utils/Indexing.hh
index a82a92f..e4b9f0b 100644
--- a/libsrc/geomodelgrids/utils/Indexing.hh
+++ b/libsrc/geomodelgrids/utils/Indexing.hh
@@ -103,7 +103,7 @@ public:
     inline static
     bool greater(const double x,
                  const double y) {
-        return x >= y;
+        return x > y;
     }
 
     // PRIVATE ------------------------------------------------------------------------------------
-- 
2.43.0


From 0b4f71d28d9c2947905070fefcee9d6b73b9a132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 04/39] fix: report attributes and links of unexpected kind
 instead of aborting

---
 libsrc/geomodelgrids/serial/HDF5.cc | 129 +++++++++++++++-------------
 1 file changed, 68 insertions(+), 61 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index 75bb504..e4a8c25 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -93,10 +93,14 @@ geomodelgrids::serial::HDF5::open(const char* filename,
     hid_t fileAccess = H5Pcreate(H5P_FILE_ACCESS);
     if (fileAccess < 0) { throw std::runtime_error("Could not create property for HDF5 cache parameters."); }
     herr_t err = H5Pset_cache(fileAccess, 0, _cacheNumSlots, _cacheSize, _cachePreemption);
-    if (err < 0) { throw std::runtime_error("Could not set HDF5 file cache properties."); }
+    if (err < 0) {
+        H5Pclose(fileAccess);
+        throw std::runtime_error("Could not set HDF5 file cache properties.");
+    } // if
 
     if (hid_t(H5F_ACC_TRUNC) == mode) {
         _file = H5Fcreate(filename, mode, H5P_DEFAULT, fileAccess);
+        H5Pclose(fileAccess);
         if (_file < 0) {
             std::ostringstream msg;
             msg << "Could not create HDF5 file '" << filename << "'.";
@@ -105,14 +109,13 @@ geomodelgrids::serial::HDF5::open(const char* filename,
 
     } else {
         _file = H5Fopen(filename, mode, fileAccess);
+        H5Pclose(fileAccess);
         if (_file < 0) {
             std::ostringstream msg;
             msg << "Could not open existing HDF5 file '" << filename << "'.";
             throw std::runtime_error(msg.str());
         } // if
     } // if/else
-
-    H5Pclose(fileAccess);
 } // constructor
 
 
@@ -146,17 +149,17 @@ geomodelgrids::serial::HDF5::hasGroup(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if (H5Lexists(_file, name, H5P_DEFAULT) > 0) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { return false; } // Broken link
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
-        if (H5O_TYPE_GROUP == info.type) {
+        if ((err >= 0) && (H5O_TYPE_GROUP == info.type)) {
             exists = true;
         } // if
     } // if
@@ -173,17 +176,17 @@ geomodelgrids::serial::HDF5::hasDataset(const char* name) {
     assert(name);
 
     bool exists = false;
-    if (H5Lexists(_file, name, H5P_DEFAULT)) {
+    if (H5Lexists(_file, name, H5P_DEFAULT) > 0) {
         _HDF5Access h5access;
-        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);assert(h5access.object >= 0);
+        h5access.object = H5Oopen(_file, name, H5P_DEFAULT);
+        if (h5access.object < 0) { return false; } // Broken link
         H5O_info_t info;
 #if defined(GEOMODELGRIDS_HDF5_USE_API_112)
         herr_t err = H5Oget_info(h5access.object, &info, H5O_INFO_ALL);
 #else
         herr_t err = H5Oget_info(h5access.object, &info);
 #endif
-        assert(err >= 0);
-        if (H5O_TYPE_DATASET == info.type) {
+        if ((err >= 0) && (H5O_TYPE_DATASET == info.type)) {
             exists = true;
         } // if
     } // if
@@ -253,10 +256,15 @@ geomodelgrids::serial::HDF5::getGroupDatasets(std::vector<std::string>* names,
 
         names->resize(gsize);
         for (int i = 0, index = 0; i < gsize; ++i) {
-            char buffer[256];
-            ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
-                                                 buffer, 256, H5P_DEFAULT);assert(namelen > 0);
-            (*names)[index++] = buffer;
+            const ssize_t namelen = H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
+                                                       nullptr, 0, H5P_DEFAULT);
+            if (namelen <= 0) { throw std::runtime_error("Could not get name of dataset."); }
+            std::vector<char> buffer(namelen+1, '\0');
+            if (H5Lget_name_by_idx(h5access.group, ".", H5_INDEX_NAME, H5_ITER_NATIVE, i,
+                                   buffer.data(), buffer.size(), H5P_DEFAULT) < 0) {
+                throw std::runtime_error("Could not get name of dataset.");
+            } // if
+            (*names)[index++] = buffer.data();
         } // for
 
     } catch (const std::exception& err) {
@@ -299,7 +307,13 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
         h5access.attribute = H5Aopen_by_name(_file, path, name, H5P_DEFAULT, H5P_DEFAULT);
         if (h5access.attribute < 0) { throw std::runtime_error("Could not open"); }
 
-        hid_t err = H5Aread(h5access.attribute, datatype, value);
+        h5access.dataspace = H5Aget_space(h5access.attribute);
+        if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        if (H5Sget_simple_extent_npoints(h5access.dataspace) != 1) {
+            throw std::runtime_error("Expected a single value for");
+        } // if
+
+        herr_t err = H5Aread(h5access.attribute, datatype, value);
         if (err < 0) { throw std::runtime_error("Could not read"); }
 
     } catch (std::exception& err) {
@@ -331,19 +345,23 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
+        if (H5Sget_simple_extent_ndims(h5access.dataspace) != 1) { throw std::runtime_error("Expected a 1-D array for"); }
         hsize_t dims[1];
         H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numValues = dims[0];assert(numValues > 0);
+        const hsize_t numValues = dims[0];
+        if (0 == numValues) { throw std::runtime_error("Expected at least one value for"); }
 
         hsize_t typeNumBytes = H5Tget_size(datatype);
-        void* buffer = (void*) new char[numValues * typeNumBytes];
+        char* buffer = new char[numValues * typeNumBytes];
 
         herr_t err = H5Aread(h5access.attribute, datatype, buffer);
-        if (err < 0) { throw std::runtime_error("Could not read"); }
+        if (err < 0) {
+            delete[] buffer;buffer = nullptr;
+            throw std::runtime_error("Could not read");
+        } // if
 
         *valuesSize = numValues;
-        *values = buffer;
+        *values = (void*) buffer;
     } catch (std::exception& err) {
         std::ostringstream msg;
         msg << err.what() << " attribute '" << name << "' of '" << path << "'.";
@@ -374,22 +392,21 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
+        if (H5T_STRING != H5Tget_class(h5access.datatype)) { throw std::runtime_error("Expected a string for"); }
+        if (H5Sget_simple_extent_npoints(h5access.dataspace) != 1) { throw std::runtime_error("Expected a single string for"); }
 
-        char* buffer = nullptr;
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
             const hsize_t stringLength = H5Tget_size(h5access.datatype);
-            buffer = new char[stringLength+1];assert(buffer);
-            buffer[stringLength] = '\0';
+            std::vector<char> buffer(stringLength+1, '\0');
 
-            herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
+            herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer.data());
             if (err < 0) { throw std::runtime_error("Could not read"); }
-            value = buffer;
-
-            delete[] buffer;buffer = nullptr;
+            value = buffer.data();
         } else {
+            char* buffer = nullptr;
             herr_t err = H5Aread(h5access.attribute, h5access.datatype, &buffer);
             if (err < 0) { throw std::runtime_error("Could not read"); }
-            value = buffer;
+            if (buffer) { value = buffer; }
 
             err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, &buffer);
             if (err < 0) { throw std::runtime_error("Could not reclaim variable length string for"); }
@@ -426,49 +443,37 @@ geomodelgrids::serial::HDF5::readAttribute(const char* path,
 
         h5access.dataspace = H5Aget_space(h5access.attribute);
         if (h5access.dataspace < 0) { throw std::runtime_error("Could not get dataspace of"); }
-        const hsize_t ndims = H5Sget_simple_extent_ndims(h5access.dataspace);assert(1 == ndims);
-        hsize_t dims[1];
-        H5Sget_simple_extent_dims(h5access.dataspace, dims, nullptr);
-        const hsize_t numStrings = dims[0];assert(numStrings > 0);
-
-        char** buffer = new char*[numStrings];
+        const hssize_t numStrings = H5Sget_simple_extent_npoints(h5access.dataspace);
+        values->clear();
+        if (numStrings < 0) { throw std::runtime_error("Could not get size of"); }
+        if (0 == numStrings) { return; } // Empty list (may be stored with any type).
+        if (H5Sget_simple_extent_ndims(h5access.dataspace) != 1) { throw std::runtime_error("Expected a 1-D array for"); }
+        if (H5T_STRING != H5Tget_class(h5access.datatype)) { throw std::runtime_error("Expected strings for"); }
+
+        values->resize(numStrings);
         if (0 == H5Tis_variable_str(h5access.datatype)) { // Fixed length strings
-            hsize_t stringLength = H5Tget_size(h5access.datatype);
-            buffer[0] = new char[numStrings * stringLength];assert(buffer[0]);
-            for (size_t i = 1; i < numStrings; ++i) {
-                buffer[i] = buffer[0] + i*stringLength;
-            } // for
-
-            herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer[0]);
+            const hsize_t stringLength = H5Tget_size(h5access.datatype);
+            std::vector<char> buffer(numStrings * stringLength);
+            herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer.data());
             if (err < 0) { throw std::runtime_error("Could not read"); }
 
-            values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
-                char* tmp = new char[stringLength+1];
-                for (hsize_t p = 0; p < stringLength; ++p) {
-                    tmp[p] = buffer[i][p];
-                } // for
-                tmp[stringLength] = '\0';
-                (*values)[i] = tmp;
-                delete[] tmp;tmp = nullptr;
+                const char* string = &buffer[i*stringLength];
+                (*values)[i] = std::string(string, strnlen(string, stringLength));
             } // for
-
-            delete[] buffer[0];buffer[0] = nullptr;
         } else {
-            herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer);
+            std::vector<char*> buffer(numStrings, nullptr);
+            herr_t err = H5Aread(h5access.attribute, h5access.datatype, buffer.data());
             if (err < 0) { throw std::runtime_error("Could not read"); }
 
-            values->resize(numStrings);
             for (size_t i = 0; i < values->size(); ++i) {
-                (*values)[i] = buffer[i];
+                if (buffer[i]) { (*values)[i] = buffer[i]; }
             } // for
 
-            err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, buffer);
+            err = H5Dvlen_reclaim(h5access.datatype, h5access.dataspace, H5P_DEFAULT, buffer.data());
             if (err < 0) { throw std::runtime_error("Could not reclaim variable length string for"); }
         } // if/else
 
-        delete[] buffer;buffer = nullptr;
-
     } catch (std::exception& err) {
         std::ostringstream msg;
         msg << err.what() << " attribute '" << name << "' of '" << path << "'.";
@@ -540,11 +545,13 @@ geomodelgrids::serial::HDF5::readDatasetHyperslab(void* values,
         herr_t err = H5Sselect_hyperslab(h5access.dataspace, H5S_SELECT_SET, origin, stride, count, dims);
         delete[] stride;stride = nullptr;
         delete[] count;count = nullptr;
-        if (err < 0) { throw std::runtime_error("Could not select hyperslab."); }
+        if (err < 0) {
+            H5Sclose(memspace);memspace = H5_NULL;
+            throw std::runtime_error("Could not select hyperslab.");
+        } // if
         err = H5Dread(h5access.dataset, datatype, memspace, h5access.dataspace, H5P_DEFAULT, values);
-        if (err < 0) { throw std::runtime_error("Could not read hyperslab."); }
-
         H5Sclose(memspace);memspace = H5_NULL;
+        if (err < 0) { throw std::runtime_error("Could not read hyperslab."); }
     } catch (const std::exception& err) {
         std::ostringstream msg;
         msg << "Error occurred while reading dataset '"
-- 
2.43.0


From a7e2c812505ed6e0ca6d55e4b4f43998bee79274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:16 +0000
Subject: [PATCH 05/39] fix: forget the cached window of values when reading it
 fails

---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 33fd4a7..5e850b5 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -223,8 +223,14 @@ geomodelgrids::serial::_Hyperslab::getSlab(const double indexFloat[]) {
             origin[i] = index;
         } // for
 
-        _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
-                                             H5T_NATIVE_DOUBLE);
+        try {
+            _hyperslab._h5->readDatasetHyperslab(_hyperslab._values, _hyperslab._datasetPath.c_str(), origin, dims, ndims,
+                                                 H5T_NATIVE_DOUBLE);
+        } catch (...) {
+            // Values do not correspond to the origin.
+            delete[] _hyperslab._origin;_hyperslab._origin = nullptr;
+            throw;
+        } // try/catch
     } // if
 } // getSlab
 
-- 
2.43.0


From bae47fb90ddb830b37f997e10e0a5ac595fbc125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 06/39] fix: refuse model files with inconsistent grids and
 values instead of reading out of bounds

---
 libsrc/geomodelgrids/serial/Block.cc   | 25 ++++++++++++++++++++++++-
 libsrc/geomodelgrids/serial/Model.cc   | 15 +++++++++++++++
 libsrc/geomodelgrids/serial/Surface.cc | 22 +++++++++++++++++++++-
 libsrc/geomodelgrids/utils/Indexing.cc |  2 +-
 4 files changed, 61 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 3b6db67..9c276fb 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -11,6 +11,7 @@
 #include <stdexcept> // USES std::runtime_error
 #include <sstream> // USES std::ostringstream
 #include <cassert> // USES assert()
+#include <cmath> // USES std::isfinite()
 
 // ------------------------------------------------------------------------------------------------
 // Default constructor.
@@ -69,6 +70,7 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     std::ostringstream msg;
     const char* indent = "            ";
     bool attributeErrors = false;
+    const auto isFinite = [](const double value) { return std::isfinite(value); };
 
     size_t dims[3];
     if (h5->hasAttribute(blockPath.c_str(), "x_resolution")) {
@@ -76,6 +78,9 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "x_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "x_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesX, &dims[0]);
+            if (!std::all_of(_coordinatesX, _coordinatesX+dims[0], isFinite)) {
+                throw std::runtime_error("Attribute 'x_coordinates' of '" + blockPath + "' contains values that are not finite.");
+            } // if
             std::sort(_coordinatesX, _coordinatesX+dims[0], geomodelgrids::utils::IndexingVariable::less);
         } else {
             msg << indent << "    /" << blockPath << "/x_resolution or /" << blockPath << "/x_coordinates\n";
@@ -88,6 +93,9 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "y_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "y_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesY, &dims[1]);
+            if (!std::all_of(_coordinatesY, _coordinatesY+dims[1], isFinite)) {
+                throw std::runtime_error("Attribute 'y_coordinates' of '" + blockPath + "' contains values that are not finite.");
+            } // if
             std::sort(_coordinatesY, _coordinatesY+dims[1], geomodelgrids::utils::IndexingVariable::less);
         } else {
             msg << indent << "    /" << blockPath << "/y_resolution or /" << blockPath << "/y_coordinates\n";
@@ -100,6 +108,9 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "z_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "z_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesZ, &dims[2]);
+            if (!std::all_of(_coordinatesZ, _coordinatesZ+dims[2], isFinite)) {
+                throw std::runtime_error("Attribute 'z_coordinates' of '" + blockPath + "' contains values that are not finite.");
+            } // if
             std::sort(_coordinatesZ, _coordinatesZ+dims[2], geomodelgrids::utils::IndexingVariable::greater);
         } else {
             msg << indent << "    /" << blockPath << "/z_resolution or /" << blockPath << "/z_coordinates\n";
@@ -110,6 +121,10 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     if (h5->hasAttribute(blockPath.c_str(), "z_resolution")) {
         if (h5->hasAttribute(blockPath.c_str(), "z_top")) {
             h5->readAttribute(blockPath.c_str(), "z_top", H5T_NATIVE_DOUBLE, (void*)&_zTop);
+            if (!std::isfinite(_zTop)) {
+                msg << indent << "    " << blockPath << "/z_top is not finite\n";
+                attributeErrors = true;
+            } // if
         } else {
             msg << indent << "    " << blockPath << "/z_top\n";
             attributeErrors = true;
@@ -122,9 +137,17 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, blockPath.c_str());
-    assert(4 == ndims);
+    if (4 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    /" << blockPath << " has " << ndims << " dimensions (expected 4)\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 3; ++i) {
         _dims[i] = hdims[i];
+        if (_dims[i] < 2) {
+            msg << indent << "    /" << blockPath << " must have at least 2 points along each axis\n";
+            attributeErrors = true;
+        } // if
     } // for
 
     if (0 == _hyperslabDims[2]) {
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index 0c06c00..b2efd1e 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -244,6 +244,21 @@ geomodelgrids::serial::Model::loadMetadata(void) {
     } // for
     std::sort(_blocks.begin(), _blocks.end(), Block::compare);
 
+    if (!missingAttributes) { // Check consistency of values.
+        if (_valueUnits.size() != _valueNames.size()) {
+            msg << indent << "    /data_units (" << _valueUnits.size() << " items) does not match /data_values ("
+                << _valueNames.size() << " items)\n";
+            missingAttributes = true;
+        } // if
+        for (size_t i = 0; i < numBlocks; ++i) {
+            if (_blocks[i]->getNumValues() != _valueNames.size()) {
+                msg << indent << "    Number of values in block " << _blocks[i]->getName() << " (" << _blocks[i]->getNumValues()
+                    << ") does not match /data_values (" << _valueNames.size() << " items)\n";
+                missingAttributes = true;
+            } // if
+        } // for
+    } // if
+
     if (missingAttributes) { throw std::runtime_error(msg.str().c_str()); }
 } // loadMetadata
 
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 09f4397..5c1650c 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -12,6 +12,7 @@
 #include <stdexcept> // USES std::runtime_error
 #include <sstream> // USES std::ostringstream
 #include <cassert> // USES assert()
+#include <cmath> // USES std::isfinite()
 
 // ------------------------------------------------------------------------------------------------
 // Default constructor.
@@ -56,6 +57,7 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     std::ostringstream msg;
     const char* indent = "            ";
     bool attributeErrors = false;
+    const auto isFinite = [](const double value) { return std::isfinite(value); };
 
     size_t dims[2];
     if (h5->hasAttribute(surfacePath.c_str(), "x_resolution")) {
@@ -63,6 +65,9 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     } else {
         if (h5->hasAttribute(surfacePath.c_str(), "x_coordinates")) {
             h5->readAttribute(surfacePath.c_str(), "x_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesX, &dims[0]);
+            if (!std::all_of(_coordinatesX, _coordinatesX+dims[0], isFinite)) {
+                throw std::runtime_error("Attribute 'x_coordinates' of '" + surfacePath + "' contains values that are not finite.");
+            } // if
             std::sort(_coordinatesX, _coordinatesX+dims[0], geomodelgrids::utils::IndexingVariable::less);
         } else {
             msg << indent << "    /" << surfacePath << "/x_resolution or /" << surfacePath << "/x_coordinates\n";
@@ -75,6 +80,9 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     } else {
         if (h5->hasAttribute(surfacePath.c_str(), "y_coordinates")) {
             h5->readAttribute(surfacePath.c_str(), "y_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesY, &dims[1]);
+            if (!std::all_of(_coordinatesY, _coordinatesY+dims[1], isFinite)) {
+                throw std::runtime_error("Attribute 'y_coordinates' of '" + surfacePath + "' contains values that are not finite.");
+            } // if
             std::sort(_coordinatesY, _coordinatesY+dims[1], geomodelgrids::utils::IndexingVariable::less);
         } else {
             msg << indent << "    /" << surfacePath << "/y_resolution or /" << surfacePath << "/y_coordinates\n";
@@ -85,10 +93,22 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     hsize_t* hdims = nullptr;
     int ndims = 0;
     h5->getDatasetDims(&hdims, &ndims, surfacePath.c_str());
-    assert(3 == ndims);
+    if (3 != ndims) {
+        delete[] hdims;hdims = nullptr;
+        msg << indent << "    /" << surfacePath << " has " << ndims << " dimensions (expected 3)\n";
+        throw std::runtime_error(msg.str().c_str());
+    } // if
     for (int i = 0; i < 2; ++i) {
         _dims[i] = hdims[i];
+        if (_dims[i] < 2) {
+            msg << indent << "    /" << surfacePath << " must have at least 2 points along each axis\n";
+            attributeErrors = true;
+        } // if
     } // for
+    if (1 != hdims[2]) {
+        msg << indent << "    /" << surfacePath << " must have 1 value per point\n";
+        attributeErrors = true;
+    } // if
     delete[] hdims;hdims = nullptr;
 
     // Check to make sure dimensions of surface match coordinates (if provided).
diff --git a/libsrc/geomodelgrids/utils/Indexing.cc b/libsrc/geomodelgrids/utils/Indexing.cc
index 0f9e41f..3fec351 100644
--- a/libsrc/geomodelgrids/utils/Indexing.cc
+++ b/libsrc/geomodelgrids/utils/Indexing.cc
@@ -17,7 +17,7 @@ geomodelgrids::utils::Indexing::~Indexing(void) {}
 // ------------------------------------------------------------------------------------------------
 geomodelgrids::utils::IndexingUniform::IndexingUniform(const double dx) :
     _dx(dx) {
-    if (dx <= 0.0) {
+    if (!(dx > 0.0)) { // includes NaN
         std::ostringstream msg;
         msg << "Non-positive value (" << dx << ") for uniform resolution indexing.";
         throw std::invalid_argument(msg.str());
-- 
2.43.0


From 3d0e8e1c9be5e3b3628a6c08c6513e8371b8afb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:03 +0000
Subject: [PATCH 07/39] fix: raise errors instead of aborting when models are
 not ready or do not cover a point

---
 libsrc/geomodelgrids/serial/Block.cc  |  6 ++++++
 libsrc/geomodelgrids/serial/Model.cc  | 27 +++++++++++++++++++++++----
 libsrc/geomodelgrids/serial/Query.cc  | 25 ++++++++++++++-----------
 libsrc/geomodelgrids/serial/cquery.cc |  7 ++++++-
 4 files changed, 49 insertions(+), 16 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 9c276fb..670d318 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -355,8 +355,14 @@ geomodelgrids::serial::Block::query(const double x,
     index[2] = _indexingZ->getIndex(_zTop - z);
 
     // Remove effects of roundoff at boundary of block.
+    const double tolerance = 1.0e-2;
     for (size_t i = 0; i < 3; ++i) {
         assert(_dims[i] > 0);
+        if (!((index[i] >= -tolerance) && (index[i] <= double(_dims[i]-1) + tolerance))) {
+            std::ostringstream msg;
+            msg << "Point (" << x << ", " << y << ", " << z << ") is not in block '" << _name << "'.";
+            throw std::runtime_error(msg.str());
+        } // if
         index[i] = std::min(std::max(index[i], 0.0), double(_dims[i]-1));
     } // for
 
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index b2efd1e..e2d8d25 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -54,6 +54,7 @@ geomodelgrids::serial::Model::open(const char* filename,
                                    ModelMode mode) {
     assert(filename);
 
+    this->close();
     _h5 = std::make_unique<geomodelgrids::serial::HDF5>();
     hid_t h5Mode = H5F_ACC_RDONLY;
     switch (mode) {
@@ -101,6 +102,8 @@ geomodelgrids::serial::Model::close(void) {
     for (size_t i = 0; i < _blocks.size(); ++i) {
         _blocks[i].reset();
     } // for
+    _blocks.clear();
+    _crsTransformer.reset();
 } // close
 
 
@@ -108,9 +111,10 @@ geomodelgrids::serial::Model::close(void) {
 // Load metadata.
 void
 geomodelgrids::serial::Model::loadMetadata(void) {
-    if (!_h5) {
+    if (!_h5 || !_h5->isOpen()) {
         throw std::logic_error("Model not open. Call open() before loading metadata.");
     } // if
+    _crsTransformer.reset();
 
     std::ostringstream msg;
     const char* indent = "            ";
@@ -267,6 +271,10 @@ geomodelgrids::serial::Model::loadMetadata(void) {
 // Initialize.
 void
 geomodelgrids::serial::Model::initialize(void) {
+    if (!_h5 || !_h5->isOpen()) {
+        throw std::logic_error("Model not open. Call open() and loadMetadata() before initialize().");
+    } // if
+
     // Initialize CRS transformation
     _crsTransformer = std::make_shared<geomodelgrids::utils::CRSTransformer>();
     _crsTransformer->setSrc(_inputCRSString.c_str());
@@ -466,9 +474,18 @@ geomodelgrids::serial::Model::query(const double x,
     double yModel = 0.0;
     double zModel = 0.0;
     _toModelXYZ(&xModel, &yModel, &zModel, x, y, z);
-    assert(contains(x, y, z));
+    if (!contains(x, y, z)) {
+        std::ostringstream msg;
+        msg << "Point (" << x << ", " << y << ", " << z << ") is not in model.";
+        throw std::runtime_error(msg.str());
+    } // if
 
-    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);assert(block);
+    std::shared_ptr<geomodelgrids::serial::Block> block = _findBlock(xModel, yModel, zModel);
+    if (!block) {
+        std::ostringstream msg;
+        msg << "Could not find block containing point (" << x << ", " << y << ", " << z << ") in model.";
+        throw std::runtime_error(msg.str());
+    } // if
     return block->query(xModel, yModel, zModel);
 } // query
 
@@ -483,7 +500,9 @@ geomodelgrids::serial::Model::_toModelXYZ(double* xModel,
                                           const double z) const {
     assert(xModel);
     assert(yModel);
-    assert(_crsTransformer);
+    if (!_crsTransformer) {
+        throw std::logic_error("Model not initialized for queries. Call open(), loadMetadata(), and initialize() before querying.");
+    } // if
 
     double xModelCRS = 0.0;
     double yModelCRS = 0.0;
diff --git a/libsrc/geomodelgrids/serial/Query.cc b/libsrc/geomodelgrids/serial/Query.cc
index 4b63196..6d969b8 100644
--- a/libsrc/geomodelgrids/serial/Query.cc
+++ b/libsrc/geomodelgrids/serial/Query.cc
@@ -91,29 +91,32 @@ void
 geomodelgrids::serial::Query::initialize(const std::vector<std::string>& modelFilenames,
                                          const std::vector<std::string>& valueNames,
                                          const std::string& inputCRSString) {
-    _valuesLowercase = _Query::toLower(valueNames);
-
+    _valuesLowercase.clear(); // Not initialized until models are ready.
     for (size_t i = 0; i < _models.size(); ++i) {
         _models[i].reset();
     } // for
+    _models.clear();
 
+    const std::vector<std::string>& valuesLowercase = _Query::toLower(valueNames);
     const size_t numModels = modelFilenames.size();
-    _models.resize(numModels);
+    std::vector<std::unique_ptr<geomodelgrids::serial::Model> > models(numModels);
     _valuesIndex.resize(numModels);
     std::map<size_t, std::string> valueUnits;
     for (size_t iModel = 0; iModel < numModels; ++iModel) {
-        _models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(_models[iModel]);
-        _models[iModel]->setInputCRS(inputCRSString);
-        _models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
-        _models[iModel]->loadMetadata();
-        _models[iModel]->initialize();
+        models[iModel] = std::make_unique<geomodelgrids::serial::Model>();assert(models[iModel]);
+        models[iModel]->setInputCRS(inputCRSString);
+        models[iModel]->open(modelFilenames[iModel].c_str(), geomodelgrids::serial::Model::READ);
+        models[iModel]->loadMetadata();
+        models[iModel]->initialize();
 
-        _valuesIndex[iModel] = _Query::createModelValuesIndex(*_models[iModel], _valuesLowercase);
+        _valuesIndex[iModel] = _Query::createModelValuesIndex(*models[iModel], valuesLowercase);
 
-        const std::vector<std::string>& modelValues = _models[iModel]->getValueNames();
-        const std::vector<std::string>& modelUnitsLower = _Query::toLower(_models[iModel]->getValueUnits());
+        const std::vector<std::string>& modelValues = models[iModel]->getValueNames();
+        const std::vector<std::string>& modelUnitsLower = _Query::toLower(models[iModel]->getValueUnits());
         _Query::checkUnits(&valueUnits, _valuesIndex[iModel], modelValues, modelUnitsLower);
     } // for
+    _models.swap(models);
+    _valuesLowercase = valuesLowercase;
 } // initialize
 
 
diff --git a/libsrc/geomodelgrids/serial/cquery.cc b/libsrc/geomodelgrids/serial/cquery.cc
index a172462..8695f7f 100644
--- a/libsrc/geomodelgrids/serial/cquery.cc
+++ b/libsrc/geomodelgrids/serial/cquery.cc
@@ -281,7 +281,12 @@ geomodelgrids_squery_finalize(void* handle) {
     } // if
 
     assert(query);
-    query->finalize();
+    try {
+        query->finalize();
+    } catch (const std::exception& err) {
+        std::shared_ptr<geomodelgrids::utils::ErrorHandler>& errorHandler = query->getErrorHandler();
+        errorHandler->setError(err.what());
+    } // try/catch
 
     return query->getErrorHandler()->getStatus();
 } // finalize
-- 
2.43.0


From 8b539d5fd173082109323e15e0c0b3adaf42e4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:20 +0000
Subject: [PATCH 08/39] fix: report units of the requested axis and refuse
 malformed coordinate systems

---
 libsrc/geomodelgrids/apps/Info.cc            | 9 +++++++--
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index fba6e3d..92365b6 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -455,8 +455,13 @@ geomodelgrids::apps::_Info::verifyCoordSys(const geomodelgrids::serial::Model* m
 
     std::string xUnit;
     std::string yUnit;
-    geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, nullptr,
-                                                      model->getCRSString().c_str());
+    try {
+        geomodelgrids::utils::CRSTransformer::getCRSUnits(&xUnit, &yUnit, nullptr,
+                                                          model->getCRSString().c_str());
+    } catch (const std::runtime_error& err) {
+        std::cout << "FAIL\n" << _Info::indent(3) << err.what() << "\n";
+        ok = false;
+    } // try/catch
     if (xUnit != yUnit) {
         if (ok) { std::cout << "FAIL\n"; }
         std::cout << _Info::indent(3) << "Units for x (" << xUnit << ") and y (" << yUnit
diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index f30d767..0a2bbb1 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -174,7 +174,10 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
     if (!crsString || (0 == strlen(crsString))) { return; }
 
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* proj = proj_create(context, crsString);assert(proj);
+    PJ* proj = proj_create(context, crsString);
+    if (!proj) {
+        throw std::runtime_error(std::string("Error creating CRS from '") + crsString + "'.");
+    } // if
     PJ* projCoordSys = proj_crs_get_coordinate_system(context, proj);
     if (projCoordSys) {
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
@@ -199,6 +202,7 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
         proj_destroy(projCoordSys);
         return;
     }
+    proj_destroy(proj);
 }
 
 
@@ -232,7 +236,8 @@ geomodelgrids::utils::_CRSTransformer::getAxisUnit(std::string* unit,
     assert(projCoordSys);
 
     const char* buffer = nullptr;
-    proj_cs_get_axis_info(nullptr, projCoordSys, 0, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    proj_cs_get_axis_info(nullptr, projCoordSys, axisIndex, nullptr, nullptr, nullptr, nullptr, &buffer, nullptr, nullptr);
+    if (!buffer) { return; }
     if (strcasecmp("metre", buffer) == 0) {
         *unit = "meter";
     } else if (strcasecmp("meter", buffer) == 0) {
-- 
2.43.0


From 800496df1f1831807747e2360b6ada847d61ae92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 09/39] fix: report units of compound coordinate systems

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 0a2bbb1..e7fceb4 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -201,6 +201,18 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
         _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projCoordSys);
         proj_destroy(projCoordSys);
         return;
+    } else if (proj_get_type(proj) == PJ_TYPE_COMPOUND_CRS) {
+        for (int i = 0; i < 2; ++i) { // horizontal CRS, vertical CRS
+            PJ* projSub = proj_crs_get_sub_crs(context, proj, i);
+            PJ* projSubCS = projSub ? proj_crs_get_coordinate_system(context, projSub) : nullptr;
+            if (projSubCS && (0 == i)) {
+                _CRSTransformer::getUnits(xUnit, yUnit, zUnit, projSubCS);
+            } else if (projSubCS && zUnit) {
+                _CRSTransformer::getAxisUnit(zUnit, projSubCS, 0);
+            } // if/else
+            proj_destroy(projSubCS);
+            proj_destroy(projSub);
+        } // for
     }
     proj_destroy(proj);
 }
-- 
2.43.0


From b1481d4997694ce512cbb363f1a97d02da263f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:32 +0000
Subject: [PATCH 10/39] fix: do not use CRS after destroying it when reporting
 an error

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index e7fceb4..36c83ea 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -138,11 +138,10 @@ geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(const char* crsStri
     } // if
     PJ* projXY = proj_normalize_for_visualization(context, projGeo);
     if (!projXY) {
-        proj_destroy(projGeo);
-
         std::stringstream msg;
         msg << "Error creating normalized CRS from '" << crsString << "'.\n"
             << proj_errno_string(proj_errno(projGeo));
+        proj_destroy(projGeo);
         throw std::runtime_error(msg.str());
     }
     PJ* transform = proj_create_crs_to_crs_from_pj(context, projGeo, projXY, nullptr, nullptr);
-- 
2.43.0


From 1d2354ae15044055bab84b5b23749191a0c9317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 11/39] fix: query every point of points files and refuse
 malformed points, values and options

---
 libsrc/geomodelgrids/apps/Query.cc     | 43 ++++++++++++++++++++------
 libsrc/geomodelgrids/apps/QueryElev.cc | 16 +++++++---
 2 files changed, 45 insertions(+), 14 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Query.cc b/libsrc/geomodelgrids/apps/Query.cc
index d24c2c4..ce79af1 100644
--- a/libsrc/geomodelgrids/apps/Query.cc
+++ b/libsrc/geomodelgrids/apps/Query.cc
@@ -6,6 +6,8 @@
 #include "geomodelgrids/utils/ErrorHandler.hh" // USES ErrorHandler
 
 #include <getopt.h> // USES getopt_long()
+#include <cmath> // USES std::isfinite()
+#include <stdexcept> // USES std::runtime_error
 #include <iomanip>
 #include <fstream> // USES std::ifstream, std::ofstream
 #include <sstream> // USES std::ostringstream, std::istringstream
@@ -17,6 +19,22 @@ namespace geomodelgrids {
         namespace _Query {
             static const int cwidth = 14;
             static const int precision = 6;
+
+            /// Parse entire string as finite floating point value.
+            static double parseValue(const char* option,
+                                     const std::string& value) {
+                size_t numParsed = 0;
+                double result = NAN;
+                try {
+                    result = std::stod(value, &numParsed);
+                } catch (const std::logic_error& err) {
+                    numParsed = 0;
+                } // try/catch
+                if (!numParsed || (numParsed != value.length()) || !std::isfinite(result)) {
+                    throw std::runtime_error("Could not parse '" + value + "' as number for " + option + ".");
+                } // if
+                return result;
+            } // parseValue
         } // _Query
     } // apps
 } // geomodelgrids
@@ -80,11 +98,10 @@ geomodelgrids::apps::Query::run(int argc,
     const size_t numQueryValues = _valueNames.size();
     std::vector<double> values(numQueryValues);
     sout << std::scientific << std::setprecision(_Query::precision);
-    while (true) {
+    while (!(sin >> std::ws).eof()) {
         double srcX, srcY, srcZ;
-        sin >> srcX >> srcY >> srcZ;
-        if (sin.eof() || !sin.good()) {
-            break;
+        if (!(sin >> srcX >> srcY >> srcZ)) {
+            throw std::runtime_error("Could not parse points in file '" + _pointsFilename + "'.");
         } // if
 
         query.query(&values[0], srcX, srcY, srcZ);
@@ -97,6 +114,10 @@ geomodelgrids::apps::Query::run(int argc,
         } // for
         sout << "\n";
     } // while
+    sout.close();
+    if (!sout) {
+        throw std::runtime_error("Could not write output file '" + _outputFilename + "'.");
+    } // if
 
     query.finalize();
 
@@ -122,6 +143,7 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
         {0, 0, 0, 0}
     };
 
+    bool squashSurfaceSet = false;
     while (true) {
         // extern char* optarg;
         const char c = getopt_long(argc, argv, "hv:s:r:p:c:o:l:m:", options, nullptr);
@@ -140,10 +162,10 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
             break;
         } // 'v'
         case 's': {
-            if (geomodelgrids::serial::Query::SQUASH_NONE == _squash) {
+            if ((geomodelgrids::serial::Query::SQUASH_NONE == _squash) && !squashSurfaceSet) {
                 _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;
             } // if
-            _squashMinElev = std::stod(optarg);
+            _squashMinElev = _Query::parseValue("--squash-min-elev", optarg);
             break;
         } // 's'
         case 'r': {
@@ -152,9 +174,12 @@ geomodelgrids::apps::Query::_parseArgs(int argc,
                 _squash = geomodelgrids::serial::Query::SQUASH_TOP_SURFACE;
             } else if (std::string("topography_bathymetry") == surface) {
                 _squash = geomodelgrids::serial::Query::SQUASH_TOPOGRAPHY_BATHYMETRY;
-            } else {
+            } else if (std::string("none") == surface) {
                 _squash = geomodelgrids::serial::Query::SQUASH_NONE;
-            }
+            } else {
+                throw std::runtime_error("Unknown surface '" + surface + "' for --squash-surface.");
+            } // if/else
+            squashSurfaceSet = true;
             break;
         } // 's'
         case 'p': {
@@ -259,7 +284,7 @@ geomodelgrids::apps::Query::_createOutputHeader(int argc,
            << std::setw(_Query::cwidth) << "x1"
            << std::setw(_Query::cwidth) << "x2";
     for (size_t i = 0; i < _valueNames.size(); ++i) {
-        header << std::setw(_Query::cwidth) << _valueNames[i];
+        header << " " << std::setw(_Query::cwidth-1) << _valueNames[i];
     } // for
     header << "\n";
     return header.str();
diff --git a/libsrc/geomodelgrids/apps/QueryElev.cc b/libsrc/geomodelgrids/apps/QueryElev.cc
index 24a2250..16df58e 100644
--- a/libsrc/geomodelgrids/apps/QueryElev.cc
+++ b/libsrc/geomodelgrids/apps/QueryElev.cc
@@ -6,6 +6,7 @@
 #include "geomodelgrids/utils/ErrorHandler.hh" // USES ErrorHandler
 
 #include <getopt.h> // USES getopt_long()
+#include <stdexcept> // USES std::runtime_error
 #include <iomanip>
 #include <fstream> // USES std::ifstream, std::ofstream
 #include <sstream> // USES std::ostringstream, std::istringstream
@@ -73,11 +74,10 @@ geomodelgrids::apps::QueryElev::run(int argc,
 
     sout << _createOutputHeader(argc, argv);
     sout << std::scientific << std::setprecision(_QueryElev::precision);
-    while (true) {
+    while (!(sin >> std::ws).eof()) {
         double srcX, srcY;
-        sin >> srcX >> srcY;
-        if (sin.eof() || !sin.good()) {
-            break;
+        if (!(sin >> srcX >> srcY)) {
+            throw std::runtime_error("Could not parse points in file '" + _pointsFilename + "'.");
         } // if
 
         const double elev = (_useTopoBathy) ? query.queryTopoBathyElevation(srcX, srcY) : query.queryTopElevation(srcX, srcY);
@@ -87,6 +87,10 @@ geomodelgrids::apps::QueryElev::run(int argc,
              << std::setw(_QueryElev::cwidth) << elev
              << "\n";
     } // while
+    sout.close();
+    if (!sout) {
+        throw std::runtime_error("Could not write output file '" + _outputFilename + "'.");
+    } // if
 
     query.finalize();
 
@@ -148,7 +152,9 @@ geomodelgrids::apps::QueryElev::_parseArgs(int argc,
             std::string surface = optarg;
             if (surface == std::string("topography_bathymetry")) {
                 _useTopoBathy = true;
-            } // if
+            } else if (surface != std::string("top_surface")) {
+                throw std::runtime_error("Unknown surface '" + surface + "' for --surface.");
+            } // if/else
             break;
         } // 'm'
         case '?': {
-- 
2.43.0


From ce0a475f314a46201736dd17a1209350e48aa1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 12/39] fix: refuse invalid borehole options and reach the
 maximum depth

---
 libsrc/geomodelgrids/apps/Borehole.cc | 40 +++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index 959191d..d260c2b 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -7,6 +7,8 @@
 #include "geomodelgrids/utils/ErrorHandler.hh" // USES ErrorHandler
 
 #include <getopt.h> // USES getopt_long()
+#include <cmath> // USES std::isfinite()
+#include <stdexcept> // USES std::runtime_error
 #include <iomanip>
 #include <fstream> // USES std::ofstream
 #include <sstream> // USES std::ostringstream, std::istringstream
@@ -17,6 +19,22 @@ namespace geomodelgrids {
     namespace apps {
         namespace _Borehole {
             static const int cwidth = 14;
+
+            /// Parse entire string as finite floating point value.
+            static double parseValue(const char* option,
+                                     const std::string& value) {
+                size_t numParsed = 0;
+                double result = NAN;
+                try {
+                    result = std::stod(value, &numParsed);
+                } catch (const std::logic_error& err) {
+                    numParsed = 0;
+                } // try/catch
+                if (!numParsed || (numParsed != value.length()) || !std::isfinite(result)) {
+                    throw std::runtime_error("Could not parse '" + value + "' as number for " + option + ".");
+                } // if
+                return result;
+            } // parseValue
         } // _Borehole
     } // apps
 } // geomodelgrids
@@ -68,7 +86,7 @@ geomodelgrids::apps::Borehole::run(int argc,
     } else if (groundSurf != 0.0) {
         groundSurf += groundOffset;
     } // if
-    const size_t numPoints = size_t(1 + _maxDepth / _dz);
+    const size_t numPoints = 1 + size_t(_maxDepth / _dz + 1.0e-6); // Tolerate roundoff in division.
 
     std::ofstream sout(_outputFilename);
     if (!sout.is_open() && !sout.good()) {
@@ -93,6 +111,10 @@ geomodelgrids::apps::Borehole::run(int argc,
         } // for
         sout << "\n";
     } // while
+    sout.close();
+    if (!sout) {
+        throw std::runtime_error("Could not write output file '" + _outputFilename + "'.");
+    } // if
 
     query.finalize();
 
@@ -136,7 +158,7 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             break;
         } // 'v'
         case 'd': {
-            _maxDepth = atof(optarg);
+            _maxDepth = _Borehole::parseValue("--max-depth", optarg);
             break;
         } // 'd'
         case 'p': {
@@ -144,12 +166,12 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             std::string token;
             int index = 0;
             while (std::getline(tokenStream, token, ',') && index < 2) {
-                _location[index++] = std::stod(token);
+                _location[index++] = _Borehole::parseValue("--location", token);
             } // while
             break;
         } // 'o'
         case 'r': {
-            _dz = atof(optarg);
+            _dz = _Borehole::parseValue("--dz", optarg);
             break;
         } // 'r'
         case 'c': {
@@ -206,6 +228,14 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             msg << "    - Missing boreole location. Use --location=X,Y\n";
             optionsOkay = false;
         } // if
+        if (_maxDepth < 0.0) {
+            msg << "    - Maximum depth (" << _maxDepth << ") must be nonnegative.\n";
+            optionsOkay = false;
+        } // if
+        if (_dz <= 0.0) {
+            msg << "    - Vertical resolution (" << _dz << ") must be positive.\n";
+            optionsOkay = false;
+        } // if
 
         if (!optionsOkay) {
             throw std::runtime_error(std::string("Missing required command line arguments:\n")+ msg.str());
@@ -250,7 +280,7 @@ geomodelgrids::apps::Borehole::_createOutputHeader(int argc,
            << std::setw(_Borehole::cwidth-1) << "Elevation"
            << std::setw(_Borehole::cwidth) << "Depth";
     for (size_t i = 0; i < _valueNames.size(); ++i) {
-        header << std::setw(_Borehole::cwidth) << _valueNames[i];
+        header << " " << std::setw(_Borehole::cwidth-1) << _valueNames[i];
     } // for
     header << "\n";
     return header.str();
-- 
2.43.0


From 3345722a06b35d4bead53c71dbcd7efebb7e3361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:27 +0000
Subject: [PATCH 13/39] fix: reach requested isosurface resolution and refuse
 invalid isosurface options

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 95 +++++++++++++++++--------
 1 file changed, 64 insertions(+), 31 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index e7c0524..bc2d835 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -12,6 +12,9 @@
 #include <strings.h> // USES strcasecmp()
 #include <algorithm>
 #include <getopt.h> // USES getopt_long()
+#include <limits> // USES std::numeric_limits
+#include <memory> // USES std::unique_ptr
+#include <stdexcept> // USES std::runtime_error
 #include <iomanip>
 #include <fstream> // USES std::ofstream
 #include <sstream> // USES std::ostringstream, std::istringstream
@@ -20,6 +23,24 @@
 
 namespace geomodelgrids {
     namespace apps {
+        namespace _Isosurface {
+            /// Parse entire string as finite floating point value.
+            static double parseValue(const char* option,
+                                     const std::string& value) {
+                size_t numParsed = 0;
+                double result = NAN;
+                try {
+                    result = std::stod(value, &numParsed);
+                } catch (const std::logic_error& err) {
+                    numParsed = 0;
+                } // try/catch
+                if (!numParsed || (numParsed != value.length()) || !std::isfinite(result)) {
+                    throw std::runtime_error("Could not parse '" + value + "' as number for " + option + ".");
+                } // if
+                return result;
+            } // parseValue
+        } // _Isosurface
+
         // ----------------------------------------------------------------------------------------
         class Isosurfacer {
 public:
@@ -160,10 +181,11 @@ geomodelgrids::apps::Isosurface::run(int argc,
     geomodelgrids::utils::CRSTransformer* toXYOrder =
         geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(_bboxCRS.c_str());
     assert(toXYOrder);
-    toXYOrder->transform(&_minX, &_minY, nullptr, _minX, _minY, 0.0);
-    toXYOrder->transform(&_maxX, &_maxY, nullptr, _maxX, _maxY, 0.0);
 
     try {
+        toXYOrder->transform(&_minX, &_minY, nullptr, _minX, _minY, 0.0);
+        toXYOrder->transform(&_maxX, &_maxY, nullptr, _maxX, _maxY, 0.0);
+
         Isosurfacer isosurfacer(*this);
         isosurfacer.initialize();
         if (!_logFilename.empty()) {
@@ -173,8 +195,14 @@ geomodelgrids::apps::Isosurface::run(int argc,
             errorHandler->setLoggingOn(true);
         } // if
 
-        const size_t numX = size_t((_maxX + 0.5*_horizRes - _minX) / _horizRes);
-        const size_t numY = size_t((_maxY + 0.5*_horizRes - _minY) / _horizRes);
+        const double sizeX = (_maxX + 0.5*_horizRes - _minX) / _horizRes;
+        const double sizeY = (_maxY + 0.5*_horizRes - _minY) / _horizRes;
+        const double maxSize = std::numeric_limits<int>::max();
+        if (!(sizeX >= 1.0) || !(sizeX < maxSize) || !(sizeY >= 1.0) || !(sizeY < maxSize)) {
+            throw std::runtime_error("Bounding box and horizontal resolution do not give a valid raster size.");
+        } // if
+        const size_t numX = size_t(sizeX);
+        const size_t numY = size_t(sizeY);
         const size_t numIsosurfaces = _isosurfaces.size();
 
         std::vector<std::string> bandLabels(numIsosurfaces);
@@ -190,7 +218,7 @@ geomodelgrids::apps::Isosurface::run(int argc,
         writer.setNumBands(numIsosurfaces);
         writer.setBandLabels(bandLabels);
         writer.setCRS(_bboxCRS.c_str());
-        writer.setBBox(_minX, _maxX, _minY, _maxY);
+        writer.setBBox(_minX, _minX+numX*_horizRes, _minY, _minY+numY*_horizRes); // consistent with pixel centers
         writer.setNoDataValue(geomodelgrids::NODATA_VALUE);
         writer.create(_outputFilename.c_str());
 
@@ -275,7 +303,7 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
                 geomodelgrids::NODATA_VALUE,
             };
             while (std::getline(tokenStream, token, ',') && index < 4) {
-                bbox[index++] = std::stod(token);
+                bbox[index++] = _Isosurface::parseValue("--bbox", token);
             } // while
             _minX = bbox[0];
             _maxX = bbox[1];
@@ -284,11 +312,11 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             break;
         } // 'b'
         case 'r': {
-            _horizRes = atof(optarg);
+            _horizRes = _Isosurface::parseValue("--hresolution", optarg);
             break;
         } // 'r'
         case 'v': {
-            _vertRes = atof(optarg);
+            _vertRes = _Isosurface::parseValue("--vresolution", optarg);
             break;
         } // 'v'
         case 'i': {
@@ -298,10 +326,12 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             while (std::getline(tokenStream, token, ',')) {
                 values.push_back(token);
             } // while
-            if (values.size() == 2) {
-                Isosurfacer::isosurface_t isosurface(values[0], atof(values[1].c_str()));
-                _isosurfaces.push_back(isosurface);
+            if (values.size() != 2) {
+                throw std::runtime_error(std::string("Could not parse '") + optarg +
+                                         "' as isosurface. Use --isosurface=NAME,VALUE");
             } // if
+            Isosurfacer::isosurface_t isosurface(values[0], _Isosurface::parseValue("--isosurface", values[1]));
+            _isosurfaces.push_back(isosurface);
             break;
         } // 'i'
         case 's': {
@@ -315,11 +345,15 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             break;
         } // 's'
         case 'd': {
-            _maxDepth = atof(optarg);
+            _maxDepth = _Isosurface::parseValue("--max-depth", optarg);
             break;
         } // 'd'
         case 'n': {
-            _numSearchPoints = atoi(optarg);
+            const double value = _Isosurface::parseValue("--num-search-points", optarg);
+            if ((value != std::floor(value)) || (std::fabs(value) > std::numeric_limits<int>::max())) {
+                throw std::runtime_error(std::string("Could not parse '") + optarg + "' as number of search points.");
+            } // if
+            _numSearchPoints = int(value);
             break;
         } // 'n'
         case 'm': {
@@ -365,8 +399,9 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Missing bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
             optionsOkay = false;
         } // if
-        if (((_maxX - _minX)/_horizRes < 0) || ((_maxY - _minY) / _horizRes < 0)) {
+        if ((_maxX < _minX) || (_maxY < _minY)) {
             msg << "    - Invalid bounding box. Use --bbox=XMIN,XMAX,YMIN,YMAX\n";
+            optionsOkay = false;
         } // if
         if (0.0 == _horizRes) {
             msg << "    - Missing horizontal resolution. Use --resolution=RESOLUTION\n";
@@ -388,8 +423,8 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
             msg << "    - Maximum depth (" << _maxDepth << ") must be positive.\n";
             optionsOkay = false;
         } // if
-        if (_numSearchPoints < 2) {
-            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 2.\n";
+        if (_numSearchPoints < 3) { // Need an interior point to refine the search interval.
+            msg << "    - Number of search points (" << _numSearchPoints << ") must be at least 3.\n";
             optionsOkay = false;
         } // if
         if (_isosurfaces.empty()) {
@@ -470,8 +505,9 @@ geomodelgrids::apps::Isosurfacer::initialize(void) {
     } // for
     _query->initialize(_app._modelFilenames, valueNames, _app._bboxCRS);
 
-    _numLevels = size_t(ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints)));
-    assert(_numLevels >= 1);
+    // Each level divides the search interval into _numSearchPoints-1 intervals.
+    const double numLevels = ceil(log(_app._maxDepth/_app._vertRes) / log(_app._numSearchPoints-1.0));
+    _numLevels = size_t(std::max(1.0, numLevels));
 
     const size_t numValues = _app._isosurfaces.size();
     _vbuffer.resize(numValues);
@@ -512,22 +548,22 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         return;
     } // if
 
-    LineSearch* lineSearch = _app._preferShallow ?
-                             (LineSearch*) new LineSearchDown(_query, _vbuffer, _app._numSearchPoints, x, y) :
-                             (LineSearch*) new LineSearchUp(_query, _vbuffer, _app._numSearchPoints, x, y);
+    std::unique_ptr<LineSearch> lineSearch(
+        _app._preferShallow ?
+        (LineSearch*) new LineSearchDown(_query, _vbuffer, _app._numSearchPoints, x, y) :
+        (LineSearch*) new LineSearchUp(_query, _vbuffer, _app._numSearchPoints, x, y));
 
     const size_t numValues = _vbuffer.size();
     for (size_t iValue = 0; iValue < numValues; ++iValue) {
         const double vTarget = _app._isosurfaces[iValue].second;
-        double zTop = topElev - 1.0e-4;
+        double zTop = topElev - std::min(1.0e-4, 0.5*_app._maxDepth);
         double zBot = topElev - _app._maxDepth;
-        assert(zTop > zBot);
 
         for (size_t iLevel = 0; iLevel < _numLevels; ++iLevel) {
             const double dz = (zTop - zBot) / (_app._numSearchPoints-1);
             const size_t iTop = lineSearch->search(zTop, zBot, dz, vTarget, iValue);
+            if (iTop+2 < _app._numSearchPoints) { zBot = zTop - (iTop+1)*dz; } // same z as in search
             zTop -= iTop*dz;
-            zBot = zTop - dz;
         } // for
 
         // Final interpolation
@@ -538,9 +574,8 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         const double vBot = _vbuffer[iValue];
 
         if (((vTop <= vTarget) && (vTarget <= vBot)) || ((vTop >= vTarget) && (vTarget >= vBot))) {
-            const double a = (vTop-vBot) / (zTop-zBot);
-            const double b = vTop - a*zTop;
-            values[iValue] = topElev - (vTarget - b) / a;
+            const double fraction = (vTop != vBot) ? (vTop-vTarget) / (vTop-vBot) : 0.0;
+            values[iValue] = topElev - (zTop - fraction*(zTop-zBot));
         } else if (vTarget < vTop) {
             values[iValue] = 0.0;
         } else {
@@ -548,8 +583,6 @@ geomodelgrids::apps::Isosurfacer::query(double* values,
         } // if/else
 
     } // for
-
-    delete lineSearch;lineSearch = nullptr;
 }
 
 
@@ -596,7 +629,7 @@ geomodelgrids::apps::LineSearchDown::search(const double zTop,
                                             const size_t iValue) {
     size_t iTop = 0;
     for (size_t iPt = 1; iPt < _numSearchPoints; ++iPt) {
-        const double z = zTop - iPt*dz;
+        const double z = (iPt+1 < _numSearchPoints) ? zTop - iPt*dz : zBot;
         _query->query(&_vbuffer[0], _x, _y, z);
         const double v = _vbuffer[iValue];
         if (v >= vTarget) {
@@ -627,7 +660,7 @@ geomodelgrids::apps::LineSearchUp::search(const double zTop,
                                           const size_t iValue) {
     size_t iTop = 0;
     for (size_t iPt = 1; iPt < _numSearchPoints; ++iPt) {
-        const double z = zBot + iPt * dz;
+        const double z = zTop - (_numSearchPoints-1-iPt)*dz;
         _query->query(&_vbuffer[0], _x, _y, z);
         const double v = _vbuffer[iValue];
         if (v < vTarget) {
-- 
2.43.0


From 35627fceb90681302a13e0f5db0d5ef822bfb4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:06 +0000
Subject: [PATCH 14/39] fix: report correct extents and refuse incomplete
 GeoTiff rasters

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 31 ++++++++++++++++++---------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 3c2ecdf..7f056f7 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -148,7 +148,7 @@ geomodelgrids::utils::GeoTiff::getBBox(double* minX,
 
     const double _maxY = _transform[3];
     const double dy = _transform[5];
-    if (minY) { *minY = _maxY - dy * _numRows; }
+    if (minY) { *minY = _maxY + dy * _numRows; }
     if (maxY) { *maxY = _maxY; }
 }
 
@@ -176,6 +176,19 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
     if (!_driver) {
         throw std::runtime_error("Could not get GDAL GeoTiff driver.");
     } // if
+    if (_bandLabels.size() != _numBands) {
+        throw std::runtime_error("Number of raster band labels must match the number of raster bands.");
+    } // if
+
+    // Get projection
+    PJ_CONTEXT* context = nullptr;
+    PJ* proj = proj_create(context, _crs.c_str());
+    const char* wkt = proj ? proj_as_wkt(context, proj, PJ_WKT1_GDAL, nullptr) : nullptr;
+    const std::string projection(wkt ? wkt : "");
+    proj_destroy(proj);proj = nullptr;
+    if (projection.empty()) {
+        throw std::runtime_error("Could not create GeoTiff projection from CRS '" + _crs + "'.");
+    } // if
 
     char** options = nullptr;
     options = CSLSetNameValue(options, "COMPRESS", "DEFLATE");
@@ -188,10 +201,7 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
     } // if
 
     // Set projection
-    PJ_CONTEXT* context = nullptr;
-    PJ* proj = proj_create(context, _crs.c_str());
-    _dataset->SetProjection(proj_as_wkt(context, proj, PJ_WKT1_GDAL, options));
-    proj_destroy(proj);proj = nullptr;
+    _dataset->SetProjection(projection.c_str());
 
     // Set geographic transformation.
     _dataset->SetGeoTransform(_transform);
@@ -210,6 +220,9 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
 // ------------------------------------------------------------------------------------------------
 void
 geomodelgrids::utils::GeoTiff::write(void) {
+    if (!_dataset || !_buffer) {
+        throw std::runtime_error("Must create GeoTiff file and set raster bands before writing.");
+    } // if
     CPLErr err = _dataset->RasterIO(GF_Write, 0, 0, _numCols, _numRows, _buffer,
                                     _numCols, _numRows, GDT_Float32, _numBands, nullptr, 0, 0, 0, nullptr);
     if (err != CE_None) { throw std::runtime_error("Error while writing row of raster bands."); }
@@ -248,7 +261,8 @@ geomodelgrids::utils::GeoTiff::read(const char* filename) {
         } // for
 
         const size_t bufferSize = _numCols * _numRows * _numBands;
-        _buffer = (bufferSize > 0) ? new float[bufferSize] : nullptr;assert(_buffer);
+        if (!bufferSize) { throw std::runtime_error("Could not find any raster bands."); }
+        _buffer = new float[bufferSize];
 
         err = _dataset->RasterIO(GF_Read, 0, 0, _numCols, _numRows, _buffer, _numCols, _numRows,
                                  GDT_Float32, _numBands, nullptr, 0, 0, 0, nullptr);
@@ -276,10 +290,7 @@ geomodelgrids::utils::GeoTiff::close(void) {
         GDALClose(_dataset);
         _dataset = nullptr;
     } // if
-    if (_driver) {
-        GDALDestroyDriverManager();
-        _driver = nullptr;
-    } // if
+    _driver = nullptr; // Owned by driver manager, which other datasets may be using.
 }
 
 
-- 
2.43.0


From fee1bc397bdf8d4902620f1841f34d6a7c2aa342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:26 +0000
Subject: [PATCH 15/39] fix: detect failures to write GeoTiff files

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index 7f056f7..f197df4 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -184,6 +184,7 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
     PJ_CONTEXT* context = nullptr;
     PJ* proj = proj_create(context, _crs.c_str());
     const char* wkt = proj ? proj_as_wkt(context, proj, PJ_WKT1_GDAL, nullptr) : nullptr;
+    if (proj && !wkt) { wkt = proj_as_wkt(context, proj, PJ_WKT2_2019, nullptr); } // for example, 3-D geographic CRS
     const std::string projection(wkt ? wkt : "");
     proj_destroy(proj);proj = nullptr;
     if (projection.empty()) {
@@ -226,6 +227,9 @@ geomodelgrids::utils::GeoTiff::write(void) {
     CPLErr err = _dataset->RasterIO(GF_Write, 0, 0, _numCols, _numRows, _buffer,
                                     _numCols, _numRows, GDT_Float32, _numBands, nullptr, 0, 0, 0, nullptr);
     if (err != CE_None) { throw std::runtime_error("Error while writing row of raster bands."); }
+    CPLErrorReset();
+    _dataset->FlushCache();
+    if (CPLGetLastErrorType() >= CE_Failure) { throw std::runtime_error("Error while writing GeoTiff file."); }
 }
 
 
-- 
2.43.0


From cd0f4c5d43d3dd5d094473f766a4035f7335f614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:16 +0000
Subject: [PATCH 16/39] fix: describe and verify variable resolution models

---
 libsrc/geomodelgrids/apps/Info.cc      | 72 +++++++++++++++++++-------
 libsrc/geomodelgrids/serial/Block.cc   | 12 +++++
 libsrc/geomodelgrids/serial/Surface.cc | 11 ++++
 3 files changed, 77 insertions(+), 18 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 92365b6..79a7d35 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -26,6 +26,13 @@ namespace geomodelgrids {
             std::string indent(const size_t level,
                                const size_t width=4);
 
+            std::string resolution(const double value,
+                                   const double* coordinates);
+
+            double length(const double resolution,
+                          const double* coordinates,
+                          const size_t numPoints);
+
             void verifyCoordSys(const geomodelgrids::serial::Model* model);
 
             void verifySurface(const geomodelgrids::serial::Surface* topography,
@@ -294,9 +301,8 @@ geomodelgrids::apps::Info::_printValues(geomodelgrids::serial::Model* const mode
     const std::vector<std::string>& names = model->getValueNames();
     const std::vector<std::string>& units = model->getValueUnits();
     const size_t size = names.size();
-    assert(units.size() == size);
     for (size_t i = 0; i < size; ++i) {
-        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << units[i] << ")" << "\n";
+        std::cout << _Info::indent(2) << i << ": " << names[i] << " (" << ((i < units.size()) ? units[i] : std::string("unknown")) << ")" << "\n";
     } // for
 
     switch (model->getDataLayout()) {
@@ -325,8 +331,8 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = surfaceTop->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << "\n";
         std::cout << _Info::indent(3) << "Resolution: "
-                  << "x=" << surfaceTop->getResolutionX()
-                  << ", y=" << surfaceTop->getResolutionY() << "\n";
+                  << "x=" << _Info::resolution(surfaceTop->getResolutionX(), surfaceTop->getCoordinatesX())
+                  << ", y=" << _Info::resolution(surfaceTop->getResolutionY(), surfaceTop->getCoordinatesY()) << "\n";
     } else {
         std::cout << _Info::indent(3) << "None\n";
     } // if/else
@@ -337,8 +343,8 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         const size_t* dims = surfaceTopoBathy->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << "\n";
         std::cout << _Info::indent(3) << "Resolution: "
-                  << "x=" << surfaceTopoBathy->getResolutionX()
-                  << ", y=" << surfaceTopoBathy->getResolutionY() << "\n";
+                  << "x=" << _Info::resolution(surfaceTopoBathy->getResolutionX(), surfaceTopoBathy->getCoordinatesX())
+                  << ", y=" << _Info::resolution(surfaceTopoBathy->getResolutionY(), surfaceTopoBathy->getCoordinatesY()) << "\n";
     } else {
         std::cout << _Info::indent(3) << "None\n";
     } // if/else
@@ -350,17 +356,17 @@ geomodelgrids::apps::Info::_printBlocks(geomodelgrids::serial::Model* const mode
         assert(blocks[i]);
         std::cout << _Info::indent(2) << "Block '" << blocks[i]->getName() << "'\n";
         std::cout << _Info::indent(3) << "Resolution: "
-                  << "x=" << blocks[i]->getResolutionX()
-                  << ", y=" << blocks[i]->getResolutionY()
-                  << ", z=" << blocks[i]->getResolutionZ() << "\n";
+                  << "x=" << _Info::resolution(blocks[i]->getResolutionX(), blocks[i]->getCoordinatesX())
+                  << ", y=" << _Info::resolution(blocks[i]->getResolutionY(), blocks[i]->getCoordinatesY())
+                  << ", z=" << _Info::resolution(blocks[i]->getResolutionZ(), blocks[i]->getCoordinatesZ()) << "\n";
         std::cout << _Info::indent(3) << "Elevation of top of block in logical space: " << blocks[i]->getZTop() << "\n";
 
         const size_t* dims = blocks[i]->getDims();
         std::cout << _Info::indent(3) << "Number of points: x=" << dims[0] << ", y=" << dims[1] << ", z=" << dims[2] << "\n";
 
-        const double dim_x = blocks[i]->getResolutionX() * (dims[0] - 1);
-        const double dim_y = blocks[i]->getResolutionY() * (dims[1] - 1);
-        const double dim_z = blocks[i]->getResolutionZ() * (dims[2] - 1);
+        const double dim_x = _Info::length(blocks[i]->getResolutionX(), blocks[i]->getCoordinatesX(), dims[0]);
+        const double dim_y = _Info::length(blocks[i]->getResolutionY(), blocks[i]->getCoordinatesY(), dims[1]);
+        const double dim_z = _Info::length(blocks[i]->getResolutionZ(), blocks[i]->getCoordinatesZ(), dims[2]);
         std::cout << _Info::indent(3) << "Dimensions: x=" << dim_x << ", y=" << dim_y << ", z=" << dim_z << "\n";
     } // for
 } // _printBlocks
@@ -397,8 +403,10 @@ geomodelgrids::apps::Info::_verify(geomodelgrids::serial::Model* const model) {
         const double topResolutionY = surfaceTop->getResolutionY();
         const double topoResolutionX = surfaceTopoBathy->getResolutionX();
         const double topoResolutionY = surfaceTopoBathy->getResolutionY();
-        if ((fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4) ||
-            (fabs(1.0 - topoResolutionY/topResolutionY) > 1.0e-4)) {
+        const bool variableX = surfaceTop->getCoordinatesX() && surfaceTopoBathy->getCoordinatesX();
+        const bool variableY = surfaceTop->getCoordinatesY() && surfaceTopoBathy->getCoordinatesY();
+        if ((!variableX && (fabs(1.0 - topoResolutionX/topResolutionX) > 1.0e-4)) ||
+            (!variableY && (fabs(1.0 - topoResolutionY/topResolutionY) > 1.0e-4))) {
             std::cout << "FAIL\n"
                       << _Info::indent(3) << "Resolution of top surface: x=" << topResolutionX
                       << ", y=" << topResolutionY
@@ -446,6 +454,30 @@ geomodelgrids::apps::_Info::indent(const size_t level,
 } // indent
 
 
+// ------------------------------------------------------------------------------------------------
+std::string
+geomodelgrids::apps::_Info::resolution(const double value,
+                                       const double* coordinates) {
+    std::ostringstream buffer;
+    buffer.copyfmt(std::cout);
+    if (coordinates) {
+        buffer << "variable";
+    } else {
+        buffer << value;
+    } // if/else
+    return buffer.str();
+} // resolution
+
+
+// ------------------------------------------------------------------------------------------------
+double
+geomodelgrids::apps::_Info::length(const double resolution,
+                                   const double* coordinates,
+                                   const size_t numPoints) {
+    return coordinates ? fabs(coordinates[numPoints-1] - coordinates[0]) : resolution * (numPoints-1);
+} // length
+
+
 // ------------------------------------------------------------------------------------------------
 void
 geomodelgrids::apps::_Info::verifyCoordSys(const geomodelgrids::serial::Model* model) {
@@ -490,14 +522,16 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
     resolution[0] = surface->getResolutionX();
     resolution[1] = surface->getResolutionY();
     const size_t* numTopo = surface->getDims();
+    const double* coordinates[2] = { surface->getCoordinatesX(), surface->getCoordinatesY() };
 
     const double tolerance = 1.0e-6;
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numTopo[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        const double length = _Info::length(resolution[iDim], coordinates[iDim], numTopo[iDim]);
+        if (fabs(1.0 - length/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
-                      << " dimension (surface=" << resolution[iDim]*numTopo[iDim] << ", domain=" << dimsDomain[iDim] << ").\n";
+                      << " dimension (surface=" << (coordinates[iDim] ? length : resolution[iDim]*numTopo[iDim]) << ", domain=" << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
     } // for
@@ -521,16 +555,18 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     resolution[0] = block->getResolutionX();
     resolution[1] = block->getResolutionY();
     const size_t* numBlock = block->getDims();
+    const double* coordinates[2] = { block->getCoordinatesX(), block->getCoordinatesY() };
 
     const double tolerance = 1.0e-6;
 
     // Verify block spans the domain.
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
-        if (fabs(1.0 - resolution[iDim]*(numBlock[iDim]-1)/dimsDomain[iDim]) > tolerance) {
+        const double length = _Info::length(resolution[iDim], coordinates[iDim], numBlock[iDim]);
+        if (fabs(1.0 - length/dimsDomain[iDim]) > tolerance) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
-                      << dimLabel[iDim] << " dimension (block=" << resolution[iDim]*numBlock[iDim] << ", domain="
+                      << dimLabel[iDim] << " dimension (block=" << (coordinates[iDim] ? length : resolution[iDim]*numBlock[iDim]) << ", domain="
                       << dimsDomain[iDim] << ").\n";
             ok = false;
         } // if
diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 670d318..755a112 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -72,6 +72,16 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     bool attributeErrors = false;
     const auto isFinite = [](const double value) { return std::isfinite(value); };
 
+    struct Coordinates { // Discard coordinates, which may not match the dimensions, if metadata is not okay.
+        double** coordinates[3];
+        bool okay;
+        ~Coordinates(void) {
+            for (size_t i = 0; !okay && i < 3; ++i) {
+                delete[] *coordinates[i];*coordinates[i] = nullptr;
+            } // for
+        }
+    } coordinates = { { &_coordinatesX, &_coordinatesY, &_coordinatesZ }, false };
+
     size_t dims[3];
     if (h5->hasAttribute(blockPath.c_str(), "x_resolution")) {
         h5->readAttribute(blockPath.c_str(), "x_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionX);
@@ -122,6 +132,7 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
         if (h5->hasAttribute(blockPath.c_str(), "z_top")) {
             h5->readAttribute(blockPath.c_str(), "z_top", H5T_NATIVE_DOUBLE, (void*)&_zTop);
             if (!std::isfinite(_zTop)) {
+                _zTop = 0.0;
                 msg << indent << "    " << blockPath << "/z_top is not finite\n";
                 attributeErrors = true;
             } // if
@@ -178,6 +189,7 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     } // if
 
     if (attributeErrors) { throw std::runtime_error(msg.str().c_str()); }
+    coordinates.okay = true;
 
     delete _indexingX;_indexingX = nullptr;
     delete _indexingY;_indexingY = nullptr;
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 5c1650c..35c16c3 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -59,6 +59,16 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     bool attributeErrors = false;
     const auto isFinite = [](const double value) { return std::isfinite(value); };
 
+    struct Coordinates { // Discard coordinates, which may not match the dimensions, if metadata is not okay.
+        double** coordinates[2];
+        bool okay;
+        ~Coordinates(void) {
+            for (size_t i = 0; !okay && i < 2; ++i) {
+                delete[] *coordinates[i];*coordinates[i] = nullptr;
+            } // for
+        }
+    } coordinates = { { &_coordinatesX, &_coordinatesY }, false };
+
     size_t dims[2];
     if (h5->hasAttribute(surfacePath.c_str(), "x_resolution")) {
         h5->readAttribute(surfacePath.c_str(), "x_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionX);
@@ -124,6 +134,7 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     } // if
 
     if (attributeErrors) { throw std::runtime_error(msg.str().c_str()); }
+    coordinates.okay = true;
 
     delete _indexingX;_indexingX = nullptr;
     delete _indexingY;_indexingY = nullptr;
-- 
2.43.0


From cc82229e52f1ae467d510b5524e668113ec38317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:50 +0000
Subject: [PATCH 17/39] fix: create models in batches of any size and without
 batches

---
 geomodelgrids/create/apps/create_model.py     |  6 +-
 geomodelgrids/create/core/model.py            | 65 +++++++++----------
 .../create/data_srcs/earthvision/datasrc.py   |  3 +-
 geomodelgrids/create/io/hdf5.py               |  6 +-
 geomodelgrids/create/utils/batch.py           | 19 ++++--
 5 files changed, 57 insertions(+), 42 deletions(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 8907cfb..1c9e7f5 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -85,7 +85,7 @@ class App():
                         model.save_top_surface(elevation, batch)
                 else:
                     points = model.top_surface.generate_points()
-                    elevation = datasrc.get_top_surface()
+                    elevation = datasrc.get_top_surface(points)
                     model.save_top_surface(elevation)
             if model.topo_bathy:
                 model.init_topography_bathymetry()
@@ -153,13 +153,15 @@ def cli():
     parser.add_argument("--debug", action="store_true", dest="debug")
     args = parser.parse_args()
 
-    app = App(show_progress=True, debug=args.debug, log_filename=args.log_filename)
+    app = App(show_progress=args.show_progress, debug=args.debug, log_filename=args.log_filename)
     kwargs = {
+        "config_filenames": args.config,
         "show_parameters": args.show_parameters,
         "import_domain": args.import_domain,
         "import_surfaces": args.import_surfaces,
         "import_blocks": args.import_blocks,
         "update_metadata": args.update_metadata,
+        "all_steps": args.all,
     }
     app.main(**kwargs)
 
diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index 7bb7325..b2a48da 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -13,6 +13,12 @@ from geomodelgrids.create.utils import batch
 from geomodelgrids.create.io.hdf5 import HDF5Storage
 
 
+def _num_points(length, resolution):
+    """Get number of points with uniform resolution (tolerates roundoff in division).
+    """
+    return 1 + int(length / resolution + 1.0e-6)
+
+
 class Surface():
     """Model surface.
 
@@ -61,8 +67,8 @@ class Surface():
         Returns:
             Tuple of number of points along each dimension (num_x, num_y).
         """
-        num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution) if self.x_resolution else len(self.x_coordinates)
-        num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution) if self.y_resolution else len(self.y_coordinates)
+        num_x = _num_points(self.model_metadata.dim_x, self.x_resolution) if self.x_resolution else len(self.x_coordinates)
+        num_y = _num_points(self.model_metadata.dim_y, self.y_resolution) if self.y_resolution else len(self.y_coordinates)
         return (num_x, num_y, 1)
 
     def get_batches(self, batch_size):
@@ -191,15 +197,15 @@ class Block():
             Tuple of number of points along each dimension (num_x, num_y, num_z).
         """
         if self.x_resolution:
-            num_x = 1 + int(self.model_metadata.dim_x / self.x_resolution)
+            num_x = _num_points(self.model_metadata.dim_x, self.x_resolution)
         else:
             num_x = len(self.x_coordinates)
         if self.y_resolution:
-            num_y = 1 + int(self.model_metadata.dim_y / self.y_resolution)
+            num_y = _num_points(self.model_metadata.dim_y, self.y_resolution)
         else:
             num_y = len(self.y_coordinates)
         if self.z_resolution:
-            num_z = 1 + int((self.z_top - self.z_bot) / self.z_resolution)
+            num_z = _num_points(self.z_top - self.z_bot, self.z_resolution)
         else:
             num_z = len(self.z_coordinates)
         return (num_x, num_y, num_z)
@@ -242,7 +248,7 @@ class Block():
             y_start = 0
             y_end = num_y
             z_start = 0
-            z_end = 0
+            z_end = num_z
 
         if self.x_resolution:
             x1 = numpy.linspace(0.0, self.x_resolution * (num_x - 1), num_x)[x_start:x_end]
@@ -267,7 +273,8 @@ class Block():
                     (domain_top - domain_bot) * (self.z_top - z[:, :, iz] - domain_bot)
         else:
             z = self.z_top - z
-        z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
+        if z_start == 0:
+            z[:, :, 0] += self.z_top_offset  # Adjust top points by offset
 
         xyz_geo = numpy.stack((x, y, z), axis=3)
         xyz_model = numpy.zeros(xyz_geo.shape)
@@ -307,30 +314,20 @@ class Block():
                 indices = numpy.arange(0, surf_range[1]-surf_range[0], step=block_skip, dtype=numpy.int64)
             else:
                 surf_range = None
-                indices = numpy.arange(0, surfae_dim+0.5, step=block_skip, dtype=numpy.int64)
+                indices = numpy.arange(0, surfae_dim, step=block_skip, dtype=numpy.int64)
             return (surf_range, indices)
 
         def _get_slice_variable(block_coordinates, surface_coordinates, batch_range):
+            block_values = block_coordinates[batch_range[0]:batch_range[1]] if batch else block_coordinates
+            scoords = numpy.array(surface_coordinates)
+            indices = numpy.array([numpy.argmin(numpy.abs(scoords - value)) for value in block_values])
+            for index, block_coord in zip(indices, block_values):
+                if math.fabs(scoords[index] - block_coord) > TOLERANCE:
+                    raise ValueError(
+                        f"Could not find surface coordinate matching block coordinate ({block_coord}).")
+            surf_range = (numpy.min(indices), numpy.max(indices)+1)
             if batch:
-                block_values = block_coordinates[batch_range[0]:batch_range[1]]
-                scoords_sorted = numpy.array(surface_coordinates)
-                scoords_sorted.sort()
-                indices = scoords_sorted.searchsorted(block_values)
-                for index, block_coord in zip(indices, block_values):
-                    if math.fabs(scoords_sorted[index] - block_coord) > TOLERANCE:
-                        raise ValueError(
-                            f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                indices -= indices[0]
-                surf_range = (numpy.min(indices), numpy.max(indices)+1)
-            else:
-                scoords_sorted = numpy.array(surface_coordinates)
-                scoords_sorted.sort()
-                indices = scoords_sorted.searchsorted(block_coordinates)
-                for index, block_coord in zip(indices, block_coordinates):
-                    if abs(scoords_sorted[index] - block_coord) > TOLERANCE:
-                        raise ValueError(
-                            f"Could not find surface coordinate matching block coordinate ({block_coord}).")
-                surf_range = (numpy.min(indices), numpy.max(indices)+1)
+                indices -= surf_range[0]
             return (surf_range, indices)
 
         if self.x_resolution and not surface.x_resolution:
@@ -343,16 +340,18 @@ class Block():
             raise ValueError("Cannot use variable y-resolution block with uniform y-resolution surface.")
 
         surface_dims = surface.get_dims()
+        x_range = batch.x_range if batch else None
+        y_range = batch.y_range if batch else None
         if self.x_resolution:
             (surf_xrange, x_indices) = _get_slice_uniform(self.x_resolution, surface_dims[0],
-                                                          surface.x_resolution, batch.x_range)
+                                                          surface.x_resolution, x_range)
         else:
-            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, batch.x_range)
+            (surf_xrange, x_indices) = _get_slice_variable(self.x_coordinates, surface.x_coordinates, x_range)
         if self.y_resolution:
             (surf_yrange, y_indices) = _get_slice_uniform(self.y_resolution, surface_dims[1],
-                                                          surface.y_resolution, batch.y_range)
+                                                          surface.y_resolution, y_range)
         else:
-            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, batch.y_range)
+            (surf_yrange, y_indices) = _get_slice_variable(self.y_coordinates, surface.y_coordinates, y_range)
 
         if batch:
             surface_batch = BatchSurface(surf_xrange, surf_yrange)
@@ -360,7 +359,7 @@ class Block():
             surface_batch = None
 
         elevation = surface.storage.load_surface(surface, surface_batch)
-        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])].squeeze())
+        return numpy.float64(elevation[numpy.ix_(x_indices, y_indices, [0])][:, :, 0])
 
     def get_attributes(self):
         """Get attributes associated with block.
@@ -510,7 +509,7 @@ class ModelMetadata:
             import json
             self.auxiliary = json.loads(config["data"]["auxiliary"])
         else:
-            self.auxiliary = {}
+            self.auxiliary = config.get("auxiliary", {})  # set by data source
 
 
 class Model():
diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index e857da5..81c17b2 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -161,7 +161,8 @@ class RulesDataSrc(DataSrc):
         depth = numpy.zeros(points.shape[:-1])
         for iz in range(depth.shape[-1]):
             depth[:, :, iz] = topo_bathy_elev - points[:, :, iz, 2]
-        depth[:, :, 0] -= block.z_top_offset
+        if not batch or batch.z_range[0] == 0:
+            depth[:, :, 0] -= block.z_top_offset
 
         fn_path = self.config["earthvision"]["rules_fn"].split(".")
         if "rules_pythonpath" in self.config["earthvision"]:
diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 50ac313..44f8632 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -112,7 +112,9 @@ class HDF5Storage():
                         raise ValueError(
                             f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
             else:
-                if getattr(surface, attr_name) != attrs[attr_name]:
+                config_attr = getattr(surface, attr_name)
+                h5_attr = attrs[attr_name]
+                if config_attr != h5_attr:
                     raise ValueError(
                         f"Inconsistency in surface '{surface.name}' attribute '{attr_name}': config value: {config_attr}, value from model: {h5_attr}")
 
@@ -207,7 +209,7 @@ class HDF5Storage():
                 for list_value in value:
                     if not isinstance(list_value, value_type):
                         raise ValueError(
-                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(iter_value)}'.")
+                            f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
                     result = [numpy.string_(v) for v in value]
                 else:
diff --git a/geomodelgrids/create/utils/batch.py b/geomodelgrids/create/utils/batch.py
index d9c5cf4..2959a2c 100644
--- a/geomodelgrids/create/utils/batch.py
+++ b/geomodelgrids/create/utils/batch.py
@@ -31,7 +31,7 @@ class BatchGenerator2D():
             self.bnum_x = num_x
             self.bnum_y = num_y
         else:
-            num_xy = round(max_nvalues**0.5)
+            num_xy = math.isqrt(max_nvalues)
             if num_x > num_xy and num_y > num_xy:
                 self.bnum_x = self.bnum_y = num_xy
             elif num_x <= num_xy:
@@ -121,11 +121,13 @@ class BatchGenerator3D():
             self.bnum_z = num_z
         else:
             num_xyz = round(max_nvalues**(1.0 / 3.0))
+            if num_xyz**3 > max_nvalues:
+                num_xyz -= 1
             if num_x > num_xyz and num_y > num_xyz and num_z > num_xyz:
                 self.bnum_x = self.bnum_y = self.bnum_z = num_xyz
             elif num_z <= num_xyz:
                 self.bnum_z = num_z
-                num_xy = round((max_nvalues // num_z)**0.5)
+                num_xy = math.isqrt(max_nvalues // num_z)
                 if num_x > num_xy and num_y > num_xy:
                     self.bnum_x = self.bnum_y = num_xy
                 elif num_x <= num_xy:
@@ -138,19 +140,28 @@ class BatchGenerator3D():
                     raise ValueError("Unknown case")
             elif num_x <= num_xyz:
                 self.bnum_x = num_x
-                num_yz = round((max_nvalues // num_x)**0.5)
+                num_yz = math.isqrt(max_nvalues // num_x)
                 if num_y > num_yz and num_z > num_yz:
                     self.bnum_y = self.bnum_z = num_yz
                 elif num_y <= num_yz:
                     self.bnum_y = num_y
                     self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_yz:
+                    self.bnum_z = num_z
+                    self.bnum_y = max_nvalues // (num_x * num_z)
                 else:
                     raise ValueError("Unknown case")
             elif num_y <= num_xyz:
                 self.bnum_y = num_y
-                num_xz = round((max_nvalues // num_y)**0.5)
+                num_xz = math.isqrt(max_nvalues // num_y)
                 if num_x > num_xz and num_z > num_xz:
                     self.bnum_x = self.bnum_z = num_xz
+                elif num_x <= num_xz:
+                    self.bnum_x = num_x
+                    self.bnum_z = max_nvalues // (num_x * num_y)
+                elif num_z <= num_xz:
+                    self.bnum_z = num_z
+                    self.bnum_x = max_nvalues // (num_y * num_z)
                 else:
                     raise ValueError("Unknown case")
             else:
-- 
2.43.0


From 28d1c1a6bc6b7c1d175749b5c24d2f2607ca7d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:19 +0000
Subject: [PATCH 18/39] fix: store CSV values at the grid points of their
 coordinates

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 21 ++++++++-----------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index beeb64f..996e2e7 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -54,11 +54,9 @@ class CSVFile(DataSrc):
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
-        def _varxy_index_fn(coordinates):
-            x_grid = numpy.array(coordinates)
-            x_grid.sort()
-            x_round = -int(numpy.log10(numpy.min(numpy.diff(x_grid))))
-            return x_grid.searchsorted(round(x, x_round))
+        def _nearest_index_fn(coordinates):
+            grid = numpy.array(coordinates)
+            return lambda value, block: int(numpy.argmin(numpy.abs(grid - value)))
 
         if batch:
             raise NotImplementedError("Batches with CSV files are not implemented.")
@@ -73,18 +71,15 @@ class CSVFile(DataSrc):
         if block.x_resolution:
             def get_xindex(x, block): return round(x / block.x_resolution)
         else:
-            def get_xindex(x, block): return _varxy_index_fn(block.x_coordinates)
+            get_xindex = _nearest_index_fn(block.x_coordinates)
         if block.y_resolution:
             def get_yindex(y, block): return round(y / block.y_resolution)
         else:
-            def get_yindex(y, block): return _varxy_index_fn(block.y_coordinates)
+            get_yindex = _nearest_index_fn(block.y_coordinates)
         if block.z_resolution:
-            def get_zindex(z, block): return round(z / block.z_resolution)
+            def get_zindex(z, block): return round((block.z_top - z) / block.z_resolution)
         else:
-            z_grid = numpy.array(block.z_coordinates)
-            z_grid.sort()
-            z_round = -int(numpy.log10(numpy.min(numpy.diff(z_grid))))
-            def get_zindex(z, block): return len(z_grid) - 1 - z_grid.searchsorted(round(z, z_round))
+            get_zindex = _nearest_index_fn(block.z_coordinates)
 
         nx, ny, nz = block.get_dims()
         values = NODATA_VALUE * numpy.ones((nx, ny, nz, len(value_names)), dtype=numpy.float32)
@@ -92,6 +87,8 @@ class CSVFile(DataSrc):
             ix = get_xindex(x, block)
             iy = get_yindex(y, block)
             iz = get_zindex(z, block)
+            if not (0 <= ix < nx and 0 <= iy < ny and 0 <= iz < nz):
+                continue  # Point is not in block.
             row_values = row[value_columns]
             values[ix, iy, iz, :] = row_values
         return values
-- 
2.43.0


From 7d245b33e1395a92ccf7fdf0f71377a074b34389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:50 +0000
Subject: [PATCH 19/39] fix: create queryable models from uniform IRIS EMC
 grids

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index df334a9..fdbf8d3 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -71,7 +71,7 @@ class EMCNetCDF(DataSrc):
         self.config["geomodelgrids"].update(metadata)
 
         self.config["coordsys"] = {
-            "crs": "EPSG:4979",
+            "crs": "OGC:CRS84h",  # longitude, latitude, ellipsoidal height
             "origin_x": self.emc.geospatial_lon_min,
             "origin_y": self.emc.geospatial_lat_min,
             "y_azimuth": 0.0,
@@ -106,6 +106,7 @@ class EMCNetCDF(DataSrc):
         self.config["data"] = {
             "values": values,
             "units": units,
+            "layout": "vertex",
         }
 
         long_names = {}
@@ -131,7 +132,9 @@ class EMCNetCDF(DataSrc):
             "z_top_offset": 0.0,
         }
         if is_uniform_resolution(self.emc.variables["depth"][:]):
-            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1),
+            info["z_resolution"] = vertical_scale * (depth_max - depth_min) / (self.emc.variables["depth"].size-1)
+            info["z_top"] = -vertical_scale * depth_min
+            info["z_bot"] = -vertical_scale * depth_max
         else:
             z_coordinates = -vertical_scale * self.emc.variables["depth"][:]
             info["z_coordinates"] = z_coordinates.tolist()
@@ -167,12 +170,12 @@ class EMCNetCDF(DataSrc):
             z_start, z_end = batch.z_range
             for i_value, name in enumerate(value_names):
                 values_batch = self.emc.variables[name][z_start:z_end, y_start:y_end, x_start:x_end]
-                values[:, :, :, i_value] = numpy.transpose(values_batch)
+                values[:, :, :, i_value] = numpy.transpose(numpy.ma.filled(values_batch, NODATA_VALUE))
         else:
             nz, ny, nx = self.emc.variables[value_names[0]][:].shape
             values = numpy.zeros((nx, ny, nz, len(value_names)), dtype=numpy.float32)
             for i_value, name in enumerate(value_names):
-                values[:, :, :, i_value] = numpy.transpose(self.emc.variables[name][:])
+                values[:, :, :, i_value] = numpy.transpose(numpy.ma.filled(self.emc.variables[name][:], NODATA_VALUE))
         return values
 
 
-- 
2.43.0


From 574fe8e8f9e252735fab8b127f3a9a2a635ab41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:25 +0000
Subject: [PATCH 20/39] fix: find deepest isosurface above the bottom of the
 model

---
 libsrc/geomodelgrids/apps/Isosurface.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index bc2d835..e090548 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -663,7 +663,7 @@ geomodelgrids::apps::LineSearchUp::search(const double zTop,
         const double z = zTop - (_numSearchPoints-1-iPt)*dz;
         _query->query(&_vbuffer[0], _x, _y, z);
         const double v = _vbuffer[iValue];
-        if (v < vTarget) {
+        if ((v < vTarget) && (v != geomodelgrids::NODATA_VALUE)) { // Skip points outside model.
             iTop = _numSearchPoints - iPt - 1;
             break;
         } // if
-- 
2.43.0


From 079ebee8097bb9330afe1b1bb322533041c24b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 21/39] fix: refuse models whose surfaces are not datasets

---
 libsrc/geomodelgrids/serial/HDF5.cc  | 15 +++++++++++++++
 libsrc/geomodelgrids/serial/HDF5.hh  |  7 +++++++
 libsrc/geomodelgrids/serial/Model.cc | 15 ++++++++++++---
 3 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/HDF5.cc b/libsrc/geomodelgrids/serial/HDF5.cc
index e4a8c25..9dce7c6 100644
--- a/libsrc/geomodelgrids/serial/HDF5.cc
+++ b/libsrc/geomodelgrids/serial/HDF5.cc
@@ -195,6 +195,21 @@ geomodelgrids::serial::HDF5::hasDataset(const char* name) {
 } // hasDataset
 
 
+// ------------------------------------------------------------------------------------------------
+// Check if HDF5 file has link.
+bool
+geomodelgrids::serial::HDF5::hasLink(const char* name) {
+    assert(isOpen());
+    assert(name);
+
+    const htri_t exists = H5Lexists(_file, name, H5P_DEFAULT);
+    if (exists < 0) {
+        throw std::runtime_error(std::string("Could not determine whether link '") + name + "' exists.");
+    } // if
+    return exists > 0;
+} // hasLink
+
+
 // ------------------------------------------------------------------------------------------------
 // Get topology metadata.
 void
diff --git a/libsrc/geomodelgrids/serial/HDF5.hh b/libsrc/geomodelgrids/serial/HDF5.hh
index 60c0795..8088192 100644
--- a/libsrc/geomodelgrids/serial/HDF5.hh
+++ b/libsrc/geomodelgrids/serial/HDF5.hh
@@ -79,6 +79,13 @@ public:
      */
     bool hasDataset(const char* name);
 
+    /** Check if HDF5 file has link (to object of any type or to nothing).
+     *
+     * @param[in] name Full name of link.
+     * @returns True if link exists, false otherwise.
+     */
+    bool hasLink(const char* name);
+
     /** Get dimensions of dataset.
      *
      * @param[out] dims Array of dimensions.
diff --git a/libsrc/geomodelgrids/serial/Model.cc b/libsrc/geomodelgrids/serial/Model.cc
index e2d8d25..bc97d61 100644
--- a/libsrc/geomodelgrids/serial/Model.cc
+++ b/libsrc/geomodelgrids/serial/Model.cc
@@ -211,7 +211,10 @@ geomodelgrids::serial::Model::loadMetadata(void) {
                 msg << err.what();
                 missingAttributes = true;
             } // try/catch
-        } // if
+        } else if (_h5->hasLink("surfaces/top_surface")) {
+            msg << indent << "    /surfaces/top_surface is not a dataset\n";
+            missingAttributes = true;
+        } // if/else
 
         if (_h5->hasDataset("surfaces/topography_bathymetry")) {
             _surfaceTopoBathy = std::make_shared<geomodelgrids::serial::Surface>("topography_bathymetry");
@@ -221,8 +224,14 @@ geomodelgrids::serial::Model::loadMetadata(void) {
                 msg << err.what();
                 missingAttributes = true;
             } // try/catch
-        } // if
-    } // if
+        } else if (_h5->hasLink("surfaces/topography_bathymetry")) {
+            msg << indent << "    /surfaces/topography_bathymetry is not a dataset\n";
+            missingAttributes = true;
+        } // if/else
+    } else if (_h5->hasLink("surfaces")) {
+        msg << indent << "    /surfaces is not a group\n";
+        missingAttributes = true;
+    } // if/else
 
     if (_blocks.size() > 0) {
         for (size_t i = 0; i < _blocks.size(); ++i) {
-- 
2.43.0


From c218674494a818db459f75c567a4d6af0679984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:09 +0000
Subject: [PATCH 22/39] fix: verify every model by itself and fail models
 without blocks or with values that are not finite

---
 libsrc/geomodelgrids/apps/Info.cc | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Info.cc b/libsrc/geomodelgrids/apps/Info.cc
index 79a7d35..3171bae 100644
--- a/libsrc/geomodelgrids/apps/Info.cc
+++ b/libsrc/geomodelgrids/apps/Info.cc
@@ -8,7 +8,8 @@
 #include "geomodelgrids/serial/Surface.hh" // USES Surface
 #include "geomodelgrids/utils/CRSTransformer.hh" // USES CRSTransformer
 
-#include <cmath> // USES fabs()
+#include <algorithm> // USES std::min()
+#include <cmath> // USES fabs(), trunc()
 
 #include <getopt.h> // USES getopt_long()
 #include <iomanip>
@@ -80,9 +81,9 @@ geomodelgrids::apps::Info::run(int argc,
         return 0;
     } // if
 
-    geomodelgrids::serial::Model model;
     const size_t numModels = _modelFilenames.size();
     for (size_t i = 0; i < numModels; ++i) {
+        geomodelgrids::serial::Model model; // Do not mix information of different models.
         model.open(_modelFilenames[i].c_str(), geomodelgrids::serial::Model::READ);
 
         std::cout << "Model: " << _modelFilenames[i] << std::endl;
@@ -528,7 +529,7 @@ geomodelgrids::apps::_Info::verifySurface(const geomodelgrids::serial::Surface*
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
         const double length = _Info::length(resolution[iDim], coordinates[iDim], numTopo[iDim]);
-        if (fabs(1.0 - length/dimsDomain[iDim]) > tolerance) {
+        if (!(fabs(dimsDomain[iDim] - length) <= tolerance*std::min(fabs(length), fabs(dimsDomain[iDim])))) { // Includes values that are not finite.
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Surface '" << name << "' does not span the domain in the " << dimLabel[iDim]
                       << " dimension (surface=" << (coordinates[iDim] ? length : resolution[iDim]*numTopo[iDim]) << ", domain=" << dimsDomain[iDim] << ").\n";
@@ -563,7 +564,7 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
     const std::string dimLabel[2] = { "x", "y" };
     for (size_t iDim = 0; iDim < 2; ++iDim) {
         const double length = _Info::length(resolution[iDim], coordinates[iDim], numBlock[iDim]);
-        if (fabs(1.0 - length/dimsDomain[iDim]) > tolerance) {
+        if (!(fabs(dimsDomain[iDim] - length) <= tolerance*std::min(fabs(length), fabs(dimsDomain[iDim])))) { // Includes values that are not finite.
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Block '" << block->getName() << "' does not span the domain in the "
                       << dimLabel[iDim] << " dimension (block=" << (coordinates[iDim] ? length : resolution[iDim]*numBlock[iDim]) << ", domain="
@@ -580,8 +581,8 @@ geomodelgrids::apps::_Info::verifyBlock(geomodelgrids::serial::Block* block,
         topoResolution[1] = surfaceTop->getResolutionY();
         for (size_t iDim = 0; iDim < 2; ++iDim) {
             if (topoResolution[iDim] <= 0.0) { continue; }
-            const int num_skip = int(0.01 + resolution[iDim] / topoResolution[iDim]);
-            if (fabs(num_skip * topoResolution[iDim] - resolution[iDim]) > tolerance) {
+            const double num_skip = trunc(0.01 + resolution[iDim] / topoResolution[iDim]);
+            if (!(fabs(num_skip * topoResolution[iDim] - resolution[iDim]) <= tolerance)) {
                 if (ok) { std::cout << "FAIL\n"; }
                 std::cout << _Info::indent(3) << "Resolution of block '" << block->getName() << "' ("
                           << resolution[iDim] << ") is not an integer multiple of the topography resolution (" << topoResolution[iDim]
@@ -610,18 +611,22 @@ geomodelgrids::apps::_Info::verifyBlocksZ(const std::vector<std::shared_ptr<geom
 
     if (numBlocks > 0) {
         assert(blocks[0]);
-        if (fabs(blocks[0]->getZTop()) > tolerance) {
+        if (!(fabs(blocks[0]->getZTop()) <= tolerance)) {
             std::cout << "FAIL\n"
                       << _Info::indent(3) << "Top block '" << blocks[0]->getName() << "' does not reach top of domain (z=0).\n";
             ok = false;
         } // if
-    } // if
+    } else {
+        std::cout << "FAIL\n"
+                  << _Info::indent(3) << "Model does not contain any blocks.\n";
+        ok = false;
+    } // if/else
 
     for (size_t i = 1; i < numBlocks; ++i) {
         assert(blocks[i]);
         const double zBot = blocks[i-1]->getZBottom();
         const double zTop = blocks[i]->getZTop();
-        if (fabs(zBot-zTop) > tolerance) {
+        if (!(fabs(zBot-zTop) <= tolerance)) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Found vertical gap between blocks '" << blocks[i-1]->getName()
                       << "' (zBottom=" << zBot << ") and '" << blocks[i]->getName() << "' (zTop=" << zTop << ").\n";
@@ -630,7 +635,7 @@ geomodelgrids::apps::_Info::verifyBlocksZ(const std::vector<std::shared_ptr<geom
     } // for
 
     if (numBlocks > 0) {
-        if (fabs(blocks[numBlocks-1]->getZBottom()-zBottom) > tolerance) {
+        if (!(fabs(blocks[numBlocks-1]->getZBottom()-zBottom) <= tolerance)) {
             if (ok) { std::cout << "FAIL\n"; }
             std::cout << _Info::indent(3) << "Bottom block '" << blocks[numBlocks-1]->getName()
                       << "' does not reach bottom of domain (z=" << zBottom << ").\n";
-- 
2.43.0


From ad82de93d63ecdf56d2355ab0dda1ec4a6249751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:53 +0000
Subject: [PATCH 23/39] fix: report resolutions that are not positive as errors
 in metadata

---
 libsrc/geomodelgrids/serial/Block.cc   | 12 ++++++++++++
 libsrc/geomodelgrids/serial/Surface.cc |  8 ++++++++
 2 files changed, 20 insertions(+)

diff --git a/libsrc/geomodelgrids/serial/Block.cc b/libsrc/geomodelgrids/serial/Block.cc
index 755a112..8cda686 100644
--- a/libsrc/geomodelgrids/serial/Block.cc
+++ b/libsrc/geomodelgrids/serial/Block.cc
@@ -85,6 +85,10 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
     size_t dims[3];
     if (h5->hasAttribute(blockPath.c_str(), "x_resolution")) {
         h5->readAttribute(blockPath.c_str(), "x_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionX);
+        if (!(_resolutionX > 0.0)) { // Includes NaN.
+            msg << indent << "    /" << blockPath << "/x_resolution is not positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "x_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "x_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesX, &dims[0]);
@@ -100,6 +104,10 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
 
     if (h5->hasAttribute(blockPath.c_str(), "y_resolution")) {
         h5->readAttribute(blockPath.c_str(), "y_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionY);
+        if (!(_resolutionY > 0.0)) { // Includes NaN.
+            msg << indent << "    /" << blockPath << "/y_resolution is not positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "y_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "y_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesY, &dims[1]);
@@ -115,6 +123,10 @@ geomodelgrids::serial::Block::loadMetadata(geomodelgrids::serial::HDF5* const h5
 
     if (h5->hasAttribute(blockPath.c_str(), "z_resolution")) {
         h5->readAttribute(blockPath.c_str(), "z_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionZ);
+        if (!(_resolutionZ > 0.0)) { // Includes NaN.
+            msg << indent << "    /" << blockPath << "/z_resolution is not positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(blockPath.c_str(), "z_coordinates")) {
             h5->readAttribute(blockPath.c_str(), "z_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesZ, &dims[2]);
diff --git a/libsrc/geomodelgrids/serial/Surface.cc b/libsrc/geomodelgrids/serial/Surface.cc
index 35c16c3..6e56dcd 100644
--- a/libsrc/geomodelgrids/serial/Surface.cc
+++ b/libsrc/geomodelgrids/serial/Surface.cc
@@ -72,6 +72,10 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
     size_t dims[2];
     if (h5->hasAttribute(surfacePath.c_str(), "x_resolution")) {
         h5->readAttribute(surfacePath.c_str(), "x_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionX);
+        if (!(_resolutionX > 0.0)) { // Includes NaN.
+            msg << indent << "    /" << surfacePath << "/x_resolution is not positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(surfacePath.c_str(), "x_coordinates")) {
             h5->readAttribute(surfacePath.c_str(), "x_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesX, &dims[0]);
@@ -87,6 +91,10 @@ geomodelgrids::serial::Surface::loadMetadata(geomodelgrids::serial::HDF5* const
 
     if (h5->hasAttribute(surfacePath.c_str(), "y_resolution")) {
         h5->readAttribute(surfacePath.c_str(), "y_resolution", H5T_NATIVE_DOUBLE, (void*)&_resolutionY);
+        if (!(_resolutionY > 0.0)) { // Includes NaN.
+            msg << indent << "    /" << surfacePath << "/y_resolution is not positive\n";
+            attributeErrors = true;
+        } // if
     } else {
         if (h5->hasAttribute(surfacePath.c_str(), "y_coordinates")) {
             h5->readAttribute(surfacePath.c_str(), "y_coordinates", H5T_NATIVE_DOUBLE, (void**)&_coordinatesY, &dims[1]);
-- 
2.43.0


From e5cc19525762f291ae32d4d9e04e6a649a5f91aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:20 +0000
Subject: [PATCH 24/39] fix: treat PROJ strings as coordinate systems when
 reporting units and ordering axes

---
 libsrc/geomodelgrids/utils/CRSTransformer.cc | 25 ++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/utils/CRSTransformer.cc b/libsrc/geomodelgrids/utils/CRSTransformer.cc
index 36c83ea..bc087d4 100644
--- a/libsrc/geomodelgrids/utils/CRSTransformer.cc
+++ b/libsrc/geomodelgrids/utils/CRSTransformer.cc
@@ -24,6 +24,11 @@ public:
                              const PJ* projCoordSys,
                              const int axisIndex);
 
+            /// Create CRS from string; PROJ strings do not need to include '+type=crs'.
+            static
+            PJ* createCRS(PJ_CONTEXT* context,
+                          const char* crsString);
+
         };
 
     }
@@ -129,7 +134,7 @@ geomodelgrids::utils::CRSTransformer::inverse_transform(double* srcX,
 geomodelgrids::utils::CRSTransformer*
 geomodelgrids::utils::CRSTransformer::createGeoToXYAxisOrder(const char* crsString) {
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* projGeo = proj_create(context, crsString);
+    PJ* projGeo = _CRSTransformer::createCRS(context, crsString);
     if (!projGeo) {
         std::stringstream msg;
         msg << "Error creating CRS from '" << crsString << "'.\n"
@@ -173,7 +178,7 @@ geomodelgrids::utils::CRSTransformer::getCRSUnits(std::string* xUnit,
     if (!crsString || (0 == strlen(crsString))) { return; }
 
     PJ_CONTEXT* context = PJ_DEFAULT_CTX;
-    PJ* proj = proj_create(context, crsString);
+    PJ* proj = _CRSTransformer::createCRS(context, crsString);
     if (!proj) {
         throw std::runtime_error(std::string("Error creating CRS from '") + crsString + "'.");
     } // if
@@ -261,4 +266,20 @@ geomodelgrids::utils::_CRSTransformer::getAxisUnit(std::string* unit,
 }
 
 
+// ------------------------------------------------------------------------------------------------
+// Create CRS from string.
+PJ*
+geomodelgrids::utils::_CRSTransformer::createCRS(PJ_CONTEXT* context,
+                                                 const char* crsString) {
+    assert(crsString);
+
+    std::string value(crsString);
+    const bool isProjString = (0 == value.compare(0, 6, "+proj=")) || (0 == value.compare(0, 5, "proj="));
+    if (isProjString && (std::string::npos == value.find("type=crs"))) { // Same as proj_create_crs_to_crs()
+        value += " +type=crs";
+    } // if
+    return proj_create(context, value.c_str());
+}
+
+
 // End of file
-- 
2.43.0


From fb3d176e015ace8ddf7aabf55ef7dc74939a3a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:20 +0000
Subject: [PATCH 25/39] fix: write GeoTiff files for coordinate systems given
 as PROJ strings without type

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index f197df4..b4c178c 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -182,7 +182,9 @@ geomodelgrids::utils::GeoTiff::create(const char* filename) {
 
     // Get projection
     PJ_CONTEXT* context = nullptr;
-    PJ* proj = proj_create(context, _crs.c_str());
+    const bool isProjString = (0 == _crs.compare(0, 6, "+proj=")) || (0 == _crs.compare(0, 5, "proj="));
+    const bool addType = isProjString && (std::string::npos == _crs.find("type=crs"));
+    PJ* proj = proj_create(context, addType ? (_crs + " +type=crs").c_str() : _crs.c_str());
     const char* wkt = proj ? proj_as_wkt(context, proj, PJ_WKT1_GDAL, nullptr) : nullptr;
     if (proj && !wkt) { wkt = proj_as_wkt(context, proj, PJ_WKT2_2019, nullptr); } // for example, 3-D geographic CRS
     const std::string projection(wkt ? wkt : "");
-- 
2.43.0


From 891f150e8d6bfb20330d246623fdb38a10363f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 26/39] fix: do not keep rotation of raster read before when
 writing a raster

---
 libsrc/geomodelgrids/utils/GeoTiff.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/GeoTiff.cc b/libsrc/geomodelgrids/utils/GeoTiff.cc
index b4c178c..da6df92 100644
--- a/libsrc/geomodelgrids/utils/GeoTiff.cc
+++ b/libsrc/geomodelgrids/utils/GeoTiff.cc
@@ -128,9 +128,11 @@ geomodelgrids::utils::GeoTiff::setBBox(const double minX,
     const double dx = (maxX-minX) / _numCols;
     _transform[0] = minX;
     _transform[1] = dx;
+    _transform[2] = 0.0; // Discard rotation of file read before.
 
     const double dy = (minY-maxY) / _numRows;
     _transform[3] = maxY;
+    _transform[4] = 0.0;
     _transform[5] = dy;
 }
 
-- 
2.43.0


From 2a3c698fa25a167c6160e759f6b0d703208cb824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 27/39] fix: read lists without brackets and empty lists in
 configuration

---
 geomodelgrids/create/utils/config.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/create/utils/config.py b/geomodelgrids/create/utils/config.py
index 1cb02d0..2b2a957 100644
--- a/geomodelgrids/create/utils/config.py
+++ b/geomodelgrids/create/utils/config.py
@@ -22,9 +22,12 @@ def string_to_list(list_string, delimiter=","):
     if isinstance(list_string, list):
         return list_string
 
-    PATTERN = "[\[\(]?([\w\s,]+)[\]\)]?"
-    values = [value.strip() for value in list_string[1:-1].split(delimiter)]
-    return values
+    text = list_string.strip()
+    if text[:1] in ("[", "(") and text[-1:] in ("]", ")"):
+        text = text[1:-1]
+    if not text.strip():
+        return []
+    return [value.strip() for value in text.split(delimiter)]
 
 
 def get_config(filenames, keep_case=True, verbose=False):
-- 
2.43.0


From 27ad602ce471cc23c4f04eaa03ffd47846823f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:46 +0000
Subject: [PATCH 28/39] fix: store lists of text that is not ASCII and empty
 lists

---
 geomodelgrids/create/io/hdf5.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index 44f8632..e371919 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -211,7 +211,7 @@ class HDF5Storage():
                         raise ValueError(
                             f"Expected type '{value_type}' for value of attribute '{attr_name}'. Got type '{type(list_value)}'.")
                 if value_type == str:
-                    result = [numpy.string_(v) for v in value]
+                    result = numpy.array([v.encode("utf-8") for v in value], dtype=None if value else "S1")
                 else:
                     result = value
             else:
-- 
2.43.0


From 5a68244ba48a868a72fe406f78d6b8b32ad78408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 29/39] fix: remove previous grid spacing when updating
 metadata

---
 geomodelgrids/create/io/hdf5.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/geomodelgrids/create/io/hdf5.py b/geomodelgrids/create/io/hdf5.py
index e371919..aa4bdf3 100644
--- a/geomodelgrids/create/io/hdf5.py
+++ b/geomodelgrids/create/io/hdf5.py
@@ -58,6 +58,7 @@ class HDF5Storage():
         """
         h5 = h5py.File(self.filename, "a")
         attrs = h5["surfaces"][surface.name].attrs
+        self._remove_stale_grid(attrs, surface)
         for attr_info in surface.get_attributes():
             attr_name = attr_info[0]
             attrs[attr_name] = self._get_attribute(surface, attr_info)
@@ -156,6 +157,7 @@ class HDF5Storage():
         """
         h5 = h5py.File(self.filename, "a")
         attrs = h5["blocks"][block.name].attrs
+        self._remove_stale_grid(attrs, block)
         for attr_info in block.get_attributes():
             attr_name = attr_info[0]
             attrs[attr_name] = self._get_attribute(block, attr_info)
@@ -186,6 +188,16 @@ class HDF5Storage():
             block_dataset[:] = data
         h5.close()
 
+    @staticmethod
+    def _remove_stale_grid(attrs, metadata):
+        """Remove description of previous grid (uniform resolution or coordinates).
+        """
+        names = [attr_info[0] for attr_info in metadata.get_attributes()]
+        for name in ("x_resolution", "x_coordinates", "y_resolution", "y_coordinates",
+                     "z_resolution", "z_coordinates", "z_top"):
+            if name in attrs and name not in names:
+                del attrs[name]
+
     @staticmethod
     def _get_attribute(metadata, attr_info):
         result = None
-- 
2.43.0


From b805b75244765f699f96813b9fd6790109d1354d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 30/39] fix: refuse locations and bounding boxes with too many
 values

---
 libsrc/geomodelgrids/apps/Borehole.cc   | 5 ++++-
 libsrc/geomodelgrids/apps/Isosurface.cc | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/apps/Borehole.cc b/libsrc/geomodelgrids/apps/Borehole.cc
index d260c2b..4cf3848 100644
--- a/libsrc/geomodelgrids/apps/Borehole.cc
+++ b/libsrc/geomodelgrids/apps/Borehole.cc
@@ -165,7 +165,10 @@ geomodelgrids::apps::Borehole::_parseArgs(int argc,
             std::istringstream tokenStream(optarg);
             std::string token;
             int index = 0;
-            while (std::getline(tokenStream, token, ',') && index < 2) {
+            while (std::getline(tokenStream, token, ',')) {
+                if (index >= 2) {
+                    throw std::runtime_error(std::string("Too many values in '") + optarg + "' for option --location. Use --location=X,Y.");
+                } // if
                 _location[index++] = _Borehole::parseValue("--location", token);
             } // while
             break;
diff --git a/libsrc/geomodelgrids/apps/Isosurface.cc b/libsrc/geomodelgrids/apps/Isosurface.cc
index e090548..8ea7b59 100644
--- a/libsrc/geomodelgrids/apps/Isosurface.cc
+++ b/libsrc/geomodelgrids/apps/Isosurface.cc
@@ -302,7 +302,10 @@ geomodelgrids::apps::Isosurface::_parseArgs(int argc,
                 geomodelgrids::NODATA_VALUE,
                 geomodelgrids::NODATA_VALUE,
             };
-            while (std::getline(tokenStream, token, ',') && index < 4) {
+            while (std::getline(tokenStream, token, ',')) {
+                if (index >= 4) {
+                    throw std::runtime_error(std::string("Too many values in '") + optarg + "' for option --bbox. Use --bbox=XMIN,XMAX,YMIN,YMAX.");
+                } // if
                 bbox[index++] = _Isosurface::parseValue("--bbox", token);
             } // while
             _minX = bbox[0];
-- 
2.43.0


From a05530aaa8e8bafbb463d8caa47f0dc795eb9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:57 +0000
Subject: [PATCH 31/39] fix: show parameters as configured

---
 geomodelgrids/create/apps/create_model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geomodelgrids/create/apps/create_model.py b/geomodelgrids/create/apps/create_model.py
index 1c9e7f5..6551b91 100644
--- a/geomodelgrids/create/apps/create_model.py
+++ b/geomodelgrids/create/apps/create_model.py
@@ -127,7 +127,8 @@ class App():
     def show_parameters(self):
         """Write parameters to stdout.
         """
-        parser = configparser.ConfigParser()
+        parser = configparser.RawConfigParser()
+        parser.optionxform = str
         parser.read_dict(self.config)
         parser.write(sys.stdout)
 
-- 
2.43.0


From 4096dbb3a16a2962a026427ff4f8d5cada17b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 32/39] fix: store CSV values only at their own grid points in
 models with several blocks

---
 geomodelgrids/create/data_srcs/csv/datasrc.py | 45 ++++++++++---------
 1 file changed, 23 insertions(+), 22 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/csv/datasrc.py b/geomodelgrids/create/data_srcs/csv/datasrc.py
index 996e2e7..214ed69 100644
--- a/geomodelgrids/create/data_srcs/csv/datasrc.py
+++ b/geomodelgrids/create/data_srcs/csv/datasrc.py
@@ -54,43 +54,44 @@ class CSVFile(DataSrc):
             batch (BatchGenerator3D)
                 Current batch of points in block.
         """
-        def _nearest_index_fn(coordinates):
-            grid = numpy.array(coordinates)
-            return lambda value, block: int(numpy.argmin(numpy.abs(grid - value)))
+        def _nearest(grid, value):
+            index = int(numpy.argmin(numpy.abs(grid - value)))
+            # Use spacing at point to determine whether the value lies in the grid.
+            spacing = numpy.abs(numpy.diff(grid[max(0, index-1):index+2])).max() if len(grid) > 1 else numpy.inf
+            distance = abs(grid[index] - value) / spacing
+            return (index, distance) if distance <= 0.5 else (None, None)
 
         if batch:
             raise NotImplementedError("Batches with CSV files are not implemented.")
 
         comment_flag = self.config["csv"].get("comment_flag", "#")
-        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag)
+        csv_data = numpy.loadtxt(self.config["csv"]["filename"], comments=comment_flag, ndmin=2)
         model_x, model_y, model_z = self._to_model_xyz(csv_data)
 
         value_names = string_to_list(self.config["data"]["values"])
         value_columns = [int(self.config["csv.columns"][value]) for value in value_names]
 
-        if block.x_resolution:
-            def get_xindex(x, block): return round(x / block.x_resolution)
-        else:
-            get_xindex = _nearest_index_fn(block.x_coordinates)
-        if block.y_resolution:
-            def get_yindex(y, block): return round(y / block.y_resolution)
-        else:
-            get_yindex = _nearest_index_fn(block.y_coordinates)
-        if block.z_resolution:
-            def get_zindex(z, block): return round((block.z_top - z) / block.z_resolution)
+        nx, ny, nz = block.get_dims()
+        x_grid = numpy.array(block.x_coordinates) if block.x_coordinates else block.x_resolution * numpy.arange(nx)
+        y_grid = numpy.array(block.y_coordinates) if block.y_coordinates else block.y_resolution * numpy.arange(ny)
+        if block.z_coordinates:
+            z_grid = numpy.array(block.z_coordinates)
         else:
-            get_zindex = _nearest_index_fn(block.z_coordinates)
+            z_grid = block.z_top - block.z_resolution * numpy.arange(nz)
 
-        nx, ny, nz = block.get_dims()
         values = NODATA_VALUE * numpy.ones((nx, ny, nz, len(value_names)), dtype=numpy.float32)
+        value_distance = numpy.inf * numpy.ones((nx, ny, nz))
         for row, x, y, z in zip(csv_data, model_x, model_y, model_z):
-            ix = get_xindex(x, block)
-            iy = get_yindex(y, block)
-            iz = get_zindex(z, block)
-            if not (0 <= ix < nx and 0 <= iy < ny and 0 <= iz < nz):
+            ix, x_distance = _nearest(x_grid, x)
+            iy, y_distance = _nearest(y_grid, y)
+            iz, z_distance = _nearest(z_grid, z)
+            if ix is None or iy is None or iz is None:
                 continue  # Point is not in block.
-            row_values = row[value_columns]
-            values[ix, iy, iz, :] = row_values
+            # Points for other blocks may lie close to grid points in this block, so use the closest one.
+            distance = max(x_distance, y_distance, z_distance)
+            if distance < value_distance[ix, iy, iz]:
+                value_distance[ix, iy, iz] = distance
+                values[ix, iy, iz, :] = row[value_columns]
         return values
 
     def _to_model_xyz(self, csv_data):
-- 
2.43.0


From 10a96083961bfb36370de37be6c3ca91290980f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 33/39] fix: keep values of EarthVision rules and identifiers
 as floating point numbers

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index 81c17b2..ceba7f3 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -170,13 +170,14 @@ class RulesDataSrc(DataSrc):
             if not path in sys.path:
                 sys.path.append(path)
         rules_fn = getattr(import_module(".".join(fn_path[:-1])), fn_path[-1])
-        rules_values = numpy.vectorize(self.query_rule)(rules_fn, data, depth.ravel())
+        num_rules_values = len(string_to_list(self.config["data"]["values"])) - 2  # Remaining values are fault block and zone ids.
+        rules_values = numpy.vectorize(self.query_rule, otypes=[float]*num_rules_values)(rules_fn, data, depth.ravel())
         del depth
 
         # Append fault block and zone id to values
         # :KLUDGE: Fault block and zone id are converted from int to float
-        faultblock_id = numpy.vectorize(self.set_faultblock_id)(self.faultblock_ids, data["fault_block"])
-        zone_id = numpy.vectorize(self.set_zone_id)(self.zone_ids, data["zone"])
+        faultblock_id = numpy.vectorize(self.set_faultblock_id, otypes=[float])(self.faultblock_ids, data["fault_block"])
+        zone_id = numpy.vectorize(self.set_zone_id, otypes=[float])(self.zone_ids, data["zone"])
         values = numpy.vstack([v for v in rules_values] + [faultblock_id.reshape((1, -1)),
                                                            zone_id.reshape((1, -1))]).transpose()
         values = values.reshape((points.shape[0], points.shape[1], points.shape[2], -1))
-- 
2.43.0


From 39688acc6f9589dab41fca6e0d98dedd153ebc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 34/39] fix: include bottom of IRIS EMC grids that start below
 zero depth in domain

---
 geomodelgrids/create/data_srcs/iris_emc/datasrc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
index fdbf8d3..dc1f9ef 100644
--- a/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
+++ b/geomodelgrids/create/data_srcs/iris_emc/datasrc.py
@@ -83,7 +83,6 @@ class EMCNetCDF(DataSrc):
         lat_max = self.emc.geospatial_lat_max
         lat_min = self.emc.geospatial_lat_min
         depth_max = self.emc.geospatial_vertical_max
-        depth_min = self.emc.geospatial_vertical_min
         assert self.emc.geospatial_lon_units.strip() in ["degrees_east", "degrees"]
         assert self.emc.geospatial_lat_units.strip() in ["degrees_north", "degrees"]
         vertical_scale = units.length_scale(self.emc.geospatial_vertical_units)
@@ -91,7 +90,7 @@ class EMCNetCDF(DataSrc):
         self.config["domain"].update({
             "dim_x": lon_max - lon_min,
             "dim_y": lat_max - lat_min,
-            "dim_z": (depth_max - depth_min) * vertical_scale,
+            "dim_z": depth_max * vertical_scale,  # Domain extends from zero elevation to bottom of model.
             "blocks": ["block"],
         })
 
-- 
2.43.0


From 12fa9ed2f13df0e2596d20aa9a9f08e1ba9344ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:13 +0000
Subject: [PATCH 35/39] fix: return value of nearest grid point in
 Hyperslab::nearest

The value at the nearest grid point was only used to detect no-data; all
other values came out as zero.
---
 libsrc/geomodelgrids/serial/Hyperslab.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/Hyperslab.cc b/libsrc/geomodelgrids/serial/Hyperslab.cc
index 5e850b5..b5e8ffb 100644
--- a/libsrc/geomodelgrids/serial/Hyperslab.cc
+++ b/libsrc/geomodelgrids/serial/Hyperslab.cc
@@ -491,8 +491,8 @@ geomodelgrids::serial::_Hyperslab::_nearest2D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
@@ -547,8 +547,8 @@ geomodelgrids::serial::_Hyperslab::_nearest3D(double* const values,
 
     const hsize_t numValues = _hyperslab._dims[spaceDim];
     for (hsize_t iValue = 0; iValue < numValues; ++iValue) {
-        values[iValue] = 0;
         const double nearestValue = _hyperslab._values[ii + iValue];
+        values[iValue] = nearestValue;
         if (fabs(1.0 - nearestValue/geomodelgrids::NODATA_VALUE) < 1.0e-3) {
             values[iValue] = geomodelgrids::NODATA_VALUE;
         } // if
-- 
2.43.0


From bf3e5c56e1d77e880a2b12976a778fdb38c956d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:02 +0000
Subject: [PATCH 36/39] fix: refuse blocks between the points of a top surface
 with small spacing

The tolerance was 0.01 in the units of the coordinate system, more than the
spacing in geographic systems, so elevations of other points were used.
---
 geomodelgrids/create/core/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/geomodelgrids/create/core/model.py b/geomodelgrids/create/core/model.py
index b2a48da..e54c2f3 100644
--- a/geomodelgrids/create/core/model.py
+++ b/geomodelgrids/create/core/model.py
@@ -306,7 +306,7 @@ class Block():
 
         def _get_slice_uniform(block_resolution, surfae_dim, surface_resolution, batch_range):
             block_skip = int(0.01 + block_resolution / surface_resolution)
-            if math.fabs(block_skip * surface_resolution - block_resolution) > TOLERANCE:
+            if math.fabs(block_skip * surface_resolution - block_resolution) > TOLERANCE * min(1.0, surface_resolution):
                 raise ValueError(
                     f"Block resolution ({block_resolution}) must be a integer multiple of the surface resolution ({surface_resolution})")
             if batch:
@@ -321,8 +321,9 @@ class Block():
             block_values = block_coordinates[batch_range[0]:batch_range[1]] if batch else block_coordinates
             scoords = numpy.array(surface_coordinates)
             indices = numpy.array([numpy.argmin(numpy.abs(scoords - value)) for value in block_values])
+            tolerance = TOLERANCE * min([1.0, *numpy.abs(numpy.diff(scoords))])
             for index, block_coord in zip(indices, block_values):
-                if math.fabs(scoords[index] - block_coord) > TOLERANCE:
+                if math.fabs(scoords[index] - block_coord) > tolerance:
                     raise ValueError(
                         f"Could not find surface coordinate matching block coordinate ({block_coord}).")
             surf_range = (numpy.min(indices), numpy.max(indices)+1)
-- 
2.43.0


From 163d198a78e0b1b9c1e2ae96cd1a2a04448ce917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:02 +0000
Subject: [PATCH 37/39] fix: depth of the top points of a block in EarthVision
 models is that of the points before they are lowered

---
 geomodelgrids/create/data_srcs/earthvision/datasrc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geomodelgrids/create/data_srcs/earthvision/datasrc.py b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
index ceba7f3..babd40e 100644
--- a/geomodelgrids/create/data_srcs/earthvision/datasrc.py
+++ b/geomodelgrids/create/data_srcs/earthvision/datasrc.py
@@ -162,7 +162,7 @@ class RulesDataSrc(DataSrc):
         for iz in range(depth.shape[-1]):
             depth[:, :, iz] = topo_bathy_elev - points[:, :, iz, 2]
         if not batch or batch.z_range[0] == 0:
-            depth[:, :, 0] -= block.z_top_offset
+            depth[:, :, 0] += block.z_top_offset
 
         fn_path = self.config["earthvision"]["rules_fn"].split(".")
         if "rules_pythonpath" in self.config["earthvision"]:
-- 
2.43.0


From fd129bb6e064cab3a065d368d1198fb0398106d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 38/39] fix: report NULL arguments of
 geomodelgrids_squery_initialize as an error instead of ending the process

---
 libsrc/geomodelgrids/serial/cquery.cc | 30 +++++++++++++++++----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/libsrc/geomodelgrids/serial/cquery.cc b/libsrc/geomodelgrids/serial/cquery.cc
index 8695f7f..15b1d21 100644
--- a/libsrc/geomodelgrids/serial/cquery.cc
+++ b/libsrc/geomodelgrids/serial/cquery.cc
@@ -63,20 +63,28 @@ geomodelgrids_squery_initialize(void* handle,
         return geomodelgrids::utils::ErrorHandler::ERROR;
     } // if
 
-    std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
-    for (int i = 0; i < modelFilenamesSize; ++i) {
-        modelFilenamesCxx[i] = modelFilenames[i];
-    } // for
+    assert(query);
+    try {
+        query->finalize(); // Do not keep previous models if initialization fails.
+        if ((modelFilenamesSize < 0) || (valueNamesSize < 0) || !inputCRSString ||
+            (modelFilenamesSize && !modelFilenames) || (valueNamesSize && !valueNames)) {
+            throw std::invalid_argument("NULL or negative argument in call to geomodelgrids_squery_initialize().");
+        } // if
 
-    std::vector < std::string > valueNamesCxx(valueNamesSize);
-    for (int i = 0; i < valueNamesSize; ++i) {
-        valueNamesCxx[i] = valueNames[i];
-    } // for
+        std::vector < std::string > modelFilenamesCxx(modelFilenamesSize);
+        for (int i = 0; i < modelFilenamesSize; ++i) {
+            if (!modelFilenames[i]) { throw std::invalid_argument("NULL model filename in call to geomodelgrids_squery_initialize()."); }
+            modelFilenamesCxx[i] = modelFilenames[i];
+        } // for
 
-    const std::string& inputCRSStringCxx(inputCRSString);
+        std::vector < std::string > valueNamesCxx(valueNamesSize);
+        for (int i = 0; i < valueNamesSize; ++i) {
+            if (!valueNames[i]) { throw std::invalid_argument("NULL value name in call to geomodelgrids_squery_initialize()."); }
+            valueNamesCxx[i] = valueNames[i];
+        } // for
+
+        const std::string& inputCRSStringCxx(inputCRSString);
 
-    assert(query);
-    try {
         query->initialize(modelFilenamesCxx, valueNamesCxx, inputCRSStringCxx);
     } catch (const std::exception& err) {
         std::shared_ptr<geomodelgrids::utils::ErrorHandler>& errorHandler = query->getErrorHandler();
-- 
2.43.0


From 561b8192ac631cd666c670e7389bdc63136718c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:02 +0000
Subject: [PATCH 39/39] fix: report a NULL log filename in the C interface as
 an error instead of ending the process

---
 libsrc/geomodelgrids/utils/cerrorhandler.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libsrc/geomodelgrids/utils/cerrorhandler.cc b/libsrc/geomodelgrids/utils/cerrorhandler.cc
index 27d8c51..5873f27 100644
--- a/libsrc/geomodelgrids/utils/cerrorhandler.cc
+++ b/libsrc/geomodelgrids/utils/cerrorhandler.cc
@@ -16,6 +16,10 @@ geomodelgrids_cerrorhandler_setLogFilename(void* handle,
     if (!handle) { return; }
 
     geomodelgrids::utils::ErrorHandler* errorHandler = (geomodelgrids::utils::ErrorHandler*) handle;
+    if (!filename) {
+        errorHandler->setError("NULL filename in call to geomodelgrids_cerrorhandler_setLogFilename().");
+        return;
+    } // if
     errorHandler->setLogFilename(filename);
 } // setLogFilename
 
-- 
2.43.0

