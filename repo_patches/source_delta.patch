From 7998d5d583a3d2263db09839c107ab050a429a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:20 +0000
Subject: [PATCH 001/173] fix: CDMExtractor joins gap-reduced slices in the
 order of the data

When a faster dimension was reduced to indices with gaps, slower dimensions
which were not reduced kept their full range in each slice, and the joined
data came out in the wrong order.
---
 src/CDMExtractor.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8cc28b2..bea3f01 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -115,8 +115,21 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
         sb.getStartAndSize(dimName, sbStart, sbSize);
         if (foundDim == dimSlices_.end()) {
             // handle pure sb changes
-            for (SliceBuilder& sliceb : slices)
-                sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
+            if (slices.size() <= 1) {
+                for (SliceBuilder& sliceb : slices)
+                    sliceb.setStartAndSize(dim.getName(), sbStart, sbSize);
+            } else {
+                // a faster dimension is already split up, keep the data-order by splitting up this one, too
+                std::vector<SliceBuilder> newSlices;
+                for (size_t i = sbStart; i < sbStart + sbSize; ++i) {
+                    for (SliceBuilder& sliceb : slices) {
+                        SliceBuilder lsb = sliceb; // make a copy
+                        lsb.setStartAndSize(dim.getName(), i, 1);
+                        newSlices.push_back(lsb);
+                    }
+                }
+                slices = std::move(newSlices);
+            }
         } else if (foundDim->second.empty()) {
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, 0);
-- 
2.43.0


From 613117e5a237a1a193eed7911ed11d4894984a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:52 +0000
Subject: [PATCH 002/173] fix: CDMExtractor returns no data for empty slice
 requests of reduced dimensions

A request with size 0 along a reduced dimension returned one element.
---
 src/CDMExtractor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index bea3f01..9a9c382 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -130,7 +130,7 @@ DataPtr CDMExtractor::getDataSlice_(const std::string& varName, const SliceBuild
                 }
                 slices = std::move(newSlices);
             }
-        } else if (foundDim->second.empty()) {
+        } else if (foundDim->second.empty() || sbSize == 0) {
             for (SliceBuilder& sliceb : slices)
                 sliceb.setStartAndSize(dim.getName(), sbStart, 0);
         } else {
-- 
2.43.0


From 78fc5a528d94cea112a244280265706c5c2afcb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:36:52 +0000
Subject: [PATCH 003/173] fix: CDMExtractor::reduceDimension rejects positions
 outside the dimension

The position just behind the end was accepted, and an end before the start
ran into a (practically) endless loop.
---
 src/CDMExtractor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 9a9c382..b9758d2 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -273,7 +273,7 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 {
     CDMDimension& dim = cdm_->getDimension(dimName);
     for (size_t sz : slices) {
-        if (sz > dim.getLength())
+        if (sz >= dim.getLength())
             throw CDMException("can't select slice of dimension '" + dimName + "': " + type2string(sz) + " out of bounds: " + type2string(dim.getLength()));
     }
 
@@ -292,6 +292,10 @@ void CDMExtractor::reduceDimension(const std::string& dimName, const std::set<st
 
 void CDMExtractor::reduceDimension(const std::string& dimName, size_t start, size_t length)
 {
+    const size_t dimLength = cdm_->getDimension(dimName).getLength();
+    if (start > dimLength || length > dimLength - start)
+        throw CDMException("can't reduce dimension '" + dimName + "' to start " + type2string(start) + " and length " + type2string(length) +
+                           ", out of bounds: " + type2string(dimLength));
     std::set<std::size_t> useSlices;
     for (std::size_t i = 0; i < length; i++) {
         useSlices.insert(start+i);
-- 
2.43.0


From 48909923e4a65745d407cc035c297500d453c20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:00 +0000
Subject: [PATCH 004/173] fix: mifi_get_values_bilinear_f must not read behind
 the last row

At the x-border, a y-position up to half a cell behind the last row was
considered to be inside the grid.
---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 89e808e..3279d7b 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -319,7 +319,7 @@ int mifi_get_values_bilinear_f(const float* infield, float* outvalues, const dou
                 }
             } else {
                 y0 = lround(y);
-                if ((0 <= y0) && (y0 <= iy)) {
+                if ((0 <= y0) && (y0 < iy)) {
                     // nearest neighbor in y
                     size_t pos = mifi_3d_array_pos(x0, y0, 0, ix, iy, iz);
                     for (int z = 0; z < iz; ++z) {
-- 
2.43.0


From d4e49f0c52c6790fcd874240750335cc78d4b9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 005/173] fix: mifi_points2position must not read outside of an
 axis with one element

---
 src/interpolation.c | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 3279d7b..a68db73 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -175,16 +175,18 @@ int mifi_points2position(double* points, const int n, const double* axis, const
                     points[i] += 2 * HALF_CIRCLE_ANGLE;
             }
         }
-        double nextOnAxis = axis[num-1] + (axis[1]-axis[0])*1.01; // slightly enlarged gitter-distance to avoid numerics
-        if (axis[0] < axis[num-1]) { // ascending
-            nextOnAxis -= 2 * HALF_CIRCLE_ANGLE;
-            if (nextOnAxis >= axis[0]) {
-                circularLongitude = 1;
-            }
-        } else { // descending
-            nextOnAxis += 2 * HALF_CIRCLE_ANGLE;
-            if (nextOnAxis <= axis[0]) {
-                circularLongitude = 1;
+        if (num > 1) {
+            double nextOnAxis = axis[num-1] + (axis[1]-axis[0])*1.01; // slightly enlarged gitter-distance to avoid numerics
+            if (axis[0] < axis[num-1]) { // ascending
+                nextOnAxis -= 2 * HALF_CIRCLE_ANGLE;
+                if (nextOnAxis >= axis[0]) {
+                    circularLongitude = 1;
+                }
+            } else { // descending
+                nextOnAxis += 2 * HALF_CIRCLE_ANGLE;
+                if (nextOnAxis <= axis[0]) {
+                    circularLongitude = 1;
+                }
             }
         }
     }
@@ -197,6 +199,8 @@ int mifi_points2position(double* points, const int n, const double* axis, const
         int pos = bsearchDoubleIndex(points[i], axis, num, comparator);
         if (pos >= 0) {
             points[i] = (double) pos;
+        } else if (num < 2) {
+            points[i] = -999.; // no grid-distance, all other points are outside range
         } else {
             // linear fit between [pos-1, pos}
             int nPos = -1 * (pos + 1);
-- 
2.43.0


From 78724698faa84632133857b2c3d081c298af4bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 006/173] fix: forward_undef_min selects the forward_undef_min
 interpolation method

---
 src/interpolation.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index a68db73..0f16859 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -101,7 +101,7 @@ int mifi_string_to_interpolation_method(const char* mString)
     } else if (mifi_string_equal("forward_undef_max", mString)) {
         method = MIFI_INTERPOL_FORWARD_UNDEF_MAX;
     } else if (mifi_string_equal("forward_undef_min", mString)) {
-        method = MIFI_INTERPOL_FORWARD_MIN;
+        method = MIFI_INTERPOL_FORWARD_UNDEF_MIN;
     }
     return method;
 }
-- 
2.43.0


From 87113b4fd51738a3a82c77827b0a3a19d46bdae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:29 +0000
Subject: [PATCH 007/173] fix: mifi_griddistance copies the last row from the
 row before

The row-offset is nx, not ny, giving wrong distances for non-square grids.
---
 src/interpolation.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 0f16859..d64e011 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -880,8 +880,8 @@ int mifi_griddistance(size_t nx, size_t ny, const double* lonVals, const double*
         // last row, overwriting corner
         for (size_t i = 0; i < nx; i++) {
             size_t p = (ny-1)*nx + i;
-            gridDistX[p] = gridDistX[p-ny];
-            gridDistY[p] = gridDistY[p-ny];
+            gridDistX[p] = gridDistX[p-nx];
+            gridDistY[p] = gridDistY[p-nx];
         }
     }
     return MIFI_OK;
-- 
2.43.0


From 6545102a2395b496f3869fadc58ae6d140f8e652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:02 +0000
Subject: [PATCH 008/173] fix: 2d fill functions must not access neighbors
 outside of fields with one row or column

---
 src/interpolation.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index d64e011..f82e058 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -660,12 +660,12 @@ int mifi_fill2d_f(size_t nx, size_t ny, float* field, float relaxCrit, float cor
             }
         }
 
-        // some work on the borders
-        for (size_t y = 1; y < nym1; y++) {
+        // some work on the borders, if there is a neighbor towards the inner
+        for (size_t y = 1; nx > 1 && y < nym1; y++) {
             field[y*nx+0] += (field[y*nx+1] - field[y*nx+0]) * wField[y*nx+0];
             field[y*nx+(nx-1)] += (field[y*nx+(nx-2)] - field[y*nx+(nx-1)]) * wField[y*nx+(nx-1)];
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; ny > 1 && x < nx; x++) {
             field[0*nx +x] += (field[1*nx+x] - field[0*nx+x]) * wField[0*nx+x];
             field[nym1*nx+x] += (field[(nym1-1)*nx+x] - field[nym1*nx+x]) * wField[nym1*nx+x];
         }
@@ -759,9 +759,9 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
             f+=2; r+=2; w+=2; // skip last and first element in row
         }
     }
-    // simple calculations at the borders
+    // simple calculations at the borders, if there is a neighbor towards the inner
     for (size_t l = 0; l < repeat; l++) {
-        for (size_t y = 1; y < nym1; y++) {
+        for (size_t y = 1; nx > 1 && y < nym1; y++) {
             if (rField[y*nx+0] < repeat) { // unset
                 field[y*nx+0] += field[y*nx+1]*wField[y*nx+1];
                 field[y*nx+0] /= (1+wField[y*nx+1]);
@@ -773,7 +773,7 @@ static int mifi_creepfillval2dImpl_f(size_t nx, size_t ny, float* field, float d
                 wField[y*nx+(nx-1)] = 1;
             }
         }
-        for (size_t x = 0; x < nx; x++) {
+        for (size_t x = 0; ny > 1 && x < nx; x++) {
             if (rField[0*nx +x] < repeat) { // unset
                 field[0*nx +x] += field[1*nx+x]*wField[1*nx+x];
                 field[0*nx +x] /= (1+wField[1*nx+x]);
-- 
2.43.0


From d29a13cf4f94a2b0f26e6975ec7add97b2c2ca97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:08 +0000
Subject: [PATCH 009/173] fix: tokenizeDotted rejects ... without end value or
 with step 0

---
 include/fimex/TokenizeDotted.h | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/include/fimex/TokenizeDotted.h b/include/fimex/TokenizeDotted.h
index 2d23955..c75782f 100644
--- a/include/fimex/TokenizeDotted.h
+++ b/include/fimex/TokenizeDotted.h
@@ -56,17 +56,21 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
             T curVal = last + dist;
             // positive if values get larger, negative if curVal gets samller
             double direction = (dist > 0) ? 1 : -1;
-            if (++tok != tokens.end()) {
-                T afterDotVal = string2type<T>(*tok);
-                // expand the dots until before the afterDotVal, compare against rounding error
-                double roundError = direction * dist * -1.e-5;
-                while ((curVal - afterDotVal) * direction < roundError) {
-                    vals.push_back(curVal);
-                    curVal += dist;
-                }
-                // add the afterDotVal
-                vals.push_back(afterDotVal);
+            if (++tok == tokens.end()) {
+                throw CDMException("tokenizeDotted: cannot use ... expansion at the end, need a value after");
             }
+            if (dist == 0) {
+                throw CDMException("tokenizeDotted: cannot use ... expansion with step 0");
+            }
+            T afterDotVal = string2type<T>(*tok);
+            // expand the dots until before the afterDotVal, compare against rounding error
+            double roundError = direction * dist * -1.e-5;
+            while ((curVal - afterDotVal) * direction < roundError) {
+                vals.push_back(curVal);
+                curVal += dist;
+            }
+            // add the afterDotVal
+            vals.push_back(afterDotVal);
         } else {
             T val = string2type<T>(current);
             vals.push_back(val);
-- 
2.43.0


From 5dee019ff5ac35359e060d6368988821148d4123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:28 +0000
Subject: [PATCH 010/173] fix: relative axis/time specifications with x-offset,
 decimals and large quotients

---
 src/SpatialAxisSpec.cc | 7 ++++---
 src/TimeSpec.cc        | 9 +++++----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/SpatialAxisSpec.cc b/src/SpatialAxisSpec.cc
index 4c6f074..382eb4c 100644
--- a/src/SpatialAxisSpec.cc
+++ b/src/SpatialAxisSpec.cc
@@ -33,6 +33,7 @@
 #include "fimex/Units.h"
 
 #include <algorithm>
+#include <cmath>
 #include <iterator>
 #include <regex>
 #include <vector>
@@ -59,7 +60,7 @@ public:
         std::string retVal;
         if (value != "...") {
             std::smatch what;
-            std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+            std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
             double retDouble;
             if (std::regex_search(value, what, finalVals)) {
                 if (what.size() >= 3) {
@@ -134,7 +135,7 @@ void SpatialAxisSpec::init()
         Units units;
         // find the position 0 in the relative times
         double startU = start; // TODO check unit
-        double startOffset = static_cast<int> (startU / delta) * delta;
+        double startOffset = std::trunc(startU / delta) * delta;
         if (startU < startOffset) {
             // cast to largest value below startU
             // but I want smallest value above startU
@@ -142,7 +143,7 @@ void SpatialAxisSpec::init()
         }
         // find position x in the relative times
         double endU = end; // TODO check unit
-        double finalU = static_cast<int> (endU / delta) * delta;
+        double finalU = std::trunc(endU / delta) * delta;
         transform(places.begin(), places.end(), places.begin(),
                 TranslateRelativePlace(startOffset, finalU));
         string absolutPlaces = join(places.begin(), places.end(), ",");
diff --git a/src/TimeSpec.cc b/src/TimeSpec.cc
index d855878..977e6d3 100644
--- a/src/TimeSpec.cc
+++ b/src/TimeSpec.cc
@@ -37,6 +37,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <regex>
@@ -59,7 +60,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
 {
     double retVal = 0.;
     std::smatch what;
-    std::regex finalVals("x\\s*([+-])?\\s*(\\d\\.?\\d*)?\\s*");
+    std::regex finalVals("x\\s*([+-])?\\s*(\\d+\\.?\\d*)?\\s*");
     if (std::regex_search(value, what, finalVals)) {
         assert(what.size() == 3); // defined by regex
         if (what[2] == "") {
@@ -68,7 +69,7 @@ static double translateRelativeTime(string value, double startOffset, double fin
         } else {
             if (what[1] == '+') {
                 retVal = finalValue + string2type<double>(what[2]);
-            } else if (what[1] != "-") {
+            } else if (what[1] == "-") {
                 retVal = finalValue - string2type<double>(what[2]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN,
@@ -149,7 +150,7 @@ TimeSpec::TimeSpec(const string& timeSpec, const FimexTime& startTime, const Fim
         TimeUnit tu(relativeUnit);
         // find the position 0 in the relative times
         double startTimeU = tu.fimexTime2unitTime(startTime);
-        double startOffset = static_cast<int>(startTimeU / delta) * delta;
+        double startOffset = std::trunc(startTimeU / delta) * delta;
         if (startTimeU < startOffset) {
             // cast to largest value below startTimeU
             // but I want smallest value above startTimeU
@@ -157,7 +158,7 @@ TimeSpec::TimeSpec(const string& timeSpec, const FimexTime& startTime, const Fim
         }
         // find position x in the relative times
         double endTimeU = tu.fimexTime2unitTime(endTime);
-        double finalTimeU = static_cast<int>(endTimeU / delta) * delta;
+        double finalTimeU = std::trunc(endTimeU / delta) * delta;
 
         // convert list with x and ... to timeUnitString
         for (size_t i = 0; i < times.size(); i++) {
-- 
2.43.0


From 9d93184bcd5776d8878a738625151bbaf8330af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:28 +0000
Subject: [PATCH 011/173] fix: tokenizeDotted expands ... for unsigned types

---
 include/fimex/TokenizeDotted.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/fimex/TokenizeDotted.h b/include/fimex/TokenizeDotted.h
index c75782f..916b2e4 100644
--- a/include/fimex/TokenizeDotted.h
+++ b/include/fimex/TokenizeDotted.h
@@ -29,6 +29,7 @@
 #include "fimex/StringUtils.h"
 #include "fimex/Type2String.h"
 
+#include <type_traits>
 #include <vector>
 
 namespace MetNoFimex {
@@ -51,9 +52,11 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
             if (currentPos < 2) {
                 throw CDMException("tokenizeDotted: cannot use ... expansion at position " + type2string(currentPos - 1) + ", need at least two values before");
             }
-            T last = vals[currentPos - 1];
-            T dist = last - vals[currentPos - 2];
-            T curVal = last + dist;
+            // unsigned types would wrap around in the differences
+            typedef typename std::conditional<std::is_unsigned<T>::value, long long, T>::type S;
+            S last = vals[currentPos - 1];
+            S dist = last - static_cast<S>(vals[currentPos - 2]);
+            S curVal = last + dist;
             // positive if values get larger, negative if curVal gets samller
             double direction = (dist > 0) ? 1 : -1;
             if (++tok == tokens.end()) {
@@ -62,7 +65,7 @@ std::vector<T> tokenizeDotted(const std::string& str, const std::string& delimit
             if (dist == 0) {
                 throw CDMException("tokenizeDotted: cannot use ... expansion with step 0");
             }
-            T afterDotVal = string2type<T>(*tok);
+            S afterDotVal = string2type<T>(*tok);
             // expand the dots until before the afterDotVal, compare against rounding error
             double roundError = direction * dist * -1.e-5;
             while ((curVal - afterDotVal) * direction < roundError) {
-- 
2.43.0


From c0ae4ded2ed9cb6ee881938ff4258c7e697815d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:28 +0000
Subject: [PATCH 012/173] fix: FimexTime::parseISO8601 rejects out-of-range
 date and time parts

---
 src/FimexTime.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/FimexTime.cc b/src/FimexTime.cc
index 383403f..0d67771 100644
--- a/src/FimexTime.cc
+++ b/src/FimexTime.cc
@@ -27,6 +27,7 @@
 #include "fimex/TimeUtils.h"
 #include "fimex/TokenizeDotted.h"
 
+#include <algorithm>
 #include <climits>
 #include <cmath>
 #include <limits>
@@ -132,9 +133,14 @@ bool FimexTime::parseISO8601(const std::string& isoStr)
         vector<string> seconds = tokenize(time[2], ".");
         int milliSecs = 0;
         if (seconds.size() > 1) {
-            milliSecs = std::round(string2type<double>("." + seconds[1]) * 1000);
+            milliSecs = std::min(999L, std::lround(string2type<double>("." + seconds[1]) * 1000));
         }
-        setTime(date[0], date[1], date[2], string2type<short>(time[0]), string2type<short>(time[1]), string2type<short>(seconds[0]), milliSecs);
+        const short hour = string2type<short>(time[0]), minute = string2type<short>(time[1]), second = string2type<short>(seconds[0]);
+        if (date[0] < 0 || date[0] > USHRT_MAX || date[1] < 1 || date[1] > 12 || date[2] < 1 || date[2] > 31)
+            return false;
+        if (hour < 0 || hour > 24 || minute < 0 || minute > 59 || second < 0 || second > 60 || milliSecs < 0)
+            return false;
+        setTime(date[0], date[1], date[2], hour, minute, second, milliSecs);
         return true;
     } else {
         return false;
-- 
2.43.0


From 45edcc32f7e03fd6e44225244c33c91fce5b2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:28 +0000
Subject: [PATCH 013/173] fix: time units like milliseconds since a reference
 are linear

---
 src/Units.cc | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/Units.cc b/src/Units.cc
index b563442..28c8bc2 100644
--- a/src/Units.cc
+++ b/src/Units.cc
@@ -33,7 +33,9 @@
 #include "udunits2.h"
 #include "converter.h"
 
+#include <algorithm>
 #include <cmath>
+#include <limits>
 
 namespace MetNoFimex {
 
@@ -126,18 +128,13 @@ public:
         double slope = convert(1.0) - offset;
         if (!std::isfinite(slope)) return false;
 
-        double val = 10.;
-        double cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
-        val = 100.;
-        cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
-        val = 1000.;
-        cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
-        val = -1000.;
-        cval = convert(val);
-        if ((!std::isfinite(cval)) || (std::fabs(cval - (val*slope+offset)) > 1e-5)) return false;
+        for (double val : {10., 100., 1000., -1000.}) {
+            const double cval = convert(val);
+            // slope is determined with the rounding error of offset
+            const double eps = 8 * std::numeric_limits<double>::epsilon() * (std::fabs(val) + 1) * (std::fabs(offset) + std::fabs(slope));
+            if ((!std::isfinite(cval)) || (std::fabs(cval - (val * slope + offset)) > std::max(1e-5, eps)))
+                return false;
+        }
 
         return true;
     }
-- 
2.43.0


From f3c8670425e4ba0079b9b335c4ab794356b4fe1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:01 +0000
Subject: [PATCH 014/173] fix: time_point conversions before 1678 and after
 2262

---
 src/TimeUtils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/TimeUtils.cc b/src/TimeUtils.cc
index 5332e7b..7c8e53c 100644
--- a/src/TimeUtils.cc
+++ b/src/TimeUtils.cc
@@ -69,8 +69,8 @@ time_point make_time_from_string(const std::string& iso9601)
 
 time_point make_time_from_timet(long timet)
 {
-    std::chrono::system_clock::time_point t = std::chrono::system_clock::from_time_t(static_cast<std::time_t>(timet));
-    return std::chrono::time_point_cast<std::chrono::seconds>(t);
+    // not via system_clock, its resolution limits the range of years
+    return time_point(time_duration(timet));
 }
 
 static std::string make_time_string(const time_point& tp, const char* fmt)
@@ -78,7 +78,7 @@ static std::string make_time_string(const time_point& tp, const char* fmt)
     if (is_invalid_time_point(tp))
         return "invalid-date-time";
 
-    const time_t tt = std::chrono::system_clock::to_time_t(tp);
+    const time_t tt = timePoint2epochTime(tp);
     const tm utc = *std::gmtime(&tt);
     char buf[64];
     snprintf(buf, sizeof(buf), fmt, 1900 + utc.tm_year, 1 + utc.tm_mon, utc.tm_mday, utc.tm_hour, utc.tm_min, utc.tm_sec);
@@ -124,7 +124,7 @@ FimexTime fromTimePoint(const time_point& tp)
     if (is_invalid_time_point(tp))
         return FimexTime();
 
-    const time_t tt = std::chrono::system_clock::to_time_t(tp);
+    const time_t tt = timePoint2epochTime(tp);
     const tm utc = *std::gmtime(&tt);
     return FimexTime(1900 + utc.tm_year, 1 + utc.tm_mon, utc.tm_mday, utc.tm_hour, utc.tm_min, utc.tm_sec);
 }
-- 
2.43.0


From a69ddc7167aa5990d880f6f5d1a896d7f9cba430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:34 +0000
Subject: [PATCH 015/173] fix: rounding of values beyond the 32 bit integer
 range

---
 include/fimex/MathUtils.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/fimex/MathUtils.h b/include/fimex/MathUtils.h
index 70789ae..6913126 100644
--- a/include/fimex/MathUtils.h
+++ b/include/fimex/MathUtils.h
@@ -37,17 +37,17 @@ namespace MetNoFimex {
 /**
  * Round a double to integer.
  */
-inline int round(double num)
+inline long long round(double num)
 {
-    return ::lround(num);
+    return ::llround(num);
 }
 
 /**
  * Round a float to integer.
  */
-inline int round(float num)
+inline long long round(float num)
 {
-    return ::lroundf(num);
+    return ::llroundf(num);
 }
 
 template <typename T>
-- 
2.43.0


From 8a924634afe3dc47774ddd93551d054598f55d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:49 +0000
Subject: [PATCH 016/173] fix: keep missing values missing and 64 bit zeros
 valid when converting data types

---
 include/fimex/DataUtils.h | 45 ++++++++++++++++++++++++++++++++-------
 src/DataImpl.h            |  5 ++++-
 2 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/include/fimex/DataUtils.h b/include/fimex/DataUtils.h
index 22fa518..5e712de 100644
--- a/include/fimex/DataUtils.h
+++ b/include/fimex/DataUtils.h
@@ -30,8 +30,37 @@
 #include "fimex/CDMDataType.h"
 #include "fimex/DataDecl.h"
 
+#include <cmath>
+#include <limits>
+
 namespace MetNoFimex {
 
+/**
+ * Cast a fill value; the 64 bit integer default fill values are not exactly representable as double
+ */
+template <typename T>
+T castFillValue(double fill)
+{
+    if (std::numeric_limits<T>::is_integer) {
+        if (fill >= std::ldexp(1., std::numeric_limits<T>::digits))
+            return std::numeric_limits<T>::max();
+        if (fill <= static_cast<double>(std::numeric_limits<T>::lowest()))
+            return std::numeric_limits<T>::lowest();
+    }
+    return static_cast<T>(fill);
+}
+
+/**
+ * Check if a value is the fill value, which may not be exactly representable in the type
+ */
+template <typename T>
+bool isFillValue(T value, double fill)
+{
+    if (std::numeric_limits<T>::is_integer)
+        return static_cast<double>(value) == fill;
+    return value == static_cast<T>(fill);
+}
+
 /**
  * Scale a value using fill, offset and scale
  */
@@ -39,22 +68,22 @@ template <typename IN, typename OUT>
 class ScaleValue
 {
 private:
-    IN oldFill_;
+    double oldFill_;
     double oldScaleNewScaleInv_;
     double oldOffsetMinusNewOffsetNewScaleInv_;
     OUT newFill_;
 
 public:
     ScaleValue(double oldFill, double oldScale, double oldOffset, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : oldFill_(oldFill)
         , oldScaleNewScaleInv_(oldScale / newScale)
         , oldOffsetMinusNewOffsetNewScaleInv_((oldOffset - newOffset) / newScale)
-        , newFill_(static_cast<OUT>(newFill))
+        , newFill_(castFillValue<OUT>(newFill))
     {
     }
     OUT operator()(const IN& in) const
     {
-        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_ : data_caster<OUT, double>()(oldScaleNewScaleInv_ * in + oldOffsetMinusNewOffsetNewScaleInv_);
+        return (isFillValue<IN>(in, oldFill_) || mifi_isnan<IN>(in)) ? newFill_ : data_caster<OUT, double>()(oldScaleNewScaleInv_ * in + oldOffsetMinusNewOffsetNewScaleInv_);
         //(((oldScale_*in + oldOffset_)-newOffset_)/newScale_);
         // => ((oldScale_*in + oldOffsetMinusNewOffset_)*newScaleInv_);
         // => oldScaleNewScale_ * in + oldOffsetMinusNewOffsetNewScale_
@@ -68,7 +97,7 @@ template <typename IN, typename OUT>
 class ScaleValueUnits
 {
 private:
-    IN oldFill_;
+    double oldFill_;
     double oldScale_;
     double oldOffset_;
     UnitsConverter_p uconv_;
@@ -78,18 +107,18 @@ private:
 
 public:
     ScaleValueUnits(double oldFill, double oldScale, double oldOffset, UnitsConverter_p uconv, double newFill, double newScale, double newOffset)
-        : oldFill_(static_cast<IN>(oldFill))
+        : oldFill_(oldFill)
         , oldScale_(oldScale)
         , oldOffset_(oldOffset)
         , uconv_(uconv)
-        , newFill_(static_cast<OUT>(newFill))
+        , newFill_(castFillValue<OUT>(newFill))
         , newScaleInv_(1 / newScale)
         , newOffset_(newOffset)
     {
     }
     OUT operator()(const IN& in) const
     {
-        return (in == oldFill_ || mifi_isnan<IN>(in)) ? newFill_
+        return (isFillValue<IN>(in, oldFill_) || mifi_isnan<IN>(in)) ? newFill_
                                                       : data_caster<OUT, double>()((uconv_->convert(oldScale_ * in + oldOffset_) - newOffset_) * newScaleInv_);
     }
 };
diff --git a/src/DataImpl.h b/src/DataImpl.h
index ead9534..3334047 100644
--- a/src/DataImpl.h
+++ b/src/DataImpl.h
@@ -307,7 +307,10 @@ template <typename C>
 DataPtr DataImpl<C>::convertDataType(double oldFill, double oldScale, double oldOffset, UnitsConverter_p unitsConverter, CDMDataType newType,
                                      double newFill, double newScale, double newOffset)
 {
-    if (oldFill == newFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter)
+    // integer types cannot represent NaN, must be replaced by the fill value
+    const bool loosesNaN = !std::numeric_limits<C>::is_integer && newType != CDM_FLOAT && newType != CDM_DOUBLE;
+    const bool sameFill = oldFill == newFill && static_cast<double>(castFillValue<C>(oldFill)) == newFill;
+    if (sameFill && oldScale == newScale && oldOffset == newOffset && !unitsConverter && !loosesNaN)
         return convertValues(*this, newType);
 
     // clang-format off
-- 
2.43.0


From 67d60eaecf4093e4ae30acb90daf62319d708a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:31 +0000
Subject: [PATCH 017/173] fix: pass surface and reference pressure in the right
 order in HybridSigmaPressure2

---
 src/coordSys/verticalTransform/HybridSigmaPressure2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
index 9165537..9ada1f4 100644
--- a/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
+++ b/src/coordSys/verticalTransform/HybridSigmaPressure2.cc
@@ -32,7 +32,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p HybridSigmaPressure2::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, p0, ps);
+    return HybridSigmaToPressureConverter::createConverter(reader, cs, a, b, ps, p0);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 092109dbeb2b7a2184006341a25748e16d7349ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:31 +0000
Subject: [PATCH 018/173] fix: pass p0 and level in the right order in
 LnPressure

---
 src/coordSys/verticalTransform/LnPressure.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/verticalTransform/LnPressure.cc b/src/coordSys/verticalTransform/LnPressure.cc
index 7e3fc2a..a75201f 100644
--- a/src/coordSys/verticalTransform/LnPressure.cc
+++ b/src/coordSys/verticalTransform/LnPressure.cc
@@ -33,7 +33,7 @@ namespace MetNoFimex {
 
 VerticalConverter_p LnPressure::getPressureConverter(CDMReader_p reader, CoordinateSystem_cp cs) const
 {
-    return std::make_shared<LnPressureToPressureConverter>(reader, cs, lev, p0);
+    return std::make_shared<LnPressureToPressureConverter>(reader, cs, p0, lev);
 }
 
 } // namespace MetNoFimex
-- 
2.43.0


From 9cb95fb3797b1d6d87306b89ce8afd7787dfe908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 019/173] fix: find the second closest element if the first
 element is the closest

---
 include/fimex/FindNeighborElements.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/FindNeighborElements.h b/include/fimex/FindNeighborElements.h
index 7d7dd88..6b6f99c 100644
--- a/include/fimex/FindNeighborElements.h
+++ b/include/fimex/FindNeighborElements.h
@@ -55,7 +55,7 @@ find_closest_distinct_elements(InputIterator start, InputIterator end, typename
     if (start != end) {
         v1 = *start;
         v1Diff = abs(x - *start);
-        v2Diff = v1Diff;
+        v2Diff = numeric_limits<value_t>::max(); // no second element yet
     }
     for (InputIterator cur = start; cur != end; ++cur) {
         const value_t vDiff = abs(x - *cur);
-- 
2.43.0


From 1ed50e8c1ca5a174c66dcb0f84f9ff72b82a9c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 020/173] fix: find neighbors if the value equals the first
 element

---
 include/fimex/FindNeighborElements.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/fimex/FindNeighborElements.h b/include/fimex/FindNeighborElements.h
index 6b6f99c..9300f78 100644
--- a/include/fimex/FindNeighborElements.h
+++ b/include/fimex/FindNeighborElements.h
@@ -104,7 +104,7 @@ find_closest_neighbor_distinct_elements(InputIterator start, InputIterator end,
     const double maxDiff = std::numeric_limits<value_t>::max();
     if (lowDiff < 0)
         lowDiff = maxDiff;
-    if (highDiff < 0)
+    if (highDiff <= 0) // b must be larger than x
         highDiff = maxDiff;
     while (++cur != end) {
         const value_t diff = x - *cur;
-- 
2.43.0


From 1ff9bbf62317ae795e93534d71bd49da5a892866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 021/173] fix: nearest neighbor in 1d selects the nearer
 position

---
 src/interpolation.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index f82e058..8588733 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -419,12 +419,8 @@ int mifi_get_values_bicubic_f(const float* infield, float* outvalues, const doub
 
 int mifi_get_values_nearest_f(const float* infieldA, const float* infieldB, float* outfield, const size_t n, const double a, const double b, const double x)
 {
-    (void)infieldB;
-    (void)a;
-    (void)b;
-    (void)x;
-
-    memcpy(outfield, infieldA, n * sizeof(float));
+    const float* nearest = (fabs(x - a) <= fabs(x - b)) ? infieldA : infieldB;
+    memcpy(outfield, nearest, n * sizeof(float));
     return MIFI_OK;
 }
 
-- 
2.43.0


From 276c7fedf27c8c5f21edda74dd7d4c1c2943c60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 022/173] fix: set output to undefined if vertical
 interpolation function fails

---
 src/CDMVerticalInterpolator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 15324d1..7e4dca8 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -536,7 +536,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
                     const size_t idataZ1  = loop[IN] + idataZdelta * pos.second;
                     const float valueI0 = iData[idataZ0], valueI1 = iData[idataZ1];
                     const float verticalI0 = *(ivertical0 + pos.first), verticalI1 = *(ivertical0 + pos.second);
-                    intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut);
+                    if (intFunc(&valueI0, &valueI1, interpolated, 1, verticalI0, verticalI1, verticalOut) != MIFI_OK)
+                        *interpolated = MIFI_UNDEFINED_F; // e.g. log of negative level
                 } else {
                     // find_closest_neighbor_distinct_elements failed
                     *interpolated = MIFI_UNDEFINED_F;
-- 
2.43.0


From d7bcdfc4d9fd8d8da9618b047a03b88dba9d3add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 023/173] fix: compare vertical output level with input levels
 in same precision

---
 src/CDMVerticalInterpolator.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 7e4dca8..4a85769 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -499,7 +499,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
             LOG4FIMEX(logger, Logger::DEBUG, "loopi=" << loopi++);
 #endif
             const size_t verticalOutIdx = loop[OUT_VERTICAL] + k * overticalZdelta;
-            const double verticalOut = oVerticalValues ? oVerticalValues[verticalOutIdx] : pimpl_->level1[verticalOutIdx];
+            // same precision as the input levels, otherwise an output level identical to an input level might be considered as outside
+            const float verticalOut = oVerticalValues ? oVerticalValues[verticalOutIdx] : pimpl_->level1[verticalOutIdx];
             float* interpolated = &oData[loop[OUT] + k*odataZdelta];
 
             bool range = true;
-- 
2.43.0


From c3ece50faa90aefc80e8c4323983d16203751fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:21:09 +0000
Subject: [PATCH 024/173] fix: use vertical validity of the requested time

---
 src/CDMVerticalInterpolator.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index 4a85769..a251090 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -415,7 +415,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> oValidMaxShape = oConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid max shape: " << join(oValidMaxShape.begin(), oValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), oValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr oValuesMax = oConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), oValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -427,7 +428,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> oValidMinShape = oConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "o valid min shape: " << join(oValidMinShape.begin(), oValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), oValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr oValuesMin = oConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), oValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
@@ -441,7 +443,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMax) {
             const std::vector<std::string> iValidMaxShape = iConverter->getValidityMaxShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid max shape: " << join(iValidMaxShape.begin(), iValidMaxShape.end()));
-            const SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            SliceBuilder sbValidMax = createSliceBuilder(dataReader_->getCDM(), iValidMaxShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMax, unLimDimPos);
             if (DataPtr iValuesMax = iConverter->getValidityMax(sbValidMax)) {
                 sDataMax = makeArrayDims(getCDM(), iValidMaxShape);
                 forceUnLimDimLength1(getCDM(), sDataMax);
@@ -454,7 +457,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
         if (!pimpl_->ignoreValidityMin) {
             const std::vector<std::string> iValidMinShape = iConverter->getValidityMinShape();
             LOG4FIMEX(logger, Logger::DEBUG, "i valid min shape: " << join(iValidMinShape.begin(), iValidMinShape.end()));
-            const SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            SliceBuilder sbValidMin = createSliceBuilder(dataReader_->getCDM(), iValidMinShape);
+            setUnLimDimPos(dataReader_->getCDM(), sbValidMin, unLimDimPos);
             if (DataPtr iValuesMin = iConverter->getValidityMin(sbValidMin)) {
                 sDataMin = makeArrayDims(getCDM(), iValidMinShape);
                 forceUnLimDimLength1(getCDM(), sDataMin);
-- 
2.43.0


From 7c429fbcd7a37e743fc4b570575b224721e2b8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:25:57 +0000
Subject: [PATCH 025/173] fix: time-interpolator without changed time-axis must
 not access a missing map entry

---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7b2779e..7d6b443 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -92,7 +92,7 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
 {
     const std::string timeAxis = getTimeAxis(coordSystems_, varName);
     LOG4FIMEX(logger, Logger::DEBUG, "getting time-interpolated data-slice for " << varName << " with time-axis: " << timeAxis);
-    if (timeAxis.empty() || (dataReaderTimesInNewUnits_.find(timeAxis)->second.size() == 0)) {
+    if (timeAxis.empty() || dataReaderTimesInNewUnits_.count(timeAxis) == 0) {
         // not time-axis or "changeTimeAxis" never called
         // no changes, simply forward
         return dataReader_->getDataSlice(varName, unLimDimPos);
-- 
2.43.0


From af8a1b4d19ca6a7ba4f32f579ba1dc4faeb44f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:31 +0000
Subject: [PATCH 026/173] fix: convert source times with the source's unit when
 changing the time-axis again

---
 src/CDMTimeInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7d6b443..2eaf274 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -150,7 +150,7 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
         if (!timeDimName.empty() && changedTimes.find(timeDimName) == changedTimes.end()) {
             changedTimes.insert(timeDimName); // avoid double changes
             DataPtr times = dataReader_->getScaledData(timeDimName);
-            string unit = cdm_->getUnits(timeDimName);
+            string unit = orgCDM.getUnits(timeDimName);
             const TimeUnit tu(unit);
             vector<FimexTime> oldTimes;
             auto oldTimesPtr = times->asDouble();
-- 
2.43.0


From b5838863f7fb7d05971c4e5949d6d2e7a5c7c924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:31 +0000
Subject: [PATCH 027/173] fix: time-interpolation to times which are not
 ascending

---
 src/CDMTimeInterpolator.cc | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 2eaf274..af2abfb 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -162,10 +162,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             // create mapping of new time value positions to old time values (per time-axis)
             const vector<FimexTime>& newTimes = ts.getTimeSteps();
             size_t newTimePos = 0;
-            size_t lastPos = 0;
             vector<pair<size_t, size_t> > timeMapping(newTimes.size());
             for (vector<FimexTime>::const_iterator it = newTimes.begin(); it != newTimes.end(); ++it, ++newTimePos) {
-                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin() + lastPos, oldTimes.end(), *it);
+                vector<FimexTime>::iterator olb = lower_bound(oldTimes.begin(), oldTimes.end(), *it);
                 size_t pos = distance(oldTimes.begin(), olb);
                 size_t t1, t2;
                 if (pos == oldTimes.size()) {
@@ -183,7 +182,6 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
                         assert(oldTimes.size() == 1);
                     }
                 }
-                lastPos = pos; // make search faster, we know that the next lower_bound_pos will be >= pos
                 timeMapping[newTimePos] = make_pair(t1,t2);
             }
             timeChangeMap_[timeDimName] = timeMapping;
-- 
2.43.0


From 0518c8f36963959b94bddfd47fbba6dfc92c38b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:26:54 +0000
Subject: [PATCH 028/173] fix: time-interpolation treats fill values as
 undefined and keeps the data type

---
 src/CDMTimeInterpolator.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index af2abfb..2bbeb2a 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -28,6 +28,7 @@
 
 #include "fimex/CDM.h"
 #include "fimex/CDMException.h"
+#include "fimex/CDMInterpolator.h"
 #include "fimex/Data.h"
 #include "fimex/DataUtils.h"
 #include "fimex/Logger.h"
@@ -124,8 +125,11 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
             data = d1;
         } else if (d1->size() == d2->size()) {
             auto out = make_shared_array<float>(d1->size());
-            mifi_get_values_linear_weak_extrapol_f(d1->asFloat().get(), d2->asFloat().get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
-            data = createData(d1->size(), out);
+            const double fill = cdm_->getFillValue(varName);
+            const auto in1 = data2InterpolationArray(d1, fill);
+            const auto in2 = data2InterpolationArray(d2, fill);
+            mifi_get_values_linear_weak_extrapol_f(in1.get(), in2.get(), out.get(), d1->size(), d1Time, d2Time, currentTime);
+            data = interpolationArray2Data(variable.getDataType(), out, d1->size(), fill);
         } else {
             throw CDMException("getDataSlice for " + varName + ": got slices with different size");
         }
-- 
2.43.0


From 366ca0aa0dad0efac57ba4350bc7fc1a3c5b9c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:18 +0000
Subject: [PATCH 029/173] fix: calendar times do not end up with 60 seconds due
 to rounding

---
 src/TimeUnit.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/TimeUnit.cc b/src/TimeUnit.cc
index d4a9240..834a484 100644
--- a/src/TimeUnit.cc
+++ b/src/TimeUnit.cc
@@ -89,7 +89,6 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
 {
     Units units; // unit initialization
     FimexTime fiTime;
-    float second;
     int year, month, mday, hour, minute;
     OmpScopedLock lock(getUnitsMutex());
     std::shared_ptr<ut_unit> baseTime(ut_get_unit_by_name(reinterpret_cast<const ut_system*>(units.exposeInternals()), "second"), ut_free);
@@ -99,14 +98,18 @@ FimexTime TimeUnit::unitTime2fimexTime(double unitTime) const
     double encodedTime = cv_convert_double(conv.get(), unitTime);
     double res, sec;
     ut_decode_time(encodedTime, &year, &month, &mday, &hour, &minute, &sec, &res);
-    second = static_cast<float>(sec);
+    long msec = std::lround(sec * 1000);
+    if (msec >= 60000) { // rounded up to the next minute
+        ut_decode_time(encodedTime + (60 - sec), &year, &month, &mday, &hour, &minute, &sec, &res);
+        msec = 0;
+    }
     fiTime.setYear(static_cast<unsigned int>(year));
     fiTime.setMonth(static_cast<char>(month));
     fiTime.setMDay(static_cast<char>(mday));
     fiTime.setHour(static_cast<char>(hour));
     fiTime.setMinute(static_cast<char>(minute));
-    fiTime.setSecond(static_cast<char>(second));
-    fiTime.setMSecond(static_cast<unsigned int>((second - fiTime.getSecond())*1000));
+    fiTime.setSecond(static_cast<char>(msec / 1000));
+    fiTime.setMSecond(static_cast<unsigned int>(msec % 1000));
 
     return fiTime;
 }
-- 
2.43.0


From 54d1ef93e580b2bc5a5c39723830d0f5ddcbe5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:28:37 +0000
Subject: [PATCH 030/173] fix: time-interpolation at a source time uses only
 that source time

---
 src/CDMTimeInterpolator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 2bbeb2a..7099c67 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -176,7 +176,9 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
                     pos--;
                 }
                 t2 = pos;
-                if (pos != 0) {
+                if (oldTimes[pos] == *it) { // no interpolation needed
+                    t1 = pos;
+                } else if (pos != 0) {
                     t1 = pos-1;
                 } else { // extrapolation at beginning
                     t1 = pos;
-- 
2.43.0


From 353a2ce38e7c342d26295272af63b3ed16acb0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 031/173] fix: renameVariable of missing variable or to the
 same name must not remove variables

---
 src/CDM.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 5653948..8cd8d03 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -184,6 +184,10 @@ std::vector<std::string> CDM::findVariables(const std::string& attrName, const s
 
 bool CDM::renameVariable(const std::string& oldName, const std::string& newName)
 {
+    if (!hasVariable(oldName))
+        return false;
+    if (oldName == newName)
+        return true;
     pimpl_->coordsInitialized = false;
     // change variable in VarVec variables and variableNames as keys in StrAttrVecMap attributes
     try {
-- 
2.43.0


From 13033522c485d4e32d9fcb279825446742a8e091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:32:21 +0000
Subject: [PATCH 032/173] fix: renaming a dimension to its own name is no error

---
 src/CDM.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 8cd8d03..c41aa35 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -307,6 +307,7 @@ bool CDM::renameDimension(const std::string& oldName, const std::string& newName
 {
     pimpl_->coordsInitialized = false;
     if (!hasDimension(oldName)) return false;
+    if (oldName == newName) return true;
     if (hasDimension(newName)) {
         if (!ignoreInUse && testDimensionInUse(newName)) {
             throw CDMException("Cannot rename dimension to "+newName+". Name already in use and overwrite disabled.");
-- 
2.43.0


From cdd35ba30608391a5c408a9dc811edb229b5b3d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:34 +0000
Subject: [PATCH 033/173] fix: size of the fill-value slice for missing
 variables in joinNew

---
 src/AggregationReader.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index f8c0bb9..905ec9a 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -447,7 +447,9 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
                     // set everything to fillValue
                     size_t unLimSliceSize = 1;
                     for (const auto& dim : aVar.getShape()) {
-                        unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        if (dim != joinNewDim) {
+                            unLimSliceSize *= cdm_->getDimension(dim).getLength();
+                        }
                     }
                     return createData(aVar.getDataType(), unLimSliceSize, cdm_->getFillValue(varName));
                 }
-- 
2.43.0


From ae4af2c10a4f0caacc0a0ab0e56d18387b374f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:34 +0000
Subject: [PATCH 034/173] fix: joinNew reads all data of variables with the
 members' unlimited dimension

---
 src/AggregationReader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 905ec9a..4df35fb 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -461,6 +461,10 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
 
     // all other variables behave as for "union"
     if (auto rd = findUnionReader(varName)) {
+        if (!cdm_->hasUnlimitedDim(aVar)) {
+            // the unlimited dimension of the reader might be limited in the aggregation (joinNew)
+            return rd->getData(varName);
+        }
         return rd->getDataSlice(varName, unLimDimPos);
     }
 
-- 
2.43.0


From 613337636ca6823692123986a4ae9ec409ed0f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:34 +0000
Subject: [PATCH 035/173] fix: joinNew does not use in-memory data of one
 member for all members

---
 src/AggregationReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 4df35fb..0595693 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -142,6 +142,7 @@ void AggregationReader::addFirstReader(CDMReader_p reader, const std::string& id
                 auto shape = var.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 var.setShape(shape);
+                var.setData(nullptr); // data is read from each of the readers
             }
         }
 
@@ -263,6 +264,7 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
                 auto shape = rVar.getShape(); // take a copy
                 shape.push_back(joinNewDim);
                 aVar.setShape(shape);
+                aVar.setData(nullptr); // data is read from each of the readers
                 aCdm.addVariable(aVar);
                 copyAttributes(rCdm, varName, *cdm_);
             }
-- 
2.43.0


From d44367c4e20b41c612b787e66f75d4e2eef2e1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:09 +0000
Subject: [PATCH 036/173] fix: joinNew checks and adds dimensions of variables
 which are not in the first reader

---
 src/AggregationReader.cc | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 0595693..48eb991 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -260,6 +260,23 @@ void AggregationReader::addOtherReader(CDMReader_p reader, const std::string& id
         for (const auto& rVar : rCdm.getVariables()) {
             const auto& varName = rVar.getName();
             if (!aCdm.hasVariable(varName) && joinVars.count(varName)) {
+                bool dimsOk = true;
+                for (const auto& rDimName : rVar.getShape()) {
+                    if (aCdm.hasDimension(rDimName) && aCdm.getDimension(rDimName).getLength() != rCdm.getDimension(rDimName).getLength()) {
+                        dimsOk = false;
+                        LOG4FIMEX(logger, Logger::DEBUG, "dim '" << rDimName << "' from reader '" << id << "' has length mismatch");
+                    }
+                }
+                if (!dimsOk) {
+                    continue;
+                }
+                for (const auto& rDimName : rVar.getShape()) {
+                    if (!aCdm.hasDimension(rDimName)) {
+                        CDMDimension aDim = rCdm.getDimension(rDimName);
+                        aDim.setUnlimited(false);
+                        aCdm.addDimension(aDim);
+                    }
+                }
                 auto aVar = rVar;
                 auto shape = rVar.getShape(); // take a copy
                 shape.push_back(joinNewDim);
-- 
2.43.0


From 84e8489c8f7c3b025a81c388687ac3df49f13dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:09 +0000
Subject: [PATCH 037/173] fix: globFiles matches files in several
 sub-directories

---
 src/FileUtils.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/FileUtils.cc b/src/FileUtils.cc
index a50151d..7093c57 100644
--- a/src/FileUtils.cc
+++ b/src/FileUtils.cc
@@ -163,11 +163,12 @@ static void scanFiles_(std::vector<std::string>& files, const path_t& dir, int d
         const filetype_t ft = file_type(e);
         if (ft == DIRECTORY) {
             if (depth != 0) {
+                std::string relDir = currentRelDir;
                 if (!matchFileOnly) {
                     // remember the directory behind start-directory
-                    currentRelDir += path_filename_string(e) + "/";
+                    relDir += path_filename_string(e) + "/";
                 }
-                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, currentRelDir, depthCount + 1);
+                scanFiles_(files, e, depth - 1, regexp, matchFileOnly, relDir, depthCount + 1);
             }
         } else if (ft == REGULAR_FILE) {
             const std::string filename = (matchFileOnly ? "" : currentRelDir) + path_filename_string(e);
-- 
2.43.0


From f4ff8c628343e04a73b3c677fe2ac70f4c9def79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:42:44 +0000
Subject: [PATCH 038/173] fix: NcML attribute renaming keeps the right
 attribute

---
 src/NcmlCDMReader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 6642c75..f7f5433 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -501,9 +501,11 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName);
+                CDMAttribute attr = cdm_->getAttribute(CDM::globalAttributeNS(), orgName); // no reference as removeAttribute moves attributes
+                cdm_->removeAttribute(CDM::globalAttributeNS(), orgName);
                 cdm_->removeAttribute(CDM::globalAttributeNS(), name); // remove other attributes with same name
                 attr.setName(name);
+                cdm_->addAttribute(CDM::globalAttributeNS(), attr);
             } catch (CDMException& ex) {
                 // no such attribute, don't care
             }
@@ -517,9 +519,11 @@ void NcmlCDMReader::initAttributeNameChange()
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for attribute with orgName: " + orgName);
             try {
-                CDMAttribute& attr = cdm_->getAttribute(varName, orgName);
+                CDMAttribute attr = cdm_->getAttribute(varName, orgName); // no reference as removeAttribute moves attributes
+                cdm_->removeAttribute(varName, orgName);
                 cdm_->removeAttribute(varName, name); // remove other attributes with same name
                 attr.setName(name);
+                cdm_->addAttribute(varName, attr);
 
             } catch (CDMException& ex) {
                 // no such attribute, don't care
-- 
2.43.0


From 3a495f473f3b88afce3d7464c724bfda37f4ca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:00 +0000
Subject: [PATCH 039/173] fix: NcML variable renaming refers to names in the
 data-source

---
 src/NcmlCDMReader.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index f7f5433..04b9131 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -401,16 +401,22 @@ void NcmlCDMReader::initAddReassignAttribute()
 /* change the variable names */
 void NcmlCDMReader::initVariableNameChange()
 {
+    // orgName is the name in the data-source, so all variables get a temporary name before any gets its new name
+    std::vector<std::pair<std::string, std::string>> temporaryNames;
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:variable[@orgName]")) {
         std::string orgName = getXmlProp(node, "orgName");
         if (cdm_->hasVariable(orgName)) {
             std::string name = getXmlProp(node, "name");
             if (name.empty())
                 throw CDMException("ncml-file " + configId + " has no name for variable with orgName: " + orgName);
-            cdm_->renameVariable(orgName, name);
+            const std::string temporary = "__fimex_ncml_renaming_" + type2string(temporaryNames.size()) + "_" + orgName;
+            cdm_->renameVariable(orgName, temporary);
+            temporaryNames.push_back(std::make_pair(temporary, name));
             variableNameChanges[name] = orgName;
         }
     }
+    for (const auto& tn : temporaryNames)
+        cdm_->renameVariable(tn.first, tn.second);
 
     // add variables not existing yet
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:variable[not(@orgName)]")) {
-- 
2.43.0


From 027f9b3e03dfe91de03dfd8890c0b0283fc61807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:43:14 +0000
Subject: [PATCH 040/173] fix: NcML isUnlimited prefetches the variable itself

---
 src/NcmlCDMReader.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 04b9131..494443a 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -468,9 +468,6 @@ void NcmlCDMReader::initDimensionUnlimited()
 {
     for (const auto node : XPathNodeSet(doc, "/nc:netcdf/nc:dimension[@isUnlimited]")) {
         std::string name = getXmlProp(node, "name");
-        std::string orgName = getXmlProp(node, "orgName");
-        if (orgName.empty())
-            orgName = name;
         std::string isUnlimited = getXmlProp(node, "isUnlimited");
         if (cdm_->hasDimension(name)) {
             CDMDimension& dim = cdm_->getDimension(name);
@@ -481,7 +478,7 @@ void NcmlCDMReader::initDimensionUnlimited()
                     if (cdm_->hasVariable(name)) {
                         CDMVariable& var = cdm_->getVariable(name);
                         if (!var.hasData()) {
-                            var.setData(dataReader->getData(orgName));
+                            var.setData(dataReader->getData(name));
                         }
                     }
                 }
-- 
2.43.0


From f7b5d2e3639d62d84b968d25743c5f27e179bc85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 041/173] fix: text of float and double with enough digits to
 restore the value

---
 src/Type2String.cc | 39 +++++++++++++++++++++++++++++++++------
 1 file changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/Type2String.cc b/src/Type2String.cc
index db7a18b..6c7fda8 100644
--- a/src/Type2String.cc
+++ b/src/Type2String.cc
@@ -31,26 +31,53 @@
 
 #include "fimex/Type2String.h"
 
+#include <cmath>
+#include <cstdlib>
 #include <iomanip>
 #include <limits>
 
 namespace MetNoFimex {
 
+namespace {
+
+float parse(const std::string& text, float)
+{
+    return std::strtof(text.c_str(), nullptr);
+}
+
+double parse(const std::string& text, double)
+{
+    return std::strtod(text.c_str(), nullptr);
+}
+
+//! text with as many digits as required to get the same value when parsing the text
+template <typename T>
+std::string shortestText(T in)
+{
+    std::string text;
+    for (int precision = std::numeric_limits<T>::digits10 + 1; precision <= std::numeric_limits<T>::max_digits10; ++precision) {
+        std::ostringstream buffer;
+        buffer << std::setprecision(precision) << in;
+        text = buffer.str();
+        if (!std::isfinite(in) || parse(text, in) == in)
+            break;
+    }
+    return text;
+}
+
+} // namespace
+
 template <>
 std::ostream& type2stream<double>(std::ostream& out, double in)
 {
-    std::ostringstream buffer;
-    buffer << std::setprecision(std::numeric_limits<double>::digits10 + 1) << in;
-    out << buffer.str();
+    out << shortestText(in);
     return out;
 }
 
 template <>
 std::ostream& type2stream<float>(std::ostream& out, float in)
 {
-    std::ostringstream buffer;
-    buffer << std::setprecision(std::numeric_limits<float>::digits10 + 1) << in;
-    out << buffer.str();
+    out << shortestText(in);
     return out;
 }
 
-- 
2.43.0


From c65b5bc977649d78247d362d6b9e386ef2959571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 042/173] fix: keep newline and tab when writing xml attributes

---
 src/XMLUtils.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/XMLUtils.cc b/src/XMLUtils.cc
index 29de8d3..9c9c3f1 100644
--- a/src/XMLUtils.cc
+++ b/src/XMLUtils.cc
@@ -135,7 +135,7 @@ XMLInputDoc createXMLInput(const std::string& configXML)
 namespace {
 bool needsXmlEscape(const std::string& input)
 {
-    return input.find_first_of("&<>\"'") != std::string::npos;
+    return input.find_first_of("&<>\"'\n\r\t") != std::string::npos;
 }
 } // namespace
 
@@ -170,6 +170,15 @@ void escapeXmlToStream(std::ostream& output, const std::string& input)
             case '\'':
                 output << "&apos;";
                 break;
+            case '\n':
+                output << "&#10;"; // a literal newline in an attribute is read as space
+                break;
+            case '\r':
+                output << "&#13;";
+                break;
+            case '\t':
+                output << "&#9;";
+                break;
             default:
                 output.put(c); // Write the character directly to the stream
                 break;
-- 
2.43.0


From 1e16f5803005cf0107531e8e71c8e4e9d18c2b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:45:38 +0000
Subject: [PATCH 043/173] fix: escape dimension names in shape and string
 values when writing NcML

---
 src/NcmlCDMWriter.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 6cb28b8..8fc198a 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -48,7 +48,7 @@ void shapeToXMLStream(std::ostream& out, const std::vector<std::string>& fimex_s
         return;
 
     // ncml shape is slowest varying dimension first, fimex shape is fastest varying dimension first
-    out << " shape=\"" << join(fimex_shape.rbegin(), fimex_shape.rend(), " ") << "\"";
+    out << " shape=\"" << escapeXml(join(fimex_shape.rbegin(), fimex_shape.rend(), " ")) << "\"";
 }
 
 std::string findStringsSeparator(DataPtr data)
@@ -144,7 +144,11 @@ void NcmlCDMWriter::write(std::ostream& out, bool withData)
                 if (unLimDimPos > 0)
                     out << separator;
                 if (data && data->size() > 0) {
-                    data->toStream(out, separator);
+                    if (data->getDataType() == CDM_STRING || data->getDataType() == CDM_STRINGS) {
+                        out << escapeXml(data->asString(separator));
+                    } else {
+                        data->toStream(out, separator);
+                    }
                 } else if (dataSize > 0) {
                     std::ostringstream fill;
                     createData(var.getDataType(), 1, cdm.getFillValue(var.getName()))->toStream(fill);
-- 
2.43.0


From ac28ed2b6d26e4cdfc3f75c019cc6b90619077db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:40 +0000
Subject: [PATCH 044/173] fix: recognise _Unsigned for variables in NcML

---
 src/NcmlCDMReader.cc | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 494443a..48933a8 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -93,6 +93,17 @@ std::vector<std::string> fimexShapeFromXmlNode(xmlNodePtr node)
     return fimexShapeFromXmlAtt(getXmlProp(node, "shape"));
 }
 
+bool isUnsignedVariable(XMLDoc_p doc, xmlNodePtr node, const std::string& configId)
+{
+    const XPathNodeSet nodes_att_unsigned(doc, "./nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
+    if (nodes_att_unsigned.size() != 1)
+        return false;
+    const std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
+    if (att_unsigned_val != "true" && att_unsigned_val != "false")
+        throw CDMException("ncml-file " + configId + " has invalid _Unsigned attribute value for variable '" + getXmlProp(node, "name") + "'");
+    return (att_unsigned_val == "true");
+}
+
 } // namespace
 
 NcmlCDMReader::NcmlCDMReader(const XMLInput& configXML)
@@ -241,18 +252,9 @@ void NcmlCDMReader::initVariableTypeChange()
         if (name.empty())
             throw CDMException("ncml-file " + configId + " has no name for variable");
 
-        const XPathNodeSet nodes_att_unsigned(doc, "/nc:attribute[@name='" + NCML_UNSIGNED + "']", node);
-        bool att_unsigned = false;
-        if (nodes_att_unsigned.size() == 1) {
-            std::string att_unsigned_val = getXmlProp(nodes_att_unsigned.at(0), "value");
-            if (att_unsigned_val == "true")
-                att_unsigned = true;
-            else if (att_unsigned_val != "false")
-                throw CDMException("ncml-file " + configId + " has invalid _Unsigned attribute value for variable '" + name + "'");
-        }
         if (cdm_->hasVariable(name)) {
             CDMVariable& var = cdm_->getVariable(name);
-            const CDMDataType newType = datatype_ncml2cdm(type, att_unsigned);
+            const CDMDataType newType = datatype_ncml2cdm(type, isUnsignedVariable(doc, node, configId));
             if (newType == CDM_NAT)
                 throw CDMException("cannot create variable name='" + name + "' with type '" + type + "'");
             if (newType != var.getDataType()) {
@@ -423,7 +425,9 @@ void NcmlCDMReader::initVariableNameChange()
         std::string name = getXmlProp(node, "name");
         std::string type = getXmlProp(node, "type");
         if (!type.empty() && !cdm_->hasVariable(name)) {
-            CDMDataType dataType = string2datatype(type);
+            const CDMDataType dataType = datatype_ncml2cdm(type, isUnsignedVariable(doc, node, configId));
+            if (dataType == CDM_NAT)
+                throw CDMException("cannot create variable name='" + name + "' with type '" + type + "'");
             CDMVariable var(name, dataType, fimexShapeFromXmlNode(node));
             var.setData(createData(dataType, 0)); // this data cannot get fetched from the reader!
             cdm_->addVariable(var);
-- 
2.43.0


From e57341dfafcb018f3e5fa587eb16a753bdce3005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:59 +0000
Subject: [PATCH 045/173] fix: keep unsigned types of attributes in NcML

---
 src/NcmlCDMReader.cc | 17 +++++++++++++----
 src/NcmlCDMWriter.cc |  5 +++++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/NcmlCDMReader.cc b/src/NcmlCDMReader.cc
index 48933a8..2864e01 100644
--- a/src/NcmlCDMReader.cc
+++ b/src/NcmlCDMReader.cc
@@ -347,7 +347,12 @@ std::string getAttributeValue(const xmlNodePtr node)
     return value;
 }
 
-CDMAttribute createAttributeFromXML(const xmlNodePtr node, const std::string& value)
+bool isUnsignedAttribute(const xmlNodePtr node)
+{
+    return (getXmlProp(node, "isUnsigned") == "true");
+}
+
+CDMAttribute createAttributeFromXML(const xmlNodePtr node, const std::string& value, bool is_unsigned)
 {
     std::string name = getXmlProp(node, "name");
 
@@ -356,7 +361,7 @@ CDMAttribute createAttributeFromXML(const xmlNodePtr node, const std::string& va
         // default attribute type is "string"
         type = "string";
     }
-    const CDMDataType datatype = datatype_ncml2cdm(type, false);
+    const CDMDataType datatype = datatype_ncml2cdm(type, is_unsigned);
     if (datatype == CDM_NAT)
         throw CDMException("cannot create att name='" + name + "' with type '" + type + "'");
 
@@ -380,7 +385,7 @@ void NcmlCDMReader::initAddReassignAttribute()
         if (value.empty())
             continue;
 
-        const CDMAttribute att = createAttributeFromXML(node, value);
+        const CDMAttribute att = createAttributeFromXML(node, value, isUnsignedAttribute(node));
 
         LOG4FIMEX(logger, Logger::DEBUG, "adding global attribute: " + att.getName());
         cdm_->removeAttribute(CDM::globalAttributeNS(), att.getName());
@@ -393,7 +398,11 @@ void NcmlCDMReader::initAddReassignAttribute()
         const std::string value = getAttributeValue(node);
         if (value.empty())
             continue;
-        const CDMAttribute att = createAttributeFromXML(node, value);
+        // fill values must have the type of their variable
+        const std::string attName = getXmlProp(node, "name");
+        const bool is_fill = (attName == "_FillValue" || attName == "missing_value");
+        const bool is_unsigned = isUnsignedAttribute(node) || (is_fill && isUnsignedVariable(doc, node->parent, configId));
+        const CDMAttribute att = createAttributeFromXML(node, value, is_unsigned);
         cdm_->removeAttribute(varName, att.getName());
         LOG4FIMEX(logger, Logger::DEBUG, "adding variable attribute to " << varName << ": " << att.getName());
         cdm_->addAttribute(varName, att);
diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index 8fc198a..df68d7c 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -187,6 +187,9 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMAttribute& att, const std:
         separator = findStringsSeparator(att.getData());
     }
     out << indent << "<attribute name=\"" << escapeXml(att.getName()) << "\" type=\"" << dt.name << "\"";
+    if (dt.is_unsigned) {
+        out << " isUnsigned=\"true\"";
+    }
     if (separator != " ") {
         out << " separator=\"" << separator << "\"";
     }
@@ -216,6 +219,8 @@ void NcmlCDMWriter::write(std::ostream& out, const CDMVariable& var, const std::
         opened = true;
     }
     for (const auto& att : attrs) {
+        if (dt.is_unsigned && att.getName() == NCML_UNSIGNED)
+            continue; // written already
         write(out, att, "  ");
     }
     if (opened) {
-- 
2.43.0


From 227887342a5232f36318056676eb140153bed42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:47:13 +0000
Subject: [PATCH 046/173] fix: separator for NcML strings containing a comma or
 whitespace

---
 src/NcmlCDMWriter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index df68d7c..de2f97a 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -61,7 +61,9 @@ std::string findStringsSeparator(DataPtr data)
     for (; isep < n_separators; ++isep) {
         bool present = false;
         for (size_t i = 0; i < n_strings; ++i) {
-            if (strings[i].find(separators[isep]) != std::string::npos) {
+            // without separator, i.e. isep == 0, reading splits at any of " ,\t\r\n" and skips empty strings
+            if (isep == 0 ? (strings[i].empty() || strings[i].find_first_of(" ,\t\r\n") != std::string::npos)
+                          : (strings[i].find(separators[isep]) != std::string::npos)) {
                 // separator candidate found, we cannot use it, try next
                 present = true;
                 break;
-- 
2.43.0


From f274691bb58bb8259a68cc6c992e3a70de1b08c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:52 +0000
Subject: [PATCH 047/173] fix: read infinite and negative not-a-number from
 text

---
 include/fimex/String2Type.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/fimex/String2Type.h b/include/fimex/String2Type.h
index 8eea097..5ebe4a5 100644
--- a/include/fimex/String2Type.h
+++ b/include/fimex/String2Type.h
@@ -67,8 +67,14 @@ T string2type(const std::string& s)
     bool ok = !s.empty();
 
     if (std::is_arithmetic<T>() && ok) {
-        if (std::is_floating_point<T>() && s == "nan") {
-            return std::numeric_limits<T>::quiet_NaN();
+        if (std::is_floating_point<T>()) {
+            // text written by type2string for special values
+            if (s == "nan" || s == "-nan")
+                return std::numeric_limits<T>::quiet_NaN();
+            if (s == "inf")
+                return std::numeric_limits<T>::infinity();
+            if (s == "-inf")
+                return -std::numeric_limits<T>::infinity();
         }
         const char c = s[0];
         ok = (c == '-') || (std::is_floating_point<T>() && c == '.') || std::isdigit(c);
-- 
2.43.0


From 08dc14e95c891fda28e82e09d28ffe8d9f9d86e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:17 +0000
Subject: [PATCH 048/173] fix: border smoothing of variables without horizontal
 axes

---
 src/CDMBorderSmoothing.cc | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/src/CDMBorderSmoothing.cc b/src/CDMBorderSmoothing.cc
index 9e74853..a6d5328 100644
--- a/src/CDMBorderSmoothing.cc
+++ b/src/CDMBorderSmoothing.cc
@@ -104,6 +104,23 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
     if (cdm_->hasDimension(varName) or not cdmO.hasVariable(varName))
         return p->readerI->getDataSlice(varName, unLimDimPos); // not scaled
 
+    const vector<string> &shape = cdm_->getVariable(varName).getShape();
+    vector<size_t> dimSizes;
+    int shapeIdxX = -1, shapeIdxY = -1;
+    for(size_t i=0; i<shape.size(); ++i) {
+        if (p->nameX == shape[i])
+            shapeIdxX = i;
+        else if (p->nameY == shape[i])
+            shapeIdxY = i;
+
+        const CDMDimension& dim = cdm_->getDimension(shape[i]);
+        if (not dim.isUnlimited())
+            dimSizes.push_back(dim.getLength());
+    }
+    
+    if (shapeIdxX < 0 || shapeIdxY < 0)
+        return p->readerI->getDataSlice(varName, unLimDimPos); // no horizontal axes, not scaled
+
     const std::string unitsI = p->readerI->getCDM().getUnits(varName);
     const std::string unitsO = p->interpolatedO->getCDM().getUnits(varName);
 
@@ -121,23 +138,6 @@ DataPtr CDMBorderSmoothing::getDataSlice(const std::string &varName, size_t unLi
         sliceO = p->interpolatedO->getScaledDataSliceInUnit(varName, unitsI, unLimDimPos);
     }
 
-    const vector<string> &shape = cdm_->getVariable(varName).getShape();
-    vector<size_t> dimSizes;
-    int shapeIdxX = -1, shapeIdxY = -1;
-    for(size_t i=0; i<shape.size(); ++i) {
-        if (p->nameX == shape[i])
-            shapeIdxX = i;
-        else if (p->nameY == shape[i])
-            shapeIdxY = i;
-
-        const CDMDimension& dim = cdm_->getDimension(shape[i]);
-        if (not dim.isUnlimited())
-            dimSizes.push_back(dim.getLength());
-    }
-    
-    if (dimSizes.empty())
-        return sliceI;
-
     Smoothing_p smoothing = (*p->smoothingFactory)(varName);
     smoothing->setHorizontalSizes(dimSizes[shapeIdxX], dimSizes[shapeIdxY]);
 
-- 
2.43.0


From 945fc0fae8efc3b255cd921b88846ca76111e6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:56:17 +0000
Subject: [PATCH 049/173] fix: overlay keeps top values equal to the fill value
 of base

---
 src/CDMOverlay.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index 74a9fb4..d7b9b8e 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -81,7 +81,7 @@ DataPtr overlayDataSlices(T fillT, T fillB, DataPtr sliceT, DataPtr sliceB)
         T& valueB = valuesB[i];
         if (!(value_is_nan<T>(valueT) || valueT == fillT))
             valueB = valueT;
-        if (value_is_nan<T>(valueB) || valueB == fillB)
+        else if (value_is_nan<T>(valueB) || valueB == fillB)
             valueB = fillT; // need to use FillValue from top
     }
     return createData(sliceB->size(), valuesB);
-- 
2.43.0


From ac0c314a24c2d6a867e278b8817ec5b2b45e0e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:21 +0000
Subject: [PATCH 050/173] fix: quality extraction by highest/lowest status
 looped forever

---
 src/CDMQualityExtractor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 6e01c9b..e9534e1 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -216,7 +216,7 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
     double extreme = MIFI_UNDEFINED_D;
     double* pos = begin;
     // forward to first defined element
-    while ((pos != end) && (!std::isnan(*pos))) {
+    while ((pos != end) && std::isnan(*pos)) {
         ++pos;
     }
     if (pos == end) {
@@ -227,6 +227,7 @@ static double findDefinedExtreme(double* begin, double* end, const double& (*min
             if (!std::isnan(*pos)) {
                 extreme = minmax(extreme, *pos);
             }
+            ++pos;
         }
     }
     return extreme;
-- 
2.43.0


From 71de3409c34f1daabc4456e527238ad347779c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:31:43 +0000
Subject: [PATCH 051/173] fix: quality extraction by CF status flags was never
 applied

---
 src/CDMQualityExtractor.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index e9534e1..58dcf4f 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -60,7 +60,7 @@ static vector<string> findCorrespondingVariables(const CDM& cdm, const string& s
         vector<string> parts = tokenize(standardName, " ");
         if (parts.size() >=2) {
             string foreignStandardName = parts[0];
-            vector<string> correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
+            correspondingVars = cdm.findVariables("standard_name", foreignStandardName);
         } else {
             LOG4FIMEX(logger, Logger::WARN, "standard_name "+ standardName + "not suitabale for a status_flag in statusVariable "+ statusVarName);
         }
@@ -87,9 +87,9 @@ static vector<double> getValidValues(const CDM& cdm, const string& statusVarName
             if (autoConfString == "all") {
                 copy(&validData[0], &validData[validSize], back_inserter(validVals));
             } else if (autoConfString == "highest") {
-                validVals[0] = validData[validSize-1];
+                validVals.push_back(validData[validSize-1]);
             } else if (autoConfString == "lowest") {
-                validVals[0] = validData[0];
+                validVals.push_back(validData[0]);
             } else {
                 LOG4FIMEX(logger, Logger::WARN, "unable to interpret autoConfString: "+autoConfString);
             }
@@ -112,7 +112,7 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
         allowedString.insert("all");
         allowedString.insert("highest");
         allowedString.insert("lowest");
-        if (allowedString.find(autoConfString) == allowedString.end()) {
+        if (allowedString.find(autoConfString) == allowedString.end() && autoConfString.compare(0, 7, "values=") != 0) {
             throw CDMException("auto-configure-string '"+ autoConfString +"' unknown");
         }
 
-- 
2.43.0


From 6ce10b230c6dc05f9d59d91c9430a21eeda0cc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:32:37 +0000
Subject: [PATCH 052/173] fix: quality extraction ignored for data kept in
 memory

---
 src/CDMQualityExtractor.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 58dcf4f..4758c19 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -209,6 +209,11 @@ CDMQualityExtractor::CDMQualityExtractor(CDMReader_p dataReader, std::string aut
             }
         }
     }
+    // data kept in the CDM would be returned without applying the quality-flags
+    for (const auto& vs : statusVariable) {
+        if (cdm_->hasVariable(vs.first))
+            cdm_->getVariable(vs.first).setData(DataPtr());
+    }
 }
 
 static double findDefinedExtreme(double* begin, double* end, const double& (*minmax)(const double& a, const double& b))
-- 
2.43.0


From 4f198c440600f192e8460bbb80f7abfcd9c2d46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:22 +0000
Subject: [PATCH 053/173] fix: (de)accumulation ignored for data kept in memory

---
 src/CDMProcessor.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 850a525..d5f48e3 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -386,6 +386,7 @@ void CDMProcessor::accumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->accumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(DataPtr()); // no longer valid
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring accumulate");
     }
@@ -396,6 +397,7 @@ void CDMProcessor::deAccumulate(const std::string& varName)
     const CDMVariable& variable = cdm_->getVariable(varName);
     if (cdm_->hasUnlimitedDim(variable)) {
         p_->deaccumulateVars.insert(varName);
+        cdm_->getVariable(varName).setData(DataPtr()); // no longer valid
     } else {
         LOG4FIMEX(logger, Logger::WARN, varName <<  " is not unlimited, ignoring deaccumulate");
     }
-- 
2.43.0


From 02ec6cea4e6ef8ab19fca4463a15c64d764d3669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:22 +0000
Subject: [PATCH 054/173] fix: accumulation cache was shared with the caller

---
 src/CDMProcessor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index d5f48e3..b0b4a30 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -614,7 +614,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
                 start = p_->sliceCache.ulimDimPos + 1;
                 if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data;
+                    data = p_->sliceCache.data->clone();
                 } else {
                     DataPtr dataP = p_->sliceCache.data;
                     addDataP2Data(data, dataP, false);
@@ -628,7 +628,7 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             // fill the cache
             p_->sliceCache.varName = varName;
             p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data;
+            p_->sliceCache.data = data->clone();
         }
     }
 
-- 
2.43.0


From 6a2e5f6242f7be99be95ad1e106a3df784b65179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:41 +0000
Subject: [PATCH 055/173] fix: (de)accumulation changed the source's data

---
 src/CDMProcessor.cc | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index b0b4a30..297dd22 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -534,6 +534,15 @@ struct UnScaleOffset
     }
 };
 
+// asDouble() might share the data of the reader, so work on a copy
+static shared_array<double> copyAsDouble(DataPtr data)
+{
+    auto d = data->asDouble();
+    auto c = make_shared_array<double>(data->size());
+    std::copy(&d[0], &d[0] + data->size(), &c[0]);
+    return c;
+}
+
 static void replaceNanWith0(shared_array<double> dp, size_t n)
 {
     mifi_nand2bad(&dp[0], &dp[0]+n, 0);
@@ -543,13 +552,12 @@ static void replaceNanWith0(shared_array<double> dp, size_t n)
 static void addDataP2Data(DataPtr& data, DataPtr& dataP, bool addingFirstTimeStep) {
     if ((data->size() != 0) && (dataP->size() != 0)) {
         assert(data->size() == dataP->size());
-        auto d = data->asDouble();
-        auto dp = dataP->asDouble();
+        auto d = copyAsDouble(data);
+        auto dp = copyAsDouble(dataP);
         if (addingFirstTimeStep) {
             // in step 0, replace undef with 0
             replaceNanWith0(dp, dataP->size());
         }
-        // this might modify the original data in the reader
         std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::plus<double>());
         data = createData(data->size(), d);
     } else if (dataP->size() != 0) {
@@ -639,13 +647,12 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
             DataPtr dataP = p_->dataReader->getDataSlice(varName, unLimDimPos-1);
             if ((data->size() != 0) && (dataP->size() != 0)) {
                 assert(data->size() == dataP->size());
-                auto d = data->asDouble();
-                auto dp = dataP->asDouble();
+                auto d = copyAsDouble(data);
+                auto dp = copyAsDouble(dataP);
                 if (unLimDimPos == 1) {
                     // in step 0, replace undef with 0
                     replaceNanWith0(dp, dataP->size());
                 }
-                // this might modify the original data in the reader
                 std::transform(&d[0], &d[0]+data->size(), &dp[0], &d[0], std::minus<double>());
                 data = createData(data->size(), d);
             }
-- 
2.43.0


From 43b3c2e5e0b717628e5c0f35624cf9fbf39d0bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:46 +0000
Subject: [PATCH 056/173] fix: theta2T converter kept a reference to a
 destroyed name

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 2a36e85..31d2c20 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -214,7 +214,7 @@ public:
 private:
     CDMReader_p reader_;
     CoordinateSystem_cp cs_;
-    const std::string& theta_;
+    const std::string theta_;
 };
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
-- 
2.43.0


From a0be32a5997d7562884783801c44159c9224fa70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:38:46 +0000
Subject: [PATCH 057/173] fix: specific2relative ran past the variable list

---
 src/CDMPressureConversions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 31d2c20..718b9df 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -359,9 +359,9 @@ Converter_pv HumidityConverterFactory::createConverter(Environment& env, const O
         }
         vector<string>::const_iterator itTemp = tempV.begin();
         while (itTemp != tempV.end() && !cs->isCSAndCompleteFor(*itTemp))
-            ++itSpecific;
+            ++itTemp;
         if (itTemp == tempV.end()) {
-            LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and '" << *itTemp << "' found");
+            LOG4FIMEX(logger, Logger::WARN, "no coordinate system for '" << *itSpecific << "' and " << AIR_TEMPERATURE << " found");
             continue;
         }
 
-- 
2.43.0


From 73fb985edd7580f6270c44b27818365b59faf42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:00 +0000
Subject: [PATCH 058/173] fix: relative humidity overflowed for supersaturation
 and missing values

---
 src/CDMPressureConversions.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 718b9df..1637766 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -28,6 +28,7 @@
 
 #include "coordSys/CoordSysUtils.h"
 #include "fimex/CDM.h"
+#include "fimex/CDMconstants.h"
 #include "fimex/CDMException.h"
 #include "fimex/CDMReader.h"
 #include "fimex/CDMVerticalInterpolator.h"
@@ -42,6 +43,7 @@
 
 #include "CDMMergeUtils.h"
 
+#include <cmath>
 #include <memory>
 
 namespace MetNoFimex
@@ -320,14 +322,13 @@ DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
     auto airtValues = checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_)->asFloat();
     auto rhValues = make_shared_array<short>(size);
     for (size_t i = 0; i < size; i++) {
-        // we have pressure in hPa and need Pa for
-        // mifi_specific_to_relative_humidity, we must multiply our
-        // pressure with 100; we get relhum in % but want unit "1", ie
-        // we have to divide by 100; as we know the formula, we drop
-        // multiplying and then dividing
-        const float c100 = 1;
+        // pressure is in hPa, mifi_specific_to_relative_humidity needs Pa and returns %, limited to 0..100
+        const float c100 = 100;
         const float rh = mifi_specific_to_relative_humidity(shValues[i], airtValues[i], pressureValues[i]*c100) / c100;
-        rhValues[i] = (short) (relative_humidity_scale_factor * rh + 0.5); // apply scale_factor
+        if (std::isnan(rh))
+            rhValues[i] = MIFI_FILL_SHORT;
+        else
+            rhValues[i] = (short) (relative_humidity_scale_factor * rh + 0.5); // apply scale_factor
     }
     return createData(size, rhValues);
 }
-- 
2.43.0


From 8a4aa52b17031d2afccd5530d06c3c1e0d6d20f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:00 +0000
Subject: [PATCH 059/173] fix: add4Dpressure used a null converter

---
 src/CDMPressureConversions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 1637766..c8a7f77 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -566,6 +566,7 @@ Converter_pv AddPressure4DConverterFactory::createConverter(Environment& env, co
                 continue;
         } catch (CDMException& ex) {
             LOG4FIMEX(logger, Logger::WARN, "exception when retrieving pressure converter for coordinate system, skipped: " << ex.what());
+            continue;
         }
 
         vector<string> pshape(4);
-- 
2.43.0


From ddd62e7ffa2267b54227d7e75eaede60670feaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:00 +0000
Subject: [PATCH 060/173] fix: omega2vwind lost the coordinates attribute

---
 src/CDMPressureConversions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index c8a7f77..575ece2 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -479,7 +479,7 @@ Converter_pv OmegaVerticalConverterFactory::createConverter(Environment& env, co
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(STANDARD_NAME, UPWARD_AIR_VELOCITY));
     env.outputCDM->addAttribute(verticalWindName, CDMAttribute(UNITS, "m/s"));
     CDMAttribute xatt;
-    if (env.inputCDM.getAttribute(verticalWindName, COORDINATES, xatt)) {
+    if (env.inputCDM.getAttribute(omega, COORDINATES, xatt)) {
         env.outputCDM->addAttribute(verticalWindName, xatt);
     }
     env.outputCDM->removeVariable(omega); // why?
-- 
2.43.0


From e98bbad7b16353d1d38240b88ffd89455d322fd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:41 +0000
Subject: [PATCH 061/173] fix: pressure conversions assumed the pressure
 converter's own shape

---
 src/CDMPressureConversions.cc | 48 +++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 575ece2..ad45a33 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -199,6 +199,40 @@ std::string deriveVariableName(const ConverterFactory::Operation& oper, const st
         return key;
 }
 
+/**
+ * Pressure (hPa) at each position of one slice of data with the given shape, in the order of that shape.
+ */
+DataPtr pressureForShape(VerticalConverter_p converter, CDMReader_p reader, const vector<string>& shape, size_t unLimDimPos)
+{
+    const CDM& cdm = reader->getCDM();
+    SliceBuilder sb = createSliceBuilder(cdm, shape);
+    setUnLimDimPos(cdm, sb, unLimDimPos);
+
+    ArrayDims out_dims = makeArrayDims(sb);
+    const size_t volume = out_dims.volume();
+    auto out_values = make_shared_array<VerticalData_t>(volume);
+    if (volume > 0) {
+        VarFloat pressure(reader, converter, sb);
+        if (!pressure)
+            throw CDMException("no pressure data");
+
+        enum { P, OUT };
+        ArrayGroup group;
+        group.add(pressure.dims).add(out_dims);
+        const size_t shared = group.sharedVolume();
+        Loop loop(group);
+        do {
+            std::copy(&pressure.values[loop[P]], &pressure.values[loop[P]] + shared, &out_values[loop[OUT]]);
+        } while (loop.next());
+    }
+    return createData(volume, out_values);
+}
+
+DataPtr pressureForVariable(CoordinateSystem_cp cs, CDMReader_p reader, const std::string& varName, size_t unLimDimPos)
+{
+    return pressureForShape(verticalConverter(cs, reader, MIFI_VINT_PRESSURE), reader, reader->getCDM().getVariable(varName).getShape(), unLimDimPos);
+}
+
 // ------------------------------------------------------------------------------------------------
 
 class ThetaTemperatureConverter : public Converter {
@@ -221,7 +255,7 @@ private:
 
 DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, theta_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
@@ -314,7 +348,7 @@ private:
 
 DataPtr HumidityConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, specific_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
@@ -423,7 +457,7 @@ private:
 
 DataPtr OmegaVerticalConverter::getDataSlice(size_t unLimDimPos)
 {
-    DataPtr pressureData = verticalData4D(cs_, reader_, unLimDimPos, MIFI_VINT_PRESSURE);
+    DataPtr pressureData = pressureForVariable(cs_, reader_, omega_, unLimDimPos);
     auto pressureValues = dataAs<VerticalData_t>(pressureData); // unit: hPa
     const size_t size = pressureData->size();
     VerticalDataArray airtempValues = dataAs<VerticalData_t>(checkData(reader_->getScaledDataSliceInUnit(temperature_, "K", unLimDimPos), size, temperature_));
@@ -509,13 +543,7 @@ private:
 
 DataPtr AddPressure4DConverter::getDataSlice(size_t unLimDimPos)
 {
-    const CDM& rcdm = reader_->getCDM();
-    DataPtr vcdata = verticalData4D(vc_, rcdm, unLimDimPos);
-    if (vc_->getShape() != shape4d_) {
-        LOG4FIMEX(logger, Logger::WARN, "4d pressure shape change not implemented, results are probably wrong");
-        // FIXME vcdata = reshape(rcdm, vc_->getShape(), shape4d_, vcdata);
-    }
-    return vcdata;
+    return pressureForShape(vc_, reader_, shape4d_, unLimDimPos);
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From e70dcac199b1f29e658f8dead3316ec6d35ea40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:08 +0000
Subject: [PATCH 062/173] fix: theta2T ignored packing and missing values

---
 src/CDMPressureConversions.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index ad45a33..772747b 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -259,8 +259,7 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     auto pressureValues = dataAs<VerticalData_t>(pressureData);
     const size_t size = pressureData->size();
 
-    const float add_offset = reader_->getCDM().getAddOffset(theta_);
-    auto thetaValues = checkData(reader_->getDataSlice(theta_, unLimDimPos), size, theta_)->asFloat();
+    auto thetaValues = checkData(reader_->getScaledDataSlice(theta_, unLimDimPos), size, theta_)->asDouble();
 
     const float cp = 1004.; // J/kgK
     const float R = MIFI_GAS_CONSTANT / MIFI_MOLAR_MASS_DRY_AIR; // J/K
@@ -269,9 +268,13 @@ DataPtr ThetaTemperatureConverter::getDataSlice(size_t unLimDimPos)
     const float Rcp = R/cp;
     for (size_t i = 0; i < size; i++) {
         // theta = T * (ps / p)^(R/cp) => T = theta * (p/ps)^(R/cp)
-        thetaValues[i] = ((thetaValues[i]+add_offset)*pow(pressureValues[i]*psX1, Rcp))-add_offset;
+        thetaValues[i] *= pow(pressureValues[i]*psX1, Rcp);
     }
-    return createData(size, thetaValues);
+    // pack like theta; the attributes of theta are inherited
+    const CDM& cdm = reader_->getCDM();
+    return createData(size, thetaValues)
+        ->convertDataType(MIFI_UNDEFINED_D, 1., 0., cdm.getVariable(theta_).getDataType(), cdm.getFillValue(theta_), cdm.getScaleFactor(theta_),
+                          cdm.getAddOffset(theta_));
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From d28ddcc46cde0b9da5689a8cf6510f36f728f1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:11 +0000
Subject: [PATCH 063/173] fix: geopotential height read out of bounds on
 pressure levels

---
 .../VerticalTransformationUtils.h             |  2 ++
 src/CDMPressureConversions.cc                 | 33 ++-----------------
 src/CDMProcessor.cc                           | 10 ++----
 .../VerticalTransformationUtils.cc            | 26 +++++++++++++++
 4 files changed, 33 insertions(+), 38 deletions(-)

diff --git a/include/fimex/coordSys/verticalTransform/VerticalTransformationUtils.h b/include/fimex/coordSys/verticalTransform/VerticalTransformationUtils.h
index aa63184..9458590 100644
--- a/include/fimex/coordSys/verticalTransform/VerticalTransformationUtils.h
+++ b/include/fimex/coordSys/verticalTransform/VerticalTransformationUtils.h
@@ -118,6 +118,8 @@ ArrayDims makeArrayDims(const SliceBuilder& sb);
 
 VerticalConverter_p verticalConverter(CoordinateSystem_cp cs, CDMReader_p reader, int verticalType);
 DataPtr verticalData4D(VerticalConverter_p converter, const CDM& cdm, size_t unLimDimPos);
+//! converter's values (as float) at each position of one slice of data with the given shape, in the order of that shape
+DataPtr verticalData4D(VerticalConverter_p converter, CDMReader_p reader, const std::vector<std::string>& shape, size_t unLimDimPos);
 DataPtr verticalData4D(CoordinateSystem_cp cs, CDMReader_p reader, size_t unLimDimPos, int verticalType);
 
 DataPtr checkSize(DataPtr data, size_t expected, const std::string& what);
diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 772747b..61fa820 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -199,38 +199,9 @@ std::string deriveVariableName(const ConverterFactory::Operation& oper, const st
         return key;
 }
 
-/**
- * Pressure (hPa) at each position of one slice of data with the given shape, in the order of that shape.
- */
-DataPtr pressureForShape(VerticalConverter_p converter, CDMReader_p reader, const vector<string>& shape, size_t unLimDimPos)
-{
-    const CDM& cdm = reader->getCDM();
-    SliceBuilder sb = createSliceBuilder(cdm, shape);
-    setUnLimDimPos(cdm, sb, unLimDimPos);
-
-    ArrayDims out_dims = makeArrayDims(sb);
-    const size_t volume = out_dims.volume();
-    auto out_values = make_shared_array<VerticalData_t>(volume);
-    if (volume > 0) {
-        VarFloat pressure(reader, converter, sb);
-        if (!pressure)
-            throw CDMException("no pressure data");
-
-        enum { P, OUT };
-        ArrayGroup group;
-        group.add(pressure.dims).add(out_dims);
-        const size_t shared = group.sharedVolume();
-        Loop loop(group);
-        do {
-            std::copy(&pressure.values[loop[P]], &pressure.values[loop[P]] + shared, &out_values[loop[OUT]]);
-        } while (loop.next());
-    }
-    return createData(volume, out_values);
-}
-
 DataPtr pressureForVariable(CoordinateSystem_cp cs, CDMReader_p reader, const std::string& varName, size_t unLimDimPos)
 {
-    return pressureForShape(verticalConverter(cs, reader, MIFI_VINT_PRESSURE), reader, reader->getCDM().getVariable(varName).getShape(), unLimDimPos);
+    return verticalData4D(verticalConverter(cs, reader, MIFI_VINT_PRESSURE), reader, reader->getCDM().getVariable(varName).getShape(), unLimDimPos);
 }
 
 // ------------------------------------------------------------------------------------------------
@@ -546,7 +517,7 @@ private:
 
 DataPtr AddPressure4DConverter::getDataSlice(size_t unLimDimPos)
 {
-    return pressureForShape(vc_, reader_, shape4d_, unLimDimPos);
+    return verticalData4D(vc_, reader_, shape4d_, unLimDimPos);
 }
 
 // ------------------------------------------------------------------------------------------------
diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 297dd22..e679112 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -37,6 +37,7 @@
 #include "fimex/Type2String.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
+#include "fimex/coordSys/verticalTransform/VerticalTransformationUtils.h"
 #include "fimex/coordSys/verticalTransform/HybridSigmaPressure1.h"
 #include "fimex/coordSys/verticalTransform/VerticalConverter.h"
 #include "fimex/interpolation.h"
@@ -603,13 +604,8 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         }
         data = createData(nx*ny*nz, w);
     } else if (varName == p_->geopotentialHeightVar && p_->altitudeConverter != nullptr) {
-        // create a slice-builder from unLimDimPos
-        SliceBuilder sb(*cdm_, p_->geopotentialHeightTemperatureVar);
-        if (const CDMDimension* unlimDim = cdm_->getUnlimitedDim()) {
-            if (cdm_->getVariable(p_->geopotentialHeightTemperatureVar).checkDimension(unlimDim->getName()))
-                sb.setStartAndSize(unlimDim->getName(), unLimDimPos, 1);
-        }
-        data = p_->altitudeConverter->getDataSlice(sb);
+        const auto& shape = cdm_->getVariable(p_->geopotentialHeightTemperatureVar).getShape();
+        data = verticalData4D(p_->altitudeConverter, p_->dataReader, shape, unLimDimPos);
     } else { // other variables
         data = p_->dataReader->getDataSlice(varName, unLimDimPos);
     }
diff --git a/src/coordSys/verticalTransform/VerticalTransformationUtils.cc b/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
index 085374c..99e7b37 100644
--- a/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
+++ b/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
@@ -430,6 +430,32 @@ DataPtr verticalData4D(CoordinateSystem_cp cs, CDMReader_p reader, size_t unLimD
     return verticalData4D(verticalConverter(cs, reader, verticalType), reader->getCDM(), unLimDimPos);
 }
 
+DataPtr verticalData4D(VerticalConverter_p converter, CDMReader_p reader, const std::vector<std::string>& shape, size_t unLimDimPos)
+{
+    const CDM& cdm = reader->getCDM();
+    SliceBuilder sb = createSliceBuilder(cdm, shape);
+    setUnLimDimPos(cdm, sb, unLimDimPos);
+
+    ArrayDims out_dims = makeArrayDims(sb);
+    const size_t volume = out_dims.volume();
+    auto out_values = make_shared_array<float>(volume);
+    if (volume > 0) {
+        VarFloat vertical(reader, converter, sb);
+        if (!vertical)
+            throw CDMException("no data from vertical converter");
+
+        enum { IN, OUT };
+        ArrayGroup group;
+        group.add(vertical.dims).add(out_dims);
+        const size_t shared = group.sharedVolume();
+        Loop loop(group);
+        do {
+            std::copy(&vertical.values[loop[IN]], &vertical.values[loop[IN]] + shared, &out_values[loop[OUT]]);
+        } while (loop.next());
+    }
+    return createData(volume, out_values);
+}
+
 DataPtr checkSize(DataPtr data, size_t expected, const std::string& what)
 {
     if (data && data->size() != expected)
-- 
2.43.0


From b9869645254a943c3b38c7e098309f05d733607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:45 +0000
Subject: [PATCH 064/173] fix: geopotential divided by 1/g in vertical velocity

---
 src/CDMProcessor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index e679112..ee1e177 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -305,7 +305,7 @@ void CDMProcessor::addVerticalVelocity()
                         if (stdName == "surface_altitude" || stdName == "altitude" || stdName == "geopotential_height") {
                             gpUnit = "m";
                         } else {
-                            gpUnit = "1/9.81*m^2/s^2"; // division of gepotential by gravity
+                            gpUnit = "9.81*m^2/s^2"; // division of gepotential by gravity
                         }
                         DataPtr gpd;
                         try {
-- 
2.43.0


From 2c26fda9a48e3043be22307b586e1556b428a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:45:29 +0000
Subject: [PATCH 065/173] fix: vertical velocity on grids without interior read
 uninitialised memory

---
 src/CDMProcessor.cc | 4 ++++
 src/interpolation.c | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index ee1e177..319058f 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -247,6 +247,10 @@ void CDMProcessor::addVerticalVelocity()
                 vvc.nx = cdm_->getDimension(cs->getGeoXAxis()->getName()).getLength();
                 vvc.ny = cdm_->getDimension(cs->getGeoYAxis()->getName()).getLength();
                 vvc.nz = cdm_->getDimension(cs->getGeoZAxis()->getName()).getLength();
+                if (vvc.nx < 3 || vvc.ny < 3 || vvc.nz < 1) {
+                    LOG4FIMEX(logger, Logger::WARN, "grid of '" << *xw << "' too small to calculate upward_air_velocity_ml");
+                    continue;
+                }
                 auto xValues = p_->dataReader->getData(cs->getGeoXAxis()->getName())->asDouble();
                 vvc.dx = fabs(xValues[1] - xValues[0]);
                 auto yValues = p_->dataReader->getData(cs->getGeoYAxis()->getName())->asDouble();
diff --git a/src/interpolation.c b/src/interpolation.c
index 8588733..7b2e53a 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -886,6 +886,9 @@ int mifi_griddistance(size_t nx, size_t ny, const double* lonVals, const double*
 size_t mifi_compute_vertical_velocity(size_t nx, size_t ny, size_t nz, double dx, double dy, const float* gridDistX, const float* gridDistY, const double* ap, const double* b,
                           const float* zs, const float* ps, const float* u, const float* v, const float* t, float* w)
 {
+    if (nx < 3 || ny < 3 || nz < 1)
+        return MIFI_ERROR; // horizontal derivatives not defined
+
     const double R = MIFI_GAS_CONSTANT / MIFI_MOLAR_MASS_DRY_AIR;  // specific gas constant dry air
     const double g = MIFI_EARTH_GRAVITY; // gravity
 
-- 
2.43.0


From 3e4ca50426086a3898d17b96fa7054fc9ac33639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:35 +0000
Subject: [PATCH 066/173] fix: ellipsoid given by +a and +rf in proj4 strings
 was treated as a sphere

---
 src/coordSys/ProjectionImpl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 0b48e50..d58c105 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -245,6 +245,8 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
         } else if (std::regex_search(proj4Str, what, std::regex("\\+b=(\\S+)"))) {
             attrList.push_back(CDMAttribute("semi_major_axis", major_axis));
             attrList.push_back(CDMAttribute("semi_minor_axis", string2type<double>(what[1].str())));
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+rf=(\\S+)"))) {
+            attrList.push_back(CDMAttribute("inverse_flattening", string2type<double>(what[1].str())));
         } else {
             attrList.push_back(CDMAttribute("earth_radius", major_axis));
         }
-- 
2.43.0


From 54ce7fd43f6ffcbf933f7fc295fdcda6d58476c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:35 +0000
Subject: [PATCH 067/173] fix: slices of interpolated variables failed when the
 horizontal dimensions are renamed

---
 include/fimex/CachedInterpolation.h | 8 +++++++-
 src/CDMInterpolator.cc              | 3 ++-
 src/CachedInterpolation.cc          | 6 +++---
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/fimex/CachedInterpolation.h b/include/fimex/CachedInterpolation.h
index 471c889..7289e08 100644
--- a/include/fimex/CachedInterpolation.h
+++ b/include/fimex/CachedInterpolation.h
@@ -92,7 +92,13 @@ public:
      */
     virtual DataPtr getInputDataSlice(CDMReader_p reader, const std::string& varName, const SliceBuilder& sb) const;
 
-    virtual DataPtr getOutputDataSlice(DataPtr data, const SliceBuilder& sb) const;
+    /**
+     * Slice the interpolated data in the horizontal dimensions, the other dimensions have been sliced when reading the input.
+     * @param data the interpolated data
+     * @param sb slicebuilder with the dimensions of the output
+     * @param inDimNames names of the dimensions of the input variable, in the same order as in the output
+     */
+    virtual DataPtr getOutputDataSlice(DataPtr data, const SliceBuilder& sb, const std::vector<std::string>& inDimNames) const;
 
     /**
      * allow fetching of a reduced interpolation domain, i.e. to work with a much smaller amount of input data
diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index aa4a894..789df65 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -260,7 +260,8 @@ DataPtr CDMInterpolator::getDataSlice(const std::string& varName, const SliceBui
 
     processArray_(p_->postprocesses, iArray.get(), newSize, ci->getOutX(), ci->getOutY());
 
-    return ci->getOutputDataSlice(interpolationArray2Data(variable.getDataType(), iArray, newSize, badValue), sb);
+    return ci->getOutputDataSlice(interpolationArray2Data(variable.getDataType(), iArray, newSize, badValue), sb,
+                                  p_->dataReader->getCDM().getVariable(varName).getShape());
 }
 
 DataPtr CDMInterpolator::getDataSlice(const std::string& varName, size_t unLimDimPos)
diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 5205c9c..a440910 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -110,15 +110,15 @@ DataPtr CachedInterpolationInterface::getInputDataSlice(CDMReader_p reader, cons
     return reader->getDataSlice(varName, rsb);
 }
 
-DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const SliceBuilder& sb) const
+DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const SliceBuilder& sb, const std::vector<std::string>& inDimNames) const
 {
     // slice the x and y direction of the data
     std::vector<size_t> startPos = sb.getDimensionStartPositions();
     std::vector<size_t> maxDims = sb.getMaxDimensionSizes();
     const std::vector<size_t>& dimSizes = sb.getDimensionSizes();
-    const std::vector<std::string> dimNames = sb.getDimensionNames();
     for (size_t i = 0; i < dimSizes.size(); i++) {
-        const std::string& dn = dimNames[i];
+        // the horizontal dimensions might have got a new name in the output
+        const std::string& dn = inDimNames.at(i);
         const bool is_xy = (reducedDomain() ? (dn == reducedDomain()->xDim || dn == reducedDomain()->yDim) : (dn == _xDimName || dn == _yDimName));
         if (!is_xy) {
             // already sliced in getInputDataSlice
-- 
2.43.0


From 5677631a4499131af3ddfe32d5d041a7ce609a57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:15 +0000
Subject: [PATCH 068/173] fix: generated lon/lat coordinates ignored unit and
 packing of the projection axes

---
 src/CDM.cc | 35 ++++++++++++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/CDM.cc b/src/CDM.cc
index c41aa35..536a403 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -667,6 +667,35 @@ void CDM::generateProjectionCoordinates(const std::string& projectionVariable, c
     generateProjectionCoordinates(Projection::create(getAttributes(projectionVariable)), xDim, yDim, lonDim, latDim);
 }
 
+namespace {
+// unpacked values of a projection axis in the unit used by proj, i.e. degree or m
+shared_array<double> getProjectionAxisValues(const CDM& cdm, const CDMVariable& axis, bool isDegree)
+{
+    const size_t size = axis.getData()->size();
+    auto values = axis.getData()->asDouble();
+    double slope = 1, offset = 0;
+    CDMAttribute attr;
+    if (cdm.getAttribute(axis.getName(), "scale_factor", attr))
+        slope = attr.getData()->getDouble(0);
+    if (cdm.getAttribute(axis.getName(), "add_offset", attr))
+        offset = attr.getData()->getDouble(0);
+    const std::string unit = cdm.getUnits(axis.getName()), projUnit = isDegree ? "degree" : "m";
+    Units units;
+    if (!unit.empty() && units.areConvertible(unit, projUnit)) {
+        double unitSlope, unitOffset;
+        units.convert(unit, projUnit, unitSlope, unitOffset);
+        slope *= unitSlope;
+        offset = offset * unitSlope + unitOffset;
+    }
+    if (slope == 1 && offset == 0)
+        return values;
+    auto scaled = make_shared_array<double>(size);
+    for (size_t i = 0; i < size; ++i)
+        scaled[i] = values[i] * slope + offset;
+    return scaled;
+}
+} // namespace
+
 void CDM::generateProjectionCoordinates(Projection_cp projection, const std::string& xDim, const std::string& yDim, const std::string& lonDim,
                                         const std::string& latDim)
 {
@@ -674,8 +703,9 @@ void CDM::generateProjectionCoordinates(Projection_cp projection, const std::str
     const CDMVariable& yVar = getVariable(yDim);
     assert(xVar.hasData());
     assert(yVar.hasData());
-    auto xData = xVar.getData()->asDouble();
-    auto yData = yVar.getData()->asDouble();
+    assert(projection.get() != 0);
+    auto xData = getProjectionAxisValues(*this, xVar, projection->isDegree());
+    auto yData = getProjectionAxisValues(*this, yVar, projection->isDegree());
     size_t xDimLength = getDimension(xDim).getLength();
     size_t yDimLength = getDimension(yDim).getLength();
     assert(xDimLength == xVar.getData()->size());
@@ -684,7 +714,6 @@ void CDM::generateProjectionCoordinates(Projection_cp projection, const std::str
     auto longVal = make_shared_array<double>(fieldSize);
     auto latVal = make_shared_array<double>(fieldSize);
     std::string lonLatProj(MIFI_WGS84_LATLON_PROJ4);
-    assert(projection.get() != 0);
     std::string projStr = projection->getProj4String();
     LOG4FIMEX(logger, Logger::DEBUG, "generating "<<latDim<<"("<<xDim<<","<<yDim<<"),"<<lonDim<<"("<<xDim<<","<<yDim<<") using proj4: "+projStr);
     reproject::reproject_axes(projStr, lonLatProj, xData.get(), yData.get(), xDimLength, yDimLength, longVal.get(), latVal.get());
-- 
2.43.0


From 961a85e98c52e396d0629033b606e0bd96b03b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:27 +0000
Subject: [PATCH 069/173] fix: longitudes were not matched cyclically to axes
 around +-180 and at the seam

---
 src/interpolation.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/interpolation.c b/src/interpolation.c
index 7b2e53a..88d09ec 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -161,18 +161,15 @@ int mifi_points2position(double* points, const int n, const double* axis, const
         comparator = descendingDoubleComparator;
 
     if (axis_type == MIFI_LONGITUDE) {
-        // decide if longitude axis is -180 to 180
-        if (axis[0] < 0 || axis[num-1] < 0) {
-            // change points > 180
-            for (int i = 0; i < n; i++) {
-                if (points[i] > HALF_CIRCLE_ANGLE)
-                    points[i] -= 2 * HALF_CIRCLE_ANGLE;
-            }
-        } else {
-            // change negative points (0-360)
-            for (int i = 0; i < n; i++) {
-                if (points[i] < 0)
-                    points[i] += 2 * HALF_CIRCLE_ANGLE;
+        // shift points by full circles to be on the axis, or as close to it as possible
+        const double circle = 2 * HALF_CIRCLE_ANGLE;
+        const double first = fmin(axis[0], axis[num-1]);
+        const double last = fmax(axis[0], axis[num-1]);
+        for (int i = 0; i < n; i++) {
+            if ((points[i] < first) || (points[i] > last)) {
+                points[i] -= circle * floor((points[i] - first) / circle);
+                if (points[i] - last > first - (points[i] - circle))
+                    points[i] -= circle;
             }
         }
         if (num > 1) {
@@ -213,12 +210,15 @@ int mifi_points2position(double* points, const int n, const double* axis, const
             double slope = axis[nPos] - axis[nPos-1];
             double offset = axis[nPos] - (slope*nPos);
             double arrayPos = (points[i] - offset) / slope;
-            if (circularLongitude && arrayPos <= -0.5) {
+            if (circularLongitude && arrayPos < -0.5) {
                 arrayPos += num;
             }
-            if (circularLongitude && arrayPos > (num-0.5)) {
+            if (circularLongitude && arrayPos >= (num-0.5)) {
                 arrayPos -= num;
             }
+            if (circularLongitude && arrayPos == -0.5) {
+                arrayPos = 0; // in the middle between last and first point, -0.5 would be rounded to outside
+            }
             if (MIFI_DEBUG > 0) {
                 if (arrayPos <= -0.5 || arrayPos >= (num-0.5)) {
                     fprintf(stderr, "outside range: %f => %f (isCircular=%d)\n", points[i]*RAD_TO_DEG, arrayPos, circularLongitude);
-- 
2.43.0


From b5eaa2c8f96d15bf09f2327d3daafac21d954730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:57 +0000
Subject: [PATCH 070/173] fix: interpolation to points failed for lat/lon grids
 with dimensions named x and y

---
 src/CDMInterpolator.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 789df65..7e9f31d 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -1521,8 +1521,11 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
     const std::string yAxisAtt("y");
 
     if (!cdm.hasVariable(newXAxis)) {
-        // create dimension-variable
-        cdm.addDimension(CDMDimension(newXAxis, out_x_axis.size()));
+        // create dimension-variable, the dimension remains if the axis was removed as longitude or latitude
+        if (!cdm.hasDimension(newXAxis))
+            cdm.addDimension(CDMDimension(newXAxis, out_x_axis.size()));
+        else
+            cdm.getDimension(newXAxis).setLength(out_x_axis.size());
         cdm.addVariable(CDMVariable(newXAxis, xAxisType, {newXAxis}));
     } else {
         cdm.getDimension(newXAxis).setLength(out_x_axis.size());
@@ -1535,8 +1538,11 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
     cdm.getVariable(newXAxis).setData(createDataFromContainer(xAxisType, out_x_axis));
 
     if (!cdm.hasVariable(newYAxis)) {
-        // create dimension-variable
-        cdm.addDimension(CDMDimension(newYAxis, out_y_axis.size()));
+        // create dimension-variable, the dimension remains if the axis was removed as longitude or latitude
+        if (!cdm.hasDimension(newYAxis))
+            cdm.addDimension(CDMDimension(newYAxis, out_y_axis.size()));
+        else
+            cdm.getDimension(newYAxis).setLength(out_y_axis.size());
         cdm.addVariable(CDMVariable(newYAxis, yAxisType, {newYAxis}));
     } else {
         cdm.getDimension(newYAxis).setLength(out_y_axis.size());
-- 
2.43.0


From ae4f1ec318d38bb3a3f42a30b371db15ace5adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:57 +0000
Subject: [PATCH 071/173] fix: differing number of longitudes and latitudes was
 silently ignored

---
 src/CDMInterpolator.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 7e9f31d..6e2bc33 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -459,9 +459,8 @@ void CDMInterpolator::changeProjection(int method, const vector<double>& lonVals
 {
     LOG4FIMEX(logger, Logger::DEBUG, "changing projection to latitude/longitude values");
     if (lonVals.size() != latVals.size()) {
-        LOG4FIMEX(logger, Logger::ERROR,
-                "changeProjection, number of longitude and latitude values differs: " << lonVals.size() << " != " << latVals.size());
-        return;
+        throw CDMException("changeProjection, number of longitude and latitude values differs: " + type2string(lonVals.size()) +
+                           " != " + type2string(latVals.size()));
     }
 
     switch (method) {
-- 
2.43.0


From 6782988ef80d12bacd11955e8632a72b5e5f6b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:47 +0000
Subject: [PATCH 072/173] fix: template with one-dimensional latitude and
 longitude axes

---
 src/CDMInterpolator.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 6e2bc33..64bac8f 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -672,6 +672,18 @@ void CDMInterpolator::changeProjection(int method, CDMReader_p tmplReader, const
            vector<double> tmplXAxisVec(tmplXArray.get(), tmplXArray.get()+tmplXData->size());
            vector<double> tmplYAxisVec(tmplYArray.get(), tmplYArray.get()+tmplYData->size());
 
+           if (tmplCdmRef.getVariable(tmplLatName).getShape().size() == 1 && tmplCdmRef.getVariable(tmplLonName).getShape().size() == 1) {
+               // template with 1d latitude and longitude axes
+               auto tmplLatMatrix = tmplLatVals->asDouble();
+               auto tmplLonMatrix = tmplLonVals->asDouble();
+               const size_t tmplSize = tmplLonVals->size() * tmplLatVals->size();
+               lonLatVals2Matrix(tmplLonMatrix, tmplLatMatrix, tmplLonVals->size(), tmplLatVals->size());
+               tmplLatVals = createData(tmplSize, tmplLatMatrix);
+               tmplLonVals = createData(tmplSize, tmplLonMatrix);
+           }
+           if (tmplLatVals->size() != tmplXAxisVec.size() * tmplYAxisVec.size() || tmplLonVals->size() != tmplLatVals->size())
+               throw CDMException("latitude/longitude of template do not match size of the reference variable '" + tmplRefVarName + "'");
+
            changeProjectionByProjectionParametersToLatLonTemplate(method, LAT_LON_PROJSTR, tmplXAxisVec, tmplYAxisVec, tmplCdmRef.getUnits(tmplXName),
                                                                   tmplCdmRef.getUnits(tmplYName), tmplCdmRef.getVariable(tmplXName).getDataType(),
                                                                   tmplCdmRef.getVariable(tmplYName).getDataType(), tmplLatVals, tmplLonVals);
-- 
2.43.0


From 5f0eb417509300888e354792c9f6e6e8cb12eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:47 +0000
Subject: [PATCH 073/173] fix: automatic bounding box for rotated grids was
 multiplied by 180/pi

---
 src/CDMInterpolator.cc | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 64bac8f..92f2b0f 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -397,12 +397,6 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
             double yMin = *(min_element(&latVals[0], &latVals[latSize]));
             double xMax = *(max_element(&lonVals[0], &lonVals[latSize]));
             double yMax = *(max_element(&latVals[0], &latVals[latSize]));
-            if (getProjectionName(proj_input) == "ob_tran") {
-                xMin = rad_to_deg(xMin);
-                yMin = rad_to_deg(yMin);
-                xMax = rad_to_deg(xMax);
-                yMax = rad_to_deg(yMax);
-            }
             xAxisSpec.setStartEnd(xMin, xMax);
             yAxisSpec.setStartEnd(yMin, yMax);
             LOG4FIMEX(logger, Logger::INFO, "changeProjection, boundingbox: (" <<  xMin << "," << yMin << "), (" << xMax << "," << yMax << ")");
-- 
2.43.0


From 06ef47fedfe1ff343aff5ee65f170590600d99a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:27 +0000
Subject: [PATCH 074/173] fix: use the full lon/lat grid for the automatic axes
 of a square lon/lat grid

---
 src/CDMInterpolator.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 92f2b0f..f2f8d06 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -382,7 +382,7 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
         auto latVals = latData->asDouble();
         size_t latSize = latData->size();
         size_t lonSize = lonData->size();
-        if (latSize != lonSize) {
+        if (latAxis->getShape() != lonAxis->getShape()) {
             // latData/lonData are not 2d-coordinate-variable, but 1d axes
             // making latVals/lonVals 2d with size latSize*lonSize
             lonLatVals2Matrix(lonVals, latVals, lonSize, latSize);
-- 
2.43.0


From 95be982274d5bb72be4b1489583da6c671b5b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:13 +0000
Subject: [PATCH 075/173] fix: forward interpolation reads every layer of the
 input

---
 src/CachedForwardInterpolation.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index 60c392d..bb291c9 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -213,7 +213,7 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
             for (size_t ii : pointsInIn[i]) {
-                const float val = inData[ii];
+                const float val = inData[z * inLayerSize + ii];
                 if (undefAggr || !mifi_isnan(val))
                     agg->push(val);
             }
-- 
2.43.0


From de164ba1e6b3c1e260d3ec1e06a9905d03126d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:10:44 +0000
Subject: [PATCH 076/173] fix: forward_undef interpolation propagates undefined
 values for all statistics

---
 src/CachedForwardInterpolation.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index bb291c9..f81f08b 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -212,12 +212,16 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     for (size_t z = 0; z < inZ; ++z) {
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
+            bool undefined = false;
             for (size_t ii : pointsInIn[i]) {
                 const float val = inData[z * inLayerSize + ii];
-                if (undefAggr || !mifi_isnan(val))
+                if (!mifi_isnan(val))
                     agg->push(val);
+                else if (undefAggr)
+                    undefined = true; // value+undef=undef
             }
-            *outDataIt++ = agg->get_and_reset();
+            const float aggregated = agg->get_and_reset();
+            *outDataIt++ = undefined ? MIFI_UNDEFINED_F : aggregated;
         }
     }
     return outData;
-- 
2.43.0


From 0d36b11c8b2997134c2aa681b40a08c97dff9785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:28 +0000
Subject: [PATCH 077/173] fix: do not read outside the grid when choosing the
 step for vector reprojection

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 1ef4e2d..baaf4c0 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -372,8 +372,8 @@ Matrix_cp get_vector_reproject_matrix_proj(crs2crs& c2c, const double* in_x_fiel
             if (oy > 1) {
                 deltaXY = defaultDelta * (in_x_field[(1) * ox + (1)] - in_x_field[0]);
                 // and test another place in case of singularities
-                size_t ox_2 = ox / 2;
-                size_t oy_2 = oy / 2;
+                size_t ox_2 = (ox - 1) / 2;
+                size_t oy_2 = (oy - 1) / 2;
                 double deltaX2 = defaultDelta * (in_x_field[(oy_2 + 1) * ox + (ox_2 + 1)] - in_x_field[(oy_2)*ox + ox_2]);
                 deltaXY += deltaX2;
                 deltaXY /= 2;
-- 
2.43.0


From 080c8b16a230ce044a24e886712a2fdd3e3753e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:21 +0000
Subject: [PATCH 078/173] fix: interpolate variables with data in memory

---
 src/CDMInterpolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index f2f8d06..dd4f438 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -885,6 +885,7 @@ void changeCDM(CDM& cdm, const string& proj_input, const map<string, CoordinateS
     // find all reprojectable variables and change variable attributes grid_mapping and coordinates
     {
         for (map<string, string>::const_iterator varIt = projectionVariables.begin(); varIt != projectionVariables.end(); ++varIt) {
+            cdm.getVariable(varIt->first).setData(DataPtr()); // data on the original grid no longer valid
             if (newProj != "latlong") {
                 cdm.addOrReplaceAttribute(varIt->first, CDMAttribute("coordinates", lon + " " + lat));
                 cdm.addOrReplaceAttribute(varIt->first, CDMAttribute("grid_mapping", newProjection));
@@ -1573,6 +1574,7 @@ void changeCDMToLatLonTemplate(CDM& cdm, const string& tmpl_proj_input, const ma
     // find all reprojectable variables and change variable attributes grid_mapping and coordinates
     for (const auto& pvi : projectionVariables) {
         const std::string& pv = pvi.first;
+        cdm.getVariable(pv).setData(DataPtr()); // data on the original grid no longer valid
         cdm.addOrReplaceAttribute(pv, CDMAttribute("coordinates", "longitude latitude"));
         cdm.removeAttribute(pv, "grid_mapping");
     }
-- 
2.43.0


From f26dc4b7094dab1a9051d8124e2f9003a3db4dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:21:24 +0000
Subject: [PATCH 079/173] fix: changing the projection to points resets earlier
 changes and refuses empty lists

---
 src/CDMInterpolator.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index dd4f438..b8dfa1e 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -426,6 +426,8 @@ void CDMInterpolator::changeProjection(int method, const string& proj_input, con
     }
     *cdm_ = p_->dataReader->getCDM(); // reset previous changes
     p_->projectionVariables.clear(); // reset variables
+    p_->cachedInterpolation.clear();
+    p_->cachedVectorReprojection.clear();
     switch (method) {
     case MIFI_INTERPOL_NEAREST_NEIGHBOR:
     case MIFI_INTERPOL_BILINEAR:
@@ -456,6 +458,12 @@ void CDMInterpolator::changeProjection(int method, const vector<double>& lonVals
         throw CDMException("changeProjection, number of longitude and latitude values differs: " + type2string(lonVals.size()) +
                            " != " + type2string(latVals.size()));
     }
+    if (lonVals.empty())
+        throw CDMException("refusing to interpolate to empty list of points");
+    *cdm_ = p_->dataReader->getCDM(); // reset previous changes
+    p_->projectionVariables.clear();  // reset variables
+    p_->cachedInterpolation.clear();
+    p_->cachedVectorReprojection.clear();
 
     switch (method) {
     case MIFI_INTERPOL_NEAREST_NEIGHBOR:
@@ -565,6 +573,9 @@ void CDMInterpolator::changeProjectionToCrossSections(int method, const std::vec
             }
         }
     }
+    // do the real work of reprojection
+    changeProjection(method, lonVals, latVals);
+
     // add the additional information to separate the different cross-sections
     size_t nvcross = csNames.size();
     cdm_->addDimension(CDMDimension("two", 2));
@@ -601,9 +612,6 @@ void CDMInterpolator::changeProjectionToCrossSections(int method, const std::vec
     vcrossBnds.setData(createData(2*nvcross, vcrossBndsAry));
     cdm_->addVariable(vcrossBnds);
     cdm_->addAttribute(vcrossBnds.getName(), CDMAttribute("description", "start- and end-position (included) in lat- and lon-dimensions for each vert. cross-section"));
-
-    // do the real work of reprojection
-    changeProjection(method, lonVals, latVals);
 }
 
 
-- 
2.43.0


From a5332c1d8014fcb1e4412e0996ba58013ec987bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:02 +0000
Subject: [PATCH 080/173] fix: average of rotation angles next to +-180 degrees

---
 src/reproject.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index baaf4c0..1781928 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -348,8 +348,8 @@ Matrix_cp get_vector_reproject_matrix_points_proj_delta(crs2crs& c2c, const doub
         for (size_t i = 0, idx = 0; i < count; ++i, idx += Matrix::stride) {
             const double phi_x = mtx[idx + 0];
             const double phi_y = -atan2(out_x_delta_proj_axis[i] - out_x_field[i], out_y_delta_proj_axis[i] - out_y_field[i]) + add_y;
-            // average, for non-conformal cases
-            const double phi0 = (phi_y + phi_x) / 2;
+            // average, for non-conformal cases; the difference might be +-360 degrees
+            const double phi0 = phi_x + remainder(phi_y - phi_x, 2 * MIFI_PI) / 2;
             store_rotation(mtx, idx, phi0);
         }
     }
-- 
2.43.0


From c95726f0a7c8e7fa7654659c2b95b72b7fb101f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:02 +0000
Subject: [PATCH 081/173] fix: normalize rotated directions to 0..360 for all
 rotation angles

---
 src/reproject.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/reproject.cc b/src/reproject.cc
index 1781928..a46a639 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -520,10 +520,7 @@ void vector_reproject_direction_by_matrix_f(Matrix_cp matrix,
             // fprintf(stderr, "asin: %f, acos: %f, phi: %f\n", RAD_TO_DEG* asin(m[1]), RAD_TO_DEG*acos(m[0]), rot_deg);
             double angle_new = angZ[i] - rot_deg;
             // normalize 0..360
-            if (angle_new < 0)
-                angle_new += 360;
-            if (angle_new > 360)
-                angle_new -= 360;
+            angle_new -= 360 * floor(angle_new / 360);
             angZ[i] = angle_new;
         }
     }
-- 
2.43.0


From d34dc0b1c3b62e056caf472c465ba65009e9bfd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:22:23 +0000
Subject: [PATCH 082/173] fix: rotate vectors on rotated lat/lon grids with
 axes in degrees

---
 src/CDMProcessor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 319058f..ec2c0d3 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -124,8 +124,8 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
     DataPtr xAxisData;
     DataPtr yAxisData;
     if (cs->getProjection()->isDegree()) {
-        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "radian");
-        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "radian");
+        xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "degree");
+        yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "degree");
     } else {
         xAxisData = dataReader->getScaledDataInUnit(xAxis->getName(), "m");
         yAxisData = dataReader->getScaledDataInUnit(yAxis->getName(), "m");
@@ -150,7 +150,7 @@ CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader,
         matrix = reproject::get_vector_reproject_matrix_field(cs->getProjection()->getProj4String(), MIFI_WGS84_LATLON_PROJ4, &inXField[0], &inYField[0],
                                                               xAxisSize, yAxisSize);
     } else {
-        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in radian
+        // using MIFI_PROJ_AXIS even for LAT/LON since axes already in degree
         matrix = reproject::get_vector_reproject_matrix(MIFI_WGS84_LATLON_PROJ4, cs->getProjection()->getProj4String(), &xAxisD[0], &yAxisD[0], MIFI_PROJ_AXIS,
                                                         MIFI_PROJ_AXIS, xAxisSize, yAxisSize);
     }
-- 
2.43.0


From 032fd2759e52c6def9a72be97e03f93b63986629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:29 +0000
Subject: [PATCH 083/173] fix: rotations to and from lat/lon in one
 CDMProcessor

---
 src/CDMProcessor.cc | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index ec2c0d3..deae581 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -96,13 +96,13 @@ struct CDMProcessor::CDMProcessorImpl
     CDMReader_p dataReader;
     set<string> deaccumulateVars;
     set<string> accumulateVars;
-    // variable -> <counterPart, horizontalId>
+    // variable -> <counterPart, rotationId>
     map<string, pair<string, string> > rotateLatLonVectorX;
-    // variable -> horizontalId
+    // variable -> rotationId
     map<string, string> rotateLatLonDirection;
-    // variable -> <counterPart, horizontalId> (same as above but with Y as first component)
+    // variable -> <counterPart, rotationId> (same as above but with Y as first component)
     map<string, pair<string, string> > rotateLatLonVectorY;
-    // horizontalId -> cachedVectorReprojection
+    // rotationId -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
     VerticalVelocityComps vvComp;
@@ -112,6 +112,11 @@ struct CDMProcessor::CDMProcessorImpl
     string geopotentialHeightVar;
 };
 
+static string makeRotationId(const string& horizontalId, bool toLatLon)
+{
+    return horizontalId + (toLatLon ? "_toLatLon" : "_toGrid");
+}
+
 CachedVectorReprojection_p makeCachedVectorReprojection(CDMReader_p dataReader, CoordinateSystem_cp cs, bool toLatLon)
 {
     assert(cs->hasProjection());
@@ -479,13 +484,14 @@ void CDMProcessor::rotateVectorToLatLon(bool toLatLon, const std::vector<std::st
         if (csXId != csYId)
             throw CDMException(varNameX[i] + " belongs to different horizontal CS than " + varNameY[i] + ": " + csXId + " != " +csYId);
 
-        if (p_->cachedVectorReprojection.find(csXId) == p_->cachedVectorReprojection.end()) {
+        const string rotationId = makeRotationId(csXId, toLatLon);
+        if (p_->cachedVectorReprojection.find(rotationId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csXId);
             assert(itCS != coordSysMap.end());
-            p_->cachedVectorReprojection[csXId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
+            p_->cachedVectorReprojection[rotationId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
         }
-        p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], csXId);
-        p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], csXId);
+        p_->rotateLatLonVectorX[varNameX[i]] = make_pair(varNameY[i], rotationId);
+        p_->rotateLatLonVectorY[varNameY[i]] = make_pair(varNameX[i], rotationId);
     }
 }
 
@@ -507,12 +513,13 @@ void CDMProcessor::rotateDirectionToLatLon(bool toLatLon, const std::vector<std:
             throw CDMException(varNames[i] + " not rotatable since it does not belong to a horizontal projection");
 
         const string& csId = projectionVariables[varNames[i]];
-        p_->rotateLatLonDirection[varNames[i]] = csId;
+        const string rotationId = makeRotationId(csId, toLatLon);
+        p_->rotateLatLonDirection[varNames[i]] = rotationId;
 
-        if (p_->cachedVectorReprojection.find(csId) == p_->cachedVectorReprojection.end()) {
+        if (p_->cachedVectorReprojection.find(rotationId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csId);
             assert(itCS != coordSysMap.end());
-            p_->cachedVectorReprojection[csId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
+            p_->cachedVectorReprojection[rotationId] = makeCachedVectorReprojection(p_->dataReader, itCS->second, toLatLon);
         }
     }
 }
-- 
2.43.0


From aa17fb59f44539beec6337746260f242dedc34e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:29 +0000
Subject: [PATCH 084/173] fix: rotate vectors and directions with data in
 memory

---
 src/CDMProcessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index deae581..586c21e 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -484,6 +484,9 @@ void CDMProcessor::rotateVectorToLatLon(bool toLatLon, const std::vector<std::st
         if (csXId != csYId)
             throw CDMException(varNameX[i] + " belongs to different horizontal CS than " + varNameY[i] + ": " + csXId + " != " +csYId);
 
+        // data in memory are no longer valid
+        cdm_->getVariable(varNameX[i]).setData(DataPtr());
+        cdm_->getVariable(varNameY[i]).setData(DataPtr());
         const string rotationId = makeRotationId(csXId, toLatLon);
         if (p_->cachedVectorReprojection.find(rotationId) == p_->cachedVectorReprojection.end()) {
             const CoordSysMap::const_iterator itCS = coordSysMap.find(csXId);
@@ -513,6 +516,7 @@ void CDMProcessor::rotateDirectionToLatLon(bool toLatLon, const std::vector<std:
             throw CDMException(varNames[i] + " not rotatable since it does not belong to a horizontal projection");
 
         const string& csId = projectionVariables[varNames[i]];
+        cdm_->getVariable(varNames[i]).setData(DataPtr()); // data in memory are no longer valid
         const string rotationId = makeRotationId(csId, toLatLon);
         p_->rotateLatLonDirection[varNames[i]] = rotationId;
 
-- 
2.43.0


From d5b89e16c91aa3376daa22c9f0ece9da1e9996d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:19 +0000
Subject: [PATCH 085/173] fix: rotate unpacked vector components

---
 src/CDMInterpolator.cc | 11 +++++++++++
 src/CDMProcessor.cc    |  8 ++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index b8dfa1e..7c29a46 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -246,10 +246,21 @@ DataPtr CDMInterpolator::getDataSlice(const std::string& varName, const SliceBui
                     processArray_(p_->preprocesses, counterPartArray.get(), data->size(), ci->getInX(), ci->getInY());
                     LOG4FIMEX(logger, Logger::DEBUG, "implicit interpolateValues for: " << counterpart << "(slicebuilder)");
                     auto counterpartiArray = ci->interpolateValues(counterPartArray, data->size(), newSize);
+                    // rotate unpacked values
+                    double scale = 1, offset = 0, counterpartScale = 1, counterpartOffset = 0;
+                    getScaleAndOffsetOf(varName, scale, offset);
+                    getScaleAndOffsetOf(counterpart, counterpartScale, counterpartOffset);
+                    for (size_t i = 0; i < newSize; ++i) {
+                        iArray[i] = iArray[i] * scale + offset;
+                        counterpartiArray[i] = counterpartiArray[i] * counterpartScale + counterpartOffset;
+                    }
                     if (dir == CDMVariable::SPATIAL_VECTOR_X)
                         cvr->reprojectValues(iArray, counterpartiArray, newSize);
                     else
                         cvr->reprojectValues(counterpartiArray, iArray, newSize);
+                    for (size_t i = 0; i < newSize; ++i) {
+                        iArray[i] = (iArray[i] - offset) / scale;
+                    }
                     can_reproject = true;
                 }
             }
diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 586c21e..899bb85 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -701,7 +701,15 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         if (xData->size() != yData->size()) {
             throw CDMException("xData != yData in vectorInterpolation");
         }
+        // rotate unpacked values
+        double xScale = 1, xOffset = 0, yScale = 1, yOffset = 0;
+        getScaleAndOffsetOf(xVar, xScale, xOffset);
+        getScaleAndOffsetOf(yVar, yScale, yOffset);
+        transform(&xArray[0], &xArray[0] + xData->size(), &xArray[0], ScaleOffset<float>(xScale, xOffset));
+        transform(&yArray[0], &yArray[0] + yData->size(), &yArray[0], ScaleOffset<float>(yScale, yOffset));
         cvr->reprojectValues(xArray, yArray, xData->size());
+        transform(&xArray[0], &xArray[0] + xData->size(), &xArray[0], UnScaleOffset<float>(xScale, xOffset));
+        transform(&yArray[0], &yArray[0] + yData->size(), &yArray[0], UnScaleOffset<float>(yScale, yOffset));
         CDMDataType type = getCDM().getVariable(varName).getDataType();
         if (xIsFirst) {
             data = interpolationArray2Data(type, xArray, xData->size(), getCDM().getFillValue(xVar));
-- 
2.43.0


From 26e1488fa3c27cb3671ba5bb98bbb25dae718185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:10 +0000
Subject: [PATCH 086/173] fix: keep the second standard parallel of conic
 projections

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc | 2 +-
 src/coordSys/LambertConformalConicProjection.cc  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index b58b334..a5ff7de 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -92,7 +92,7 @@ std::ostream& AlbersConicalEqualAreaProjection::getProj4ProjectionPart(std::ostr
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 4b8fd08..4d5cf66 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -90,7 +90,7 @@ std::ostream& LambertConformalConicProjection::getProj4ProjectionPart(std::ostre
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
         oproj << " +lat_1=" << spData->asDouble()[0];
-        if (spData->size() > 2) {
+        if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
             oproj << " +lat_2=" << spData->asDouble()[0];
-- 
2.43.0


From fed988d3f1963c882410ecfef0981dccdb5bc0ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:10 +0000
Subject: [PATCH 087/173] fix: write standard parallels and rotated pole
 longitude with full precision to proj

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc   | 4 +++-
 src/coordSys/LambertConformalConicProjection.cc    | 4 +++-
 src/coordSys/RotatedLatitudeLongitudeProjection.cc | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index a5ff7de..cef92ab 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -29,6 +29,8 @@
 #include "fimex/Data.h"
 #include "fimex/String2Type.h"
 
+#include <iomanip>
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -91,7 +93,7 @@ std::ostream& AlbersConicalEqualAreaProjection::getProj4ProjectionPart(std::ostr
     if (foundAttr != params_.end()) {
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
-        oproj << " +lat_1=" << spData->asDouble()[0];
+        oproj << std::setprecision(std::numeric_limits<double>::digits10 + 1) << " +lat_1=" << spData->asDouble()[0];
         if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 4d5cf66..6169f91 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -27,6 +27,8 @@
 #include "fimex/coordSys/LambertConformalConicProjection.h"
 #include "fimex/Data.h"
 #include "fimex/String2Type.h"
+#include <iomanip>
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -89,7 +91,7 @@ std::ostream& LambertConformalConicProjection::getProj4ProjectionPart(std::ostre
     if (foundAttr != params_.end()) {
         // standard_parallel - There may be 1 or 2 values.
         DataPtr spData = foundAttr->getData();
-        oproj << " +lat_1=" << spData->asDouble()[0];
+        oproj << std::setprecision(std::numeric_limits<double>::digits10 + 1) << " +lat_1=" << spData->asDouble()[0];
         if (spData->size() >= 2) {
             oproj << " +lat_2=" << spData->asDouble()[1];
         } else {
diff --git a/src/coordSys/RotatedLatitudeLongitudeProjection.cc b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
index 44bb09a..5621b3b 100644
--- a/src/coordSys/RotatedLatitudeLongitudeProjection.cc
+++ b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
@@ -29,6 +29,8 @@
 #include "fimex/MathUtils.h"
 #include "fimex/String2Type.h"
 
+#include <iomanip>
+#include <limits>
 #include <regex>
 
 namespace MetNoFimex {
@@ -95,7 +97,7 @@ std::ostream& RotatedLatitudeLongitudeProjection::getProj4ProjectionPart(std::os
     std::vector<CDMAttribute>::const_iterator foundAttr = std::find_if(params_.begin(), params_.end(), CDMNameEqual("grid_north_pole_longitude"));
     if (foundAttr != params_.end()) {
         if (foundAttr->getData()->size() > 0) {
-            oproj << " +lon_0=" << (foundAttr->getData()->asDouble()[0]-180);
+            oproj << std::setprecision(std::numeric_limits<double>::digits10 + 1) << " +lon_0=" << (foundAttr->getData()->asDouble()[0]-180);
         }
     }
     addParameterToStream(oproj, "grid_north_pole_latitude", " +o_lat_p=");
-- 
2.43.0


From ae0a4ddc0471fa8a9d274196f845b4c152b5a993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:10 +0000
Subject: [PATCH 088/173] fix: keep negative north_pole_grid_longitude of
 rotated grids

---
 src/coordSys/RotatedLatitudeLongitudeProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/RotatedLatitudeLongitudeProjection.cc b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
index 5621b3b..4bf8e8c 100644
--- a/src/coordSys/RotatedLatitudeLongitudeProjection.cc
+++ b/src/coordSys/RotatedLatitudeLongitudeProjection.cc
@@ -83,7 +83,7 @@ std::vector<CDMAttribute> RotatedLatitudeLongitudeProjection::parametersFromProj
     }
     attrs.push_back(CDMAttribute("grid_north_pole_longitude", normalizeLongitude180(180+north_pole_lon)));
     attrs.push_back(CDMAttribute("grid_north_pole_latitude", north_pole_lat));
-    if (north_pole_grid_lon > 1e-4) { //optional
+    if (north_pole_grid_lon != 0) { // optional
         attrs.push_back(CDMAttribute("north_pole_grid_longitude", north_pole_grid_lon));
     }
 
-- 
2.43.0


From 82113463da8b639183bf44f93b607d27b55f6c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:10 +0000
Subject: [PATCH 089/173] fix: name the geostationary sweep axis attribute
 sweep_angle_axis

---
 src/coordSys/GeostationaryProjection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/coordSys/GeostationaryProjection.cc b/src/coordSys/GeostationaryProjection.cc
index 98da4e5..529807d 100644
--- a/src/coordSys/GeostationaryProjection.cc
+++ b/src/coordSys/GeostationaryProjection.cc
@@ -75,7 +75,7 @@ std::vector<CDMAttribute> GeostationaryProjection::parametersFromProj4(const std
     if (std::regex_search(proj4Str, what, std::regex("\\+sweep=(\\S+)"))) {
         sweep = what[1].str();
     }
-    attrs.push_back(CDMAttribute("sweep_axis", sweep));
+    attrs.push_back(CDMAttribute("sweep_angle_axis", sweep));
 
     proj4GetEarthAttributes(proj4Str, attrs);
     return attrs;
-- 
2.43.0


From 4aadade2228d8f4ed425c6391cccd5518f979e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:10 +0000
Subject: [PATCH 090/173] fix: understand +k_0 as scale factor in proj strings

---
 src/coordSys/LambertCylindricalEqualAreaProjection.cc | 2 +-
 src/coordSys/MercatorProjection.cc                    | 2 +-
 src/coordSys/ObliqueMercatorProjection.cc             | 2 +-
 src/coordSys/StereographicProjection.cc               | 2 +-
 src/coordSys/TransverseMercatorProjection.cc          | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/coordSys/LambertCylindricalEqualAreaProjection.cc b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
index 416327b..0cfc959 100644
--- a/src/coordSys/LambertCylindricalEqualAreaProjection.cc
+++ b/src/coordSys/LambertCylindricalEqualAreaProjection.cc
@@ -63,7 +63,7 @@ std::vector<CDMAttribute> LambertCylindricalEqualAreaProjection::parametersFromP
         double lat_ts = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/MercatorProjection.cc b/src/coordSys/MercatorProjection.cc
index bc95d40..a67e310 100644
--- a/src/coordSys/MercatorProjection.cc
+++ b/src/coordSys/MercatorProjection.cc
@@ -64,7 +64,7 @@ std::vector<CDMAttribute> MercatorProjection::parametersFromProj4(const std::str
         double standardParallel = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", standardParallel));
     }
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index af42f9c..f49acdf 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -83,7 +83,7 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     }
     attrs.push_back(CDMAttribute("gamma", gamma));
 
-    if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
     }
 
diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index f6390da..ef956f7 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -70,7 +70,7 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
         double lat_ts = std::strtod(what[1].str().c_str(), (char **)NULL);
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
 
-    } else if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+    } else if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         double k = std::strtod(what[1].str().c_str(), (char**)NULL);
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 19af24f..56fb439 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -96,7 +96,7 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
             attrs.push_back(CDMAttribute("latitude_of_projection_origin", latOfProjOrigin));
         }
 
-        if (std::regex_search(proj4Str, what, std::regex("\\+k=(\\S+)"))) {
+        if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
             attrs.push_back(CDMAttribute("scale_factor_at_central_meridian", string2type<double>(what[1].str())));
         }
     }
-- 
2.43.0


From 2d8685f1f339bced905ff283b4e61892f413f572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:50 +0000
Subject: [PATCH 091/173] fix: use proj's defaults for conic projections with
 one standard parallel

---
 src/coordSys/AlbersConicalEqualAreaProjection.cc | 14 ++++++--------
 src/coordSys/LambertConformalConicProjection.cc  |  2 ++
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/coordSys/AlbersConicalEqualAreaProjection.cc b/src/coordSys/AlbersConicalEqualAreaProjection.cc
index cef92ab..6c2de92 100644
--- a/src/coordSys/AlbersConicalEqualAreaProjection.cc
+++ b/src/coordSys/AlbersConicalEqualAreaProjection.cc
@@ -58,16 +58,14 @@ std::vector<CDMAttribute> AlbersConicalEqualAreaProjection::parametersFromProj4(
     std::smatch what;
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_1=(\\S+)"))) {
         double lat1 = string2type<double>(what[1].str());
+        double lat2 = 0; // proj's default
         if (std::regex_search(proj4Str, what, std::regex("\\+lat_2=(\\S+)"))) {
-            double lat2 = string2type<double>(what[1].str());
-
-            DataPtr stdParallels = createData(CDM_DOUBLE, 2);
-            stdParallels->setValue(0, lat1);
-            stdParallels->setValue(1, lat2);
-            attrs.push_back(CDMAttribute("standard_parallel", stdParallels));
-        } else {
-            attrs.push_back(CDMAttribute("standard_parallel", lat1));
+            lat2 = string2type<double>(what[1].str());
         }
+        DataPtr stdParallels = createData(CDM_DOUBLE, 2);
+        stdParallels->setValue(0, lat1);
+        stdParallels->setValue(1, lat2);
+        attrs.push_back(CDMAttribute("standard_parallel", stdParallels));
     }
 
     double lon0 = 0.;
diff --git a/src/coordSys/LambertConformalConicProjection.cc b/src/coordSys/LambertConformalConicProjection.cc
index 6169f91..562fb07 100644
--- a/src/coordSys/LambertConformalConicProjection.cc
+++ b/src/coordSys/LambertConformalConicProjection.cc
@@ -77,6 +77,8 @@ std::vector<CDMAttribute> LambertConformalConicProjection::parametersFromProj4(c
     double lat0 = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_0=(\\S+)"))) {
         lat0 = string2type<double>(what[1].str());
+    } else if (!std::regex_search(proj4Str, std::regex("\\+lat_2=")) && std::regex_search(proj4Str, what, std::regex("\\+lat_1=(\\S+)"))) {
+        lat0 = string2type<double>(what[1].str()); // proj's default with one standard parallel
     }
     attrs.push_back(CDMAttribute("latitude_of_projection_origin", lat0));
 
-- 
2.43.0


From 3cd21afde126398465b1e97e56e5a88918bc5256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:50 +0000
Subject: [PATCH 092/173] fix: do not invent gamma=0 for oblique mercator proj
 strings

---
 src/coordSys/ObliqueMercatorProjection.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/coordSys/ObliqueMercatorProjection.cc b/src/coordSys/ObliqueMercatorProjection.cc
index f49acdf..8fc8780 100644
--- a/src/coordSys/ObliqueMercatorProjection.cc
+++ b/src/coordSys/ObliqueMercatorProjection.cc
@@ -77,11 +77,10 @@ std::vector<CDMAttribute> ObliqueMercatorProjection::parametersFromProj4(const s
     attrs.push_back(CDMAttribute("azimuth_of_central_line", azimuthOfCentralLine));
 
     // gamma
-    double gamma = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+gamma=(\\S+)"))) {
-        gamma = string2type<double>(what[1].str());
+        double gamma = string2type<double>(what[1].str());
+        attrs.push_back(CDMAttribute("gamma", gamma));
     }
-    attrs.push_back(CDMAttribute("gamma", gamma));
 
     if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", string2type<double>(what[1].str())));
-- 
2.43.0


From 74b314bcfa3ea808169c40dd5d38b86d62180e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:50 +0000
Subject: [PATCH 093/173] fix: stereographic proj strings without lon_0 or with
 unparsable angles

---
 src/coordSys/StereographicProjection.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/coordSys/StereographicProjection.cc b/src/coordSys/StereographicProjection.cc
index ef956f7..fbbf303 100644
--- a/src/coordSys/StereographicProjection.cc
+++ b/src/coordSys/StereographicProjection.cc
@@ -25,6 +25,8 @@
  */
 
 #include "fimex/coordSys/StereographicProjection.h"
+
+#include "fimex/String2Type.h"
 #include "fimex/mifi_constants.h"
 #include <cmath>
 #include <regex>
@@ -57,21 +59,22 @@ std::vector<CDMAttribute> StereographicProjection::parametersFromProj4(const std
     attrs.push_back(CDMAttribute("grid_mapping_name", "stereographic"));
 
     std::smatch what;
+    double lon0 = 0.;
     if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\S+)"))) {
-        double lon0 = std::strtod(what[1].str().c_str(), (char**)NULL);
-        attrs.push_back(CDMAttribute("longitude_of_projection_origin", lon0));
+        lon0 = string2type<double>(what[1].str());
     }
+    attrs.push_back(CDMAttribute("longitude_of_projection_origin", lon0));
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_0=(\\S+)"))) {
-        double lat0 = std::strtod(what[1].str().c_str(), (char**)NULL);
+        double lat0 = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("latitude_of_projection_origin", lat0));
     }
 
     if (std::regex_search(proj4Str, what, std::regex("\\+lat_ts=(\\S+)"))) {
-        double lat_ts = std::strtod(what[1].str().c_str(), (char **)NULL);
+        double lat_ts = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("standard_parallel", lat_ts));
 
     } else if (std::regex_search(proj4Str, what, std::regex("\\+k(?:_0)?=(\\S+)"))) {
-        double k = std::strtod(what[1].str().c_str(), (char**)NULL);
+        double k = string2type<double>(what[1].str());
         attrs.push_back(CDMAttribute("scale_factor_at_projection_origin", k));
     }
 
-- 
2.43.0


From dabaa6199f10b9151c0983f767849d0f56876546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:50 +0000
Subject: [PATCH 094/173] fix: utm proj strings with lon_0 use the zone's
 central meridian

---
 src/coordSys/TransverseMercatorProjection.cc | 22 ++++++++++----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/coordSys/TransverseMercatorProjection.cc b/src/coordSys/TransverseMercatorProjection.cc
index 56fb439..5725322 100644
--- a/src/coordSys/TransverseMercatorProjection.cc
+++ b/src/coordSys/TransverseMercatorProjection.cc
@@ -27,8 +27,10 @@
 #include "fimex/coordSys/TransverseMercatorProjection.h"
 
 #include "fimex/Logger.h"
+#include "fimex/MathUtils.h"
 #include "fimex/String2Type.h"
 
+#include <cmath>
 #include <regex>
 
 namespace MetNoFimex {
@@ -61,19 +63,17 @@ std::vector<CDMAttribute> TransverseMercatorProjection::parametersFromProj4(cons
         attrs.push_back(CDMAttribute("latitude_of_projection_origin", 0));
         attrs.push_back(CDMAttribute("false_easting", 500000));
         std::smatch what;
-        double longOfProjOrigin = 0;
+        short zone = 31; // proj's default (lon_0=0)
         if (std::regex_search(proj4Str, what, std::regex("\\+zone=(\\d+)"))) {
-            short zone = string2type<short>(what[1].str());
-            if (zone <= 0) zone = 1;
-            else if (zone > 60) zone = 60;
-            longOfProjOrigin = (zone-1)*6 - 180 + 3;
-            attrs.push_back(CDMAttribute("longitude_of_central_meridian", longOfProjOrigin));
-        }
-        // some people use utm with lon_0 instead of zone
-        if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\d+|\\d+\\.\\d+)"))) {
-            longOfProjOrigin = string2type<double>(what[1].str());
-            attrs.push_back(CDMAttribute("longitude_of_central_meridian", longOfProjOrigin));
+            zone = string2type<short>(what[1].str());
+        } else if (std::regex_search(proj4Str, what, std::regex("\\+lon_0=(\\S+)"))) {
+            // some people use utm with lon_0 instead of zone
+            zone = static_cast<short>(std::floor((normalizeLongitude180(string2type<double>(what[1].str())) + 180) / 6) + 1);
         }
+        if (zone <= 0) zone = 1;
+        else if (zone > 60) zone = 60;
+        const double longOfProjOrigin = (zone-1)*6 - 180 + 3;
+        attrs.push_back(CDMAttribute("longitude_of_central_meridian", longOfProjOrigin));
         if (std::regex_search(proj4Str, what, std::regex("\\+south"))) {
             attrs.push_back(CDMAttribute("false_northing", 10000000));
         }
-- 
2.43.0


From 67984de4b7440f080fdb1bf6084f56ba1f0f76b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:50 +0000
Subject: [PATCH 095/173] fix: replaceProj4Earthfigure removes +rf

---
 src/coordSys/Projection.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/coordSys/Projection.cc b/src/coordSys/Projection.cc
index f70eb71..2f32ea2 100644
--- a/src/coordSys/Projection.cc
+++ b/src/coordSys/Projection.cc
@@ -214,6 +214,7 @@ std::string replaceProj4Earthfigure(const std::string& proj4, const std::string&
         if (parts.at(i).find("+a=") != string::npos) continue;
         if (parts.at(i).find("+b=") != string::npos) continue;
         if (parts.at(i).find("+e=") != string::npos) continue;
+        if (parts.at(i).find("+rf=") != string::npos) continue;
         if (parts.at(i).find("+R=") != string::npos) continue;
         if (parts.at(i).find("+ellps=") != string::npos) continue;
         if (parts.at(i).find("+datum=") != string::npos) continue;
-- 
2.43.0


From 77ae5b238a127b977cbf1baa01f8022b9a7ab01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:58 +0000
Subject: [PATCH 096/173] fix: earth figure of proj strings with named
 ellipsoids

---
 src/coordSys/ProjectionImpl.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index d58c105..8d09faa 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -40,6 +40,11 @@
 #include <regex>
 #include <sstream>
 
+#include "fimex_config.h"
+#ifdef HAVE_PROJ_H
+#include "proj.h"
+#endif
+
 namespace MetNoFimex {
 
 using namespace std;
@@ -253,7 +258,7 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
     }
 
     // get ellipsoid from ellps/datum, source: http://en.wikipedia.org/wiki/Figure_of_earth
-    if (std::regex_search(proj4Str, what, std::regex("\\+ellps=(\\S+)")) || std::regex_search(proj4Str, what, std::regex("\\+datum=(\\S+)"))) {
+    else if (std::regex_search(proj4Str, what, std::regex("\\+ellps=(\\S+)")) || std::regex_search(proj4Str, what, std::regex("\\+datum=(\\S+)"))) {
         string ellps = string2lowerCase(what[1].str());
         // this list has been manually generated from "proj -le"
         if (ellps == "wgs84") {
@@ -262,10 +267,10 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
         } else if (ellps == "nad83") {
             attrList.push_back(CDMAttribute("semi_major_axis", 6378137.0));
             attrList.push_back(CDMAttribute("semi_minor_axis", 6356752.3));
-        } else if (ellps == "grs80" || ellps == "etrs89") { // grs80 ellipsoid
+        } else if (ellps == "grs80" || ellps == "etrs89" || ellps == "ggrs87") { // grs80 ellipsoid
             attrList.push_back(CDMAttribute("semi_major_axis", 6378137.0));
             attrList.push_back(CDMAttribute("semi_minor_axis", 6356752.3141));
-        } else if (ellps == "nad27") { // clarke 1866 ellipsoid
+        } else if (ellps == "nad27" || ellps == "clrk66") { // clarke 1866 ellipsoid
             attrList.push_back(CDMAttribute("semi_major_axis", 6378206.4));
             attrList.push_back(CDMAttribute("semi_minor_axis", 6356583.8));
         } else if (ellps == "wgs72") {
@@ -279,10 +284,22 @@ void ProjectionImpl::proj4GetEarthAttributes(const std::string& proj4Str, std::v
             attrList.push_back(CDMAttribute("semi_minor_axis", 6356751.9));
         } else if (ellps == "intl") { // international 1924 / hayford 1909
             attrList.push_back(CDMAttribute("semi_major_axis", 6378388.0));
-            attrList.push_back(CDMAttribute("semi_minor_axis", 6356909.0));
+            attrList.push_back(CDMAttribute("inverse_flattening", 297.0));
         } else if (ellps == "bessel") { // Bessel 1841
             attrList.push_back(CDMAttribute("semi_major_axis", 6377397.155));
             attrList.push_back(CDMAttribute("inverse_flattening", 299.1528128));
+#ifdef HAVE_PROJ_H
+        } else {
+            for (const PJ_ELLPS* e = proj_list_ellps(); e && e->id; ++e) { // major is "a=..", ell is "b=.." or "rf=.."
+                if (string2lowerCase(e->id) == ellps) {
+                    const string shape(e->ell);
+                    const bool isMinor = shape.compare(0, 2, "b=") == 0;
+                    attrList.push_back(CDMAttribute("semi_major_axis", string2type<double>(string(e->major).substr(2))));
+                    attrList.push_back(
+                        CDMAttribute(isMinor ? "semi_minor_axis" : "inverse_flattening", string2type<double>(shape.substr(isMinor ? 2 : 3))));
+                }
+            }
+#endif
         }
     }
 
-- 
2.43.0


From c58140070816fcf096d7695dfb532275e87db30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:05 +0000
Subject: [PATCH 097/173] fix: zero-length arrays reading scalar netcdf
 variables

---
 src/io/netcdf/NetCDF_CDMReader.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index 7e51ee8..a47e18e 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -145,10 +145,10 @@ DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, size_t unLimD
     ncCheck(nc_inq_vartype(ncFile->ncId, varid, &dtype));
     int dimLen;
     ncCheck(nc_inq_varndims(ncFile->ncId, varid, &dimLen));
-    int dimIds[dimLen];
-    ncCheck(nc_inq_vardimid(ncFile->ncId, varid, &dimIds[0]));
-    size_t count[dimLen];
-    size_t start[dimLen];
+    vector<int> dimIds(dimLen);
+    ncCheck(nc_inq_vardimid(ncFile->ncId, varid, dimIds.data()));
+    vector<size_t> count(dimLen);
+    vector<size_t> start(dimLen);
     for (int i = 0; i < dimLen; ++i) {
         start[i] = 0;
         ncCheck(nc_inq_dimlen(ncFile->ncId, dimIds[i], &count[i]));
@@ -161,9 +161,9 @@ DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, size_t unLimD
     {
         OmpScopedUnlock unlock(Nc::getMutex());
         LOG4FIMEX(logger, Logger::DEBUG,
-                  "ncGetValues for " << varName << ": (" << join(start, start + dimLen) << ") size (" << join(count, count + dimLen) << ")");
+                  "ncGetValues for " << varName << ": (" << join(start.begin(), start.end()) << ") size (" << join(count.begin(), count.end()) << ")");
     }
-    return ncGetValues(ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start, count);
+    return ncGetValues(ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start.data(), count.data());
 }
 
 DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, const SliceBuilder& sb)
@@ -194,7 +194,7 @@ DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, const SliceBu
               "ncGetValues SB for " << varName << ": (" << join(start.begin(), start.end()) << ") size (" << join(count.begin(), count.end()) << ")");
 
     OmpScopedLock lock(Nc::getMutex());
-    return ncGetValues(ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), &start[0], &count[0]);
+    return ncGetValues(ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start.data(), count.data());
 }
 
 void NetCDF_CDMReader::sync()
@@ -221,10 +221,10 @@ void NetCDF_CDMReader::putDataSlice(const std::string& varName, size_t unLimDimP
     ncCheck(nc_inq_varid(ncFile->ncId, var.getName().c_str(), &varid));
     ncCheck(nc_inq_vartype(ncFile->ncId, varid, &dtype));
     ncCheck(nc_inq_varndims(ncFile->ncId, varid, &dimLen));
-    int dimIds[dimLen];
-    ncCheck(nc_inq_vardimid(ncFile->ncId, varid, &dimIds[0]));
-    size_t count[dimLen];
-    size_t start[dimLen];
+    vector<int> dimIds(dimLen);
+    ncCheck(nc_inq_vardimid(ncFile->ncId, varid, dimIds.data()));
+    vector<size_t> count(dimLen);
+    vector<size_t> start(dimLen);
     for (int i = 0; i < dimLen; ++i) {
         start[i] = 0;
         ncCheck(nc_inq_dimlen(ncFile->ncId, dimIds[i], &count[i]));
@@ -237,9 +237,9 @@ void NetCDF_CDMReader::putDataSlice(const std::string& varName, size_t unLimDimP
             count[0] = 1;
         }
         LOG4FIMEX(logger, Logger::DEBUG,
-                  "ncPutValues for " << varName << ": (" << join(start, start + dimLen) << ") size (" << join(count, count + dimLen) << ")");
+                  "ncPutValues for " << varName << ": (" << join(start.begin(), start.end()) << ") size (" << join(count.begin(), count.end()) << ")");
     }
-    ncPutValues(data, ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start, count);
+    ncPutValues(data, ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start.data(), count.data());
 }
 
 void NetCDF_CDMReader::putDataSlice(const std::string& varName, const SliceBuilder& sb, const DataPtr data)
@@ -274,7 +274,7 @@ void NetCDF_CDMReader::putDataSlice(const std::string& varName, const SliceBuild
               "ncPutValues SB for " << varName << ": (" << join(start.begin(), start.end()) << ") size (" << join(count.begin(), count.end()) << ")");
 
     OmpScopedLock lock(Nc::getMutex());
-    ncPutValues(data, ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), &start[0], &count[0]);
+    ncPutValues(data, ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start.data(), count.data());
 }
 
 void NetCDF_CDMReader::addAttribute(const std::string& varName, int varid, const string& attName)
-- 
2.43.0


From f39d29ab2b935147e232867ed2756e241c800a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:58 +0000
Subject: [PATCH 098/173] fix: SliceBuilder::setStartAndSize accepts
 overflowing start+size

---
 src/SliceBuilder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SliceBuilder.cc b/src/SliceBuilder.cc
index 9f8f19f..a509e40 100644
--- a/src/SliceBuilder.cc
+++ b/src/SliceBuilder.cc
@@ -109,7 +109,7 @@ void SliceBuilder::getStartAndSize(const std::string & dimName, std::size_t& sta
 void SliceBuilder::setStartAndSize(const std::string & dimName, size_t start, size_t size)
 {
     size_t pos = getDimPos(dimName);
-    if ((!unlimited_.at(pos)) && maxSize_.at(pos) < (start + size)) {
+    if ((!unlimited_.at(pos)) && (start > maxSize_.at(pos) || size > maxSize_.at(pos) - start)) {
         throw out_of_range("slicebuilder: "+ dimName + " too large: start: " + type2string(start) + " size: " + type2string(size));
     }
     start_.at(pos) = start;
-- 
2.43.0


From 91d6a9f4209329aa0ba331b2c20a42224809aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:49 +0000
Subject: [PATCH 099/173] fix: joined variables return null data outside the
 unlimited dimension

---
 src/AggregationReader.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/AggregationReader.cc b/src/AggregationReader.cc
index 48eb991..2be1e9e 100644
--- a/src/AggregationReader.cc
+++ b/src/AggregationReader.cc
@@ -475,7 +475,7 @@ DataPtr AggregationReader::getDataSlice(const std::string& varName, size_t unLim
             }
         }
 
-        return nullptr; // out of bounds for unlimited dim
+        return createData(aVar.getDataType(), 0); // out of bounds for unlimited dim
     }
 
     // all other variables behave as for "union"
-- 
2.43.0


From 2b8c567921a95ab65c16beeab03062f9258ea3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:49 +0000
Subject: [PATCH 100/173] fix: vertical interpolation reads beyond an empty
 input slice

---
 src/CDMVerticalInterpolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMVerticalInterpolator.cc b/src/CDMVerticalInterpolator.cc
index a251090..ff365ee 100644
--- a/src/CDMVerticalInterpolator.cc
+++ b/src/CDMVerticalInterpolator.cc
@@ -480,6 +480,8 @@ DataPtr CDMVerticalInterpolator::getLevelDataSlice(CoordinateSystem_cp csI, cons
     const size_t overticalZdelta = soVertical.delta(geoZo);
 
     DataPtr data = dataReader_->getDataSlice(varName, unLimDimPos);
+    if (data->size() == 0)
+        return data; // no data for this slice
     const double badValue = cdm_->getFillValue(varName);
     auto iData = data2InterpolationArray(data, badValue);
     const size_t oSize = soData.volume();
-- 
2.43.0


From d0dee8627c60aa075dcd6729c6672829eeed0af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 101/173] fix: bounding box of grids with axes in km

---
 src/CDMExtractor.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index b9758d2..8759b60 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -461,8 +461,15 @@ void CDMExtractor::reduceLatLonBoundingBox(double south, double north, double we
             continue;
         }
 
-        DataPtr xData = dataReader_->getScaledData(xAxisName);
-        DataPtr yData = dataReader_->getScaledData(yAxisName);
+        // projections are calculated in m or degree
+        const string projUnit = cs->getProjection()->isDegree() ? "degree" : "m";
+        Units units;
+        const auto getAxisData = [&](const string& axis) {
+            return units.areConvertible(dataReader_->getCDM().getUnits(axis), projUnit) ? dataReader_->getScaledDataInUnit(axis, projUnit)
+                                                                                         : dataReader_->getScaledData(axis);
+        };
+        DataPtr xData = getAxisData(xAxisName);
+        DataPtr yData = getAxisData(yAxisName);
         const size_t nx = xData->size(), ny = yData->size();
         if (nx == 0 || ny == 0)
             continue;
-- 
2.43.0


From c28d8f853a681be89f1b53a148d23bbf34f758c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:27 +0000
Subject: [PATCH 102/173] fix: bounding box of longitude axes outside -180..180

---
 src/CDMExtractor.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 8759b60..6f1f1af 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -41,6 +41,7 @@
 
 #include <algorithm>
 #include <cassert>
+#include <cmath>
 #include <functional>
 #include <iterator>
 #include <numeric>
@@ -490,7 +491,11 @@ void CDMExtractor::reduceLatLonBoundingBox(double south, double north, double we
         std::set<std::size_t> xSlices, ySlices;
         for (size_t ix = 0, i = 0; ix < nx; ++ix) {
             for (size_t iy = 0; iy < ny; ++iy, ++i) {
-                const double lon = xLonVals[i], lat = yLatVals[i];
+                // longitude axes might use any range, e.g. 0..360
+                double lon = xLonVals[i];
+                if (lon < -180 || lon > 180)
+                    lon -= 360 * std::floor((lon + 180) / 360);
+                const double lat = yLatVals[i];
                 if (lat < south || lat > north)
                     continue;
                 if (wrap180 && lon > east && lon < west)
-- 
2.43.0


From bfa4af5e310f5c8dfb3a7bff41814f4f63e6c8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:06 +0000
Subject: [PATCH 103/173] fix: nc4 files with string variables cannot be
 written with the default compression

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index cfe7ddb..5c2bd6c 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -419,7 +419,7 @@ NetCDF_CDMWriter::NcVarIdMap NetCDF_CDMWriter::defineVariables(const NcDimIdMap&
                         shuffle = 1;
                     }
                 }
-                if (compression > 0 && !shape.empty()) { // non-scalar variables
+                if (compression > 0 && !shape.empty() && datatype != CDM_STRINGS) { // non-scalar variables, filters do not apply to variable-length strings
                     // create a chunk-strategy: continuous in last dimensions, max MAX_CHUNK
                     const size_t DEFAULT_CHUNK = 2 << 20; // good chunk up to 1M *sizeof(type)
                     const size_t MIN_CHUNK = 2 << 16;     // chunks should be at least reasonably sized, e.g. 64k*sizeof(type)
-- 
2.43.0


From 340395deb52c948c677e118ba48df3765a584687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:18 +0000
Subject: [PATCH 104/173] fix: data with NaN fill value written unconverted

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index 5c2bd6c..c070e6b 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -39,6 +39,7 @@
 
 #include "NetCDF_Utils.h"
 
+#include <cmath>
 #include <functional>
 #include <memory>
 #include <numeric>
@@ -561,8 +562,9 @@ DataPtr NetCDF_CDMWriter::convertData(const CDMVariable& var, DataPtr data)
     const double newScale = cdm.getScaleFactor(varName);
     const double newOffset = cdm.getAddOffset(varName);
 
+    const bool sameFill = (oldFill == newFill) || (std::isnan(oldFill) && std::isnan(newFill));
     if ((newType != CDM_NAT && oldType != CDM_NAT) &&
-        (newType != oldType || newUnit != oldUnit || oldFill != newFill || oldScale != newScale || oldOffset != newOffset)) {
+        (newType != oldType || newUnit != oldUnit || !sameFill || oldScale != newScale || oldOffset != newOffset)) {
         try {
             UnitsConverter_p uc;
             if (oldUnit != newUnit) { // changes of the units
-- 
2.43.0


From f17630816a126b56697a82c21aa8a9df4db88529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:04 +0000
Subject: [PATCH 105/173] fix: text variables with _FillValue cannot be written

---
 src/CDM.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CDM.cc b/src/CDM.cc
index 536a403..9046306 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -487,6 +487,11 @@ double CDM::getFillValue(const std::string& varName) const
         if (var.getDataType() != attr.getDataType())
             throw CDMException("variable '" + varName + "' has type " + datatype2string(var.getDataType())
                                + " and FillValue type " + datatype2string(attr.getDataType()));
+        if (attr.getDataType() == CDM_STRING || attr.getDataType() == CDM_STRINGS) {
+            // text cannot be converted to double
+            const std::string text = attr.getStringValue();
+            return text.empty() ? defaultFillValue_(CDM_STRING) : static_cast<unsigned char>(text[0]);
+        }
         return attr.getData()->asDouble()[0];
     }
     if (hasVariable(varName)) {
-- 
2.43.0


From 33c29a9440a8fb196241a2543518c37e1a86a09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:14 +0000
Subject: [PATCH 106/173] fix: compressionLevel 10 of the netcdf writer

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index c070e6b..b73f784 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -415,7 +415,7 @@ NetCDF_CDMWriter::NcVarIdMap NetCDF_CDMWriter::defineVariables(const NcDimIdMap&
                 int shuffle = 0;
                 if (variableCompression.find(var.getName()) != variableCompression.end()) {
                     compression = variableCompression[var.getName()];
-                    if (compression > 10) {
+                    if (compression >= 10) {
                         compression -= 10;
                         shuffle = 1;
                     }
-- 
2.43.0


From ede43077aaa8543b1e3e8d41ef1544f5ab89f34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:13 +0000
Subject: [PATCH 107/173] fix: report failures of NetCDF data writes, sync and
 close

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 12 +++++++++++-
 src/io/netcdf/NetCDF_Utils.cc     |  8 ++++++++
 src/io/netcdf/NetCDF_Utils.h      |  2 ++
 3 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index b73f784..69cc0ef 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -724,15 +724,22 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
                 } catch (std::exception& ex) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "exception " << ex.what() << " while writing variable " << varName);
+                    exceptions = true;
                 } catch (...) {
                     OmpScopedUnlock ncUnlock(Nc::getMutex());
                     LOG4FIMEX(logger, Logger::ERROR, "unknown exception while writing variable " << varName);
+                    exceptions = true;
                 }
             }
         }
 #ifndef HAVE_MPI
         if (unLimDimPos >= 0) {
-            NCMUTEX_LOCKED(ncCheck(nc_sync(ncFile->ncId))); // sync every 'time/unlimited' step (does not work with MPI)
+            int status;
+            NCMUTEX_LOCKED(status = nc_sync(ncFile->ncId)); // sync every 'time/unlimited' step (does not work with MPI)
+            if (status != NC_NOERR) {
+                LOG4FIMEX(logger, Logger::ERROR, "error while syncing at unlimited dim position " << unLimDimPos << ": " << nc_strerror(status));
+                exceptions = true;
+            }
         }
 #endif
     }
@@ -750,6 +757,9 @@ void NetCDF_CDMWriter::init()
 
     // write data
     writeData(ncVarIdMap);
+
+    // close here, since buffered data may be written while closing, and the destructor cannot report errors
+    ncFile->close();
 }
 
 NetCDF_CDMWriter::~NetCDF_CDMWriter() {}
diff --git a/src/io/netcdf/NetCDF_Utils.cc b/src/io/netcdf/NetCDF_Utils.cc
index 5fe182e..fb34321 100644
--- a/src/io/netcdf/NetCDF_Utils.cc
+++ b/src/io/netcdf/NetCDF_Utils.cc
@@ -104,6 +104,14 @@ Nc::~Nc()
     }
 }
 
+void Nc::close()
+{
+    if (isOpen) {
+        isOpen = false;
+        NCMUTEX_LOCKED(ncCheck(nc_close(ncId), "closing '" + filename + "'"));
+    }
+}
+
 void Nc::reopen_if_forked()
 {
     pid_t this_pid = getpid();
diff --git a/src/io/netcdf/NetCDF_Utils.h b/src/io/netcdf/NetCDF_Utils.h
index 8b1c836..43b8d9b 100644
--- a/src/io/netcdf/NetCDF_Utils.h
+++ b/src/io/netcdf/NetCDF_Utils.h
@@ -67,6 +67,8 @@ public:
     int format;
     bool isOpen;
     pid_t pid;
+    //! close the file if it is open, throws CDMException in case of errors
+    void close();
     void reopen_if_forked();
     bool supports_nc_string() const { return format == NC_FORMAT_NETCDF4; }
 };
-- 
2.43.0


From 6ff768f554c51d77b060aa81b1819b28abf61bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:13 +0000
Subject: [PATCH 108/173] fix: NcML writer reports open and write errors

---
 src/NcmlCDMWriter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/NcmlCDMWriter.cc b/src/NcmlCDMWriter.cc
index de2f97a..f86389d 100644
--- a/src/NcmlCDMWriter.cc
+++ b/src/NcmlCDMWriter.cc
@@ -82,7 +82,12 @@ NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, const std::string& out
     : CDMWriter(cdmReader, outputFile)
 {
     std::ofstream out(outputFile);
+    if (!out.is_open())
+        throw CDMException("cannot open '" + outputFile + "' for writing");
     write(out, true);
+    out.close();
+    if (!out)
+        throw CDMException("error while writing '" + outputFile + "'");
 }
 
 NcmlCDMWriter::NcmlCDMWriter(const CDMReader_p cdmReader, std::ostream& output, bool withData)
-- 
2.43.0


From 20fcb0ed6b2a809a30f199db36f09cf0909c2eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:13 +0000
Subject: [PATCH 109/173] fix: GRIB writer and protobuf index writer report
 write errors

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 4 ++++
 src/io/grib/GribProtobufIndexWriter.cc       | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index cb14b7d..c6b524e 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -335,6 +335,10 @@ void GribApiCDMWriter_ImplAbstract::run()
             LOG4FIMEX(logger, Logger::DEBUG, "variable not written to grib: " << vi->getName());
         }
     }
+
+    gribFile.close();
+    if (!gribFile)
+        throw CDMException("error while writing grib-file: " + outputFile);
 }
 
 void GribApiCDMWriter_ImplAbstract::setGlobalAttributes()
diff --git a/src/io/grib/GribProtobufIndexWriter.cc b/src/io/grib/GribProtobufIndexWriter.cc
index 6ee447f..47e1f4b 100644
--- a/src/io/grib/GribProtobufIndexWriter.cc
+++ b/src/io/grib/GribProtobufIndexWriter.cc
@@ -42,7 +42,12 @@ const char GRIB_PROTO_INDEX_MAGIC[4]{'G', 0, 0, 0};
 void GribProtobufIndexWriter::write(const MetNoFimex::CDM& cdm, const GribCDMIndexer::grib_indexed& grib_indexed, const std::string& outputfile)
 {
     std::ofstream out(outputfile, std::ios::binary);
+    if (!out.is_open())
+        throw std::runtime_error("cannot open '" + outputfile + "' for writing");
     write(cdm, grib_indexed, out);
+    out.close();
+    if (!out)
+        throw std::runtime_error("error while writing '" + outputfile + "'");
 }
 
 void GribProtobufIndexWriter::write(const MetNoFimex::CDM& cdm, const GribCDMIndexer::grib_indexed& grib_indexed, std::ostream& out)
-- 
2.43.0


From b9ea5de3a019b9dc4715f66f3327e567d7266edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:23 +0000
Subject: [PATCH 110/173] fix: GRIB reader places level/ensemble sub-slices
 correctly

---
 src/io/grib/GribCDMReader.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMReader.cc b/src/io/grib/GribCDMReader.cc
index 4fea314..2cebe00 100644
--- a/src/io/grib/GribCDMReader.cc
+++ b/src/io/grib/GribCDMReader.cc
@@ -246,8 +246,9 @@ DataPtr GribCDMReader::getDataSlice(const std::string& varName, const SliceBuild
                     continue;
                 }
 
+                const size_t slice_l_len = dim_l_end - dim_l_start, slice_e_len = dim_e_end - dim_e_start;
                 const size_t idx_data =
-                    ((idx_t - dim_t_start) * dim_l_len * dim_e_len + (idx_l - dim_l_start) * dim_e_len + (idx_e - dim_e_start)) * xySliceSize;
+                    (((idx_t - dim_t_start) * slice_l_len + (idx_l - dim_l_start)) * slice_e_len + (idx_e - dim_e_start)) * xySliceSize;
                 double* data_out = &doubleArray[idx_data];
                 double* grib_out = xyslice ? full_data_array.get() : data_out;
                 size_t dataRead;
-- 
2.43.0


From 0f38caa0fea92067915591e524f5ed0a9cea3f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:47 +0000
Subject: [PATCH 111/173] fix: GRIB steps given in days, months or years

---
 src/io/grib/GribFileIndex.cc | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index b07fe04..0684e2f 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -937,6 +937,15 @@ FimexTime GribFileMessage::getReferenceTime() const
     return FimexTime(year, month, day, hour, minutes, 0);
 }
 
+// add calendar months; a day of month which does not exist in the resulting month is moved to the end of this month
+static FimexTime addMonths(const FimexTime& t, long months)
+{
+    const long m = t.getYear() * 12L + (t.getMonth() - 1) + months;
+    const date::year_month ym{date::year(m / 12), date::month(m % 12 + 1)};
+    const unsigned int lastDay = static_cast<unsigned int>(date::year_month_day_last(ym.year(), date::month_day_last(ym.month())).day());
+    return FimexTime(m / 12, m % 12 + 1, std::min<unsigned int>(t.getMDay(), lastDay), t.getHour(), t.getMinute(), t.getSecond());
+}
+
 FimexTime GribFileMessage::getValidTime() const
 {
     FimexTime reference = getReferenceTime();
@@ -952,12 +961,12 @@ FimexTime GribFileMessage::getValidTime() const
     case 10: timeOffset = std::chrono::hours(3 * stepEnd_); break;
     case 11: timeOffset = std::chrono::hours(6 * stepEnd_); break;
     case 12: timeOffset = std::chrono::hours(12  *stepEnd_); break;
-    case 2:  date::days(1 * stepEnd_); break;
-    case 3:  date::months(1 * stepEnd_); break;
-    case 4:  date::years(1 * stepEnd_); break;
-    case 5:  date::years(10 * stepEnd_); break;
-    case 6:  date::years(30 * stepEnd_); break;
-    case 7:  date::years(100 * stepEnd_); break;
+    case 2:  timeOffset = std::chrono::hours(24 * stepEnd_); break;
+    case 3:  return addMonths(reference, stepEnd_);
+    case 4:  return addMonths(reference, 12 * stepEnd_);
+    case 5:  return addMonths(reference, 12 * 10 * stepEnd_);
+    case 6:  return addMonths(reference, 12 * 30 * stepEnd_);
+    case 7:  return addMonths(reference, 12 * 100 * stepEnd_);
     default: {
         std::ostringstream msg;
         msg << "unknown stepUnits value " << stepUnits_;
-- 
2.43.0


From 18a0cad866e2b2c2723f9652d8eecc7c8d00c568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:15 +0000
Subject: [PATCH 112/173] fix: GRIB2 earth figure with user-defined axes

---
 src/io/grib/GribFileIndex.cc | 26 +++++---------------------
 1 file changed, 5 insertions(+), 21 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 0684e2f..959e774 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -44,6 +44,7 @@
 #include <date/date.h>
 
 #include <algorithm>
+#include <cmath>
 
 #include <libxml/xmlreader.h>
 #include <libxml/xmlwriter.h>
@@ -151,33 +152,16 @@ void projConvert(const std::string& projStr, double lon, double lat, double& x,
 
 std::string getEarthsOblateFigure(grib_handle_p gh, long factorToM)
 {
+    // value = scaledValue * 10^-scaleFactor, see code table 3.2
     long majorFactor, minorFactor;
     double majorValue, minorValue;
     grib_get(gh, "scaleFactorOfMajorAxisOfOblateSpheroidEarth", majorFactor);
     grib_get(gh, "scaledValueOfMajorAxisOfOblateSpheroidEarth", majorValue);
-    while (majorFactor > 0) {
-        majorValue *= 10;
-        majorFactor--;
-    }
-    while (majorFactor < 0) {
-        majorValue /= 10;
-        majorFactor++;
-    }
-    // transfer km to m
-    majorFactor *= factorToM;
+    majorValue *= factorToM * std::pow(10., -majorFactor);
 
     grib_get(gh, "scaleFactorOfMinorAxisOfOblateSpheroidEarth", minorFactor);
     grib_get(gh, "scaledValueOfMinorAxisOfOblateSpheroidEarth", minorValue);
-    while (minorFactor > 0) {
-        minorValue *= 10;
-        minorFactor--;
-    }
-    while (minorFactor < 0) {
-        minorValue /= 10;
-        minorFactor++;
-    }
-    // transfer (km|m) to m
-    minorFactor *= factorToM;
+    minorValue *= factorToM * std::pow(10., -minorFactor);
 
     return "+a=" + type2string(majorValue) + " +b=" + type2string(minorValue);
 }
@@ -227,7 +211,7 @@ std::string getEarthsFigure(long edition, grib_handle_p gh)
             earth = "+a=6378137 +b=6356752.314245";
             break; // WGS84
         case 6:
-            earth = "+a=6371229";
+            earth = "+a=6371229 +e=0";
             break;
         case 7:
             earth = getEarthsOblateFigure(gh, 1);
-- 
2.43.0


From 0ee36bd0d2167c9e67445d52b7819184a768cda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:15 +0000
Subject: [PATCH 113/173] fix: GRIB lat-lon increments derived from first and
 last grid point

---
 src/io/grib/GribFileIndex.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 959e774..ed2751c 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -231,6 +231,19 @@ double lonLatResolutionForEdition(long edition)
     return edition == 1 ? 1e-3 : 1e-6;
 }
 
+// distance from first to last longitude in scan direction, taking care of grids crossing 0/360 degree
+double longitudeRange(double startX, double endX, GridDefinition::Orientation orient)
+{
+    double range = endX - startX;
+    if (orient & GridDefinition::ScanStartRight) {
+        if (range > 0)
+            range -= 360;
+    } else if (range < 0) {
+        range += 360;
+    }
+    return range;
+}
+
 GridDefinition getGridDefRegularLL(long edition, grib_handle_p gh)
 {
     long sizeX, sizeY, ijDirectionIncrementGiven;
@@ -245,7 +258,7 @@ GridDefinition getGridDefRegularLL(long edition, grib_handle_p gh)
     double endX, endY;
     grib_get(gh, "longitudeOfLastGridPointInDegrees", endX);
     grib_get(gh, "latitudeOfLastGridPointInDegrees", endY);
-    incrX = (endX - startX) / (sizeX - 1);
+    incrX = longitudeRange(startX, endX, orient) / (sizeX - 1);
     incrY = (endY - startY) / (sizeY - 1);
     if (ijDirectionIncrementGiven != 0) {
         double incrX1, incrY1;
@@ -289,8 +302,8 @@ GridDefinition getGridDefRotatedLL(long edition, grib_handle_p gh)
         double endX, endY;
         grib_get(gh, "longitudeOfLastGridPointInDegrees", endX);
         grib_get(gh, "latitudeOfLastGridPointInDegrees", endY);
-        incrX = (endX - startX) / sizeX;
-        incrY = (endY - startY) / sizeY;
+        incrX = longitudeRange(startX, endX, orient) / (sizeX - 1);
+        incrY = (endY - startY) / (sizeY - 1);
     } else {
         grib_get(gh, "iDirectionIncrementInDegrees", incrX);
         grib_get(gh, "jDirectionIncrementInDegrees", incrY);
-- 
2.43.0


From 1d5896f0c4270b56e8bc41964779c99b9a19113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:15 +0000
Subject: [PATCH 114/173] fix: scanning directions of GRIB grids with metric
 axes

---
 src/io/grib/GribFileIndex.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index ed2751c..d13a895 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -350,6 +350,13 @@ GribMetricDef getGridDefMetric(long /*edition*/, grib_handle_p gh)
         grib_get(gh, "DjInMetres", gmd.incrY);
     }
 
+    // grid-lengths are positive, the direction is given by the scanning mode
+    const GridDefinition::Orientation orient = gribGetGridOrientation(gh);
+    if (orient & GridDefinition::ScanStartRight)
+        gmd.incrX *= -1;
+    if (!(orient & GridDefinition::ScanStartBottom))
+        gmd.incrY *= -1;
+
     return gmd;
 }
 
-- 
2.43.0


From d1f2e31045560999f5e12c5e15ae50353a760940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:15 +0000
Subject: [PATCH 115/173] fix: full precision of projection parameters read
 from GRIB

---
 src/io/grib/GribFileIndex.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index d13a895..ef23fd2 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -316,6 +316,7 @@ GridDefinition getGridDefRotatedLL(long edition, grib_handle_p gh)
     }
 
     ostringstream oss;
+    oss.precision(12);
     oss << "+proj=ob_tran +o_proj=longlat +lon_0=" << normalizeLongitude180(lonRot) << " +o_lat_p=" << (-1 * latRot);
     oss << " " << getEarthsFigure(edition, gh) << " +no_defs";
     string proj = oss.str();
@@ -370,6 +371,7 @@ GridDefinition getGridDefMercator(long edition, grib_handle_p gh)
     grib_get(gh, "orientationOfTheGridInDegrees", orientationOfGrid);
 
     ostringstream oss;
+    oss.precision(12);
     oss << "+proj=merc +lon_0=" << normalizeLongitude180(orientationOfGrid) << " +lat_ts=" << lat_ts << " ";
     oss << getEarthsFigure(edition, gh) << " +no_defs";
     string proj = oss.str();
@@ -396,6 +398,7 @@ GridDefinition getGridDefLambert(long edition, grib_handle_p gh)
     grib_get(gh, "Latin2InDegrees", lat2);
 
     ostringstream oss;
+    oss.precision(12);
     oss << "+proj=lcc +lat_0=" << lat1 << " +lon_0=" << normalizeLongitude180(lonV) << " +lat_1=" << lat1 << " "
         << " +lat_2=" << lat2 << " ";
     oss << getEarthsFigure(edition, gh) << " +no_defs";
@@ -433,6 +436,7 @@ GridDefinition getGridDefPolarStereographic(long edition, grib_handle_p gh)
         lat0 = -90.; // southpole
     }
     ostringstream oss;
+    oss.precision(12);
     oss << "+proj=stere +lat_0=" << lat0 << " +lon_0=" << normalizeLongitude180(orientationOfGrid) << " +lat_ts=" << lat_ts << " ";
     oss << getEarthsFigure(edition, gh) << " +no_defs";
     string proj = oss.str();
-- 
2.43.0


From 44edd60fbcb7de78cea0ba624fb654d5ed4645e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 116/173] fix: latitude of true scale of southern GRIB1
 polar-stereographic grids

---
 src/io/grib/GribFileIndex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index ef23fd2..0b6197b 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -434,6 +434,8 @@ GridDefinition getGridDefPolarStereographic(long edition, grib_handle_p gh)
         lat0 = 90.; // northpole
     } else {
         lat0 = -90.; // southpole
+        if (edition == 1)
+            lat_ts = -60.;
     }
     ostringstream oss;
     oss.precision(12);
-- 
2.43.0


From aaa1f598a9ef0800b85c9fbc60f6e9504d56d552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:07 +0000
Subject: [PATCH 117/173] fix: GRIB fields with adjacent points in j-direction

---
 src/io/grib/GribFileIndex.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 0b6197b..7b40bf7 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -511,6 +511,22 @@ size_t readGribData(ChunkReader_p cr, size_t msg_pos, size_t msg_size, double* d
 #endif
     MIFI_GRIB_CHECK(grib_get_double_array(gh.get(), "values", &data[0], &data_size), 0);
 
+    long jPointsAreConsecutive;
+    grib_get(gh, "jPointsAreConsecutive", jPointsAreConsecutive, 0);
+    if (jPointsAreConsecutive) {
+        // y varies fastest in the message, x in fimex
+        long sizeX, sizeY;
+        grib_get(gh, "Ni", sizeX);
+        grib_get(gh, "Nj", sizeY);
+        if (sizeX > 0 && sizeY > 0 && static_cast<size_t>(sizeX) * sizeY == data_size) {
+            const std::vector<double> yx(&data[0], &data[0] + data_size);
+            for (long x = 0; x < sizeX; ++x) {
+                for (long y = 0; y < sizeY; ++y)
+                    data[y * sizeX + x] = yx[x * sizeY + y];
+            }
+        }
+    }
+
     return data_size;
 }
 
-- 
2.43.0


From 313c5074c8f16a8c86fa3ef2e1725934a27c9061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:17 +0000
Subject: [PATCH 118/173] fix: GRIB variables configured with constantTime

---
 src/io/grib/GribCDMIndexer.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index 62d88e0..d5bc455 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -732,7 +732,8 @@ void GribCDMIndexer::initCreateVarMessages(std::shared_ptr<CDM> cdm, std::shared
         msgs = grib_index_v(size_msgs, invalid_msg);
         const auto& box_time_lev_ens = gm.second;
         for (const auto& items_time_lev_ens : box_time_lev_ens) {
-            const size_t idx_t = find_index(init_->times, items_time_lev_ens.first);
+            // variables with constant time have no time dimension
+            const size_t idx_t = init_->varHas.at(varName).has_time ? find_index(init_->times, items_time_lev_ens.first) : 0;
 
             const auto& box_lev_ens = items_time_lev_ens.second;
             for (const auto& items_lev_ens : box_lev_ens) {
-- 
2.43.0


From 6c214575a360db8dc69013ac4e1e249940eaea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:17 +0000
Subject: [PATCH 119/173] fix: vector components of GRIB readers

---
 src/io/grib/GribCDMIndexer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/grib/GribCDMIndexer.cc b/src/io/grib/GribCDMIndexer.cc
index d5bc455..d9ab570 100644
--- a/src/io/grib/GribCDMIndexer.cc
+++ b/src/io/grib/GribCDMIndexer.cc
@@ -947,7 +947,7 @@ void GribCDMIndexer::initAddVariables(std::shared_ptr<CDM> cdm, std::shared_ptr<
         }
 
         CDMVariable var(varName, vh.second.datatype, shape);
-        if (vh.second.vectorCounterpart.empty()) {
+        if (!vh.second.vectorCounterpart.empty()) {
             var.setAsSpatialVector(vh.second.vectorCounterpart, CDMVariable::vectorDirectionFromString(vh.second.vectorDirection));
         }
         cdm->addVariable(var);
-- 
2.43.0


From 19d600e7afb587c47a7119308da88367c8a8a4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 120/173] fix: errors while encoding GRIB raise exceptions

---
 src/io/grib/GribApiCDMWriter_Impl1.cc        | 6 ++++++
 src/io/grib/GribApiCDMWriter_Impl2.cc        | 6 ++++++
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 4 ++++
 3 files changed, 16 insertions(+)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index ccea04c..896ef95 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -23,6 +23,8 @@
 
 #include "GribApiCDMWriter_Impl1.h"
 
+#include "GribUtils.h"
+
 #include "fimex/CDM.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
@@ -34,6 +36,10 @@
 
 #include <grib_api.h>
 
+// the GRIB_CHECK of grib_api terminates the process, throw instead
+#undef GRIB_CHECK
+#define GRIB_CHECK(error, msg) MIFI_GRIB_CHECK(error, msg)
+
 #include <cmath>
 
 namespace MetNoFimex {
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 8d1f079..c2610e5 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -23,6 +23,8 @@
 
 #include "GribApiCDMWriter_Impl2.h"
 
+#include "GribUtils.h"
+
 #include "fimex/CDM.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
@@ -36,6 +38,10 @@
 
 #include <grib_api.h>
 
+// the GRIB_CHECK of grib_api terminates the process, throw instead
+#undef GRIB_CHECK
+#define GRIB_CHECK(error, msg) MIFI_GRIB_CHECK(error, msg)
+
 #include <cassert>
 #include <cmath>
 
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index c6b524e..5796303 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -41,6 +41,10 @@
 
 #include <grib_api.h>
 
+// the GRIB_CHECK of grib_api terminates the process, throw instead
+#undef GRIB_CHECK
+#define GRIB_CHECK(error, msg) MIFI_GRIB_CHECK(error, msg)
+
 #include <algorithm>
 #include <cassert>
 #include <cerrno>
-- 
2.43.0


From c4cf1fb42d4686d1f96adc21523b1365e29be186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 121/173] fix: fractional rotated poles in GRIB output

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 4 ++--
 src/io/grib/GribApiCDMWriter_Impl2.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 896ef95..cd20232 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -247,8 +247,8 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLat)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLon)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index c2610e5..4a7fc55 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -253,8 +253,8 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongAMeridian", nj), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "iDirectionIncrementInDegrees", fabs(di)), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "jDirectionIncrementInDegrees", fabs(dj)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLat)), "");
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", static_cast<long>(southPoleLon)), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfSouthernPoleInDegrees", southPoleLat), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfSouthernPoleInDegrees", southPoleLon), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", rlat0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", rlon0), "");
             GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfLastGridPointInDegrees", rlatX), "");
-- 
2.43.0


From 054a89e9c2747033347718d45b9443236cb4379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 122/173] fix: round levels in GRIB output

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 2 +-
 src/io/grib/GribApiCDMWriter_Impl2.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index cd20232..4c0e210 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -393,7 +393,7 @@ void GribApiCDMWriter_Impl1::setLevel(const std::string& varName, double levelVa
     } else {
         throw CDMException("could not find vertical Axis " + verticalAxisXPath + " in " + configFile + ", skipping parameter " + varName);
     }
-    GRIB_CHECK(grib_set_long(gribHandle.get(), "level", static_cast<long>(levelValue)), "setting level");
+    GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
 }
 
 DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string& varName, double levelValue, DataPtr inData)
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 4a7fc55..93c216e 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -447,7 +447,7 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
         // hybrid level, no value, just position in pv
         GRIB_CHECK(grib_set_long(gribHandle.get(), "level", levelPos+1), "setting level position");
     } else {
-        GRIB_CHECK(grib_set_long(gribHandle.get(), "level", static_cast<long>(levelValue)), "setting level");
+        GRIB_CHECK(grib_set_long(gribHandle.get(), "level", std::lround(levelValue)), "setting level");
     }
 }
 
-- 
2.43.0


From 1281aa383f84eb15a000b013d4484fec24d61d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 123/173] fix: NaN fill-value in GRIB output

---
 src/io/grib/GribApiCDMWriter_Impl1.cc        | 4 +++-
 src/io/grib/GribApiCDMWriter_Impl2.cc        | 4 +++-
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index 4c0e210..c68c550 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -26,6 +26,7 @@
 #include "GribUtils.h"
 
 #include "fimex/CDM.h"
+#include "fimex/CDMconstants.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
 #include "fimex/MathUtils.h"
@@ -401,7 +402,8 @@ DataPtr GribApiCDMWriter_Impl1::handleTypeScaleAndMissingData(const std::string&
     LOG4FIMEX(logger, Logger::DEBUG, "handleTypeScaleAndMissingData(" << varName << ", " << levelValue << ")");
     const CDM& cdm = cdmReader->getCDM();
     double inFillValue = cdm.getFillValue(varName);
-    double outFillValue = inFillValue;
+    // NaN cannot be used as missingValue in grib
+    double outFillValue = std::isnan(inFillValue) ? MIFI_FILL_DOUBLE : inFillValue;
     GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
     // need bitmap to represent missing values in grib1
     GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 93c216e..a6d836c 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -26,6 +26,7 @@
 #include "GribUtils.h"
 
 #include "fimex/CDM.h"
+#include "fimex/CDMconstants.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
 #include "fimex/MathUtils.h"
@@ -456,7 +457,8 @@ DataPtr GribApiCDMWriter_Impl2::handleTypeScaleAndMissingData(const std::string&
     LOG4FIMEX(logger, Logger::DEBUG, "handleTypeScaleAndMissingData(" << varName << ", " << levelValue << ")");
     const CDM& cdm = cdmReader->getCDM();
     double inFillValue = cdm.getFillValue(varName);
-    double outFillValue = inFillValue;
+    // NaN cannot be used as missingValue in grib
+    double outFillValue = std::isnan(inFillValue) ? MIFI_FILL_DOUBLE : inFillValue;
     // missingValue will not be encoded in message, but in a separate bitmap
     GRIB_CHECK(grib_set_double(gribHandle.get(), "missingValue", outFillValue), "setting missing value");
     GRIB_CHECK(grib_set_long(gribHandle.get(), "bitmapPresent", 1), "setting bitmap");
diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 5796303..6df1c0e 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -311,7 +311,9 @@ void GribApiCDMWriter_ImplAbstract::run()
                                     auto da = data->asDouble();
                                     bool writeData = true;
                                     if (omitEmptyFields) {
-                                        const size_t countMissing = count(&da[0], &da[0] + data->size(), cdm.getFillValue(*var));
+                                        const double fill = cdm.getFillValue(*var);
+                                        const size_t countMissing =
+                                            count_if(&da[0], &da[0] + data->size(), [fill](double v) { return v == fill || std::isnan(v); });
                                         writeData = (countMissing < data->size());
                                     }
                                     if (writeData) {
-- 
2.43.0


From e95bbfa8c1509a9033b933d94c8603822e8541b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 124/173] fix: hybrid level coefficients in GRIB output when
 the surface is the first level

---
 src/io/grib/GribApiCDMWriter_Impl2.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index a6d836c..e47b70b 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -429,8 +429,9 @@ void GribApiCDMWriter_Impl2::setLevel(const std::string& varName, double levelVa
                 double* pvAp = &pv[0];
                 double* pvB = &pv[n+1];
                 for (int j = 0, i = i0; j < n; j += 1, i += di) {
-                    pvAp[i] = 2*apD[i]-pvAp[i-di];
-                    pvB[i] = 2*bD[i]-pvB[i-di];
+                    const int ml = (di > 0) ? i - 1 : i; // mid-level between border i and i-di
+                    pvAp[i] = 2*apD[ml]-pvAp[i-di];
+                    pvB[i] = 2*bD[ml]-pvB[i-di];
                 }
 
                 GRIB_CHECK(grib_set_long(gribHandle.get(), "PVPresent", 1), 0);
-- 
2.43.0


From 8ce507661350135bb3154c0532d502f1b23035cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:44 +0000
Subject: [PATCH 125/173] fix: step units of GRIB output

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 24 ++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 6df1c0e..1208149 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -82,6 +82,20 @@ public:
     virtual ~UnScale() {}
 };
 
+namespace {
+//! coarsest of hours, minutes and seconds (as supported by ecCodes) which can represent all steps exactly
+std::string commonStepUnits(const long long* seconds, size_t n)
+{
+    const auto allMultiplesOf = [&](long long unit) { return std::all_of(seconds, seconds + n, [&](long long s) { return s % unit == 0; }); };
+    if (allMultiplesOf(3600))
+        return "h";
+    else if (allMultiplesOf(60))
+        return "m";
+    else
+        return "s";
+}
+} // namespace
+
 GribApiCDMWriter_ImplAbstract::GribApiCDMWriter_ImplAbstract(int gribVersion, CDMReader_p cdmReader, const std::string& outputFile, const XMLInput& config)
     : CDMWriter(cdmReader, outputFile)
     , gribVersion(gribVersion)
@@ -216,7 +230,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                 if ((*varSysIt)->hasAxisType(CoordinateAxis::ReferenceTime)) {
                     CoordinateAxis_cp rtAxis = (*varSysIt)->findAxisOfType(CoordinateAxis::ReferenceTime);
                     DataPtr refTimesD = cdmReader->getScaledDataInUnit(rtAxis->getName(), "seconds since 1970-01-01 00:00:00");
-                    auto refs = refTimesD->asUInt64();
+                    auto refs = refTimesD->asInt64();
                     /* do something with the refTimes and select the wanted Position */
                     size_t refTimePos = 0; /* or whatever you select between 0 (default) and refTimes->size()-1 */
                     sb.setReferenceTimePos(refTimePos);
@@ -241,9 +255,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                 TimeUnit tu(ss.str());
                 std::transform(&timesA[0], &timesA[0] + times->size(), std::back_inserter(vTimes),
                                std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
-                if (times->size() > 1) {
-                    stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
-                }
+                stepUnit = refTimes.at(0).invalid() ? "h" : commonStepUnits(&timesA[0], times->size());
                 /* select the first startTime and the size for the time-dimension */
                 sb.setTimeStartAndSize(0, 1); // default is all of ReferenceTimePos
             } else {
@@ -286,9 +298,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                     TimeUnit tu(ss.str());
                     transform(&timesA[0], &timesA[0] + times->size(), back_inserter(vTimes),
                               std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
-                    if (times->size() > 1) {
-                        stepUnit = gribSeconds2stepUnits(timesA[1] - timesA[0]);
-                    }
+                    stepUnit = commonStepUnits(&timesA[0], times->size());
                 }
                 size_t vtPos = 0;
                 for (vector<FimexTime>::iterator vTime = vTimes.begin(); vTime != vTimes.end(); ++vTime, ++vtPos) {
-- 
2.43.0


From 94736188f54bfecb881859f5203ada712c469bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:13 +0000
Subject: [PATCH 126/173] fix: polar-stereographic grids in GRIB output

---
 src/io/grib/GribApiCDMWriter_Impl1.cc | 26 ++++++++++++++++++++++----
 src/io/grib/GribApiCDMWriter_Impl2.cc | 24 ++++++++++++++++++++----
 2 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl1.cc b/src/io/grib/GribApiCDMWriter_Impl1.cc
index c68c550..0a17e54 100644
--- a/src/io/grib/GribApiCDMWriter_Impl1.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl1.cc
@@ -118,6 +118,15 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
                     orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
                 }
             }
+            CDM::AttrVec::iterator parallelIt = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("standard_parallel"));
+            CDM::AttrVec::iterator scaleIt = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
+            if (parallelIt != projAttrs.end()) {
+                latitudeWhereDxAndDyAreSpecifiedInDegrees = std::fabs(parallelIt->getData()->asDouble()[0]);
+            } else if (scaleIt != projAttrs.end()) {
+                latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scaleIt->getData()->asDouble()[0] - 1));
+            }
+            CDM::AttrVec::iterator originIt = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("latitude_of_projection_origin"));
+            const bool southPole = (originIt != projAttrs.end() && originIt->getData()->asDouble()[0] < 0);
             std::string polar_stereographic("polar_stereographic");
             size_t ps_size = polar_stereographic.size();
             GRIB_CHECK(grib_set_string(gribHandle.get(), "typeOfGrid", polar_stereographic.c_str(), &ps_size), "");
@@ -129,17 +138,26 @@ void GribApiCDMWriter_Impl1::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             // grib1 doesn't allow to set double values for this! // (grib2 not checked)
             auto xArray = xData->asDouble();
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", static_cast<long>(xArray[1] - xArray[0])), "");
+            const double dx = xArray[1] - xArray[0];
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "DxInMetres", std::lround(std::fabs(dx))), "");
             auto yArray = yData->asDouble();
-            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", static_cast<long>(yArray[1] - yArray[0])), "");
+            const double dy = yArray[1] - yArray[0];
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "DyInMetres", std::lround(std::fabs(dy))), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees", cdmReader->getData(latitude)->asDouble()[0]), "");
-                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees", cdmReader->getData(longitude)->asDouble()[0]), "");
+                GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeOfFirstGridPointInDegrees",
+                                           cdmReader->getScaledDataInUnit(latitude, "degree")->asDouble()[0]),
+                           "");
+                GRIB_CHECK(grib_set_double(gribHandle.get(), "longitudeOfFirstGridPointInDegrees",
+                                           cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]),
+                           "");
             } else {
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
             GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCenterFlag", southPole ? 128 : 0), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
             if (std::fabs(latitudeWhereDxAndDyAreSpecifiedInDegrees - 60.) > 1.e-5) {
                 LOG4FIMEX(logger, Logger::ERROR,
                           "grib1 does not support polar_stereographic with lat_ts != 60degree, got " << latitudeWhereDxAndDyAreSpecifiedInDegrees);
diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index e47b70b..16eef11 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -104,7 +104,7 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             // straight_vertical_longitude_from_pole (polar_stereographic), longitude_of_projection_origin (stereographic)
             double latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
             double orientationOfTheGridInDegrees = 0.;
-            if (projection == "polar_stereograhpic") {
+            if (projection == "polar_stereographic") {
                 LOG4FIMEX(logger, Logger::INFO, "polar_stereographic projection for" << varName);
                 // get lat_ts fixed
                 latitudeWhereDxAndDyAreSpecifiedInDegrees = 90.;
@@ -140,6 +140,15 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
                     orientationOfTheGridInDegrees = ait->getData()->asDouble()[0];
                 }
             }
+            CDM::AttrVec::iterator parallelIt = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("standard_parallel"));
+            CDM::AttrVec::iterator scaleIt = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("scale_factor_at_projection_origin"));
+            if (parallelIt != projAttrs.end()) {
+                latitudeWhereDxAndDyAreSpecifiedInDegrees = std::fabs(parallelIt->getData()->asDouble()[0]);
+            } else if (scaleIt != projAttrs.end()) {
+                latitudeWhereDxAndDyAreSpecifiedInDegrees = rad_to_deg(asin(2 * scaleIt->getData()->asDouble()[0] - 1));
+            }
+            CDM::AttrVec::iterator originIt = find_if(projAttrs.begin(), projAttrs.end(), CDMNameEqual("latitude_of_projection_origin"));
+            const bool southPole = (originIt != projAttrs.end() && originIt->getData()->asDouble()[0] < 0);
             orientationOfTheGridInDegrees = clamp_lon(orientationOfTheGridInDegrees);
             std::string polar_stereographic("polar_stereographic");
             size_t ps_size = polar_stereographic.size();
@@ -151,9 +160,11 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongXAxis", xData->size()), "");
             GRIB_CHECK(grib_set_long(gribHandle.get(), "numberOfPointsAlongYAxis", yData->size()), "");
             const auto xArray = xData->asDouble();
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", (xArray[1] - xArray[0])), "");
+            const double dx = xArray[1] - xArray[0];
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "DxInMetres", std::fabs(dx)), "");
             const auto yArray = yData->asDouble();
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", (yArray[1] - yArray[0])), "");
+            const double dy = yArray[1] - yArray[0];
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "DyInMetres", std::fabs(dy)), "");
             std::string latitude, longitude;
             if (cdm.getLatitudeLongitude(varName, latitude, longitude)) {
                 double lon = clamp_lon(cdmReader->getScaledDataInUnit(longitude, "degree")->asDouble()[0]);
@@ -164,7 +175,12 @@ void GribApiCDMWriter_Impl2::setProjection(const std::string& varName)
                 throw CDMException("unable to find latitude/longitude for variable " + varName);
             }
             GRIB_CHECK(grib_set_double(gribHandle.get(), "orientationOfTheGridInDegrees", orientationOfTheGridInDegrees), "");
-            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees", latitudeWhereDxAndDyAreSpecifiedInDegrees), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "projectionCentreFlag", southPole ? 128 : 0), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "jScansPositively", dy < 0 ? 0 : 1), "");
+            GRIB_CHECK(grib_set_long(gribHandle.get(), "iScansNegatively", dx < 0 ? 1 : 0), "");
+            GRIB_CHECK(grib_set_double(gribHandle.get(), "latitudeWhereDxAndDyAreSpecifiedInDegrees",
+                                       southPole ? -latitudeWhereDxAndDyAreSpecifiedInDegrees : latitudeWhereDxAndDyAreSpecifiedInDegrees),
+                       "");
         } else if (projection == "latitude_longitude") {
             LOG4FIMEX(logger, Logger::INFO, "latlong projection for" << varName);
             std::string latitude, longitude;
-- 
2.43.0


From 528e2eb21d6b9451213d65f3e65236d9c170875b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:49 +0000
Subject: [PATCH 127/173] fix: escape the url when writing a grbml index

---
 src/binSrc/fiIndexGribs.cc   | 2 +-
 src/io/grib/GribFileIndex.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/binSrc/fiIndexGribs.cc b/src/binSrc/fiIndexGribs.cc
index 9f1ebe1..43e579a 100644
--- a/src/binSrc/fiIndexGribs.cc
+++ b/src/binSrc/fiIndexGribs.cc
@@ -109,7 +109,7 @@ GribIndexWriter::GribIndexWriter(const std::string& output, const std::string& u
     : os(output, std::ios::binary)
 {
     os << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" << std::endl;
-    os << "<gribFileIndex url=\"" << url << "\" xmlns=\"http://www.met.no/schema/fimex/gribFileIndex\">" << std::endl;
+    os << "<gribFileIndex url=\"" << escapeXmlString(url) << "\" xmlns=\"http://www.met.no/schema/fimex/gribFileIndex\">" << std::endl;
 }
 
 GribIndexWriter::~GribIndexWriter()
diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index 7b40bf7..e923330 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -1322,7 +1322,7 @@ std::ostream& operator<<(std::ostream& os, const GribFileMessage& gfm)
 std::ostream& operator<<(std::ostream& os, const GribFileIndex& gfm)
 {
     os << "<?xml version=\"1.0\" encoding=\"UTF-8\"?>" << endl;
-    os << "<gribFileIndex url=\"" << gfm.getUrl() << "\" xmlns=\"http://www.met.no/schema/fimex/gribFileIndex\">" << endl;
+    os << "<gribFileIndex url=\"" << escapeXmlString(gfm.getUrl()) << "\" xmlns=\"http://www.met.no/schema/fimex/gribFileIndex\">" << endl;
     for (const auto& msg : gfm.listMessages()) {
         os << msg;
     }
-- 
2.43.0


From 90241ee71db8de848b6ffcdfca505803b41f3698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:49 +0000
Subject: [PATCH 128/173] fix: string arrays read from a protobuf CDM

---
 src/ProtobufCDM.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ProtobufCDM.cc b/src/ProtobufCDM.cc
index 55e295d..202bb27 100644
--- a/src/ProtobufCDM.cc
+++ b/src/ProtobufCDM.cc
@@ -164,7 +164,7 @@ DataPtr readData(const fimex_index::CDMData& fdata, const fimex_index::CDM& fcdm
         if (fdata.strings_size() > 0) {
             auto strings = make_shared_array<std::string>(fdata.strings_size());
             for (size_t fsi = 0; fsi < fdata.strings_size(); ++fsi) {
-                strings[fsi] = fcdm.strings(fsi);
+                strings[fsi] = fcdm.strings(fdata.strings(fsi));
             }
             return createData(fdata.strings_size(), strings);
         } else {
-- 
2.43.0


From 1817ca73c5fe617f91616064d2304fd567684cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:47 +0000
Subject: [PATCH 129/173] fix: undefined slices in CDMReader::getData

---
 src/CDMReader.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMReader.cc b/src/CDMReader.cc
index 17cf906..c8a714e 100644
--- a/src/CDMReader.cc
+++ b/src/CDMReader.cc
@@ -158,6 +158,8 @@ DataPtr CDMReader::getData(const std::string& varName)
             DataPtr data = createData(variable.getDataType(), uDimSize*sliceSize);
             for (size_t i = 0; i < uDimSize; i++) {
                 DataPtr slice = getDataSlice(varName, i);
+                if (slice->size() == 0 && sliceSize != 0) // no data at this position
+                    slice = createData(variable.getDataType(), sliceSize, cdm_->getFillValue(varName));
                 data->setValues(i*sliceSize, *slice, 0, sliceSize);
             }
             return data;
-- 
2.43.0


From 76f3f1149faab47ec9a7157cd983636c386d72a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:47 +0000
Subject: [PATCH 130/173] fix: bounds of the time position when reading felt

---
 src/io/felt/FeltCDMReader2.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index eeaa9dc..81d4642 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -628,7 +628,7 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
         return getDataSliceFromMemory(variable, unLimDimPos);
     }
     // only time can be unLimDim
-    if (unLimDimPos > timeVec.size()) {
+    if (cdm_->hasUnlimitedDim(variable) && unLimDimPos >= timeVec.size()) {
         throw CDMException("requested time outside data-region");
     }
 
-- 
2.43.0


From f29b2130b1eca0d367913d1138a22ad4dfee306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:47 +0000
Subject: [PATCH 131/173] fix: reading felt ensembles with only one member

---
 src/io/felt/FeltCDMReader2.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index 81d4642..3353112 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -701,6 +701,14 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
                     }
                 }
                 layerVals = ensembleLayerVals;
+            } else {
+                // ensemble with only one member, i.e. without ensemble dimension
+                const vector<short> ensembles = fa->getEnsembleMembers();
+                if (ensembles.size() == 1) {
+                    for (size_t i = 0; i < layerVals.size(); i++) {
+                        layerVals.at(i).second = ensembles.front();
+                    }
+                }
             }
 
             size_t dataCurrentPos = 0;
-- 
2.43.0


From e41831bff5dad5a73b490165e3130b63c266406a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:47 +0000
Subject: [PATCH 132/173] fix: rounding of felt grid parameters with internal
 scaling

---
 src/io/felt/FeltGridDefinition.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/felt/FeltGridDefinition.cpp b/src/io/felt/FeltGridDefinition.cpp
index aea9e7c..0a11bf4 100644
--- a/src/io/felt/FeltGridDefinition.cpp
+++ b/src/io/felt/FeltGridDefinition.cpp
@@ -121,7 +121,7 @@ void scaleGridInfoSecond_(std::array<float, 6>& gridPar, int parsUsed, const std
 
     for (int i = 0; i < parsUsed; ++i) {
         int i3 = i * 3 + 2; // 2 offset
-        float scale = std::pow(10., extraData.at(i3));
+        const double scale = std::pow(10., extraData.at(i3));
         int iGrid1 = extraData.at(i3 + 1);
         int iGrid2 = extraData.at(i3 + 2);
 
-- 
2.43.0


From 43ac0fcb498147b73a3aa245215ce3c34ab5fb70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:57 +0000
Subject: [PATCH 133/173] fix: WRF reference time and index axes have the type
 of their data

---
 src/coordSys/WRFCoordSysBuilder.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 2f221e1..90cf5a8 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -386,7 +386,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
         // ref-time
         string reftime = "forecast_reference_time";
         if (!cdm.hasVariable(reftime)) {
-            cdm.addVariable(CDMVariable(reftime, CDM_INT, vector<string>(0)));
+            cdm.addVariable(CDMVariable(reftime, CDM_FLOAT, vector<string>(0)));
             string ref = cdm.getAttribute(cdm.globalAttributeNS(),
                     "SIMULATION_START_DATE").getStringValue();
             vector<string> refdatetime = tokenize(ref, "_");
@@ -435,7 +435,7 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
                         if (!cdm.hasVariable(*dimIt)) {
                             // add a dimension without a variable with a 'virtual' variable
                             vector<string> myshape(1, *dimIt);
-                            cdm.addVariable(CDMVariable(*dimIt, CDM_INT, myshape));
+                            cdm.addVariable(CDMVariable(*dimIt, CDM_FLOAT, myshape));
                             size_t dimSize = cdm.getDimension(*dimIt).getLength();
                             auto vals = make_shared_array<float>(dimSize);
                             for (size_t i = 0; i < dimSize; i++) {
-- 
2.43.0


From a7909f9011dc544b666d6201f5d48b05aecd6149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:26 +0000
Subject: [PATCH 134/173] fix: auxiliary coordinates with the axis type of a
 dimension do not hide the coordinate system

---
 src/coordSys/CF1_xCoordSysBuilder.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/coordSys/CF1_xCoordSysBuilder.cc b/src/coordSys/CF1_xCoordSysBuilder.cc
index 5c67ffc..185798f 100644
--- a/src/coordSys/CF1_xCoordSysBuilder.cc
+++ b/src/coordSys/CF1_xCoordSysBuilder.cc
@@ -324,6 +324,7 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
     // of axes, CoordinateSystem's less operator makes sure of that in the set
     // the coordinateSystems here are intermediate, since the axes still don't have types
     map<string, CoordinateSystem_p> coordSystems;
+    map<string, string> varCoordSysIds; // variable-name -> id of coordinate-system made for the variable
     {
         const CDM::VarVec& vars = cdm.getVariables();
         for (CDM::VarVec::const_iterator varIt = vars.begin(); varIt != vars.end(); ++varIt) {
@@ -341,12 +342,16 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
                             if (coords.find(foundAxis->second->getName()) == coords.end()) {
                                 // dimension
                                 cs->setAxis(foundAxis->second);
-                            } else {
-                                // coordinates
-                                cs->setAuxiliaryAxis(foundAxis->second);
                             }
                         }
                     }
+                    // coordinates after all dimensions, since a coordinate is dropped if a dimension has the same axis type
+                    for (set<string>::iterator coord = coords.begin(); coord != coords.end(); ++coord) {
+                        map<string, CoordinateAxis_p>::iterator foundAxis = coordinateAxes.find(*coord);
+                        if (foundAxis != coordinateAxes.end())
+                            cs->setAuxiliaryAxis(foundAxis->second);
+                    }
+                    varCoordSysIds[varIt->getName()] = cs->id();
                     coordSystems.insert(make_pair(cs->id(), cs));
                 }
             }
@@ -372,6 +377,10 @@ CoordinateSystem_cp_v CF1_xCoordSysBuilder::listCoordinateSystems(CDM& cdm)
                 // all varAxes part of csAxes
                 bool is_cs_for = includes(csAxes.begin(), csAxes.end(),
                                           varAxes.begin(), varAxes.end());
+                // coordinates dropped from the variable's own coordinate-system don't matter
+                map<string, string>::const_iterator ownId = varCoordSysIds.find(varIt->getName());
+                if (ownId != varCoordSysIds.end() && ownId->second == cit->first)
+                    is_cs_for = true;
                 cs->setComplete(varIt->getName(), is_complete);
                 cs->setCSFor(varIt->getName(), is_cs_for);
             }
-- 
2.43.0


From be0fc9ca9a1d04295b1477389816408d5bda51b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:01 +0000
Subject: [PATCH 135/173] fix: WRF domain centre is given in degrees

---
 src/coordSys/WRFCoordSysBuilder.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 90cf5a8..7d032e0 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -158,13 +158,9 @@ static CoordinateSystem_cp_v wrfListCoordinateSystems(CDM& cdm, CDMReader_p read
     proj4 << " +R=" << R0 << " +no_defs";
     //cerr << proj4.str() << endl;
     Projection_p proj = Projection::createByProj4(proj4.str());
-    double centerX = deg_to_rad(centralLon);
-    double centerY = deg_to_rad(centralLat);
+    double centerX = centralLon; // reproject_values uses degrees
+    double centerY = centralLat;
     reproject::reproject_values(MIFI_WGS84_LATLON_PROJ4, proj4.str(), &centerX, &centerY, 1);
-    if (isLatLon) {
-        centerX = rad_to_deg(centerX);
-        centerY = rad_to_deg(centerY);
-    }
 
     // TODO: the following variables might be called uninitialized when the coordinate-system
     //       is build twice
-- 
2.43.0


From 676d9d0319209149cf5a6419fbc6fafe36a24f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:23 +0000
Subject: [PATCH 136/173] fix: FillWriter compares complete shapes

---
 src/FillWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 6b54abe..42a8388 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -217,7 +217,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             oTestShape.erase(std::remove(oTestShape.begin(), oTestShape.end(), fit.outputDim), oTestShape.end());
         }
         // simple test of equal shapes (omitting translated dims)
-        if (!equal(iTestShape.begin(), iTestShape.end(), oTestShape.begin())) {
+        if (iTestShape != oTestShape) {
             LOG4FIMEX(logger, Logger::WARN, "variable '" << iv.getName() << "' has different shape: omitting");
             continue;
         }
-- 
2.43.0


From 619c10d95a40d7bd1a0bb2b75d85abaabdad13be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:58 +0000
Subject: [PATCH 137/173] fix: exceptions do not leave FillWriter's parallel
 loop

---
 src/FillWriter.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 42a8388..30f11b6 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -35,6 +35,7 @@
 #include "fimex/XMLUtils.h"
 
 #include <algorithm>
+#include <exception>
 #include <map>
 #include <set>
 #include <utility>
@@ -190,10 +191,11 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
     // process variables
     const auto iVars = iCdm.getVariables();
     const int varVecSize = iVars.size();
+    std::exception_ptr failure; // exceptions must not leave the parallel loop
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
-    for (int iVar = 0; iVar < varVecSize; iVar++) {
+    for (int iVar = 0; iVar < varVecSize; iVar++) try {
         const auto& iv = iVars.at(iVar);
         LOG4FIMEX(logger, Logger::DEBUG, "processing variable  '" << iv.getName() << "'");
         if (!oCdm.hasVariable(iv.getName())) {
@@ -275,7 +277,15 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
             DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
             io->putDataSlice(iv.getName(), slice.second, inData);
         }
+    } catch (...) {
+#ifdef _OPENMP
+#pragma omp critical (mifi_fillwriter_failure)
+#endif
+        if (!failure)
+            failure = std::current_exception();
     }
+    if (failure)
+        std::rethrow_exception(failure);
     if (!unusableIDims.empty())
         throw CDMException("FillWriter finished with errors in dimension-mapping");
 }
-- 
2.43.0


From 7506f5031d2aa2e6feede1e28b3857d8bdfc1a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:47 +0000
Subject: [PATCH 138/173] fix: writing to a NetCDF reader-writer updates the
 unlimited dimension

---
 src/FillWriter.cc                 |  2 +-
 src/io/netcdf/NetCDF_CDMReader.cc | 14 ++++++++++++++
 src/io/netcdf/NetCDF_CDMReader.h  |  2 ++
 3 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 30f11b6..472cf88 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -119,7 +119,7 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
     const auto fwts = readConfigFile(configFileName);
 
     const CDM& iCdm = in->getCDM();
-    const CDM& oCdm = io->getCDM();
+    const CDM oCdm = io->getCDM(); // copy, writing might extend the unlimited dimension
 
     // find the dimensions which are different
     // [dimensionName][inputPos] = outputPos
diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index a47e18e..c94932b 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -240,6 +240,7 @@ void NetCDF_CDMReader::putDataSlice(const std::string& varName, size_t unLimDimP
                   "ncPutValues for " << varName << ": (" << join(start.begin(), start.end()) << ") size (" << join(count.begin(), count.end()) << ")");
     }
     ncPutValues(data, ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start.data(), count.data());
+    updateUnlimitedLength();
 }
 
 void NetCDF_CDMReader::putDataSlice(const std::string& varName, const SliceBuilder& sb, const DataPtr data)
@@ -275,6 +276,19 @@ void NetCDF_CDMReader::putDataSlice(const std::string& varName, const SliceBuild
 
     OmpScopedLock lock(Nc::getMutex());
     ncPutValues(data, ncFile->ncId, varid, dtype, static_cast<size_t>(dimLen), start.data(), count.data());
+    updateUnlimitedLength();
+}
+
+void NetCDF_CDMReader::updateUnlimitedLength()
+{
+    if (const CDMDimension* unlimDim = cdm_->getUnlimitedDim()) {
+        int dimId;
+        size_t dimLen;
+        ncCheck(nc_inq_dimid(ncFile->ncId, unlimDim->getName().c_str(), &dimId));
+        ncCheck(nc_inq_dimlen(ncFile->ncId, dimId, &dimLen));
+        if (dimLen != unlimDim->getLength())
+            cdm_->getDimension(unlimDim->getName()).setLength(dimLen);
+    }
 }
 
 void NetCDF_CDMReader::addAttribute(const std::string& varName, int varid, const string& attName)
diff --git a/src/io/netcdf/NetCDF_CDMReader.h b/src/io/netcdf/NetCDF_CDMReader.h
index 41e5459..fb9965f 100644
--- a/src/io/netcdf/NetCDF_CDMReader.h
+++ b/src/io/netcdf/NetCDF_CDMReader.h
@@ -58,6 +58,8 @@ public:
     void putDataSlice(const std::string& varName, const SliceBuilder& sb, const DataPtr data) override;
 
 private:
+    // update the length of the unlimited dimension after writing, call with locked netcdf mutex
+    void updateUnlimitedLength();
     void addAttribute(const std::string& varName, int varid, const std::string& attName);
 };
 
-- 
2.43.0


From c0e333a09c72e16074c7efcb58c428b15e8a8bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 139/173] fix: FillWriter converts between different packings

---
 src/FillWriter.cc | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/FillWriter.cc b/src/FillWriter.cc
index 472cf88..bcd51cc 100644
--- a/src/FillWriter.cc
+++ b/src/FillWriter.cc
@@ -110,6 +110,16 @@ std::string findFirstUnusableDimension(const std::set<std::string>& unusableDims
     }
     return std::string();
 }
+
+//! check if the stored values of a variable have the same meaning in both models
+bool hasSamePacking(const CDM& iCdm, const CDM& oCdm, const std::string& varName)
+{
+    const CDMDataType iType = iCdm.getVariable(varName).getDataType(), oType = oCdm.getVariable(varName).getDataType();
+    if (iType == CDM_STRING || iType == CDM_STRINGS || oType == CDM_STRING || oType == CDM_STRINGS)
+        return true; // never packed
+    return iCdm.getScaleFactor(varName) == oCdm.getScaleFactor(varName) && iCdm.getAddOffset(varName) == oCdm.getAddOffset(varName) &&
+           iCdm.getFillValue(varName) == oCdm.getFillValue(varName);
+}
 } // namespace
 
 FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configFileName)
@@ -272,10 +282,13 @@ FillWriter::FillWriter(CDMReader_p in, CDMReaderWriter_p io, std::string configF
         }
 
         LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with " << slices.size() << " slices");
+        const bool samePacking = hasSamePacking(iCdm, oCdm, iv.getName());
         for (const auto& slice : slices) {
             LOG4FIMEX(logger, Logger::DEBUG, "processing " << iv.getName() << " with:  " << endl << slice.first << endl << slice.second);
-            DataPtr inData = in->getDataSlice(iv.getName(), slice.first);
-            io->putDataSlice(iv.getName(), slice.second, inData);
+            if (samePacking)
+                io->putDataSlice(iv.getName(), slice.second, in->getDataSlice(iv.getName(), slice.first));
+            else
+                io->putScaledDataSlice(iv.getName(), slice.second, in->getScaledDataSlice(iv.getName(), slice.first));
         }
     } catch (...) {
 #ifdef _OPENMP
-- 
2.43.0


From 96f8749699b801cb603438d706792b1db27c202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:04 +0000
Subject: [PATCH 140/173] fix: report slicebuilder errors as error codes in the
 C-API

---
 src/c_fimex.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 701d55d..c7d14af 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -353,7 +353,10 @@ int mifi_slicebuilder_ndims(mifi_slicebuilder* sb)
 static std::string do_mifi_slicebuilder_dimname(mifi_slicebuilder* sb, int pos)
 {
     if (sb != 0) {
-        return sb->sb_->getDimensionNames().at(pos);
+        const vector<string> names = sb->sb_->getDimensionNames();
+        if (pos >= 0 && static_cast<size_t>(pos) < names.size()) {
+            return names[pos];
+        }
     }
     return "";
 }
@@ -424,8 +427,12 @@ int mifi_slicebuilder_get_proj4_cpy(mifi_slicebuilder* sb, char* proj4, int n)
 int mifi_slicebuilder_set_dim_start_size(mifi_slicebuilder* sb, const char* dimName, unsigned int start, unsigned int size)
 {
     if (sb != 0) {
-        sb->sb_->setStartAndSize(dimName, start, size);
-        return 0;
+        try {
+            sb->sb_->setStartAndSize(dimName, start, size);
+            return 0;
+        } catch (exception& ex) {
+            LOG4FIMEX(logger, Logger::WARN, "error in mifi_slicebuilder_set_dim_start_size: " << ex.what());
+        }
     }
     return -1;
 }
-- 
2.43.0


From 1bb2ab72f3a285baec3f37810d2494b912433e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 141/173] fix: return empty name for invalid positions in the
 C-API, as documented

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index c7d14af..ed22fe0 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -218,7 +218,7 @@ const char* mifi_get_variable_name(mifi_cdm_reader* reader, size_t pos)
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_variable_name: " << ex.what());
     }
-    return 0;
+    return EMPTY_C_STR;
 }
 
 unsigned int mifi_get_variable_type(mifi_cdm_reader* reader, const char* varName)
@@ -250,7 +250,7 @@ const char* mifi_get_dimension_name(mifi_cdm_reader* reader, size_t pos)
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_get_dimension_name: " << ex.what());
     }
-    return 0;
+    return EMPTY_C_STR;
 }
 
 size_t mifi_get_dimension_size(mifi_cdm_reader* reader, const char* dimName)
-- 
2.43.0


From 1dddd2f48ddf3d400ba0a2c3cfc86144bdfb2d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:12:39 +0000
Subject: [PATCH 142/173] fix: mifi_new_slicebuilder uses the dimension order
 of the requested variable

---
 include/fimex/CoordinateSystemSliceBuilder.h | 4 ++++
 src/CoordinateSystemSliceBuilder.cc          | 7 ++++++-
 src/c_fimex.cc                               | 2 +-
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/fimex/CoordinateSystemSliceBuilder.h b/include/fimex/CoordinateSystemSliceBuilder.h
index 4602377..2699763 100644
--- a/include/fimex/CoordinateSystemSliceBuilder.h
+++ b/include/fimex/CoordinateSystemSliceBuilder.h
@@ -45,6 +45,10 @@ class CoordinateSystemSliceBuilder: public MetNoFimex::SliceBuilder
 {
 public:
     CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs);
+    /**
+     * SliceBuilder with the dimensions (and their order) of a specific variable of the coordinate-system
+     */
+    CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName);
     virtual ~CoordinateSystemSliceBuilder() {}
 
     /**
diff --git a/src/CoordinateSystemSliceBuilder.cc b/src/CoordinateSystemSliceBuilder.cc
index 7e9b8e5..0f174c5 100644
--- a/src/CoordinateSystemSliceBuilder.cc
+++ b/src/CoordinateSystemSliceBuilder.cc
@@ -52,7 +52,12 @@ const std::string& getCSVarFromCDM_(const CDM& cdm, CoordinateSystem_cp cs)
 }
 
 CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs)
-    : SliceBuilder(cdm, getCSVarFromCDM_(cdm, cs))
+    : CoordinateSystemSliceBuilder(cdm, cs, getCSVarFromCDM_(cdm, cs))
+{
+}
+
+CoordinateSystemSliceBuilder::CoordinateSystemSliceBuilder(const CDM& cdm, CoordinateSystem_cp cs, const std::string& varName)
+    : SliceBuilder(cdm, varName)
     , cs_(cs)
 {
     setReferenceTimePos(0); // referenceTime is allways set
diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index ed22fe0..8bb3539 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -320,7 +320,7 @@ mifi_slicebuilder* mifi_new_slicebuilder(mifi_cdm_reader* reader, const char* va
     try {
         CoordinateSystem_cp cs = findCompleteCoordinateSystemFor(reader->csVec_, varName);
         if (cs.get()) {
-            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs));
+            std::shared_ptr<SliceBuilder> sb(new CoordinateSystemSliceBuilder(reader->reader_->getCDM(), cs, varName));
             return new mifi_slicebuilder(sb, cs);
         } else {
             std::shared_ptr<SliceBuilder> sb(new SliceBuilder(reader->reader_->getCDM(), varName));
-- 
2.43.0


From c3bfd599311e594c58cb7b62e08192a21b6f5dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:09 +0000
Subject: [PATCH 143/173] fix: mifi_set_callback_double with another reader
 returns an error instead of crashing

---
 src/c_fimex.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 8bb3539..090bb3b 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -187,8 +187,8 @@ int mifi_set_callback_double(mifi_cdm_reader* c_reader, const char* varName, dou
 {
     try {
         CDMReader_p reader = c_reader->reader_;
-        C_CDMReader* cReaderPtr = dynamic_cast<C_CDMReader*>(reader.get());
-        cReaderPtr->setDoubleCallbackFunction(string(varName), callback);
+        C_CDMReader& cReader = dynamic_cast<C_CDMReader&>(*reader);
+        cReader.setDoubleCallbackFunction(string(varName), callback);
         return 0;
     } catch (std::bad_cast& bc) {
         LOG4FIMEX(logger, Logger::WARN, "mifi_set_callback_double called with a different CDMReader, not C_CDMReader: " + string(bc.what()));
-- 
2.43.0


From be091fd923288392e67717d86f7a471511b37f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:24 +0000
Subject: [PATCH 144/173] fix: callbacks work for in-memory variables and those
 with a _FillValue

---
 src/C_CDMReader.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 277a143..7cb8018 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -32,8 +32,7 @@
 #include "fimex/Data.h"
 #include "fimex/Type2String.h"
 #include "fimex/mifi_cdm_reader.h"
-
-#include <cassert>
+#include "fimex/mifi_constants.h"
 
 namespace MetNoFimex
 {
@@ -56,6 +55,16 @@ void C_CDMReader::setDoubleCallbackFunction(const std::string& varName, doubleDa
     // data will be auto-scaled
     cdm_->removeAttribute(varName, "scale_factor");
     cdm_->removeAttribute(varName, "add_offset");
+    // missing values will be nan in scaled data, and the type of the fill value must match
+    for (const std::string fillAttr : {"_FillValue", "missing_value"}) {
+        CDMAttribute attr;
+        if (cdm_->getAttribute(varName, fillAttr, attr)) {
+            cdm_->removeAttribute(varName, fillAttr);
+            cdm_->addAttribute(varName, CDMAttribute(fillAttr, MIFI_UNDEFINED_D));
+        }
+    }
+    // data must always come from the callback, never from the memory
+    var.setData(DataPtr());
     // set the datatype for later processing
     doubleCallbacks_[varName] = callback;
 }
@@ -78,9 +87,8 @@ DataPtr C_CDMReader::getDataSlice(const std::string & varName, size_t unLimDimPo
     // start modify the data by the existing callback
     doubleDatasliceCallbackPtr callback = callbackIt->second;
 
-    // this reader should never have in-memory data, since it is not accessible from C
-    assert(cdm_->getVariable(varName).hasData() == false);
-    DataPtr data = dataReader_->getScaledDataSlice(varName, unLimDimPos);
+    // copy, as the callback must not modify data of the original reader
+    DataPtr data = dataReader_->getScaledDataSlice(varName, unLimDimPos)->clone();
 
     // wrap the object as a mifi_cdm_reader for C-usage
     mifi_cdm_reader reader(std::shared_ptr<C_CDMReader>(this, noDealloc));
-- 
2.43.0


From 8c8ff70088a883a0881b66aae5564f98c4576b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:24 +0000
Subject: [PATCH 145/173] fix: mifi_write_scaled_double_dataslice accepts empty
 units

---
 src/c_fimex.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/c_fimex.cc b/src/c_fimex.cc
index 090bb3b..1dc3462 100644
--- a/src/c_fimex.cc
+++ b/src/c_fimex.cc
@@ -519,7 +519,12 @@ int mifi_write_scaled_double_dataslice(mifi_cdm_reader* rwreader, const char* va
     try {
         shared_array<double> dptr(data, null_deleter());
         DataPtr d = createData(size, dptr);
-        rw->putScaledDataSliceInUnit(varName, units, *(sb->sb_), d);
+        string unitStr(units);
+        if (unitStr != "") {
+            rw->putScaledDataSliceInUnit(varName, unitStr, *(sb->sb_), d);
+        } else {
+            rw->putScaledDataSlice(varName, *(sb->sb_), d);
+        }
         return 0;
     } catch (exception& ex) {
         LOG4FIMEX(logger, Logger::WARN, "error in mifi_write_scaled_double_dataslice: " << ex.what());
-- 
2.43.0


From 5822cb037269c839d9bbc529969756c29fcb67e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:25 +0000
Subject: [PATCH 146/173] fix: mifi_points2position with an empty axis does not
 read out of bounds

---
 src/interpolation.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interpolation.c b/src/interpolation.c
index 88d09ec..e3c4e55 100644
--- a/src/interpolation.c
+++ b/src/interpolation.c
@@ -155,6 +155,11 @@ int mifi_points2position(double* points, const int n, const double* axis, const
 {
     int circularLongitude = 0;
     int (*comparator)(double a, double b);
+    if (num < 1) { // empty axis, all points are outside range
+        for (int i = 0; i < n; i++)
+            points[i] = -999.;
+        return MIFI_OK;
+    }
     if (axis[0] < axis[num - 1])
         comparator = ascendingDoubleComparator;
     else
-- 
2.43.0


From 3845fe313c67e4650ffcd928b18c4ea607a065fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:39 +0000
Subject: [PATCH 147/173] fix: release the numpy array when its Data is deleted
 in pyfimex0

---
 modules/python/pyfimex0_Data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/python/pyfimex0_Data.cc b/modules/python/pyfimex0_Data.cc
index ec9a818..ddacb83 100644
--- a/modules/python/pyfimex0_Data.cc
+++ b/modules/python/pyfimex0_Data.cc
@@ -46,7 +46,7 @@ struct py_object_deleter
     void operator()(void*)
     {
         py::gil_scoped_acquire acquire;
-        po_->release();
+        po_.reset();
     }
 
     std::unique_ptr<py::object> po_;
-- 
2.43.0


From 2b51b65e9053d99cdedd660830a9bd0c9032ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:18:40 +0000
Subject: [PATCH 148/173] fix: createData in pyfimex0 respects the strides of
 numpy arrays

---
 modules/python/pyfimex0_Data.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/python/pyfimex0_Data.cc b/modules/python/pyfimex0_Data.cc
index ddacb83..1b3462d 100644
--- a/modules/python/pyfimex0_Data.cc
+++ b/modules/python/pyfimex0_Data.cc
@@ -99,7 +99,7 @@ py::object Data_values(DataPtr data)
 }
 
 template <class T>
-DataPtr create_NpArrayData(py::array_t<T> nparray)
+DataPtr create_NpArrayData(py::array_t<T, py::array::c_style | py::array::forcecast> nparray)
 {
     py::buffer_info req = nparray.request();
     shared_array<T> arr((T*)req.ptr, py_object_deleter(nparray));
-- 
2.43.0


From 89816c7ab9191b3598336107d356537d05617907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:31 +0000
Subject: [PATCH 149/173] fix: C_CDMReader uses data set in its CDM

---
 src/C_CDMReader.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/C_CDMReader.cc b/src/C_CDMReader.cc
index 7cb8018..074598a 100644
--- a/src/C_CDMReader.cc
+++ b/src/C_CDMReader.cc
@@ -81,6 +81,9 @@ DataPtr C_CDMReader::getDataSlice(const std::string & varName, size_t unLimDimPo
     // check if there is a callback-function (currently only double)
     std::map<std::string, doubleDatasliceCallbackPtr>::iterator callbackIt = doubleCallbacks_.find(varName);
     if (callbackIt == doubleCallbacks_.end()) {
+        const CDMVariable& variable = cdm_->getVariable(varName);
+        if (variable.hasData())
+            return getDataSliceFromMemory(variable, unLimDimPos);
         return dataReader_->getDataSlice(varName, unLimDimPos);
     }
 
-- 
2.43.0


From 450864c8b3e07961048f22a790253702d80c578c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:13 +0000
Subject: [PATCH 150/173] fix: interpolate variables whose horizontal
 dimensions are not the first ones

---
 src/CachedInterpolation.cc | 59 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index a440910..4cd69cb 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -35,6 +35,9 @@
 
 #include "fimex/Logger.h"
 
+#include <algorithm>
+#include <numeric>
+
 #ifdef _OPENMP
 #include <omp.h>
 #endif
@@ -65,6 +68,55 @@ CachedInterpolationInterface::CachedInterpolationInterface(const std::string& xD
 
 CachedInterpolationInterface::~CachedInterpolationInterface() {}
 
+namespace {
+
+/**
+ * The interpolation requires that x and y are the first (fastest varying) dimensions.
+ * @param data the data
+ * @param dimNames names of the dimensions of the variable
+ * @param dimSizes sizes of the dimensions of the variable
+ * @param toFront true: order of data is dimNames, move x and y to the front; false: x and y are first, move back to the order in dimNames
+ */
+DataPtr moveHorizontalDims(DataPtr data, const std::vector<std::string>& dimNames, const std::vector<size_t>& dimSizes, const std::string& xDim,
+                           const std::string& yDim, bool toFront)
+{
+    const size_t nDims = dimNames.size();
+    const size_t x = std::find(dimNames.begin(), dimNames.end(), xDim) - dimNames.begin();
+    const size_t y = std::find(dimNames.begin(), dimNames.end(), yDim) - dimNames.begin();
+    if (x >= nDims || y >= nDims || (x == 0 && y == 1) || data->size() == 0)
+        return data;
+
+    // strides of the dimensions with x and y first
+    std::vector<size_t> strides(nDims);
+    size_t size = 1;
+    std::vector<size_t> order{x, y};
+    for (size_t i = 0; i < nDims; ++i) {
+        if (i != x && i != y)
+            order.push_back(i);
+    }
+    for (size_t i : order) {
+        strides[i] = size;
+        size *= dimSizes[i];
+    }
+    if (size != data->size())
+        throw CDMException("unexpected size of data when changing the order of dimensions");
+
+    DataPtr moved = createData(data->getDataType(), size);
+    std::vector<size_t> pos(nDims, 0);
+    for (size_t i = 0; i < size; ++i) {
+        const size_t m = std::inner_product(pos.begin(), pos.end(), strides.begin(), size_t(0));
+        if (toFront)
+            moved->setValues(m, *data, i, i + 1);
+        else
+            moved->setValues(i, *data, m, m + 1);
+        for (size_t d = 0; d < nDims && ++pos[d] == dimSizes[d]; ++d)
+            pos[d] = 0;
+    }
+    return moved;
+}
+
+} // namespace
+
 DataPtr CachedInterpolationInterface::getInputDataSlice(CDMReader_p reader, const std::string& varName, size_t unLimDimPos) const
 {
     DataPtr data;
@@ -107,7 +159,8 @@ DataPtr CachedInterpolationInterface::getInputDataSlice(CDMReader_p reader, cons
         }
         rsb.setStartAndSize(dn, start, size);
     }
-    return reader->getDataSlice(varName, rsb);
+    return moveHorizontalDims(reader->getDataSlice(varName, rsb), rsb.getDimensionNames(), rsb.getDimensionSizes(),
+                              reducedDomain() ? reducedDomain()->xDim : _xDimName, reducedDomain() ? reducedDomain()->yDim : _yDimName, true);
 }
 
 DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const SliceBuilder& sb, const std::vector<std::string>& inDimNames) const
@@ -126,7 +179,9 @@ DataPtr CachedInterpolationInterface::getOutputDataSlice(DataPtr data, const Sli
             maxDims.at(i) = dimSizes.at(i);
         }
     }
-    return data->slice(maxDims, startPos, dimSizes);
+    return moveHorizontalDims(data, inDimNames, maxDims, reducedDomain() ? reducedDomain()->xDim : _xDimName,
+                              reducedDomain() ? reducedDomain()->yDim : _yDimName, false)
+        ->slice(maxDims, startPos, dimSizes);
 }
 
 CachedInterpolationInterface_p createCachedInterpolation(const std::string& xDimName, const std::string& yDimName, int method,
-- 
2.43.0


From e470824d143ce9efe732a9fea575c91a4283ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:35 +0000
Subject: [PATCH 151/173] fix: time-interpolation of an empty time-axis gives
 an error

---
 src/CDMTimeInterpolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 7099c67..5e050c3 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -159,6 +159,8 @@ void CDMTimeInterpolator::changeTimeAxis(const string& timeSpec)
             vector<FimexTime> oldTimes;
             auto oldTimesPtr = times->asDouble();
             size_t nEl = times->size();
+            if (nEl == 0)
+                throw CDMException("cannot interpolate in time, axis '" + timeDimName + "' is empty");
             std::transform(oldTimesPtr.get(), oldTimesPtr.get() + nEl, std::back_inserter(oldTimes),
                            std::bind(std::mem_fn(&TimeUnit::unitTime2fimexTime), tu, std::placeholders::_1));
             const TimeSpec ts(timeSpec, oldTimes[0], oldTimes[nEl - 1]);
-- 
2.43.0


From 7f98475703cc48460fc8e8a55c1967cf278f857f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:53 +0000
Subject: [PATCH 152/173] fix: refuse truncated and inconsistent felt files

---
 src/io/felt/FeltCDMReader2.cc |  9 ++++++---
 src/io/felt/FeltField.cpp     |  8 +++++---
 src/io/felt/FeltFile.cpp      | 20 +++++++++++++++-----
 src/io/felt/FeltFile.h        |  5 +++++
 src/io/felt/Felt_File2.cc     |  3 +++
 5 files changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index 3353112..cfc5ddb 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -664,7 +664,7 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
                 contains = true;
             } else {
                 for (vector<MetNoFimex::FimexTime>::const_iterator it = faTimes.begin(); it != faTimes.end(); it++) {
-                    if (*it == timeVec[unLimDimPos]) {
+                    if (*it == timeVec.at(unLimDimPos)) {
                         contains = true;
                     }
                 }
@@ -678,7 +678,7 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
             vector<LevelPair> layerVals;
             if ((layerDim != 0) && (layerDim->getLength() > 0)) {
                 for (size_t i = 0; i < layerDim->getLength(); ++i) {
-                    layerVals.push_back(levelVecMap[layerDim->getName()][i]);
+                    layerVals.push_back(levelVecMap[layerDim->getName()].at(i));
                 }
             } else {
                 // no layers, just 1 level
@@ -715,10 +715,13 @@ DataPtr FeltCDMReader2::getDataSlice(const string& varName, size_t unLimDimPos)
             // xa
             unsigned int xDim = fa->getX();
             unsigned int yDim = fa->getY();
+            if (layerVals.size() * xDim * yDim != data->size()) {
+                throw CDMException("size of the grids of variable " + variable.getName() + " does not match its dimensions");
+            }
             for (vector<LevelPair>::const_iterator lit = layerVals.begin(); lit != layerVals.end(); ++lit) {
                 // get the time, if available
                 MetNoFimex::FimexTime t;
-                if (timeVec.size() > 0) {
+                if (unLimDimPos < timeVec.size()) {
                     t = timeVec[unLimDimPos];
                 }
                 // read the slice
diff --git a/src/io/felt/FeltField.cpp b/src/io/felt/FeltField.cpp
index 9e5f421..661b5f0 100644
--- a/src/io/felt/FeltField.cpp
+++ b/src/io/felt/FeltField.cpp
@@ -216,15 +216,17 @@ size_t FeltField::gridSize() const
     int L = header_[7];
     if (L == -32767)
         return 0;
-    size_t LX = header_[15] / 100;
+    const long long LX = header_[15] / 100;
 
     // 20 is size of header
     // if gridType > 1000, then gridType()%1000 is size of
     // extra data appended to the grid
-    size_t extraData = 0;
+    long long extraData = 0;
     if (gridType() > 1000)
         extraData = (gridType() % 1000);
-    size_t size = L + (LX * 32767) - (20 + extraData);
+    const long long size = L + (LX * 32767) - (20 + extraData);
+    if (size < 0)
+        throw std::runtime_error("invalid data length in felt field");
 
     return size;
 }
diff --git a/src/io/felt/FeltFile.cpp b/src/io/felt/FeltFile.cpp
index d383994..a9a44c4 100644
--- a/src/io/felt/FeltFile.cpp
+++ b/src/io/felt/FeltFile.cpp
@@ -35,6 +35,7 @@
 #include <fstream>
 #include <mutex>
 #include <sstream>
+#include <stdexcept>
 
 using namespace std;
 
@@ -46,7 +47,7 @@ FeltFile::FeltFile(const std::string& file)
     , feltFile_(new std::ifstream(file, std::ios::binary))
 {
     word head;
-    feltFile_->read(reinterpret_cast<char*>(&head), sizeof(word));
+    read_(reinterpret_cast<char*>(&head), 0, sizeof(word));
     if (head < 997 or 999 < head)
         changeEndianness_ = true;
 
@@ -56,6 +57,8 @@ FeltFile::FeltFile(const std::string& file)
     if (not complete())
         throw std::runtime_error("File update is not complete yet");
 
+    if (block1_[9] < 0)
+        throw std::runtime_error("negative number of fields in felt-file " + fileName_);
     const size_t fieldCount = block1_[9];
     fields_.reserve(fieldCount);
     int i = 0;
@@ -178,13 +181,21 @@ void swapByteOrder(word& w)
 
 } // namespace
 
+void FeltFile::read_(char* out, unsigned long long pos, size_type noOfBytes) const
+{
+    feltFile_->clear();
+    feltFile_->seekg(pos, ios_base::beg);
+    feltFile_->read(out, noOfBytes);
+    if (!*feltFile_)
+        throw std::runtime_error("cannot read from felt-file " + fileName_ + ", it may be truncated");
+}
+
 FeltFile::Block FeltFile::getBlock_(size_type blockNo) const
 {
     Block ret(new word[blockWords]);
 
     long long pos = static_cast<long long>(blockNo) * blockWords * sizeof(word);
-    feltFile_->seekg(pos, ios_base::beg);
-    feltFile_->read((char*)ret.get(), blockWords * sizeof(word));
+    read_(reinterpret_cast<char*>(ret.get()), pos, blockWords * sizeof(word));
     if (changeEndianness_)
         for_each(ret.get(), ret.get() + blockWords, swapByteOrder);
 
@@ -196,8 +207,7 @@ void FeltFile::get_(std::vector<word>& out, size_type fromWord, size_type noOfWo
     out.resize(noOfWords);
     // this will allow up to 8.4GB (size_t = 4.2G * word=2)
     unsigned long long pos = static_cast<unsigned long long>(fromWord) * sizeof(word);
-    feltFile_->seekg(pos, ios_base::beg);
-    feltFile_->read((char*)&out[0], noOfWords * sizeof(word));
+    read_(reinterpret_cast<char*>(out.data()), pos, noOfWords * sizeof(word));
     if (changeEndianness_)
         for_each(out.begin(), out.end(), swapByteOrder);
 }
diff --git a/src/io/felt/FeltFile.h b/src/io/felt/FeltFile.h
index f9895fc..0b56ccc 100644
--- a/src/io/felt/FeltFile.h
+++ b/src/io/felt/FeltFile.h
@@ -104,6 +104,11 @@ private:
      */
     void get_(std::vector<word>& out, size_type fromWord, size_type noOfWords) const;
 
+    /**
+     * Read bytes from file, throws std::runtime_error if not all of them are available.
+     */
+    void read_(char* out, unsigned long long pos, size_type noOfBytes) const;
+
     const std::string fileName_;
 
     /**
diff --git a/src/io/felt/Felt_File2.cc b/src/io/felt/Felt_File2.cc
index 5e6dd1a..a68544d 100644
--- a/src/io/felt/Felt_File2.cc
+++ b/src/io/felt/Felt_File2.cc
@@ -246,6 +246,9 @@ std::shared_ptr<MetNoFimex::Data> Felt_File2::getScaledDataSlice(std::shared_ptr
     vector<short> data;
     data.reserve(dataSize);
     int fieldScaleFactor = feltArray->getGridAllowDelta(time, level, data, gridParameterDelta_);
+    if (data.size() != dataSize) {
+        throw Felt_File_Error("data size does not match the grid size for parameter: " + feltArray->getName());
+    }
 
     std::shared_ptr<MetNoFimex::Data> returnData;
     if (feltArray->getDatatype() == "short") {
-- 
2.43.0


From 63403c9c5eb646a25fa50ad8cd9a6de6b04b068f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:54:55 +0000
Subject: [PATCH 153/173] fix: refuse damaged grib files and grib indexes

---
 src/ProtobufCDM.cc           | 21 +++++++++++++++------
 src/io/grib/GribCDMReader.cc |  3 +++
 src/io/grib/GribFileIndex.cc | 14 +++++++++++++-
 src/io/grib/GribFileIndex.h  | 28 ++++++++++++++--------------
 4 files changed, 45 insertions(+), 21 deletions(-)

diff --git a/src/ProtobufCDM.cc b/src/ProtobufCDM.cc
index 202bb27..0c93489 100644
--- a/src/ProtobufCDM.cc
+++ b/src/ProtobufCDM.cc
@@ -47,9 +47,18 @@ Logger_p logger = getLogger("fimex.ProtobufCDM");
 
 MetNoFimex::CDMDataType dataTypeFromIndexCDM(const fimex_index::CDMDataType fdt)
 {
+    if (!fimex_index::CDMDataType_IsValid(fdt))
+        throw std::runtime_error("invalid datatype in protobuf index");
     return MetNoFimex::CDMDataType(fdt);
 }
 
+const std::string& stringAt(const fimex_index::CDM& fcdm, size_t index)
+{
+    if (index >= static_cast<size_t>(fcdm.strings_size()))
+        throw std::runtime_error("invalid string index in protobuf index");
+    return fcdm.strings(index);
+}
+
 } // namespace
 
 void readCDM(MetNoFimex::CDM& cdm, const fimex_index::CDM& fcdm)
@@ -61,7 +70,7 @@ void readCDM(MetNoFimex::CDM& cdm, const fimex_index::CDM& fcdm)
     }
 
     for (const auto& fd : fcdm.dimensions()) {
-        CDMDimension dim(fcdm.strings(fd.name()), fd.length());
+        CDMDimension dim(stringAt(fcdm, fd.name()), fd.length());
         dim.setUnlimited(fd.is_unlimited());
         cdm.addDimension(dim);
     }
@@ -70,10 +79,10 @@ void readCDM(MetNoFimex::CDM& cdm, const fimex_index::CDM& fcdm)
         std::vector<std::string> shape;
         shape.reserve(fv.shape_size());
         for (const auto& fsi : fv.shape()) {
-            shape.push_back(fcdm.strings(fsi));
+            shape.push_back(stringAt(fcdm, fsi));
         }
 
-        CDMVariable var(fcdm.strings(fv.name()), dataTypeFromIndexCDM(fv.data().data_type()), shape);
+        CDMVariable var(stringAt(fcdm, fv.name()), dataTypeFromIndexCDM(fv.data().data_type()), shape);
         if (DataPtr data = readData(fv.data(), fcdm)) {
             var.setData(data);
         }
@@ -109,7 +118,7 @@ void readCDM(MetNoFimex::CDM& cdm, const fimex_index::CDM& fcdm)
 void readAttribute(MetNoFimex::CDMAttribute& att, const fimex_index::CDMAttribute& fatt, const fimex_index::CDM& fcdm)
 {
     DataPtr data = readData(fatt.data(), fcdm);
-    att = MetNoFimex::CDMAttribute(fcdm.strings(fatt.name()), data);
+    att = MetNoFimex::CDMAttribute(stringAt(fcdm, fatt.name()), data);
 }
 
 namespace {
@@ -164,7 +173,7 @@ DataPtr readData(const fimex_index::CDMData& fdata, const fimex_index::CDM& fcdm
         if (fdata.strings_size() > 0) {
             auto strings = make_shared_array<std::string>(fdata.strings_size());
             for (size_t fsi = 0; fsi < fdata.strings_size(); ++fsi) {
-                strings[fsi] = fcdm.strings(fdata.strings(fsi));
+                strings[fsi] = stringAt(fcdm, fdata.strings(fsi));
             }
             return createData(fdata.strings_size(), strings);
         } else {
@@ -173,7 +182,7 @@ DataPtr readData(const fimex_index::CDMData& fdata, const fimex_index::CDM& fcdm
     }
     case CDM_STRING: {
         if (fdata.strings_size() > 0) {
-            return createData(fcdm.strings(fdata.strings(0)));
+            return createData(stringAt(fcdm, fdata.strings(0)));
         } else {
             return {}; // ignore data
             // return createData(dt, 0);
diff --git a/src/io/grib/GribCDMReader.cc b/src/io/grib/GribCDMReader.cc
index 2cebe00..5a14f02 100644
--- a/src/io/grib/GribCDMReader.cc
+++ b/src/io/grib/GribCDMReader.cc
@@ -181,6 +181,9 @@ DataPtr GribCDMReader::getDataSlice(const std::string& varName, const SliceBuild
     // all variables have x+y+level, some have time, length of shape indicates ensemble dim
     const bool has_ensemble_dim = dimNames.size() == (has_time_dim ? 5 : 4);
 
+    if (dimNames.size() < (has_time_dim ? 4 : 3))
+        throw CDMException("too few dimensions for variable '" + varName + "'");
+
     size_t shape_idx = 2;
     if (has_ensemble_dim) {
         dim_e_start = dimStart[shape_idx];
diff --git a/src/io/grib/GribFileIndex.cc b/src/io/grib/GribFileIndex.cc
index e923330..0ba079d 100644
--- a/src/io/grib/GribFileIndex.cc
+++ b/src/io/grib/GribFileIndex.cc
@@ -64,6 +64,9 @@ typedef std::shared_ptr<grib_handle> grib_handle_p;
 
 std::unique_ptr<unsigned char[]> readChunk(ChunkReader_p cr, size_t off, size_t size)
 {
+    const size_t total = cr->size();
+    if (off > total || size > total - off)
+        throw CDMException("grib message exceeds the end of the file");
     std::unique_ptr<unsigned char[]> buffer(new unsigned char[size]);
     cr->read(off, size, &buffer[0]);
     return std::move(buffer);
@@ -474,6 +477,8 @@ size_t readGribMessageSize(ChunkReader_p cr, size_t offset)
     unsigned char buffer[16];
     cr->read(offset, sizeof(buffer), buffer);
     const char grib_version = buffer[7];
+    if (!std::equal(buffer, buffer + 4, "GRIB"))
+        throw CDMException("no grib message found at byte " + type2string(offset));
     size_t s0, sn;
     if (grib_version == 1) {
         s0 = 4;
@@ -481,11 +486,15 @@ size_t readGribMessageSize(ChunkReader_p cr, size_t offset)
     } else if (grib_version == 2) {
         s0 = 8;
         sn = 8;
+    } else {
+        throw CDMException("unknown grib edition " + type2string(static_cast<int>(grib_version)) + " at byte " + type2string(offset));
     }
     size_t grib_msg_size = 0;
     for (size_t i = 0; i < sn; ++i) {
         grib_msg_size = (grib_msg_size << 8) | size_t(buffer[s0 + i]);
     }
+    if (grib_msg_size == 0)
+        throw CDMException("empty grib message at byte " + type2string(offset));
     return grib_msg_size;
 }
 
@@ -896,7 +905,10 @@ GribFileMessage::GribFileMessage(xmlTextReaderPtr reader, const std::string& fil
                     } else if (name == "incrY") {
                         incrY = value.to_double();
                     } else if (name == "scanMode") {
-                        scanMode = static_cast<GridDefinition::Orientation>(value.to_long());
+                        const long mode = value.to_long();
+                        if (mode < 0 || mode > 255)
+                            throw runtime_error("invalid scanMode in " + fileName);
+                        scanMode = static_cast<GridDefinition::Orientation>(mode);
                     }
                 }
                 const double lonLatResolution = (haveStartLon && haveStartLat) ? lonLatResolutionForEdition(edition_) : -1;
diff --git a/src/io/grib/GribFileIndex.h b/src/io/grib/GribFileIndex.h
index cc37e9b..940eda2 100644
--- a/src/io/grib/GribFileIndex.h
+++ b/src/io/grib/GribFileIndex.h
@@ -141,26 +141,26 @@ public:
 
 private:
     std::string fileURL_;
-    off_t filePos_;
-    size_t msgSize_;
+    off_t filePos_ = 0;
+    size_t msgSize_ = 0;
     std::string parameterName_;
     std::string shortName_;
     // ed1: indicatorOfParameter, gribTablesVersionNo, identificationOfOriginatingGeneratingCentre;
     // ed2: parameterNumber, paramterCategory, discipline
     param_id_t gridParameterIds_;
-    long edition_;
-    long dataTime_;
-    long dataDate_;
-    long stepUnits_;
+    long edition_ = 0;
+    long dataTime_ = 0;
+    long dataDate_ = 0;
+    long stepUnits_ = 0;
     std::string stepType_;
-    long stepStart_;
-    long stepEnd_;
-    long timeRangeIndicator_;
-    long typeOfStatisticalProcessing_;
-    long levelType_;
-    long levelNo_;
-    long perturbationNo_;
-    long totalNumberOfEnsembles_;
+    long stepStart_ = 0;
+    long stepEnd_ = 0;
+    long timeRangeIndicator_ = 0;
+    long typeOfStatisticalProcessing_ = 0;
+    long levelType_ = 0;
+    long levelNo_ = 0;
+    long perturbationNo_ = 0;
+    long totalNumberOfEnsembles_ = 0;
     std::map<std::string, long> otherKeys_;
     std::string typeOfGrid_;
     GridDefinition gridDefinition_;
-- 
2.43.0


From 8abc0f7174216bfe4ed27017c9384eb8b5c15764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 154/173] fix: attributes without value are not dereferenced

---
 src/CDM.cc                         | 21 +++++++++++++++------
 src/CDMQualityExtractor.cc         |  6 +++---
 src/coordSys/ProjectionImpl.cc     |  2 ++
 src/coordSys/WRFCoordSysBuilder.cc |  2 +-
 4 files changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/CDM.cc b/src/CDM.cc
index 9046306..e3e5fff 100644
--- a/src/CDM.cc
+++ b/src/CDM.cc
@@ -479,6 +479,15 @@ static double defaultFillValue_(CDMDataType dt)
     }
 }
 
+// first value of an attribute, throws if there is none
+static double firstDouble(const std::string& varName, const CDMAttribute& attr)
+{
+    DataPtr data = attr.getData();
+    if (!data || data->size() == 0)
+        throw CDMException("attribute '" + attr.getName() + "' of variable '" + varName + "' has no value");
+    return data->asDouble()[0];
+}
+
 double CDM::getFillValue(const std::string& varName) const
 {
     CDMAttribute attr;
@@ -492,7 +501,7 @@ double CDM::getFillValue(const std::string& varName) const
             const std::string text = attr.getStringValue();
             return text.empty() ? defaultFillValue_(CDM_STRING) : static_cast<unsigned char>(text[0]);
         }
-        return attr.getData()->asDouble()[0];
+        return firstDouble(varName, attr);
     }
     if (hasVariable(varName)) {
         return defaultFillValue_(getVariable(varName).getDataType());
@@ -505,9 +514,9 @@ double CDM::getValidMin(const std::string& varName) const
 {
     CDMAttribute attr;
     if (getAttribute(varName, "valid_min", attr)) {
-        return attr.getData()->asDouble()[0];
+        return firstDouble(varName, attr);
     } else if (getAttribute(varName, "valid_range", attr)) {
-        return attr.getData()->asDouble()[0];
+        return firstDouble(varName, attr);
     }
     return MIFI_UNDEFINED_D;
 }
@@ -516,7 +525,7 @@ double CDM::getValidMax(const std::string& varName) const
 {
     CDMAttribute attr;
     if (getAttribute(varName, "valid_max", attr)) {
-        return attr.getData()->asDouble()[0];
+        return firstDouble(varName, attr);
     } else if (getAttribute(varName, "valid_range", attr)) {
         DataPtr data = attr.getData();
         if (data->size() > 1) {
@@ -530,7 +539,7 @@ double CDM::getAddOffset(const std::string& varName) const
 {
     CDMAttribute attr;
     if (getAttribute(varName, "add_offset", attr)) {
-        return attr.getData()->asDouble()[0];
+        return firstDouble(varName, attr);
     } else {
         return 0;
     }
@@ -540,7 +549,7 @@ double CDM::getScaleFactor(const std::string& varName) const
 {
     CDMAttribute attr;
     if (getAttribute(varName, "scale_factor", attr)) {
-        return attr.getData()->asDouble()[0];
+        return firstDouble(varName, attr);
     } else {
         return 1;
     }
diff --git a/src/CDMQualityExtractor.cc b/src/CDMQualityExtractor.cc
index 4758c19..54c7081 100644
--- a/src/CDMQualityExtractor.cc
+++ b/src/CDMQualityExtractor.cc
@@ -293,13 +293,13 @@ DataPtr CDMQualityExtractor::getDataSlice(const std::string& varName, size_t unL
                 double minFlag = MIFI_UNDEFINED_D;
                 double maxFlag = MIFI_UNDEFINED_D;
                 CDMAttribute attr;
-                if (cdmS.getAttribute(statusVar, "valid_min", attr)) {
+                if (cdmS.getAttribute(statusVar, "valid_min", attr) && attr.getData()->size() > 0) {
                     minFlag = attr.getData()->asDouble()[0];
                 }
-                if (cdmS.getAttribute(statusVar, "valid_max", attr)) {
+                if (cdmS.getAttribute(statusVar, "valid_max", attr) && attr.getData()->size() > 0) {
                     maxFlag = attr.getData()->asDouble()[0];
                 }
-                if (cdmS.getAttribute(statusVar, "valid_range", attr)) {
+                if (cdmS.getAttribute(statusVar, "valid_range", attr) && attr.getData()->size() > 1) {
                     minFlag = attr.getData()->asDouble()[0];
                     maxFlag = attr.getData()->asDouble()[1];
                 }
diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 8d09faa..54eeaa6 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -100,6 +100,8 @@ void ProjectionImpl::addParameter(const CDMAttribute& attribute)
 void ProjectionImpl::addParameters(const std::vector<CDMAttribute>& attributes)
 {
     for (const CDMAttribute& attr : attributes) {
+        if (!attr.getData() || attr.getData()->size() == 0)
+            continue; // attributes without value do not define anything
         addParameter(attr);
     }
 }
diff --git a/src/coordSys/WRFCoordSysBuilder.cc b/src/coordSys/WRFCoordSysBuilder.cc
index 7d032e0..ced0a3d 100644
--- a/src/coordSys/WRFCoordSysBuilder.cc
+++ b/src/coordSys/WRFCoordSysBuilder.cc
@@ -94,7 +94,7 @@ void WRFCoordSysBuilder::enhanceVectorProperties(CDMReader_p reader)
 static double findAttributeDouble(const CDM& cdm, std::string attName)
 {
     CDMAttribute attr;
-    if (!cdm.getAttribute(cdm.globalAttributeNS(), attName, attr))
+    if (!cdm.getAttribute(cdm.globalAttributeNS(), attName, attr) || !attr.getData() || attr.getData()->size() == 0)
         return MIFI_UNDEFINED_D;
     else
         return attr.getData()->asDouble()[0];
-- 
2.43.0


From 1ee36d6c0f6d943d5123640be828e2236b0e7d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 155/173] fix: handle scalar axes in vertical transformations

---
 src/CDMPressureConversions.cc                        |  2 ++
 .../verticalTransform/AltitudeHeightConverter.cc     |  4 ++--
 .../PressureIntegrationToAltitudeConverter.cc        |  6 +++++-
 .../verticalTransform/ToVLevelConverterAdapter.cc    | 12 +++++++++---
 .../verticalTransform/VerticalTransformationUtils.cc |  4 +++-
 5 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/CDMPressureConversions.cc b/src/CDMPressureConversions.cc
index 61fa820..a436969 100644
--- a/src/CDMPressureConversions.cc
+++ b/src/CDMPressureConversions.cc
@@ -552,6 +552,8 @@ Converter_pv AddPressure4DConverterFactory::createConverter(Environment& env, co
         CoordinateAxis_cp csiT = csi->getTimeAxis();
         if (!(csiX && csiY && csiZ && csiT))
             continue;
+        if (csiX->getShape().empty() || csiY->getShape().empty() || csiZ->getShape().empty() || csiT->getShape().empty())
+            continue; // scalar axes have no dimension
 
         // use the largest coordinate-system with largest zAxis
         const size_t dimsize = env.inputCDM.getDimension(csi->getGeoZAxis()->getShape()[0]).getLength();
diff --git a/src/coordSys/verticalTransform/AltitudeHeightConverter.cc b/src/coordSys/verticalTransform/AltitudeHeightConverter.cc
index 577e0e2..a4f4f5a 100644
--- a/src/coordSys/verticalTransform/AltitudeHeightConverter.cc
+++ b/src/coordSys/verticalTransform/AltitudeHeightConverter.cc
@@ -56,7 +56,7 @@ VerticalConverter_p AltitudeHeightConverter::createConverter(CDMReader_p reader,
 
     const CoordinateAxis_cp xAxis = cs->getGeoXAxis();
     const CoordinateAxis_cp yAxis = cs->getGeoYAxis();
-    if (!xAxis || !yAxis)
+    if (!xAxis || !yAxis || xAxis->getShape().empty() || yAxis->getShape().empty())
         return VerticalConverter_p();
 
     const vector<string> dims{xAxis->getShape()[0], yAxis->getShape()[0]};
@@ -69,7 +69,7 @@ VerticalConverter_p AltitudeHeightConverter::createConverter(CDMReader_p reader,
     for (const auto& tv : topoVars) {
         if (CoordinateSystem_cp topoCS = findCompleteCoordinateSystemFor(allCS, tv)) {
             if (CoordinateAxis_cp zax = topoCS->getGeoZAxis()) {
-                if (reader->getCDM().getDimension(zax->getShape().front()).getLength() != 1) {
+                if (!zax->getShape().empty() && reader->getCDM().getDimension(zax->getShape().front()).getLength() != 1) {
                     LOG4FIMEX(logger, Logger::INFO, "topo var '" << tv << "' has z axis '" << zax->getName() << "' with length != 1, skipping");
                     continue;
                 }
diff --git a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
index f86dce0..51c8cee 100644
--- a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
+++ b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
@@ -31,6 +31,7 @@
 #include "fimex/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.h"
 
 #include "fimex/CDM.h"
+#include "fimex/CDMException.h"
 #include "fimex/CDMReader.h"
 #include "fimex/CDMReaderUtils.h"
 #include "fimex/coordSys/CoordinateSystem.h"
@@ -122,7 +123,10 @@ DataPtr PressureIntegrationToAltitudeConverter::getDataSlice(const SliceBuilder&
 
     const CDM& rcdm = reader_->getCDM();
     // 1)
-    const std::string& zName = rcdm.getVariable(cs_->getGeoZAxis()->getName()).getShape().front();
+    const std::vector<std::string>& zShape = rcdm.getVariable(cs_->getGeoZAxis()->getName()).getShape();
+    if (zShape.empty())
+        throw CDMException("cannot integrate pressure along a scalar vertical axis");
+    const std::string& zName = zShape.front();
     const size_t n_z = rcdm.getDimension(zName).getLength();
     size_t sb_out_z_start, sb_out_z_size;
     sbOut.getStartAndSize(zName, sb_out_z_start, sb_out_z_size);
diff --git a/src/coordSys/verticalTransform/ToVLevelConverterAdapter.cc b/src/coordSys/verticalTransform/ToVLevelConverterAdapter.cc
index c2029f2..c4887bf 100644
--- a/src/coordSys/verticalTransform/ToVLevelConverterAdapter.cc
+++ b/src/coordSys/verticalTransform/ToVLevelConverterAdapter.cc
@@ -47,6 +47,12 @@ static Logger_p logger = getLogger("fimex.ToVLevelConverterAdapter");
 
 static const size_t NOTSET = ~0ul;
 
+// name of the first dimension, empty for scalar axes
+static std::string firstDim(CoordinateAxis_cp axis)
+{
+    return axis->getShape().empty() ? std::string() : axis->getShape().front();
+}
+
 ToVLevelConverterAdapter::ToVLevelConverterAdapter(CDMReader_p reader, CoordinateSystem_cp cs, VerticalConverter_p converter, size_t unLimDimPos)
     : reader_(reader)
     , converter_(converter)
@@ -56,19 +62,19 @@ ToVLevelConverterAdapter::ToVLevelConverterAdapter(CDMReader_p reader, Coordinat
     const std::set<std::string> shapedims(shape.begin(), shape.end());
 
     if (CoordinateAxis_cp xax = cs->getGeoXAxis()) {
-        const std::string& xdim0 = xax->getShape().front();
+        const std::string xdim0 = firstDim(xax);
         if (shapedims.count(xdim0))
             varGeoX_ = xdim0;
     }
 
     if (CoordinateAxis_cp yax = cs->getGeoYAxis()) {
-        const std::string& ydim0 = yax->getShape().front();
+        const std::string ydim0 = firstDim(yax);
         if (shapedims.count(ydim0))
             varGeoY_ = ydim0;
     }
 
     if (CoordinateAxis_cp tax = cs->getTimeAxis()) {
-        const std::string& tdim0 = tax->getShape().front();
+        const std::string tdim0 = firstDim(tax);
         if (shapedims.count(tdim0)) {
             varTime_ = tdim0;
 
diff --git a/src/coordSys/verticalTransform/VerticalTransformationUtils.cc b/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
index 99e7b37..54e2100 100644
--- a/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
+++ b/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
@@ -121,7 +121,9 @@ ShapeMerger& ShapeMerger::merge(VerticalConverter_p vc, bool skipLength1)
 
 const std::string& ShapeMerger::axisDim(CoordinateAxis_cp axis) const
 {
-    return rcdm_.getVariable(axis->getName()).getShape().front();
+    static const std::string NO_DIM;
+    const shape_t& shape = rcdm_.getVariable(axis->getName()).getShape();
+    return shape.empty() ? NO_DIM : shape.front(); // scalar axes have no dimension
 }
 
 ShapeMerger::shape_t::iterator ShapeMerger::findAxis(CoordinateAxis_cp axis)
-- 
2.43.0


From 1358c7806b2d8b833ca1bf3b99bb992e99961f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 156/173] fix: felt time calculation without gmtime

---
 src/io/felt/FeltTime.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/io/felt/FeltTime.cpp b/src/io/felt/FeltTime.cpp
index 11301df..57fbbce 100644
--- a/src/io/felt/FeltTime.cpp
+++ b/src/io/felt/FeltTime.cpp
@@ -44,14 +44,15 @@ FeltTime& FeltTime::addHours(int add_hours)
 
     tp += std::chrono::hours(add_hours);
 
-    const time_t tt = std::chrono::system_clock::to_time_t(tp);
-    const tm utc = *std::gmtime(&tt);
-    year = 1900 + utc.tm_year;
-    month = 1 + utc.tm_mon;
-    day = utc.tm_mday;
-    hour = utc.tm_hour;
-    minute = utc.tm_min;
-    second = utc.tm_sec;
+    const auto dp = date::floor<date::days>(tp);
+    const date::year_month_day ymd(dp);
+    const auto hms = date::make_time(tp - dp);
+    year = static_cast<int>(ymd.year());
+    month = static_cast<unsigned int>(ymd.month());
+    day = static_cast<unsigned int>(ymd.day());
+    hour = hms.hours().count();
+    minute = hms.minutes().count();
+    second = hms.seconds().count();
 
     return *this;
 }
-- 
2.43.0


From 1a7bcccbc50841126002cfac9f47eff68137ee1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 157/173] fix: exceptions do not leave the parallel region of
 Null_CDMWriter

---
 src/Null_CDMWriter.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/Null_CDMWriter.cc b/src/Null_CDMWriter.cc
index f63856f..59e8d5a 100644
--- a/src/Null_CDMWriter.cc
+++ b/src/Null_CDMWriter.cc
@@ -113,10 +113,13 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
     // write data
     const CDMDimension* unLimDim = cdm.getUnlimitedDim();
     const long long maxUnLim = (unLimDim ? unLimDim->getLength() : 0);
+    // exceptions must not leave the parallel region
+    std::exception_ptr error;
+    OmpMutex errorMutex;
 #ifdef _OPENMP
 #pragma omp parallel for default(shared)
 #endif
-    for (long long unLimDimPos = -1; unLimDimPos < maxUnLim; ++unLimDimPos) {
+    for (long long unLimDimPos = -1; unLimDimPos < maxUnLim; ++unLimDimPos) try {
 #ifdef HAVE_MPI
         if (mifi_mpi_initialized()) {
             // only work on variables which belong to this mpi-process (modulo-base)
@@ -143,7 +146,13 @@ Null_CDMWriter::Null_CDMWriter(const CDMReader_p cdmReader, const std::string& o
                                    ", datatype: " + type2string(cdmVar.getDataType()));
             }
         }
+    } catch (...) {
+        OmpScopedLock lock(errorMutex);
+        if (!error)
+            error = std::current_exception();
     }
+    if (error)
+        std::rethrow_exception(error);
 }
 
 Null_CDMWriter::~Null_CDMWriter()
-- 
2.43.0


From cd9f8bbc796b1f4656fac81d370f09906149e41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 158/173] fix: NetCDF_CDMReader checks the number of dimensions
 of a slice

---
 src/io/netcdf/NetCDF_CDMReader.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/io/netcdf/NetCDF_CDMReader.cc b/src/io/netcdf/NetCDF_CDMReader.cc
index c94932b..590260c 100644
--- a/src/io/netcdf/NetCDF_CDMReader.cc
+++ b/src/io/netcdf/NetCDF_CDMReader.cc
@@ -34,7 +34,6 @@
 
 #include "NetCDF_Utils.h"
 
-#include <cassert>
 #include <cstdlib>
 
 namespace MetNoFimex {
@@ -185,10 +184,10 @@ DataPtr NetCDF_CDMReader::getDataSlice(const std::string& varName, const SliceBu
     }
 
     const vector<size_t> start(sb.getDimensionStartPositions().rbegin(), sb.getDimensionStartPositions().rend());
-    assert(start.size() == static_cast<size_t>(dimLen));
+    if (start.size() != static_cast<size_t>(dimLen))
+        throw CDMException("slice for variable '" + varName + "' has a wrong number of dimensions");
 
     const vector<size_t> count(sb.getDimensionSizes().rbegin(), sb.getDimensionSizes().rend());
-    assert(count.size() == static_cast<size_t>(dimLen));
 
     LOG4FIMEX(logger, Logger::DEBUG,
               "ncGetValues SB for " << varName << ": (" << join(start.begin(), start.end()) << ") size (" << join(count.begin(), count.end()) << ")");
@@ -265,11 +264,11 @@ void NetCDF_CDMReader::putDataSlice(const std::string& varName, const SliceBuild
 
     // netcdf/c++ uses opposite dimension numbering => rbegin/rend
     const vector<size_t> start(sb.getDimensionStartPositions().rbegin(), sb.getDimensionStartPositions().rend());
-    assert(start.size() == static_cast<size_t>(dimLen));
+    if (start.size() != static_cast<size_t>(dimLen))
+        throw CDMException("slice for variable '" + varName + "' has a wrong number of dimensions");
 
     // netcdf/c++ uses opposite dimension numbering => rbegin/rend
     const vector<size_t> count(sb.getDimensionSizes().rbegin(), sb.getDimensionSizes().rend());
-    assert(count.size() == static_cast<size_t>(dimLen));
 
     LOG4FIMEX(logger, Logger::DEBUG,
               "ncPutValues SB for " << varName << ": (" << join(start.begin(), start.end()) << ") size (" << join(count.begin(), count.end()) << ")");
-- 
2.43.0


From adeb82c6d974dd347fabf4d45e3a9bf9c70ab1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:01 +0000
Subject: [PATCH 159/173] fix: time-interpolation of positions outside the
 time-axis

---
 src/CDMTimeInterpolator.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CDMTimeInterpolator.cc b/src/CDMTimeInterpolator.cc
index 5e050c3..824bc5d 100644
--- a/src/CDMTimeInterpolator.cc
+++ b/src/CDMTimeInterpolator.cc
@@ -110,6 +110,8 @@ DataPtr CDMTimeInterpolator::getDataSlice(const std::string& varName, size_t unL
     // if unlimdim = time-axis, fetch all needed original slices
     const CDMDimension& timeDim = cdm_->getDimension(timeAxis);
     if (timeDim.isUnlimited()) {
+        if (unLimDimPos >= timeDim.getLength())
+            return createData(variable.getDataType(), 0); // not in this file
         double currentTime = getDataSliceFromMemory(cdm_->getVariable(timeAxis), unLimDimPos)->asDouble()[0];
         // interpolate and return the time-slices
         pair<size_t, size_t> orgTimes = timeChangeMap_.find(timeAxis)->second.at(unLimDimPos);
-- 
2.43.0


From 373abeeff5b1d9af470e439d374f0140633025fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 160/173] fix: refuse coordinates without values in the
 interpolator

---
 src/CDMInterpolator.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/CDMInterpolator.cc b/src/CDMInterpolator.cc
index 7c29a46..5260473 100644
--- a/src/CDMInterpolator.cc
+++ b/src/CDMInterpolator.cc
@@ -311,10 +311,10 @@ double CDMInterpolator::getMaxDistanceOfInterest(const vector<double>& out_x_axi
     // find the max distance of two neighboring points in the output
     // this is the region of influence for a cell
     double maxDist = 0;
-    for (size_t i = 0; i < out_x_axis.size() - 1; ++i) {
+    for (size_t i = 0; i + 1 < out_x_axis.size(); ++i) {
         maxDist = max(abs(out_x_axis[i + 1] - out_x_axis[i]), maxDist);
     }
-    for (size_t j = 0; j < out_y_axis.size() - 1; ++j) {
+    for (size_t j = 0; j + 1 < out_y_axis.size(); ++j) {
         maxDist = max(abs(out_y_axis[j + 1] - out_y_axis[j]), maxDist);
     }
     return maxDist;
@@ -984,7 +984,8 @@ void flannTranslatePointsToClosestInputCell(double maxDist, shared_array<double>
 
     using namespace nanoflann;
     LOG4FIMEX(logger, Logger::DEBUG, "maximum allowed distance from cell-center: " << maxDist);
-    assert(maxDist != 0);
+    if (!(maxDist > 0))
+        throw CDMException("cannot determine the maximum allowed distance from cell-center, axes need at least two distinct values");
 
     // all calculations on a sphere with unit 1
     maxDist /= MIFI_EARTH_RADIUS_M;
@@ -1111,6 +1112,8 @@ double /* rad */ getGridDistance(const double* lonVals, // in degrees
 #ifdef _OPENMP
     }
 #endif
+    if (samples.empty())
+        return MIFI_PI; // no defined coordinates
     const double max_grid_d = acos(*(min_element(samples.begin(), samples.end()))) * 1.414; // allow a bit larger extrapolation (diagonal = sqrt(2))
     return std::min(max_grid_d, MIFI_PI);
 }
@@ -1273,7 +1276,10 @@ void CDMInterpolator::changeProjectionByForwardInterpolation(int method, const s
         const size_t orgXDimSize = p_->dataReader->getCDM().getDimension(orgXDimName).getLength();
         const size_t orgYDimSize = p_->dataReader->getCDM().getDimension(orgYDimName).getLength();
         size_t orgXYSize;
-        if (shape_lat.size() == 1) {
+        const bool lonLat1D = (shape_lat.size() == 1);
+        if (orgLonSize < (lonLat1D ? orgXDimSize : orgXDimSize * orgYDimSize) || orgLatSize < (lonLat1D ? orgYDimSize : orgLonSize))
+            throw CDMException("not enough values in '" + name_lat + "' or '" + name_lon + "'");
+        if (lonLat1D) {
             // create new latVals and lonVals as a matrix
             lonLatVals2Matrix(orgLonVals, orgLatVals, orgXDimSize, orgYDimSize);
             orgXYSize = orgLonSize * orgLatSize;
@@ -1344,6 +1350,8 @@ void CDMInterpolator::changeProjectionByCoordinates(int method, const string& pr
         LOG4FIMEX(logger, Logger::DEBUG, "x and y axis: " << orgXDimName << "," << orgYDimName);
         const size_t orgXDimSize = p_->dataReader->getCDM().getDimension(orgXDimName).getLength();
         const size_t orgYDimSize = p_->dataReader->getCDM().getDimension(orgYDimName).getLength();
+        if (lonSize < (latLonProj ? orgXDimSize : orgXDimSize * orgYDimSize) || latSize < (latLonProj ? orgYDimSize : orgXDimSize * orgYDimSize))
+            throw CDMException("not enough values in '" + latitude + "' or '" + longitude + "'");
         if (latLonProj) {
             // create new latVals and lonVals as a matrix
             lonLatVals2Matrix(lonVals, latVals, orgXDimSize, orgYDimSize);
-- 
2.43.0


From 12853db0dd6d178cd764f66b9d181f91e5a6ddfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 161/173] fix: compare the sizes of data before combining them

---
 src/CDMExtractor.cc | 3 ++-
 src/CDMOverlay.cc   | 8 ++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/CDMExtractor.cc b/src/CDMExtractor.cc
index 6f1f1af..58e6e4a 100644
--- a/src/CDMExtractor.cc
+++ b/src/CDMExtractor.cc
@@ -89,7 +89,8 @@ DataPtr joinSlices(CDMReader_p reader, std::string varName, const std::vector<Sl
     size_t dataPos = 0;
     for (size_t i = 0; i < slices.size(); i++) {
         if (DataPtr sliceData = reader->getDataSlice(varName, slices[i])) {
-            assert(sliceData->size() == sliceSizes[i]);
+            if (sliceData->size() != sliceSizes[i])
+                throw CDMException("data of variable '" + varName + "' does not have the size of the slice");
             if (sliceData->size() > 0)
                 retData->setValues(dataPos, *sliceData);
         }
diff --git a/src/CDMOverlay.cc b/src/CDMOverlay.cc
index d7b9b8e..9ce4070 100644
--- a/src/CDMOverlay.cc
+++ b/src/CDMOverlay.cc
@@ -71,6 +71,12 @@ template<class T> bool value_is_nan(T) { return false; }
 template<> bool value_is_nan<float>(float f) { return mifi_isnan(f); }
 template<> bool value_is_nan<double>(double d) { return mifi_isnan(d); }
 
+void checkSameSize(const std::string& varName, DataPtr sliceT, DataPtr sliceB)
+{
+    if (!sliceT || !sliceB || sliceT->size() != sliceB->size())
+        THROW("data of variable '" << varName << "' have different sizes in top and base");
+}
+
 template <class T>
 DataPtr overlayDataSlices(T fillT, T fillB, DataPtr sliceT, DataPtr sliceB)
 {
@@ -121,6 +127,7 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
     {
         DataPtr sliceT = p->readerT->getDataSlice(varName, unLimDimPos);
         DataPtr sliceB = p->interpolatedB->getDataSlice(varName, unLimDimPos);
+        checkSameSize(varName, sliceT, sliceB);
         if (dtT == CDM_FLOAT) {
             LOG4FIMEX(logger, Logger::DEBUG, "overlay using float without scaling");
             return overlayDataSlices<float>(cdmT.getFillValue(varName), cdmB.getFillValue(varName), sliceT, sliceB);
@@ -145,6 +152,7 @@ DataPtr CDMOverlay::getDataSlice(const std::string &varName, size_t unLimDimPos)
         sliceB = p->interpolatedB->getScaledDataSliceInUnit(varName, unitsT, unLimDimPos);
     }
 
+    checkSameSize(varName, sliceT, sliceB);
     for (size_t i=0; i<sliceB->size(); ++i) {
       const double valueT = sliceT->getDouble(i);
       if (not mifi_isnan(valueT))
-- 
2.43.0


From 1a0264839f7a6d9c39f3c62d2a46b14695d6cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 162/173] fix: merge variables without horizontal axes

---
 src/CDMMergeUtils.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/CDMMergeUtils.cc b/src/CDMMergeUtils.cc
index 7ba48dd..b2b9eb4 100644
--- a/src/CDMMergeUtils.cc
+++ b/src/CDMMergeUtils.cc
@@ -216,10 +216,11 @@ bool is_compatible(CDMReader_p readerB, CDMReader_p readerT, const CoordinateSys
                 LOG_INCOMPATIBLE("mismatch in dimensions with length!=1");
 
             // must reach x/y axis at the same time
-            const bool isGeoXB = (shapeB[idxB] == csB->getGeoXAxis()->getName()),
-                    isGeoXT = (shapeT[idxT] == csT->getGeoXAxis()->getName()),
-                    isGeoYB = (shapeB[idxB] == csB->getGeoYAxis()->getName()),
-                    isGeoYT = (shapeT[idxT] == csT->getGeoYAxis()->getName());
+            const auto isAxis = [](const string& dim, CoordinateAxis_cp axis) { return axis && dim == axis->getName(); };
+            const bool isGeoXB = isAxis(shapeB[idxB], csB->getGeoXAxis()),
+                    isGeoXT = isAxis(shapeT[idxT], csT->getGeoXAxis()),
+                    isGeoYB = isAxis(shapeB[idxB], csB->getGeoYAxis()),
+                    isGeoYT = isAxis(shapeT[idxT], csT->getGeoYAxis());
             if (isGeoXB != isGeoXT or isGeoYB != isGeoYT)
                 LOG_INCOMPATIBLE("geo x/y mismatch");
 
-- 
2.43.0


From aa029b06cf660344b7930deb3811cbc95bcd65be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 163/173] fix: no accumulation outside the unlimited dimension

---
 src/CDMProcessor.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 899bb85..3412865 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -628,7 +628,9 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
     // accumulation
     if (p_->accumulateVars.find(varName) != p_->accumulateVars.end()) {
         LOG4FIMEX(logger, Logger::DEBUG, varName << " at slice " << unLimDimPos << " accumulate");
-        if (unLimDimPos > 0) { // cannot accumulate first
+        const CDMDimension* unLimDim = cdm_->getUnlimitedDim();
+        const bool inRange = !unLimDim || unLimDimPos < unLimDim->getLength();
+        if (unLimDimPos > 0 && inRange) { // cannot accumulate first
             size_t start = 0;
             if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
                 start = p_->sliceCache.ulimDimPos + 1;
-- 
2.43.0


From 8f912491e8c9dd519bba3e98b679afddb9e7759b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 164/173] fix: vertical transformations of empty slices

---
 src/coordSys/verticalTransform/AltitudeHeightConverter.cc     | 2 ++
 src/coordSys/verticalTransform/AtmosphereHybridHeight.cc      | 2 ++
 .../verticalTransform/HybridSigmaApToPressureConverter.cc     | 2 ++
 .../verticalTransform/HybridSigmaToPressureConverter.cc       | 2 ++
 .../verticalTransform/LnPressureToPressureConverter.cc        | 2 ++
 .../verticalTransform/OceanSCoordinateGToDepthConverter.cc    | 4 +++-
 .../PressureIntegrationToAltitudeConverter.cc                 | 2 ++
 src/coordSys/verticalTransform/SigmaToPressureConverter.cc    | 2 ++
 src/coordSys/verticalTransform/VerticalTransformationUtils.cc | 4 ++--
 9 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/coordSys/verticalTransform/AltitudeHeightConverter.cc b/src/coordSys/verticalTransform/AltitudeHeightConverter.cc
index a4f4f5a..69b83b7 100644
--- a/src/coordSys/verticalTransform/AltitudeHeightConverter.cc
+++ b/src/coordSys/verticalTransform/AltitudeHeightConverter.cc
@@ -116,6 +116,8 @@ DataPtr AltitudeHeightConverter::getDataSlice(const SliceBuilder& sb) const
 
     ArrayDims out_dims = makeArrayDims(sb);
     auto out_values = make_shared_array<double>(out_dims.volume());
+    if (out_dims.volume() == 0)
+        return createData(0, out_values);
 
     enum { TOPO, IN_ALTI, OUT_HEIGHT };
     ArrayGroup group = ArrayGroup().add(topo.dims).add(altiOrHeight.dims).add(out_dims);
diff --git a/src/coordSys/verticalTransform/AtmosphereHybridHeight.cc b/src/coordSys/verticalTransform/AtmosphereHybridHeight.cc
index 0c9339f..c082579 100644
--- a/src/coordSys/verticalTransform/AtmosphereHybridHeight.cc
+++ b/src/coordSys/verticalTransform/AtmosphereHybridHeight.cc
@@ -73,6 +73,8 @@ DataPtr HybridToAltitudeConverter::getDataSlice(const SliceBuilder& sb) const
 
     ArrayDims out_dims = makeArrayDims(sb);
     auto out_values = make_shared_array<double>(out_dims.volume());
+    if (out_dims.volume() == 0)
+        return createData(0, out_values);
 
     enum { OROG, B, A, OUT };
     ArrayGroup group;
diff --git a/src/coordSys/verticalTransform/HybridSigmaApToPressureConverter.cc b/src/coordSys/verticalTransform/HybridSigmaApToPressureConverter.cc
index 157cd04..9a90e9a 100644
--- a/src/coordSys/verticalTransform/HybridSigmaApToPressureConverter.cc
+++ b/src/coordSys/verticalTransform/HybridSigmaApToPressureConverter.cc
@@ -78,6 +78,8 @@ DataPtr HybridSigmaApToPressureConverter::getDataSlice(const SliceBuilder& sb) c
 
     ArrayDims out_dims = makeArrayDims(sb);
     auto out_values = make_shared_array<double>(out_dims.volume());
+    if (out_dims.volume() == 0)
+        return createData(0, out_values);
 
     enum { PS, AP, B, OUT/*, IN_P0*/ };
     ArrayGroup group;
diff --git a/src/coordSys/verticalTransform/HybridSigmaToPressureConverter.cc b/src/coordSys/verticalTransform/HybridSigmaToPressureConverter.cc
index 59deab0..5e460f6 100644
--- a/src/coordSys/verticalTransform/HybridSigmaToPressureConverter.cc
+++ b/src/coordSys/verticalTransform/HybridSigmaToPressureConverter.cc
@@ -72,6 +72,8 @@ DataPtr HybridSigmaToPressureConverter::getDataSlice(const SliceBuilder& sb) con
 
     ArrayDims out_dims = makeArrayDims(sb);
     auto out_values = make_shared_array<double>(out_dims.volume());
+    if (out_dims.volume() == 0)
+        return createData(0, out_values);
 
     enum { PS, A, B, OUT };
     ArrayGroup group;
diff --git a/src/coordSys/verticalTransform/LnPressureToPressureConverter.cc b/src/coordSys/verticalTransform/LnPressureToPressureConverter.cc
index 5181f9c..82ff271 100644
--- a/src/coordSys/verticalTransform/LnPressureToPressureConverter.cc
+++ b/src/coordSys/verticalTransform/LnPressureToPressureConverter.cc
@@ -57,6 +57,8 @@ DataPtr LnPressureToPressureConverter::getDataSlice(const SliceBuilder& sb) cons
 
     ArrayDims out_dims = makeArrayDims(sb);
     auto out_values = make_shared_array<double>(out_dims.volume());
+    if (out_dims.volume() == 0)
+        return createData(0, out_values);
 
     enum { P0, LNP, OUT };
     ArrayGroup group;
diff --git a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
index 7d8f4d8..0e918e5 100644
--- a/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
+++ b/src/coordSys/verticalTransform/OceanSCoordinateGToDepthConverter.cc
@@ -69,7 +69,7 @@ DataPtr OceanSCoordinateGToDepthConverter::getDataSlice(const SliceBuilder& sb)
     const CDM& cdm = reader_->getCDM();
 
     DataPtr depth_cData = getSliceData(reader_, sb, vars_.depth_c, "m");
-    const double depth_c = depth_cData ? depth_cData->asDouble()[0] : 0;
+    const double depth_c = (depth_cData && depth_cData->size() > 0) ? depth_cData->asDouble()[0] : 0;
 
     VarDouble s(reader_,  vars_.s, "", sb);
     VarDouble c(reader_, vars_.C, "", sb);
@@ -79,6 +79,8 @@ DataPtr OceanSCoordinateGToDepthConverter::getDataSlice(const SliceBuilder& sb)
 
     ArrayDims dimsZ = makeArrayDims(sb);
     auto z_values = make_shared_array<double>(dimsZ.volume());
+    if (dimsZ.volume() == 0)
+        return createData(0, z_values);
 
     enum { S, C, DEPTH, Z, ETA }; // ETA must be last as it is optional
     ArrayGroup group = ArrayGroup().add(s.dims).add(c.dims).add(depth.dims).add(dimsZ);
diff --git a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
index 51c8cee..d6a9a83 100644
--- a/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
+++ b/src/coordSys/verticalTransform/PressureIntegrationToAltitudeConverter.cc
@@ -138,6 +138,8 @@ DataPtr PressureIntegrationToAltitudeConverter::getDataSlice(const SliceBuilder&
     SliceBuilder sbPressure = adaptSliceBuilder(rcdm, pressure_, sbOut);
     sbPressure.setAll(zName);
     VarFloat pressure(reader_, pressure_, sbPressure);
+    if (!pressure || pressure.dims.volume() == 0)
+        return DataPtr();
     const size_t dZPressure = pressure.dims.delta(zName);
 
     bool start_high_p;
diff --git a/src/coordSys/verticalTransform/SigmaToPressureConverter.cc b/src/coordSys/verticalTransform/SigmaToPressureConverter.cc
index 0edd0a4..00d411f 100644
--- a/src/coordSys/verticalTransform/SigmaToPressureConverter.cc
+++ b/src/coordSys/verticalTransform/SigmaToPressureConverter.cc
@@ -57,6 +57,8 @@ DataPtr SigmaToPressureConverter::getDataSlice(const SliceBuilder& sb) const
 
     ArrayDims out_dims = makeArrayDims(sb);
     auto out_values = make_shared_array<double>(out_dims.volume());
+    if (out_dims.volume() == 0)
+        return createData(0, out_values);
 
     enum { PS, PTOP, SIGMA, OUT };
     ArrayGroup group;
diff --git a/src/coordSys/verticalTransform/VerticalTransformationUtils.cc b/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
index 54e2100..9d85faa 100644
--- a/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
+++ b/src/coordSys/verticalTransform/VerticalTransformationUtils.cc
@@ -475,14 +475,14 @@ DataPtr checkData(DataPtr data, size_t expected, const std::string& what)
 Var::Var(CDMReader_p reader, const std::string& varName, const std::string& unit, const SliceBuilder& sbOrig)
     : sb(adaptSliceBuilder(reader->getCDM(), varName, sbOrig))
     , dims(makeArrayDims(sb))
-    , data(getSliceData(reader, sb, varName, unit))
+    , data(checkSize(getSliceData(reader, sb, varName, unit), dims.volume(), varName))
 {
 }
 
 Var::Var(CDMReader_p reader, VerticalConverter_p converter, const SliceBuilder& sbOrig)
     : sb(adaptSliceBuilder(reader->getCDM(), converter, sbOrig))
     , dims(makeArrayDims(sb))
-    , data(converter->getDataSlice(sb))
+    , data(checkSize(converter->getDataSlice(sb), dims.volume(), "vertical converter"))
 {
 }
 
-- 
2.43.0


From 0e7c3d5ed881ef294e3e54eca88995b37c0a1c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 165/173] fix: clamp_lon ends for infinite longitudes

---
 src/io/grib/GribApiCDMWriter_Impl2.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/io/grib/GribApiCDMWriter_Impl2.cc b/src/io/grib/GribApiCDMWriter_Impl2.cc
index 16eef11..0355f05 100644
--- a/src/io/grib/GribApiCDMWriter_Impl2.cc
+++ b/src/io/grib/GribApiCDMWriter_Impl2.cc
@@ -49,11 +49,10 @@
 namespace {
 double clamp_lon(double lon)
 {
-    while (lon < 0) {
-        lon += 360;
-    }
-    while (lon > 360) {
-        lon -= 360;
+    if (lon < 0 || lon > 360) {
+        lon = std::fmod(lon, 360); // nan if not finite
+        if (lon < 0)
+            lon += 360;
     }
     return lon;
 }
-- 
2.43.0


From 2b477e6a0c96e771ad539be0986c8845e374745b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:13 +0000
Subject: [PATCH 166/173] fix: refuse felt configurations with different
 numbers of ap and b

---
 src/CDMAttribute.cc           | 2 +-
 src/io/felt/FeltCDMReader2.cc | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CDMAttribute.cc b/src/CDMAttribute.cc
index 937d287..d0fc782 100644
--- a/src/CDMAttribute.cc
+++ b/src/CDMAttribute.cc
@@ -107,7 +107,7 @@ std::string CDMAttribute::getStringValueWithSeparator(const std::string& separat
 
 CDMDataType CDMAttribute::getDataType() const
 {
-    return data->getDataType();
+    return data ? data->getDataType() : CDM_NAT;
 }
 
 void CDMAttribute::toXMLStream(std::ostream& out, const std::string& indent) const
diff --git a/src/io/felt/FeltCDMReader2.cc b/src/io/felt/FeltCDMReader2.cc
index cfc5ddb..40784b6 100644
--- a/src/io/felt/FeltCDMReader2.cc
+++ b/src/io/felt/FeltCDMReader2.cc
@@ -115,8 +115,12 @@ vector<double> FeltCDMReader2::readValuesFromXPath(const XMLDoc& doc, const stri
                 double p0 = 100000;
                 const CDMVariable& ap = getCDM().getVariable("ap");
                 const CDMVariable& b = getCDM().getVariable("b");
+                if (!ap.getData() || !b.getData())
+                    throw CDMException("no values of ap or b for hybridSigmaCalc");
                 auto apData = ap.getData()->asDouble();
                 auto bData = b.getData()->asDouble();
+                if (ap.getData()->size() != b.getData()->size())
+                    throw CDMException("ap and b for hybridSigmaCalc have different sizes");
                 for (size_t i = 0; i < ap.getData()->size(); ++i) {
                     retValues.push_back(apData[i] / p0 + bData[i]);
                 }
-- 
2.43.0


From 47c0474c22eaa1e18a6316cdbbcc691bbe51018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:46 +0000
Subject: [PATCH 167/173] fix: errors of the interpolation are reported outside
 of the parallel region

---
 src/CachedInterpolation.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/CachedInterpolation.cc b/src/CachedInterpolation.cc
index 4cd69cb..fe05b6a 100644
--- a/src/CachedInterpolation.cc
+++ b/src/CachedInterpolation.cc
@@ -64,6 +64,8 @@ CachedInterpolationInterface::CachedInterpolationInterface(const std::string& xD
     , outX(outX)
     , outY(outY)
 {
+    if (inX == 0 || inY == 0)
+        throw CDMException("cannot interpolate from an empty grid");
 }
 
 CachedInterpolationInterface::~CachedInterpolationInterface() {}
@@ -232,11 +234,11 @@ shared_array<float> CachedInterpolation::interpolateValues(shared_array<float> i
     newSize = outLayerSize*inZ;
     auto outfield = make_shared_array<float>(newSize);
 
+    bool error = false;
 #ifdef _OPENMP
-#pragma omp parallel default(shared)
+#pragma omp parallel default(shared) reduction(|| : error)
     {
 #endif
-        bool error = false;
         std::unique_ptr<float[]> zValues(new float[inZ]);
 #ifdef _OPENMP
 #pragma omp for
@@ -254,11 +256,11 @@ shared_array<float> CachedInterpolation::interpolateValues(shared_array<float> i
             }
         }
     }
-    if (error)
-        throw CDMException("error during interpolation");
 #ifdef _OPENMP
     }
 #endif
+    if (error)
+        throw CDMException("error during interpolation");
 
     return outfield;
 }
-- 
2.43.0


From 782ce629a1c92e9ae9d8e007671f3cb25cd7bcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:05 +0000
Subject: [PATCH 168/173] fix: forward interpolation and reprojection do not
 share state between threads

---
 src/CachedForwardInterpolation.cc | 17 ++++++++++++++---
 src/reproject.cc                  | 15 +++++++++------
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/src/CachedForwardInterpolation.cc b/src/CachedForwardInterpolation.cc
index f81f08b..cdcdb39 100644
--- a/src/CachedForwardInterpolation.cc
+++ b/src/CachedForwardInterpolation.cc
@@ -56,6 +56,7 @@ struct Aggregator
     virtual ~Aggregator();
     virtual void push(float f) = 0;
     virtual float get_and_reset() = 0;
+    virtual std::unique_ptr<Aggregator> clone() const = 0;
 };
 
 Aggregator::~Aggregator() {}
@@ -64,7 +65,11 @@ struct AggSimple : Aggregator
 {
     size_t count;
     float val;
-    AggSimple() { reset(0); }
+    AggSimple()
+        : count(0)
+        , val(0)
+    {
+    }
     float get_and_reset() override { return reset(val); }
     float reset(float v)
     {
@@ -78,6 +83,7 @@ struct AggSimple : Aggregator
 
 struct AggSum : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggSum(*this)); }
     void push(float f) override
     {
         count += 1;
@@ -87,11 +93,13 @@ struct AggSum : AggSimple
 
 struct AggMean : AggSum
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMean(*this)); }
     float get_and_reset() override { return reset(count > 0 ? val / count : 0); }
 };
 
 struct AggMin : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMin(*this)); }
     void push(float f) override
     {
         if (count == 0 || f < val)
@@ -102,6 +110,7 @@ struct AggMin : AggSimple
 
 struct AggMax : AggSimple
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMax(*this)); }
     void push(float f) override
     {
         if (count == 0 || f > val)
@@ -112,6 +121,7 @@ struct AggMax : AggSimple
 
 struct AggMedian : Aggregator
 {
+    std::unique_ptr<Aggregator> clone() const override { return std::unique_ptr<Aggregator>(new AggMedian(*this)); }
     std::vector<float> values;
     AggMedian(size_t n) { values.reserve(n); }
     void push(float f) override { values.push_back(f); }
@@ -209,6 +219,7 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
     size_t inZ = size / inLayerSize;
     newSize = outLayerSize*inZ;
     auto outData = make_shared_array<float>(newSize);
+    const std::unique_ptr<Aggregator> aggregator = agg->clone(); // not shared between threads
     for (size_t z = 0; z < inZ; ++z) {
         float* outDataIt = &outData[z*outLayerSize];
         for (size_t i = 0; i < outLayerSize; i++) {
@@ -216,11 +227,11 @@ shared_array<float> CachedForwardInterpolation::interpolateValues(shared_array<f
             for (size_t ii : pointsInIn[i]) {
                 const float val = inData[z * inLayerSize + ii];
                 if (!mifi_isnan(val))
-                    agg->push(val);
+                    aggregator->push(val);
                 else if (undefAggr)
                     undefined = true; // value+undef=undef
             }
-            const float aggregated = agg->get_and_reset();
+            const float aggregated = aggregator->get_and_reset();
             *outDataIt++ = undefined ? MIFI_UNDEFINED_F : aggregated;
         }
     }
diff --git a/src/reproject.cc b/src/reproject.cc
index a46a639..c3c464c 100644
--- a/src/reproject.cc
+++ b/src/reproject.cc
@@ -55,17 +55,20 @@ Logger_p logger = getLogger("fimex.reproject");
 
 PJ_CONTEXT* crs2crs_ctx()
 {
-    static PJ_CONTEXT* pj_ctx = 0;
-    if (!pj_ctx) {
-        pj_ctx = proj_context_create();
-    }
-    return pj_ctx;
+    // a context may only be used by one thread at a time
+    static thread_local std::unique_ptr<PJ_CONTEXT, PJ_CONTEXT* (*)(PJ_CONTEXT*)> pj_ctx(proj_context_create(), proj_context_destroy);
+    return pj_ctx.get();
 }
 
 void throw_proj_error(int pe)
 {
     std::ostringstream out;
-    out << "Proj error:" << pe << " " << proj_errno_string(pe);
+    out << "Proj error:" << pe;
+#if PROJ_VERSION_MAJOR >= 8
+    out << " " << proj_context_errno_string(crs2crs_ctx(), pe); // proj_errno_string is not thread-safe
+#else
+    out << " " << proj_errno_string(pe);
+#endif
     throw CDMException(out.str());
 }
 
-- 
2.43.0


From 754e772f0346e8fcbe90a2d67e1cca981f3bddb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:50 +0000
Subject: [PATCH 169/173] fix: the slices cached by the accumulation are
 guarded

---
 src/CDMProcessor.cc | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/CDMProcessor.cc b/src/CDMProcessor.cc
index 3412865..0b3879c 100644
--- a/src/CDMProcessor.cc
+++ b/src/CDMProcessor.cc
@@ -34,6 +34,7 @@
 #include "fimex/CachedVectorReprojection.h"
 #include "fimex/Data.h"
 #include "fimex/Logger.h"
+#include "fimex/MutexLock.h"
 #include "fimex/Type2String.h"
 #include "fimex/coordSys/CoordinateAxis.h"
 #include "fimex/coordSys/CoordinateSystem.h"
@@ -105,6 +106,7 @@ struct CDMProcessor::CDMProcessorImpl
     // rotationId -> cachedVectorReprojection
     map<string, CachedVectorReprojection_p> cachedVectorReprojection;
     SliceCache sliceCache;
+    OmpMutex sliceCacheMutex;
     VerticalVelocityComps vvComp;
 
     VerticalConverter_p altitudeConverter;
@@ -632,12 +634,17 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
         const bool inRange = !unLimDim || unLimDimPos < unLimDim->getLength();
         if (unLimDimPos > 0 && inRange) { // cannot accumulate first
             size_t start = 0;
-            if (p_->sliceCache.varName == varName && p_->sliceCache.ulimDimPos <= unLimDimPos) {
-                start = p_->sliceCache.ulimDimPos + 1;
-                if (p_->sliceCache.ulimDimPos == unLimDimPos) {
-                    data = p_->sliceCache.data->clone();
+            SliceCache cached;
+            {
+                OmpScopedLock lock(p_->sliceCacheMutex);
+                cached = p_->sliceCache;
+            }
+            if (cached.varName == varName && cached.ulimDimPos <= unLimDimPos) {
+                start = cached.ulimDimPos + 1;
+                if (cached.ulimDimPos == unLimDimPos) {
+                    data = cached.data->clone();
                 } else {
-                    DataPtr dataP = p_->sliceCache.data;
+                    DataPtr dataP = cached.data;
                     addDataP2Data(data, dataP, false);
                 }
             }
@@ -647,9 +654,11 @@ DataPtr CDMProcessor::getDataSlice(const std::string& varName, size_t unLimDimPo
                 addDataP2Data(data, dataP, i == 0);
             }
             // fill the cache
-            p_->sliceCache.varName = varName;
-            p_->sliceCache.ulimDimPos = unLimDimPos;
-            p_->sliceCache.data = data->clone();
+            cached.varName = varName;
+            cached.ulimDimPos = unLimDimPos;
+            cached.data = data->clone();
+            OmpScopedLock lock(p_->sliceCacheMutex);
+            p_->sliceCache = cached;
         }
     }
 
-- 
2.43.0


From 59ca9c0147c6a9ebffe4a770fe893840001b6734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:05 +0000
Subject: [PATCH 170/173] fix: the error flag of the parallel NetCDF writer is
 atomic

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index 69cc0ef..c81c3ef 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -39,6 +39,7 @@
 
 #include "NetCDF_Utils.h"
 
+#include <atomic>
 #include <cmath>
 #include <functional>
 #include <memory>
@@ -597,7 +598,7 @@ void NetCDF_CDMWriter::writeData(const NcVarIdMap& ncVarMap)
     // see http://www.unidata.ucar.edu/support/help/MailArchives/netcdf/msg10905.html
     // use unLimDimPos = -1 for variables without unlimited dimension
 
-    bool exceptions = false;
+    std::atomic<bool> exceptions(false); // set and read by all threads
 #ifdef _OPENMP
 #if (defined(__GNUC__) && __GNUC__ >= 9) || defined(__clang__)
 #pragma omp parallel for default(none) shared(logger, cdmVars, ncVarMap, maxUnLim, unLimDimId, exceptions)
-- 
2.43.0


From 5e8b5f204aa7563cf4ce729c526f2e2d8db65abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:43 +0000
Subject: [PATCH 171/173] fix: attributes without value are not dereferenced,
 except for the flag no_rotation

---
 src/coordSys/ProjectionImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordSys/ProjectionImpl.cc b/src/coordSys/ProjectionImpl.cc
index 54eeaa6..c2bb68e 100644
--- a/src/coordSys/ProjectionImpl.cc
+++ b/src/coordSys/ProjectionImpl.cc
@@ -100,8 +100,8 @@ void ProjectionImpl::addParameter(const CDMAttribute& attribute)
 void ProjectionImpl::addParameters(const std::vector<CDMAttribute>& attributes)
 {
     for (const CDMAttribute& attr : attributes) {
-        if (!attr.getData() || attr.getData()->size() == 0)
-            continue; // attributes without value do not define anything
+        if (attr.getName() != "no_rotation" && (!attr.getData() || attr.getData()->size() == 0))
+            continue; // attributes without value do not define anything; no_rotation is a flag
         addParameter(attr);
     }
 }
-- 
2.43.0


From 43c5d51df14c05aee01caf812a949b4ca3036953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:13 +0000
Subject: [PATCH 172/173] fix: NaN is written as fill value when the writer
 config changes the type only

---
 src/io/netcdf/NetCDF_CDMWriter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/io/netcdf/NetCDF_CDMWriter.cc b/src/io/netcdf/NetCDF_CDMWriter.cc
index c81c3ef..6dc241d 100644
--- a/src/io/netcdf/NetCDF_CDMWriter.cc
+++ b/src/io/netcdf/NetCDF_CDMWriter.cc
@@ -552,7 +552,7 @@ DataPtr NetCDF_CDMWriter::convertData(const CDMVariable& var, DataPtr data)
     const std::string oldUnit = cdmReader->getCDM().getUnits(varName);
     const std::string newUnit = cdm.getUnits(varName);
 
-    const CDMDataType oldType = var.getDataType();
+    const CDMDataType oldType = cdmReader->getCDM().getVariable(varName).getDataType(); // type of var might have been changed by the config
     const std::map<std::string, CDMDataType>::const_iterator it = variableTypeChanges.find(varName);
     const CDMDataType newType = (it != variableTypeChanges.end()) ? it->second : oldType;
 
-- 
2.43.0


From c27e89895b2dd2be2d46ea89dac913cb3ccc2f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:39 +0000
Subject: [PATCH 173/173] fix: GRIB writer writes every time of every forecast
 run, not the first time of the first run

---
 src/io/grib/GribApiCDMWriter_ImplAbstract.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
index 1208149..1df5e8c 100644
--- a/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
+++ b/src/io/grib/GribApiCDMWriter_ImplAbstract.cc
@@ -222,6 +222,7 @@ void GribApiCDMWriter_ImplAbstract::run()
             CoordinateSystemSliceBuilder sb(cdm, *varSysIt);
             sb.setAll(xAxis->getName());
             sb.setAll(yAxis->getName());
+            CoordinateSystemSliceBuilder sbTimes(cdm, *varSysIt); // never restricted in time
             // handling of time
             vector<FimexTime> refTimes;
             vector<FimexTime> vTimes;
@@ -291,9 +292,10 @@ void GribApiCDMWriter_ImplAbstract::run()
                 if (refTimes.size() > 1) {
                     vTimes.clear(); // will be filled anew
                     sb.setReferenceTimePos(rtPos);
+                    sbTimes.setReferenceTimePos(rtPos);
                     stringstream ss;
                     ss << "seconds since " << make_time_string_extended(rTime);
-                    DataPtr times = cdmReader->getScaledDataSliceInUnit(tAxis->getName(), ss.str(), sb.getTimeVariableSliceBuilder());
+                    DataPtr times = cdmReader->getScaledDataSliceInUnit(tAxis->getName(), ss.str(), sbTimes.getTimeVariableSliceBuilder());
                     auto timesA = times->asInt64();
                     TimeUnit tu(ss.str());
                     transform(&timesA[0], &timesA[0] + times->size(), back_inserter(vTimes),
@@ -340,6 +342,7 @@ void GribApiCDMWriter_ImplAbstract::run()
                         }
                     }
                 }
+                ++rtPos;
             }
             for (map<string, string>::iterator w = variableWarnings.begin(); w != variableWarnings.end(); ++w) {
                 LOG4FIMEX(logger, Logger::WARN, "unable to write parameter " << w->first << ": " << w->second);
-- 
2.43.0

