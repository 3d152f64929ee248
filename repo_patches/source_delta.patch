From f7c0ad97f436332671c19477bb2e7a18afb6cd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:16 +0000
Subject: [PATCH 01/23] fix: make TimeSeries assignment copy the right length
 and drop the stale envelope

Copy assignment allocated and copied with the old length of the target, so
assigning between owning series of different lengths overran or truncated the
buffer. Assigning a series to itself freed its data first. Both assignments
kept the cached Keogh envelope of the previous contents.
---
 genex/TimeSeries.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index a672d95..d5834a8 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -66,6 +66,9 @@ TimeSeries::TimeSeries(const TimeSeries& other)
 
 TimeSeries& TimeSeries::operator=(const TimeSeries& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon
     delete[] this->data;
@@ -73,8 +76,8 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   if (other.isOwnerOfData)
   {
     // If the data is internal to the TimeSeries, copy this data
-    this->data = new data_t[length];
-    memcpy(this->data, other.data, length * sizeof(data_t));
+    this->data = new data_t[other.length];
+    memcpy(this->data, other.data, other.length * sizeof(data_t));
   }
   else {
     // If the data is external, only need to copy the referring pointer
@@ -86,12 +89,16 @@ TimeSeries& TimeSeries::operator=(const TimeSeries& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
 
 TimeSeries& TimeSeries::operator=(TimeSeries&& other)
 {
+  if (this == &other) {
+    return *this;
+  }
   if (isOwnerOfData) {
     // If the data is internal, remove it as it will be replaced soon    
     delete[] this->data;
@@ -106,6 +113,7 @@ TimeSeries& TimeSeries::operator=(TimeSeries&& other)
   start = other.start;
   end = other.end;
   length = other.length;
+  keoghCacheValid = false;
 
   return *this;
 }
-- 
2.43.0


From 07d33804ef69d6587ab131a81f47c5e8cb089052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:16 +0000
Subject: [PATCH 02/23] fix: compare different windows of one array by their
 points

Two series viewing the same array were reported equal even when they covered
different positions or lengths.
---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index d5834a8..2b6461d 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -156,7 +156,7 @@ TimeSeries& TimeSeries::operator+=(const TimeSeries& other)
 
 bool TimeSeries::operator==(const TimeSeries& other) const
 {
-  if (this->data == other.data) {
+  if (this->data == other.data && this->start == other.start && this->length == other.length) {
     return true;
   }
   else if (this->data == nullptr || other.data == nullptr) {
-- 
2.43.0


From cba8441bbebc85a56d25987659cbf5bc91c47971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:16 +0000
Subject: [PATCH 03/23] fix: start the sum of TimeSeries::average at zero

---
 genex/TimeSeries.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.cpp b/genex/TimeSeries.cpp
index 2b6461d..21c6716 100755
--- a/genex/TimeSeries.cpp
+++ b/genex/TimeSeries.cpp
@@ -174,7 +174,7 @@ bool TimeSeries::operator==(const TimeSeries& other) const
 }
 
 data_t TimeSeries::average() {
-  data_t sum;
+  data_t sum = 0;
   for (int i = 0; i < this->length; i++) {
     sum += data[this->start + i];
   }
-- 
2.43.0


From 13e4a39e477c9b0120ffc52738a7eeeacb02555b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:16 +0000
Subject: [PATCH 04/23] fix: forget row lengths and the normalized flag when
 clearing a dataset

Loading a second file into the same dataset kept the lengths of the first one
in front, so rows were read with lengths of other rows.
---
 genex/TimeSeriesSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index a4e7586..c895da0 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -176,6 +176,8 @@ void TimeSeriesSet::clearData()
   this->itemCount = 0;
   this->maxCol = 0;
   this->names.clear();
+  this->lengths.clear();
+  this->normalized = false;
 }
 
 TimeSeries TimeSeriesSet::getTimeSeries(int index, int start, int end) const
-- 
2.43.0


From 1f256e287f160ae590d25a1a49f621a401c910e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:16 +0000
Subject: [PATCH 05/23] fix: order search candidates by a strict weak order

The order treated distances closer than a tolerance as equal. That relation is
not transitive, so the heap and sort operations on candidates had undefined
behaviour and could keep a farther candidate instead of a nearer one.
---
 genex/TimeSeries.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/TimeSeries.hpp b/genex/TimeSeries.hpp
index 542f161..026f429 100644
--- a/genex/TimeSeries.hpp
+++ b/genex/TimeSeries.hpp
@@ -211,7 +211,7 @@ struct candidate_time_series_t
 
   bool operator<(const candidate_time_series_t& rhs) const 
   {
-    if (std::abs(dist - rhs.dist) < EPS)
+    if (dist == rhs.dist)
     {
       if (data.getIndex() == rhs.data.getIndex())
       {
-- 
2.43.0


From 125a0cde3af24b5b0ffbcb902f5253ac89cd5644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:55 +0000
Subject: [PATCH 06/23] fix: keep the first row and column of the warping
 matrix inside the band

The first row and column were filled up to twice the band. For a series of one
point the last cell lies there, so pairs without a path inside the band got a
finite distance, and a different one when a cut-off was given.
---
 genex/distance/Distance.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index ea6f3a3..9913137 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -119,7 +119,7 @@ data_t warpedDistance(
   ncost[0][0] = metric->normDTW(cost[0][0], a, b);
 
   // calculate first column
-  for(int i = 1; i < min(2*r + 1, m); i++)
+  for(int i = 1; i < min(r + 1, m); i++)
   {
     cost[i][0] = metric->init();
     cost[i][0] = metric->reduce(cost[i][0], cost[i-1][0], a[i], b[0]);
@@ -127,7 +127,7 @@ data_t warpedDistance(
   }
 
   // calculate first row
-  for(int j = 1; j < min(2*r + 1, n); j++)
+  for(int j = 1; j < min(r + 1, n); j++)
   {
     cost[0][j] = metric->init();
     cost[0][j] = metric->reduce(cost[0][j], cost[0][j-1], a[0], b[j]);
-- 
2.43.0


From 5ef1dae2d510621c5ecfcf96976060d8ffb2dac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:55 +0000
Subject: [PATCH 07/23] fix: report only alignments inside the band and only
 when asked for

The trace-back read cells outside the band, which held zero, so the reported
alignment could leave the band and cost more than the distance. It was also
appended to the shared dummy list on every call, which grew without bound, and
was missing for two series of one point.
---
 genex/distance/Distance.hpp | 57 +++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 25 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 9913137..31e9a57 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -103,12 +103,16 @@ data_t warpedDistance(
     result = metric->reduce(result, result, a[0], b[0]);
     auto normalizedResult = metric->normDTW(result, a, b);
     metric->clean(result);
+    if (computeMatching)
+    {
+      matching.push_back(coord_t {0, 0});
+    }
     return normalizedResult;
   }
 
   // create cost matrix
   vector< vector< T >> cost(m, vector< T >(n));
-  vector< vector< data_t >> ncost(m, vector<data_t>(n));
+  vector< vector< data_t >> ncost(m, vector<data_t>(n, INF));
 
   // Preset this in case this cell is never reached due to the warping
   // band constraint
@@ -178,37 +182,40 @@ data_t warpedDistance(
     result = ncost[m - 1][n - 1];
   }
 
-  int i = m - 1;
-  int j = n - 1;
-  while ((i != 0) || (j != 0)) {
-    matching.push_back(coord_t {i, j});
-    if (i == 0) {
-      j--;
-    }
-    
-    else if (j == 0) {
-      i--;
-    }
-    
-    else {
-      double minNeighbor = std::min(ncost[i - 1][j - 1]
-                                    , std::min(ncost[i - 1][j]
-                                               , ncost[i][j - 1])
-                                    );
-      if (ncost[i - 1][j - 1] == minNeighbor) {
-        i--;
+  if (computeMatching)
+  {
+    int i = m - 1;
+    int j = n - 1;
+    while ((i != 0) || (j != 0)) {
+      matching.push_back(coord_t {i, j});
+      if (i == 0) {
         j--;
       }
-      else if (ncost[i - 1][j] == minNeighbor) {
+    
+      else if (j == 0) {
         i--;
       }
-      else if (ncost[i][j - 1] == minNeighbor) {
-        j--;
+    
+      else {
+        double minNeighbor = std::min(ncost[i - 1][j - 1]
+                                      , std::min(ncost[i - 1][j]
+                                                 , ncost[i][j - 1])
+                                      );
+        if (ncost[i - 1][j - 1] == minNeighbor) {
+          i--;
+          j--;
+        }
+        else if (ncost[i - 1][j] == minNeighbor) {
+          i--;
+        }
+        else if (ncost[i][j - 1] == minNeighbor) {
+          j--;
+        }
       }
     }
+    matching.push_back(coord_t {0, 0});
+    std::reverse(matching.begin(), matching.end());
   }
-  matching.push_back(coord_t {0, 0});
-  std::reverse(matching.begin(), matching.end());
   for(int i = 1; i < m; i++)
   {
     for(int j = 1; j < n; j++)
-- 
2.43.0


From b388d3a9a61a366b3602223029ff5ce31319ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:55 +0000
Subject: [PATCH 08/23] fix: do not crash or hang in warped distances that are
 undefined

Cosine and Sorensen are undefined when the leading points are zero. The
comparisons then all failed, an unset cell outside the band was used as
predecessor and the trace-back never ended. The first row and column of the
matrix were never released either.
---
 genex/distance/Distance.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index 31e9a57..b80e5f0 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -153,7 +153,7 @@ data_t warpedDistance(
       auto ij1  = (i - r <= j-1 && j-1 <= i + r) ? ncost[i][j-1] : INF;
       auto i1j1 = ncost[i-1][j-1];
       auto i1j  = (j - r <= i-1 && i-1 <= j + r) ? ncost[i-1][j] : INF;
-      T minPrev = cost[i-1][j];
+      T minPrev = cost[i-1][j-1];
       if (i1j1 < ij1 && i1j1 < i1j)
       {
         minPrev = cost[i-1][j-1];
@@ -162,6 +162,10 @@ data_t warpedDistance(
       {
         minPrev = cost[i][j-1];
       }
+      else if (i1j <= ij1 && i1j <= i1j1)
+      {
+        minPrev = cost[i-1][j];
+      }
       cost[i][j] = metric->init();
       cost[i][j] = metric->reduce(cost[i][j], minPrev, a[i], b[j]);
       ncost[i][j] = metric->normDTW(cost[i][j], a, b);
@@ -208,7 +212,7 @@ data_t warpedDistance(
         else if (ncost[i - 1][j] == minNeighbor) {
           i--;
         }
-        else if (ncost[i][j - 1] == minNeighbor) {
+        else {
           j--;
         }
       }
@@ -216,9 +220,9 @@ data_t warpedDistance(
     matching.push_back(coord_t {0, 0});
     std::reverse(matching.begin(), matching.end());
   }
-  for(int i = 1; i < m; i++)
+  for(int i = 0; i < m; i++)
   {
-    for(int j = 1; j < n; j++)
+    for(int j = 0; j < n; j++)
     {
       metric->clean(cost[i][j]);
     }
-- 
2.43.0


From c8407a9b1ec379e07438d72b5cbc8b9c685d02e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 09/23] fix: refuse empty series in warped distances

An empty row of a dataset used as query made the warped distance write before
the beginning of its matrix.
---
 genex/distance/Distance.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index b80e5f0..bdd0185 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -90,6 +90,11 @@ data_t warpedDistance(
   auto m = a.getLength();
   auto n = b.getLength();
   auto r = calculateWarpingBandSize(max(m, n));
+
+  if (m == 0 || n == 0)
+  {
+    throw GenexException("Warped distance is not defined for empty time series");
+  }
   
   static DM* metric;
   if (metric == nullptr) {
-- 
2.43.0


From cd907c427cf1098011a49f91b234e43646fffe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 10/23] fix: search with queries longer than every series or
 without candidates

The visiting order contained lengths beyond the longest one, which were used as
index outside the table of groups. When no group could be matched, a null
pointer was dereferenced.
---
 genex/group/GlobalGroupSpace.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 8cdd3f7..2f6f89f 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -157,6 +157,9 @@ GlobalGroupSpace::getBestMatch(const TimeSeries& query)
       }
     }
   }
+  if (bestSoFarGroup == nullptr) {
+    throw GenexException("No group can be matched with the query");
+  }
   return bestSoFarGroup->getBestMatch(query, this->warpedDistance);
 }
 
@@ -250,11 +253,13 @@ int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
 vector<int> generateTraverseOrder(int queryLength, int totalLength)
 {
   vector<int> order;
-  int low = queryLength - 1;
+  int low = min(queryLength - 1, totalLength);
   int high = queryLength + 1;
   bool lowStop = false, highStop = false;
 
-  order.push_back(queryLength);
+  if (queryLength <= totalLength) {
+    order.push_back(queryLength);
+  }
   while (!(lowStop && highStop)) {
     if (low < 2) lowStop = true;
     if (high > totalLength) highStop = true;
-- 
2.43.0


From 7856c4a9a55273a73cd9339796fd6967d866078c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 11/23] fix: return only real matches from the k-best search

When fewer than k subsequences can be matched, the result was padded with empty
entries of distance zero. A non-positive k read from an empty heap.
---
 genex/GroupableTimeSeriesSet.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1b75ad8..56a883e 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -155,13 +155,18 @@ GroupableTimeSeriesSet::getKBestMatches(const TimeSeries& query, int k, int h)
 {
   if (this->groupsAllLengthSet) //not nullptr
   {
+    if (k <= 0) {
+      throw GenexException("K must be positive");
+    }
     if (h < k) {
       throw GenexException("Number of examined time series must be larger than "
                            "or equal to the number of time series to look for");
     }
     auto results = this->groupsAllLengthSet->getKBestMatches(query, h);
     std::sort(results.begin(), results.end());
-    results.resize(k);
+    if (results.size() > k) {
+      results.resize(k);
+    }
     return results;
   }
   throw GenexException("Dataset is not grouped");
-- 
2.43.0


From 174abd26f12c6f06bdcbc30df3f6f9dee7fe6d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 12/23] fix: keep the old groups when grouping fails

An unknown distance or a non-positive number of threads left the dataset marked
as grouped with an empty set of groups, so the next query crashed.
---
 genex/GroupableTimeSeriesSet.cpp | 34 ++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 13 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 56a883e..1beece0 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -27,22 +27,30 @@ int GroupableTimeSeriesSet::groupAllLengths(
     throw GenexException("No data to group");
   }
 
-  // clear old groups
-  reset();
-
-  this->groupsAllLengthSet = new GlobalGroupSpace(*this);
+  auto newGroups = new GlobalGroupSpace(*this);
   int cntGroups;
-  if (numThreads == 1) {
-    cntGroups = this->groupsAllLengthSet->group(
-      distanceName, threshold, wholeSeriesOnly);
-  }
-  else if (numThreads > 1) {
-    cntGroups = this->groupsAllLengthSet->groupMultiThreaded(
-      distanceName, threshold, numThreads, wholeSeriesOnly);
+  try {
+    if (numThreads == 1) {
+      cntGroups = newGroups->group(
+        distanceName, threshold, wholeSeriesOnly);
+    }
+    else if (numThreads > 1) {
+      cntGroups = newGroups->groupMultiThreaded(
+        distanceName, threshold, numThreads, wholeSeriesOnly);
+    }
+    else {
+      throw GenexException("Number of threads must be positive");
+    }
   }
-  else {
-    throw GenexException("Number of threads must be positive");    
+  catch (...)
+  {
+    delete newGroups;
+    throw;
   }
+
+  // replace old groups
+  reset();
+  this->groupsAllLengthSet = newGroups;
   return cntGroups;
 }
 
-- 
2.43.0


From 40b498beebd1220bfdb43af967100e739a706efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 13/23] fix: restore everything that describes saved groups

Loading forgot whether only whole series were grouped, so saving loaded groups
again dereferenced a null pointer. The text format also forgot the threshold
and accepted groups of series of another length, writing outside its tables.
---
 genex/GroupableTimeSeriesSet.cpp | 10 +++++-----
 genex/group/GlobalGroupSpace.cpp |  4 +++-
 genex/group/GlobalGroupSpace.hpp |  3 ++-
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index 1beece0..b7b75aa 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -133,14 +133,14 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
     {
       throw GenexException("Incompatible item count");
     }
-    // if (grpItemLength != this->getItemLength())
-    // {
-    //   throw GenexException("Incompatible item length");
-    // }
+    if (grpItemLength != this->getMaxLength())
+    {
+      throw GenexException("Incompatible item length");
+    }
     cout << "Saved groups are compatible with the dataset" << endl;
     reset();
     this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin);
+    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin, threshold);
   }
   else
   {
diff --git a/genex/group/GlobalGroupSpace.cpp b/genex/group/GlobalGroupSpace.cpp
index 2f6f89f..0082d89 100644
--- a/genex/group/GlobalGroupSpace.cpp
+++ b/genex/group/GlobalGroupSpace.cpp
@@ -231,13 +231,15 @@ void GlobalGroupSpace::saveGroupsOld(ofstream &fout, bool groupSizeOnly) const
   }
 }
 
-int GlobalGroupSpace::loadGroupsOld(ifstream &fin)
+int GlobalGroupSpace::loadGroupsOld(ifstream &fin, data_t threshold)
 {
   reset();
 
+  this->threshold = threshold;
   int lenFrom, lenTo;
   string distance;
   fin >> lenFrom >> lenTo >> distance;
+  this->wholeSeriesOnly = lenFrom + 1 == lenTo;
   boost::trim_right(distance);
   this->_loadDistance(distance);
   this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
diff --git a/genex/group/GlobalGroupSpace.hpp b/genex/group/GlobalGroupSpace.hpp
index 6378708..4a9f44a 100644
--- a/genex/group/GlobalGroupSpace.hpp
+++ b/genex/group/GlobalGroupSpace.hpp
@@ -79,7 +79,7 @@ public:
   std::vector<candidate_time_series_t> getKBestMatches(const TimeSeries& query, int k);
   
   void saveGroupsOld(std::ofstream &fout, bool groupSizeOnly) const;
-  int loadGroupsOld(std::ifstream &fin);
+  int loadGroupsOld(std::ifstream &fin, data_t threshold);
 
 private:
   std::string distanceName;
@@ -116,6 +116,7 @@ private:
     ar >> minLen >> maxLen >> this->distanceName >> this->threshold;
     this->_loadDistance(this->distanceName);
     this->localLengthGroupSpace.resize(dataset.getMaxLength() + 1, nullptr);
+    this->wholeSeriesOnly = minLen + 1 == maxLen;
     this->totalNumberOfGroups = 0;
     for (auto i = minLen; i < maxLen; i++) {
       auto llgs = new LocalLengthGroupSpace(dataset, i);
-- 
2.43.0


From 401afb69fd4f44db6d5d3df04a11dfa770c70a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 14/23] fix: drop PAA data together with its dataset

Unloading a dataset kept its PAA data, which refers to the freed dataset and was
used for the next dataset of the same name. A failed preparation left the
dataset marked as prepared.
---
 genex/GenexAPI.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 638c498..1bdf75b 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -62,7 +62,7 @@ void GenexAPI::unloadDataset(const string& name)
   this->_loadedDatasets[name] = nullptr;
   this->_loadedDatasets.erase(name);
 
-  if (this->_paaWrappers.find(name) == this->_paaWrappers.end())
+  if (this->_paaWrappers.find(name) != this->_paaWrappers.end())
   {
     delete this->_paaWrappers[name];
     this->_paaWrappers[name] = nullptr;
@@ -78,6 +78,11 @@ void GenexAPI::unloadAllDataset()
     delete this->_loadedDatasets[pair.first];
   }
   this->_loadedDatasets.clear();
+  for (auto const& pair : this->_paaWrappers)
+  {
+    delete pair.second;
+  }
+  this->_paaWrappers.clear();
   this->_datasetCount = 0;
 }
 
@@ -221,12 +226,20 @@ void GenexAPI::preparePAA(const string& name, int blockSize) {
   PAAWrapper* wrapper;
   if (this->_paaWrappers.find(name) != this->_paaWrappers.end()) {
     wrapper = this->_paaWrappers[name];
+    wrapper->generatePAAMatrix(blockSize);
   }
   else {
     wrapper = new PAAWrapper(*(this->_loadedDatasets[name]));
+    try {
+      wrapper->generatePAAMatrix(blockSize);
+    }
+    catch (...)
+    {
+      delete wrapper;
+      throw;
+    }
     this->_paaWrappers[name] = wrapper;
   }
-  wrapper->generatePAAMatrix(blockSize);
 }
 
 vector<candidate_time_series_t>
-- 
2.43.0


From 9195ac105537ca4538bba1a93f85e77d91b5372a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 15/23] fix: use the length of each series in PAA

The longest length was used as index of a series, which read outside the table
of lengths, and that one length was applied to every series.
---
 genex/PAAWrapper.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/genex/PAAWrapper.cpp b/genex/PAAWrapper.cpp
index 355411e..51ff80d 100644
--- a/genex/PAAWrapper.cpp
+++ b/genex/PAAWrapper.cpp
@@ -49,11 +49,11 @@ void PAAWrapper::generatePAAMatrix(int blockSize)
     throw GenexException("Block size for PAA must be positive");
   }
  
-  int itemLength = dataset.getItemLength(dataset.getMaxLength());
-  blockSize = min(blockSize, itemLength);
+  blockSize = min(blockSize, max(dataset.getMaxLength(), 1));
   for (int i = 0; i < dataset.getItemCount(); i++) {
+    int itemLength = dataset.getItemLength(i);
     this->paaMat[i].clear();
-    for (int offset = 0; offset < blockSize; offset++) {
+    for (int offset = 0; offset < min(blockSize, itemLength); offset++) {
       TimeSeries paaTS = tsPAA(dataset.getTimeSeries(i, offset, itemLength), blockSize);      
       this->paaMat[i].push_back(paaTS);
     }
@@ -106,13 +106,13 @@ vector<candidate_time_series_t> PAAWrapper::getKBestMatchesPAA(
 
   auto warpedDistance = getDistanceFromName(distanceName + DTW_SUFFIX);
   data_t bestSoFarDist, currentDist;
-  auto timeSeriesLength = dataset.getItemLength(dataset.getMaxLength());
   auto numberTimeSeries = dataset.getItemCount();
   auto paaQuery = tsPAA(query, this->blockSize);
 
   // iterate through every timeseries
   for (int idx = 0; idx < numberTimeSeries; idx++)
   {
+    auto timeSeriesLength = dataset.getItemLength(idx);
     // iterate through every length of interval
     for (int intervalLength = 2; intervalLength <= timeSeriesLength;
         intervalLength++) 
-- 
2.43.0


From 1107224325f24dcc30828d1dc77f872cc5e9c109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 16/23] fix: refuse to report the length of a series that does
 not exist

---
 genex/TimeSeriesSet.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/genex/TimeSeriesSet.hpp b/genex/TimeSeriesSet.hpp
index 84bd592..2d3c0be 100644
--- a/genex/TimeSeriesSet.hpp
+++ b/genex/TimeSeriesSet.hpp
@@ -75,7 +75,14 @@ public:
    *
    * @return length of each time series
    */
-  int getItemLength(int index) const { return this->lengths[index]; }
+  int getItemLength(int index) const
+  {
+    if (index < 0 || index >= this->itemCount)
+    {
+      throw GenexException("Invalid time series index");
+    }
+    return this->lengths[index];
+  }
 
   /**
    * @brief gets number of time series in the dataset
-- 
2.43.0


From ace9d889bc3018ef2da1bc52fe4ed0c6bb289def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 17/23] fix: load rows that end before the first value

Rows with fewer columns than are skipped got a negative length, and without a
name column entry they shifted the names of all later rows. A negative starting
column wrote outside the data.
---
 genex/TimeSeriesSet.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index c895da0..d5d3880 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -69,6 +69,11 @@ void TimeSeriesSet::loadData(const string& filePath
 {
   this->clearData();
 
+  if (startCol < 0)
+  {
+    throw GenexException("Starting column must not be negative");
+  }
+
   std::ifstream f(filePath);
   if (!f.is_open())
   {
@@ -98,7 +103,11 @@ void TimeSeriesSet::loadData(const string& filePath
     if (getline(f, line))
     {
       tokenizer tokens(line, sep);
-      this->lengths.push_back(std::distance(tokens.begin(), tokens.end()) - startCol - hasNameCol);
+      int tokenCount = std::distance(tokens.begin(), tokens.end());
+      this->lengths.push_back(std::max(tokenCount - startCol - hasNameCol, 0));
+      if (hasNameCol && tokenCount <= startCol) {
+        this->names.push_back(std::to_string(row));
+      }
       int col = 0;
       for (tokenizer::iterator tok_iter = tokens.begin();
            tok_iter != tokens.end(); tok_iter++, col++)
@@ -145,7 +154,7 @@ void TimeSeriesSet::loadData(const string& filePath
   }
 
   this->filePath = filePath;
-  this->maxCol = rawMaxCol - startCol - hasNameCol;
+  this->maxCol = std::max(rawMaxCol - startCol - hasNameCol, 0);
   f.close();
 }
 
-- 
2.43.0


From 664b77da80b1dc877679d2a9b718794efca42a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 18/23] fix: do not divide by zero when logging progress of
 small groups

---
 genex/group/LocalLengthGroupSpace.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/group/LocalLengthGroupSpace.cpp b/genex/group/LocalLengthGroupSpace.cpp
index 09ba1cd..da16fea 100644
--- a/genex/group/LocalLengthGroupSpace.cpp
+++ b/genex/group/LocalLengthGroupSpace.cpp
@@ -67,7 +67,7 @@ int LocalLengthGroupSpace::generateGroups(const dist_t pairwiseDistance, data_t
     {
       counter++;
       if (doLog) {
-        if (counter % (totalTimeSeries / LOG_FREQ) == 0) {
+        if (counter % std::max(totalTimeSeries / LOG_FREQ, 1) == 0) {
           cout << "  Grouping progress... " << counter << "/" << totalTimeSeries 
                << " (" << counter*100/totalTimeSeries << "%)" << endl;
         }
-- 
2.43.0


From cccf668b3d2cd273048ecf96d3610ac02b96a735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:45 +0000
Subject: [PATCH 19/23] fix: raise the library error for short distance names
 in matchingBetween

---
 genex/GenexAPI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/GenexAPI.cpp b/genex/GenexAPI.cpp
index 1bdf75b..bc63fc5 100644
--- a/genex/GenexAPI.cpp
+++ b/genex/GenexAPI.cpp
@@ -275,7 +275,7 @@ matching_t GenexAPI::matchingBetween(const string& name1, int idx1, int start1,
   this->_checkDatasetName(name2);
   auto ts1 = this->_loadedDatasets[name1]->getTimeSeries(idx1, start1, end1);
   auto ts2 = this->_loadedDatasets[name2]->getTimeSeries(idx2, start2, end2);
-  if (distance_name.substr(distance_name.length() - 3) != "dtw") {
+  if (distance_name.length() < 3 || distance_name.substr(distance_name.length() - 3) != "dtw") {
     throw GenexException("Can only compute matchings using _dtw distances");
   }  
   const dist_t distance = getDistanceFromName(distance_name);
-- 
2.43.0


From 4c11d12f5b1e5554f0bb20818ed8c038ae2ad1e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:41 +0000
Subject: [PATCH 20/23] fix: never use a cell outside the band as predecessor

With infinite neighbours, as Sorensen gives for a zero denominator, the unset
cell above was still chosen.
---
 genex/distance/Distance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/genex/distance/Distance.hpp b/genex/distance/Distance.hpp
index bdd0185..c70b4ea 100644
--- a/genex/distance/Distance.hpp
+++ b/genex/distance/Distance.hpp
@@ -167,7 +167,7 @@ data_t warpedDistance(
       {
         minPrev = cost[i][j-1];
       }
-      else if (i1j <= ij1 && i1j <= i1j1)
+      else if (i1j < INF)
       {
         minPrev = cost[i-1][j];
       }
-- 
2.43.0


From 67f328beeecce4df92f1cebfe0df9241ac9bfad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:41 +0000
Subject: [PATCH 21/23] fix: keep the position of the representative when
 loading text groups

The representative was only restored as values, so saving the loaded groups in
the binary format stored position zero of the first series for every group.
---
 genex/group/Group.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/group/Group.cpp b/genex/group/Group.cpp
index 7ed8f13..488976a 100644
--- a/genex/group/Group.cpp
+++ b/genex/group/Group.cpp
@@ -168,6 +168,10 @@ void Group::loadGroupOld(ifstream &fin)
   for (int i = 0; i < cnt; i++) {
     fin >> index >> start;
     this->addMember(index, start);
+    if (this->dataset.getTimeSeries(index, start, start + this->memberLength) == this->centroid) {
+      // Remember where the centroid comes from
+      this->setCentroid(index, start);
+    }
   }
 }
 
-- 
2.43.0


From 73fd7b05534e528bcc60d6a63b76b87bcc73be67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:41 +0000
Subject: [PATCH 22/23] fix: keep the old groups when loading groups fails

A truncated or unreadable group file left the dataset marked as grouped with
incomplete groups.
---
 genex/GroupableTimeSeriesSet.cpp | 12 ++++++++++--
 genex/GroupableTimeSeriesSet.hpp | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/genex/GroupableTimeSeriesSet.cpp b/genex/GroupableTimeSeriesSet.cpp
index b7b75aa..f82ecf0 100644
--- a/genex/GroupableTimeSeriesSet.cpp
+++ b/genex/GroupableTimeSeriesSet.cpp
@@ -138,9 +138,17 @@ int GroupableTimeSeriesSet::loadGroupsOld(const string& path)
       throw GenexException("Incompatible item length");
     }
     cout << "Saved groups are compatible with the dataset" << endl;
+    auto newGroups = new GlobalGroupSpace(*this);
+    try {
+      numberOfGroups = newGroups->loadGroupsOld(fin, threshold);
+    }
+    catch (...)
+    {
+      delete newGroups;
+      throw;
+    }
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    numberOfGroups = this->groupsAllLengthSet->loadGroupsOld(fin, threshold);
+    this->groupsAllLengthSet = newGroups;
   }
   else
   {
diff --git a/genex/GroupableTimeSeriesSet.hpp b/genex/GroupableTimeSeriesSet.hpp
index 29ba3a3..84e55fb 100644
--- a/genex/GroupableTimeSeriesSet.hpp
+++ b/genex/GroupableTimeSeriesSet.hpp
@@ -115,9 +115,17 @@ private:
     {
       throw GenexException("Incompatible item length");
     }
+    auto newGroups = new GlobalGroupSpace(*this);
+    try {
+      ar >> *newGroups;
+    }
+    catch (...)
+    {
+      delete newGroups;
+      throw;
+    }
     reset();
-    this->groupsAllLengthSet = new GlobalGroupSpace(*this);
-    ar >> *(this->groupsAllLengthSet);
+    this->groupsAllLengthSet = newGroups;
   }
 
   BOOST_SERIALIZATION_SPLIT_MEMBER()
-- 
2.43.0


From eb28ba8dac6d5a838e3bbbf96b24d92486a833d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:19 +0000
Subject: [PATCH 23/23] fix: report an error when a data file cannot be read

Opening a directory succeeds and reading from it then fails. The failure
was cleared before it was looked at, so the data set was empty and no
error was raised.
---
 genex/TimeSeriesSet.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/genex/TimeSeriesSet.cpp b/genex/TimeSeriesSet.cpp
index d5d3880..18d0557 100644
--- a/genex/TimeSeriesSet.cpp
+++ b/genex/TimeSeriesSet.cpp
@@ -56,6 +56,10 @@ std::pair<int, int> _getMaxRowsMaxColumns(std::ifstream& f, const string& separa
       maxColumn = length;
     }
   }
+  if (f.bad())
+  {
+    throw GenexException("Error while reading file");
+  }
   f.clear();
   f.seekg(0);
   return {lineCount, maxColumn};
-- 
2.43.0

