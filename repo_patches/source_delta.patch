From ce69baa985446687bd19140fbd743cf4a0390469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 01/89] fix: insert tied distances at their sorted position
 when selecting core distances

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 8e1fbb5..0a96f3f 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -245,6 +245,7 @@ void distance_get_core_distances(distance *dis)
 				if (sortedDistance[mid] > t) {
 					high = mid;
 				} else if (sortedDistance[mid] == t) {
+					low = mid;
 					break;
 				} else {
 					low = (index_t)(mid + 1);
-- 
2.43.0


From 94a26403d4230144ec5fa646a7d3728fae90766f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 02/89] fix: initialise every owned pointer in hdbscan_init so
 cleaning an unused object is safe

---
 src/hdbscan.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1d31614..4dfafa6 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -127,6 +127,9 @@ hdbscan* hdbscan_init(hdbscan* sc, index_t minPoints){
 		sc->clusters = NULL;
 		sc->coreDistances = NULL;
 		sc->outlierScores = NULL;
+		sc->mst = NULL;
+		sc->numPoints = 0;
+		distance_init(&sc->distanceFunction, _EUCLIDEAN, H_DOUBLE);
 	}
 
 	return sc;
-- 
2.43.0


From 63e638657bef92d9e9f623bd740a73df15d0da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 03/89] fix: allow data sets with fewer than five points

---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 4dfafa6..2d6ec55 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -240,7 +240,7 @@ int hdbscan_do_run(hdbscan* sc){
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = 4;
 	}
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
@@ -324,7 +324,7 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
 	{
-		csize = (index_t)(csize * 4);
+		csize = 4;
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
-- 
2.43.0


From 33e8bbb3f5d8c16fdb84b7ca9ef2bb5c0956e15d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 04/89] fix: give each thread its own cluster pointer when
 assigning offsets

---
 src/hdbscan.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 2d6ec55..31e8756 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -670,14 +670,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
-		cluster* newCluster = NULL;
-		
 		#ifdef _OPENMP
 		#pragma omp parallel for
 		#endif
 		for(i = 0; i < array_list_size(newClusters); i++)
 		{
-			newCluster = ((cluster**)newClusters->data)[i];
+			cluster* newCluster = ((cluster**)newClusters->data)[i];
 			newCluster->offset = lineCount;
 		}
 		
-- 
2.43.0


From dec5b32367c757427c585a72cc979d0381986225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 05/89] fix: compute skewness and kurtosis once instead of
 racing in every thread

---
 src/hdbscan.c | 14 --------------
 1 file changed, 14 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 31e8756..6ef206d 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1340,19 +1340,12 @@ void hdbscan_destroy_distance_map(hashtable* table){
  */
 void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	//int32_t N = stats->count;
 	stats->coreDistanceValues.skewness = (distance_t)(sum_sc / (stats->count * pow(stats->coreDistanceValues.standardDev, 3)));
 	stats->intraDistanceValues.skewness = (distance_t)(sum_sd / (stats->count * pow(stats->intraDistanceValues.standardDev, 3)));
 
 	stats->coreDistanceValues.kurtosis = (distance_t)((sum_dc / (stats->count * pow(stats->coreDistanceValues.standardDev, 4))) - 3);
 	stats->intraDistanceValues.kurtosis = (distance_t)((sum_dd / (stats->count *pow(stats->intraDistanceValues.standardDev, 4))) - 3);
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
@@ -1369,10 +1362,6 @@ void hdbscan_skew_kurt_1(clustering_stats* stats, distance_t sum_sc, distance_t
 void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t sum_sd, distance_t sum_dc, distance_t sum_dd)
 {
 
-	#ifdef _OPENMP
-	#pragma omp parallel
-	{
-	#endif
 	index_t N = stats->count;
 	
 	// Calculate the skewness
@@ -1401,9 +1390,6 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
 		stats->coreDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 		stats->intraDistanceValues.kurtosis = (distance_t)(0.0/0.0);
 	}
-	#ifdef _OPENMP
-	}
-	#endif
 }
 
 /**
-- 
2.43.0


From 8ea990e00b650c4d75012d9fa7df4f2b05c18b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 06/89] fix: detect infinite cluster stability in
 hdbscan_propagate_tree

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 6ef206d..c5c6c23 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1034,7 +1034,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		currentCluster = ((cluster **)sc->clusters->data)[x];
 		cluster_propagate(currentCluster);
 
-		if(currentCluster->stability == D_MAX){
+		if(isinf(currentCluster->stability)){
 			infiniteStability = TRUE;
 		}
 		if(currentCluster->parent != NULL){
-- 
2.43.0


From c6552531d30ac26436cd9429a2b28354dc91906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:46 +0000
Subject: [PATCH 07/89] fix: give a root cluster without children its own death
 level as lowest death level

---
 src/cluster.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 441b432..b3b6c00 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -148,12 +148,13 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
  */
 void cluster_propagate(cluster* cl){
 
+	//Without descendants the lowest death level is the cluster's own:
+	if (cl->propagatedLowestChildDeathLevel == D_MAX){
+		cl->propagatedLowestChildDeathLevel = cl->deathLevel;
+	}
+
 	if (cl->parent != NULL) {
 		//Propagate lowest death level of any descendants:
-        if (cl->propagatedLowestChildDeathLevel == D_MAX){
-        	cl->propagatedLowestChildDeathLevel = cl->deathLevel;
-		}
-
 		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){
 			cl->parent->propagatedLowestChildDeathLevel = cl->propagatedLowestChildDeathLevel;
 		}
-- 
2.43.0


From 761e62afb54bf80f452056e61fc656485842f979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 08/89] fix: release the previous results when hdbscan_run is
 called again

---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c5c6c23..7d7120b 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -316,6 +316,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 		return HDBSCAN_ERROR;
 	}
 	
+	// Release whatever a previous run left behind
+	hdbscan_clean(sc);
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-- 
2.43.0


From 6e20a29ef15c95a5300c73fcdd270c1a2cc70a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 09/89] fix: compute distances between elements when the data
 set is not rowwise

---
 src/hdbscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 7d7120b..87dde67 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -321,7 +321,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	distance_compute(&(sc->distanceFunction), dataset, rows, cols, (index_t)(sc->minPoints-1));
+	// If not rowwise, every element is a one dimensional point
+	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
-- 
2.43.0


From 511c7a189e99a239914d9891299975e518790729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 10/89] fix: start the variance sums from zero

---
 src/hdbscan.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 87dde67..039817e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1435,6 +1435,8 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
 	distance_t sum_sd = 0;
 	distance_t sum_dc = 0;
 	distance_t sum_dd = 0;
+	stats->coreDistanceValues.variance = 0;
+	stats->intraDistanceValues.variance = 0;
 	
 	for(index_t i = 0; i < stats->count; i++)
 	{
-- 
2.43.0


From 943bd158fadc681d0a0868eee4d3ecce7d5ba14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 11/89] fix: look up the confidence of the given clusters in
 hdbscan_sort_by_similarity

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 039817e..f77a710 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1680,7 +1680,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 #pragma omp parallel for private(key, dv, conf)
 #endif
 		for(size_t i = 0; i < clusters->size; i++){
-			key = ((label_t *)distanceMap->keys->data)[i];			
+			key = ((label_t *)clusters->data)[i];
 			hashtable_lookup(distanceMap, &key, &dv);
 			
 			if(distanceType == CORE_DISTANCE_TYPE){
-- 
2.43.0


From 89bc53a75da9facf2f94f1df61c5565d64c898c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 12/89] fix: accept a missing or empty cluster list in the
 cluster sorting functions

---
 src/hdbscan.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index f77a710..5588a75 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1622,7 +1622,7 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	assert(distanceMap != NULL); 
 	ArrayList *distances;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(distanceMap), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(distanceMap) + 1, sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1632,8 +1632,11 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 			clusters->compare = short_compare;
 		}
 
-		distances = array_list_init(hashtable_size(distanceMap), sizeof(distance_t), NULL);
+	}
 
+	// One more than needed since a list cannot have zero capacity
+	if(clusters->size == 0){
+		distances = array_list_init(hashtable_size(distanceMap) + 1, sizeof(distance_t), NULL);
 	} else{
 		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
 	}
@@ -1708,10 +1711,10 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
  */
 ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
-	assert(clusterTable != NULL && clusters != NULL);
+	assert(clusterTable != NULL);
 	ArrayList *lengths;
 	if(clusters == NULL){
-		clusters = array_list_init(hashtable_size(clusterTable), sizeof(label_t), NULL);
+		clusters = array_list_init(hashtable_size(clusterTable) + 1, sizeof(label_t), NULL);
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1720,8 +1723,11 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		} else {
 			clusters->compare = short_compare;
 		}
+	}
 
-		lengths = array_list_init(hashtable_size(clusterTable), sizeof(distance_t), NULL);
+	// One more than needed since a list cannot have zero capacity
+	if(clusters->size == 0){
+		lengths = array_list_init(hashtable_size(clusterTable) + 1, sizeof(distance_t), NULL);
 	} else{
 		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
 	}
-- 
2.43.0


From 6ef82e69b0d657c0a7cf734886eccca0f8bfb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 13/89] fix: read the labels, not the set header, in
 hdbscan_sort_by_length

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 5588a75..438f24b 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1745,7 +1745,7 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 		for(size_t i = 0; i < hashtable_size(clusterTable); i++)
 		{
 			ArrayList *lst = NULL;
-			key = ((label_t *)clusterTable->keys)[i];
+			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
 			array_list_append(clusters, &key);
 			distance_t tmp = (distance_t)lst->size;
-- 
2.43.0


From 357e9216362997212063c3f6dcce79cdf09ffaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 14/89] fix: terminate the cluster sort when confidences are
 NaN

---
 src/hdbscan.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 438f24b..36a10f7 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1553,7 +1553,8 @@ void partition(label_t *c_data, distance_t *d_data, int lower, int upper, int* p
 	int down = upper; /* index will go down */
 
 	while(up < down){
-		while((up < down) && (d_data[up] <= x)) {
+		// Negated so that unordered (NaN) values cannot stop both scans
+		while((up < down) && !(d_data[up] > x)) {
 			up++;
 		}
 
-- 
2.43.0


From c065b0ea7f3583c05c7e9e7e045109a6254c2137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 15/89] fix: allow cluster maps over fewer than three labels

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 36a10f7..e23a188 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1227,7 +1227,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
 		if(clusterList == NULL){
-			clusterList = array_list_init(size/3, sizeof(index_t), NULL);
+			clusterList = array_list_init(size/3 + 1, sizeof(index_t), NULL);
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
-- 
2.43.0


From ec528c0ac1476377a29d86a6f7d91267a07a7adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 16/89] fix: report the smallest non-zero core distance
 whatever the member order

---
 src/hdbscan.c   | 2 +-
 src/hdbscan.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index e23a188..68465c7 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1291,7 +1291,7 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 				hashtable_insert(distanceMap, &key, &dl);
 			} else {
 
-				if(dl->min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl->min_cr = core[index];
 				}
 
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e4b3b75..7f596e3 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -125,7 +125,7 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 			} else{
 				distance_values& dl = iter->second;
 				// min core distance
-				if(dl.min_cr > core[index] && (core[index] < zero || core[index] > zero)){
+				if((dl.min_cr > core[index] || dl.min_cr == zero) && (core[index] < zero || core[index] > zero)){
 					dl.min_cr = core[index];
 				}
 
-- 
2.43.0


From bc6394bedce3168a339b2b4f6a5b0824b2dec7b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 17/89] fix: build the hierarchy file names in initialised
 memory and survive unwritable paths

---
 src/hdbscan.c | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 68465c7..b958e35 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1854,18 +1854,25 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 	if(filename != NULL){
 
-		char visFilename[300];
-		strcat(visFilename, filename);
-		strcat(visFilename, "_visualization.vis");
-		visFile = fopen(visFilename, "w");
-		fprintf(visFile, "1\n");
-		fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
-		fclose(visFile);
-
-		char hierarchyFilename[100];
-		strcat(hierarchyFilename, filename);
-		strcat(hierarchyFilename, "_hierarchy.csv");
-		hierarchyFile = fopen(hierarchyFilename, "w");
+		size_t length = strlen(filename) + sizeof("_visualization.vis");
+		char path[length];
+		snprintf(path, length, "%s_visualization.vis", filename);
+		visFile = fopen(path, "w");
+		if(visFile != NULL){
+			fprintf(visFile, "1\n");
+			fprintf(visFile, "%ld\n", hashtable_size(hierarchy));
+			fclose(visFile);
+		}
+
+		snprintf(path, length, "%s_hierarchy.csv", filename);
+		hierarchyFile = fopen(path, "w");
+		if(visFile == NULL || hierarchyFile == NULL){
+			logger_write(ERROR, "hdbscan_print_hierarchies - Could not open the output files.\n");
+		}
+
+		if(hierarchyFile == NULL){
+			return;
+		}
 	}
 	
 	char s[100];
-- 
2.43.0


From ae7249046261e66b6139a62b200c96e34dcb545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 18/89] fix: size the print buffers for the longest values %f
 can produce

---
 src/distance.c         |  2 +-
 src/hdbscan.c          | 10 +++++-----
 src/undirected_graph.c |  2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 0a96f3f..584f439 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -277,7 +277,7 @@ void distance_get_core_distances(distance *dis)
  */
 void distances_print(distance *dis) {
 	
-	char s[20];
+	char s[350];	// %f can produce 317 characters
 	for (index_t i = 0; i < dis->rows; i++) {
 		logger_write(NONE, "[");
 
diff --git a/src/hdbscan.c b/src/hdbscan.c
index b958e35..694e695 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -742,7 +742,7 @@ hierarchy_entry* hdbscan_create_hierarchy_entry(){
 void print_distances(hdbscan* sc){
 	for (index_t i = 0; i < sc->numPoints; i++) {
 	#ifdef DEBUG
-		char s[50];
+		char s[350];
 		logger_write(INFO, "[");
 	#else
 		printf("[");
@@ -779,7 +779,7 @@ void print_distances(hdbscan* sc){
 void print_graph_components(ArrayList *nearestMRDNeighbors, ArrayList *otherVertexIndices, ArrayList *nearestMRDDistances){
 #ifdef DEBUG
 	logger_write(INFO, ">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>nearestMRDNeighbors>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>");
-	char s[100];
+	char s[450];
 #else
 	printf(">>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>nearestMRDNeighbors>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>>\n");
 #endif
@@ -1917,7 +1917,7 @@ void hdbscan_print_hierarchies(hashtable* hierarchy, index_t numPoints, char *fi
 
 void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
 	
-	char s[100];
+	char s[700];	// Two values of up to 317 characters each and an index
 	logger_write(NONE, "\n////////////////////////////////////////////////////// Printing outlier Scores //////////////////////////////////////////////////////\n");
 
 	for(index_t i = 0; i < numPoints; i++) {
@@ -1936,7 +1936,7 @@ void hdbscan_print_outlier_scores(outlier_score* scores, index_t numPoints) {
  * @param distancesMap 
  */
 void hdbscan_print_distance_map(hashtable* distancesMap){
-	char s[512];
+	char s[2560];	// Six values of up to 317 characters each and their names
 	logger_write(NONE, "\n/////////////////////////////////////////////////////// Printing Distances ///////////////////////////////////////////////////////\n");
 
 	for(size_t i = 0; i < hashtable_size(distancesMap); i++)
@@ -1963,7 +1963,7 @@ void hdbscan_print_distance_map(hashtable* distancesMap){
  * \param stats 
  */
 void hdbscan_print_stats(clustering_stats* stats){
-	char s[1200];
+	char s[5120];	// Twelve values of up to 317 characters each and their names
 	sprintf(s, "////////////////////////////////////////////////////// Statistical Values ////////////////////////////////////////////////////////\n");
 	sprintf(s + strlen(s), "Cluster Count 					: %d\n", stats->count);
 	sprintf(s + strlen(s), "Core Distances - Max 			: %.5f\n", stats->coreDistanceValues.max);
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e0d6f8..d0b8879 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -268,7 +268,7 @@ void graph_print(UndirectedGraph* g) {
 	index_t* da = g->verticesA->data;
 	index_t* db = g->verticesB->data;
 
-	char s[300];
+	char s[350];	// %f can produce 317 characters
 	sprintf(s,
 			"numVertices: %d, verticesA.length: %ld,  verticesB.length: %ld, edgeWeights.length: %ld, edges.length: %d\n",
 			g->numVertices, g->verticesA->size, g->verticesB->size, g->edgeWeights->size, g->numVertices);
-- 
2.43.0


From 0508b53f3a832e101091ea3b24acb4c5e8340e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:52 +0000
Subject: [PATCH 19/89] fix: read cluster members as indices when printing a
 cluster map

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 694e695..c0ea8b5 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1809,7 +1809,7 @@ void hdbscan_print_cluster_map(hashtable* table){
 		index_t dpointer;
 		for(index_t j = 0; j < clusterList->size; j++){
 			
-			dpointer = ((label_t *)clusterList->data)[j];
+			dpointer = ((index_t *)clusterList->data)[j];
 			sprintf(s, "%d ", dpointer);
 			logger_write(NONE, s);
 		}
-- 
2.43.0


From d349802ee6e111f059e086b01b9da1b1a65fb47b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 20/89] fix: avoid signed overflow in the differences of
 integer data

---
 src/distance.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/distance.c b/src/distance.c
index 584f439..aa52209 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -169,12 +169,14 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 
 				} else if(dis->datatype == H_INT) {
 
+					// The difference of two ints may not fit in an int
 					int* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_LONG) {
 
+					// The difference of two longs may not fit in a long
 					long* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((long double)dt[i * dis->cols + k] - (long double)dt[j * dis->cols + k]);
 				} else if(dis->datatype == H_SHORT) {
 
 					short* dt = dataset;
-- 
2.43.0


From c00726ca917398cd7fe92f86ff16e64ce1321102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 21/89] fix: address the distance matrix with size_t so large
 data sets do not overflow

---
 modules/utils/include/hdbscan/utils.h | 4 ++--
 src/distance.c                        | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/modules/utils/include/hdbscan/utils.h b/modules/utils/include/hdbscan/utils.h
index e28f6c5..178853b 100644
--- a/modules/utils/include/hdbscan/utils.h
+++ b/modules/utils/include/hdbscan/utils.h
@@ -160,9 +160,9 @@ int32_t ptr_ptr_compare(const void * ptr_a, const void * ptr_b);
  * @brief Calculate the triangular number of n
  * 
  * @param n 
- * @return uint 
+ * @return size_t 
  */
-inline uint TRIANGULAR_H(uint n) {
+inline size_t TRIANGULAR_H(size_t n) {
 	return (n * n + n) / 2;
 }
 
diff --git a/src/distance.c b/src/distance.c
index aa52209..8059bb4 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -114,12 +114,12 @@ void distance_clean(distance* d){
 distance_t distance_get(distance* dis, index_t row, index_t col) {
 	size_t idx;
 	if (row < col) {
-		idx = (size_t) ((size_t)(dis->rows * row + col) - (size_t)TRIANGULAR_H((uint)(row + 1)));
+		idx = (size_t)dis->rows * row + col - TRIANGULAR_H((size_t)row + 1);
 
 	} else if (row == col) {
 		return 0;
 	} else {
-		idx = (size_t)((size_t)(dis->rows * col + row) - (size_t)TRIANGULAR_H((uint)(col + 1)));
+		idx = (size_t)dis->rows * col + row - TRIANGULAR_H((size_t)col + 1);
 	}
 	return dis->distances[idx];
 }
@@ -139,7 +139,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 	
 	dis->rows = rows;
     dis->cols = cols;
-    size_t sub = (size_t)(rows * rows -rows)/2;
+    size_t sub = ((size_t)rows * rows - rows)/2;
     dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
 	distance_t sum, diff;
@@ -194,7 +194,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 
 			// Calculate the linearised upper triangular matrix offset
 			size_t offset = i * dis->rows + j;
-			size_t c = offset - TRIANGULAR_H((uint)i + 1);		
+			size_t c = offset - TRIANGULAR_H(i + 1);		
 			dis->distances[c] = sum;			
 		}
 	}
-- 
2.43.0


From faf4eeb3c81b57c2f2eb2183fea00800ecc4ba05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 22/89] fix: record the reduced capacity when a list is cleared
 with resize

---
 modules/collections/src/list.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 18b2b5b..4e79a7e 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -281,6 +281,7 @@ void array_list_clear(ArrayList* list, int32_t resize)
 	list->size = 0;
 	if(resize) {
 		list->data = realloc(list->data, list->step);
+		list->max_size = 1;
 	}
 }
 
-- 
2.43.0


From 2f89640fe7076d7f79990fd3e9aa0007ae568fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 23/89] fix: refuse to insert past the end of a list

---
 modules/collections/src/list.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 4e79a7e..76cae0b 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -207,6 +207,10 @@ int32_t array_list_append(ArrayList* list, void* data)
 
 int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 
+	if(pos > list->size) {
+		return 0;
+	}
+
 	if(list->size == list->max_size) {
        array_list_grow(list);
     }
-- 
2.43.0


From 6f79e9c62997ecce081a04be216e9d625008d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 24/89] fix: keep the bucket chain linked backwards when
 removing from its middle

---
 modules/collections/src/hashtable.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index e9b6d9c..b1e6167 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -297,24 +297,13 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     if(entry->prev != NULL)
     {
         entry->prev->next = entry->next;
-        entry->prev = NULL;
     } else { // this is the first entry
         htbl->table[bucket] = entry->next;
-        if(htbl->table[bucket] != NULL)
-        {
-            htbl->table[bucket]->prev = NULL;
-        }
     }
 
     if(entry->next != NULL)
     {
         entry->next->prev = entry->prev;
-        entry->next = NULL;
-    } else {
-        if(entry->prev != NULL)
-        {
-            entry->prev->next = NULL;
-        }
     }
 
     // destroy the node and get the data
-- 
2.43.0


From a22190222423f8e6861adc16d4362aa1d8b0b0c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 25/89] fix: return the value, not a key-sized part of it, from
 hashtable_remove

---
 modules/collections/src/hashtable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index b1e6167..6f75e6f 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -307,7 +307,7 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
     }
 
     // destroy the node and get the data
-    hashtable_entry_destroy(entry, data, get_htype_size(htbl->ktype));
+    hashtable_entry_destroy(entry, data, get_htype_size(htbl->dtype));
     htbl->size--;    
     set_remove(htbl->keys, key);
 
-- 
2.43.0


From 4e48da0b01e377eee5a2b8e97fc43774b90ea051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 26/89] fix: destroy every key of colliding entries exactly
 once when clearing a hash table

---
 modules/collections/src/hashtable.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 6f75e6f..1bc5809 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -325,35 +325,28 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
  */
 int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*value_destroy)(void *value))
 {
-    void* key = malloc(get_htype_size(htbl->ktype));
     size_t dsize = get_htype_size(htbl->dtype);
     void* data = malloc(dsize);
     hashtable_entry* entry = NULL;
     hashtable_entry* tmp = NULL;
 
-    for(size_t i = 0; i < set_size(htbl->keys); i++)
+    for(size_t bucket = 0; bucket < htbl->buckets; bucket++)
     {
-        set_value_at(htbl->keys, i, key);
-        size_t bucket = htbl->key_hash(key, htbl->buckets);
         entry = htbl->table[bucket];
         htbl->table[bucket] = NULL; /// unhook the entries from the bucket
 
-        /// The colliding entries will be removed as well 
-        /// so check to make sure we do not attempt to remove again.
-        if(entry == NULL)
-        {
-            continue;
-        }
-
         while(entry)
         {
             tmp = entry;
             entry = entry->next;
+
+            /// Every entry has its own key, also when it collides
+            void* key = key_destroy != NULL ? *(void **)tmp->key : NULL;
             hashtable_entry_destroy(tmp, data, dsize);
 
-            if(key_destroy != NULL && *(void **)key != NULL)
+            if(key != NULL)
             {
-                key_destroy(*(void **)key);
+                key_destroy(key);
             }
 
             if(value_destroy != NULL && *(void **)data != NULL)
@@ -363,7 +356,6 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
         }
     }
 
-    free(key);
     free(data);
     set_clear(htbl->keys);
     htbl->size = 0;
-- 
2.43.0


From 722c0c6b5919ca7c13ea29a7908680796b360e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 27/89] fix: hash the characters of string keys instead of
 their address

---
 modules/collections/src/hashtable.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 1bc5809..904d96e 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -91,6 +91,19 @@ int32_t hashtable_entry_compare(const void* a, const void* b)
     return e1->key_compare(e1->key, e2->key);
 }
 
+/**
+ * @brief String keys are given as pointers to the string, so hash the
+ * string itself
+ * 
+ * @param key 
+ * @param buckets 
+ * @return size_t 
+ */
+static size_t hashtable_string_hash(void* key, size_t buckets)
+{
+    return str_hash(*(char **)key, buckets);
+}
+
 /**
  * @brief 
  * 
@@ -169,7 +182,7 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     {
         htbl->key_hash = float_hash;
     } else if(htbl->ktype == H_STRING) {
-        htbl->key_hash = str_hash;
+        htbl->key_hash = hashtable_string_hash;
     } else {
         htbl->key_hash = NULL;
     }
-- 
2.43.0


From e827374f69c03cfc2e3f57a052b99211bde101ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 28/89] fix: hash negative and huge floating point keys without
 undefined conversions

---
 modules/utils/src/utils.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/utils.c b/modules/utils/src/utils.c
index bac32c8..a6d169a 100644
--- a/modules/utils/src/utils.c
+++ b/modules/utils/src/utils.c
@@ -344,14 +344,16 @@ size_t char_hash(void* key, size_t buckets)
 size_t double_hash(void* key, size_t buckets)
 {
     double *db = (double *)key;
-	size_t tmp = (size_t)(*db);
+    // Negative and huge values do not fit in a size_t
+	size_t tmp = isfinite(*db) ? (size_t)fmod(fabs(*db), (double)buckets) : 0;
     return tmp % buckets;
 }
 
 size_t float_hash(void* key, size_t buckets)
 {
     float *db = (float *)key;
-	size_t tmp = (size_t)(*db);
+    // Negative and huge values do not fit in a size_t
+	size_t tmp = isfinite(*db) ? (size_t)fmod(fabs((double)*db), (double)buckets) : 0;
     return tmp % buckets;
 }
 
-- 
2.43.0


From 64f9970201f79c7d6c081bc9865489c929687755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 29/89] fix: keep both links and the tail of a linked list
 intact when removing a node

---
 modules/collections/src/linkedlist.c | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index ccbb195..49339e6 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -257,28 +257,19 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     if(nd->prev != NULL)
     {
         nd->prev->next = nd->next;
-        nd->prev = NULL;
     } else { // this is the first node
         list->head = nd->next;
-
-        if(list->head != NULL)
-        {
-            list->head->prev = NULL;
-        }
     }
 
     // Get the next node to point to the preious node
     if(nd->next != NULL)
     {
         nd->next->prev = nd->prev;
-        nd->next = NULL;
     } else { // This is the las node
         list->tail = nd->prev;
-        if(list->tail != NULL)
-        {
-            list->tail->next = NULL;
-        }
     }
+    nd->prev = NULL;
+    nd->next = NULL;
     list->size--;
 }
 
-- 
2.43.0


From 7d241f9afd5f3f3f10c2853f637d47fccf474291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 30/89] fix: free the node when linkedlist_lookup hands out its
 data

---
 modules/collections/src/linkedlist.c | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 49339e6..4b41730 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -273,6 +273,23 @@ void linkedlist_node_unhook(linkedlist* list, node* nd)
     list->size--;
 }
 
+/**
+ * Get the data of a node. If the node is also to be removed, it is taken
+ * out of the list and the caller becomes the owner of the data.
+ */ 
+static void* linkedlist_node_data(linkedlist* list, node* nd, int32_t remove)
+{
+    void* data = nd->data;
+
+    if(remove == 1)
+    {
+        linkedlist_node_unhook(list, nd);
+        free(nd);
+    }
+
+    return data;
+}
+
 /**
  * 
  */ 
@@ -280,13 +297,12 @@ void* linkedlist_lookup(linkedlist *list, void* data, int32_t remove, int32_t (*
 {
     node* tmp = linkedlist_lookup_helper(list, data, d_compare);
 
-    // Unhook the node from the list
-    if(remove == 1)
+    if(tmp == NULL)
     {
-        linkedlist_node_unhook(list, tmp);
+        return NULL;
     }
 
-    return tmp ? tmp->data : tmp;
+    return linkedlist_node_data(list, tmp, remove);
 }
 
 /**
-- 
2.43.0


From 9ecbff08c66cb2904169fbba8eae15b070f77674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:05 +0000
Subject: [PATCH 31/89] fix: honour the remove option of linkedlist_head and
 linkedlist_tail

---
 modules/collections/src/linkedlist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 4b41730..2343fbc 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -391,7 +391,7 @@ void* linkedlist_tail(linkedlist *list, int32_t remove)
         return NULL;
     }
 
-    return list->tail->data;
+    return linkedlist_node_data(list, list->tail, remove);
 }
 
 /**
@@ -408,7 +408,7 @@ void* linkedlist_head(linkedlist *list, int32_t remove){
         return NULL;
     }
 
-    return list->head->data;
+    return linkedlist_node_data(list, list->head, remove);
 }
 
 /**
-- 
2.43.0


From a060d2f9e0b992e5fddd280ca1d69d7f69c31429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:32 +0000
Subject: [PATCH 32/89] fix: find primes beyond the table and return a prime
 from get_prime

---
 .../collections/include/collections/primes.h  |  2 +-
 modules/collections/src/primes.c              | 51 ++++++++++++-------
 2 files changed, 34 insertions(+), 19 deletions(-)

diff --git a/modules/collections/include/collections/primes.h b/modules/collections/include/collections/primes.h
index df7efb4..67cc299 100644
--- a/modules/collections/include/collections/primes.h
+++ b/modules/collections/include/collections/primes.h
@@ -72,7 +72,7 @@ int32_t get_prime(int32_t min);
  */
 int32_t binary_search_primes(int32_t l, int32_t r, int32_t x) ;
 
-#define p_sz 200
+#define p_sz 198
 // Creating an array of prime numbers for creating key hashes
 // We only need 120 primes from 29 to 409. If we need more we
 // will have to calculate them.
diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index d1270b8..0862e62 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -38,25 +38,34 @@
  */
 #include "collections/primes.h"
 
-int32_t get_prime(int32_t min)
+/**
+ * Check by trial division whether the number is prime.
+ */ 
+static int32_t is_prime(int32_t num)
 {
-    int32_t prime, n_primes = 0;
+    if(num < 2)
+    {
+        return 0;
+    }
 
-    for(int i = min + 1; n_primes < INT_MAX; i++)
+    for(int32_t i = 2; i <= num / i; i++)
     {
-        for (int j = 0; i < n_primes; i++)
+        if(num % i == 0)
         {
-            if (i % primes[j] == 0) {
-                goto not_prime;
-            }
+            return 0;
         }
+    }
+
+    return 1;
+}
 
-        // Once we have found a prime, then we need to exit the loop
-        prime = i;
-        break;
-        
-        not_prime:
-            ;
+int32_t get_prime(int32_t min)
+{
+    int32_t prime = min + 1;
+
+    while(!is_prime(prime))
+    {
+        prime++;
     }
 
     return prime;
@@ -102,10 +111,16 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
  */ 
 int32_t find_prime_less_than(int32_t num)
 {
-    //if(num > primes[sz-1])
-   // {
-   //     return get_prime(num);
-   // } else {
+    // Beyond the table, try every smaller number in turn
+    if(num > primes[p_sz-1])
+    {
+        int32_t candidate = num - 1;
+        while(!is_prime(candidate))
+        {
+            candidate--;
+        }
+        return candidate;
+    }
+
     return binary_search_primes(0, p_sz-1, num);
-    //}
 }
\ No newline at end of file
-- 
2.43.0


From c7b38e65d99eb944783bf84328110211670cb957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 33/89] fix: give the C++ view of the structs the layout the C
 library uses

---
 include/hdbscan/cluster.h          | 2 +-
 include/hdbscan/constraint.h       | 2 +-
 include/hdbscan/outlier_score.h    | 2 +-
 include/hdbscan/undirected_graph.h | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 4e53711..0f4431f 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -87,7 +87,7 @@ public:
 	 */
 	Cluster(label_t label, Cluster* parent, distance_t birthLevel, index_t numPoints);
 
-	virtual ~Cluster();
+	~Cluster();
 
 	/**
 	 * @brief Removes the specified number of points from this cluster at the given edge level, which will
diff --git a/include/hdbscan/constraint.h b/include/hdbscan/constraint.h
index 8d97014..adae753 100644
--- a/include/hdbscan/constraint.h
+++ b/include/hdbscan/constraint.h
@@ -80,7 +80,7 @@ public:
 	 * @param type The CONSTRAINT_TYPE of the constraint
 	 */
 	Constraint(int pointA, int pointB, CONSTRAINT_TYPE type);
-	virtual ~Constraint();
+	~Constraint();
 #endif
 
 
diff --git a/include/hdbscan/outlier_score.h b/include/hdbscan/outlier_score.h
index 5ff5923..71b8efa 100644
--- a/include/hdbscan/outlier_score.h
+++ b/include/hdbscan/outlier_score.h
@@ -76,7 +76,7 @@ public:
 	 * @brief Destroy the Outlier Score object
 	 * 
 	 */
-	virtual ~OutlierScore();
+	~OutlierScore();
 
 	// ------------------------------ PUBLIC METHODS ------------------------------
 	/**
diff --git a/include/hdbscan/undirected_graph.h b/include/hdbscan/undirected_graph.h
index d7a6c1d..d4e9a03 100644
--- a/include/hdbscan/undirected_graph.h
+++ b/include/hdbscan/undirected_graph.h
@@ -56,7 +56,7 @@ struct UndirectedGraph {
 
 #ifdef __cplusplus
 public:
-	virtual ~UndirectedGraph();
+	~UndirectedGraph();
 	// ------------------------------ CONSTRUCTORS ------------------------------
 
 	/**
-- 
2.43.0


From d016792028b06afb20094118b00a5b98b7cdfb19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 34/89] fix: do not free the object itself in hdbscan::clean

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 7f596e3..30fc045 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -85,7 +85,7 @@ void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* poin
 }
 
 void hdbscan::clean(){
-	hdbscan_destroy(this);
+	hdbscan_clean(this);
 }
 
 map_t createClusterMap(label_t* labels, index_t begin, index_t end){
-- 
2.43.0


From 086c080473124d0cdbe8e34347f8f6bebe94e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 35/89] fix: compute the outlier scores in
 hdbscan::calculateOutlierScores

---
 src/hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 30fc045..e401792 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -81,7 +81,7 @@ void hdbscan::findProminentClusters(boolean infiniteStability){
 }
 
 void hdbscan::calculateOutlierScores(distance_t* pointNoiseLevels, label_t* pointLastClusters, boolean infiniteStability){
-	// TODO
+	hdbscsan_calculate_outlier_scores(this, pointNoiseLevels, pointLastClusters, infiniteStability);
 }
 
 void hdbscan::clean(){
-- 
2.43.0


From c4b0d048e48cf1b8010b6363db93096c57500acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 36/89] fix: accept a graph without edge lists and with more
 edges than vertices can number

---
 src/undirected_graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index d0b8879..0061f6c 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -86,7 +86,7 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 		}
 	}
 	index_t vertexOne, vertexTwo;
-	for (index_t i = 0; i < g->verticesA->size; i++) {
+	for (size_t i = 0; i < array_list_size(g->verticesA); i++) {
 		
 		array_list_value_at(g->verticesA, i, &vertexOne);
 		array_list_value_at(g->verticesB, i, &vertexTwo);
-- 
2.43.0


From c5a8492820dc6dda51a9580a65182e5d3f2bad24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 37/89] fix: release the virtual child, not the parent, in
 cluster_release_virtual_child

---
 src/cluster.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index b3b6c00..4369c8e 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -230,8 +230,8 @@ void cluster_add_constraints_satisfied(cluster* cl, index_t numConstraints){
 
 void cluster_release_virtual_child(cluster* cl){
 
-	if(cl->parent != NULL){
-		cluster_destroy(cl->parent);
+	if(cl->virtualChildCluster != NULL){
+		cl->virtualChildCluster = set_delete(cl->virtualChildCluster);
 	}
 }
 
-- 
2.43.0


From 573d03a99bb6eb7b9f0174e6e046961fd0dcd456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 38/89] fix: reject detaching more points than a cluster has

---
 src/cluster.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 4369c8e..23d0873 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -121,12 +121,7 @@ void cluster_destroy(cluster* cl){
  */
 int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
 
-	cl->numPoints = (index_t)(cl->numPoints - numPoints);
-	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
-
-	if (cl->numPoints == 0)
-		cl->deathLevel = level;
-	else if (cl->numPoints < 0){
+	if (numPoints > cl->numPoints){
 		
 		char s[100];
 		sprintf(s, "cluster_detach_points - Cluster %d has %d points.\n", cl->label, cl->numPoints);
@@ -134,6 +129,12 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
 		return CLUSTER_ERROR;
 	}
 
+	cl->numPoints = (index_t)(cl->numPoints - numPoints);
+	cl->stability += (numPoints * (1 / level - 1 / cl->birthLevel));
+
+	if (cl->numPoints == 0)
+		cl->deathLevel = level;
+
 	return CLUSTER_SUCCESS;
 }
 
-- 
2.43.0


From 2b99e580b82d23bf1cfb3b29ded97cb693454fe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 39/89] fix: keep the edge lists in bounds without self edges
 and count edges with size_t

---
 src/hdbscan.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c0ea8b5..99c2333 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -834,11 +834,12 @@ int hdbscan_construct_mst(hdbscan* sc){
 	attachedPoints[(size_t)(size - 1)] = TRUE;
 
 	//Each point has a current neighbor point in the tree, and a current nearest distance:
-	index_t ssize =(index_t)(size - 1 + selfEdgeCapacity);
-	ArrayList* nearestMRDNeighbors = array_list_init(ssize, sizeof(index_t), NULL);
+	size_t ssize = (size_t)size - 1 + selfEdgeCapacity;
+	size_t capacity = ssize > 0 ? ssize : 1;	// A list cannot have zero capacity
+	ArrayList* nearestMRDNeighbors = array_list_init(capacity, sizeof(index_t), NULL);
 	
 	//Create an array for vertices in the tree that each point attached to:
-	ArrayList* otherVertexIndices = array_list_init(ssize, sizeof(index_t), NULL);
+	ArrayList* otherVertexIndices = array_list_init(capacity, sizeof(index_t), NULL);
 
 	if(nearestMRDNeighbors == NULL){
 #ifdef DEBUG
@@ -871,7 +872,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 		otherVertexIndices->compare = short_compare;
 	}
 
-	ArrayList* nearestMRDDistances = array_list_init(ssize, sizeof(distance_t), NULL);
+	ArrayList* nearestMRDDistances = array_list_init(capacity, sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double))
 	{
 		nearestMRDDistances->compare = double_compare;
@@ -887,7 +888,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
-	for(index_t i = 0; i < ssize; i++) {
+	for(size_t i = 0; i < ssize; i++) {
 		
 		distances[i] = D_MAX;
 		neighbours[i] = 0;
@@ -949,18 +950,18 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 		//Attach the closest point found in this iteration to the tree:
 		attachedPoints[nearestMRDPoint] = TRUE;
-		others[numAttachedPoints] = numAttachedPoints;
+		others[numAttachedPoints - 1] = (index_t)(numAttachedPoints - 1);
 		currentPoint = (index_t)nearestMRDPoint;
 	}
 
 	//If necessary, attach self edges:
 	if (sc->selfEdges == TRUE) {
-		index_t end = (index_t)(size * 2 - 1);
-		index_t begin = (index_t)(size - 1);
+		size_t end = (size_t)size * 2 - 1;
+		size_t begin = (size_t)size - 1;
 		#ifdef _OPENMP
 		#pragma omp parallel for shared(begin, end)
 		#endif
-		for (index_t i = begin; i < end; i++) {
+		for (size_t i = begin; i < end; i++) {
 			index_t vertex = (index_t)(i - begin);
 			neighbours[i] = vertex;
 			others[i] = vertex;
-- 
2.43.0


From 7cd06aa27f656ec4bfe5c98e32c7aee4f24511e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:17 +0000
Subject: [PATCH 40/89] fix: keep edge positions, which exceed the vertex
 count, out of index_t when sorting

---
 src/undirected_graph.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 0061f6c..4d01a0d 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -142,30 +142,30 @@ void graph_quicksort_by_edge_weight(UndirectedGraph* g) {
 	if (esize <= 1)
 		return;
 
-	index_t startIndexStack[esize/2];
-	index_t endIndexStack[esize/2];
+	size_t startIndexStack[esize/2];
+	size_t endIndexStack[esize/2];
 
 	(startIndexStack)[0] = 0;
-	(endIndexStack)[0] = (index_t)(esize - 1);
+	(endIndexStack)[0] = esize - 1;
 	int stackTop = 0;
 
 	while (stackTop >= 0) {
-		int64_t startIndex = (startIndexStack)[stackTop];
-		int64_t endIndex = (endIndexStack)[stackTop];
+		int64_t startIndex = (int64_t)(startIndexStack)[stackTop];
+		int64_t endIndex = (int64_t)(endIndexStack)[stackTop];
 		stackTop--;
 
 		int pivotIndex = graph_select_pivot_index(g, startIndex, endIndex);
 		pivotIndex = graph_partition(g, startIndex, endIndex, pivotIndex);
 
 		if (pivotIndex > startIndex + 1) {
-			(startIndexStack)[stackTop + 1] = (index_t)startIndex;
-			(endIndexStack)[stackTop + 1] = (index_t)(pivotIndex - 1);
+			(startIndexStack)[stackTop + 1] = (size_t)startIndex;
+			(endIndexStack)[stackTop + 1] = (size_t)(pivotIndex - 1);
 			stackTop++;
 		}
 
 		if (pivotIndex < endIndex - 1) {
-			(startIndexStack)[stackTop + 1] = (index_t)(pivotIndex + 1);
-			(endIndexStack)[stackTop + 1] = (index_t)endIndex;
+			(startIndexStack)[stackTop + 1] = (size_t)(pivotIndex + 1);
+			(endIndexStack)[stackTop + 1] = (size_t)endIndex;
 			stackTop++;
 		}
 	}
-- 
2.43.0


From 2f8fd2c18100f741eddb43e5267c1782401e05d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 41/89] fix: do not overflow the stack when minPoints exceeds
 the number of points

---
 src/distance.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/distance.c b/src/distance.c
index 8059bb4..893690c 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -217,7 +217,15 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
  */
 void distance_get_core_distances(distance *dis)
 {
-	
+	// Without enough neighbours every core distance is unbounded, so do not
+	// spend stack space proportional to numNeighbors.
+	if (dis->numNeighbors >= dis->rows) {
+		for (index_t i = 0; i < dis->rows; i++) {
+			dis->coreDistances[i] = D_MAX;
+		}
+		return;
+	}
+
 	distance_t sortedDistance[dis->numNeighbors+1];
 #ifdef _OPENMP	
 #pragma omp parallel for private(sortedDistance)
-- 
2.43.0


From 7d396e05de0e090ae1bbe57d521d82d1fda1026c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:01 +0000
Subject: [PATCH 42/89] fix: give every Python object its own clustering state

---
 modules/python/src/PyHdbscan.c | 33 ++++++++++++++++++++-------------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index a2a08e1..b52e998 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -54,8 +54,6 @@
             PyModuleDef_HEAD_INIT, name, doc, -1, methods, }; \
         ob = PyModule_Create(&PyHdbscanNodule);
 
-hdbscan* scan = NULL;
-
 /**
  * @brief PyHdbscan object
  * 
@@ -66,6 +64,7 @@ typedef struct {
     PyObject* clusterMap;
     PyObject* hierarchy;
 	index_t minPoints, cols, rows;
+	hdbscan* scan;
 } PyHdbscan;
 
 /**
@@ -74,7 +73,10 @@ typedef struct {
  * @param self 
  */
 static void PyHdbscan_dealloc(PyHdbscan* self){
-	hdbscan_clean(scan);
+	if(self->scan != NULL){
+		hdbscan_destroy(self->scan);
+		self->scan = NULL;
+	}
     Py_XDECREF(self->labels);
     Py_XDECREF(self->clusterMap);
     Py_XDECREF(self->hierarchy);
@@ -102,6 +104,7 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
 		self->minPoints = 0;
 		self->rows = 0;
 		self->cols = 0;
+		self->scan = NULL;
     }
 
     return (PyObject *)self;
@@ -136,7 +139,11 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 		return -1;
 	} 
 	
-    scan = hdbscan_init(NULL, self->minPoints);
+    // __init__ can be called more than once
+    if(self->scan != NULL){
+		hdbscan_destroy(self->scan);
+	}
+    self->scan = hdbscan_init(NULL, self->minPoints);
 	
     return 0;
 }
@@ -227,10 +234,10 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     }
 	
     void *dset = PyArray_DATA(d_arr); /// The contigous array
-	int err = hdbscan_run(scan, dset, self->rows, self->cols, TRUE, datatype);
+	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
     npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
 
     Py_INCREF(self->labels);
     Py_XDECREF(dataset); // Release the dataset memory
@@ -255,7 +262,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 		return NULL;
 	} 
 	
-	int err = hdbscan_rerun(scan, self->minPoints);
+	int err = hdbscan_rerun(self->scan, self->minPoints);
 
     npy_intp dims[] = {self->rows, 1};
     enum NPY_TYPES tp = NPY_SHORT;
@@ -266,7 +273,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
         tp = NPY_LONG;
     }
 
-    get_labels(self, scan->clusterLabels);
+    get_labels(self, self->scan->clusterLabels);
     Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
@@ -287,7 +294,7 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    hashtable* tmp = hdbscan_create_cluster_map(scan->clusterLabels, begin, end);
+    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
     self->clusterMap = PyDict_New();
     label_t label;
 
@@ -321,11 +328,11 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     int64_t level;
 	hierarchy_entry* data;
 
-    for(size_t i = 0; i < hashtable_size(scan->hierarchy); i++) {
+    for(size_t i = 0; i < hashtable_size(self->scan->hierarchy); i++) {
         
-		set_value_at(scan->hierarchy->keys, i, &level);
-        hashtable_lookup(scan->hierarchy, &level, &data);
-        npy_intp dims[] = {scan->numPoints, 1};
+		set_value_at(self->scan->hierarchy->keys, i, &level);
+        hashtable_lookup(self->scan->hierarchy, &level, &data);
+        npy_intp dims[] = {self->scan->numPoints, 1};
         PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
         PyObject* key = Py_BuildValue("k", level);
         PyDict_SetItem(self->hierarchy, key, value);
-- 
2.43.0


From bcac62e9b5a91d75ded13251e128ec0ca2871e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 43/89] fix: raise Python exceptions for invalid arguments
 instead of crashing

---
 modules/python/src/PyHdbscan.c | 92 +++++++++++++++++++++++++++-------
 1 file changed, 73 insertions(+), 19 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index b52e998..dbb72e5 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -110,6 +110,34 @@ PyHdbscan_new(PyTypeObject *type, PyObject *args, PyObject *kwds)
     return (PyObject *)self;
 }
 
+/**
+ * @brief Check that minPoints is usable and set a Python exception if not
+ * 
+ * @param minPoints 
+ * @return boolean 
+ */
+static boolean valid_min_points(long minPoints){
+    if(minPoints < 2 || (index_t)minPoints != (unsigned long)minPoints){
+        PyErr_SetString(PyExc_ValueError, "minPoints must be at least 2 and fit the index type.");
+        return FALSE;
+    }
+    return TRUE;
+}
+
+/**
+ * @brief Check that run has been called and set a Python exception if not
+ * 
+ * @param self 
+ * @return boolean 
+ */
+static boolean has_results(PyHdbscan *self){
+    if(self->scan == NULL || self->scan->clusterLabels == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "run must be called first.");
+        return FALSE;
+    }
+    return TRUE;
+}
+
 /**
  * @brief 
  * 
@@ -123,21 +151,14 @@ PyHdbscan_init(PyHdbscan *self, PyObject *args, PyObject *kwds)
 {
     static char *kwlist[] = {"minPoints", NULL};
 
-    char* c;
-    if(sizeof(index_t) == sizeof(int)) {
-        c = "I";
-    } else if(sizeof(index_t) == sizeof(long)) {
-        c = "k";
-    } else {
-        c ="H";
-    }
-
-    if (!PyArg_ParseTupleAndKeywords(args, kwds, c, kwlist, &self->minPoints))
+    long minPoints;
+    if (!PyArg_ParseTupleAndKeywords(args, kwds, "l", kwlist, &minPoints))
         return -1;
     
-    if(self->minPoints < 2){
+    if(!valid_min_points(minPoints)){
 		return -1;
 	} 
+	self->minPoints = (index_t)minPoints;
 	
     // __init__ can be called more than once
     if(self->scan != NULL){
@@ -186,7 +207,17 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         return NULL;
 	}
     
-    int typenum = PyArray_TYPE(dataset);
+    if(self->scan == NULL){
+        PyErr_SetString(PyExc_RuntimeError, "The object has not been initialised.");
+        return NULL;
+    }
+
+    if(!PyArray_Check(dataset)){
+        PyErr_SetString(PyExc_TypeError, "The data set must be a numpy array.");
+        return NULL;
+    }
+
+    int typenum = PyArray_TYPE((PyArrayObject*)dataset);
     uint datatype;
 
     /// Determine the datatype from the array
@@ -211,7 +242,7 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
         datatype = H_SHORT;
     }
     else{
-        printf("Unsupported datatype.\n");
+        PyErr_SetString(PyExc_TypeError, "Unsupported datatype.");
         return NULL;
     }
 
@@ -220,9 +251,21 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     // Create a contigous array from dataset
     PyArrayObject* d_arr = (PyArrayObject*)PyArray_ContiguousFromAny(dataset, typenum, 0, 0);
 	
+    if(d_arr == NULL){
+        Py_DECREF(dataset);
+        return NULL;
+    }
+
     int nd = PyArray_NDIM(d_arr);
 	npy_intp *dimensions = PyArray_DIMS(d_arr);
 
+    if(nd < 1 || nd > 2 || dimensions[0] < 1){
+        PyErr_SetString(PyExc_ValueError, "The data set must have one or two dimensions and at least one row.");
+        Py_DECREF(d_arr);
+        Py_DECREF(dataset);
+        return NULL;
+    }
+
     // Get numpy array dimensions
     if(nd == 1)
     {
@@ -253,14 +296,14 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
  * @return PyObject* 
  */
 static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
-	Py_XDECREF(self->labels); 
-    if (!PyArg_ParseTuple(args, "i", &self->minPoints))
+    long minPoints;
+    if (!PyArg_ParseTuple(args, "l", &minPoints))
         return NULL;
     
-    if(self->minPoints < 2){
-        printf("minPts must be greater than 2.\n");
+    if(!valid_min_points(minPoints) || !has_results(self)){
 		return NULL;
 	} 
+	self->minPoints = (index_t)minPoints;
 	
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
@@ -280,11 +323,19 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->clusterMap); 
     int32_t begin, end;
     if (!PyArg_ParseTuple(args, "ii", &begin, &end))
         return NULL;
 
+    if(!has_results(self)){
+        return NULL;
+    }
+
+    if(begin < 0 || end < begin || (size_t)end > self->scan->numPoints){
+        PyErr_SetString(PyExc_ValueError, "The range must lie within the data set.");
+        return NULL;
+    }
+
     enum NPY_TYPES tp = NPY_SHORT;
 
     if(sizeof(label_t) == sizeof(int)) {
@@ -314,7 +365,10 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 }
 
 static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
-    Py_XDECREF(self->hierarchy); 
+    if(!has_results(self)){
+        return NULL;
+    }
+
     enum NPY_TYPES tp = NPY_SHORT;
 
     if(sizeof(label_t) == sizeof(int)) {
-- 
2.43.0


From 5dfcfdbc63f9eff46eddb1b002487bc8750bb34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:46 +0000
Subject: [PATCH 44/89] fix: own what the Python results refer to and drop the
 references that leaked

---
 modules/python/src/PyHdbscan.c | 57 ++++++++++++++++------------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index dbb72e5..8f4a71d 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -185,11 +185,13 @@ void get_labels(PyHdbscan *self, label_t *labels){
         c ="H";
     }
     
-    self->labels = PyList_New(0);
+    PyObject* list = PyList_New((Py_ssize_t)self->scan->numPoints);
 
-	for(uint i = 0; i < self->rows; i++){
-		PyList_Append(self->labels, Py_BuildValue(c, labels[i]));
+	for(index_t i = 0; i < self->scan->numPoints; i++){
+		PyList_SET_ITEM(list, (Py_ssize_t)i, Py_BuildValue(c, labels[i]));
 	}
+
+    Py_XSETREF(self->labels, list);
 }
 
 /**
@@ -279,11 +281,10 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     void *dset = PyArray_DATA(d_arr); /// The contigous array
 	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
-    npy_intp dims[] = {self->rows, 1}; // Dimensions for the labels numpy array
     get_labels(self, self->scan->clusterLabels);
 
-    Py_INCREF(self->labels);
-    Py_XDECREF(dataset); // Release the dataset memory
+    Py_DECREF(d_arr);
+    Py_DECREF(dataset); // Release the dataset memory
 
 	return Py_BuildValue("i", err);
 }
@@ -307,17 +308,7 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 	
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
-    npy_intp dims[] = {self->rows, 1};
-    enum NPY_TYPES tp = NPY_SHORT;
-
-    if(sizeof(label_t) == sizeof(int)) {
-        tp = NPY_INT;
-    } else if (sizeof(label_t) == sizeof(long)) {
-        tp = NPY_LONG;
-    }
-
     get_labels(self, self->scan->clusterLabels);
-    Py_INCREF(self->labels);
 	
 	return Py_BuildValue("i", err);
 }
@@ -338,15 +329,14 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
 
     enum NPY_TYPES tp = NPY_SHORT;
 
-    if(sizeof(label_t) == sizeof(int)) {
+    if(sizeof(index_t) == sizeof(int)) {
         tp = NPY_INT;
-    } else if (sizeof(label_t) == sizeof(long)) {
+    } else if (sizeof(index_t) == sizeof(long)) {
         tp = NPY_LONG;
     }
 
-    int err = 1;
-    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, begin, end);
-    self->clusterMap = PyDict_New();
+    hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, (index_t)begin, (index_t)end);
+    PyObject* clusterMap = PyDict_New();
     label_t label;
 
     for(size_t i = 0; i < tmp->size; i++) {
@@ -354,12 +344,16 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
         PyObject* key = Py_BuildValue("i", label);
         ArrayList* lst;
         hashtable_lookup(tmp, &label, &lst);
-        npy_intp dims[] = {lst->size, 1};
-        label_t* labels = lst->data;
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, labels);
-        PyDict_SetItem(self->clusterMap, key, value);
+        npy_intp dims[] = {(npy_intp)lst->size};
+        PyObject* value = PyArray_SimpleNew(1, dims, tp);
+        memcpy(PyArray_DATA((PyArrayObject*)value), lst->data, lst->size * sizeof(index_t));
+        PyDict_SetItem(clusterMap, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
 
+    hdbscan_destroy_cluster_map(tmp);
+    Py_XSETREF(self->clusterMap, clusterMap);
     Py_INCREF(self->clusterMap);
     return self->clusterMap;
 }
@@ -378,7 +372,7 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
     }
 
     int err = 1;
-    self->hierarchy = PyDict_New();
+    PyObject* hierarchy = PyDict_New();
     int64_t level;
 	hierarchy_entry* data;
 
@@ -386,13 +380,16 @@ static PyObject* PyHdbscan_getHierarchies(PyHdbscan *self, PyObject *args) {
         
 		set_value_at(self->scan->hierarchy->keys, i, &level);
         hashtable_lookup(self->scan->hierarchy, &level, &data);
-        npy_intp dims[] = {self->scan->numPoints, 1};
-        PyObject* value = PyArray_SimpleNewFromData(1, dims, tp, data->labels);
+        npy_intp dims[] = {(npy_intp)self->scan->numPoints};
+        PyObject* value = PyArray_SimpleNew(1, dims, tp);
+        memcpy(PyArray_DATA((PyArrayObject*)value), data->labels, self->scan->numPoints * sizeof(label_t));
         PyObject* key = Py_BuildValue("k", level);
-        PyDict_SetItem(self->hierarchy, key, value);
+        PyDict_SetItem(hierarchy, key, value);
+        Py_DECREF(key);
+        Py_DECREF(value);
     }
     
-    Py_INCREF(self->hierarchy);
+    Py_XSETREF(self->hierarchy, hierarchy);
     return Py_BuildValue("i", err);
 }
 
-- 
2.43.0


From eb58a581d676d393cda9baf6156b5a43f8332030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 45/89] fix: export cleanHdbscan under the name its Java class
 looks up

---
 modules/java/src/Hdbscan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index b00d8a1..6db2e7d 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -93,6 +93,6 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
 }
 
-JNIEXPORT void JNICALL Java_hdbscan_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
-	//scan.clean();
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
+	scan.clean();
 }
-- 
2.43.0


From 09af2d5d9023287046c7ad024547136fe59512a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 46/89] fix: release the copied Java data set with delete[]

---
 modules/java/src/Hdbscan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index 6db2e7d..5c8398e 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -82,7 +82,7 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-	delete dset;
+	delete[] dset;
 	
 	return getLabelsArray(env, scan.clusterLabels, rows);
 }
-- 
2.43.0


From 4b40198c904e05e0c2e6f6e81b0f5dacf0c50066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 47/89] fix: release the Java arrays after copying them

---
 modules/java/src/Hdbscan.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index 5c8398e..e8b2d5c 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -68,6 +68,7 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 	int rows = env->GetArrayLength(dataset);
 	jdoubleArray dim=  (jdoubleArray)env->GetObjectArrayElement(dataset, 0);
 	int cols = env -> GetArrayLength(dim);
+	env->DeleteLocalRef(dim);
 	double *dset = new double[rows * cols];
 	long dIdx = 0;
 
@@ -79,6 +80,8 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 			dset[dIdx] = row[j];
 			dIdx++;
 		}
+		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
+		env->DeleteLocalRef(dim);
 	}
 	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
-- 
2.43.0


From b87b1aa51e731297fad20ab47d79db2a4c4fbe6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 48/89] fix: throw Java exceptions for invalid arguments
 instead of aborting the virtual machine

---
 modules/java/src/Hdbscan.cpp | 40 +++++++++++++++++++++++++++++++++++-
 1 file changed, 39 insertions(+), 1 deletion(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index e8b2d5c..d50ddac 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -44,7 +44,19 @@
 using namespace clustering;
 hdbscan scan;
 
+static void throwJava(JNIEnv *env, const char* name, const char* message){
+	jclass type = env->FindClass(name);
+	if(type != NULL){
+		env->ThrowNew(type, message);
+	}
+}
+
 JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env, jobject obj, jint minPoints){
+	if(minPoints < 2){
+		throwJava(env, "java/lang/IllegalArgumentException", "minPoints must be at least 2");
+		return;
+	}
+
 	hdbscan_init(&scan, minPoints);
 }
 
@@ -65,15 +77,31 @@ jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env, jobject obj, jobjectArray dataset){
 	
+	if(env->IsSameObject(dataset, NULL) || env->GetArrayLength(dataset) < 1){
+		throwJava(env, "java/lang/IllegalArgumentException", "The data set must have at least one row");
+		return NULL;
+	}
+
 	int rows = env->GetArrayLength(dataset);
 	jdoubleArray dim=  (jdoubleArray)env->GetObjectArrayElement(dataset, 0);
+	if(dim == NULL){
+		throwJava(env, "java/lang/IllegalArgumentException", "The data set must not contain null rows");
+		return NULL;
+	}
+
 	int cols = env -> GetArrayLength(dim);
 	env->DeleteLocalRef(dim);
-	double *dset = new double[rows * cols];
+	double *dset = new double[(size_t)rows * cols];
 	long dIdx = 0;
 
 	for(int i = 0; i < rows; i++){
 		dim =  (jdoubleArray)env->GetObjectArrayElement(dataset, i);
+		if(dim == NULL || env->GetArrayLength(dim) != cols){
+			delete[] dset;
+			throwJava(env, "java/lang/IllegalArgumentException", "All rows must have the same length");
+			return NULL;
+		}
+
 		jdouble *row = env->GetDoubleArrayElements(dim, NULL);
 		
 		for(int j = 0; j < cols; j++){
@@ -92,6 +120,16 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *env, jobject obj, jint newMinPts){
+	if(newMinPts < 2){
+		throwJava(env, "java/lang/IllegalArgumentException", "minPoints must be at least 2");
+		return NULL;
+	}
+
+	if(scan.clusterLabels == NULL){
+		throwJava(env, "java/lang/IllegalStateException", "run must be called first");
+		return NULL;
+	}
+
 	scan.reRun(newMinPts);	
 	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
 }
-- 
2.43.0


From 9222ac89834c5fd485bdba92dc4523544fd863fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 49/89] fix: give every Java object its own clustering state

---
 modules/java/src/Hdbscan.cpp                  | 40 ++++++++++++++-----
 .../java/src/bw/co/roguesystems/Hdbscan.java  |  5 +++
 2 files changed, 36 insertions(+), 9 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index d50ddac..b16b61a 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -42,7 +42,20 @@
 #include <iostream>
 
 using namespace clustering;
-hdbscan scan;
+
+/**
+ * The field of the Java object that holds the address of its native object
+ */
+static jfieldID handleField(JNIEnv *env, jobject obj){
+	jclass type = env->GetObjectClass(obj);
+	jfieldID field = env->GetFieldID(type, "handle", "J");
+	env->DeleteLocalRef(type);
+	return field;
+}
+
+static hdbscan* getScan(JNIEnv *env, jobject obj){
+	return (hdbscan*)env->GetLongField(obj, handleField(env, obj));
+}
 
 static void throwJava(JNIEnv *env, const char* name, const char* message){
 	jclass type = env->FindClass(name);
@@ -57,7 +70,8 @@ JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env,
 		return;
 	}
 
-	hdbscan_init(&scan, minPoints);
+	delete getScan(env, obj);
+	env->SetLongField(obj, handleField(env, obj), (jlong)new hdbscan((index_t)minPoints));
 }
 
 jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
@@ -77,6 +91,12 @@ jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 
 JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env, jobject obj, jobjectArray dataset){
 	
+	hdbscan* scan = getScan(env, obj);
+	if(scan == NULL){
+		throwJava(env, "java/lang/IllegalStateException", "The native object has been cleaned");
+		return NULL;
+	}
+
 	if(env->IsSameObject(dataset, NULL) || env->GetArrayLength(dataset) < 1){
 		throwJava(env, "java/lang/IllegalArgumentException", "The data set must have at least one row");
 		return NULL;
@@ -111,11 +131,11 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 		env->ReleaseDoubleArrayElements(dim, row, JNI_ABORT);
 		env->DeleteLocalRef(dim);
 	}
-	scan.run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
+	scan->run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
 	delete[] dset;
 	
-	return getLabelsArray(env, scan.clusterLabels, rows);
+	return getLabelsArray(env, scan->clusterLabels, rows);
 }
 
 
@@ -125,15 +145,17 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 		return NULL;
 	}
 
-	if(scan.clusterLabels == NULL){
+	hdbscan* scan = getScan(env, obj);
+	if(scan == NULL || scan->clusterLabels == NULL){
 		throwJava(env, "java/lang/IllegalStateException", "run must be called first");
 		return NULL;
 	}
 
-	scan.reRun(newMinPts);	
-	return getLabelsArray(env, scan.clusterLabels, scan.numPoints);
+	scan->reRun((index_t)newMinPts);	
+	return getLabelsArray(env, scan->clusterLabels, (int)scan->numPoints);
 }
 
-JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *, jobject){
-	scan.clean();
+JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *env, jobject obj){
+	delete getScan(env, obj);
+	env->SetLongField(obj, handleField(env, obj), 0);
 }
diff --git a/modules/java/src/bw/co/roguesystems/Hdbscan.java b/modules/java/src/bw/co/roguesystems/Hdbscan.java
index dd284e1..b00591f 100644
--- a/modules/java/src/bw/co/roguesystems/Hdbscan.java
+++ b/modules/java/src/bw/co/roguesystems/Hdbscan.java
@@ -35,6 +35,11 @@ public class Hdbscan{
 	};
 
 	private int[] labels;
+
+	/**
+	 * The native object, 0 when there is none
+	 */
+	private long handle;
 	
 	 /**
 	  * Initialise hdbscan*
-- 
2.43.0


From bd727493cfdb7166992a3638c0a7492c435b49f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 50/89] fix: logger time stamps of several threads do not share
 one struct tm

---
 modules/utils/src/logger.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 7943ea1..39d660d 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -53,8 +53,9 @@ static char* getDateString() {
     // Allocate space for date string
     char* date = (char*)malloc( 100 );
 
-    // Format the time correctly
-    strftime(date, 100, "[%F %T]", localtime(&t));
+    // Format the time correctly. localtime would share its result between threads.
+    struct tm now;
+    strftime(date, 100, "[%F %T]", localtime_r(&t, &now));
 
     return date;
 }
-- 
2.43.0


From 0598ffaebcd7eb3c1f4956f7632044a72941dcab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:31 +0000
Subject: [PATCH 51/89] fix: differences of float coordinates are not rounded
 to float

---
 src/distance.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distance.c b/src/distance.c
index 893690c..2541f7b 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -164,8 +164,9 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 
 				} else if(dis->datatype == H_FLOAT) {
 
+					// The difference of two floats may not be exact, or not fit in a float
 					float* dt = dataset;
-					diff = (distance_t)(dt[i * dis->cols + k] - dt[j * dis->cols + k]);
+					diff = (distance_t)((double)dt[i * dis->cols + k] - (double)dt[j * dis->cols + k]);
 
 				} else if(dis->datatype == H_INT) {
 
-- 
2.43.0


From 4edc3c1600f40120046968ebfb871236d03e61ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:52 +0000
Subject: [PATCH 52/89] fix: points at the largest distance from each other are
 attached to the first point, not to vertex 0 twice

---
 src/hdbscan.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 99c2333..3aef73b 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -891,7 +891,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 	for(size_t i = 0; i < ssize; i++) {
 		
 		distances[i] = D_MAX;
-		neighbours[i] = 0;
+		neighbours[i] = currentPoint;
 		others[i] = 0;
 	}
 
-- 
2.43.0


From 5472c395f4fadb6fc49a065d8b6abdc8884b774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:19 +0000
Subject: [PATCH 53/89] fix: highestPowerof2 handles 0 and arguments that
 double cannot represent

---
 modules/utils/src/utils.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/modules/utils/src/utils.c b/modules/utils/src/utils.c
index a6d169a..3ae7e51 100644
--- a/modules/utils/src/utils.c
+++ b/modules/utils/src/utils.c
@@ -44,8 +44,13 @@
 
 size_t highestPowerof2(size_t n)
 {
-	size_t p = (size_t)log2((double)n);
-   	return (size_t)pow(2, (double)p+1);
+	size_t p = 1;
+
+	while(p <= n && p << 1 != 0) {
+		p <<= 1;
+	}
+
+	return p;
 }
 
 int32_t int_compare(const void *ptr_a, const void *ptr_b) {
-- 
2.43.0


From 7363de83bfd1e404b3efb0d7cdd919022f4c28a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:48 +0000
Subject: [PATCH 54/89] fix: the prime search goes left when the previous prime
 equals the argument

---
 modules/collections/src/primes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/collections/src/primes.c b/modules/collections/src/primes.c
index 0862e62..3e9a29f 100644
--- a/modules/collections/src/primes.c
+++ b/modules/collections/src/primes.c
@@ -92,7 +92,7 @@ int32_t binary_search_primes(int32_t l, int32_t r, int32_t x)
         // If element is smaller than mid, then 
         // it can only be present in left subarray
 
-        if (primes[mid] > x && primes[mid - 1] > x) {
+        if (primes[mid] > x && primes[mid - 1] >= x) {
             return binary_search_primes(l, mid - 1, x); 
         } 
   
-- 
2.43.0


From ebd7cc02bc60ab3e1315b30706deea531d5ea0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:09 +0000
Subject: [PATCH 55/89] fix: log messages of any length without copying them to
 the stack

---
 modules/utils/src/logger.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 39d660d..d4afdcb 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -103,13 +103,10 @@ void logger_write(enum LOGTYPE type, const char* str) {
     
     /** If the LOGTYPE is none, we do not add the timestamp information to the log */
     if(type != NONE) {
-        size_t sz = strlen(date) + strlen(tp) + strlen(str) + 10;
-        char buffer[sz];
-        sprintf(buffer, "%s %s: %s", date, tp, str);
     #ifdef DEBUG
-        fprintf(log_file, "%s", buffer);
+        fprintf(log_file, "%s %s: %s", date, tp, str);
     #else
-        printf("%s", buffer);
+        printf("%s %s: %s", date, tp, str);
     #endif
     } else {
     #ifdef DEBUG
-- 
2.43.0


From 594d8272b61096579801c305c83bbe7cf187e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:09 +0000
Subject: [PATCH 56/89] fix: keep an open log file when the logger is
 initialised again and forget a closed one

---
 modules/utils/src/logger.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index d4afdcb..5991ae8 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -62,7 +62,6 @@ static char* getDateString() {
 
 void logger_init()
 {
-    log_file = NULL; //! Make sure the log file pointer is null
     /*!
      * \brief Only open the file if the library was compiled for debugging
      * 
@@ -122,5 +121,6 @@ void logger_close() {
 #ifdef DEBUG
     assert(log_file != NULL);
     fclose(log_file);
+    log_file = NULL; //! Nothing may be written to the closed file
 #endif
 }
-- 
2.43.0


From c8535fbd34e05ddfcfa42e4f0b5eee87756ba141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:09 +0000
Subject: [PATCH 57/89] fix: let C++ sources include logger.h more than once

---
 modules/utils/include/hdbscan/logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modules/utils/include/hdbscan/logger.h b/modules/utils/include/hdbscan/logger.h
index ef8b7a0..00d3862 100644
--- a/modules/utils/include/hdbscan/logger.h
+++ b/modules/utils/include/hdbscan/logger.h
@@ -58,8 +58,8 @@ void logger_init();
  */
 void logger_write(enum LOGTYPE type, const char* str);
 void logger_close();
-#endif
 #ifdef __cplusplus
 }
+#endif
 
 #endif /* HDBSCAN_LOGGER_H_ */
-- 
2.43.0


From 7b38cae8b27d27e1d4e07f4b54da4f997c489d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:56 +0000
Subject: [PATCH 58/89] fix: keep the native object of a Java subclass that has
 its own handle field

---
 modules/java/src/Hdbscan.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index b16b61a..ce1a47f 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -46,15 +46,16 @@ using namespace clustering;
 /**
  * The field of the Java object that holds the address of its native object
  */
-static jfieldID handleField(JNIEnv *env, jobject obj){
-	jclass type = env->GetObjectClass(obj);
+static jfieldID handleField(JNIEnv *env){
+	// not the class of the object, which may be a subclass with a handle of its own
+	jclass type = env->FindClass("bw/co/roguesystems/Hdbscan");
 	jfieldID field = env->GetFieldID(type, "handle", "J");
 	env->DeleteLocalRef(type);
 	return field;
 }
 
 static hdbscan* getScan(JNIEnv *env, jobject obj){
-	return (hdbscan*)env->GetLongField(obj, handleField(env, obj));
+	return (hdbscan*)env->GetLongField(obj, handleField(env));
 }
 
 static void throwJava(JNIEnv *env, const char* name, const char* message){
@@ -71,7 +72,7 @@ JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env,
 	}
 
 	delete getScan(env, obj);
-	env->SetLongField(obj, handleField(env, obj), (jlong)new hdbscan((index_t)minPoints));
+	env->SetLongField(obj, handleField(env), (jlong)new hdbscan((index_t)minPoints));
 }
 
 jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
@@ -157,5 +158,5 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 
 JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_cleanHdbscan(JNIEnv *env, jobject obj){
 	delete getScan(env, obj);
-	env->SetLongField(obj, handleField(env, obj), 0);
+	env->SetLongField(obj, handleField(env), 0);
 }
-- 
2.43.0


From ec95f695e543fe8b9ee3a1826f06317f4db21c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:11 +0000
Subject: [PATCH 59/89] fix: arrays proportional to the data set were on the
 stack and overflowed it in threads with small stacks

---
 modules/java/src/Hdbscan.cpp |  3 ++-
 src/distance.c               |  7 ++++---
 src/hdbscan.c                | 27 +++++++++++++++++++--------
 src/hdbscan.cpp              |  6 +++---
 src/undirected_graph.c       |  6 ++++--
 5 files changed, 32 insertions(+), 17 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index ce1a47f..800f810 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -77,7 +77,7 @@ JNIEXPORT void JNICALL Java_bw_co_roguesystems_Hdbscan_initHdbscan(JNIEnv *env,
 
 jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 	jintArray labels = env->NewIntArray(rows);	
-	int32_t tmp[rows];
+	jint* tmp = new jint[rows];
 
 	#ifdef _OPENMP
 	#pragma omp parallel for
@@ -87,6 +87,7 @@ jintArray getLabelsArray(JNIEnv *env, label_t *lbs, int rows){
 	}
 
 	env->SetIntArrayRegion(labels, 0, rows, tmp);
+	delete[] tmp;
 	return labels;
 }
 
diff --git a/src/distance.c b/src/distance.c
index 2541f7b..3254331 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -219,7 +219,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 void distance_get_core_distances(distance *dis)
 {
 	// Without enough neighbours every core distance is unbounded, so do not
-	// spend stack space proportional to numNeighbors.
+	// spend space proportional to numNeighbors.
 	if (dis->numNeighbors >= dis->rows) {
 		for (index_t i = 0; i < dis->rows; i++) {
 			dis->coreDistances[i] = D_MAX;
@@ -227,11 +227,11 @@ void distance_get_core_distances(distance *dis)
 		return;
 	}
 
-	distance_t sortedDistance[dis->numNeighbors+1];
 #ifdef _OPENMP	
-#pragma omp parallel for private(sortedDistance)
+#pragma omp parallel for
 #endif
 	for (index_t i = 0; i < dis->rows; i++) {
+		distance_t* sortedDistance = (distance_t*)malloc(((size_t)dis->numNeighbors+1) * sizeof(distance_t));
 
 		/// Fill sortedDistance with the largest possible value of distance_t
 		for (index_t j = 0; j < dis->numNeighbors+1; j++) {
@@ -277,6 +277,7 @@ void distance_get_core_distances(distance *dis)
 			}
 		}
 		dis->coreDistances[i] = sortedDistance[dis->numNeighbors];
+		free(sortedDistance);
 	}
 
 }
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 3aef73b..2798237 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -258,8 +258,9 @@ int hdbscan_do_run(hdbscan* sc){
 
 	graph_quicksort_by_edge_weight(sc->mst);
 	
-	distance_t pointNoiseLevels[sc->numPoints];
-	label_t pointLastClusters[sc->numPoints];
+	// Not on the stack, whose size may be small compared with the data set
+	distance_t* pointNoiseLevels = (distance_t*)malloc(sc->numPoints * sizeof(distance_t));
+	label_t* pointLastClusters = (label_t*)malloc(sc->numPoints * sizeof(label_t));
 
 	hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters);
 	int infiniteStability = hdbscan_propagate_tree(sc);
@@ -267,6 +268,9 @@ int hdbscan_do_run(hdbscan* sc){
 
 	hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);
 
+	free(pointNoiseLevels);
+	free(pointLastClusters);
+
 	return HDBSCAN_SUCCESS;
 }
 
@@ -371,8 +375,8 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	boolean nextLevelSignificant = TRUE;
 	//The previous and current cluster numbers of each point in the data set:
 	index_t numVertices = sc->mst->numVertices;
-	label_t previousClusterLabels[numVertices];
-	label_t currentClusterLabels[numVertices];
+	label_t* previousClusterLabels = (label_t*)malloc(numVertices * sizeof(label_t));
+	label_t* currentClusterLabels = (label_t*)malloc(numVertices * sizeof(label_t));
 
 #ifdef _OPENMP
 #pragma omp parallel for
@@ -718,6 +722,8 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 	set_delete(affectedClusterLabels);
 	set_delete(affectedVertices);
+	free(previousClusterLabels);
+	free(currentClusterLabels);
 
 	return HDBSCAN_SUCCESS;
 }
@@ -821,7 +827,7 @@ int hdbscan_construct_mst(hdbscan* sc){
 	}
 
 	//One bit is set (true) for each attached point, or unset (false) for unattached points:
-	boolean attachedPoints[size];
+	boolean* attachedPoints = (boolean*)malloc(size * sizeof(boolean));
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
@@ -954,6 +960,8 @@ int hdbscan_construct_mst(hdbscan* sc){
 		currentPoint = (index_t)nearestMRDPoint;
 	}
 
+	free(attachedPoints);
+
 	//If necessary, attach self edges:
 	if (sc->selfEdges == TRUE) {
 		size_t end = (size_t)size * 2 - 1;
@@ -1002,7 +1010,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		clustersToExamine->compare = short_compare;
 	}
 
-	boolean addedToExaminationList[sc->clusters->size];
+	boolean* addedToExaminationList = (boolean*)malloc(sc->clusters->size * sizeof(boolean));
 	boolean infiniteStability = FALSE;
 	size_t i;
 
@@ -1069,6 +1077,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 	}
 	currentCluster = NULL;
 	set_delete(clustersToExamine);
+	free(addedToExaminationList);
 
 	return infiniteStability;
 }
@@ -1469,8 +1478,8 @@ void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_s
  */
 void hdbscan_calculate_stats(hashtable* distanceMap, clustering_stats* stats){
 
-	distance_t cr[hashtable_size(distanceMap)];
-	distance_t dr[hashtable_size(distanceMap)];
+	distance_t* cr = (distance_t*)malloc(hashtable_size(distanceMap) * sizeof(distance_t));
+	distance_t* dr = (distance_t*)malloc(hashtable_size(distanceMap) * sizeof(distance_t));
 	label_t key;
 	distance_values* dl = NULL;
 	
@@ -1498,6 +1507,8 @@ void hdbscan_calculate_stats(hashtable* distanceMap, clustering_stats* stats){
 		dl->cr_confidence = ((stats->coreDistanceValues.max - rc) / stats->coreDistanceValues.max) * 100;
 		dl->dr_confidence = ((stats->intraDistanceValues.max - rd) / stats->intraDistanceValues.max) * 100;
 	}
+	free(cr);
+	free(dr);
 }
 
 /**
diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index e401792..09c0f95 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -156,8 +156,8 @@ map<label_t, distance_values> getMinMaxDistances(hdbscan& scan, map_t& clusterTa
 
 void calculateStats(map<label_t, distance_values>& distanceMap, clustering_stats& stats){
 
-	distance_t cr[distanceMap.size()];
-	distance_t dr[distanceMap.size()];
+	vector<distance_t> cr(distanceMap.size());
+	vector<distance_t> dr(distanceMap.size());
 	index_t c = 0;
 
 	for(map<label_t, distance_values>::iterator it = distanceMap.begin(); it != distanceMap.end(); ++it){
@@ -167,7 +167,7 @@ void calculateStats(map<label_t, distance_values>& distanceMap, clustering_stats
 		c++;
 	}
 	stats.count = c;
-	hdbscan_calculate_stats_helper(cr, dr, &stats);
+	hdbscan_calculate_stats_helper(cr.data(), dr.data(), &stats);
 
 	c = 0;
 	for(map<label_t, distance_values>::iterator it = distanceMap.begin(); it != distanceMap.end(); ++it){
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 4d01a0d..ff9c796 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -142,8 +142,8 @@ void graph_quicksort_by_edge_weight(UndirectedGraph* g) {
 	if (esize <= 1)
 		return;
 
-	size_t startIndexStack[esize/2];
-	size_t endIndexStack[esize/2];
+	size_t* startIndexStack = (size_t*)malloc(esize/2 * sizeof(size_t));
+	size_t* endIndexStack = (size_t*)malloc(esize/2 * sizeof(size_t));
 
 	(startIndexStack)[0] = 0;
 	(endIndexStack)[0] = esize - 1;
@@ -169,6 +169,8 @@ void graph_quicksort_by_edge_weight(UndirectedGraph* g) {
 			stackTop++;
 		}
 	}
+	free(startIndexStack);
+	free(endIndexStack);
 }
 
 int32_t graph_select_pivot_index(UndirectedGraph* g, int64_t startIndex, int64_t endIndex) {
-- 
2.43.0


From a8f2db2eb1883c604b7691eaa67796d8027c48ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:13 +0000
Subject: [PATCH 60/89] fix: sorting recursed once per element on tied or
 sorted values

---
 src/hdbscan.c          | 13 ++++++++++---
 src/undirected_graph.c | 13 ++++++++++---
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 2798237..f93601e 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1612,11 +1612,18 @@ void hdbscan_quicksort(ArrayList *clusters, ArrayList *sortData, int32_t left, i
 
 	distance_t *d_data = (distance_t *)sortData->data;
 	label_t *c_data = (label_t *)clusters->data;
-	if(left < right){
+	while(left < right){
 		int32_t pivot;
 		partition(c_data, d_data, left, right, &pivot);
-		hdbscan_quicksort(clusters, sortData, left, pivot - 1);
-		hdbscan_quicksort(clusters, sortData, pivot + 1, right);
+
+		// Only the smaller part is sorted recursively, so that the recursion cannot get deep
+		if(pivot - left < right - pivot){
+			hdbscan_quicksort(clusters, sortData, left, pivot - 1);
+			left = pivot + 1;
+		} else {
+			hdbscan_quicksort(clusters, sortData, pivot + 1, right);
+			right = pivot - 1;
+		}
 	}
 }
 
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index ff9c796..fcdc59a 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -244,11 +244,18 @@ int32_t graph_partition(UndirectedGraph* g, int64_t startIndex, int64_t endIndex
 }
 
 void graph_quicksort(UndirectedGraph* g, int64_t startIndex, int64_t endIndex) {
-	if (startIndex < endIndex) {
+	while (startIndex < endIndex) {
 		int64_t pivotIndex = graph_select_pivot_index(g, startIndex, endIndex);
 		pivotIndex = graph_partition(g, startIndex, endIndex, pivotIndex);
-		graph_quicksort(g, startIndex, pivotIndex - 1);
-		graph_quicksort(g, pivotIndex + 1, endIndex);
+
+		// Only the smaller part is sorted recursively, so that the recursion cannot get deep
+		if (pivotIndex - startIndex < endIndex - pivotIndex) {
+			graph_quicksort(g, startIndex, pivotIndex - 1);
+			startIndex = pivotIndex + 1;
+		} else {
+			graph_quicksort(g, pivotIndex + 1, endIndex);
+			endIndex = pivotIndex - 1;
+		}
 	}
 }
 
-- 
2.43.0


From b557be3cd33a4fa3d86162165afa9e229fc2bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:17 +0000
Subject: [PATCH 61/89] fix: a list survives a failed allocation

A failing realloc lost the elements of the list, and array_list_insert_at went on to
write behind its memory.
---
 modules/collections/src/list.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/modules/collections/src/list.c b/modules/collections/src/list.c
index 76cae0b..087c3f0 100644
--- a/modules/collections/src/list.c
+++ b/modules/collections/src/list.c
@@ -119,12 +119,13 @@ int32_t array_list_value_at(ArrayList* list, size_t pos, void* data)
 int32_t array_list_grow(ArrayList* list){
 
 	size_t newmax = highestPowerof2(list->max_size*2);
-	list->data = realloc(list->data, newmax * list->step);
+	void* data = realloc(list->data, newmax * list->step);
 
-	if(list->data == NULL){
-		return -1;
+	if(data == NULL){
+		return -1;	// The list still has its elements
 	}
 
+	list->data = data;
 	list->max_size = newmax;
 
 	return 1;
@@ -211,9 +212,9 @@ int32_t array_list_insert_at(ArrayList* list, void* data, size_t pos) {
 		return 0;
 	}
 
-	if(list->size == list->max_size) {
-       array_list_grow(list);
-    }
+	if(list->size == list->max_size && array_list_grow(list) < 0) {
+		return 0;
+	}
 
     size_t t1 = pos * list->step;					// Beginning of the source
     size_t t2 = (pos + 1) * list->step;				// Beginning of the destination
@@ -284,8 +285,11 @@ void array_list_clear(ArrayList* list, int32_t resize)
 {
 	list->size = 0;
 	if(resize) {
-		list->data = realloc(list->data, list->step);
-		list->max_size = 1;
+		void* data = realloc(list->data, list->step);
+		if(data != NULL) {
+			list->data = data;
+			list->max_size = 1;
+		}
 	}
 }
 
-- 
2.43.0


From b0436d6fd91d6021ed58e056cf8fe37ca6920c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:17 +0000
Subject: [PATCH 62/89] fix: a hash table survives a failed allocation

Entries, the key set and temporary copies were used without looking whether their
memory could be allocated; hashtable_insert returns 0 then, as documented.
---
 modules/collections/src/hashtable.c | 39 ++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/modules/collections/src/hashtable.c b/modules/collections/src/hashtable.c
index 904d96e..5dc8f60 100644
--- a/modules/collections/src/hashtable.c
+++ b/modules/collections/src/hashtable.c
@@ -158,6 +158,13 @@ hashtable* hashtable_init_size(size_t buckets, enum HTYPES ktype, enum HTYPES dt
     htbl->collisions = 0;
     htbl->key_compare = compare;
     htbl->keys = set_init(get_htype_size(htbl->ktype), compare);
+    if(htbl->keys == NULL)
+    {
+        logger_write(FATAL, "Hash table key set memory allocation failed\n");
+        free(htbl->table);
+        free(htbl);
+        return NULL;
+    }
 
     /**
      * @brief Determine the function to use for key hashing
@@ -201,6 +208,18 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
     if(entry == NULL) /// The key is not in the table
     {
         entry = hashtable_set_entry(htbl, entry, key, value);
+        if(entry == NULL)
+        {
+            return 0;
+        }
+
+        if(!set_insert(htbl->keys, key))
+        {
+            free(entry->key);
+            free(entry->data);
+            free(entry);
+            return 0;
+        }
 
         // The bucket has at least one entry
         if(htbl->table[bucket] != NULL)
@@ -214,12 +233,15 @@ int32_t hashtable_insert(hashtable* htbl, void *key, void* value)
 
         htbl->table[bucket] = entry;
         htbl->size++;        
-        set_insert(htbl->keys, key);
     } else { /// The key is in the table 
         // In case the value memory is externally managed, we have to get the data
         // in the entry before replacing it.
         size_t dsize = get_htype_size(htbl->dtype);
         void* tmp = malloc(dsize);
+        if(tmp == NULL)
+        {
+            return 0;
+        }
         memcpy(tmp, entry->data, dsize);          // Copy the data to a tmp variable
         memcpy(entry->data, value, dsize);        // Replace the data
         memcpy(value, tmp, dsize);          // Copy the original data into value
@@ -339,7 +361,8 @@ int32_t hashtable_remove(hashtable* htbl, void* key, void* data)
 int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*value_destroy)(void *value))
 {
     size_t dsize = get_htype_size(htbl->dtype);
-    void* data = malloc(dsize);
+    union { void* pointer; double real; long integer; } value;  // Large enough for all types
+    void* data = &value;
     hashtable_entry* entry = NULL;
     hashtable_entry* tmp = NULL;
 
@@ -369,7 +392,6 @@ int32_t hashtable_clear(hashtable* htbl, void (*key_destroy)(void *key), void (*
         }
     }
 
-    free(data);
     set_clear(htbl->keys);
     htbl->size = 0;
    
@@ -409,12 +431,23 @@ hashtable_entry* hashtable_set_entry(hashtable* htbl, hashtable_entry *entry, vo
     if(entry == NULL)
     {
         entry = (hashtable_entry *)malloc(sizeof(hashtable_entry));
+        if(entry == NULL)
+        {
+            return NULL;
+        }
 
         // Assign proper memory sizes.
         // TODO: see if data and key memories can be allocated in a
         // single contigous memory with the malloc above.
         entry->data = malloc(dsize);
         entry->key = malloc(ksize);
+        if(entry->data == NULL || entry->key == NULL)
+        {
+            free(entry->key);
+            free(entry->data);
+            free(entry);
+            return NULL;
+        }
 
         // Make sure next and prev are NULL
         entry->next = NULL;
-- 
2.43.0


From 213e7668896b9c88707591afbe685ed35df5b11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:17 +0000
Subject: [PATCH 63/89] fix: a linked list survives a failed allocation

---
 modules/collections/src/linkedlist.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/modules/collections/src/linkedlist.c b/modules/collections/src/linkedlist.c
index 2343fbc..62b2bea 100644
--- a/modules/collections/src/linkedlist.c
+++ b/modules/collections/src/linkedlist.c
@@ -80,7 +80,10 @@ linkedlist *linkedlist_init(size_t step)
 void node_set_data(node* nd, void* data, size_t step)
 {    
     nd->data = malloc(step);
-    memcpy(nd->data, data, step);
+    if(nd->data != NULL)
+    {
+        memcpy(nd->data, data, step);
+    }
 }
 
 /**
@@ -103,6 +106,11 @@ node* node_creator(void* data, enum HTYPES type)
     nd->next = NULL;
 
     node_set_data(nd, data, type);
+    if(nd->data == NULL)
+    {
+        free(nd);
+        return NULL;
+    }
     
     return nd;
 }
-- 
2.43.0


From 5f863f12bd067d67856350bfd733491644b92afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:13 +0000
Subject: [PATCH 64/89] fix: the logger could not report that memory has run
 out

It allocated the time stamp of every message without looking whether that worked.
---
 modules/utils/src/logger.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/modules/utils/src/logger.c b/modules/utils/src/logger.c
index 5991ae8..972750e 100644
--- a/modules/utils/src/logger.c
+++ b/modules/utils/src/logger.c
@@ -46,18 +46,13 @@
 #include <time.h>
 
 static FILE* log_file;
-static char* getDateString() {
+static void getDateString(char* date, size_t size) {
     // Initialize and get current time
     time_t t = time( NULL );
 
-    // Allocate space for date string
-    char* date = (char*)malloc( 100 );
-
     // Format the time correctly. localtime would share its result between threads.
     struct tm now;
-    strftime(date, 100, "[%F %T]", localtime_r(&t, &now));
-
-    return date;
+    strftime(date, size, "[%F %T]", localtime_r(&t, &now));
 }
 
 void logger_init()
@@ -85,7 +80,9 @@ void logger_write(enum LOGTYPE type, const char* str) {
     assert(log_file != NULL);
 #endif
 
-    char* date = getDateString();
+    // Not allocated: failed allocations are reported here too
+    char date[100];
+    getDateString(date, sizeof(date));
     const char* tp;
 
     if(type == FATAL) {
@@ -114,7 +111,6 @@ void logger_write(enum LOGTYPE type, const char* str) {
         printf("%s", str);
     #endif
     }
-    free(date);
 }
 
 void logger_close() {
-- 
2.43.0


From 025248e1b12ec206e393e106513e83dafa352351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 65/89] fix: data whose distances do not fit in memory crashed
 the process

hdbscan_run and hdbscan_rerun return HDBSCAN_ERROR then; so do the distance functions
(DISTANCE_ERROR). A size of the matrix that does not fit in a size_t is refused too.
---
 include/hdbscan/distance.h |  6 ++++--
 src/distance.c             | 30 +++++++++++++++++++++++++-----
 src/hdbscan.c              | 14 ++++++++++++--
 3 files changed, 41 insertions(+), 9 deletions(-)

diff --git a/include/hdbscan/distance.h b/include/hdbscan/distance.h
index 379d9e8..8e4e16a 100644
--- a/include/hdbscan/distance.h
+++ b/include/hdbscan/distance.h
@@ -192,15 +192,17 @@ distance_t distance_get(distance* dis, index_t row, index_t col);
  * @param rows number of rows
  * @param cols numer of columns
  * @param numNeighbors minimum number of neighbours
+ * @return int DISTANCE_ERROR if there is not enough memory, DISTANCE_SUCCESS otherwise
  */
-void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols, index_t numNeighbors);
+int distance_compute(distance* dis, void* dataset, index_t rows, index_t cols, index_t numNeighbors);
 
 /**
  * @brief Find the core distances based on the number of neighbours
  * 
  * @param dis 
+ * @return int DISTANCE_ERROR if there is not enough memory, DISTANCE_SUCCESS otherwise
  */
-void distance_get_core_distances(distance *dis);
+int distance_get_core_distances(distance *dis);
 
 void distances_print(distance *dis);
 
diff --git a/src/distance.c b/src/distance.c
index 3254331..998ac76 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -134,14 +134,19 @@ distance_t distance_get(distance* dis, index_t row, index_t col) {
  * @param cols 
  * @param numNeighbors 
  */
-void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols, index_t numNeighbors){
+int distance_compute(distance* dis, void* dataset, index_t rows, index_t cols, index_t numNeighbors){
 	dis->numNeighbors = numNeighbors;
 	
 	dis->rows = rows;
     dis->cols = cols;
     size_t sub = ((size_t)rows * rows - rows)/2;
-    dis->distances = (distance_t *)malloc(sub * sizeof(distance_t));
+    dis->distances = sub > SIZE_MAX / sizeof(distance_t) ? NULL : (distance_t *)malloc(sub * sizeof(distance_t));
     dis->coreDistances = (distance_t *)malloc(dis->rows * sizeof(distance_t));
+	if((dis->distances == NULL && sub > 0) || dis->coreDistances == NULL){
+		logger_write(FATAL, "distance_compute - Failed to allocate memory for the distances\n");
+		distance_clean(dis);
+		return DISTANCE_ERROR;
+	}
 	distance_t sum, diff;
 
 #ifdef _OPENMP
@@ -199,7 +204,7 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
 			dis->distances[c] = sum;			
 		}
 	}
-	distance_get_core_distances(dis);
+	return distance_get_core_distances(dis);
 }
 
 /**
@@ -216,15 +221,17 @@ void distance_compute(distance* dis, void* dataset, index_t rows, index_t cols,
  * 
  * @param dis 
  */
-void distance_get_core_distances(distance *dis)
+int distance_get_core_distances(distance *dis)
 {
+	boolean failed = FALSE;
+
 	// Without enough neighbours every core distance is unbounded, so do not
 	// spend space proportional to numNeighbors.
 	if (dis->numNeighbors >= dis->rows) {
 		for (index_t i = 0; i < dis->rows; i++) {
 			dis->coreDistances[i] = D_MAX;
 		}
-		return;
+		return DISTANCE_SUCCESS;
 	}
 
 #ifdef _OPENMP	
@@ -232,6 +239,13 @@ void distance_get_core_distances(distance *dis)
 #endif
 	for (index_t i = 0; i < dis->rows; i++) {
 		distance_t* sortedDistance = (distance_t*)malloc(((size_t)dis->numNeighbors+1) * sizeof(distance_t));
+		if (sortedDistance == NULL) {
+			#ifdef _OPENMP
+				#pragma omp critical
+			#endif
+			failed = TRUE;
+			continue;
+		}
 
 		/// Fill sortedDistance with the largest possible value of distance_t
 		for (index_t j = 0; j < dis->numNeighbors+1; j++) {
@@ -280,6 +294,12 @@ void distance_get_core_distances(distance *dis)
 		free(sortedDistance);
 	}
 
+	if (failed) {
+		logger_write(FATAL, "distance_get_core_distances - Failed to allocate memory\n");
+		return DISTANCE_ERROR;
+	}
+
+	return DISTANCE_SUCCESS;
 }
 
 /**
diff --git a/src/hdbscan.c b/src/hdbscan.c
index f93601e..e188348 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -292,7 +292,10 @@ int hdbscan_rerun(hdbscan* sc, index_t minPts){
 	sc->outlierScores = NULL;
 	sc->minPoints = minPts;
 	sc->distanceFunction.numNeighbors = (index_t)(minPts - 1);
-	distance_get_core_distances(&(sc->distanceFunction));
+	if(sc->distanceFunction.distances == NULL || sc->clusters == NULL || sc->clusterStabilities == NULL ||
+			distance_get_core_distances(&(sc->distanceFunction)) == DISTANCE_ERROR){
+		return HDBSCAN_ERROR;
+	}
 
 	return hdbscan_do_run(sc);
 }
@@ -326,7 +329,10 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
 	// If not rowwise, every element is a one dimensional point
-	distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1));
+	if(distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1)) == DISTANCE_ERROR){
+		hdbscan_clean(sc);
+		return HDBSCAN_ERROR;
+	}
 
 	index_t csize = sc->numPoints/5;
 	if(csize < 4)
@@ -335,6 +341,10 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	}
 	sc->clusters = ptr_array_list_init(csize, cluster_compare);
 	sc->clusterStabilities = hashtable_init(csize, H_INT, H_PTR, int_compare);
+	if(sc->clusters == NULL || sc->clusterStabilities == NULL){
+		hdbscan_clean(sc);
+		return HDBSCAN_ERROR;
+	}
 	
 	return hdbscan_do_run(sc);
 }
-- 
2.43.0


From 77fc12671e2391c6289831ba6d28e4b67207db0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 66/89] fix: running out of memory for the spanning tree
 crashed or leaked

The arrays were used before they were checked, or not checked at all, and the ones that
could be allocated were not released.
---
 src/hdbscan.c          | 33 +++++++++++++++++++++++----------
 src/undirected_graph.c |  4 ++++
 2 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index e188348..2fee971 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -838,6 +838,9 @@ int hdbscan_construct_mst(hdbscan* sc){
 
 	//One bit is set (true) for each attached point, or unset (false) for unattached points:
 	boolean* attachedPoints = (boolean*)malloc(size * sizeof(boolean));
+	if(attachedPoints == NULL){
+		return HDBSCAN_ERROR;
+	}
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
@@ -863,6 +866,8 @@ int hdbscan_construct_mst(hdbscan* sc){
 #else
 	printf("FATAL: hdbscan_construct_mst - Could not construct nearestMRDNeighbors\n");
 #endif
+		array_list_delete(otherVertexIndices);
+		free(attachedPoints);
 		
 		return HDBSCAN_ERROR;
 	}
@@ -873,6 +878,8 @@ int hdbscan_construct_mst(hdbscan* sc){
 	#else
 		printf("FATAL: hdbscan_construct_mst - Could not construct otherVertexIndices\n");
 	#endif
+		array_list_delete(nearestMRDNeighbors);
+		free(attachedPoints);
 		
 		return HDBSCAN_ERROR;
 	}
@@ -889,6 +896,19 @@ int hdbscan_construct_mst(hdbscan* sc){
 	}
 
 	ArrayList* nearestMRDDistances = array_list_init(capacity, sizeof(distance_t), NULL);
+	if(nearestMRDDistances == NULL){
+	#ifdef DEBUG
+		logger_write(FATAL, "hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
+	#else
+		printf("FATAL: hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
+	#endif
+		array_list_delete(nearestMRDNeighbors);
+		array_list_delete(otherVertexIndices);
+		free(attachedPoints);
+		
+		return HDBSCAN_ERROR;
+	}
+
 	if(sizeof(distance_t) == sizeof(double))
 	{
 		nearestMRDDistances->compare = double_compare;
@@ -915,16 +935,6 @@ int hdbscan_construct_mst(hdbscan* sc){
 	nearestMRDNeighbors->size = ssize;
 	otherVertexIndices->size = ssize;
 
-	if(nearestMRDDistances == NULL){
-	#ifdef DEBUG
-		logger_write(FATAL, "hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
-	#else
-		printf("FATAL: hdbscan_construct_mst - Could not construct nearestMRDDistances\n");
-	#endif
-		
-		return HDBSCAN_ERROR;
-	}
-
 	//Continue attaching points to the MST until all points are attached:
 	for (index_t numAttachedPoints = 1; numAttachedPoints < size; numAttachedPoints++) {
 		int32_t nearestMRDPoint = -1;
@@ -995,6 +1005,9 @@ int hdbscan_construct_mst(hdbscan* sc){
 	#else
 		printf("FATAL: Could not initialise mst.\n");
 	#endif
+		array_list_delete(nearestMRDNeighbors);
+		array_list_delete(otherVertexIndices);
+		array_list_delete(nearestMRDDistances);
 
 		return HDBSCAN_ERROR;
 	}
diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index fcdc59a..a918667 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -44,6 +44,7 @@
 #endif
 
 UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList* verticesA, ArrayList* verticesB, ArrayList* edgeWeights) {
+	UndirectedGraph* own = g;
 	if(g == NULL)
 		g = (UndirectedGraph*)malloc(sizeof(UndirectedGraph));
 
@@ -69,6 +70,9 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 	#else
 		printf("FATAL: graph_init - Could not allocate memory for edges.");
 	#endif
+		if(own == NULL){
+			free(g);
+		}
 		return NULL;
 	}
 
-- 
2.43.0


From e8b2004391924f39555b23f6f2ef758f23fe5a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 67/89] fix: running out of memory for the hierarchy, labels or
 scores crashed the process

hdbscan_run and hdbscan_rerun return HDBSCAN_ERROR instead.
---
 include/hdbscan/hdbscan.h |  2 +-
 src/hdbscan.c             | 78 ++++++++++++++++++++++++++++++---------
 2 files changed, 61 insertions(+), 19 deletions(-)

diff --git a/include/hdbscan/hdbscan.h b/include/hdbscan/hdbscan.h
index e3b8e7c..964979f 100644
--- a/include/hdbscan/hdbscan.h
+++ b/include/hdbscan/hdbscan.h
@@ -340,7 +340,7 @@ int32_t hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int32_t compactH
  * findProminentClusters() or calculateOutlierScores().
  * 
  * @param sc 
- * @return boolean true if there are any clusters with infinite stability, false otherwise
+ * @return boolean true if there are any clusters with infinite stability, false otherwise, -1 if there is not enough memory
  */
 boolean hdbscan_propagate_tree(hdbscan* sc);
 
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 2fee971..a395fe1 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -244,6 +244,9 @@ int hdbscan_do_run(hdbscan* sc){
 	}
 	
 	sc->hierarchy = hashtable_init(csize, H_LONG, H_PTR, long_compare);
+	if(sc->hierarchy == NULL){
+		return HDBSCAN_ERROR;
+	}
 	int err = hdbscan_construct_mst(sc);
 	
 	if(err == HDBSCAN_ERROR){
@@ -261,17 +264,29 @@ int hdbscan_do_run(hdbscan* sc){
 	// Not on the stack, whose size may be small compared with the data set
 	distance_t* pointNoiseLevels = (distance_t*)malloc(sc->numPoints * sizeof(distance_t));
 	label_t* pointLastClusters = (label_t*)malloc(sc->numPoints * sizeof(label_t));
+	err = HDBSCAN_ERROR;
 
-	hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters);
-	int infiniteStability = hdbscan_propagate_tree(sc);
-	hdbscan_find_prominent_clusters(sc, infiniteStability);
+	if(pointNoiseLevels != NULL && pointLastClusters != NULL &&
+			hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pointNoiseLevels, pointLastClusters) == HDBSCAN_SUCCESS){
+		int infiniteStability = hdbscan_propagate_tree(sc);
+
+		if(infiniteStability >= 0){
+			hdbscan_find_prominent_clusters(sc, infiniteStability);
+		}
 
-	hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability);
+		if(sc->clusterLabels != NULL && hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability) == 1){
+			err = HDBSCAN_SUCCESS;
+		}
+	}
 
 	free(pointNoiseLevels);
 	free(pointLastClusters);
 
-	return HDBSCAN_SUCCESS;
+	if(err == HDBSCAN_ERROR){
+		hdbscan_minimal_clean(sc);	// No partial results
+	}
+
+	return err;
 }
 
 /**
@@ -387,6 +402,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	index_t numVertices = sc->mst->numVertices;
 	label_t* previousClusterLabels = (label_t*)malloc(numVertices * sizeof(label_t));
 	label_t* currentClusterLabels = (label_t*)malloc(numVertices * sizeof(label_t));
+	if(previousClusterLabels == NULL || currentClusterLabels == NULL){
+		free(previousClusterLabels);
+		free(currentClusterLabels);
+		return HDBSCAN_ERROR;
+	}
+	int err = HDBSCAN_SUCCESS;
 
 #ifdef _OPENMP
 #pragma omp parallel for
@@ -674,6 +695,11 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 			hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
 			entry->edgeWeight = currentEdgeWeight;
 			entry->labels = (label_t*)malloc(numVertices * sizeof(label_t));
+			if(entry->labels == NULL){
+				free(entry);
+				err = HDBSCAN_ERROR;
+				break;
+			}
 
 			#ifdef _OPENMP
 			#pragma omp parallel for
@@ -715,27 +741,32 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 	hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
 	entry->edgeWeight = 0.0;
-	entry->labels = (label_t*) malloc(numVertices * sizeof(label_t));
+	entry->labels = err == HDBSCAN_SUCCESS ? (label_t*) malloc(numVertices * sizeof(label_t)) : NULL;
 	
-	#ifdef _OPENMP
-	#pragma omp parallel for
-	#endif
-	for(i = 0; i < numVertices; i++)
-	{
-		entry->labels[i] = 0;
-	}	
+	if(entry->labels == NULL){
+		free(entry);
+		err = HDBSCAN_ERROR;
+	} else {
+		#ifdef _OPENMP
+		#pragma omp parallel for
+		#endif
+		for(i = 0; i < numVertices; i++)
+		{
+			entry->labels[i] = 0;
+		}	
 
-	// Write out the final level of the hierarchy (all points noise):
-	int64_t l = 0;
-	hashtable_insert(sc->hierarchy, &l, &entry);
-	lineCount++;
+		// Write out the final level of the hierarchy (all points noise):
+		int64_t l = 0;
+		hashtable_insert(sc->hierarchy, &l, &entry);
+		lineCount++;
+	}
 
 	set_delete(affectedClusterLabels);
 	set_delete(affectedVertices);
 	free(previousClusterLabels);
 	free(currentClusterLabels);
 
-	return HDBSCAN_SUCCESS;
+	return err;
 }
 
 /**
@@ -1034,6 +1065,10 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 	}
 
 	boolean* addedToExaminationList = (boolean*)malloc(sc->clusters->size * sizeof(boolean));
+	if(addedToExaminationList == NULL){
+		set_delete(clustersToExamine);
+		return -1;
+	}
 	boolean infiniteStability = FALSE;
 	size_t i;
 
@@ -1117,6 +1152,9 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 	ArrayList *solution = cl->propagatedDescendants;
 	
 	hashtable *significant = hashtable_init(array_list_size(solution), H_LONG, H_PTR, long_compare);
+	if(significant == NULL){
+		return;
+	}
 	int32_t ret;
 	cluster* c = NULL;
 
@@ -1154,6 +1192,10 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 	}
 	
 	sc->clusterLabels = (label_t *)calloc(sc->numPoints, sizeof(label_t));
+	if(sc->clusterLabels == NULL){
+		hashtable_destroy(significant, NULL, (void (*)(void *))array_list_delete);
+		return;
+	}
 
 	#ifdef _OPENMP
 		#pragma omp parallel for
-- 
2.43.0


From ea9786940aad72929cebaea44deb0ba0024b2546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 68/89] fix: a Python run without enough memory crashed the
 interpreter

It raises a MemoryError now.
---
 modules/python/src/PyHdbscan.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index 8f4a71d..eaf7ae8 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -281,11 +281,15 @@ static PyObject *PyHdbscan_run(PyHdbscan *self, PyObject *args){
     void *dset = PyArray_DATA(d_arr); /// The contigous array
 	int err = hdbscan_run(self->scan, dset, self->rows, self->cols, TRUE, datatype);
 
-    get_labels(self, self->scan->clusterLabels);
-
     Py_DECREF(d_arr);
     Py_DECREF(dataset); // Release the dataset memory
 
+    if(err == HDBSCAN_ERROR){
+        return PyErr_NoMemory();
+    }
+
+    get_labels(self, self->scan->clusterLabels);
+
 	return Py_BuildValue("i", err);
 }
 
@@ -308,6 +312,10 @@ static PyObject* PyHdbscan_rerun(PyHdbscan *self, PyObject *args) {
 	
 	int err = hdbscan_rerun(self->scan, self->minPoints);
 
+    if(err == HDBSCAN_ERROR){
+        return PyErr_NoMemory();
+    }
+
     get_labels(self, self->scan->clusterLabels);
 	
 	return Py_BuildValue("i", err);
-- 
2.43.0


From 413ca23535a9c11f36947c11c449018ac7400123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:37 +0000
Subject: [PATCH 69/89] fix: a Java run without enough memory crashed the
 virtual machine

It throws an OutOfMemoryError now.
---
 modules/java/src/Hdbscan.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/modules/java/src/Hdbscan.cpp b/modules/java/src/Hdbscan.cpp
index 800f810..a333a47 100644
--- a/modules/java/src/Hdbscan.cpp
+++ b/modules/java/src/Hdbscan.cpp
@@ -40,6 +40,7 @@
 #include "bw_co_roguesystems_Hdbscan.h"
 #include "hdbscan/hdbscan.hpp"
 #include <iostream>
+#include <new>
 
 using namespace clustering;
 
@@ -113,7 +114,11 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 
 	int cols = env -> GetArrayLength(dim);
 	env->DeleteLocalRef(dim);
-	double *dset = new double[(size_t)rows * cols];
+	double *dset = new(std::nothrow) double[(size_t)rows * cols];
+	if(dset == NULL){
+		throwJava(env, "java/lang/OutOfMemoryError", "Not enough memory for the data set");
+		return NULL;
+	}
 	long dIdx = 0;
 
 	for(int i = 0; i < rows; i++){
@@ -136,6 +141,11 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_runImpl(JNIEnv *env,
 	scan->run(dset, (index_t)rows, (index_t)cols, TRUE, H_DOUBLE);
 	
 	delete[] dset;
+
+	if(scan->clusterLabels == NULL){
+		throwJava(env, "java/lang/OutOfMemoryError", "Not enough memory to cluster the data set");
+		return NULL;
+	}
 	
 	return getLabelsArray(env, scan->clusterLabels, rows);
 }
@@ -153,7 +163,12 @@ JNIEXPORT jintArray JNICALL Java_bw_co_roguesystems_Hdbscan_reRunImpl(JNIEnv *en
 		return NULL;
 	}
 
-	scan->reRun((index_t)newMinPts);	
+	scan->reRun((index_t)newMinPts);
+	if(scan->clusterLabels == NULL){
+		throwJava(env, "java/lang/OutOfMemoryError", "Not enough memory to cluster the data set");
+		return NULL;
+	}
+
 	return getLabelsArray(env, scan->clusterLabels, (int)scan->numPoints);
 }
 
-- 
2.43.0


From 789addc953f2c392871e6634fde61ab09cc2389e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:55 +0000
Subject: [PATCH 70/89] fix: sorting the edges crashed without memory for its
 own stack

---
 src/undirected_graph.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index a918667..5e90fc2 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -148,6 +148,12 @@ void graph_quicksort_by_edge_weight(UndirectedGraph* g) {
 
 	size_t* startIndexStack = (size_t*)malloc(esize/2 * sizeof(size_t));
 	size_t* endIndexStack = (size_t*)malloc(esize/2 * sizeof(size_t));
+	if (startIndexStack == NULL || endIndexStack == NULL) {
+		free(startIndexStack);
+		free(endIndexStack);
+		graph_quicksort(g, 0, (int64_t)esize - 1);	// Needs no memory
+		return;
+	}
 
 	(startIndexStack)[0] = 0;
 	(endIndexStack)[0] = esize - 1;
-- 
2.43.0


From 693ff89d1e4d5e10853153b9519f4e90854ce40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:26 +0000
Subject: [PATCH 71/89] fix: successfully calculated outlier scores were
 reported as HDBSCAN_ERROR

A run could not tell them from scores there was no memory for.
---
 src/hdbscan.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index a395fe1..0a75bb8 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -274,7 +274,7 @@ int hdbscan_do_run(hdbscan* sc){
 			hdbscan_find_prominent_clusters(sc, infiniteStability);
 		}
 
-		if(sc->clusterLabels != NULL && hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability) == 1){
+		if(sc->clusterLabels != NULL && hdbscsan_calculate_outlier_scores(sc, pointNoiseLevels, pointLastClusters, infiniteStability) == HDBSCAN_SUCCESS){
 			err = HDBSCAN_SUCCESS;
 		}
 	}
@@ -1270,7 +1270,7 @@ int hdbscsan_calculate_outlier_scores(hdbscan* sc, distance_t* pointNoiseLevels,
 	//Sort the outlier scores:
 	qsort(sc->outlierScores, numPoints, sizeof(outlier_score), outlier_score_compare);
 
-	return 1;
+	return HDBSCAN_SUCCESS;
 }
 
 /**
-- 
2.43.0


From af6824d58a4e43c0e4ba25be436a4deda3552cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:36 +0000
Subject: [PATCH 72/89] fix: sorting an empty cluster table in the C++
 functions aborted

---
 src/hdbscan.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 09c0f95..598e27d 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -317,6 +317,11 @@ void sortByLength(map_t& clusterTable, vector<label_t>& clusters)
  */
 void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t left, index_t right)
 {
+	/// There is nothing to sort, and a list cannot have zero capacity
+	if(clusters.empty()) {
+		return;
+	}
+
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
-- 
2.43.0


From 70b208fb886f15e2ca3aff20f02cb57f475cc7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:21 +0000
Subject: [PATCH 73/89] fix: the statistics of no clusters read past the end of
 the values

---
 src/hdbscan.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 0a75bb8..c83ffb9 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1476,6 +1476,14 @@ void hdbscan_skew_kurt_2(clustering_stats* stats, distance_t sum_sc, distance_t
  */
 void hdbscan_calculate_stats_helper(distance_t* cr, distance_t* dr, clustering_stats* stats){
 	
+	if(stats->count < 1){	// No clusters, for example when the noise was all there was
+		stats_values none = { (distance_t)NAN, (distance_t)NAN, (distance_t)NAN, (distance_t)NAN, (distance_t)NAN, (distance_t)NAN };
+
+		stats->coreDistanceValues = none;
+		stats->intraDistanceValues = none;
+		return;
+	}
+
 	stats->coreDistanceValues.mean = cr[0];
 	stats->coreDistanceValues.max = cr[0];
 
-- 
2.43.0


From 482f4147c942ac5bad9610c5a0e50aa08beeef79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:52 +0000
Subject: [PATCH 74/89] fix: clustering an empty data set wrote outside its
 memory

---
 src/hdbscan.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c83ffb9..234ccec 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -343,6 +343,10 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
+	if(sc->numPoints == 0){
+		return HDBSCAN_ERROR;	// There is nothing to cluster
+	}
+
 	// If not rowwise, every element is a one dimensional point
 	if(distance_compute(&(sc->distanceFunction), dataset, sc->numPoints, rowwise == 1 ? cols : 1, (index_t)(sc->minPoints-1)) == DISTANCE_ERROR){
 		hdbscan_clean(sc);
-- 
2.43.0


From 54d5da05c54bcffb1ed930dc9b6a7fddf887dbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:52 +0000
Subject: [PATCH 75/89] fix: only the first of more elements than the index
 type counts were clustered

---
 src/hdbscan.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 234ccec..d718dd1 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -61,7 +61,7 @@ index_t hdbscan_get_dataset_size(index_t rows, index_t cols, boolean rowwise){
     if(rowwise == 1){
         return rows;
     } else{
-        return (index_t)(rows * cols);
+        return (index_t)((size_t)rows * cols);
     }
 }
 
@@ -343,8 +343,8 @@ int hdbscan_run(hdbscan* sc, void* dataset, index_t rows, index_t cols, boolean
 	distance_init(&sc->distanceFunction, _EUCLIDEAN, datatype);
 
 	sc->numPoints = hdbscan_get_dataset_size(rows, cols, rowwise);
-	if(sc->numPoints == 0){
-		return HDBSCAN_ERROR;	// There is nothing to cluster
+	if(sc->numPoints == 0 || (rowwise != 1 && sc->numPoints / cols != rows)){
+		return HDBSCAN_ERROR;	// Nothing to cluster, or more elements than index_t can count
 	}
 
 	// If not rowwise, every element is a one dimensional point
-- 
2.43.0


From 398d72104595d5b7cabc93cb2ce8db5ee6721e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:53:55 +0000
Subject: [PATCH 76/89] fix: computing distances again with the same object
 leaked the previous ones

---
 src/distance.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/distance.c b/src/distance.c
index 998ac76..4489481 100644
--- a/src/distance.c
+++ b/src/distance.c
@@ -135,6 +135,7 @@ distance_t distance_get(distance* dis, index_t row, index_t col) {
  * @param numNeighbors 
  */
 int distance_compute(distance* dis, void* dataset, index_t rows, index_t cols, index_t numNeighbors){
+	distance_clean(dis);	// Release whatever a previous computation left behind
 	dis->numNeighbors = numNeighbors;
 	
 	dis->rows = rows;
-- 
2.43.0


From 82c21a76221a9bf20578d5e002a579a9dbc4d19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:07 +0000
Subject: [PATCH 77/89] fix: building a graph crashed or lost edges when memory
 ran out for the neighbours of a vertex

---
 src/undirected_graph.c | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/src/undirected_graph.c b/src/undirected_graph.c
index 5e90fc2..1eb8a20 100644
--- a/src/undirected_graph.c
+++ b/src/undirected_graph.c
@@ -76,11 +76,21 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 		return NULL;
 	}
 
+	boolean failed = FALSE;
+
 #ifdef _OPENMP
 #pragma omp parallel for
 #endif
 	for(index_t i = 0; i < numVertices; i++){
 		g->edges[i] = array_list_init(16, sizeof(index_t), NULL);
+		if(g->edges[i] == NULL){
+			#ifdef _OPENMP
+				#pragma omp critical
+			#endif
+			failed = TRUE;
+			continue;
+		}
+
 		if(sizeof(index_t) == sizeof(int)) {
 			g->edges[i]->compare = int_compare;
 		} else if(sizeof(index_t) == sizeof(long)) {
@@ -90,15 +100,32 @@ UndirectedGraph* graph_init(UndirectedGraph* g, index_t numVertices, ArrayList*
 		}
 	}
 	index_t vertexOne, vertexTwo;
-	for (size_t i = 0; i < array_list_size(g->verticesA); i++) {
+	for (size_t i = 0; i < array_list_size(g->verticesA) && failed == FALSE; i++) {
 		
 		array_list_value_at(g->verticesA, i, &vertexOne);
 		array_list_value_at(g->verticesB, i, &vertexTwo);
 
-		array_list_append(g->edges[vertexOne], &vertexTwo);
-		if (vertexOne != vertexTwo) {
-			array_list_append(g->edges[vertexTwo], &vertexOne);
+		if (!array_list_append(g->edges[vertexOne], &vertexTwo)) {
+			failed = TRUE;
 		}
+
+		if (vertexOne != vertexTwo && !array_list_append(g->edges[vertexTwo], &vertexOne)) {
+			failed = TRUE;
+		}
+	}
+
+	if(failed == TRUE){
+		logger_write(FATAL, "graph_init - Could not allocate memory for edges.\n");
+
+		for(index_t i = 0; i < numVertices; i++){
+			array_list_delete(g->edges[i]);
+		}
+		free(g->edges);
+		g->edges = NULL;
+		if(own == NULL){
+			free(g);
+		}
+		return NULL;
 	}
 
 	return g;
-- 
2.43.0


From 56f2a9a853b5df99cc13b05baee12b6f6f02e495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:07 +0000
Subject: [PATCH 78/89] fix: creating a cluster crashed when memory ran out for
 its lists

---
 src/cluster.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 23d0873..760968d 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -53,6 +53,7 @@
  */
 cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t birthLevel, index_t numPoints){
 	
+	cluster* own = cl;
 	if(cl == NULL){
 		cl = (cluster*)malloc(sizeof(cluster));
 	}
@@ -71,10 +72,19 @@ cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t bi
 		cl->numConstraintsSatisfied = 0;
 		cl->propagatedNumConstraintsSatisfied = 0;
 		cl->parent = parent;
-		if (cl->parent != NULL)
-			cl->parent->hasChildren = TRUE;
 		cl->hasChildren = FALSE;
 		cl->virtualChildCluster = set_init(sizeof(index_t), NULL);
+		cl->propagatedDescendants = ptr_array_list_init(1, cluster_compare);
+		if(cl->virtualChildCluster == NULL || cl->propagatedDescendants == NULL){
+			logger_write(ERROR, "cluster_init - Could not allocate memory for cluster.\n");
+			array_list_delete(cl->propagatedDescendants);
+			set_delete(cl->virtualChildCluster);
+			if(own == NULL){
+				free(cl);
+			}
+			return NULL;
+		}
+
 		if(sizeof(index_t) == sizeof(int)) {
 			cl->virtualChildCluster->compare = int_compare;
 		} else if(sizeof(index_t) == sizeof(long)) {
@@ -83,7 +93,8 @@ cluster* cluster_init(cluster* cl, label_t label, cluster* parent, distance_t bi
 			cl->virtualChildCluster->compare = short_compare;
 		}
 
-		cl->propagatedDescendants = ptr_array_list_init(1, cluster_compare);
+		if (cl->parent != NULL)
+			cl->parent->hasChildren = TRUE;
 	}
 
 	return cl;
-- 
2.43.0


From 156e6c9766418f9299ea23d3a3fec2063014d881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:07 +0000
Subject: [PATCH 79/89] fix: propagating clusters crashed or lost descendants
 when memory ran out

---
 include/hdbscan/cluster.h |  2 +-
 src/cluster.c             | 19 ++++++++++++++-----
 src/hdbscan.c             | 26 ++++++++++++++++++++++----
 3 files changed, 37 insertions(+), 10 deletions(-)

diff --git a/include/hdbscan/cluster.h b/include/hdbscan/cluster.h
index 0f4431f..4d7dd55 100644
--- a/include/hdbscan/cluster.h
+++ b/include/hdbscan/cluster.h
@@ -314,7 +314,7 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level);
  * 
  * @param cl 
  */
-void cluster_propagate(cluster* cl);
+int cluster_propagate(cluster* cl);
 
 /**
  * @brief 
diff --git a/src/cluster.c b/src/cluster.c
index 760968d..577769f 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -157,8 +157,11 @@ int cluster_detach_points(cluster* cl, index_t numPoints, distance_t level){
  * parent.
  * 
  * @param cl 
+ * @return int CLUSTER_ERROR if there was no memory for the descendants of the parent
  */
-void cluster_propagate(cluster* cl){
+int cluster_propagate(cluster* cl){
+
+	int result = CLUSTER_SUCCESS;
 
 	//Without descendants the lowest death level is the cluster's own:
 	if (cl->propagatedLowestChildDeathLevel == D_MAX){
@@ -174,7 +177,8 @@ void cluster_propagate(cluster* cl){
 		if (cl->hasChildren == FALSE || cl->numConstraintsSatisfied > cl->propagatedNumConstraintsSatisfied) {
 			cl->parent->propagatedNumConstraintsSatisfied = (index_t) (cl->parent->propagatedNumConstraintsSatisfied + cl->numConstraintsSatisfied);
 			cl->parent->propagatedStability += cl->stability;
-			array_list_append(cl->parent->propagatedDescendants, &cl);
+			if(!array_list_append(cl->parent->propagatedDescendants, &cl))
+				result = CLUSTER_ERROR;
 		}
 		else if (cl->numConstraintsSatisfied < cl->propagatedNumConstraintsSatisfied) {
 
@@ -185,7 +189,8 @@ void cluster_propagate(cluster* cl){
 			{
 				cluster* c = NULL;
 				array_list_value_at(cl->propagatedDescendants, i, &c);
-				array_list_append(cl->parent->propagatedDescendants, &c);
+				if(!array_list_append(cl->parent->propagatedDescendants, &c))
+					result = CLUSTER_ERROR;
 			}
 		}
 		else if (cl->numConstraintsSatisfied == cl->propagatedNumConstraintsSatisfied) {
@@ -193,7 +198,8 @@ void cluster_propagate(cluster* cl){
 			if (cl->stability >= cl->propagatedStability) {
 				cl->parent->propagatedNumConstraintsSatisfied = (index_t)(cl->parent->propagatedNumConstraintsSatisfied + cl->numConstraintsSatisfied);
 				cl->parent->propagatedStability += cl->stability;
-				array_list_append(cl->parent->propagatedDescendants, &cl);
+				if(!array_list_append(cl->parent->propagatedDescendants, &cl))
+					result = CLUSTER_ERROR;
 			}
 
 			else {
@@ -204,11 +210,14 @@ void cluster_propagate(cluster* cl){
 				{
 					cluster *c = NULL;
 					array_list_value_at(cl->propagatedDescendants, i, &c);
-					array_list_append(cl->parent->propagatedDescendants, &c);
+					if(!array_list_append(cl->parent->propagatedDescendants, &c))
+						result = CLUSTER_ERROR;
 				}
 			}
 		}
 	}
+
+	return result;
 }
 
 
diff --git a/src/hdbscan.c b/src/hdbscan.c
index d718dd1..8cfb867 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1059,6 +1059,9 @@ int hdbscan_construct_mst(hdbscan* sc){
 boolean hdbscan_propagate_tree(hdbscan* sc){
 
 	set_t* clustersToExamine = set_init(sizeof(label_t), NULL);
+	if(clustersToExamine == NULL){
+		return -1;
+	}
 	
 	if(sizeof(label_t) == sizeof(int)) {
 		clustersToExamine->compare = int_compare;
@@ -1074,6 +1077,7 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 		return -1;
 	}
 	boolean infiniteStability = FALSE;
+	boolean failed = FALSE;
 	size_t i;
 
 	#ifdef _OPENMP
@@ -1094,7 +1098,9 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 				#pragma omp critical
 			#endif
 			{
-			set_insert(clustersToExamine, &cl->label);
+			if(!set_insert(clustersToExamine, &cl->label)){
+				failed = TRUE;
+			}
 			addedToExaminationList[cl->label] = TRUE;
 			}
 		}
@@ -1102,11 +1108,14 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 
 	label_t x;
 	cluster* currentCluster;
-	while(!set_empty(clustersToExamine)){
+	while(failed == FALSE && !set_empty(clustersToExamine)){
 		
 		set_remove_at(clustersToExamine, clustersToExamine->size-1, &x);
 		currentCluster = ((cluster **)sc->clusters->data)[x];
-		cluster_propagate(currentCluster);
+		if(cluster_propagate(currentCluster) == CLUSTER_ERROR){
+			failed = TRUE;
+			break;
+		}
 
 		if(isinf(currentCluster->stability)){
 			infiniteStability = TRUE;
@@ -1115,12 +1124,21 @@ boolean hdbscan_propagate_tree(hdbscan* sc){
 			cluster *parent = currentCluster->parent;
 
 			if(addedToExaminationList[parent->label] == FALSE){
-				set_insert(clustersToExamine, &parent->label);
+				if(!set_insert(clustersToExamine, &parent->label)){
+					failed = TRUE;
+					break;
+				}
 				addedToExaminationList[parent->label] = TRUE;
 			}
 		}
 	}
 
+	if(failed == TRUE){
+		set_delete(clustersToExamine);
+		free(addedToExaminationList);
+		return -1;
+	}
+
 	if(infiniteStability){
 		const char *message =
 					"----------------------------------------------- WARNING -----------------------------------------------\n"
-- 
2.43.0


From 89ddf92233634d4eff2f4c99ab1d45f5f695bd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:07 +0000
Subject: [PATCH 80/89] fix: selecting the prominent clusters crashed or lost
 clusters when memory ran out

---
 src/hdbscan.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 8cfb867..e66c512 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1179,6 +1179,7 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 	}
 	int32_t ret;
 	cluster* c = NULL;
+	boolean failed = FALSE;
 
 	#ifdef _OPENMP
 		#pragma omp parallel for private(ret, c)
@@ -1195,8 +1196,7 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 			ArrayList* clusterList = NULL;
 			ret = hashtable_lookup(significant, &c->offset, &clusterList);
 
-			if(clusterList == NULL){
-				clusterList = array_list_init(16, sizeof(label_t), NULL);
+			if(clusterList == NULL && (clusterList = array_list_init(16, sizeof(label_t), NULL)) != NULL){
 				if(sizeof(label_t) == sizeof(int)) {
 					clusterList->compare = int_compare;
 				} else if(sizeof(label_t) == sizeof(long)) {
@@ -1205,15 +1205,19 @@ void hdbscan_find_prominent_clusters(hdbscan* sc, int infiniteStability){
 					clusterList->compare = short_compare;
 				}
 				long tmp = c->offset;
-				hashtable_insert(significant, &tmp, &clusterList);
+				if(!hashtable_insert(significant, &tmp, &clusterList)){
+					clusterList = array_list_delete(clusterList);
+				}
 			}
 			
-			array_list_append(clusterList, &(c->label));
+			if(clusterList == NULL || !array_list_append(clusterList, &(c->label))){
+				failed = TRUE;
+			}
 		}
 		}
 	}
 	
-	sc->clusterLabels = (label_t *)calloc(sc->numPoints, sizeof(label_t));
+	sc->clusterLabels = failed == TRUE ? NULL : (label_t *)calloc(sc->numPoints, sizeof(label_t));
 	if(sc->clusterLabels == NULL){
 		hashtable_destroy(significant, NULL, (void (*)(void *))array_list_delete);
 		return;
-- 
2.43.0


From 57a3424698f6aadd5ad2e4adc6d46b4e06181193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:07 +0000
Subject: [PATCH 81/89] fix: building the hierarchy crashed or lost lines when
 memory ran out for an entry

---
 src/hdbscan.c | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index e66c512..1218518 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -697,6 +697,10 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		if (compactHierarchy == FALSE || nextLevelSignificant == TRUE || array_list_size(newClusters) > 0) {
 			lineCount++;
 			hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
+			if(entry == NULL){
+				err = HDBSCAN_ERROR;
+				break;
+			}
 			entry->edgeWeight = currentEdgeWeight;
 			entry->labels = (label_t*)malloc(numVertices * sizeof(label_t));
 			if(entry->labels == NULL){
@@ -713,7 +717,11 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 				entry->labels[i] = previousClusterLabels[i];
 			}
 
-			hashtable_insert(sc->hierarchy, &lineCount, &entry);
+			if(!hashtable_insert(sc->hierarchy, &lineCount, &entry)){
+				hdbscan_destroy_hierarchical_entry(entry);
+				err = HDBSCAN_ERROR;
+				break;
+			}
 		}
 
 		// Assign offsets and calculate the number of constraints satisfied:
@@ -743,11 +751,13 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	}
 	array_list_delete(newClusters);
 
-	hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
-	entry->edgeWeight = 0.0;
-	entry->labels = err == HDBSCAN_SUCCESS ? (label_t*) malloc(numVertices * sizeof(label_t)) : NULL;
+	hierarchy_entry* entry = err == HDBSCAN_SUCCESS ? hdbscan_create_hierarchy_entry() : NULL;
+	if(entry != NULL){
+		entry->edgeWeight = 0.0;
+		entry->labels = (label_t*) malloc(numVertices * sizeof(label_t));
+	}
 	
-	if(entry->labels == NULL){
+	if(entry == NULL || entry->labels == NULL){
 		free(entry);
 		err = HDBSCAN_ERROR;
 	} else {
@@ -761,7 +771,10 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 		// Write out the final level of the hierarchy (all points noise):
 		int64_t l = 0;
-		hashtable_insert(sc->hierarchy, &l, &entry);
+		if(!hashtable_insert(sc->hierarchy, &l, &entry)){
+			hdbscan_destroy_hierarchical_entry(entry);
+			err = HDBSCAN_ERROR;
+		}
 		lineCount++;
 	}
 
@@ -780,6 +793,10 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
  */
 hierarchy_entry* hdbscan_create_hierarchy_entry(){
 	hierarchy_entry* entry = (hierarchy_entry *) malloc(sizeof(hierarchy_entry));
+	if(entry == NULL){
+		return NULL;
+	}
+
 	entry->labels = NULL;
 	entry->edgeWeight = 0.0;
 	return entry;
-- 
2.43.0


From 6b83ce67ca0f53541329f1f06205a567e14110b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:52 +0000
Subject: [PATCH 82/89] fix: building the hierarchy crashed or lost points and
 clusters when memory ran out for its sets

---
 src/hdbscan.c | 124 ++++++++++++++++++++++++++++++++++++++++----------
 1 file changed, 100 insertions(+), 24 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 1218518..5bf784b 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -383,6 +383,44 @@ void hdbscan_calculate_num_constraints_satisfied(hdbscan* sc, set_t* newClusterL
 	}
 }
 
+/**
+ * @brief Insert into a set and note if there was no memory for it
+ * 
+ * @param set 
+ * @param value 
+ * @param err Set to HDBSCAN_ERROR if the value could not be inserted
+ * @return boolean TRUE if the value is new
+ */
+static boolean hdbscan_set_insert(set_t* set, void* value, int* err){
+	if(set_insert(set, value)){
+		return TRUE;
+	}
+
+	// Only a full set has to grow
+	if(set->size == set->max_size && set_find(set, value) < 0){
+		*err = HDBSCAN_ERROR;
+	}
+
+	return FALSE;
+}
+
+/**
+ * @brief Add a new cluster to the clusters and to the new clusters of the current level
+ * 
+ * @param sc 
+ * @param newClusters 
+ * @param newCluster 
+ * @param err Set to HDBSCAN_ERROR if there was no memory for the cluster
+ */
+static void hdbscan_add_cluster(hdbscan* sc, ArrayList* newClusters, cluster* newCluster, int* err){
+	if(newCluster == NULL || !array_list_append(sc->clusters, &newCluster)){
+		cluster_destroy(newCluster);
+		*err = HDBSCAN_ERROR;
+	} else if(!array_list_append(newClusters, &newCluster)){
+		*err = HDBSCAN_ERROR;
+	}
+}
+
 /**
  * @brief 
  * 
@@ -426,10 +464,22 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	array_list_append(sc->clusters, &c);
 
 	c = cluster_init(NULL, 1, NULL, NAN, numVertices);
-	array_list_append(sc->clusters, &c);
 
 	//Sets for the clusters and vertices that are affected by the edge(s) being removed:
 	set_t* affectedClusterLabels = set_init(sizeof(label_t), NULL);
+	set_t* affectedVertices = set_init(sizeof(index_t), NULL);
+	ArrayList* newClusters = array_list_init(2, sizeof(cluster *), cluster_compare);
+
+	if(c == NULL || affectedClusterLabels == NULL || affectedVertices == NULL || newClusters == NULL){
+		cluster_destroy(c);
+		set_delete(affectedClusterLabels);
+		set_delete(affectedVertices);
+		array_list_delete(newClusters);
+		free(previousClusterLabels);
+		free(currentClusterLabels);
+		return HDBSCAN_ERROR;
+	}
+	array_list_append(sc->clusters, &c);
 
 	if(sizeof(label_t) == sizeof(int)) {
 		affectedClusterLabels->compare = int_compare;
@@ -438,8 +488,6 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 	} else {
 		affectedClusterLabels->compare = short_compare;
 	}
-	
-	set_t* affectedVertices = set_init(sizeof(index_t), NULL);
 
 	if(sizeof(index_t) == sizeof(int)) {
 		affectedVertices->compare = int_compare;
@@ -449,7 +497,6 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		affectedVertices->compare = short_compare;
 	}
 	
-	ArrayList* newClusters = array_list_init(2, sizeof(cluster *), cluster_compare);
 	index_t i;
 	distance_t currentEdgeWeight, tmp_w;
 
@@ -479,9 +526,9 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 				continue;
 			}
 
-			set_insert(affectedVertices, &firstVertex);
-			set_insert(affectedVertices, &secondVertex);
-			set_insert(affectedClusterLabels, currentClusterLabels + firstVertex);
+			hdbscan_set_insert(affectedVertices, &firstVertex, &err);
+			hdbscan_set_insert(affectedVertices, &secondVertex, &err);
+			hdbscan_set_insert(affectedClusterLabels, currentClusterLabels + firstVertex, &err);
 
 			currentEdgeIndex--;
 			if(currentEdgeIndex >= 0)
@@ -490,6 +537,10 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 			}
 		}
 
+		if(err == HDBSCAN_ERROR){
+			break;
+		}
+
 		if(affectedClusterLabels->size < 1){
 			continue;
 		}
@@ -503,7 +554,18 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		set_t* firstChildCluster = set_init(sizeof(index_t), NULL);
 		set_t* unexploredFirstChildClusterPoints = set_init(sizeof(index_t), NULL);
 		set_t* constructingSubCluster = set_init(sizeof(index_t), NULL);
-		ArrayList* unexploredSubClusterPoints = array_list_init(examinedVertices->max_size, sizeof(index_t), NULL);
+		ArrayList* unexploredSubClusterPoints = array_list_init(2, sizeof(index_t), NULL);
+
+		if(examinedVertices == NULL || firstChildCluster == NULL || unexploredFirstChildClusterPoints == NULL ||
+				constructingSubCluster == NULL || unexploredSubClusterPoints == NULL){
+			set_delete(constructingSubCluster);
+			array_list_delete(unexploredSubClusterPoints);
+			set_delete(examinedVertices);
+			set_delete(firstChildCluster);
+			set_delete(unexploredFirstChildClusterPoints);
+			err = HDBSCAN_ERROR;
+			break;
+		}
 
 		if(sizeof(index_t) == sizeof(int)) {
 			examinedVertices->compare = int_compare;
@@ -526,7 +588,7 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		}
 
 		//Check each cluster affected for a possible split:
-		while(affectedClusterLabels->size > 0){
+		while(affectedClusterLabels->size > 0 && err == HDBSCAN_SUCCESS){
 
 			set_remove_at(affectedClusterLabels, affectedClusterLabels->size-1, &examinedClusterLabel);
 
@@ -538,7 +600,7 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 				
 				n = ((index_t *)affectedVertices->data)[it];
 				if (currentClusterLabels[n] == examinedClusterLabel) {
-					set_insert(examinedVertices, &n);
+					hdbscan_set_insert(examinedVertices, &n, &err);
 					set_remove(affectedVertices, &n);
 				} else{
 					it++;
@@ -554,15 +616,17 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 			 * split, otherwise, only spurious components are fully explored, in order to label
 			 * them noise.
 			 */
-			while (examinedVertices->size > 0) {
+			while (examinedVertices->size > 0 && err == HDBSCAN_SUCCESS) {
 
 				boolean anyEdges = FALSE;
 				boolean incrementedChildCount = FALSE;
 				index_t rootVertex;
 
 				set_remove_at(examinedVertices, examinedVertices->size-1, &rootVertex);
-				set_insert(constructingSubCluster, &rootVertex);
-				array_list_append(unexploredSubClusterPoints, &rootVertex);
+				hdbscan_set_insert(constructingSubCluster, &rootVertex, &err);
+				if(!array_list_append(unexploredSubClusterPoints, &rootVertex)){
+					err = HDBSCAN_ERROR;
+				}
 				
 				//Explore this potential child cluster as long as there are unexplored points:
 				while (unexploredSubClusterPoints->size > 0) {
@@ -576,10 +640,12 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 						
 						neighbor = ((index_t*)v->data)[i];
 						anyEdges = TRUE;
-						boolean p = set_insert(constructingSubCluster, &neighbor);
+						boolean p = hdbscan_set_insert(constructingSubCluster, &neighbor, &err);
 
 						if(p){
-							array_list_append(unexploredSubClusterPoints, &neighbor);
+							if(!array_list_append(unexploredSubClusterPoints, &neighbor)){
+								err = HDBSCAN_ERROR;
+							}
 							set_remove(examinedVertices, &neighbor);
 						}
 					}
@@ -594,18 +660,22 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 							index_t d;
 							for(i = 0; i < constructingSubCluster->size; i++){
 								d = ((index_t*)constructingSubCluster->data)[i];
-								set_insert(firstChildCluster, &d);
+								hdbscan_set_insert(firstChildCluster, &d, &err);
 							}
 
 							for(i = 0; i < unexploredSubClusterPoints->size; i++){
 								d = ((index_t*)unexploredSubClusterPoints->data)[i];
-								set_insert(unexploredFirstChildClusterPoints, &d);
+								hdbscan_set_insert(unexploredFirstChildClusterPoints, &d, &err);
 							}
 							break;
 						}
 					}
 				}
 				
+				if(err == HDBSCAN_ERROR){
+					break;
+				}
+
 				cluster* examinedCluster = NULL;
 				//If there could be a split, and this child cluster is valid:
 				if(numChildClusters >= 2 && constructingSubCluster->size >= sc->minPoints && anyEdges == TRUE){
@@ -623,9 +693,8 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 						examinedCluster = ((cluster**)sc->clusters->data)[examinedClusterLabel];
 						cluster* newCluster = hdbscan_create_new_cluster(sc, constructingSubCluster, currentClusterLabels, 
 																			examinedCluster, nextClusterLabel, currentEdgeWeight);
-						array_list_append(newClusters, &newCluster);
+						hdbscan_add_cluster(sc, newClusters, newCluster, &err);
 						nextClusterLabel++;
-						array_list_append(sc->clusters, &newCluster);
 					}
 				}
 
@@ -634,7 +703,11 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 					examinedCluster = ((cluster**)sc->clusters->data)[examinedClusterLabel];
 					
+					size_t virtualSize = set_size(examinedCluster->virtualChildCluster) + set_size(constructingSubCluster);
 					cluster* newCluster = hdbscan_create_new_cluster(sc, constructingSubCluster, currentClusterLabels, examinedCluster, 0, currentEdgeWeight);
+					if(set_size(examinedCluster->virtualChildCluster) != virtualSize){
+						err = HDBSCAN_ERROR;
+					}
 					index_t point;
 					#ifdef _OPENMP
 					#pragma omp parallel for private(point)
@@ -661,7 +734,7 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 			index_t neighbor;
 			index_t vertexToExplore;	
 
-			if (numChildClusters >= 2 && currentClusterLabels[dd] == examinedClusterLabel) {
+			if (err == HDBSCAN_SUCCESS && numChildClusters >= 2 && currentClusterLabels[dd] == examinedClusterLabel) {
 				while(unexploredFirstChildClusterPoints->size > 0){
 					
 					set_remove_at(unexploredFirstChildClusterPoints, unexploredFirstChildClusterPoints->size-1, &vertexToExplore);
@@ -669,8 +742,8 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 
 					for (i = 0; i < v->size; i++) {
 						neighbor = ((index_t*)v->data)[i];
-						if (set_insert(firstChildCluster, &neighbor)) {
-							set_insert(unexploredFirstChildClusterPoints, &neighbor);
+						if (hdbscan_set_insert(firstChildCluster, &neighbor, &err)) {
+							hdbscan_set_insert(unexploredFirstChildClusterPoints, &neighbor, &err);
 						}
 					}
 				}
@@ -679,9 +752,8 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 				examinedCluster = ((cluster**)sc->clusters->data)[examinedClusterLabel];
 				
 				cluster* newCluster = hdbscan_create_new_cluster(sc, firstChildCluster, currentClusterLabels, examinedCluster, nextClusterLabel, currentEdgeWeight);
-				array_list_append(newClusters, &newCluster);
+				hdbscan_add_cluster(sc, newClusters, newCluster, &err);
 				nextClusterLabel++;
-				array_list_append(sc->clusters, &newCluster);
 			}
 			
 			firstChildCluster->size = 0;
@@ -694,6 +766,10 @@ int hdbscan_compute_hierarchy_and_cluster_tree(hdbscan* sc, int compactHierarchy
 		set_delete(firstChildCluster);
 		set_delete(unexploredFirstChildClusterPoints);
 
+		if(err == HDBSCAN_ERROR){
+			break;
+		}
+
 		if (compactHierarchy == FALSE || nextLevelSignificant == TRUE || array_list_size(newClusters) > 0) {
 			lineCount++;
 			hierarchy_entry* entry = hdbscan_create_hierarchy_entry();
-- 
2.43.0


From 8cc58575ee3a9eb50d43750a5a77d2e138aaa279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:10 +0000
Subject: [PATCH 83/89] fix: creating a cluster map crashed or lost points when
 memory ran out

---
 modules/python/src/PyHdbscan.c |  4 ++++
 src/hdbscan.c                  | 18 ++++++++++++++----
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/modules/python/src/PyHdbscan.c b/modules/python/src/PyHdbscan.c
index eaf7ae8..4115732 100644
--- a/modules/python/src/PyHdbscan.c
+++ b/modules/python/src/PyHdbscan.c
@@ -344,6 +344,10 @@ static PyObject* PyHdbscan_getClusterMap(PyHdbscan *self, PyObject *args) {
     }
 
     hashtable* tmp = hdbscan_create_cluster_map(self->scan->clusterLabels, (index_t)begin, (index_t)end);
+    if(tmp == NULL){
+        return PyErr_NoMemory();
+    }
+
     PyObject* clusterMap = PyDict_New();
     label_t label;
 
diff --git a/src/hdbscan.c b/src/hdbscan.c
index 5bf784b..07306db 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1412,6 +1412,10 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		clusterTable = hashtable_init(bsize, H_SHORT, H_PTR, short_compare);		
 	}
 
+	if(clusterTable == NULL){
+		return NULL;
+	}
+
 	clusterTable->size = 0;
 	index_t size = (index_t)(end - begin);
 	
@@ -1420,8 +1424,7 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 		ArrayList* clusterList = NULL;
 		hashtable_lookup(clusterTable, lb, &clusterList);
 
-		if(clusterList == NULL){
-			clusterList = array_list_init(size/3 + 1, sizeof(index_t), NULL);
+		if(clusterList == NULL && (clusterList = array_list_init(size/3 + 1, sizeof(index_t), NULL)) != NULL){
 			if(sizeof(index_t) == sizeof(int)) {
 				clusterList->compare = int_compare;
 			} else if(sizeof(index_t) == sizeof(long)) {
@@ -1429,9 +1432,16 @@ hashtable* hdbscan_create_cluster_map(label_t* labels, index_t begin, index_t en
 			} else {
 				clusterList->compare = short_compare;		
 			}
-			hashtable_insert(clusterTable, lb, &clusterList);
+			if(!hashtable_insert(clusterTable, lb, &clusterList)){
+				clusterList = array_list_delete(clusterList);
+			}
+		}
+
+		if(clusterList == NULL || !array_list_append(clusterList, &i)){
+			logger_write(FATAL, "hdbscan_create_cluster_map - Could not allocate memory for the clusters.\n");
+			hdbscan_destroy_cluster_map(clusterTable);
+			return NULL;
 		}
-		array_list_append(clusterList, &i);
 	}
 
 	return clusterTable;
-- 
2.43.0


From cccedb2e3b224b840251187ed2eb23aefb3e7fad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:10 +0000
Subject: [PATCH 84/89] fix: getting the cluster distance ranges crashed when
 memory ran out

---
 src/hdbscan.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 07306db..38b5f51 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1466,6 +1466,10 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 		distanceMap = hashtable_init_size(clusterTable->size, H_SHORT, H_PTR, short_compare);		
 	}
 
+	if(distanceMap == NULL){
+		return NULL;
+	}
+
 	distance_t* core = sc->distanceFunction.coreDistances;
 	distance_t zero = 0.0000000000000000000;
 	label_t key;
@@ -1485,6 +1489,13 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 			if(dl == NULL)
 			{
 				dl = (distance_values *)malloc(sizeof(distance_values));				
+				if(dl == NULL || !hashtable_insert(distanceMap, &key, &dl)){
+					logger_write(FATAL, "hdbscan_get_min_max_distances - Could not allocate memory for the distances.\n");
+					free(dl);
+					hdbscan_destroy_distance_map(distanceMap);
+					return NULL;
+				}
+
 				dl->min_cr = core[index];
 				dl->max_cr = core[index];
 				dl->cr_confidence = 0.0;
@@ -1492,7 +1503,6 @@ hashtable* hdbscan_get_min_max_distances(hdbscan* sc, hashtable* clusterTable){
 				dl->min_dr = D_MAX;
 				dl->max_dr = D_MIN;
 				dl->dr_confidence = 0.0;
-				hashtable_insert(distanceMap, &key, &dl);
 			} else {
 
 				if((dl->min_cr > core[index] || dl->min_cr == zero) && (core[index] < zero || core[index] > zero)){
-- 
2.43.0


From 82ff9ab022f79429e4ba99e00c284e4a39cf5865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:10 +0000
Subject: [PATCH 85/89] fix: calculating cluster statistics crashed when memory
 ran out

---
 src/hdbscan.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index 38b5f51..c53c8df 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1694,6 +1694,15 @@ void hdbscan_calculate_stats(hashtable* distanceMap, clustering_stats* stats){
 	distance_t* dr = (distance_t*)malloc(hashtable_size(distanceMap) * sizeof(distance_t));
 	label_t key;
 	distance_values* dl = NULL;
+
+	if(cr == NULL || dr == NULL){
+		logger_write(FATAL, "hdbscan_calculate_stats - Could not allocate memory for the ratios.\n");
+		free(cr);
+		free(dr);
+		stats->count = 0;	// The same as for no clusters
+		hdbscan_calculate_stats_helper(NULL, NULL, stats);
+		return;
+	}
 	
 	#ifdef _OPENMP
 	#pragma omp parallel for private (key, dl)
-- 
2.43.0


From 84b8e1dfb539e510c90329ba5f2c4b7d88e90575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:10 +0000
Subject: [PATCH 86/89] fix: sorting clusters crashed or lost clusters when
 memory ran out

---
 src/hdbscan.c | 34 ++++++++++++++++++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.c b/src/hdbscan.c
index c53c8df..bd232cd 100644
--- a/src/hdbscan.c
+++ b/src/hdbscan.c
@@ -1862,8 +1862,12 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	
 	assert(distanceMap != NULL); 
 	ArrayList *distances;
+	ArrayList *given = clusters;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(distanceMap) + 1, sizeof(label_t), NULL);
+		if(clusters == NULL){
+			return NULL;
+		}
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1881,6 +1885,13 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 	} else{
 		distances = array_list_init(clusters->size, sizeof(distance_t), NULL);
 	}
+
+	if(distances == NULL){
+		if(given == NULL){
+			array_list_delete(clusters);
+		}
+		return NULL;
+	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
 		distances->compare = double_compare;
@@ -1901,7 +1912,11 @@ ArrayList* hdbscan_sort_by_similarity(hashtable* distanceMap, ArrayList *cluster
 			key = ((label_t *)distanceMap->keys->data)[i];
 			hashtable_lookup(distanceMap, &key, &dv);
 		
-			array_list_append(clusters, &key);
+			if(!array_list_append(clusters, &key)){
+				array_list_clear(clusters, 0);	// A list that was given stays empty
+				array_list_delete(distances);
+				return NULL;
+			}
 			distance_t conf;
 
 			if(distanceType == CORE_DISTANCE_TYPE){
@@ -1954,8 +1969,12 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 
 	assert(clusterTable != NULL);
 	ArrayList *lengths;
+	ArrayList *given = clusters;
 	if(clusters == NULL){
 		clusters = array_list_init(hashtable_size(clusterTable) + 1, sizeof(label_t), NULL);
+		if(clusters == NULL){
+			return NULL;
+		}
 
 		if(sizeof(label_t) == sizeof(int)) {
 			clusters->compare = int_compare;
@@ -1972,6 +1991,13 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 	} else{
 		lengths = array_list_init(clusters->size, sizeof(distance_t), NULL);
 	}
+
+	if(lengths == NULL){
+		if(given == NULL){
+			array_list_delete(clusters);
+		}
+		return NULL;
+	}
 	
 	if(sizeof(distance_t) == sizeof(double)) {
 		lengths->compare = double_compare;
@@ -1988,7 +2014,11 @@ ArrayList* hdbscan_sort_by_length(hashtable* clusterTable, ArrayList *clusters){
 			ArrayList *lst = NULL;
 			key = ((label_t *)clusterTable->keys->data)[i];
 			hashtable_lookup(clusterTable, &key, &lst);
-			array_list_append(clusters, &key);
+			if(!array_list_append(clusters, &key)){
+				array_list_clear(clusters, 0);	// A list that was given stays empty
+				array_list_delete(lengths);
+				return NULL;
+			}
 			distance_t tmp = (distance_t)lst->size;
 			array_list_append(lengths, &tmp);
 		}
-- 
2.43.0


From 4654a00aa4f6349252ac7bf09d9905f77e97c33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:21 +0000
Subject: [PATCH 87/89] fix: the C++ sorting functions crashed when memory ran
 out

---
 src/hdbscan.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hdbscan.cpp b/src/hdbscan.cpp
index 598e27d..0284ca4 100644
--- a/src/hdbscan.cpp
+++ b/src/hdbscan.cpp
@@ -40,6 +40,7 @@
  */
 #ifdef __cplusplus
 #include <limits>
+#include <new>
 #include "hdbscan/hdbscan.hpp"
 namespace clustering {
 
@@ -323,14 +324,19 @@ void quickSort(vector<label_t>& clusters, vector<distance_t>& sortData, index_t
 	}
 
 	ArrayList* d_data = array_list_init(clusters.size(), sizeof(distance_t), NULL);
+	ArrayList* c_data = array_list_init(clusters.size(), sizeof(label_t), NULL);
+	if(d_data == NULL || c_data == NULL) {
+		array_list_delete(d_data);
+		array_list_delete(c_data);
+		throw std::bad_alloc();
+	}
+
 	if(sizeof(distance_t) == sizeof(double)) {
 		d_data->compare = double_compare;
 	} else {
 		d_data->compare = float_compare;
 	}
 
-	ArrayList* c_data = array_list_init(clusters.size(), sizeof(label_t), NULL);
-	
 	if(sizeof(label_t) == sizeof(int)) {
 		c_data->compare = int_compare;
 	} else if(sizeof(label_t) == sizeof(long)) {
-- 
2.43.0


From 3dc7a90bc87dd088ef12ad5143f8713bcd01cf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:54 +0000
Subject: [PATCH 88/89] fix: adding points to a virtual child reported success
 when memory ran out

---
 src/cluster.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/cluster.c b/src/cluster.c
index 577769f..dd88438 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -226,10 +226,12 @@ int cluster_add_points_to_virtual_child_cluster(cluster* cl, set_t* points){
 	for(index_t i = 0; i < points->size; i++){
 		
 		set_value_at(points, i, &d);
-		set_insert(cl->virtualChildCluster, &d);
+		if(!set_insert(cl->virtualChildCluster, &d) && set_find(cl->virtualChildCluster, &d) < 0){
+			return CLUSTER_ERROR;	// Not there before and no memory for it
+		}
 	}
 	
-	return 1;
+	return CLUSTER_SUCCESS;
 }
 
 boolean cluster_virtual_child_contains_point(cluster* cl, index_t point){
-- 
2.43.0


From c168a6eae14ad5e7b5605a21cdaa6a0ef2c38054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:43 +0000
Subject: [PATCH 89/89] fix: propagating a cluster without memory left its
 parent half updated

---
 src/cluster.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/cluster.c b/src/cluster.c
index dd88438..d036d4f 100644
--- a/src/cluster.c
+++ b/src/cluster.c
@@ -169,6 +169,9 @@ int cluster_propagate(cluster* cl){
 	}
 
 	if (cl->parent != NULL) {
+		cluster before = *cl->parent;
+		size_t descendants = cl->parent->propagatedDescendants->size;
+
 		//Propagate lowest death level of any descendants:
 		if (cl->propagatedLowestChildDeathLevel < cl->parent->propagatedLowestChildDeathLevel){
 			cl->parent->propagatedLowestChildDeathLevel = cl->propagatedLowestChildDeathLevel;
@@ -215,6 +218,12 @@ int cluster_propagate(cluster* cl){
 				}
 			}
 		}
+
+		if (result != CLUSTER_SUCCESS) {
+			//The parent is as it was, so that this can be repeated:
+			*cl->parent = before;
+			cl->parent->propagatedDescendants->size = descendants;
+		}
 	}
 
 	return result;
-- 
2.43.0

