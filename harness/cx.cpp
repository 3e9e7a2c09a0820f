// calls the C++ analysis functions (namespace clustering); plain-typed entry points
#include "hdbscan/hdbscan.hpp"
#include "adapter.h"
using namespace clustering;
extern "C" void cx_analysis(const int64_t *labels, int64_t n, void *o) {
	std::vector<label_t> l(labels, labels + n); l.push_back(0);
	map_t m = createClusterMap(l.data(), 0, (index_t)n);
	map<label_t, distance_values> dm = getMinMaxDistances(*(hdbscan *)o, m);
	clustering_stats st; calculateStats(dm, st); analyseStats(st);
	std::vector<label_t> c; for (auto &x : m) c.push_back(x.first);
	sortByLength(m, c); sortBySimilarity(dm, c, CORE_DISTANCE_TYPE); sortBySimilarity(dm, c, INTRA_DISTANCE_TYPE);
}
