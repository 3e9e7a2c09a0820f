// A06: the analysis functions, clusters, graphs and distances while allocations fail: every call
// either gives the right result or reports its failure, loses nothing it was given, leaks nothing,
// and works when it is repeated with memory.
#include "hdbscan/hdbscan.hpp"
#include "ev.hpp"
#include "wrap.h"
#include <algorithm>
#include <memory>
#include <new>
using namespace clustering;
Ev ev; static std::string PROP;
struct Bad { const char *key; std::string what; };
#define CHECK(c, key, ...) do { ev.count("observations"); if (!(c)) throw Bad{ key, fmt(__VA_ARGS__) }; } while (0)
static Rng *R; static int RATE; static long refused_total;
// refuses the request after `after` others, of those asked for while it lives
struct Inject { bool on; long failed = 0; bool over = false; Inject(long most) { on = R->chance(RATE); if (on) wrap_fail(R->chance(25) ? R->range(0, 2) : R->range(0, most), 0, R->chance(50), 3); } bool end() { if (!over) { over = true; if (on) { failed = wrap_fail_end(); if (failed) { refused_total += failed; ev.count("refused_allocations", failed); } } } return failed > 0; } ~Inject() { end(); } };
static int (*icmp)(const void *, const void *) = sizeof(index_t) == 4 ? int_compare : sizeof(index_t) == 8 ? long_compare : short_compare;
static int (*lcmp)(const void *, const void *) = sizeof(label_t) == 4 ? int_compare : sizeof(label_t) == 8 ? long_compare : short_compare;
static int (*dcmp)(const void *, const void *) = sizeof(distance_t) == 8 ? double_compare : float_compare;
#define MEMORY(f, what) do { CHECK(f, "failure", "%s failed although memory was there", what); ev.count("failures_reported"); } while (0)
#define NOLEAK(mark, what) CHECK(wrap_live() == (mark), "leak", "%s that failed leaves %ld more blocks", what, wrap_live() - (mark))
// ---------------------------------------------------------------- graphs
typedef std::vector<std::vector<index_t>> Adj;
static Adj adj(UndirectedGraph *g) { Adj a; for (index_t v = 0; v < g->numVertices; v++) { a.push_back({}); for (size_t i = 0; i < array_list_size(g->edges[v]); i++) { index_t x = 0; array_list_value_at(g->edges[v], i, &x); a.back().push_back(x); } } return a; }
static void graphs(Rng &r) {
	long start = wrap_live(); index_t n = (index_t)r.range(1, 40); size_t m = (size_t)r.range(0, 120), cap = m ? m : 1; bool hub = r.chance(50), own = r.chance(50);
	ArrayList *a = array_list_init(cap, sizeof(index_t), icmp), *b = array_list_init(cap, sizeof(index_t), icmp), *w = array_list_init(cap, sizeof(distance_t), dcmp); Adj want(n); std::vector<index_t> va, vb; std::vector<distance_t> vw;
	for (size_t i = 0; i < m; i++) { index_t x = (index_t)(hub && r.chance(60) ? 0 : r.range(0, n - 1)), y = (index_t)r.range(0, n - 1); distance_t z = (distance_t)r.range(0, 9); array_list_append(a, &x); array_list_append(b, &y); array_list_append(w, &z); va.push_back(x); vb.push_back(y); vw.push_back(z); want[x].push_back(y); if (x != y) want[y].push_back(x); }
	UndirectedGraph *mem = own ? (UndirectedGraph *)malloc(sizeof(UndirectedGraph)) : NULL; if (own) memset((void *)mem, 0xa5, sizeof *mem);
	UndirectedGraph *g = NULL; for (int k = 0; k < 4 && !g; k++) {
		long mark = wrap_live(); bool f = false; if (k < 3) { Inject j(2 * (long)n + 12); g = graph_init(mem, n, a, b, w); f = j.end(); } else g = graph_init(mem, n, a, b, w); ev.count("operations"); ev.count("graphs");
		if (!g) { MEMORY(f, "graph_init"); NOLEAK(mark, "graph_init"); }
		for (size_t i = 0; i < m; i++) { index_t x = 0, y = 0; distance_t z = 0; CHECK(array_list_size(a) == m && array_list_size(b) == m && array_list_size(w) == m && array_list_value_at(a, i, &x) == 1 && array_list_value_at(b, i, &y) == 1 && array_list_value_at(w, i, &z) == 1 && x == va[i] && y == vb[i] && z == vw[i], "graph-lists", "edge %zu changed while building the graph%s", i, g ? "" : " failed"); }
	}
	CHECK(g != NULL, "failure", "no graph although memory was there"); CHECK(!own || g == mem, "graph", "not built in the given memory"); Adj got = adj(g); for (index_t v = 0; v < n; v++) CHECK(got[v] == want[v], "graph", "vertex %lld of %lld has %zu neighbours, expected %zu", (long long)v, (long long)n, got[v].size(), want[v].size());
	{ Inject j(4); graph_quicksort_by_edge_weight(g); } std::sort(vw.begin(), vw.end()); for (size_t i = 0; i < m; i++) { distance_t z = 0; array_list_value_at(g->edgeWeights, i, &z); CHECK(z == vw[i], "graph-sort", "weight %zu of %zu", i, m); }
	if (m) { size_t e = (size_t)r.range(0, (int64_t)m - 1); index_t x = va[e], y = vb[e]; Inject j(4); graph_remove_edge(g, x, y); j.end(); Adj now = adj(g); auto drop = [](std::vector<index_t> &v, index_t q) { auto it = std::find(v.begin(), v.end(), q); if (it != v.end()) v.erase(it); }; drop(want[x], y); drop(want[y], x); for (index_t v = 0; v < n; v++) { auto p = now[v], q = want[v]; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); CHECK(p == q, "graph-remove", "removing an edge: neighbours of vertex %lld", (long long)v); } }
	if (own) { graph_clean(g); free(mem); } else graph_destroy(g); NOLEAK(start, "a graph");
}
// ---------------------------------------------------------------- clusters
static void clusters(Rng &r) {
	long start = wrap_live(); int n = (int)r.range(2, 30); std::vector<cluster *> c; std::unique_ptr<char[]> cells(new char[sizeof(cluster) * (size_t)n]); std::vector<int> parent; std::vector<bool> kids((size_t)n), own;
	for (int i = 0; i < n; i++) {
		int p = i ? (int)r.range(0, i - 1) : -1; bool o = r.chance(30); cluster *x = NULL; cluster *mem = o ? (cluster *)(void *)(cells.get() + sizeof(cluster) * (size_t)i) : NULL; index_t pts = (index_t)r.range(1, 60); distance_t birth = (distance_t)r.range(1, 50);
		for (int k = 0; k < 4 && !x; k++) { long mark = wrap_live(); bool f = false; if (k < 3) { Inject j(6); x = cluster_init(mem, (label_t)(i + 1), p >= 0 ? c[(size_t)p] : NULL, birth, pts); f = j.end(); } else x = cluster_init(mem, (label_t)(i + 1), p >= 0 ? c[(size_t)p] : NULL, birth, pts); ev.count("operations"); ev.count("clusters"); if (!x) { MEMORY(f, "cluster_init"); NOLEAK(mark, "cluster_init"); if (p >= 0) CHECK((c[(size_t)p]->hasChildren != 0) == kids[(size_t)p], "cluster", "a parent has children although creating one failed"); } }
		CHECK(x != NULL, "failure", "no cluster although memory was there"); if (p >= 0) { kids[(size_t)p] = true; CHECK(c[(size_t)p]->hasChildren, "cluster", "a parent without children"); }
		CHECK(x->label == (label_t)(i + 1) && x->numPoints == pts && x->birthLevel == birth && x->virtualChildCluster && x->propagatedDescendants && !x->hasChildren, "cluster", "fields of cluster %d", i + 1); c.push_back(x); parent.push_back(p); own.push_back(o);
	}
	// points of the virtual children
	for (int k = 0; k < 6; k++) {
		cluster *x = c[(size_t)r.range(0, n - 1)]; set_t *s = set_init(sizeof(index_t), icmp), *before = set_init(sizeof(index_t), icmp); int q = (int)r.range(0, 40); for (int i = 0; i < q; i++) { index_t v = (index_t)r.range(0, 60); set_insert(s, &v); } for (size_t i = 0; i < set_size(x->virtualChildCluster); i++) { index_t v = 0; set_value_at(x->virtualChildCluster, i, &v); set_insert(before, &v); }
		int e; bool f; { Inject j(4); e = cluster_add_points_to_virtual_child_cluster(x, s); f = j.end(); } ev.count("operations"); CHECK(e == CLUSTER_SUCCESS || e == CLUSTER_ERROR, "virtual-result", "adding points returned %d", e); if (e != CLUSTER_SUCCESS) MEMORY(f, "adding points to a virtual child");
		size_t known = 0; for (index_t v = 0; v <= 60; v++) { bool in = cluster_virtual_child_contains_point(x, v), was = set_find(before, &v) >= 0, add = set_find(s, &v) >= 0; known += in; CHECK(!was || in, "virtual", "point %lld left the virtual child%s", (long long)v, f ? " without memory" : ""); CHECK(!in || was || add, "virtual", "point %lld came into the virtual child", (long long)v); if (e == CLUSTER_SUCCESS) CHECK(in || !add, "virtual", "point %lld was not added, without an error", (long long)v); } CHECK(known == set_size(x->virtualChildCluster), "virtual", "size of the virtual child");
		set_delete(s); set_delete(before);
	}
	// propagation, children first
	std::vector<std::vector<label_t>> want((size_t)n); for (int i = 0; i < n; i++) { c[(size_t)i]->stability = (distance_t)r.range(0, 20); c[(size_t)i]->numConstraintsSatisfied = (index_t)r.range(0, 3); c[(size_t)i]->deathLevel = (distance_t)r.range(0, 9); }
	for (int i = n - 1; i >= 0; i--) {
		cluster *x = c[(size_t)i]; int p = parent[(size_t)i]; bool self = !x->hasChildren || x->numConstraintsSatisfied > x->propagatedNumConstraintsSatisfied || (x->numConstraintsSatisfied == x->propagatedNumConstraintsSatisfied && x->stability >= x->propagatedStability);
		cluster *up = p >= 0 ? c[(size_t)p] : NULL; int e = CLUSTER_ERROR; bool f = false;
		for (int k = 0; k < 4 && e != CLUSTER_SUCCESS; k++) {
			alignas(cluster) char keep[sizeof(cluster)] = { 0 }; cluster &was = *(cluster *)(void *)keep; size_t many = 0; if (up) { memcpy(keep, (void *)up, sizeof keep); many = array_list_size(up->propagatedDescendants); }
			if (k < 3) { Inject j(2); e = cluster_propagate(x); f = j.end(); } else { f = false; e = cluster_propagate(x); } ev.count("operations"); ev.count("propagations"); CHECK(e == CLUSTER_SUCCESS || e == CLUSTER_ERROR, "propagate-result", "propagating returned %d", e); if (e == CLUSTER_SUCCESS) break;
			MEMORY(f, "cluster_propagate"); ev.count("propagations_failed"); CHECK(up != NULL, "propagate-result", "propagating without a parent failed");
			CHECK(up->propagatedStability == was.propagatedStability && up->propagatedNumConstraintsSatisfied == was.propagatedNumConstraintsSatisfied && up->propagatedLowestChildDeathLevel == was.propagatedLowestChildDeathLevel && up->stability == was.stability && up->numConstraintsSatisfied == was.numConstraintsSatisfied && up->label == was.label && up->parent == was.parent && up->hasChildren == was.hasChildren && array_list_size(up->propagatedDescendants) == many, "propagate-parent", "propagating cluster %d without memory changed its parent", i + 1);
		}
		CHECK(e == CLUSTER_SUCCESS, "failure", "propagating failed although memory was there");
		if (p >= 0) { auto &w = want[(size_t)p]; if (self) w.push_back(x->label); else w.insert(w.end(), want[(size_t)i].begin(), want[(size_t)i].end()); std::vector<label_t> got; for (size_t k = 0; k < array_list_size(c[(size_t)p]->propagatedDescendants); k++) { cluster *d = NULL; array_list_value_at(c[(size_t)p]->propagatedDescendants, k, &d); got.push_back(d->label); } CHECK(got == w, "propagate", "cluster %d has %zu descendants after propagating %d%s, expected %zu", p + 1, got.size(), i + 1, f ? " without memory" : "", w.size()); }
	}
	for (int i = 0; i < n; i++) { if (own[(size_t)i]) { set_delete(c[(size_t)i]->virtualChildCluster); array_list_delete(c[(size_t)i]->propagatedDescendants); } else cluster_destroy(c[(size_t)i]); } NOLEAK(start, "a cluster tree");
}
// ---------------------------------------------------------------- maps, ranges, statistics, sorting
typedef std::map<label_t, std::vector<index_t>> Map;
static Map get_map(hashtable *t) { Map m; for (size_t i = 0; i < set_size(t->keys); i++) { label_t k = 0; set_value_at(t->keys, i, &k); ArrayList *l = NULL; CHECK(hashtable_lookup(t, &k, &l) == 1 && l, "map", "label %lld has no list", (long long)k); auto &v = m[k]; for (size_t j = 0; j < array_list_size(l); j++) { index_t x = 0; array_list_value_at(l, j, &x); v.push_back(x); } } return m; }
typedef std::map<label_t, distance_values> Ran;
static Ran get_ran(hashtable *t) { Ran m; for (size_t i = 0; i < set_size(t->keys); i++) { label_t k = 0; set_value_at(t->keys, i, &k); distance_values *v = NULL; CHECK(hashtable_lookup(t, &k, &v) == 1 && v, "ranges", "label %lld has no range", (long long)k); m[k] = *v; } return m; }
static bool same(const distance_values &a, const distance_values &b, bool conf) { auto eq = [](distance_t x, distance_t y) { return x == y || (x != x && y != y); }; return a.min_cr == b.min_cr && a.max_cr == b.max_cr && a.min_dr == b.min_dr && a.max_dr == b.max_dr && (!conf || (eq(a.cr_confidence, b.cr_confidence) && eq(a.dr_confidence, b.dr_confidence))); }
static void same_ran(const Ran &a, const Ran &b, bool conf, const char *key, const char *what) { CHECK(a.size() == b.size(), key, "%s: %zu clusters, expected %zu", what, a.size(), b.size()); for (auto &p : b) { auto it = a.find(p.first); CHECK(it != a.end() && same(it->second, p.second, conf), key, "%s: cluster %lld", what, (long long)p.first); } }
static std::vector<label_t> items(ArrayList *l) { std::vector<label_t> v; for (size_t i = 0; i < array_list_size(l); i++) { label_t x = 0; array_list_value_at(l, i, &x); v.push_back(x); } return v; }
static void analysis(Rng &r) {
	long start = wrap_live(); index_t n = (index_t)r.range(2, 60); index_t cols = (index_t)r.range(1, 3); std::vector<double> x((size_t)n * cols); for (auto &v : x) v = (double)r.range(0, 40) + (r.chance(50) ? r.unit() : 0); hdbscan *h = NULL; index_t mp = (index_t)r.range(2, 6);
	for (int k = 0; k < 4 && !h; k++) { long mark = wrap_live(); bool f = false; if (k < 3) { Inject j(2); h = hdbscan_init(NULL, mp); f = j.end(); } else h = hdbscan_init(NULL, mp); ev.count("operations"); if (!h) { MEMORY(f, "hdbscan_init"); NOLEAK(mark, "hdbscan_init"); } } CHECK(h != NULL, "failure", "no object although memory was there");
	CHECK(hdbscan_run(h, x.data(), n, cols, TRUE, H_DOUBLE) == HDBSCAN_SUCCESS, "failure", "a run failed although memory was there"); std::vector<label_t> labels(h->clusterLabels, h->clusterLabels + n); int many = (int)r.range(2, 40); if (r.chance(60)) for (auto &l : labels) l = (label_t)r.range(0, many);
	index_t b = r.chance(70) ? 0 : (index_t)r.range(0, n - 1), e = r.chance(70) ? n : (index_t)r.range(b, n); Map want; for (index_t i = b; i < e; i++) want[labels[i]].push_back(i); if (want.empty()) { b = 0; e = n; for (index_t i = b; i < e; i++) want[labels[i]].push_back(i); }
	hashtable *m = NULL; for (int k = 0; k < 5 && !m; k++) { long mark = wrap_live(); bool f = false; if (k < 4) { Inject j(4 * (long)want.size() + 60); m = hdbscan_create_cluster_map(labels.data(), b, e); f = j.end(); } else m = hdbscan_create_cluster_map(labels.data(), b, e); ev.count("operations"); ev.count("maps"); if (!m) { MEMORY(f, "hdbscan_create_cluster_map"); NOLEAK(mark, "hdbscan_create_cluster_map"); } } CHECK(m != NULL, "failure", "no map although memory was there");
	Map got = get_map(m); CHECK(got.size() == want.size(), "map", "%zu labels, expected %zu", got.size(), want.size()); for (auto &p : want) CHECK(got[p.first] == p.second, "map", "label %lld has %zu points, expected %zu", (long long)p.first, got[p.first].size(), p.second.size());
	// the ranges, against the C++ function
	map_t cm; for (auto &p : want) cm[p.first] = p.second; Ran ref; { auto q = getMinMaxDistances(*(clustering::hdbscan *)h, cm); ref.insert(q.begin(), q.end()); }
	hashtable *d = NULL; for (int k = 0; k < 5 && !d; k++) { long mark = wrap_live(); bool f = false; if (k < 4) { Inject j(4 * (long)want.size() + 60); d = hdbscan_get_min_max_distances(h, m); f = j.end(); } else d = hdbscan_get_min_max_distances(h, m); ev.count("operations"); ev.count("range_tables"); if (!d) { MEMORY(f, "hdbscan_get_min_max_distances"); NOLEAK(mark, "hdbscan_get_min_max_distances"); } { Map now = get_map(m); CHECK(now == want, "map-changed", "the map changed while the ranges were made"); } } CHECK(d != NULL, "failure", "no ranges although memory was there");
	same_ran(get_ran(d), ref, false, "ranges", "ranges");
	// statistics: right, or none and the confidences untouched
	clustering_stats want_st; memset(&want_st, 0, sizeof want_st); std::map<label_t, distance_values> cr(ref.begin(), ref.end()); if (r.chance(50)) for (auto &p : cr) { distance_values *v = NULL; p.second.cr_confidence = p.second.dr_confidence = (distance_t)7; label_t k = p.first; hashtable_lookup(d, &k, &v); v->cr_confidence = v->dr_confidence = (distance_t)7; } Ran before = get_ran(d); calculateStats(cr, want_st); Ran after(cr.begin(), cr.end());
	bool done = false; for (int k = 0; k < 4 && !done; k++) { long mark = wrap_live(); clustering_stats st; memset(&st, 0x5a, sizeof st); bool f = false; if (k < 3) { Inject j(3); hdbscan_calculate_stats(d, &st); f = j.end(); } else hdbscan_calculate_stats(d, &st); ev.count("operations"); ev.count("statistics"); NOLEAK(mark, "hdbscan_calculate_stats");
		if (st.count == 0) { MEMORY(f, "hdbscan_calculate_stats"); for (stats_values *v : { &st.coreDistanceValues, &st.intraDistanceValues }) CHECK(v->mean != v->mean && v->standardDev != v->standardDev && v->variance != v->variance && v->max != v->max && v->kurtosis != v->kurtosis && v->skewness != v->skewness, "stats", "values without statistics"); same_ran(get_ran(d), before, true, "stats-confidence", "statistics without memory"); continue; }
		done = true; CHECK((size_t)st.count == want.size(), "stats", "count %lld, expected %zu", (long long)st.count, want.size()); auto eq = [](distance_t x, distance_t y) { return x == y || (x != x && y != y) || std::fabs((double)x - (double)y) <= 1e-4 * std::fabs((double)y); }; stats_values *g[2] = { &st.coreDistanceValues, &st.intraDistanceValues }, *w[2] = { &want_st.coreDistanceValues, &want_st.intraDistanceValues };
		for (int i = 0; i < 2; i++) CHECK(eq(g[i]->mean, w[i]->mean) && eq(g[i]->max, w[i]->max) && eq(g[i]->standardDev, w[i]->standardDev), "stats", "statistics differ from those of the C++ function%s", f ? " after a refused allocation" : ""); same_ran(get_ran(d), after, true, "stats-confidence", "confidences"); }
	CHECK(done, "failure", "no statistics although memory was there"); Ran conf = get_ran(d);
	// sorting: right, or nothing and the list as it was; C and C++
	for (int k = 0; k < 5; k++) {
		int how = (int)r.range(0, 2); bool given = r.chance(60), empty = r.chance(30); ArrayList *l = NULL; std::vector<label_t> in; if (given) { for (auto &p : want) if (!empty && r.chance(80)) in.push_back(p.first); for (size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[(size_t)r.range(0, (int64_t)i - 1)]); l = array_list_init(in.size() ? in.size() : 1, sizeof(label_t), lcmp); for (label_t y : in) array_list_append(l, &y); }
		std::vector<label_t> expect = in; if (in.empty()) for (auto &p : want) expect.push_back(p.first); auto value = [&](label_t q) -> double { return how == 0 ? (double)want[q].size() : how == 1 ? (double)conf[q].cr_confidence : (double)conf[q].dr_confidence; };
		auto sorted = [&](const std::vector<label_t> &v, const char *what) { auto p = v, q = expect; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); CHECK(p == q, "sort", "%s: %zu clusters, expected %zu, or others", what, v.size(), expect.size()); for (size_t i = 1; i < v.size(); i++) { double s = value(v[i - 1]), t = value(v[i]); if (s == s && t == t) CHECK(s <= t, "sort-order", "%s: value %g before %g", what, s, t); } };
		bool hasnan = false; for (label_t q : expect) if (std::isnan(value(q))) hasnan = true; const char *what = how == 0 ? "hdbscan_sort_by_length" : "hdbscan_sort_by_similarity"; ev.count("operations"); ev.count("sorts");
		if (r.chance(60)) {
			long mark = wrap_live(); ArrayList *s; bool f; { Inject j(6); s = how == 0 ? hdbscan_sort_by_length(m, l) : hdbscan_sort_by_similarity(d, l, how == 1 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE); f = j.end(); }
			if (!s) { MEMORY(f, what); NOLEAK(mark, what); if (l) { auto now = items(l); CHECK(now == in, "sort-list", "%s failed and changed the given list of %zu to %zu", what, in.size(), now.size()); array_list_delete(l); } }
			else { CHECK(!l || s == l, "sort", "%s gives another list than the given one", what); auto v = items(s); if (hasnan) { auto p = v, q = expect; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); CHECK(p == q, "sort", "%s: lost clusters", what); } else sorted(v, what); array_list_delete(s); }
			CHECK(get_map(m) == want, "map-changed", "the map changed while sorting"); same_ran(get_ran(d), conf, true, "ranges-changed", "ranges after sorting");
		} else {
			if (l) array_list_delete(l); long mark = wrap_live(); std::vector<label_t> v = in; bool thrown = false, f; std::map<label_t, distance_values> t(conf.begin(), conf.end()); { Inject j(3); try { if (how == 0) sortByLength(cm, v); else sortBySimilarity(t, v, how == 1 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE); } catch (std::bad_alloc &) { thrown = true; } f = j.end(); } ev.count("cpp_sorts");
			if (thrown) MEMORY(f, "a C++ sort"); NOLEAK(mark, "a C++ sort"); if (!thrown) { if (hasnan) { auto p = v, q = expect; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); CHECK(p == q, "sort", "C++: lost clusters"); } else sorted(v, "C++"); } else if (!in.empty()) { auto p = v, q = in; std::sort(p.begin(), p.end()); std::sort(q.begin(), q.end()); CHECK(p == q, "sort-list", "a C++ sort failed and lost clusters"); }
		}
	}
	{ Inject j(5); hdbscan_destroy_distance_map(d); } { Inject j(5); hdbscan_destroy_cluster_map(m); } hdbscan_destroy(h); NOLEAK(start, "an analysis");
}
// ---------------------------------------------------------------- distances
static void distances(Rng &r) {
	long start = wrap_live(); calculator cal = _EUCLIDEAN; alignas(16) char cell[sizeof(clustering::distance)]; clustering::distance *dis = NULL; bool own = r.chance(40);
	for (int k = 0; k < 4 && !dis; k++) { long mark = wrap_live(); bool f = false; if (k < 3) { Inject j(1); dis = distance_init(own ? (clustering::distance *)cell : NULL, cal, H_DOUBLE); f = j.end(); } else dis = distance_init(own ? (clustering::distance *)cell : NULL, cal, H_DOUBLE); ev.count("operations"); if (!dis) { MEMORY(f, "distance_init"); NOLEAK(mark, "distance_init"); } } CHECK(dis != NULL, "failure", "no distance object although memory was there");
	for (int k = 0; k < 4; k++) {
		index_t n = (index_t)r.range(2, 40), cols = (index_t)r.range(1, 3), near = (index_t)r.range(1, n); std::vector<double> x((size_t)n * cols); for (auto &v : x) v = (double)r.range(-50, 50) / 4; int e; bool f; { Inject j(5); e = distance_compute(dis, x.data(), n, cols, near); f = j.end(); } ev.count("operations"); ev.count("distances"); CHECK(e == DISTANCE_SUCCESS || e == DISTANCE_ERROR, "distance-result", "distance_compute returned %d", e); if (e != DISTANCE_SUCCESS) { MEMORY(f, "distance_compute"); continue; }
		for (index_t i = 0; i < n; i++) for (index_t j = 0; j < n; j++) { double w = 0; for (index_t q = 0; q < cols; q++) { double t = std::fabs(x[(size_t)i * cols + q] - x[(size_t)j * cols + q]); w += t * t; } w = std::sqrt(w); double g = (double)distance_get(dis, i, j); CHECK(std::fabs(g - w) <= 1e-4 * (w + 1), "distance", "distance of %lld and %lld is %g, expected %g%s", (long long)i, (long long)j, g, w, f ? " after a refused allocation" : ""); }
	}
	if (own) distance_clean(dis); else distance_destroy(dis); NOLEAK(start, "a distance object");
}
int main(int argc, char **argv) {
	if (argc < 6) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1; ev.open_from_env();
	{ Rng q(1); R = &q; RATE = 0; Capture c; c.start(); try { analysis(q); } catch (Bad &) {} c.stop(); } // what the runtime keeps for itself
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue; Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); R = &r; static const int rates[] = { 15, 50, 80, 95 }; RATE = rates[r.range(0, 3)]; refused_total = 0; int what = (int)r.range(0, 5); static const char *names[] = { "a graph", "a cluster tree", "cluster analysis", "cluster analysis", "cluster analysis", "a distance object" };
		std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k); ev.begin(id, fmt("%s, memory refused in %d%% of the calls", names[what], RATE)); ev.count("evaluations"); Capture c; c.start(); std::string bad, key;
		try { if (what == 0) graphs(r); else if (what == 1) clusters(r); else if (what == 5) distances(r); else analysis(r); } catch (Bad &b) { key = b.key; bad = b.what; wrap_fail_end(); }
		c.stop(); if (!key.empty()) ev.viol(key.c_str(), "%s: %s", names[what], bad.c_str()); if (refused_total) { uint64_t h = fnv(&k, sizeof k, SEED); ev.nontrivial(h); ev.sample(fmt("%s: %ld allocations refused", names[what], refused_total)); }
	}
	ev.done(); return 0;
}
