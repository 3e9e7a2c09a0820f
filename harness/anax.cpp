#include "hdbscan/hdbscan.hpp"
#include <stdlib.h>
#include <string.h>
#include "anax.h"
using namespace clustering;
static map_t to(const xmap &m) { map_t r; for (auto &p : m) { auto &v = r[(label_t)p.first]; for (int64_t x : p.second) v.push_back((index_t)x); } return r; }
static distance_values tod(const ad_range &a) { distance_values d; d.min_cr = (distance_t)a.min_cr; d.max_cr = (distance_t)a.max_cr; d.cr_confidence = (distance_t)a.cr_conf; d.min_dr = (distance_t)a.min_dr; d.max_dr = (distance_t)a.max_dr; d.dr_confidence = (distance_t)a.dr_conf; return d; }
static ad_range fromd(const distance_values &d, int64_t l) { ad_range a; a.label = l; a.min_cr = d.min_cr; a.max_cr = d.max_cr; a.cr_conf = d.cr_confidence; a.min_dr = d.min_dr; a.max_dr = d.max_dr; a.dr_conf = d.dr_confidence; return a; }
static map<label_t, distance_values> to(const xranges &r) { map<label_t, distance_values> m; for (auto &p : r) m[(label_t)p.first] = tod(p.second); return m; }
static clustering_stats to(const ad_stats &o) { clustering_stats s; memset(&s, 0, sizeof s); stats_values *v[2] = { &s.coreDistanceValues, &s.intraDistanceValues }; s.count = (index_t)o.count;
	for (int k = 0; k < 2; k++) { v[k]->mean = (distance_t)o.v[k][0]; v[k]->standardDev = (distance_t)o.v[k][1]; v[k]->variance = (distance_t)o.v[k][2]; v[k]->max = (distance_t)o.v[k][3]; v[k]->kurtosis = (distance_t)o.v[k][4]; v[k]->skewness = (distance_t)o.v[k][5]; } return s; }
static void from(const clustering_stats &s, ad_stats &o) { const stats_values *v[2] = { &s.coreDistanceValues, &s.intraDistanceValues }; o.count = (int64_t)s.count;
	for (int k = 0; k < 2; k++) { o.v[k][0] = v[k]->mean; o.v[k][1] = v[k]->standardDev; o.v[k][2] = v[k]->variance; o.v[k][3] = v[k]->max; o.v[k][4] = v[k]->kurtosis; o.v[k][5] = v[k]->skewness; } }
xmap x_map(const std::vector<int64_t> &labels, int64_t b, int64_t e) {
	label_t *l = (label_t *)malloc(sizeof(label_t) * (labels.size() ? labels.size() : 1)); for (size_t i = 0; i < labels.size(); i++) l[i] = (label_t)labels[i];
	map_t m = createClusterMap(l, (index_t)b, (index_t)e); free(l); xmap r; for (auto &p : m) { auto &v = r[(int64_t)p.first]; for (index_t x : p.second) v.push_back((int64_t)x); } return r;
}
xranges x_ranges(void *o, const xmap &m) { map_t t = to(m); auto d = getMinMaxDistances(*(hdbscan *)o, t); xranges r; for (auto &p : d) r[(int64_t)p.first] = fromd(p.second, (int64_t)p.first); return r; }
void x_stats(xranges &r, ad_stats &st, int poison) { auto m = to(r); clustering_stats s = to(st); if (poison >= 0) memset(&s, poison, sizeof s); calculateStats(m, s); from(s, st); for (auto &p : m) r[(int64_t)p.first] = fromd(p.second, (int64_t)p.first); }
int x_analyse(const ad_stats &st) { clustering_stats s = to(st); return analyseStats(s); }
void x_sort(int mode, const xmap *m, const xranges *r, std::vector<int64_t> &c, bool *changed) {
	vector<label_t> v; for (int64_t x : c) v.push_back((label_t)x);
	if (mode == 0) { map_t t = to(*m), u = t; sortByLength(t, v); *changed = t != u; }
	else { auto t = to(*r); auto u = t; sortBySimilarity(t, v, mode == 1 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE); *changed = t.size() != u.size(); for (auto &p : u) { auto it = t.find(p.first); if (it == t.end() || memcmp(&it->second, &p.second, sizeof p.second)) *changed = true; } }
	c.clear(); for (label_t x : v) c.push_back((int64_t)x);
}
void x_print(int what, const xmap *m, const xranges *r, const ad_stats *st) {
	if (what == 0) { map_t t = to(*m); printClusterMap(t); } else if (what == 1) { map_t t = to(*m); printClusterSizes(t); } else if (what == 2) { auto t = to(*r); printDistanceMap(t); } else { clustering_stats s = to(*st); printStats(s); }
}
void *k_new(int64_t label, void *parent, double birth, int64_t n) { return cluster_init(NULL, (label_t)label, (cluster *)parent, (distance_t)birth, (index_t)n); }
void k_free(void *c) { cluster_destroy((cluster *)c); }
int k_detach(void *c, int64_t n, double level) { return cluster_detach_points((cluster *)c, (index_t)n, (distance_t)level) == CLUSTER_SUCCESS; }
void k_propagate(void *c) { cluster_propagate((cluster *)c); }
void k_constraints(void *c, int64_t n) { cluster_add_constraints_satisfied((cluster *)c, (index_t)n); }
void k_vconstraints(void *c, int64_t n) { cluster_add_virtual_child_constraints_satisfied((cluster *)c, (index_t)n); }
void k_vadd(void *c, const std::vector<int64_t> &p) {
	set_t *s = set_init(sizeof(index_t), sizeof(index_t) == sizeof(int) ? int_compare : sizeof(index_t) == sizeof(long) ? long_compare : short_compare);
	for (int64_t x : p) { index_t v = (index_t)x; set_insert(s, &v); } cluster_add_points_to_virtual_child_cluster((cluster *)c, s); set_delete(s);
}
int k_vhas(void *c, int64_t p) { return cluster_virtual_child_contains_point((cluster *)c, (index_t)p); }
void k_vrelease(void *c) { cluster_release_virtual_child((cluster *)c); }
k_state k_get(void *p) {
	cluster *c = (cluster *)p; k_state s; s.label = (int64_t)c->label; s.n = (int64_t)c->numPoints; s.own = (int64_t)c->numConstraintsSatisfied; s.prop = (int64_t)c->propagatedNumConstraintsSatisfied; s.birth = c->birthLevel; s.death = c->deathLevel; s.stab = c->stability; s.pstab = c->propagatedStability; s.pdeath = c->propagatedLowestChildDeathLevel; s.kids = c->hasChildren != 0;
	s.parent = c->parent ? (int64_t)c->parent->label : -1;
	for (size_t i = 0; i < array_list_size(c->propagatedDescendants); i++) { cluster *d = NULL; array_list_value_at(c->propagatedDescendants, i, &d); s.desc.push_back(d ? (int64_t)d->label : -1); }
	if (c->virtualChildCluster) for (size_t i = 0; i < set_size(c->virtualChildCluster); i++) { index_t v = 0; set_value_at(c->virtualChildCluster, i, &v); s.virt.push_back((int64_t)v); } else s.virt.push_back(-1);
	return s;
}
int k_compare(void *a, void *b) { return cluster_compare(a, b); }
void *g_new(const g_state &s, bool own, void **mem) {
	size_t m = s.a.size(); size_t cap = m ? m : 1; ArrayList *a = array_list_init(cap, sizeof(index_t), int_compare), *b = array_list_init(cap, sizeof(index_t), int_compare), *w = array_list_init(cap, sizeof(distance_t), sizeof(distance_t) == sizeof(double) ? double_compare : float_compare);
	for (size_t i = 0; i < m; i++) { index_t x = (index_t)s.a[i], y = (index_t)s.b[i]; distance_t z = (distance_t)s.w[i]; array_list_append(a, &x); array_list_append(b, &y); array_list_append(w, &z); }
	*mem = NULL; if (own) { *mem = malloc(sizeof(UndirectedGraph)); memset(*mem, 0xa5, sizeof(UndirectedGraph)); }
	return graph_init((UndirectedGraph *)*mem, (index_t)s.n, a, b, w);
}
g_state g_get(void *p) {
	UndirectedGraph *g = (UndirectedGraph *)p; g_state s; s.n = (int64_t)g->numVertices;
	for (size_t i = 0; i < array_list_size(g->verticesA); i++) { index_t v = 0; array_list_value_at(g->verticesA, i, &v); s.a.push_back((int64_t)v); } for (size_t i = 0; i < array_list_size(g->verticesB); i++) { index_t v = 0; array_list_value_at(g->verticesB, i, &v); s.b.push_back((int64_t)v); }
	for (size_t i = 0; i < array_list_size(g->edgeWeights); i++) { distance_t v = 0; array_list_value_at(g->edgeWeights, i, &v); s.w.push_back(v); }
	for (int64_t k = 0; k < s.n; k++) { s.adj.push_back({}); for (size_t i = 0; i < array_list_size(g->edges[k]); i++) { index_t v = 0; array_list_value_at(g->edges[k], i, &v); s.adj.back().push_back((int64_t)v); } }
	return s;
}
void g_sort(void *p, int how, int64_t lo, int64_t hi) { UndirectedGraph *g = (UndirectedGraph *)p; if (how == 0) graph_quicksort_by_edge_weight(g); else graph_quicksort(g, lo, hi); }
void g_remove(void *p, int64_t a, int64_t b) { graph_remove_edge((UndirectedGraph *)p, (index_t)a, (index_t)b); }
void g_free(void *p, void *mem) { if (mem) { graph_clean((UndirectedGraph *)p); free(mem); } else graph_destroy((UndirectedGraph *)p); }
void g_print(void *p) { graph_print((UndirectedGraph *)p); }
void x_hierarchy(const std::vector<double> &w, const std::vector<std::vector<int64_t>> &labels, int64_t n, char *name, std::vector<double> &stored) {
	hashtable *t = hashtable_init(w.size() + 1, H_LONG, H_PTR, long_compare); std::vector<hierarchy_entry> e(w.size()); std::vector<std::vector<label_t>> l(w.size()); stored.clear();
	for (size_t i = 0; i < w.size(); i++) { e[i].edgeWeight = (distance_t)w[i]; for (int64_t x : labels[i]) l[i].push_back((label_t)x); e[i].labels = l[i].data(); int64_t k = (int64_t)i; hierarchy_entry *p = &e[i]; hashtable_insert(t, &k, &p); stored.push_back(e[i].edgeWeight); }
	hdbscan_print_hierarchies(t, (index_t)n, name); hashtable_destroy(t, NULL, NULL);
}
