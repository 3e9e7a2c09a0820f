#include "hdbscan/hdbscan.h"
#include "hdbscan/logger.h"
#include <stdlib.h>
#include <string.h>
#include <float.h>
#include "adapter.h"

static void *xalloc(size_t n) { void *p = calloc(n ? n : 1, 1); if (!p) abort(); return p; }

void ad_config(ad_conf *c) {
	c->distance_is_float = sizeof(distance_t) == sizeof(float);
	c->dmax = D_MAX; c->dmin = D_MIN;
	c->label_bytes = sizeof(label_t); c->index_bytes = sizeof(index_t); c->distance_bytes = sizeof(distance_t);
}
int ad_htype(int d) {
	switch (d) { case DT_INT: return H_INT; case DT_DOUBLE: return H_DOUBLE; case DT_FLOAT: return H_FLOAT;
	case DT_LONG: return H_LONG; case DT_SHORT: return H_SHORT; default: return H_CHAR; }
}
void *ad_new(int64_t m) { return hdbscan_init(NULL, (index_t)m); }
void *ad_new_in(void *st, int64_t m) { return hdbscan_init((hdbscan *)st, (index_t)m); }
size_t ad_sizeof(void) { return sizeof(hdbscan); }
int ad_run(void *o, void *d, int64_t r, int64_t c, int rw, int dt) {
	return hdbscan_run((hdbscan *)o, d, (index_t)r, (index_t)c, rw, (index_t)ad_htype(dt));
}
int ad_rerun(void *o, int64_t m) { return hdbscan_rerun((hdbscan *)o, (index_t)m); }
constraint *constraint_create(constraint *, int, int, CONSTRAINT_TYPE);
void ad_constrain(void *o, int64_t k) { hdbscan *h = o; if (!h->constraints) h->constraints = array_list_init((size_t)(k > 0 ? k : 1), sizeof(constraint *), NULL); for (int64_t i = 0; i < k; i++) { constraint *c = constraint_create(NULL, (int)i, (int)i + 1, i % 2 ? MUST_LINK : CANNOT_LINK); array_list_append(h->constraints, &c); } }
void ad_clean(void *o) { hdbscan_clean((hdbscan *)o); }
void ad_destroy(void *o) { hdbscan_destroy((hdbscan *)o); }
double ad_distance(void *o, int64_t i, int64_t j) { return distance_get(&((hdbscan *)o)->distanceFunction, (index_t)i, (index_t)j); }
double ad_core(void *o, int64_t i) { return ((hdbscan *)o)->distanceFunction.coreDistances[i]; }
int64_t ad_numpoints(void *o) { return ((hdbscan *)o)->numPoints; }
int ad_is_clean(void *o) {
	hdbscan *s = (hdbscan *)o;
	return !s->clusterLabels && !s->outlierScores && !s->mst && !s->hierarchy && !s->clusters
		&& !s->distanceFunction.distances && !s->distanceFunction.coreDistances;
}

#define SNAPSHOT ad_snapshot
#include "snapshot.h"
void ad_snap_free(ad_snap *s) {
	if (!s) return;
	for (int64_t i = 0; i < s->nclusters; i++) { free(s->clusters[i].virt); free(s->clusters[i].desc); }
	for (int64_t i = 0; i < s->nlines; i++) free(s->lineLabels[i]);
	free(s->core); free(s->dist); free(s->ea); free(s->eb); free(s->ew); free(s->clusters);
	free(s->lineKey); free(s->lineWeight); free(s->lineLabels); free(s->labels); free(s->score); free(s->scoreCore); free(s->scoreId);
	free(s);
}

/* ---- step by step, the way hdbscan_run does it ---- */
void ad_step_distances(void *o, void *d, int64_t rows, int64_t cols, int dt) {
	hdbscan *s = (hdbscan *)o;
	hdbscan_clean(s);
	distance_init(&s->distanceFunction, _EUCLIDEAN, (enum HTYPES)ad_htype(dt));
	s->numPoints = (index_t)rows;
	distance_compute(&s->distanceFunction, d, (index_t)rows, (index_t)cols, (index_t)(s->minPoints - 1));
	size_t cs = (size_t)rows / 5 < 4 ? 4 : (size_t)rows / 5;
	s->clusters = ptr_array_list_init(cs, cluster_compare);
	s->clusterStabilities = hashtable_init(cs, H_INT, H_PTR, int_compare);
	s->hierarchy = hashtable_init(cs, H_LONG, H_PTR, long_compare);
}
int ad_step_mst(void *o) { return hdbscan_construct_mst((hdbscan *)o); }
void ad_step_sort(void *o) { graph_quicksort_by_edge_weight(((hdbscan *)o)->mst); }
void ad_step_hierarchy(void *o, int compact, double *noise, int64_t *last) {
	hdbscan *s = (hdbscan *)o;
	int64_t n = s->numPoints;
	distance_t *nl = xalloc(sizeof(distance_t) * n); label_t *lc = xalloc(sizeof(label_t) * n);
	hdbscan_compute_hierarchy_and_cluster_tree(s, compact, nl, lc);
	for (int64_t i = 0; i < n; i++) { noise[i] = nl[i]; last[i] = (int64_t)lc[i]; }
	free(nl); free(lc);
}
int ad_step_propagate(void *o) { return hdbscan_propagate_tree((hdbscan *)o); }
void ad_step_flat(void *o, int inf) { hdbscan_find_prominent_clusters((hdbscan *)o, inf); }
void ad_step_scores(void *o, const double *noise, const int64_t *last, int inf) {
	hdbscan *s = (hdbscan *)o;
	int64_t n = s->numPoints;
	distance_t *nl = xalloc(sizeof(distance_t) * n); label_t *lc = xalloc(sizeof(label_t) * n);
	for (int64_t i = 0; i < n; i++) { nl[i] = (distance_t)noise[i]; lc[i] = (label_t)last[i]; }
	hdbscsan_calculate_outlier_scores(s, nl, lc, inf);
	free(nl); free(lc);
}

/* ---- analysis ---- */
void *ad_map_create(const int64_t *labels, int64_t nlabels, int64_t begin, int64_t end) {
	label_t *l = xalloc(sizeof(label_t) * nlabels);
	for (int64_t i = 0; i < nlabels; i++) l[i] = (label_t)labels[i];
	hashtable *m = hdbscan_create_cluster_map(l, (index_t)begin, (index_t)end);
	free(l);
	return m;
}
void *ad_map_of(void *o) { return hdbscan_create_cluster_map(((hdbscan *)o)->clusterLabels, 0, ((hdbscan *)o)->numPoints); }
int64_t ad_map_size(void *m) { return (int64_t)hashtable_size((hashtable *)m); }
int64_t ad_map_key(void *m, int64_t k) { label_t l = 0; set_value_at(((hashtable *)m)->keys, (size_t)k, &l); return (int64_t)l; }
int64_t ad_map_list(void *m, int64_t label, int64_t *out, int64_t max) {
	label_t l = (label_t)label; ArrayList *a = NULL;
	if (!hashtable_lookup((hashtable *)m, &l, &a) || !a) return -1;
	for (int64_t i = 0; i < (int64_t)a->size && i < max; i++) out[i] = (int64_t)((index_t *)a->data)[i];
	return (int64_t)a->size;
}
void ad_map_destroy(void *m) { hdbscan_destroy_cluster_map((hashtable *)m); }
static hashtable *label_table(int64_t n) {
	if (sizeof(label_t) == sizeof(int)) return hashtable_init((size_t)n, H_INT, H_PTR, int_compare);
	if (sizeof(label_t) == sizeof(long)) return hashtable_init((size_t)n, H_LONG, H_PTR, long_compare);
	return hashtable_init((size_t)n, H_SHORT, H_PTR, short_compare);
}
void *ad_map_fake(const int64_t *labels, const int64_t *sizes, int64_t n) {
	hashtable *t = label_table(n);
	for (int64_t i = 0; i < n; i++) {
		ArrayList *a = array_list_init((size_t)(sizes[i] + 1 + ((uint64_t)labels[i] * 7919 + (uint64_t)i * 37) % 211 * (i % 3 ? 1 : 0) + ((uint64_t)labels[i] * 31) % 7), sizeof(index_t), int_compare); /* room unrelated to the size */
		for (int64_t j = 0; j < sizes[i]; j++) { index_t v = (index_t)j; array_list_append(a, &v); }
		label_t l = (label_t)labels[i];
		hashtable_insert(t, &l, &a);
	}
	return t;
}
void ad_map_drop(void *m, int64_t label) { label_t l = (label_t)label; ArrayList *a = NULL; hashtable_remove((hashtable *)m, &l, &a); if (a) array_list_delete(a); }
void *ad_ranges(void *o, void *map) { return hdbscan_get_min_max_distances((hdbscan *)o, (hashtable *)map); }
void *ad_ranges_fake(const ad_range *r, int64_t n) {
	hashtable *t = label_table(n);
	for (int64_t i = 0; i < n; i++) {
		distance_values *d = malloc(sizeof *d);
		d->min_cr = (distance_t)r[i].min_cr; d->max_cr = (distance_t)r[i].max_cr; d->cr_confidence = (distance_t)r[i].cr_conf;
		d->min_dr = (distance_t)r[i].min_dr; d->max_dr = (distance_t)r[i].max_dr; d->dr_confidence = (distance_t)r[i].dr_conf;
		label_t l = (label_t)r[i].label;
		hashtable_insert(t, &l, &d);
	}
	return t;
}
int64_t ad_ranges_get(void *dm, ad_range *out, int64_t max) {
	hashtable *t = (hashtable *)dm;
	int64_t n = (int64_t)set_size(t->keys);
	for (int64_t i = 0; i < n && i < max; i++) {
		label_t l = ((label_t *)t->keys->data)[i]; distance_values *d = NULL;
		out[i].label = (int64_t)l;
		hashtable_lookup(t, &l, &d);
		if (!d) { out[i].label = -1; continue; }
		out[i].min_cr = d->min_cr; out[i].max_cr = d->max_cr; out[i].cr_conf = d->cr_confidence;
		out[i].min_dr = d->min_dr; out[i].max_dr = d->max_dr; out[i].dr_conf = d->dr_confidence;
	}
	return n;
}
void ad_ranges_destroy(void *dm) { hdbscan_destroy_distance_map((hashtable *)dm); }
static void st_out(const clustering_stats *s, ad_stats *o) {
	const stats_values *v[2] = { &s->coreDistanceValues, &s->intraDistanceValues };
	o->count = (int64_t)s->count;
	for (int k = 0; k < 2; k++) {
		o->v[k][0] = v[k]->mean; o->v[k][1] = v[k]->standardDev; o->v[k][2] = v[k]->variance;
		o->v[k][3] = v[k]->max; o->v[k][4] = v[k]->kurtosis; o->v[k][5] = v[k]->skewness;
	}
}
static void st_in(const ad_stats *o, clustering_stats *s) {
	stats_values *v[2] = { &s->coreDistanceValues, &s->intraDistanceValues };
	s->count = (index_t)o->count;
	for (int k = 0; k < 2; k++) {
		v[k]->mean = (distance_t)o->v[k][0]; v[k]->standardDev = (distance_t)o->v[k][1]; v[k]->variance = (distance_t)o->v[k][2];
		v[k]->max = (distance_t)o->v[k][3]; v[k]->kurtosis = (distance_t)o->v[k][4]; v[k]->skewness = (distance_t)o->v[k][5];
	}
}
void ad_stats_compute(void *dm, ad_stats *st, int poison) {
	clustering_stats s;
	if (poison >= 0) memset(&s, poison, sizeof s); else st_in(st, &s);
	hdbscan_calculate_stats((hashtable *)dm, &s);
	st_out(&s, st);
}
void ad_stats_helper(const double *cr, const double *dr, int64_t n, ad_stats *st) {
	clustering_stats s; memset(&s, 0x5a, sizeof s);
	distance_t *a = xalloc(sizeof(distance_t) * n), *b = xalloc(sizeof(distance_t) * n);
	for (int64_t i = 0; i < n; i++) { a[i] = (distance_t)cr[i]; b[i] = (distance_t)dr[i]; }
	s.count = (index_t)n;
	hdbscan_calculate_stats_helper(a, b, &s);
	st_out(&s, st); free(a); free(b);
}
int ad_stats_analyse(const ad_stats *st) { clustering_stats s; memset(&s, 0, sizeof s); st_in(st, &s); return hdbscan_analyse_stats(&s); }
int64_t ad_sort(void *table, int mode, const int64_t *in, int64_t nin, int64_t *out, int64_t max) {
	ArrayList *l = NULL;
	if (in) {
		l = array_list_init((size_t)nin + 1, sizeof(label_t), int_compare);
		for (int64_t i = 0; i < nin; i++) { label_t v = (label_t)in[i]; array_list_append(l, &v); }
	}
	ArrayList *r = mode == 0 ? hdbscan_sort_by_length((hashtable *)table, l)
		: hdbscan_sort_by_similarity((hashtable *)table, l, mode == 1 ? CORE_DISTANCE_TYPE : INTRA_DISTANCE_TYPE);
	int64_t n = r ? (int64_t)r->size : -1;
	for (int64_t i = 0; i < n && i < max; i++) out[i] = (int64_t)((label_t *)r->data)[i];
	if (l && r != l) array_list_delete(l);
	if (r) array_list_delete(r);
	return n;
}

/* ---- printing ---- */
void ad_print_map(void *m) { hdbscan_print_cluster_map((hashtable *)m); }
void ad_print_sizes(void *m) { hdbscan_print_cluster_sizes((hashtable *)m); }
void ad_print_ranges(void *d) { hdbscan_print_distance_map((hashtable *)d); }
void ad_print_stats(const ad_stats *st) { clustering_stats s; memset(&s, 0, sizeof s); st_in(st, &s); hdbscan_print_stats(&s); }
void ad_print_scores(void *o) { hdbscan_print_outlier_scores(((hdbscan *)o)->outlierScores, ((hdbscan *)o)->numPoints); }
void ad_print_distances(void *o) { distances_print(&((hdbscan *)o)->distanceFunction); }
void ad_print_graph(void *o) { graph_print(((hdbscan *)o)->mst); }
void ad_print_hierarchy(void *o, char *f) { hdbscan_print_hierarchies(((hdbscan *)o)->hierarchy, ((hdbscan *)o)->numPoints, f); }

/* a cluster table with the given members in the given order */
void *ad_map_lists(const int64_t *labels, const int64_t *sizes, const int64_t *members, int64_t n) {
	hashtable *t = label_table(n);
	for (int64_t i = 0, k = 0; i < n; i++) {
		ArrayList *a = array_list_init((size_t)sizes[i] + 1, sizeof(index_t), int_compare);
		for (int64_t j = 0; j < sizes[i]; j++, k++) { index_t v = (index_t)members[k]; array_list_append(a, &v); }
		label_t l = (label_t)labels[i];
		hashtable_insert(t, &l, &a);
	}
	return t;
}

/* In a debug build the log file is a link to standard output, which is reopened when that changes. */
#ifdef DEBUG
#include <unistd.h>
__attribute__((weak)) int ad_own_log; // set by a harness that opens the log itself
static __attribute__((constructor)) void log_start(void) { if (ad_own_log) return; if (symlink("/proc/self/fd/1", "hdbscan.log")) {} logger_init(); }
void ad_capture(void) { if (ad_own_log) return; logger_close(); logger_init(); }
int ad_debug(void) { return 1; }
#else
void ad_capture(void) { }
int ad_debug(void) { return 0; }
#endif
