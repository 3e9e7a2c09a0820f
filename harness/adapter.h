/* Plain-typed view of the library's public C interface.
 * The only file besides the language-specific harnesses that includes the
 * library's headers is adapter.c; everything else works on these types, so the
 * same oracle objects serve every configuration of the library. */
#ifndef ADAPTER_H
#define ADAPTER_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif

enum { DT_INT, DT_DOUBLE, DT_FLOAT, DT_LONG, DT_SHORT, DT_CHAR, DT_COUNT };

typedef struct {
	int present;              /* 0 for a NULL entry */
	int64_t label, parent;    /* parent: label, or -1 for none */
	double birth, death;
	int64_t numPoints, offset;
	double stability, pstability, pdeath;
	int64_t constraints, pconstraints;
	int hasChildren;
	int64_t nvirtual, *virt;  /* -1: no virtual child set */
	int64_t vhas, vmiss;      /* points the set claims to contain (-1: not asked); a member it denies, or -1 */
	int64_t ndesc, *desc;     /* labels of the propagated descendants */
} ad_cluster;

typedef struct {
	int64_t n, minPoints;
	double *core;             /* n */
	double *dist;             /* n*n, or NULL if n is above the limit given */
	int64_t nA, nB, nW, *ea, *eb; double *ew;
	int64_t nclusters; ad_cluster *clusters;
	int64_t nlines, *lineKey; double *lineWeight; int64_t **lineLabels; /* in increasing key order */
	int hasLabels; int64_t *labels;
	int hasScores; double *score, *scoreCore; int64_t *scoreId;
} ad_snap;

typedef struct { int distance_is_float; double dmax, dmin; int label_bytes, index_bytes, distance_bytes; } ad_conf;
void ad_config(ad_conf *c);

void *ad_new(int64_t minPts);                       /* heap object */
void *ad_new_in(void *storage, int64_t minPts);     /* object in caller's memory */
size_t ad_sizeof(void);
int  ad_run(void *o, void *data, int64_t rows, int64_t cols, int rowwise, int dtype);
int  ad_rerun(void *o, int64_t minPts);
void ad_constrain(void *o, int64_t k);                /* attach a list of k constraints, which the object then owns */
void ad_clean(void *o);
void ad_destroy(void *o);
double ad_distance(void *o, int64_t i, int64_t j);
double ad_core(void *o, int64_t i);
int64_t ad_numpoints(void *o);
int ad_is_clean(void *o);                           /* 1 if no result pointer is set */
int ad_htype(int dtype);

ad_snap *ad_snapshot(void *o, int64_t distlimit);
void ad_snap_free(ad_snap *s);

/* step by step */
void ad_step_distances(void *o, void *data, int64_t rows, int64_t cols, int dtype);
int  ad_step_mst(void *o);
void ad_step_sort(void *o);
void ad_step_hierarchy(void *o, int compact, double *noise, int64_t *last); /* n each */
int  ad_step_propagate(void *o);
void ad_step_flat(void *o, int infinite);
void ad_step_scores(void *o, const double *noise, const int64_t *last, int infinite);

/* cluster analysis */
typedef struct { double min_cr, max_cr, cr_conf, min_dr, max_dr, dr_conf; int64_t label; } ad_range;
typedef struct { int64_t count; double v[2][6]; } ad_stats; /* [core,intra][mean,sd,variance,max,kurtosis,skewness] */
void *ad_map_create(const int64_t *labels, int64_t nlabels, int64_t begin, int64_t end);
void *ad_map_of(void *o);                            /* map of the object's own flat labels */
int64_t ad_map_size(void *m);
int64_t ad_map_key(void *m, int64_t k);              /* k-th key of the key set */
int64_t ad_map_list(void *m, int64_t label, int64_t *out, int64_t max); /* -1 if the label is absent */
void ad_map_destroy(void *m);
void ad_map_drop(void *m, int64_t label);            /* take a cluster out of the map, for example the noise */
void *ad_map_fake(const int64_t *labels, const int64_t *sizes, int64_t n); /* lists of the given sizes */
void *ad_map_lists(const int64_t *labels, const int64_t *sizes, const int64_t *members, int64_t n);
void *ad_ranges(void *o, void *map);
void *ad_ranges_fake(const ad_range *r, int64_t n);  /* a distance map with these values */
int64_t ad_ranges_get(void *dm, ad_range *out, int64_t max);
void ad_ranges_destroy(void *dm);
void ad_stats_compute(void *dm, ad_stats *st, int poison); /* poison: byte pattern put into the structure first, or -1 to keep st */
void ad_stats_helper(const double *cr, const double *dr, int64_t n, ad_stats *st);
int  ad_stats_analyse(const ad_stats *st);
/* mode: 0 length, 1 core similarity, 2 intra similarity; in==NULL: no list given */
int64_t ad_sort(void *table, int mode, const int64_t *in, int64_t nin, int64_t *out, int64_t max);

/* printing */
void ad_print_map(void *map); void ad_print_sizes(void *map); void ad_print_ranges(void *dm);
void ad_print_stats(const ad_stats *st); void ad_print_scores(void *o); void ad_print_distances(void *o);
void ad_print_graph(void *o); void ad_print_hierarchy(void *o, char *filename);

#ifdef __cplusplus
}
#endif
#endif
