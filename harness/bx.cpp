#include <string>
#include <new>
#include "hdbscan/hdbscan.hpp"
#include <stdlib.h>
#include <string.h>
#include "bx.h"
using namespace clustering;
struct Any { void *p; template <class T> operator T *() const { return (T *)p; } };
static Any xalloc(size_t n) { Any a; a.p = calloc(n ? n : 1, 1); if (!a.p) abort(); return a; }
extern "C" {
#define SNAPSHOT bx_snapshot
#include "snapshot.h"
}
#define O ((hdbscan *)o)
size_t bx_sizeof() { return sizeof(hdbscan); }
void *bx_new(int64_t m) { return m < 0 ? new hdbscan() : new hdbscan((index_t)m); }
void bx_delete(void *o) { delete O; }
void *bx_place(void *mem, int64_t m) { return m < 0 ? new (mem) hdbscan() : new (mem) hdbscan((index_t)m); }
void bx_unplace(void *o) { O->~hdbscan(); }
struct Arr { hdbscan *a; };
void *bx_array(int64_t n) { Arr *a = new Arr; a->a = new hdbscan[(size_t)n]; return a; }
void *bx_array_at(void *a, int64_t i) { return ((Arr *)a)->a + i; }
void bx_array_delete(void *a) { delete[] ((Arr *)a)->a; delete (Arr *)a; }
void bx_auto(int64_t m, const std::function<void(void *)> &f) { if (m < 0) { hdbscan s; f(&s); } else { hdbscan s((index_t)m); f(&s); } }
struct Holder { int before; hdbscan s; int after; Holder(int64_t m) : before(11), s((index_t)m), after(12) {} };
void bx_member(int64_t m, const std::function<void(void *)> &f) { try { Holder h(m < 0 ? 3 : m); f(&h.s); if (h.before != 11 || h.after != 12) abort(); throw 5; } catch (int) {} }
void bx_run(void *o, void *d, int64_t r, int64_t c, int rw, int dt) { O->run(d, (index_t)r, (index_t)c, rw, (index_t)ad_htype(dt)); }
void bx_rerun(void *o, int64_t m) { O->reRun((index_t)m); }
void bx_clean(void *o) { O->clean(); }
void bx_steps(void *o, void *d, int64_t rows, int64_t cols, int dt, int compact, double *noise, int64_t *last, int *inf, int again) {
	(void)again; ad_step_distances(o, d, rows, cols, dt); O->constructMST(); ad_step_sort(o); int64_t n = rows;
	distance_t *nl = (distance_t *)calloc((size_t)n + 1, sizeof(distance_t)); label_t *lc = (label_t *)calloc((size_t)n + 1, sizeof(label_t));
	O->computeHierarchyAndClusterTree(compact, nl, lc); *inf = O->propagateTree() != 0; O->findProminentClusters(*inf); O->calculateOutlierScores(nl, lc, *inf);
	for (int64_t i = 0; i < n; i++) { noise[i] = nl[i]; last[i] = (int64_t)lc[i]; } free(nl); free(lc);
}
void bx_distance(int ctor, int64_t before, void *data, int64_t rows, int64_t cols, int dt, int64_t k1, int64_t k2, double *core1, double *core2, double *dist) {
	auto use = [&](Distance &d) { if (before) distance_compute(&d, data, (index_t)before, (index_t)cols, (index_t)k2); /* an object used before */ distance_compute(&d, data, (index_t)rows, (index_t)cols, (index_t)k1); for (int64_t i = 0; i < rows; i++) { core1[i] = d.coreDistances[i]; for (int64_t j = 0; j < rows; j++) dist[i * rows + j] = distance_get(&d, (index_t)i, (index_t)j); }
		d.getCoreDistances((index_t)k2); for (int64_t i = 0; i < rows; i++) core2[i] = d.coreDistances[i]; };
	enum HTYPES t = (enum HTYPES)ad_htype(dt);
	if (ctor == 0) { Distance d; d.datatype = t; use(d); } else if (ctor == 1) { Distance d(_EUCLIDEAN); d.datatype = t; use(d); } else if (ctor == 2) { Distance d(_EUCLIDEAN, t); use(d); } else { Distance *d = new Distance(_EUCLIDEAN, t); use(*d); delete d; }
}
void bx_graph() { { UndirectedGraph g; } UndirectedGraph *g = new UndirectedGraph(); delete g; }
