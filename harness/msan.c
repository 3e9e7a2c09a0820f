/* C14: cases from a file, run under the memory sanitizer; every published value is
 * checked for initialisation.  Plain C, because libstdc++ is not instrumented. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <fcntl.h>
#include <sanitizer/msan_interface.h>
#include "adapter.h"
static int fd = 2; static char cur[64]; static long checks, evals, viols;
static void line(const char *s) { if (write(fd, s, strlen(s)) < 0) _exit(3); }
static void chk(const void *p, size_t n, const char *what) { checks++; if (!p || !n) return; long k = (long)__msan_test_shadow(p, n); if (k >= 0 && viols++ < 5) { char b[300]; snprintf(b, sizeof b, "V uninitialised-%s\t%s\tbyte %ld of %zu bytes published as %s was never initialised\n", what, cur, k, n, what); line(b); } }
static void snap(void *o) {
	ad_snap *s = ad_snapshot(o, 100000); size_t n = (size_t)s->n;
	chk(s->core, n * 8, "core"); chk(s->dist, n * n * 8, "distance"); chk(s->ea, (size_t)s->nA * 8, "edge"); chk(s->eb, (size_t)s->nB * 8, "edge"); chk(s->ew, (size_t)s->nW * 8, "weight");
	for (int64_t k = 0; k < s->nlines; k++) { chk(&s->lineWeight[k], 8, "line"); if (s->lineLabels[k]) chk(s->lineLabels[k], n * 8, "line"); }
	for (int64_t k = 0; k < s->nclusters; k++) { ad_cluster *c = s->clusters + k; if (!c->present) continue; chk(&c->label, 8, "cluster"); chk(&c->parent, 8, "cluster"); chk(&c->birth, 8, "cluster"); chk(&c->death, 8, "cluster"); chk(&c->numPoints, 8, "cluster"); chk(&c->offset, 8, "cluster"); chk(&c->stability, 8, "cluster"); chk(&c->pstability, 8, "cluster"); chk(&c->pdeath, 8, "cluster"); chk(&c->constraints, 8, "cluster"); chk(&c->pconstraints, 8, "cluster"); chk(&c->hasChildren, sizeof c->hasChildren, "cluster"); if (c->nvirtual > 0) chk(c->virt, (size_t)c->nvirtual * 8, "cluster"); if (c->ndesc > 0) chk(c->desc, (size_t)c->ndesc * 8, "cluster"); }
	if (s->labels) chk(s->labels, n * 8, "label"); if (s->score) { chk(s->score, n * 8, "score"); chk(s->scoreCore, n * 8, "score"); chk(s->scoreId, n * 8, "score"); }
	ad_snap_free(s);
}
static void analysis(void *o) {
	void *m = ad_map_of(o); int64_t k = ad_map_size(m); int64_t *l = calloc((size_t)k + 1000, 8), *out = calloc((size_t)k + 2, 8); chk(&k, 8, "map");
	void *d = ad_ranges(o, m); ad_stats st; memset(&st, 0, sizeof st); ad_range *g = calloc((size_t)k + 1, sizeof *g); ad_ranges_get(d, g, k); chk(g, (size_t)k * sizeof *g, "new range"); ad_stats_compute(d, &st, -1); ad_ranges_get(d, g, k); chk(g, (size_t)k * sizeof *g, "range"); chk(&st, sizeof st, "statistics");
	int v = ad_stats_analyse(&st); chk(&v, sizeof v, "validity");
	for (int j = 0; j < 3; j++) { ad_sort(j ? d : m, j, NULL, 0, out, k); chk(out, (size_t)k * 8, "sort"); }
	ad_ranges_destroy(d); ad_map_destroy(m); free(l); free(out); free(g);
}
int main(int argc, char **argv) {
	if (argc < 8) return 3; const char *e = getenv("EV"); if (e) fd = open(e, O_WRONLY | O_CREAT | O_APPEND, 0644);
	long shard = atol(argv[3]), shards = atol(argv[4]), count = atol(argv[5]); long only = getenv("ONLY") ? atol(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atol(getenv("SKIP")) : -1;
	FILE *f = fopen(argv[7], "rb"); if (!f) return 3; char b[300];
	for (long k = 0; k < count; k++) {
		int64_t h[8]; if (fread(h, 8, 8, f) != 8) return 3; char *p = malloc((size_t)h[6] ? (size_t)h[6] : 1); if (fread(p, 1, (size_t)h[6], f) != (size_t)h[6]) return 3;
		if (k % shards == shard && (only < 0 || k == only) && k > skip) {
			snprintf(cur, sizeof cur, "C14m:%s:%ld", argv[2], k); snprintf(b, sizeof b, "B %s type %d %ldx%ld rowwise %d minPts %ld then %ld\n", cur, (int)h[0], (long)h[1], (long)h[2], (int)h[3], (long)h[4], (long)h[5]); line(b); evals++;
			void *o = ad_new(h[4]); ad_run(o, p, h[1], h[2], (int)h[3], (int)h[0]); snap(o); analysis(o); ad_rerun(o, h[5]); snap(o); if (k % 3 == 0) { ad_run(o, p, h[1], h[2], (int)h[3], (int)h[0]); snap(o); } ad_destroy(o);
			if (h[1] > 2) { snprintf(b, sizeof b, "N %016llx\n", (unsigned long long)h[7]); line(b); }
		}
		free(p);
	}
	snprintf(b, sizeof b, "C evaluations %ld\nC values_checked %ld\nD\n", evals, checks); line(b); return 0;
}
