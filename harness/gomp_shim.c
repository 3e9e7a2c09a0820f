/* A small replacement for libgomp, so that the schedule of the library's parallel
 * regions can be controlled and so that the thread sanitizer sees every
 * synchronisation.  Each region forks fresh threads and joins them, therefore no
 * happens-before edges exist besides those of the OpenMP program itself.
 * Modes: 0 free running; 1 free running with random delays at synchronisation
 * points; 2 one thread at a time, switching only at synchronisation points, in an
 * order drawn from the seed. */
#define _GNU_SOURCE
#include <pthread.h>
#include <stdlib.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include <time.h>
#include <sched.h>
#include <unistd.h>
#define MAXT 64

typedef struct ws { struct ws *next; int kind; long start, end, incr, chunk; unsigned long long ustart, uend, uincr, uchunk; int up, started; long taken; int done; int mode; } ws;
typedef struct { int n; void (*fn)(void *); void *data; pthread_mutex_t m; pthread_cond_t c, cs[MAXT]; int bar, gen; ws *first; int token; int runner; int state[MAXT]; uint64_t rng; void *copy; } team; /* state: 0 ready 1 blocked 2 done */
typedef struct ctx { team *t; int id; ws *cur; uint64_t rng; struct ctx *outer; } ctx;
static __thread ctx *me;
static __thread int nthr_tls;
static int nthr_global = 0;
static int g_mode = 0; static uint64_t g_seed = 1;
static long g_regions, g_switches, g_threads; static uint64_t g_hash = 1469598103934665603ull;

static uint64_t mix(uint64_t *s) { *s += 0x9e3779b97f4a7c15ull; uint64_t z = *s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
void shim_config(int mode, uint64_t seed) { g_mode = mode; g_seed = seed; }
void shim_stats(long *regions, long *threads, long *switches, uint64_t *hash) { *regions = __atomic_load_n(&g_regions, 5); *threads = __atomic_load_n(&g_threads, 5); *switches = __atomic_load_n(&g_switches, 5); *hash = __atomic_load_n(&g_hash, 5); }
static void note(uint64_t v) { uint64_t h = __atomic_load_n(&g_hash, 0); __atomic_store_n(&g_hash, (h ^ v) * 1099511628211ull, 0); }

static void delay(void) { if (g_mode == 1 && me) { uint64_t z = mix(&me->rng); if (z % 4 == 0) { struct timespec ts = { 0, (long)(z >> 8) % 60000 }; nanosleep(&ts, NULL); } else if (z % 4 == 1) sched_yield(); } }
/* ---- token mode ---- */
static void pick(team *t) { /* with t->m held: hand the token to a ready thread */
	int r[MAXT], k = 0; for (int i = 0; i < t->n; i++) if (t->state[i] == 0) r[k++] = i;
	t->runner = k ? r[mix(&t->rng) % (uint64_t)k] : -1;
	__atomic_add_fetch(&g_switches, 1, 0); note((uint64_t)t->runner + 3); if (t->runner >= 0) pthread_cond_signal(&t->cs[t->runner]);
}
static void wait_turn(ctx *c) { while (c->t->runner != c->id) pthread_cond_wait(&c->t->cs[c->id], &c->t->m); }
static ctx *holder(void) { ctx *c = me; while (c && !c->t->token) c = c->outer; return c; } /* also inside nested regions */
static void yield_token(void) { ctx *c = holder(); if (!c) return; team *t = c->t; pthread_mutex_lock(&t->m); pick(t); wait_turn(c); pthread_mutex_unlock(&t->m); }

static void *entry(void *a) {
	me = (ctx *)a; team *t = me->t;
	if (t->token) { pthread_mutex_lock(&t->m); wait_turn(me); pthread_mutex_unlock(&t->m); } else delay();
	t->fn(t->data);
	if (t->token) { pthread_mutex_lock(&t->m); t->state[me->id] = 2; pick(t); pthread_mutex_unlock(&t->m); }
	return NULL;
}
static int want(unsigned req) {
	if (me) return 1; /* nested regions are serialised, as in libgomp's default */
	int n = req ? (int)req : nthr_tls ? nthr_tls : __atomic_load_n(&nthr_global, 0);
	if (n <= 0) { const char *e = getenv("OMP_NUM_THREADS"); n = e ? atoi(e) : (int)sysconf(_SC_NPROCESSORS_ONLN); }
	return n < 1 ? 1 : n > MAXT ? MAXT : n;
}
static void region(void (*fn)(void *), void *data, unsigned req, ws *w0) {
	team t; memset(&t, 0, sizeof t); t.n = want(req); t.fn = fn; t.data = data; t.token = g_mode == 2 && t.n > 1 && !me; t.rng = g_seed ^ (uint64_t)__atomic_add_fetch(&g_regions, 1, 5) * 7919u;
	pthread_mutex_init(&t.m, NULL); pthread_cond_init(&t.c, NULL); if (t.token) for (int i = 0; i < t.n; i++) pthread_cond_init(&t.cs[i], NULL); t.first = w0; t.runner = -2;
	__atomic_add_fetch(&g_threads, t.n, 0);
	ctx c[MAXT]; pthread_t th[MAXT]; ctx *old = me;
	for (int i = 0; i < t.n; i++) { c[i].t = &t; c[i].id = i; c[i].cur = w0; c[i].outer = i ? NULL : old; c[i].rng = t.rng + (uint64_t)i * 104729u; }
	for (int i = 1; i < t.n; i++) if (pthread_create(&th[i], NULL, entry, &c[i])) { fprintf(stderr, "shim: cannot create a thread\n"); _exit(3); }
	if (t.token) { pthread_mutex_lock(&t.m); pick(&t); pthread_mutex_unlock(&t.m); }
	entry(&c[0]);
	for (int i = 1; i < t.n; i++) pthread_join(th[i], NULL);
	me = old;
	for (ws *w = t.first; w;) { ws *x = w->next; free(w); w = x; }
	pthread_mutex_destroy(&t.m); pthread_cond_destroy(&t.c);
}
void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { (void)flags; region(fn, data, n, NULL); }
/* ---- critical, atomic, barrier ---- */
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atom = PTHREAD_MUTEX_INITIALIZER, names = PTHREAD_MUTEX_INITIALIZER;
static void lock(pthread_mutex_t *m) { delay(); yield_token(); if (holder()) { while (pthread_mutex_trylock(m)) yield_token(); } else pthread_mutex_lock(m); }
static void unlock(pthread_mutex_t *m) { pthread_mutex_unlock(m); yield_token(); delay(); }
void GOMP_critical_start(void) { lock(&crit); } void GOMP_critical_end(void) { unlock(&crit); }
static pthread_mutex_t *named(void **p) { pthread_mutex_lock(&names); if (!*p) { *p = malloc(sizeof(pthread_mutex_t)); pthread_mutex_init(*p, NULL); } pthread_mutex_t *r = *p; pthread_mutex_unlock(&names); return r; }
void GOMP_critical_name_start(void **p) { lock(named(p)); } void GOMP_critical_name_end(void **p) { unlock(named(p)); }
void GOMP_atomic_start(void) { lock(&atom); } void GOMP_atomic_end(void) { unlock(&atom); }
void GOMP_barrier(void) {
	if (!me || me->t->n == 1) return; team *t = me->t; delay(); pthread_mutex_lock(&t->m); int g = t->gen;
	if (++t->bar == t->n) { t->bar = 0; t->gen++; for (int i = 0; i < t->n; i++) if (t->state[i] == 1) t->state[i] = 0; pthread_cond_broadcast(&t->c); if (t->token) { pick(t); wait_turn(me); } }
	else if (t->token) { t->state[me->id] = 1; pick(t); wait_turn(me); }
	else while (t->gen == g) pthread_cond_wait(&t->c, &t->m);
	pthread_mutex_unlock(&t->m);
}
/* ---- work sharing ---- */
static ws *next_ws(int *fresh) {
	team *t = me->t; pthread_mutex_lock(&t->m); ws **p = me->cur ? &me->cur->next : &t->first; *fresh = !*p;
	if (!*p) *p = calloc(1, sizeof(ws));
	me->cur = *p; return *p; /* t->m stays locked */
}
static int take(ws *w, long *s, long *e) {
	delay(); yield_token(); pthread_mutex_lock(&me->t->m); long i = w->start; int ok = w->incr > 0 ? i < w->end : i > w->end;
	if (ok) { long c = w->chunk > 0 ? w->chunk : 1; long n = i + c * w->incr; if (w->incr > 0 ? n > w->end : n < w->end) n = w->end; *s = i; *e = n; w->start = n; }
	pthread_mutex_unlock(&me->t->m); return ok;
}
static int utake(ws *w, unsigned long long *s, unsigned long long *e) {
	delay(); yield_token(); pthread_mutex_lock(&me->t->m); unsigned long long i = w->ustart; int ok = w->up ? i < w->uend : i > w->uend;
	if (ok) { unsigned long long c = w->uchunk ? w->uchunk : 1, left = w->up ? w->uend - i : i - w->uend, st = w->up ? c * w->uincr : c * (0 - w->uincr); if (st > left) st = left; *s = i; *e = w->up ? i + st : i - st; w->ustart = *e; }
	pthread_mutex_unlock(&me->t->m); return ok;
}
#define LOOP(N) \
_Bool GOMP_loop_##N##_start(long s, long e, long inc, long ch, long *is, long *ie) { int f; ws *w = next_ws(&f); if (f) { w->start = s; w->end = e; w->incr = inc; w->chunk = ch; } pthread_mutex_unlock(&me->t->m); return take(w, is, ie); } \
_Bool GOMP_loop_##N##_next(long *is, long *ie) { return take(me->cur, is, ie); } \
_Bool GOMP_loop_ull_##N##_start(_Bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long ch, unsigned long long *is, unsigned long long *ie) { int f; ws *w = next_ws(&f); if (f) { w->up = up; w->ustart = s; w->uend = e; w->uincr = inc; w->uchunk = ch; } pthread_mutex_unlock(&me->t->m); return utake(w, is, ie); } \
_Bool GOMP_loop_ull_##N##_next(unsigned long long *is, unsigned long long *ie) { return utake(me->cur, is, ie); } \
void GOMP_parallel_loop_##N(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, long ch, unsigned fl) { (void)fl; ws *w = calloc(1, sizeof(ws)); w->start = s; w->end = e; w->incr = inc; w->chunk = ch; region(fn, data, n, w); }
LOOP(dynamic) LOOP(guided) LOOP(static) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define RLOOP(N) \
_Bool GOMP_loop_##N##_start(long s, long e, long inc, long *is, long *ie) { return GOMP_loop_dynamic_start(s, e, inc, 1, is, ie); } \
_Bool GOMP_loop_##N##_next(long *is, long *ie) { return take(me->cur, is, ie); } \
_Bool GOMP_loop_ull_##N##_start(_Bool up, unsigned long long s, unsigned long long e, unsigned long long inc, unsigned long long *is, unsigned long long *ie) { return GOMP_loop_ull_dynamic_start(up, s, e, inc, 1, is, ie); } \
_Bool GOMP_loop_ull_##N##_next(unsigned long long *is, unsigned long long *ie) { return utake(me->cur, is, ie); } \
void GOMP_parallel_loop_##N(void (*fn)(void *), void *data, unsigned n, long s, long e, long inc, unsigned fl) { GOMP_parallel_loop_dynamic(fn, data, n, s, e, inc, 1, fl); }
RLOOP(runtime) RLOOP(nonmonotonic_runtime) RLOOP(maybe_nonmonotonic_runtime)
void GOMP_loop_end(void) { GOMP_barrier(); } void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_next(void) { delay(); yield_token(); pthread_mutex_lock(&me->t->m); ws *w = me->cur; unsigned r = w->taken < w->end ? (unsigned)++w->taken : 0; pthread_mutex_unlock(&me->t->m); return r; }
unsigned GOMP_sections_start(unsigned n) { int f; ws *w = next_ws(&f); if (f) w->end = n; pthread_mutex_unlock(&me->t->m); return GOMP_sections_next(); }
void GOMP_sections_end(void) { GOMP_barrier(); } void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *data, unsigned n, unsigned count, unsigned fl) { (void)fl; ws *w = calloc(1, sizeof(ws)); w->end = count; region(fn, data, n, w); }
_Bool GOMP_single_start(void) { if (!me) return 1; int f; next_ws(&f); pthread_mutex_unlock(&me->t->m); return f; }
void *GOMP_single_copy_start(void) { if (!me || GOMP_single_start()) return 0; GOMP_barrier(); return me->t->copy; } /* copyprivate */
void GOMP_single_copy_end(void *d) { if (me) me->t->copy = d; GOMP_barrier(); }
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, _Bool c, unsigned flags, void **dep, int prio, void *det) {
	(void)c; (void)flags; (void)dep; (void)prio; (void)det; if (!cpy) { fn(data); return; } char *b = malloc((size_t)(size + align)); char *a = (char *)(((uintptr_t)b + (uintptr_t)align - 1) / (uintptr_t)align * (uintptr_t)align); cpy(a, data); fn(a); free(b); }
void GOMP_taskwait(void) {} void GOMP_taskyield(void) {} void GOMP_taskgroup_start(void) {} void GOMP_taskgroup_end(void) {}
/* ---- runtime routines ---- */
int omp_get_thread_num(void) { return me ? me->id : 0; } int omp_get_num_threads(void) { return me ? me->t->n : 1; }
int omp_get_max_threads(void) { return me ? 1 : want(0); } int omp_get_num_procs(void) { return (int)sysconf(_SC_NPROCESSORS_ONLN); } int omp_in_parallel(void) { return me && me->t->n > 1; }
void omp_set_num_threads(int n) { nthr_tls = n; } void omp_set_dynamic(int x) { (void)x; } int omp_get_dynamic(void) { return 0; } void omp_set_nested(int x) { (void)x; } int omp_get_nested(void) { return 0; } int omp_get_level(void) { return me ? 1 : 0; } int omp_get_thread_limit(void) { return MAXT; }
double omp_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + 1e-9 * (double)t.tv_nsec; }
typedef struct { pthread_mutex_t *m; } ol;
void omp_init_lock(ol *l) { l->m = malloc(sizeof *l->m); pthread_mutex_init(l->m, NULL); } void omp_destroy_lock(ol *l) { pthread_mutex_destroy(l->m); free(l->m); }
void omp_set_lock(ol *l) { lock(l->m); } void omp_unset_lock(ol *l) { unlock(l->m); } int omp_test_lock(ol *l) { yield_token(); return !pthread_mutex_trylock(l->m); }
