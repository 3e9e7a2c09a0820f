/* Accounting of the memory blocks the linked objects allocate (ld --wrap). */
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <pthread.h>
#include "wrap.h"
void *__real_malloc(size_t), *__real_calloc(size_t, size_t), *__real_realloc(void *, size_t); void __real_free(void *);
#define CAP (1u << 20)
typedef struct { void *p; size_t n; void *who; long id; } ent;
static ent *tab; static long used, live, bytes, next_id = 1, total; static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER;
static unsigned slot(void *p) { uint64_t z = (uint64_t)(uintptr_t)p * 0x9e3779b97f4a7c15ull; return (unsigned)(z >> 44) & (CAP - 1); }
#define GONE ((void *)1)
static void rehash(void) { ent *o = tab; tab = __real_calloc(CAP, sizeof(ent)); used = 0; for (unsigned i = 0; i < CAP; i++) if (o[i].p && o[i].p != GONE) { unsigned s = slot(o[i].p); while (tab[s].p) s = (s + 1) & (CAP - 1); tab[s] = o[i]; used++; } __real_free(o); }
static void add(void *p, size_t n, void *who) {
	if (!p) return; pthread_mutex_lock(&m); if (!tab) tab = __real_calloc(CAP, sizeof(ent));
	if (used > CAP * 3 / 4) rehash();
	unsigned s = slot(p); while (tab[s].p && tab[s].p != GONE) s = (s + 1) & (CAP - 1);
	if (!tab[s].p) used++; tab[s].p = p; tab[s].n = n; tab[s].who = who; tab[s].id = next_id++; live++; bytes += (long)n; total++; pthread_mutex_unlock(&m);
}
static void del(void *p) {
	if (!p) return; pthread_mutex_lock(&m); if (tab) { unsigned s = slot(p); while (tab[s].p) { if (tab[s].p == p) { live--; bytes -= (long)tab[s].n; tab[s].p = GONE; break; } s = (s + 1) & (CAP - 1); } } pthread_mutex_unlock(&m);
}
static volatile int armed; static long after_; static size_t min_; static int forever_, kinds_, once; static long refused, asked;
void wrap_fail(long after, size_t min, int forever, int kinds) { pthread_mutex_lock(&m); after_ = after; min_ = min; forever_ = forever; kinds_ = kinds; once = 0; refused = 0; asked = 0; armed = 1; pthread_mutex_unlock(&m); }
long wrap_fail_end(void) { pthread_mutex_lock(&m); armed = 0; long r = refused; pthread_mutex_unlock(&m); return r; }
long wrap_asked(void) { return asked; }
static size_t rsize; static void *rwho; size_t wrap_refused_size(void) { return rsize; } void *wrap_refused_who(void) { return rwho; }
static int refuse(size_t n, int kind, void *who) { /* kind 1: malloc and calloc, 2: realloc */
	if (!armed) return 0; int r = 0; pthread_mutex_lock(&m);
	if (armed && n >= min_ && (kinds_ & kind)) { asked++; if (after_ > 0) after_--; else if (forever_ || !once) { if (!refused) { rsize = n; rwho = who; } once = 1; refused++; r = 1; } }
	pthread_mutex_unlock(&m); return r;
}
void *__wrap_malloc(size_t n) { if (refuse(n, 1, __builtin_return_address(0))) return NULL; void *p = __real_malloc(n); add(p, n, __builtin_return_address(0)); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (refuse(a * b, 1, __builtin_return_address(0))) return NULL; void *p = __real_calloc(a, b); add(p, a * b, __builtin_return_address(0)); return p; }
void *__wrap_realloc(void *q, size_t n) { if (refuse(n, 2, __builtin_return_address(0))) return NULL; del(q); void *p = __real_realloc(q, n); if (p) add(p, n, __builtin_return_address(0)); return p; }
void __wrap_free(void *p) { del(p); __real_free(p); }
void wrap_add(void *p, size_t n, void *who) { add(p, n, who); } void wrap_del(void *p) { del(p); }
long wrap_live(void) { return live; } long wrap_bytes(void) { return bytes; } long wrap_mark(void) { return next_id; } long wrap_total(void) { return total; }
int wrap_first_since(long mark, size_t *n, void **who, void **p) { /* a block allocated since mark that is still allocated */
	int k = 0; pthread_mutex_lock(&m); for (unsigned i = 0; tab && i < CAP; i++) if (tab[i].p && tab[i].p != GONE && tab[i].id >= mark) { if (!k) { *n = tab[i].n; *who = tab[i].who; *p = tab[i].p; } k++; } pthread_mutex_unlock(&m); return k;
}
