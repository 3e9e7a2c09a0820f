// C20: runs and re-runs while blocks whose size depends on the data, or blocks of any size, cannot be allocated, and data too large for any memory.
#include "oracle.hpp"
#include "ompctl.h"
#include "wrap.h"
#include <sys/mman.h>
#include <sys/resource.h>
Ev ev; ad_conf conf; static std::string PROP; static int64_t MAXN;
struct Buf { char *p; Buf(const Data &d) : p((char *)malloc(d.raw.size() ? d.raw.size() : 1)) { memcpy(p, d.raw.data(), d.raw.size()); } ~Buf() { free(p); } };
static int run(void *o, const Data &d) { Buf b(d); return ad_run(o, b.p, d.rows, d.cols, d.rowwise, d.dtype); }
static uint64_t result(void *o) { ad_snap *s = ad_snapshot(o, 0); uint64_t h = snap_hash(s); ad_snap_free(s); return h; }
static Data draw(Rng &r, bool any) { GenOpt o; o.maxn = any ? 120 : MAXN; for (int k = 0; ; k++) { Data d = gen_data(r, o); if (any ? d.n() >= 5 : d.n() >= 150 || (k > 60 && d.n() >= 100)) return d; } }
static void c20(Rng &r, const std::string &id) {
	bool any = r.chance(55); // any request at all, or only those for blocks whose size depends on the data
	Data a = draw(r, any), b = r.chance(50) ? a : draw(r, any); int64_t mp = r.chance(20) ? r.range(2, a.n()) : r.range(2, 12), mp2 = r.chance(20) ? r.range(2, a.n()) : r.range(2, 12); int T = (int)r.range(1, 4); omp_control_threads(T);
	{ Rng q(3); static int warm = 0; if (warm < T) { warm = T; void *x = ad_new(3); run(x, a); result(x); ad_destroy(x); } }
	bool re = r.chance(40), used = re || r.chance(40); ev.begin(id, a.desc() + fmt(", minPts %lld then %lld, %s", (long long)mp, (long long)mp2, re ? "re-run" : used ? "second run" : "run")); Capture cap; cap.start();
	long mark = wrap_mark(), live = wrap_live(); std::string bad, key; auto viol = [&](const char *k, const std::string &s) { if (key.empty()) { key = k; bad = s; } };
	// reference results, and how many requests there are
	uint64_t refA, refB, ref2; long asked; size_t min = any ? 1 : (size_t)a.n(); int kinds = any ? 3 : 1;
	{ void *o = ad_new(mp); if (!re) wrap_fail(1l << 40, min, 0, kinds); run(o, a); if (!re) { wrap_fail_end(); asked = wrap_asked(); } refA = result(o); if (re) wrap_fail(1l << 40, min, 0, kinds); ad_rerun(o, mp2); if (re) { wrap_fail_end(); asked = wrap_asked(); } ref2 = result(o); ad_destroy(o); }
	{ void *o = ad_new(re ? mp2 : mp); run(o, b); refB = result(o); ad_destroy(o); }
	void *o = ad_new(mp); if (used) { int e = run(o, re ? a : b); if (e) viol("error", fmt("a run returned %d although memory was there", e)); }
	Buf *data = new Buf(a); long k = r.chance(30) ? r.range(0, std::min<long>(asked, 12)) : r.range(0, asked); int forever = r.chance(50);
	wrap_fail(k, min, forever, kinds); int e = re ? ad_rerun(o, mp2) : ad_run(o, data->p, a.rows, a.cols, a.rowwise, a.dtype); long refused = wrap_fail_end(); const char *what = re ? "re-run" : "run"; ev.count("operations"); ev.count("requests_counted", asked);
	if (refused && any) ev.count("refused_of_any_size", refused); if (refused) { ev.count("refused_allocations", refused); ev.count(re ? "reruns_without_memory" : "runs_without_memory"); }
	if (!refused && e) viol("error", fmt("the %s returned %d although memory was there", what, e));
	if (!e && result(o) != (re ? ref2 : refA)) viol("silent", fmt("the %s reports success after %s was refused, with other results", what, wrap_desc(wrap_refused_size(), wrap_refused_who()).c_str()));
	if (e) { ev.count("errors_reported"); if (e != 1) viol("error", fmt("the %s returned %d", what, e)); }
	int next = (int)r.range(0, 4); // what happens to the object afterwards
	if (next == 0) { int x = run(o, b); if (x) viol("after", fmt("a run after the failed %s returned %d", what, x)); else if (result(o) != refB) viol("after", fmt("a run after the failed %s gives other results", what)); ev.count("runs_after_failure"); }
	else if (next == 1) { int x = ad_rerun(o, mp2); if (!x && result(o) != ref2) viol("after", fmt("a re-run after the failed %s gives other results", what)); if (x && re) viol("after", fmt("a re-run after the failed re-run returned %d", x)); ev.count("reruns_after_failure"); }
	else if (next == 2) { ad_clean(o); }
	ad_destroy(o); delete data; size_t n = 0; void *who = nullptr, *p = nullptr;
	cap.stop(); if (!bad.empty()) ev.viol(key.c_str(), "allocation %ld of %ld%s refused in the %s: %s", k + 1, asked, forever ? " and all later ones" : "", what, bad.c_str());
	if (wrap_live() != live) { wrap_first_since(mark, &n, &who, &p); ev.viol("leak", "allocation %ld of %ld%s refused in the %s: %ld blocks not released, one of %s", k + 1, asked, forever ? " and all later ones" : "", what, wrap_live() - live, wrap_desc(n, who).c_str()); }
	if (refused) { ev.nontrivial(fnv(&k, sizeof k, a.hash() + (uint64_t)mp * 7 + (uint64_t)re + (uint64_t)used * 3)); ev.sample(fmt("%s of %lld points, request %ld of %ld refused, returned %d", what, (long long)a.n(), k + 1, asked, e)); }
}
// data sets whose distance matrix cannot exist
static void huge(Rng &r, const std::string &id) {
	static const int64_t fixed[] = { 2147483649ll, 2147483648ll, 3037000501ll, 4294967295ll, 3719550787ll, 1000003ll }; int64_t n = r.chance(70) ? fixed[r.range(0, 5)] : r.range(2000000, 4294967295ll); if (conf.index_bytes < 4) return;
	ev.begin(id, fmt("%lld one dimensional points", (long long)n)); char *p = (char *)mmap(nullptr, (size_t)n, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) return;
	Capture c; c.start(); void *o = ad_new(r.range(2, 5)); int e = ad_run(o, p, n, 1, 1, DT_CHAR); ev.count("operations"); ev.count("impossible_sizes"); bool again = r.chance(50); int x = 0; if (again) { char q[6] = { 1, 2, 3, 50, 51, 52 }; x = ad_run(o, q, 6, 1, 1, DT_CHAR); } ad_destroy(o); c.stop(); munmap(p, (size_t)n);
	if (e != 1) ev.viol("huge", "clustering %lld points returned %d", (long long)n, e); if (x) ev.viol("after", "a small run after the failed one returned %d", x); ev.nontrivial((uint64_t)n); ev.sample(fmt("%lld points: returned %d", (long long)n, e));
}
// no points at all, and element counts that do not fit in the index type
static void miscounted(Rng &r, const std::string &id) {
	static const int64_t wrap2[][2] = { { 3, 21847 }, { 256, 256 }, { 32768, 2 }, { 300, 219 }, { 65535, 65535 } }, wrap4[][2] = { { 3, 1431655767 }, { 65536, 65536 }, { 2147483648ll, 2 }, { 13, 330382101 }, { 4294967295ll, 4294967295ll } }, wrap8[][2] = { { 3, 6148914691236517207ll }, { 4294967296ll, 4294967296ll }, { 7, 2635249153387078803ll } };
	int64_t rows, cols; int rw = 0; bool none = r.chance(40); if (none) { rw = r.chance(50); rows = rw || r.chance(50) ? 0 : r.range(1, 50); cols = rw || !rows ? r.range(0, 50) : 0; } else { const int64_t *w = conf.index_bytes == 2 ? wrap2[r.range(0, 4)] : conf.index_bytes == 4 ? wrap4[r.range(0, 4)] : wrap8[r.range(0, 2)]; rows = w[0]; cols = w[1]; if (r.chance(50)) std::swap(rows, cols); }
	std::string what = fmt("%lld rows of %lld columns, %s", (long long)rows, (long long)cols, rw ? "row-wise" : "element-wise"); ev.begin(id, what); char *p = (char *)calloc(1, 4096);
	Capture c; c.start(); void *o = ad_new(r.range(2, 5)); char q[6] = { 1, 2, 3, 50, 51, 52 }; bool before = r.chance(50); int z = before ? ad_run(o, q, 6, 1, 1, DT_CHAR) : 0; long mark = wrap_mark(), live = wrap_live(); (void)mark; int e = ad_run(o, p, rows, cols, rw, DT_CHAR); bool more = wrap_live() > live; int y = r.chance(30) ? ad_rerun(o, 3) : 1; bool again = r.chance(50); int x = again ? ad_run(o, q, 6, 1, 1, DT_CHAR) : 0; ad_destroy(o); c.stop(); free(p);
	ev.count("operations"); ev.count(none ? "empty_data" : "uncountable_data"); if (e != 1) ev.viol(none ? "empty" : "uncountable", "clustering %s returned %d", what.c_str(), e); if (y != 1) ev.viol("after", "a re-run after the refused %s returned %d", what.c_str(), y); if (x || z) ev.viol("after", "a small run %s the refused one returned %d", x ? "after" : "before", x + z); if (more) ev.viol("leak", "more blocks are held after %s was refused", what.c_str()); ev.nontrivial((uint64_t)rows * 1000003 + (uint64_t)cols * 2 + (uint64_t)rw); ev.sample(fmt("%s: returned %d", what.c_str(), e));
}
int main(int argc, char **argv) {
	if (argc < 7) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]); MAXN = atoll(argv[6]); bool hg = argc > 7;
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1; ev.open_from_env(); ad_config(&conf);
	if (hg && conf.index_bytes == 4) { struct rlimit l = { 24ul << 30, 24ul << 30 }; setrlimit(RLIMIT_AS, &l); }
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue; Rng r(SEED, fnv(PROP.data(), PROP.size()) + hg, (uint64_t)k); std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k); ev.count("evaluations");
		if (hg) { if (k % 3 == 0 && conf.index_bytes == 4) huge(r, id); else miscounted(r, id); } else c20(r, id);
	}
	ev.done(); return 0;
}
