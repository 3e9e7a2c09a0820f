// B01 histories of the C++ class compared with the same C calls after every step.
#include "oracle.hpp"
#include "ompctl.h"
#include "wrap.h"
#include "bx.h"
Ev ev; ad_conf conf; static std::string PROP; static int64_t MAXN = 60, MINN = 0;
struct Bad { const char *key; std::string what; };
#define CHECK(c, key, ...) do { ev.count("observations"); if (!(c)) throw Bad{ key, fmt(__VA_ARGS__) }; } while (0)
struct Copy { char *p; Copy(const Data &d) { p = (char *)malloc(d.raw.size() ? d.raw.size() : 1); memcpy(p, d.raw.data(), d.raw.size()); } ~Copy() { memset(p, 0x3c, 1); free(p); } };
static void compare(void *cpp, void *c, const std::string &hist) {
	ad_snap *a = bx_snapshot(cpp, 100000), *b = ad_snapshot(c, 100000), *x = ad_snapshot(cpp, 100000); std::string d = snap_diff(a, x), e = snap_diff(x, b); bool clean = ad_is_clean(cpp) == ad_is_clean(c); int64_t n = a->n; ad_snap_free(a); ad_snap_free(b); ad_snap_free(x); ev.count("comparisons"); ev.count("points_compared", n);
	CHECK(d.empty(), "view", "read through the C++ headers and through the C ones after%s: %s", hist.c_str(), d.c_str()); CHECK(e.empty(), "result", "C++ and C after%s: %s", hist.c_str(), e.c_str()); CHECK(clean, "clean", "after%s the C++ object is%s clean, the C object is%s", hist.c_str(), ad_is_clean(cpp) ? "" : " not", ad_is_clean(c) ? "" : " not");
}
static void history(Rng &r, void *o, int64_t mp, const std::vector<Data> &ds, std::string &hist, uint64_t &hh) {
	Run u; u.o = ad_new(mp < 0 ? 3 : mp); int len = (int)r.range(0, 6); bool ran = false; int cur = 0;
	if (r.chance(50)) compare(o, u.o, hist);
	for (int k = 0; k < len; k++) {
		int op = (int)r.range(0, 9); if (!ran && op >= 4 && op < 8) op = 0; hh = hh * 131 + (uint64_t)op; ev.count("operations");
		if (op < 4) { cur = (int)r.range(0, (int64_t)ds.size() - 1); const Data &d = ds[(size_t)cur]; { Copy a(d), b(d); bx_run(o, a.p, d.rows, d.cols, d.rowwise, d.dtype); ad_run(u.o, b.p, d.rows, d.cols, d.rowwise, d.dtype); CHECK(!memcmp(a.p, d.raw.data(), d.raw.size()), "data-changed", "the data set was modified"); } ran = true; hist += fmt(" run(%s)", d.desc().c_str()); hh += d.hash(); }
		else if (op < 8) { int64_t m = gen_minpts(r, ds[(size_t)cur]); bx_rerun(o, m); ad_rerun(u.o, m); hist += fmt(" reRun(%lld)", (long long)m); hh += (uint64_t)m; }
		else { int times = r.chance(30) ? 2 : 1; for (int t = 0; t < times; t++) { bx_clean(o); ad_clean(u.o); hist += " clean"; } ran = false; ev.count("cleanings"); }
		compare(o, u.o, hist);
	}
}
static void b01(Rng &r, const std::string &id) {
	GenOpt o; o.maxn = MAXN; o.minn = MINN; if (MINN) ev.count("large_cases"); o.floatRange = conf.distance_is_float; int nd = (int)r.range(1, 3); std::vector<Data> ds; for (int i = 0; i < nd; i++) ds.push_back(gen_data(r, o)); int64_t mp = r.chance(20) ? -1 : gen_minpts(r, ds[0]); int mode = (int)r.range(0, 7);
	static const char *names[] = { "dynamic", "automatic", "placed", "array", "member", "steps", "distance", "two" }; ev.begin(id, fmt("%s object, %d data sets, first %s, minPts %lld", names[mode], nd, ds[0].desc().c_str(), (long long)mp));
	int64_t T = r.range(1, 4); omp_control_threads((int)T); { static int64_t warm = 0; if (warm < T) { warm = T; Rng q(3); GenOpt w; w.kind = G_BLOBS; w.allowTiny = false; Data d = gen_data(q, w); void *x = ad_new(3); Copy c(d); ad_run(x, c.p, d.rows, d.cols, d.rowwise, d.dtype); ad_snap_free(ad_snapshot(x, 1000)); ad_destroy(x); } }
	CHECK(bx_sizeof() == ad_sizeof(), "size", "the C++ object has %zu bytes, the C one %zu", bx_sizeof(), ad_sizeof());
	std::string hist = std::string(" ") + names[mode]; uint64_t hh = (uint64_t)(mp * 8 + mode); long mark = wrap_mark(), live = wrap_live(); ev.count(std::string("objects_") + names[mode]);
	struct Del { void *o; ~Del() { if (o) bx_delete(o); } };
	if (mode == 0) { Del g{ bx_new(mp) }; history(r, g.o, mp, ds, hist, hh); }
	else if (mode == 1) { std::string bad; const char *key = nullptr; bx_auto(mp, [&](void *p) { try { history(r, p, mp, ds, hist, hh); } catch (Bad &b) { key = b.key; bad = b.what; } }); if (key) throw Bad{ key, bad }; }
	else if (mode == 2) { char *m = (char *)malloc(bx_sizeof()); memset(m, (int)r.range(0, 255), bx_sizeof()); void *p = bx_place(m, mp); std::string bad; const char *key = nullptr; try { history(r, p, mp, ds, hist, hh); } catch (Bad &b) { key = b.key; bad = b.what; } bx_unplace(p); free(m); if (key) throw Bad{ key, bad }; }
	else if (mode == 3) { int64_t n = r.range(1, 4); void *a = bx_array(n); std::string bad; const char *key = nullptr; try { for (int64_t i = 0; i < n; i++) if (r.chance(70)) { std::string h = hist; history(r, bx_array_at(a, i), -1, ds, h, hh); } } catch (Bad &b) { key = b.key; bad = b.what; } bx_array_delete(a); if (key) throw Bad{ key, bad }; }
	else if (mode == 4) { std::string bad; const char *key = nullptr; bx_member(mp, [&](void *p) { try { history(r, p, mp, ds, hist, hh); } catch (Bad &b) { key = b.key; bad = b.what; } }); if (key) throw Bad{ key, bad }; }
	else if (mode == 5) { Data d = ds[0]; d.rowwise = true; if (d.rows < 3) { o.allowTiny = false; o.allowElementwise = false; d = gen_data(r, o); } int compact = r.chance(30); std::vector<double> n1((size_t)d.rows), n2(n1); std::vector<int64_t> l1((size_t)d.rows), l2(l1); Run u; u.o = ad_new(mp < 0 ? 3 : mp); Del g{ bx_new(mp) }; int inf = 0, again = 0; hh += d.hash() + (uint64_t)compact;
		if (r.chance(40)) { const Data &e = ds[ds.size() - 1]; Copy a(e); bx_run(g.o, a.p, e.rows, e.cols, e.rowwise, e.dtype); }
		{ Copy a(d), b(d); bx_steps(g.o, a.p, d.rows, d.cols, d.dtype, compact, n1.data(), l1.data(), &inf, again); ad_step_distances(u.o, b.p, d.rows, d.cols, d.dtype); } ad_step_mst(u.o); ad_step_sort(u.o); ad_step_hierarchy(u.o, compact, n2.data(), l2.data()); int inf2 = ad_step_propagate(u.o) != 0; ad_step_flat(u.o, inf2); ad_step_scores(u.o, n2.data(), l2.data(), inf2);
		CHECK(inf == inf2, "propagate", "propagateTree gives %d, in C %d", inf, inf2); for (size_t i = 0; i < n1.size(); i++) CHECK(n1[i] == n2[i] && l1[i] == l2[i], "noise", "point %zu: noise level %.17g, last cluster %lld; in C %.17g, %lld", i, n1[i], (long long)l1[i], n2[i], (long long)l2[i]); hist += fmt(" steps(%s, compact %d)", d.desc().c_str(), compact); compare(g.o, u.o, hist); ev.count("step_runs"); }
	else if (mode == 6) { Data d = ds[0]; d.rowwise = true; size_t n = (size_t)d.rows; int64_t k1 = r.range(1, std::max<int64_t>(1, d.rows)), k2 = r.range(1, std::max<int64_t>(1, d.rows)); std::vector<double> c1(n), c2(n), dist(n * n); { Copy a(d); bx_distance((int)r.range(0, 3), r.chance(50) ? r.range(1, d.rows) : 0, a.p, d.rows, d.cols, d.dtype, k1, k2, c1.data(), c2.data(), dist.data()); } hh += d.hash() + (uint64_t)(k1 * 99 + k2);
		for (int q = 0; q < 2; q++) { Run u; u.o = ad_new((q ? k2 : k1) + 1); { Copy a(d); ad_run(u.o, a.p, d.rows, d.cols, 1, d.dtype); } ad_snap *s = ad_snapshot(u.o, 100000); std::vector<double> core(s->core, s->core + n), ds2(s->dist, s->dist + n * n); ad_snap_free(s); for (size_t i = 0; i < n; i++) CHECK(core[i] == (q ? c2 : c1)[i], "distance-core", "core distance %zu with %lld neighbours is %.17g, in a run %.17g", i, (long long)(q ? k2 : k1), (q ? c2 : c1)[i], core[i]); for (size_t i = 0; i < n * n; i++) CHECK(ds2[i] == dist[i], "distance", "distance %zu is %.17g, in a run %.17g", i, dist[i], ds2[i]); }
		bx_graph(); ev.count("distance_objects"); hist += fmt(" distance(%s, %lld, %lld)", d.desc().c_str(), (long long)k1, (long long)k2); }
	else { Del g{ bx_new(mp) }, g2{ bx_new(-1) }; std::string h2 = hist; history(r, g.o, mp, ds, hist, hh); history(r, g2.o, -1, ds, h2, hh); }
	size_t n = 0; void *who = nullptr, *p = nullptr; int k = wrap_live() != live ? wrap_first_since(mark, &n, &who, &p) : 0; CHECK(!k, "leak", "%d blocks not released, one of %s, after%s", k, wrap_desc(n, who).c_str(), hist.c_str());
	ev.nontrivial(hh); ev.sample(hist);
}
int main(int argc, char **argv) {
	if (argc < 6) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]); if (argc > 6) MAXN = atoll(argv[6]); if (argc > 7) MINN = atoll(argv[7]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1; ev.open_from_env(); ad_config(&conf);
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue; Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k); ev.count("evaluations"); GEN_CASE = k;
		try { b01(r, id); } catch (Bad &b) { ev.viol(b.key, "%s", b.what.c_str()); }
	}
	ev.done(); return 0;
}
