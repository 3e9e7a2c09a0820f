// C13 life cycles with allocation accounting (under the address sanitizer), C14
// equal results for different former contents of heap and stack.
#include "oracle.hpp"
#include "ompctl.h"
#include "wrap.h"
#include <malloc.h>
#include <alloca.h>
Ev ev; ad_conf conf; static std::string PROP; static int64_t MAXN, MINN = 0;
static std::vector<char *> live_inputs;
static void run_exact(void *o, const Data &d) { char *p = (char *)malloc(d.raw.size() ? d.raw.size() : 1); memcpy(p, d.raw.data(), d.raw.size()); ad_run(o, p, d.rows, d.cols, d.rowwise, d.dtype); free(p); }
static void touch(void *o) { ad_snap *s = ad_snapshot(o, 100000); volatile uint64_t h = snap_hash(s); (void)h; ad_snap_free(s); }
static void analyse(void *o, Rng &r, std::string *hist) {
	void *m = ad_map_of(o); int64_t k = ad_map_size(m); void *d = ad_ranges(o, m); ad_stats st; ad_stats_compute(d, &st, (int)r.range(0, 255)); ad_stats_analyse(&st);
	std::vector<ad_range> g((size_t)k + 2); ad_ranges_get(d, g.data(), k); std::vector<int64_t> keys, out((size_t)k + 2); for (int64_t i = 0; i < k; i++) keys.push_back(ad_map_key(m, i));
	for (int j = 0; j < 3; j++) { bool sub = r.chance(50); int64_t c = r.range(0, k); ad_sort(j ? d : m, j, sub ? keys.data() : nullptr, sub ? c : 0, out.data(), k); }
	if (r.chance(40)) { Capture c; c.start(); ad_print_map(m); ad_print_sizes(m); ad_print_ranges(d); ad_print_stats(&st); if (r.chance(50)) { ad_print_scores(o); ad_print_distances(o); ad_print_graph(o); } c.stop(); }
	ad_ranges_destroy(d); ad_map_destroy(m); if (hist) *hist += " analyse";
}
static void c13(Rng &r, const std::string &id) {
	GenOpt o; o.maxn = MAXN; o.minn = MINN; if (MINN) ev.count("large_cases"); int nd = (int)r.range(1, 3); std::vector<Data> ds; for (int i = 0; i < nd; i++) ds.push_back(gen_data(r, o));
	if (r.chance(8)) for (auto &d : ds) if ((d.dtype == DT_DOUBLE || d.dtype == DT_FLOAT) && d.cols > 0) { static const double odd[] = { INFINITY, -INFINITY, NAN, -NAN, 1.7e308, -1.7e308, 3e38, -3e38, 5e-324, 1e200 }; int64_t m = r.range(1, 6), all = r.chance(10) ? r.range(0, 9) : -1; for (int64_t k = 0; k < (all >= 0 ? d.rows * d.cols : m); k++) { double x = odd[all >= 0 ? all : r.range(0, 9)]; if (d.dtype == DT_FLOAT && std::fabs(x) > 3.4e38 && !std::isinf(x)) x = 3e38; d.set(all >= 0 ? k : r.range(0, d.rows * d.cols - 1), x); } d.kind += " with odd values"; ev.count("odd_values"); } // only memory and termination are judged
	int len = (int)r.range(0, 7); int64_t mp = gen_minpts(r, ds[0]); ev.begin(id, fmt("life of %d operations, %d data sets, first %s, minPts %lld", len, nd, ds[0].desc().c_str(), (long long)mp));
	int64_t T = r.range(1, 4); omp_control_threads((int)T); { // thread pool memory is not the library's
		Rng q(3); static int64_t warm = 0; if (warm < T) { warm = T; GenOpt w; w.kind = G_BLOBS; w.allowTiny = false; Data d = gen_data(q, w); void *x = ad_new(3); run_exact(x, d); touch(x); ad_destroy(x); } }
	{ Capture c; c.start(); c.stop(); }
	std::string hist; uint64_t hh = (uint64_t)mp; long mark = wrap_mark(), l0 = wrap_live(); bool ran = false; int cur = -1;
	void *mem = nullptr; void *ob; if (r.chance(25)) { mem = malloc(ad_sizeof()); memset(mem, (int)r.range(0, 255), ad_sizeof()); ob = ad_new_in(mem, mp); hist = "init(own memory)"; } else { ob = ad_new(mp); hist = "init"; }
	for (int k = 0; k < len; k++) {
		int op = (int)r.range(0, 9); if (!ran && op > 3 && op < 8) op = (int)r.range(0, 3); hh = hh * 131 + (uint64_t)op; ev.count("operations");
		if (r.chance(4)) { char none[1] = { 0 }; int64_t c = r.range(0, 5); int rw = r.chance(50); int e = ad_run(ob, none, rw || r.chance(50) ? 0 : r.range(1, 9), rw ? c : 0, rw, (int)r.range(0, DT_COUNT - 1)); ran = false; hist += " run(nothing)"; ev.count("empty_runs"); if (e != 1) ev.viol("empty", "clustering no points returned %d after%s", e, hist.c_str()); continue; }
		if (op < 4) { cur = (int)r.range(0, nd - 1); const Data &d = ds[(size_t)cur]; run_exact(ob, d); ran = true; hist += fmt(" run(%s)", d.desc().c_str()); hh += d.hash(); }
		else if (op < 6) { int64_t m2 = gen_minpts(r, ds[(size_t)cur]); ad_rerun(ob, m2); hist += fmt(" rerun(%lld)", (long long)m2); hh += (uint64_t)m2; }
		else if (op < 8) analyse(ob, r, &hist);
		else { ad_clean(ob); hist += " clean"; ran = false; if (r.chance(30)) { ad_clean(ob); hist += " clean"; } }
		if (ran && r.chance(50)) touch(ob);
		if (r.chance(15)) { int64_t q = r.range(0, 9); ad_constrain(ob, q); hist += fmt(" constrain(%lld)", (long long)q); ev.count("constraints", (uint64_t)q); }
	}
	if (ran && r.chance(40)) { // the same operation again and again
		int what = (int)r.range(0, 1); int64_t m2 = gen_minpts(r, ds[(size_t)cur]); long b[6]; for (int k = 0; k < 6; k++) { if (what) run_exact(ob, ds[(size_t)cur]); else ad_rerun(ob, m2); b[k] = wrap_bytes(); } ev.count("repetitions");
		if (b[5] > b[1]) { ev.viol("grows", "%s repeated after%s: %ld bytes held after 2 repetitions, %ld after 6", what ? "run" : "rerun", hist.c_str(), b[1], b[5]); }
	}
	if (mem) { ad_clean(ob); free(mem); hist += " clean"; } else { ad_destroy(ob); hist += " destroy"; }
	size_t n = 0; void *who = nullptr, *p = nullptr; int k = wrap_live() != l0 ? wrap_first_since(mark, &n, &who, &p) : 0;
	if (k) ev.viol(ran || len ? "leak" : "leak-unused", "%d blocks not released, one of %s, after %s", k, wrap_desc(n, who).c_str(), hist.c_str());
	if (len > 1) ev.nontrivial(hh); ev.sample(hist);
}
static __attribute__((noinline)) void fill_stack(int v) { volatile char *p = (volatile char *)alloca(96 * 1024); for (int i = 0; i < 96 * 1024; i++) p[i] = (char)v; }
static void c14(Rng &r, const std::string &id) {
	GenOpt o; o.maxn = !MINN && r.chance(5) ? 250 : MAXN; o.minn = MINN; if (MINN) ev.count("large_cases"); Data d = gen_data(r, o); int64_t mp = gen_minpts(r, d), mp2 = gen_minpts(r, d);
	ev.begin(id, d.desc() + fmt(" minPts %lld then %lld", (long long)mp, (long long)mp2)); omp_control_threads((int)r.range(1, 3));
	static const int pat[] = { 0, 0xff, 0x7f, 0x01, 0x5a, 0x80 }; ad_snap *ref[2] = { nullptr, nullptr }; std::string bad; std::vector<ad_range> rr[2]; ad_stats rs; std::vector<int64_t> so[3];
	for (int k = 0; k < 4; k++) {
		int v = k == 0 ? 0 : pat[r.range(1, 5)];
		char *store = (char *)malloc(ad_sizeof()); memset(store, v, ad_sizeof());
		mallopt(M_PERTURB, v ? (~v & 0xff) : 0); fill_stack(v);
		void *ob = ad_new_in(store, mp); run_exact(ob, d); ad_snap *s = ad_snapshot(ob, 100000);
		fill_stack(v); void *m = ad_map_of(ob); int64_t kk = ad_map_size(m); void *dm = ad_ranges(ob, m); std::vector<ad_range> g((size_t)kk * 2); ad_ranges_get(dm, g.data() + kk, kk); /* before and after the statistics */ ad_stats st; ad_stats_compute(dm, &st, v & 0xff); ad_ranges_get(dm, g.data(), kk);
		std::vector<int64_t> out[3]; for (int j = 0; j < 3; j++) { fill_stack(v); out[j].assign((size_t)kk, -1); ad_sort(j ? dm : m, j, nullptr, 0, out[j].data(), kk); }
		fill_stack(v); ad_rerun(ob, mp2); ad_snap *s2 = ad_snapshot(ob, 100000); ad_ranges_destroy(dm); ad_map_destroy(m); ad_clean(ob); free(store); mallopt(M_PERTURB, 0); ev.count("executions");
		if (k == 0) { ref[0] = s; ref[1] = s2; rr[0] = g; rs = st; for (int j = 0; j < 3; j++) so[j] = out[j]; continue; }
		std::string df = snap_diff(ref[0], s); if (df.empty()) df = snap_diff(ref[1], s2);
		if (df.empty()) for (size_t i = 0; i < g.size(); i++) { const ad_range &x = rr[0][i], &y = g[i]; if (x.label != y.label || !same(x.min_cr, y.min_cr) || !same(x.max_cr, y.max_cr) || !same(x.min_dr, y.min_dr) || !same(x.max_dr, y.max_dr) || !same(x.cr_conf, y.cr_conf) || !same(x.dr_conf, y.dr_conf)) df = fmt("range of cluster %lld", (long long)x.label); }
		if (df.empty()) { if (rs.count != st.count) df = "count"; for (int a = 0; a < 2; a++) for (int b = 0; b < 6; b++) if (!same(rs.v[a][b], st.v[a][b])) df = fmt("statistic %d %d", a, b); }
		if (df.empty()) for (int j = 0; j < 3; j++) if (so[j] != out[j]) df = fmt("sort %d", j);
		ad_snap_free(s); ad_snap_free(s2);
		if (!df.empty()) { ev.viol("former-contents", "memory filled with %d: %s", v, df.c_str()); break; }
	}
	ad_snap_free(ref[0]); ad_snap_free(ref[1]); if (d.n() > 2) ev.nontrivial(d.hash() ^ (uint64_t)mp); ev.sample(d.desc() + fmt(" minPts %lld", (long long)mp));
}
static void gen_cases(uint64_t seed, int64_t count, const char *path) { // cases for the memory sanitizer
	FILE *f = fopen(path, "wb"); if (!f) _exit(3);
	for (int64_t k = 0; k < count; k++) { Rng r(seed, 991, (uint64_t)k); GenOpt o; o.maxn = r.chance(4) ? 200 : MAXN; if (k % 200 == 77) { o.maxn = 700; o.minn = 400; } Data d = gen_data(r, o); int64_t mp = gen_minpts(r, d), mp2 = gen_minpts(r, d);
		int64_t h[8] = { d.dtype, d.rows, d.cols, d.rowwise, mp, mp2, (int64_t)d.raw.size(), (int64_t)(d.hash() ^ (uint64_t)mp) }; fwrite(h, 8, 8, f); fwrite(d.raw.data(), 1, d.raw.size(), f); }
	fclose(f);
}
int main(int argc, char **argv) {
	if (argc < 7) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]); MAXN = atoll(argv[6]); if (argc > 7) MINN = atoll(argv[7]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1;
	if (PROP == "GEN") { gen_cases(SEED, count, argv[7]); return 0; }
	ev.open_from_env(); ad_config(&conf);
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue;
		Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k); ev.count("evaluations"); GEN_CASE = k;
		if (PROP == "C13") c13(r, id); else c14(r, id);
	}
	ev.count("blocks_allocated", wrap_total()); ev.done(); fflush(stdout); return 0;
}
