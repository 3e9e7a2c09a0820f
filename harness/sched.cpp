// C09 (results independent of the schedule), C10 (races inside the library's
// regions, under the thread sanitizer) and C12 (several user threads at once).
#include "oracle.hpp"
#include "ompctl.h"
#include <functional>
extern "C" { void GOMP_parallel(void (*)(void *), void *, unsigned, unsigned) __attribute__((weak)); void omp_set_max_active_levels(int) __attribute__((weak)); int omp_get_max_active_levels(void) __attribute__((weak)); }
#include "anax.h"
#include <thread>
#include <atomic>
#include <unistd.h>
Ev ev; ad_conf conf;
extern "C" { void shim_config(int, uint64_t) __attribute__((weak)); void shim_stats(long *, long *, long *, uint64_t *) __attribute__((weak)); void cx_analysis(const int64_t *, int64_t, void *) __attribute__((weak)); }

struct Ana { xmap xm; xranges xr; ad_stats xs; int xv = 0; std::vector<int64_t> xo[3]; std::vector<ad_range> r; ad_stats st; int val = 0; std::vector<int64_t> so[3]; };
static Ana analyse(void *o, Rng &r, bool with_cpp = false) {
	Ana a; void *m = ad_map_of(o); int64_t k = ad_map_size(m); void *d = ad_ranges(o, m); a.r.resize((size_t)k + 4); a.r.resize((size_t)std::max<int64_t>(0, std::min<int64_t>(ad_ranges_get(d, a.r.data(), k + 4), k + 4)));
	ad_stats_compute(d, &a.st, 0); a.val = ad_stats_analyse(&a.st);
	a.r.resize((size_t)k + 4); a.r.resize((size_t)std::max<int64_t>(0, std::min<int64_t>(ad_ranges_get(d, a.r.data(), k + 4), k + 4)));
	for (int i = 0; i < 3; i++) { a.so[i].resize((size_t)k + 4); int64_t n = ad_sort(i ? d : m, i, nullptr, 0, a.so[i].data(), k + 4); a.so[i].resize((size_t)std::max<int64_t>(0, std::min(n, k + 4))); }
	ad_ranges_destroy(d); ad_map_destroy(m); if (with_cpp) { ad_snap *s = ad_snapshot(o, 0); std::vector<int64_t> l(s->labels, s->labels + (s->hasLabels ? s->n : 0)); a.xm = x_map(l, 0, (int64_t)l.size()); ad_snap_free(s); a.xr = x_ranges(o, a.xm); memset(&a.xs, 0, sizeof a.xs); x_stats(a.xr, a.xs, -1); a.xv = x_analyse(a.xs); for (int i = 0; i < 3; i++) { bool ch = false; if (r.chance(50)) for (auto &p : a.xm) a.xo[i].push_back(p.first); x_sort(i, &a.xm, &a.xr, a.xo[i], &ch); } ev.count("cpp_analyses"); }
	return a;
}
static std::string ana_diff(const Ana &a, const Ana &b) {
	if (a.r.size() != b.r.size()) return "number of ranges";
	for (size_t i = 0; i < a.r.size(); i++) { const ad_range &x = a.r[i], &y = b.r[i]; if (x.label != y.label || !same(x.min_cr, y.min_cr) || !same(x.max_cr, y.max_cr) || !same(x.min_dr, y.min_dr) || !same(x.max_dr, y.max_dr) || !same(x.cr_conf, y.cr_conf) || !same(x.dr_conf, y.dr_conf)) return fmt("range of cluster %lld", (long long)x.label); }
	if (a.st.count != b.st.count) return "statistics count"; for (int k = 0; k < 2; k++) for (int j = 0; j < 6; j++) if (!same(a.st.v[k][j], b.st.v[k][j])) return fmt("statistic %d %d: %.17g and %.17g", k, j, a.st.v[k][j], b.st.v[k][j]);
	if (a.xm != b.xm) return "C++ cluster map"; if (a.xr.size() != b.xr.size()) return "C++ ranges"; for (auto &p : a.xr) { auto it = b.xr.find(p.first); if (it == b.xr.end()) return "C++ ranges"; const ad_range &x = p.second, &y = it->second; if (!same(x.min_cr, y.min_cr) || !same(x.max_cr, y.max_cr) || !same(x.min_dr, y.min_dr) || !same(x.max_dr, y.max_dr) || !same(x.cr_conf, y.cr_conf) || !same(x.dr_conf, y.dr_conf)) return "C++ range"; } for (int k = 0; k < 2; k++) for (int j = 0; j < 6; j++) if (!a.xm.empty() && !same(a.xs.v[k][j], b.xs.v[k][j])) return "C++ statistics"; if (a.xv != b.xv) return "C++ validity"; for (int i = 0; i < 3; i++) if (a.xo[i] != b.xo[i]) return "C++ sort order";
	if (a.val != b.val) return "validity"; for (int i = 0; i < 3; i++) if (a.so[i] != b.so[i]) return fmt("sort order %d", i);
	return "";
}
static void run_on(void *o, const Data &d) { ad_run(o, const_cast<char *>(d.raw.data()), d.rows, d.cols, d.rowwise, d.dtype); }

// prints everything an object has, and exports its hierarchy
static std::string show(void *o, int what, const std::string &file) {
	std::string out; if (what == 5) { std::vector<char> nm(file.begin(), file.end()); nm.push_back(0); ad_print_hierarchy(o, nm.data()); for (const char *e : { "_hierarchy.csv", "_visualization.vis" }) { std::string p = file + e; FILE *f = fopen(p.c_str(), "rb"); char b[4096]; size_t k; if (!f) { out += "missing"; continue; } while ((k = fread(b, 1, sizeof b, f)) > 0) out.append(b, k); fclose(f); unlink(p.c_str()); } return out; }
	void *m = ad_map_of(o), *d = ad_ranges(o, m); ad_stats st; ad_stats_compute(d, &st, 0);
	if (what == 0) { ad_print_map(m); ad_print_sizes(m); } else if (what == 1) ad_print_ranges(d); else if (what == 2) ad_print_stats(&st); else if (what == 3) ad_print_scores(o); else { ad_print_graph(o); ad_print_sizes(m); }
	ad_ranges_destroy(d); ad_map_destroy(m); return out;
}
// what was printed, whatever the order of the threads' pieces
static std::vector<size_t> letters(const std::string &s) { std::vector<size_t> h(256, 0); for (unsigned char c : s) h[c]++; return h; }

static int64_t MINN = 0; static GenOpt big(int64_t maxn) { GenOpt o; o.maxn = maxn; o.minn = MINN; if (MINN) ev.count("large_cases"); return o; }
static int MODE = 0; // 0 real OpenMP runtime, 1 the replacement
static void c09(Rng &r, const std::string &id, int64_t maxn) {
	GenOpt o = big(!MINN && r.chance(10) ? maxn * 3 : maxn); Data d = gen_data(r, o); int64_t mp = gen_minpts(r, d), mp2 = gen_minpts(r, d);
	ev.begin(id, d.desc() + fmt(" minPts %lld then %lld", (long long)mp, (long long)mp2));
	if (MODE) shim_config(0, 1); omp_control_threads(1);
	Run a, a2; a.o = ad_new(mp); run_on(a.o, d); a.s = ad_snapshot(a.o, 100000); a2.o = ad_new(mp2); run_on(a2.o, d); a2.s = ad_snapshot(a2.o, 100000);
	int reps = MODE ? 5 : 6;
	for (int k = 0; k < reps; k++) {
		static const int counts[] = { 2, 3, 4, 5, 7, 8, 13, 16, 32, 64 }; int T = counts[r.range(0, r.chance(60) ? 4 : MODE ? 7 : 9)]; if (r.chance(10)) T = (int)std::min<int64_t>(64, d.n()); 
		omp_control_threads(T); int mode = MODE ? (r.chance(75) ? 2 : 1) : 0; uint64_t sd = r.next(); if (MODE) shim_config(mode, sd);
		ev.count("executions"); ev.count(T <= 4 ? "threads_2_4" : T <= 8 ? "threads_5_8" : "threads_9_64");
		Run b; b.o = ad_new(mp); run_on(b.o, d); b.s = ad_snapshot(b.o, 100000); std::string df = snap_diff(a.s, b.s);
		if (!df.empty()) { ev.viol("threads", "%d threads, mode %d: %s (1 thread, %d threads)", T, mode, df.c_str(), T); return; }
		if (k % 2 == 0) { ad_rerun(b.o, mp2); ad_snap_free(b.s); b.s = ad_snapshot(b.o, 100000); df = snap_diff(a2.s, b.s); if (!df.empty()) { ev.viol("threads-rerun", "%d threads, mode %d: %s", T, mode, df.c_str()); return; } }
	}
	if (d.n() > 4) ev.nontrivial(d.hash() ^ (uint64_t)mp); ev.sample(d.desc() + fmt(" minPts %lld", (long long)mp));
}
static void c10(Rng &r, const std::string &id, int64_t maxn) {
	GenOpt o = big(!MINN && r.chance(10) ? maxn * 2 : maxn); Data d = gen_data(r, o); int64_t mp = gen_minpts(r, d), mp2 = gen_minpts(r, d); if (r.chance(60)) { mp = r.range(2, 3); }
	int T = (int)r.range(2, 6); if (r.chance(20)) T = (int)r.range(7, 12);
	ev.begin(id, d.desc() + fmt(" minPts %lld then %lld, %d threads", (long long)mp, (long long)mp2, T));
	omp_control_threads(T); shim_config((int)r.range(0, 1), r.next()); ev.count("executions");
	Run a; a.o = ad_new(mp); run_on(a.o, d); { Rng q(1); Ana x = analyse(a.o, q); ev.count("clusters_analysed", (long long)x.r.size()); if (cx_analysis) { std::vector<int64_t> l; a.s = ad_snapshot(a.o, 0); cx_analysis(a.s->labels, a.s->n, a.o); ad_snap_free(a.s); a.s = nullptr; } }
	ad_rerun(a.o, mp2); { Rng q(1); analyse(a.o, q); }
	if (r.chance(20)) { run_on(a.o, d); ad_clean(a.o); }
	if (d.n() > 4) ev.nontrivial(d.hash() ^ (uint64_t)mp); ev.sample(d.desc() + fmt(" minPts %lld/%lld, %d threads", (long long)mp, (long long)mp2, T));
}
static void c12(Rng &r, const std::string &id, int64_t maxn) {
	int T = (int)r.range(2, 6), nd = (int)r.range(1, 3); GenOpt o = big(maxn); std::vector<Data> ds; for (int i = 0; i < nd; i++) ds.push_back(gen_data(r, o));
	ev.begin(id, fmt("%d threads over %d data sets, first %s", T, nd, ds[0].desc().c_str()));
	struct Step { int kind; int data; int64_t mp; }; struct Plan { std::vector<Step> st; int64_t mp0; std::vector<ad_snap *> want, got; std::vector<Ana> wa, ga; std::vector<std::string> ws, gs; int omp; uint64_t seed; };
	std::vector<Plan> P((size_t)T); uint64_t hh = 0;
	bool prints = r.chance(50), dated = r.chance(50); int favourite = (int)r.range(0, dated ? 5 : 4); static std::atomic<int> fileno_(0); std::string stem = fmt("c12-%d-", (int)getpid());
	for (auto &p : P) { p.mp0 = gen_minpts(r, ds[0]); p.omp = r.chance(60) ? 1 : (int)r.range(2, 3); p.seed = r.next(); int L = (int)r.range(1, 4); bool ran = false; int cur = 0;
		for (int k = 0; k < L; k++) { Step s; s.kind = ran ? (prints && r.chance(60) ? 4 : (int)r.range(0, 3)) : 0; if (s.kind == 0) cur = (int)r.range(0, nd - 1); s.data = cur; s.mp = gen_minpts(r, ds[(size_t)cur]); if (s.kind == 4) s.mp = r.chance(60) ? favourite : r.range(0, dated ? 5 : 4); if (s.kind == 0) ran = true; if (s.kind == 3) ran = false; p.st.push_back(s); hh = hh * 31 + (uint64_t)s.kind + (uint64_t)s.mp * 5; } }
	auto exec = [&](Plan &p, std::vector<ad_snap *> &sn, std::vector<Ana> &an, std::vector<std::string> &sh) {
		omp_control_threads(p.omp); void *o = ad_new(p.mp0); Rng q(p.seed);
		for (auto &s : p.st) {
			if (s.kind == 0) run_on(o, ds[(size_t)s.data]); else if (s.kind == 1) ad_rerun(o, s.mp); else if (s.kind == 2) { an.push_back(analyse(o, q, true)); continue; } else if (s.kind == 4) { sh.push_back(show(o, (int)s.mp, stem + std::to_string(fileno_++))); continue; } else { ad_clean(o); continue; }
			sn.push_back(ad_snapshot(o, 100000)); if (q.chance(20)) std::this_thread::yield();
		}
		ad_destroy(o);
	};
	Capture cap; cap.start(); for (auto &p : P) exec(p, p.want, p.wa, p.ws); std::string alone = cap.stop();
	if (shim_config) shim_config((int)r.range(0, 1), r.next());
	cap.start();
	std::atomic<int> ready(0); std::vector<std::thread> th; std::atomic<size_t> nextPlan(0);
	if (!MODE && GOMP_parallel && r.chance(25)) { // the caller's threads are OpenMP threads themselves
		std::function<void()> body = [&] { for (size_t k; (k = nextPlan++) < P.size(); ) exec(P[k], P[k].got, P[k].ga, P[k].gs); }; int nest = (int)r.range(1, 2); int was = omp_get_max_active_levels(); omp_set_max_active_levels(nest);
		GOMP_parallel([](void *f) { (*(std::function<void()> *)f)(); }, &body, (unsigned)T, 0); omp_set_max_active_levels(was); ev.count(nest == 1 ? "openmp_callers" : "openmp_callers_nested"); }
	else for (auto &p : P) th.emplace_back([&, pp = &p] { ready++; while (ready < T) std::this_thread::yield(); exec(*pp, pp->got, pp->ga, pp->gs); });
	for (auto &t : th) t.join();
	std::string together = cap.stop();
	ev.count("user_threads", T); ev.count("bytes_printed", (long long)together.size());
	if (!dated) { if (letters(alone) != letters(together)) ev.viol("concurrent-print", "the threads printed %zu characters, or others than the %zu each prints alone", together.size(), alone.size()); }
	for (int t = 0; t < T; t++) { Plan &p = P[(size_t)t]; for (size_t k = 0; k < p.want.size(); k++) { ev.count("comparisons"); std::string df = snap_diff(p.want[k], p.got[k]); if (!df.empty()) ev.viol("concurrent", "thread %d, result %zu: %s (alone, concurrently)", t, k, df.c_str()); }
		for (size_t k = 0; k < p.wa.size(); k++) { std::string df = ana_diff(p.wa[k], p.ga[k]); ev.count("comparisons"); if (!df.empty()) ev.viol("concurrent-analysis", "thread %d: %s", t, df.c_str()); }
		ev.count("comparisons", (long long)p.ws.size()); ev.count("printings", (long long)p.gs.size()); if (p.ws != p.gs) ev.viol("concurrent-export", "thread %d exported another hierarchy than alone", t);
		for (auto s : p.want) ad_snap_free(s); for (auto s : p.got) ad_snap_free(s); }
	ev.nontrivial(hh ^ ds[0].hash()); ev.sample(fmt("%d threads, %zu steps in the first, %s", T, P[0].st.size(), ds[0].desc().c_str()));
}
int main(int argc, char **argv) {
	if (argc < 7) return 3;
	std::string PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]), maxn = atoll(argv[6]); if (argc > 7) MINN = atoll(argv[7]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1;
	ev.open_from_env(); ad_config(&conf); MODE = shim_config != nullptr;
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue;
		Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k);
		ev.count("evaluations"); GEN_CASE = k;
		if (PROP == "C09") c09(r, id, maxn); else if (PROP == "C10") c10(r, id, maxn); else c12(r, id, maxn);
	}
	if (shim_stats) { long a, b, c; uint64_t h; shim_stats(&a, &b, &c, &h); ev.count("parallel_regions", a); ev.count("region_threads", b); ev.count("token_switches", c); if (c) ev.line(fmt("H %016llx", (unsigned long long)h)); }
	ev.done(); fflush(stdout); return 0;
}
