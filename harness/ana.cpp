// A01-A05 cluster maps, ranges, statistics, sorting, and their C++ counterparts;
// K01 cluster objects; G01 graphs; O01 printing and exports.
#include "oracle.hpp"
#include "ompctl.h"
#include "wrap.h"
#include "anax.h"
#include <sys/stat.h>
#include <dirent.h>
#include <locale.h>
Ev ev; ad_conf conf; static std::string PROP; static int64_t MAXN = 60; static int64_t MINN = 0;
typedef std::vector<int64_t> VI;
struct Bad { const char *key; std::string what; };
#define CHECK(c, key, ...) do { ev.count("observations"); if (!(c)) throw Bad{ key, fmt(__VA_ARGS__) }; } while (0)
static double T(double x) { return conf.distance_is_float ? (double)(float)x : x; }
static void quiet_run(void *o, const Data &d) { char *p = (char *)malloc(d.raw.size() ? d.raw.size() : 1); memcpy(p, d.raw.data(), d.raw.size()); ad_run(o, p, d.rows, d.cols, d.rowwise, d.dtype); free(p); }
static Data pick_data(Rng &r) { GenOpt o; o.maxn = MAXN; o.minn = MINN; if (MINN && PROP == "O01") o.kind = r.chance(50) ? (int)G_CHAIN : (int)G_GRID; /* long lines, but not many */ o.floatRange = conf.distance_is_float; Data d = gen_data(r, o); if (MINN) ev.count("large_cases"); return d; }

static VI random_labels(Rng &r, int64_t n, std::string *how = nullptr) {
	VI l; int z = (int)r.range(0, n > 3000 ? 2 : 5); int64_t k = r.range(1, z < 3 ? 6 : 40); int64_t top = conf.label_bytes == 2 ? 65535 : conf.label_bytes == 4 ? 4294967295ll : INT64_MAX;
	for (int64_t i = 0; i < n; i++) l.push_back(z == 0 ? i / std::max<int64_t>(1, n / k) : z == 1 ? k - i % k : z == 2 ? r.range(0, k) : z == 3 ? r.range(0, 60000) : z == 4 ? (r.chance(50) ? 0 : r.range(1, k)) : (r.chance(40) ? top - r.range(0, 3) : r.range(0, 4)));
	if (how) *how = fmt("labels of kind %d", z); return l;
}
static xmap ref_map(const VI &l, int64_t b, int64_t e) { xmap m; for (int64_t i = b; i < e; i++) m[l[(size_t)i]].push_back(i); return m; }
static xmap get_map(void *m, int64_t n) {
	xmap r; int64_t k = ad_map_size(m); for (int64_t i = 0; i < k; i++) { int64_t key = ad_map_key(m, i); CHECK(!r.count(key), "map-keys", "label %lld is listed twice", (long long)key); VI v((size_t)n + 1); int64_t c = ad_map_list(m, key, v.data(), n + 1); CHECK(c >= 0 && c <= n, "map-list", "label %lld has %lld points", (long long)key, (long long)c); v.resize((size_t)c); r[key] = v; } return r;
}
static std::string map_diff(const xmap &got, const xmap &want) {
	for (auto &p : want) { auto it = got.find(p.first); if (it == got.end()) return fmt("label %lld is missing", (long long)p.first); if (it->second != p.second) { size_t i = 0; while (i < it->second.size() && i < p.second.size() && it->second[i] == p.second[i]) i++; return fmt("label %lld: %zu points, expected %zu, first difference at %zu (%lld)", (long long)p.first, it->second.size(), p.second.size(), i, i < it->second.size() ? (long long)it->second[i] : -1ll); } }
	for (auto &p : got) if (!want.count(p.first)) return fmt("label %lld is too many", (long long)p.first); return "";
}
// ------------------------------------------------------------------ A01
static uint64_t hashv(const VI &v, uint64_t h = 7) { return fnv(v.data(), v.size() * 8, h); }
static void a01(Rng &r, const std::string &id) {
	int64_t n = r.chance(10) ? r.range(100, 900) : r.range(1, 60); if (r.unit() < 0.003) { n = conf.index_bytes == 2 ? r.range(10000, 65000) : r.range(30000, 150000); ev.count("large_arrays"); } VI l = random_labels(r, n); int64_t b = r.chance(60) ? 0 : r.range(0, n), e = r.chance(60) ? n : r.range(b, n);
	ev.begin(id, fmt("cluster map of labels %lld..%lld of %lld", (long long)b, (long long)e, (long long)n)); l.resize((size_t)e);
	xmap want = ref_map(l, b, e); void *m = ad_map_create(l.data(), e, b, e); xmap got = get_map(m, n); std::string d = map_diff(got, want); CHECK(d.empty(), "map", "%s", d.c_str());
	for (int k = 0; k < 6; k++) { int64_t q = r.chance(50) ? r.range(0, 70) : r.range(0, 60000); VI x((size_t)n + 1); int64_t c = ad_map_list(m, q, x.data(), n); CHECK((c >= 0) == (want.count(q) > 0), "map-lookup", "label %lld %s", (long long)q, c >= 0 ? "found" : "missing"); }
	ad_map_destroy(m); ev.count("labels_seen", (long long)want.size()); ev.count("points_mapped", e - b); if (want.size() > 1) ev.nontrivial(hashv(l, (uint64_t)b)); ev.sample(fmt("%lld..%lld of %lld points, %zu labels", (long long)b, (long long)e, (long long)n, want.size()));
}
// ------------------------------------------------------------------ A02
static xmap shuffled_map(Rng &r, const VI &l) { xmap m = ref_map(l, 0, (int64_t)l.size()); for (auto &p : m) { auto &v = p.second; int z = (int)r.range(0, 2); if (z == 0) for (size_t i = v.size() - 1; i > 0; i--) std::swap(v[i], v[(size_t)r.range(0, (int64_t)i)]); else if (z == 1) std::reverse(v.begin(), v.end()); } return m; }
static void *c_map(const xmap &m) { VI k, s, v; for (auto &p : m) { k.push_back(p.first); s.push_back((int64_t)p.second.size()); v.insert(v.end(), p.second.begin(), p.second.end()); } return ad_map_lists(k.data(), s.data(), v.data(), (int64_t)k.size()); }
static xranges get_ranges(void *d, int64_t k) { std::vector<ad_range> g((size_t)k + 4); memset(g.data(), 0, g.size() * sizeof g[0]); int64_t c = ad_ranges_get(d, g.data(), k + 4); CHECK(c == k, "range-count", "%lld ranges for %lld clusters", (long long)c, (long long)k); xranges r; for (int64_t i = 0; i < c; i++) r[g[(size_t)i].label] = g[(size_t)i]; return r; }
static xranges ref_ranges(const ad_snap *s, const xmap &m) {
	xranges r; for (auto &p : m) { ad_range a; a.label = p.first; a.min_cr = 0; a.max_cr = 0; a.min_dr = conf.dmax; a.max_dr = conf.dmin; a.cr_conf = a.dr_conf = 0; bool f = true;
		for (int64_t i : p.second) { double c = s->core[i]; if (f || c > a.max_cr) a.max_cr = c; f = false; if (c != 0 && (a.min_cr == 0 || c < a.min_cr)) a.min_cr = c; }
		double lo = INFINITY, hi = 0; for (int64_t i : p.second) for (int64_t j : p.second) if (i != j) { double d = s->dist[i * s->n + j]; if (d != 0) { lo = std::min(lo, d); hi = std::max(hi, d); } }
		if (hi > 0) { a.min_dr = lo; a.max_dr = hi; } r[p.first] = a; } return r;
}
static void same_ranges(const xranges &g, const xranges &w, const char *key) { CHECK(g.size() == w.size(), key, "%zu ranges, expected %zu", g.size(), w.size());
	for (auto &p : w) { auto it = g.find(p.first); CHECK(it != g.end(), key, "no range for cluster %lld", (long long)p.first); const ad_range &a = it->second, &b = p.second;
		CHECK(a.min_cr == b.min_cr && a.max_cr == b.max_cr, key, "cluster %lld core distances %.17g..%.17g, expected %.17g..%.17g", (long long)p.first, a.min_cr, a.max_cr, b.min_cr, b.max_cr);
		CHECK(a.min_dr == b.min_dr && a.max_dr == b.max_dr, key, "cluster %lld distances %.17g..%.17g, expected %.17g..%.17g", (long long)p.first, a.min_dr, a.max_dr, b.min_dr, b.max_dr); } }
static VI own_labels(const ad_snap *s) { return VI(s->labels, s->labels + s->n); }
static void a02(Rng &r, const std::string &id) {
	Data d = pick_data(r); int64_t mp = gen_minpts(r, d); ev.begin(id, d.desc() + fmt(" minPts %lld", (long long)mp)); Run u; u.o = ad_new(mp); quiet_run(u.o, d); if (r.chance(25)) ad_rerun(u.o, mp = gen_minpts(r, d)); ad_snap *s = ad_snapshot(u.o, 100000);
	struct G { ad_snap *s; ~G() { ad_snap_free(s); } } g{ s };
	for (int k = 0; k < 3; k++) {
		VI l = k == 0 ? own_labels(s) : random_labels(r, s->n); for (auto &x : l) x &= 0xffff; xmap m = k == 2 ? shuffled_map(r, l) : ref_map(l, 0, s->n); void *t = k == 0 ? ad_map_of(u.o) : k == 1 ? ad_map_create(l.data(), s->n, 0, s->n) : c_map(m);
		if (k == 0 && m.count(0) && r.chance(40)) { ad_map_drop(t, 0); m.erase(0); ev.count("maps_without_noise"); ev.count("empty_maps", m.empty()); }
		void *dm = ad_ranges(u.o, t); xranges got = get_ranges(dm, (int64_t)m.size()); same_ranges(got, ref_ranges(s, m), "range"); for (auto &p : got) CHECK(p.second.cr_conf == 0 && p.second.dr_conf == 0, "range-confidence", "confidence of %lld is %g, %g before any statistics", (long long)p.first, p.second.cr_conf, p.second.dr_conf);
		xmap after = get_map(t, s->n); std::string df = map_diff(after, m); CHECK(df.empty(), "map-changed", "%s", df.c_str()); ad_ranges_destroy(dm); ad_map_destroy(t); ev.count("ranges", (long long)m.size()); for (auto &p : m) { bool z = false; for (int64_t i : p.second) z |= s->core[i] == 0; ev.count("clusters_with_zero_core", z); ev.count("clusters_of_one", p.second.size() == 1); }
	}
	if (s->n > 2) ev.nontrivial(d.hash() ^ (uint64_t)mp); ev.sample(d.desc() + fmt(" minPts %lld", (long long)mp));
}
// ------------------------------------------------------------------ A03
struct RStat { long double v[6]; bool ok[6]; };
static RStat ref_stats(const std::vector<double> &x) { // mean sd variance max kurtosis skewness
	RStat s; size_t n = x.size(); long double mean = 0, mx = -INFINITY, am = 0; bool fin = true; for (double a : x) { if (!std::isfinite(a)) fin = false; mean += a; mx = std::max<long double>(mx, a); am = std::max<long double>(am, std::fabs(a)); } mean /= (long double)n;
	for (int i = 0; i < 6; i++) s.ok[i] = fin; if (!fin) return s;
	long double v = 0, c = 0, q = 0; for (double a : x) { long double d = a - mean; v += d * d; c += d * d * d; q += d * d * d * d; } v /= (long double)n - 1; long double sd = sqrtl(v);
	s.v[0] = mean; s.v[1] = sd; s.v[2] = v; s.v[3] = mx; s.v[5] = c / ((long double)n * sd * sd * sd); s.v[4] = q / ((long double)n * sd * sd * sd * sd) - 3;
	long double lim = conf.distance_is_float ? 1e9L : 1e70L, eps = conf.distance_is_float ? 3e2L : 1e6L; if (n < 2 || am > lim) s.ok[0] = s.ok[1] = s.ok[2] = s.ok[4] = s.ok[5] = false; if (n == 1) s.ok[0] = am <= lim;
	if (n >= 2 && (sd == 0 || am / sd > eps)) s.ok[1] = s.ok[2] = s.ok[4] = s.ok[5] = false; // ill-conditioned
	if (sd < (conf.distance_is_float ? 1e-8L : 1e-60L)) s.ok[4] = s.ok[5] = false; return s;
}
static const char *stat_names[] = { "mean", "standard deviation", "variance", "maximum", "kurtosis", "skewness" };
static void check_stats(const ad_stats &st, const std::vector<double> *x, const char *pre) {
	if (x[0].empty()) { CHECK(st.count == 0, "count", "%s: count %lld without clusters", pre, (long long)st.count); for (int k = 0; k < 2; k++) for (int i = 0; i < 6; i++) CHECK(std::isnan(st.v[k][i]), "none", "%s: %s of %s distance ratios is %.12g without clusters", pre, stat_names[i], k ? "intra" : "core", st.v[k][i]); ev.count("no_clusters"); return; }
	CHECK(st.count == (int64_t)x[0].size(), "count", "%s: count %lld, expected %zu", pre, (long long)st.count, x[0].size());
	for (int k = 0; k < 2; k++) { RStat w = ref_stats(x[k]); for (int i = 0; i < 6; i++) if (w.ok[i]) { ev.count("statistics"); double tol = (conf.distance_is_float ? 2e-3 : 1e-7); double want = (double)w.v[i], sc = i >= 4 ? 1.0 : std::fabs(want); if (i == 0) for (double a : x[k]) sc = std::max(sc, std::fabs(a)); if (i == 3) tol = 0; CHECK(std::fabs(st.v[k][i] - want) <= tol * sc, k ? "intra" : "core", "%s: %s of %s distance ratios is %.12g, expected %.12g (%zu clusters)", pre, stat_names[i], k ? "intra" : "core", st.v[k][i], want, x[k].size()); } }
}
static std::vector<ad_range> random_ranges(Rng &r, int64_t k, bool wild) {
	std::vector<ad_range> v; int kind = (int)r.range(0, 4); int64_t lab = r.range(0, 1); for (int64_t i = 0; i < k; i++) { ad_range a; a.label = lab; lab += r.chance(80) || k > 1000 ? 1 : r.range(1, 40); auto f = [&]() -> double { return kind == 0 ? (double)r.range(1, 9) : kind == 1 ? 0.1 + r.unit() * 10 : kind == 2 ? std::exp(r.normal() * 2) : kind == 3 ? (r.chance(80) ? 1 : 50) : 1 + 0.01 * r.unit(); };
		double p = f(), q = f(), s = f(), t = f(); if (kind == 3 && r.chance(70)) q = p; a.min_cr = T(std::min(p, q)); a.max_cr = T(std::max(p, q)); a.min_dr = T(std::min(s, t)); a.max_dr = T(std::max(s, t)); if (wild && r.chance(8)) a.min_cr = 0; if (wild && r.chance(4)) a.max_cr = 0; if (wild && r.chance(8)) { a.min_dr = conf.dmax; a.max_dr = conf.dmin; } a.cr_conf = T(r.unit() * 100); a.dr_conf = T(r.unit() * 100); v.push_back(a); } return v;
}
static double ratio(double a, double b) { return conf.distance_is_float ? (double)((float)a / (float)b) : a / b; }
static int ref_validity(const ad_stats &s) { int v = 0; for (int k = 0; k < 2; k++) { double sk = s.v[k][5], ku = s.v[k][4]; v += sk > 0 && ku > 0 ? 2 : sk < 0 && ku > 0 ? 1 : sk > 0 && ku < 0 ? 0 : -1; } return v; }
static void check_conf(const xranges &g, const std::vector<double> *x, const ad_stats &st) {
	size_t i = 0; for (auto &p : g) { for (int k = 0; k < 2; k++) { double mx = st.v[k][3], c = k ? p.second.dr_conf : p.second.cr_conf, q = x[k][i]; bool fin = std::isfinite(mx) && mx > 0; for (double a : x[k]) fin = fin && std::isfinite(a); if (!fin || mx > (conf.distance_is_float ? 1e30 : 1e300)) { ev.count("confidences_not_finite"); continue; }
			double want = (mx - q) / mx * 100; ev.count("confidences"); CHECK(std::fabs(c - want) <= (conf.distance_is_float ? 1e-3 : 1e-9), "confidence", "cluster %lld: confidence %.12g, expected %.12g (ratio %.12g, maximum %.12g)", (long long)p.first, c, want, q, mx); } i++; }
}
static void same_stats(const ad_stats &a, const ad_stats &b, const char *key, const char *what) { CHECK(a.count == b.count, key, "%s: count %lld and %lld", what, (long long)a.count, (long long)b.count); for (int k = 0; k < 2; k++) for (int i = 0; i < 6; i++) CHECK(same(a.v[k][i], b.v[k][i]), key, "%s: %s of %s ratios %.17g and %.17g", what, stat_names[i], k ? "intra" : "core", a.v[k][i], b.v[k][i]); }
static void a03(Rng &r, const std::string &id) {
	bool real = r.chance(35); void *dm = nullptr; Run u; void *m = nullptr; std::vector<ad_range> in; uint64_t h; std::string what;
	struct G { void *&d, *&m; ~G() { if (d) ad_ranges_destroy(d); if (m) ad_map_destroy(m); } } guard{ dm, m };
	if (real) { Data d = pick_data(r); int64_t mp = gen_minpts(r, d); what = d.desc() + fmt(" minPts %lld", (long long)mp); ev.begin(id, what); u.o = ad_new(mp); quiet_run(u.o, d); int64_t n = ad_numpoints(u.o); if (r.chance(50)) m = ad_map_of(u.o); else { VI l = random_labels(r, n); for (auto &x : l) x &= 0xff; m = ad_map_create(l.data(), n, 0, n); } dm = ad_ranges(u.o, m); h = d.hash() ^ (uint64_t)mp; }
	else { in = random_ranges(r, r.unit() < 0.0015 && !conf.distance_is_float ? (ev.count("large_tables"), r.range(20000, conf.label_bytes == 2 ? 24000 : r.chance(50) ? 36000 : 68000)) : r.chance(10) ? r.range(40, 300) : r.chance(3) ? 0 : r.range(1, 14), r.chance(40)); h = fnv(in.data(), in.size() * sizeof in[0]); what = fmt("%zu given ranges", in.size()); ev.begin(id, what); dm = ad_ranges_fake(in.data(), (int64_t)in.size()); }
	size_t room = std::max<size_t>(1000, in.size() + 1); std::vector<ad_range> g0(room); int64_t k = ad_ranges_get(dm, g0.data(), (int64_t)room); g0.resize((size_t)k); std::vector<double> x[2]; for (auto &a : g0) { x[0].push_back(ratio(a.max_cr, a.min_cr)); x[1].push_back(ratio(a.max_dr, a.min_dr)); }
	ad_stats st, s2, s3; ad_stats_compute(dm, &st, (int)r.range(0, 255)); check_stats(st, x, "first"); xranges g1 = get_ranges(dm, k); check_conf(g1, x, st);
	for (auto &a : g0) { auto &b = g1[a.label]; CHECK(same(a.min_cr, b.min_cr) && same(a.max_cr, b.max_cr) && same(a.min_dr, b.min_dr) && same(a.max_dr, b.max_dr), "ranges-changed", "the range of cluster %lld changed", (long long)a.label); }
	s2 = st; ad_stats_compute(dm, &s2, -1); same_stats(st, s2, "repeat", "repeated into the same structure"); ad_stats_compute(dm, &s3, (int)r.range(0, 255)); same_stats(st, s3, "repeat", "repeated into another structure");
	xranges g2 = get_ranges(dm, k); for (auto &p : g1) CHECK(same(p.second.cr_conf, g2[p.first].cr_conf) && same(p.second.dr_conf, g2[p.first].dr_conf), "repeat-confidence", "confidence of cluster %lld changes when repeated", (long long)p.first);
	int v = ad_stats_analyse(&st), w = ref_validity(st); CHECK(v == w, "validity", "validity %d, expected %d", v, w);
	if (k > 0) { ad_stats sh; ad_stats_helper(x[0].data(), x[1].data(), k, &sh); check_stats(sh, x, "helper"); }
	for (int q = 0; q < 8; q++) { ad_stats y; memset(&y, 0, sizeof y); y.count = 3; auto f = [&]() -> double { int z = (int)r.range(0, 6); return z < 2 ? 1.5 : z < 4 ? -0.25 : z == 4 ? 0 : z == 5 ? NAN : (r.chance(50) ? INFINITY : -INFINITY); }; for (int a = 0; a < 2; a++) { y.v[a][4] = f(); y.v[a][5] = f(); } int gv = ad_stats_analyse(&y), wv = ref_validity(y); ev.count("validities"); CHECK(gv == wv, "validity", "validity %d for core skewness %g kurtosis %g, intra %g %g, expected %d", gv, y.v[0][5], y.v[0][4], y.v[1][5], y.v[1][4], wv); }
	if (k > 1) ev.nontrivial(h); ev.sample(what + fmt(": %lld clusters", (long long)k));
}
static int open_files() { int k = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) k++; closedir(d); return k; }
// ------------------------------------------------------------------ A04
static void check_sorted(const VI &out, VI in, const std::map<int64_t, double> &val, const char *what) {
	VI a = out, b = in; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "permutation", "%s: %zu clusters returned, expected %zu, or others", what, out.size(), in.size());
	bool nan = false; for (int64_t l : out) nan |= std::isnan(val.at(l)); if (nan) { ev.count("sorts_with_nan"); return; }
	for (size_t i = 1; i < out.size(); i++) CHECK(val.at(out[i - 1]) <= val.at(out[i]), "order", "%s: cluster %lld (%.17g) before cluster %lld (%.17g)", what, (long long)out[i - 1], val.at(out[i - 1]), (long long)out[i], val.at(out[i])); ev.count("sorts");
}
static VI subset(Rng &r, const VI &all, int *how) { *how = (int)r.range(0, 4); VI in; if (*how <= 1) return in; if (*how == 2) { in = all; for (size_t i = in.size(); i > 1; i--) std::swap(in[i - 1], in[(size_t)r.range(0, (int64_t)i - 1)]); return in; } if (*how == 3) { for (int64_t x : all) if (r.chance(40)) in.push_back(x); if (in.empty()) in.push_back(all[0]); return in; } int64_t c = r.range(1, 2 * (int64_t)all.size()); for (int64_t i = 0; i < c; i++) in.push_back(all[(size_t)r.range(0, (int64_t)all.size() - 1)]); return in; }
static void a04(Rng &r, const std::string &id) {
	int64_t k = r.chance(10) ? r.range(100, 1500) : r.chance(5) ? 0 : r.range(1, 30); int mode = (int)r.range(0, 2); VI lab, sz; int64_t l = r.range(0, 2); int style = (int)r.range(0, 6); bool many = r.unit() < 0.004; if (many) { k = conf.label_bytes == 2 ? r.range(5000, 30000) : r.range(33000, 70000); style = 4; ev.count("large_tables"); mode = (int)r.range(1, 2); } std::vector<ad_range> rg; std::map<int64_t, double> val;
	ev.begin(id, fmt("sort %lld clusters by %s, values of kind %d", (long long)k, mode == 0 ? "length" : mode == 1 ? "core similarity" : "intra similarity", style));
	for (int64_t i = 0; i < k; i++) { lab.push_back(l); l += r.chance(85) || many ? 1 : r.range(1, 30); auto f = [&]() -> double { switch (style) { case 0: return (double)r.range(0, 4); case 1: return (double)i; case 2: return (double)(k - i); case 3: return 7; case 4: return T(r.unit() * 100); case 5: return r.chance(25) ? NAN : (double)r.range(0, 9); default: return r.chance(15) ? INFINITY : r.chance(15) ? -INFINITY : r.chance(10) ? NAN : T(r.normal()); } };
		double a = f(), b = f(); int64_t s = style <= 3 ? (int64_t)a : r.range(0, 40); sz.push_back(std::min<int64_t>(s, 400)); ad_range g; g.label = lab.back(); g.min_cr = g.min_dr = 1; g.max_cr = g.max_dr = 2; g.cr_conf = a; g.dr_conf = b; rg.push_back(g); val[lab.back()] = mode == 0 ? (double)sz.back() : mode == 1 ? a : b; }
	void *t = mode == 0 ? ad_map_fake(lab.data(), sz.data(), k) : ad_ranges_fake(rg.data(), k);
	struct G { void *t; int m; ~G() { if (m) ad_ranges_destroy(t); else ad_map_destroy(t); } } guard{ t, mode };
	uint64_t h = fnv(lab.data(), lab.size() * 8, (uint64_t)mode); for (int q = 0; q < 3; q++) {
		int how = 0; VI in = k ? subset(r, lab, &how) : VI(); VI out(2 * (size_t)k + 4, -7); int64_t dummy = 0; int64_t n = ad_sort(t, mode, how == 0 ? nullptr : in.empty() ? &dummy : in.data(), (int64_t)in.size(), out.data(), (int64_t)out.size()); CHECK(n >= 0 && n <= (int64_t)out.size(), "result", "no list returned"); out.resize((size_t)n); check_sorted(out, in.empty() ? lab : in, val, fmt("list %d", how).c_str()); h = fnv(in.data(), in.size() * 8, h);
		if (mode == 0) { CHECK(ad_map_size(t) == k, "table-changed", "%lld clusters in the table", (long long)ad_map_size(t)); for (int64_t i = 0; i < k; i++) { VI x(500); int64_t c = ad_map_list(t, lab[(size_t)i], x.data(), 500); CHECK(c == sz[(size_t)i], "table-changed", "cluster %lld has %lld members", (long long)lab[(size_t)i], (long long)c); } }
		else { xranges g = get_ranges(t, k); for (auto &a : rg) CHECK(g.count(a.label) && same(g[a.label].cr_conf, a.cr_conf) && same(g[a.label].dr_conf, a.dr_conf) && g[a.label].max_cr == 2 && g[a.label].min_cr == 1, "table-changed", "entry of %lld changed", (long long)a.label); }
	}
	if (k > 1) { for (auto &p : val) { double v = p.second; h = fnv(&v, 8, h); } ev.nontrivial(h); } ev.sample(fmt("%lld clusters by mode %d, values of kind %d", (long long)k, mode, style));
}
// ------------------------------------------------------------------ A05
static void a05(Rng &r, const std::string &id) {
	Data d = pick_data(r); int64_t mp = gen_minpts(r, d); ev.begin(id, d.desc() + fmt(" minPts %lld", (long long)mp)); Run u; u.o = ad_new(mp); quiet_run(u.o, d); int64_t n = ad_numpoints(u.o); ad_snap *s = ad_snapshot(u.o, 100000); struct GS { ad_snap *s; ~GS() { ad_snap_free(s); } } gs{ s };
	VI l = r.chance(50) ? own_labels(s) : random_labels(r, n); for (auto &x : l) x &= 0xffff; int64_t b = r.chance(80) ? 0 : r.range(0, n - 1), e = r.chance(80) ? n : r.range(b + 1, n);
	void *t = ad_map_create(l.data(), n, b, e); void *dm = nullptr; struct G { void *&t, *&d; ~G() { if (d) ad_ranges_destroy(d); if (t) ad_map_destroy(t); } } guard{ t, dm };
	xmap cm = get_map(t, n), xm = x_map(l, b, e); std::string df = map_diff(xm, cm); CHECK(df.empty(), "map", "C++ map differs from the C one: %s", df.c_str());
	if (r.chance(40)) { VI sub(l.begin(), l.end()); xm = cm = shuffled_map(r, sub); ad_map_destroy(t); t = c_map(cm); }
	if (cm.count(0) && r.chance(30)) { ad_map_drop(t, 0); cm.erase(0); xm.erase(0); ev.count("maps_without_noise"); ev.count("empty_maps", cm.empty()); }
	dm = ad_ranges(u.o, t); xranges cr = get_ranges(dm, (int64_t)cm.size()), xr = x_ranges(u.o, xm); same_ranges(xr, cr, "range");
	if (r.chance(40)) { std::vector<ad_range> in = random_ranges(r, r.range(1, 30), r.chance(30)); ad_ranges_destroy(dm); dm = ad_ranges_fake(in.data(), (int64_t)in.size()); xr.clear(); for (auto &a : in) xr[a.label] = a; }
	ad_stats a, x; ad_stats_compute(dm, &a, (int)r.range(0, 255)); x_stats(xr, x, (int)r.range(0, 255)); xranges c2 = get_ranges(dm, (int64_t)xr.size());
	bool order = false, undef[2] = { false, false }; for (auto &p : xr) { order |= conf.label_bytes == 2 && p.first > 32767; undef[0] |= std::isnan(ratio(p.second.max_cr, p.second.min_cr)); undef[1] |= std::isnan(ratio(p.second.max_dr, p.second.min_dr)); } // the maximum of values some of which are undefined depends on their order
	auto eq = [&](double p, double q, double sc) { return same(p, q) || std::fabs(p - q) <= (conf.distance_is_float ? 1e-3 : 1e-8) * std::max({ std::fabs(p), std::fabs(q), sc }); };
	CHECK(a.count == x.count, "stats", "count %lld in C++, %lld in C", (long long)x.count, (long long)a.count);
	for (int k = 0; k < 2; k++) { bool ill = !(a.v[k][1] > 1e-6 * a.v[k][3]); for (int i = 0; i < 6; i++) { if (ill && (i == 1 || i == 2 || i >= 4)) { CHECK(std::isnan(a.v[k][i]) || std::isnan(x.v[k][i]) || i >= 4 || eq(a.v[k][i], x.v[k][i], a.v[k][3] * 1e-6), "stats", "%s of %s ratios %.17g in C++, %.17g in C", stat_names[i], k ? "intra" : "core", x.v[k][i], a.v[k][i]); continue; } if (i == 3 && order && undef[k]) continue; ev.count("values_compared"); CHECK(eq(a.v[k][i], x.v[k][i], i >= 4 ? 1 : 0), "stats", "%s of %s ratios %.17g in C++, %.17g in C", stat_names[i], k ? "intra" : "core", x.v[k][i], a.v[k][i]); } }
	for (auto &p : c2) { CHECK(xr.count(p.first), "confidence", "no confidence for %lld", (long long)p.first); ev.count("values_compared", 2); CHECK(((order && undef[0]) || eq(p.second.cr_conf, xr[p.first].cr_conf, 100)) && ((order && undef[1]) || eq(p.second.dr_conf, xr[p.first].dr_conf, 100)), "confidence", "cluster %lld: confidences %.12g %.12g in C++, %.12g %.12g in C", (long long)p.first, xr[p.first].cr_conf, xr[p.first].dr_conf, p.second.cr_conf, p.second.dr_conf); }
	{ int v = x_analyse(a), w = ad_stats_analyse(&a); CHECK(v == w, "validity", "validity %d in C++, %d in C", v, w); }
	for (int mode = 0; mode < 3; mode++) {
		VI all; std::map<int64_t, double> val; if (mode == 0) for (auto &p : cm) { all.push_back(p.first); val[p.first] = (double)p.second.size(); } else for (auto &p : c2) { all.push_back(p.first); val[p.first] = mode == 1 ? p.second.cr_conf : p.second.dr_conf; }
		int how = 0; VI in = all.empty() ? VI() : subset(r, all, &how), xo = in, co(2 * all.size() + 4); bool changed = false; int64_t dummy = 0; int64_t c = ad_sort(mode ? dm : t, mode, in.empty() ? nullptr : in.data(), (int64_t)in.size(), co.data(), (int64_t)co.size()); (void)dummy; co.resize((size_t)std::max<int64_t>(0, c));
		xranges xs; for (auto &p : c2) xs[p.first] = p.second; x_sort(mode, &cm, &xs, xo, &changed); CHECK(!changed, "table-changed", "sorting changed the table"); check_sorted(xo, in.empty() ? all : in, val, fmt("C++ mode %d", mode).c_str());
		bool nan = false; for (auto &p : val) nan |= std::isnan(p.second); if (!nan) { CHECK(co.size() == xo.size(), "sort", "%zu clusters in C++, %zu in C", xo.size(), co.size()); for (size_t i = 0; i < xo.size(); i++) CHECK(val[xo[i]] == val[co[i]], "sort", "position %zu: cluster %lld in C++, %lld in C", i, (long long)xo[i], (long long)co[i]); }
	}
	if (r.chance(20)) { // tables of their own, from empty ones to clusters of several hundred points
		int64_t k = r.chance(20) ? 0 : r.range(1, 25), big = r.chance(50) ? 700 : 40; bool many = r.chance(2); if (many) { k = conf.label_bytes == 2 ? 20000 : r.range(33000, 66000); big = 5; ev.count("large_tables"); } xmap q; xranges rg; std::map<int64_t, double> val[3]; VI all, lab, sz; for (int64_t i = 0, x = r.range(0, 2); i < k; i++, x += many ? 1 : r.range(1, 9)) { int64_t c = r.chance(30) ? r.range(0, 3) : r.range(0, big); auto &w = q[x]; for (int64_t z = 0; z < c; z++) w.push_back(z); ad_range g; memset(&g, 0, sizeof g); g.label = x; g.cr_conf = T(r.chance(50) && !many ? (double)r.range(0, 5) : r.normal() * 1000); g.dr_conf = T(r.chance(50) && !many ? (double)r.range(-300, 300) : r.normal()); rg[x] = g; val[0][x] = (double)c; val[1][x] = g.cr_conf; val[2][x] = g.dr_conf; all.push_back(x); lab.push_back(x); sz.push_back(c); }
		for (int mode = many ? 1 : 0; mode < 3; mode++) { int how = 0; VI in = k ? subset(r, all, &how) : VI(), xo = in; bool changed = false; x_sort(mode, &q, &rg, xo, &changed); CHECK(!changed, "table-changed", "sorting changed the table"); check_sorted(xo, in.empty() ? all : in, val[mode], fmt("C++ mode %d of %lld clusters of up to %lld points", mode, (long long)k, (long long)big).c_str()); ev.count("own_tables"); }
		if (many) { int64_t z = conf.index_bytes == 2 ? r.range(10000, 65000) : r.range(33000, 150000); VI y = random_labels(r, z); std::string dd = map_diff(x_map(y, 0, z), ref_map(y, 0, z)); CHECK(dd.empty(), "map", "C++ map of %lld points: %s", (long long)z, dd.c_str()); ev.count("large_arrays"); }
	}
	if (cm.size() > 1) ev.nontrivial(d.hash() ^ (uint64_t)mp ^ hashv(l)); ev.sample(d.desc() + fmt(" minPts %lld, %zu labels", (long long)mp, cm.size()));
}
// ------------------------------------------------------------------ K01
static void k01(Rng &r, const std::string &id) {
	int64_t k = r.chance(15) ? r.range(20, 80) : r.range(1, 14); bool huge = !conf.distance_is_float && r.unit() < 0.001; if (huge) { k = conf.label_bytes == 2 ? r.range(5000, 30000) : r.range(5000, 40000); ev.count("large_trees"); } int64_t top = huge || r.chance(3) ? 60000 : 40; struct Node { int64_t parent; int64_t size; double birth, death, stab; int64_t own, vc; VI virt; std::vector<int64_t> kids; double lowest; }; std::vector<Node> t; std::vector<void *> c; ev.begin(id, fmt("tree of %lld clusters", (long long)k));
	struct G { std::vector<void *> &c; ~G() { for (void *p : c) k_free(p); } } guard{ c }; uint64_t h = 5; bool intq = r.chance(60), cons = r.chance(60); long mark = wrap_live(); (void)mark;
	for (int64_t i = 0; i < k; i++) { Node n; n.parent = i == 0 ? -1 : r.chance(50) ? r.range(0, i - 1) : r.range(std::max<int64_t>(0, i - (huge ? 40 : 3)), i - 1); if (huge && i > 100 && r.chance(40)) n.parent = r.range(0, 20); if (i && r.chance(2)) n.parent = -1; n.size = r.range(1, top); n.birth = n.parent < 0 ? NAN : t[(size_t)n.parent].death; n.death = (n.parent < 0 ? T(64.0) : n.birth) * (intq ? 0.5 : T(0.2 + 0.7 * r.unit())); n.death = T(n.death); n.stab = 0; n.own = cons ? r.range(0, 3) : 0; n.vc = cons && r.chance(30) ? r.range(0, 3) : 0; if (n.parent >= 0) t[(size_t)n.parent].kids.push_back(i);
		t.push_back(n); h = h * 131 + (uint64_t)(n.parent + 2) * 7 + (uint64_t)n.own * 3 + (uint64_t)n.size; c.push_back(k_new(i + 1, n.parent < 0 ? nullptr : c[(size_t)n.parent], n.birth, n.size));
		k_state s = k_get(c.back()); CHECK(s.label == i + 1 && s.n == n.size && same(s.birth, n.birth) && s.death == 0 && s.stab == 0 && s.pstab == 0 && !s.kids && s.own == 0 && s.prop == 0 && s.desc.empty() && s.virt.empty() && s.parent == (n.parent < 0 ? -1 : n.parent + 1), "new", "a new cluster shows other values"); }
	for (int64_t i = 0; i < k; i++) { Node &n = t[(size_t)i]; void *p = c[(size_t)i]; CHECK(k_get(p).kids == !n.kids.empty(), "has-children", "cluster %lld with %zu children is marked %d", (long long)i + 1, n.kids.size(), k_get(p).kids);
		int64_t left = n.size; double lv = n.birth; int guard2 = 0; bool lives = n.kids.empty() && r.chance(6); if (lives) { n.death = 0; ev.count("undying_clusters"); } /* keeps some of its points, so its death level stays 0 */ if (n.parent >= 0 && lives) { int64_t q = r.range(0, left - 1); lv = n.birth * 0.5; int ok = k_detach(p, q, T(lv)); CHECK(ok, "detach-result", "detaching %lld of %lld points failed", (long long)q, (long long)left); n.stab = k_get(p).stab; CHECK(k_get(p).death == 0 && k_get(p).n == left - q, "detach-death", "a cluster with points left has died"); } else if (n.parent >= 0) while (left > 0 && guard2++ < 6) { // points leave at decreasing levels, the last at the death level
			if (r.chance(20)) { k_state b = k_get(p); int ok = k_detach(p, left + r.range(1, 5), lv); k_state a = k_get(p); CHECK(!ok, "detach-refused", "detaching more than the %lld points left was accepted", (long long)left); CHECK(a.n == b.n && same(a.stab, b.stab) && same(a.death, b.death), "detach-unchanged", "a refused detachment changed the cluster"); ev.count("refusals"); }
			bool last = guard2 == 6 || r.chance(40); int64_t q = last ? left : r.range(0, left - 1); lv = last ? n.death : T(n.death + (lv - n.death) * (intq ? 0.5 : r.unit())); int ok = k_detach(p, q, lv); CHECK(ok, "detach-result", "detaching %lld of %lld points failed", (long long)q, (long long)left); n.stab += (double)q * (1 / lv - 1 / n.birth); left -= q; k_state a = k_get(p); ev.count("detachments");
			CHECK(a.n == left, "detach-count", "%lld points left, expected %lld", (long long)a.n, (long long)left); CHECK(near(a.stab, n.stab, std::fabs((double)n.size / n.death)), "detach-stability", "stability %.17g, expected %.17g", a.stab, n.stab); CHECK(left ? a.death == 0 : a.death == n.death, "detach-death", "death level %g with %lld points left, expected %g", a.death, (long long)left, left ? 0 : n.death); n.stab = a.stab; }
		else { if (!lives) k_detach(p, n.size, n.death); n.stab = NAN; }
		if (r.chance(30)) { n.stab = k_get(p).stab; }
		int64_t o1 = n.own ? r.range(0, n.own) : 0; k_constraints(p, o1); k_constraints(p, n.own - o1); if (n.vc) k_vconstraints(p, n.vc); k_state s = k_get(p); CHECK(s.own == n.own && s.prop == n.vc, "constraints", "cluster %lld counts %lld and %lld constraints, expected %lld and %lld", (long long)i + 1, (long long)s.own, (long long)s.prop, (long long)n.own, (long long)n.vc);
		if (r.chance(40)) { std::set<int64_t> w; for (int q = 0; q < 3; q++) { VI add; for (int64_t z = r.range(0, 8); z > 0; z--) add.push_back(r.range(0, 30)); k_vadd(p, add); w.insert(add.begin(), add.end()); } k_state s2 = k_get(p); CHECK(s2.virt == VI(w.begin(), w.end()), "virtual-child", "the virtual child holds %zu points, expected %zu", s2.virt.size(), w.size()); for (int64_t z = 0; z < 32; z++) CHECK((k_vhas(p, z) != 0) == (w.count(z) > 0), "virtual-child", "point %lld reported as %d", (long long)z, k_vhas(p, z)); if (r.chance(50)) { k_vrelease(p); CHECK(k_get(p).virt == VI{ -1 }, "virtual-release", "the virtual child is still there"); if (r.chance(50)) k_vrelease(p); } ev.count("virtual_children"); } }
	// propagation in a random order with children before their parents
	std::vector<size_t> open((size_t)k); VI ready; for (int64_t i = 0; i < k; i++) { open[(size_t)i] = t[(size_t)i].kids.size(); if (!open[(size_t)i]) ready.push_back(i); }
	std::vector<double> ps((size_t)k, 0), psc((size_t)k, 0); VI pc((size_t)k); std::vector<VI> desc((size_t)k); for (int64_t i = 0; i < k; i++) pc[(size_t)i] = t[(size_t)i].vc; std::vector<double> low((size_t)k, INFINITY); bool skip = false;
	while (!ready.empty()) { size_t q = (size_t)r.range(0, (int64_t)ready.size() - 1); int64_t i = ready[q]; ready[q] = ready.back(); ready.pop_back(); Node &n = t[(size_t)i]; k_propagate(c[(size_t)i]); if (n.kids.empty()) low[(size_t)i] = n.death; ev.count("propagations");
		if (n.parent >= 0) { size_t P = (size_t)n.parent; low[P] = std::min(low[P], low[(size_t)i]); double st = k_get(c[(size_t)i]).stab, d = st - ps[(size_t)i]; bool self; if (n.kids.empty() || n.own > pc[(size_t)i]) self = true; else if (n.own < pc[(size_t)i]) self = false; else { self = st >= ps[(size_t)i]; if (std::fabs(d) <= (conf.distance_is_float ? 1e-5 : 1e-9) * psc[(size_t)i] && !(intq && st == ps[(size_t)i])) { if (d != 0 || !intq) skip = true; } ev.count("ties", st == ps[(size_t)i]); }
			if (self) { ps[P] = T(ps[P] + st); pc[P] += n.own; desc[P].push_back(i + 1); ev.count("passed_itself"); } else { ps[P] = T(ps[P] + ps[(size_t)i]); pc[P] += pc[(size_t)i]; desc[P].insert(desc[P].end(), desc[(size_t)i].begin(), desc[(size_t)i].end()); ev.count("passed_descendants"); } psc[P] += std::fabs(st) + psc[(size_t)i];
			if (--open[P] == 0) ready.push_back(n.parent); } }
	if (!skip) for (int64_t i = 0; i < k; i++) { k_state s = k_get(c[(size_t)i]); VI a = s.desc, b = desc[(size_t)i]; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "descendants", "cluster %lld has %zu propagated descendants, expected %zu, or others", (long long)i + 1, a.size(), b.size()); CHECK(s.prop == pc[(size_t)i], "constraint-sum", "cluster %lld: %lld propagated constraints, expected %lld", (long long)i + 1, (long long)s.prop, (long long)pc[(size_t)i]);
		CHECK(near(s.pstab, ps[(size_t)i], psc[(size_t)i]), "stability-sum", "cluster %lld: propagated stability %.17g, expected %.17g", (long long)i + 1, s.pstab, ps[(size_t)i]); CHECK(s.pdeath == low[(size_t)i], "lowest-death", "cluster %lld: lowest death level %.17g, expected %.17g", (long long)i + 1, s.pdeath, low[(size_t)i]); CHECK(s.own == t[(size_t)i].own && s.label == i + 1 && same(s.birth, t[(size_t)i].birth), "changed", "propagation changed cluster %lld itself", (long long)i + 1); }
	ev.count("cases_within_rounding", skip);
	for (int q = 0; q < 10; q++) { int64_t a = r.range(0, k - 1), b = r.range(0, k - 1); int x = k_compare(c[(size_t)a], c[(size_t)b]); CHECK((x < 0) == (a < b) && (x > 0) == (a > b), "compare", "comparison of labels %lld and %lld is %d", (long long)a + 1, (long long)b + 1, x); }
	if (k > 1) ev.nontrivial(h); ev.sample(fmt("tree of %lld clusters, %s constraints", (long long)k, cons ? "with" : "without"));
}
// ------------------------------------------------------------------ G01
static std::vector<VI> ref_adj(const g_state &s) { std::vector<VI> a((size_t)s.n); for (size_t i = 0; i < s.a.size(); i++) { a[(size_t)s.a[i]].push_back(s.b[i]); if (s.a[i] != s.b[i]) a[(size_t)s.b[i]].push_back(s.a[i]); } for (auto &v : a) std::sort(v.begin(), v.end()); return a; }
static std::vector<VI> sorted_adj(const g_state &s) { std::vector<VI> a = s.adj; for (auto &v : a) std::sort(v.begin(), v.end()); return a; }
typedef std::vector<std::tuple<double, int64_t, int64_t>> EL;
static EL edges(const g_state &s, int64_t lo, int64_t hi) { EL e; for (int64_t i = lo; i <= hi; i++) e.push_back(std::make_tuple(s.w[(size_t)i], std::min(s.a[(size_t)i], s.b[(size_t)i]), std::max(s.a[(size_t)i], s.b[(size_t)i]))); std::sort(e.begin(), e.end()); return e; }
static void g01(Rng &r, const std::string &id) {
	g_state s; s.n = r.chance(10) ? r.range(50, 400) : r.range(1, 20); int64_t m = r.chance(8) ? r.range(300, 2500) : r.range(0, 60); int kind = (int)r.range(0, 6); bool many = r.unit() < 0.004; if (many) { m = r.range(33000, 150000); if (r.chance(40)) s.n = conf.index_bytes == 2 ? r.range(1000, 60000) : r.range(33000, 80000); kind = (int)r.range(4, 5); ev.count("large_graphs"); } std::set<int64_t> loops; if (r.chance(30) && !many) m = 2 * s.n - 1;
	for (int64_t i = 0; i < m; i++) { int64_t a = r.range(0, s.n - 1), b = r.chance(15) ? a : r.range(0, s.n - 1); if (a == b && !loops.insert(a).second) { if (s.n == 1) continue; b = (a + 1) % s.n; } s.a.push_back(a); s.b.push_back(b); s.w.push_back(kind == 0 ? (double)r.range(0, 5) : kind == 1 ? (double)i : kind == 2 ? (double)(m - i) : kind == 3 ? 1 : kind == 4 ? T(r.normal()) : kind == 5 ? T(std::exp(r.normal() * 6)) : (r.chance(30) ? INFINITY : (double)r.range(0, 3))); } m = (int64_t)s.a.size();
	ev.begin(id, fmt("graph of %lld vertices and %lld edges, weights of kind %d", (long long)s.n, (long long)m, kind)); omp_control_threads((int)r.range(1, 3)); static bool warm = false; if (!warm) { warm = true; void *mm; omp_control_threads(3); void *g = g_new(s, false, &mm); g_free(g, mm); }
	long mark = wrap_live(); void *mem = nullptr, *g = g_new(s, r.chance(40), &mem); uint64_t h = fnv(s.w.data(), s.w.size() * 8, (uint64_t)s.n); h = hashv(s.a, h); h = hashv(s.b, h);
	struct G { void *&g, *&m; ~G() { if (g) g_free(g, m); } } guard{ g, mem }; CHECK(g != nullptr, "init", "no graph");
	{
	g_state c = g_get(g); CHECK(c.n == s.n && c.a == s.a && c.b == s.b && c.w == s.w, "edges", "the new graph has other edges"); std::vector<VI> want = ref_adj(s), got = sorted_adj(c); for (int64_t v = 0; v < s.n; v++) CHECK(got[(size_t)v] == want[(size_t)v], "neighbours", "vertex %lld has %zu neighbours, expected %zu, or others", (long long)v, got[(size_t)v].size(), want[(size_t)v].size());
	int ops = (int)(many ? r.range(2, 4) : r.range(1, 14)); for (int k = 0; k < ops; k++) {
		c = g_get(g); int op = (int)r.range(0, 3); if (many && k == 0) op = 0; ev.count("operations");
		if (op == 0) { int how = (int)r.range(0, 1); int64_t lo = 0, hi = m - 1; if (how == 1 && m && r.chance(50)) { lo = r.range(0, m - 1); hi = r.range(lo, m - 1); } g_sort(g, how, lo, hi); g_state n = g_get(g); ev.count(how ? "sorts_recursive" : "sorts_iterative"); CHECK(n.a.size() == (size_t)m && n.b.size() == (size_t)m && n.w.size() == (size_t)m, "sort-size", "sorting changed the number of edges");
			for (int64_t i = lo + 1; i <= hi; i++) CHECK(n.w[(size_t)i - 1] <= n.w[(size_t)i], "sort-order", "weight %.17g before %.17g at %lld (sort %d)", n.w[(size_t)i - 1], n.w[(size_t)i], (long long)i, how); CHECK(edges(n, 0, m - 1) == edges(c, 0, m - 1), "sort-edges", "sorting changed the edges"); for (int64_t i = 0; i < m; i++) if (i < lo || i > hi) CHECK(n.a[(size_t)i] == c.a[(size_t)i] && n.b[(size_t)i] == c.b[(size_t)i] && n.w[(size_t)i] == c.w[(size_t)i], "sort-range", "sorting %lld..%lld changed edge %lld", (long long)lo, (long long)hi, (long long)i); CHECK(sorted_adj(n) == want, "sort-neighbours", "sorting changed the neighbours"); }
		else { int64_t a, b; bool exist = false; if (m && r.chance(85)) { int64_t i = r.range(0, m - 1); a = c.a[(size_t)i]; b = c.b[(size_t)i]; if (r.chance(50)) std::swap(a, b); } else { a = r.range(0, s.n - 1); b = r.range(0, s.n - 1); } auto it = std::find(want[(size_t)a].begin(), want[(size_t)a].end(), b); exist = it != want[(size_t)a].end(); if (exist) { want[(size_t)a].erase(it); if (a != b) want[(size_t)b].erase(std::find(want[(size_t)b].begin(), want[(size_t)b].end(), a)); }
			g_remove(g, a, b); g_state n = g_get(g); ev.count(exist ? a == b ? "loops_removed" : "edges_removed" : "absent_edges"); CHECK(n.a == c.a && n.b == c.b && n.w == c.w, "remove-lists", "removing %lld-%lld changed the edge lists", (long long)a, (long long)b); got = sorted_adj(n); for (int64_t v = 0; v < s.n; v++) CHECK(got[(size_t)v] == want[(size_t)v], "remove", "after removing %lld-%lld vertex %lld has %zu neighbours, expected %zu, or others", (long long)a, (long long)b, (long long)v, got[(size_t)v].size(), want[(size_t)v].size()); }
	}
	}
	g_free(g, mem); g = nullptr; CHECK(wrap_live() == mark, "leak", "%ld blocks not released", wrap_live() - mark);
	if (m > 1) ev.nontrivial(h); ev.sample(fmt("%lld vertices, %lld edges, weights of kind %d", (long long)s.n, (long long)m, kind));
}
// ------------------------------------------------------------------ O01
// numbers of a text, in order; words are skipped
static std::vector<double> numbers(const std::string &s) {
	std::vector<double> v; const char *p = s.c_str(); while (*p) { if (isalpha((unsigned char)*p) || *p == '_') { if (!strncasecmp(p, "inf", 3) && !isalpha((unsigned char)p[3])) { v.push_back(INFINITY); p += 3; continue; } if (!strncasecmp(p, "nan", 3) && !isalpha((unsigned char)p[3])) { v.push_back(NAN); p += 3; continue; } while (isalnum((unsigned char)*p) || *p == '_') p++; continue; }
		bool neg = *p == '-' && (isdigit((unsigned char)p[1]) || !strncasecmp(p + 1, "inf", 3) || !strncasecmp(p + 1, "nan", 3)); if (isdigit((unsigned char)*p) || neg) { char *e; v.push_back(strtod(p, &e)); p = e; continue; } p++; } return v;
}
static void expect(const std::string &out, const std::vector<double> &want, double abs, const char *what) {
	std::vector<double> g = numbers(out); CHECK(g.size() == want.size(), what, "%zu numbers printed, expected %zu: %.200s", g.size(), want.size(), out.c_str()); for (size_t i = 0; i < g.size(); i++) { ev.count("printed_values"); bool ok = std::isnan(want[i]) ? std::isnan(g[i]) : std::isinf(want[i]) ? g[i] == want[i] : std::fabs(g[i] - want[i]) <= abs + 1e-15 * std::fabs(want[i]); CHECK(ok, what, "number %zu printed as %.17g, stored %.17g", i, g[i], want[i]); }
}
static std::string slurp(const std::string &p, bool *ok) { FILE *f = fopen(p.c_str(), "rb"); *ok = f != nullptr; if (!f) return ""; std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static double wild(Rng &r) { int z = (int)r.range(0, 9); if (z == 0) return T(conf.dmax); if (z == 1) return T(-conf.dmax); if (z == 2) return T(conf.dmin); if (z == 3) return r.chance(50) ? INFINITY : -INFINITY; if (z == 4) return NAN; if (z == 5) return 0; if (z == 6) return T(std::pow(10., (double)r.range(-30, 37)) * (1 + r.unit())); return T(r.normal() * 100); }
static std::string DIR_;
static void o01(Rng &r, const std::string &id) {
	int what = (int)r.range(0, MINN ? 4 : 10); ev.count(fmt("kind_%d", what)); uint64_t h = (uint64_t)what;
	if (what <= 4) {
		Data d = pick_data(r); int64_t mp = gen_minpts(r, d); static const char *parts[] = { "h", "a b", "x%s", "%d%n%x", "name.with.dots", "\xc3\xa9\xe2\x82\xac", "-", "percent%", "quote'\"", "semi;colon", "tab\tname", "%5$s", "_hierarchy", "[*?]", "csv.csv" }; std::string name; int np = (int)r.range(1, 5); for (int i = 0; i < np; i++) name += parts[r.range(0, 14)]; int64_t want = r.chance(25) ? r.range(60, 230) : 0; while ((int64_t)name.size() < want) name += (char)('a' + name.size() % 26); if (name.size() > 232) name.resize(232);
		std::string dir = DIR_; if (r.chance(25)) { int deep = (int)r.range(1, 12); for (int i = 0; i < deep; i++) { dir += "/" + std::string((size_t)r.range(1, 200), 'd'); if (mkdir(dir.c_str(), 0755) && errno != EEXIST) { dir = DIR_; break; } if (dir.size() > 3000) break; } } if (r.chance(5)) name = "";
		std::string path = dir + "/" + name; int mode = (int)r.range(0, 9); // 0: standard output, 1: not writable, 2: only one of the files writable
		ev.begin(id, d.desc() + fmt(" minPts %lld exported to a name of %zu characters, mode %d", (long long)mp, path.size(), mode)); Run u; u.o = ad_new(mp); quiet_run(u.o, d); ad_snap *s = ad_snapshot(u.o, 0); struct GS { ad_snap *s; ~GS() { ad_snap_free(s); } } gs{ s }; h = d.hash() ^ (uint64_t)mp;
		std::vector<double> lines; bool ok1, ok2; std::string vis = path + "_visualization.vis", csv = path + "_hierarchy.csv"; unlink(vis.c_str()); unlink(csv.c_str()); rmdir(vis.c_str()); rmdir(csv.c_str());
		auto checkcsv = [&](const std::string &t) { size_t pos = 0, k = 0; std::set<int64_t> seen; while (pos < t.size()) { size_t e = t.find('\n', pos); CHECK(e != std::string::npos, "csv-line", "the last line has no end"); std::string l = t.substr(pos, e - pos); pos = e + 1; CHECK(k < (size_t)s->nlines, "csv-lines", "more than %lld lines", (long long)s->nlines); std::vector<std::string> f; size_t q = 0; while (q <= l.size()) { size_t z = l.find(',', q); if (z == std::string::npos) { if (q < l.size()) f.push_back(l.substr(q)); break; } f.push_back(l.substr(q, z - q)); q = z + 1; }
				CHECK((int64_t)f.size() == s->n + 1, "csv-fields", "line %zu has %zu fields, expected %lld", k, f.size(), (long long)s->n + 1); char *e2; double w = strtod(f[0].c_str(), &e2); CHECK(!*e2 && std::fabs(w - s->lineWeight[k]) <= 6e-16 + 1e-15 * std::fabs(s->lineWeight[k]), "csv-weight", "line %zu: weight %s, stored %.17g", k, f[0].c_str(), s->lineWeight[k]);
				for (int64_t i = 0; i < s->n; i++) { char *e3; long long v = strtoll(f[(size_t)i + 1].c_str(), &e3, 10); CHECK(!*e3 && !f[(size_t)i + 1].empty() && v == s->lineLabels[k][i], "csv-label", "line %zu point %lld: %s, stored %lld", k, (long long)i, f[(size_t)i + 1].c_str(), (long long)s->lineLabels[k][i]); } ev.count("csv_fields", s->n + 1); k++; }
			CHECK(k == (size_t)s->nlines, "csv-lines", "%zu lines, expected %lld", k, (long long)s->nlines); };
		Capture c; std::string out;
		if (mode == 0) { c.start(); ad_print_hierarchy(u.o, nullptr); out = c.stop(); size_t k = 0, pos = 0; while (pos < out.size()) { size_t e = out.find('\n', pos); if (e == std::string::npos) e = out.size(); std::string l = out.substr(pos, e - pos); pos = e + 1; size_t br = l.find("-> ["); if (br == std::string::npos) continue; std::vector<double> w = { (double)s->lineKey[k], s->lineWeight[k] }; for (int64_t i = 0; i < s->n; i++) w.push_back((double)s->lineLabels[k][i]); expect(l, w, 6e-16, "print-hierarchy"); k++; CHECK(k <= (size_t)s->nlines, "print-hierarchy", "too many lines"); } CHECK(k == (size_t)s->nlines, "print-hierarchy", "%zu lines printed, expected %lld", k, (long long)s->nlines); }
		else { if (mode == 1) { path = DIR_ + "/missing/" + name; vis = path + "_visualization.vis"; csv = path + "_hierarchy.csv"; } if (mode == 2) mkdir((r.chance(50) ? vis : csv).c_str(), 0755); if (mode == 3) { // a longer file from before
				for (auto &p : { vis, csv }) { FILE *f = fopen(p.c_str(), "w"); if (f) { for (int i = 0; i < 3000; i++) fprintf(f, "old,%d\n", i); fclose(f); } } }
			if (mode == 4) for (auto &p : { vis, csv }) if (r.chance(70) && symlink("/dev/full", p.c_str())) {} // a full disk
			char *nm = strdup(path.c_str()); c.start(); int fds = open_files(); ad_print_hierarchy(u.o, nm); int fde = open_files(); for (int k = 0; k < 40 && fde > fds; k++) { usleep(5000); fde = open_files(); } /* the sanitizers' own thread reads /proc */ out = c.stop(); CHECK(fde <= fds, "open-files", "%d open files before the export, %d after", fds, fde); ev.count("descriptors", (uint64_t)fds); CHECK(path == nm, "name-changed", "the file name was changed"); free(nm); struct stat st; bool v = !stat(vis.c_str(), &st) && S_ISREG(st.st_mode), w = !stat(csv.c_str(), &st) && S_ISREG(st.st_mode); ev.count("exports"); std::string t1 = v ? slurp(vis, &ok1) : "", t2 = w ? slurp(csv, &ok2) : "";
			if (mode == 4) ev.count("exports_full"); else if (mode > 2) { CHECK(v && w, "export-files", "missing files after export to %.300s", path.c_str()); long long a, b; char x; int k = sscanf(t1.c_str(), "%lld\n%lld%c", &a, &b, &x); CHECK(k >= 2 && a == 1 && b == s->nlines && numbers(t1).size() == 2, "vis", "the line count file reads %.60s, expected 1 and %lld", t1.c_str(), (long long)s->nlines); checkcsv(t2); }
			else { ev.count("exports_failed"); if (w && mode == 2) checkcsv(t2); }
			CHECK(!strstr(out.c_str(), "-> ["), "export-stdout", "an export also printed the lines"); }
		unlink(vis.c_str()); unlink(csv.c_str()); rmdir(vis.c_str()); rmdir(csv.c_str()); if (s->nlines > 2) ev.nontrivial(h); ev.sample(d.desc() + fmt(", %lld lines, name of %zu characters, mode %d", (long long)s->nlines, path.size(), mode)); return;
	}
	if (what == 5) { int64_t n = r.unit() < 0.02 ? r.range(1000, 20000) : r.range(1, 60); VI l; bool big = r.chance(30); for (int64_t i = 0; i < n; i++) l.push_back(big ? r.range(0, conf.label_bytes == 2 ? 32767 : 2147483647) : r.range(0, 5)); h = hashv(l); ev.begin(id, fmt("print a cluster map of %lld points", (long long)n)); void *m = ad_map_create(l.data(), n, 0, n); xmap x = ref_map(l, 0, n); std::vector<double> w, z; for (auto &p : x) { w.push_back((double)p.first); z.push_back((double)p.first); z.push_back((double)p.second.size()); for (int64_t i : p.second) w.push_back((double)i); }
		Capture c; c.start(); ad_print_map(m); std::string o1 = c.stop(); c.start(); ad_print_sizes(m); std::string o2 = c.stop(); c.start(); x_print(0, &x, nullptr, nullptr); std::string o3 = c.stop(); c.start(); x_print(1, &x, nullptr, nullptr); std::string o4 = c.stop(); ad_map_destroy(m);
		auto arrows = [](std::string s) { size_t p; while ((p = s.find("->")) != std::string::npos) s[p] = ' '; return s; }; expect(arrows(o1), w, 0, "print-map"); expect(o2, z, 0, "print-sizes"); expect(arrows(o3), w, 0, "print-map-c++"); expect(o4, z, 0, "print-sizes-c++"); }
	else if (what == 6) { int64_t k = r.range(1, 12); std::vector<ad_range> v; xranges x; std::vector<double> w; for (int64_t i = 0; i < k; i++) { ad_range a; a.label = i * 3 + r.range(0, 2); a.min_cr = wild(r); a.max_cr = wild(r); a.cr_conf = wild(r); a.min_dr = wild(r); a.max_dr = wild(r); a.dr_conf = wild(r); if (r.chance(10)) a.min_cr = a.max_cr = a.cr_conf = a.min_dr = a.max_dr = a.dr_conf = -conf.dmax; v.push_back(a); x[a.label] = a; for (double q : { (double)a.label, a.min_cr, a.max_cr, a.cr_conf, a.min_dr, a.max_dr, a.dr_conf }) w.push_back(q); } h = fnv(w.data(), w.size() * 8); ev.begin(id, fmt("print %lld distance ranges", (long long)k)); void *dm = ad_ranges_fake(v.data(), k);
		Capture c; c.start(); ad_print_ranges(dm); std::string o1 = c.stop(); c.start(); x_print(2, nullptr, &x, nullptr); std::string o2 = c.stop(); ad_ranges_destroy(dm); for (auto *o : { &o1, &o2 }) { size_t p; while ((p = o->find("->")) != std::string::npos) (*o)[p] = ' '; } expect(o1, w, 5.1e-7, "print-ranges"); expect(o2, w, 5.1e-7, "print-ranges-c++"); }
	else if (what == 7) { ad_stats st; memset(&st, 0, sizeof st); st.count = r.range(0, conf.index_bytes == 2 ? 32767 : 2147483647); bool ext = r.chance(30); for (int a = 0; a < 2; a++) for (int b = 0; b < 6; b++) st.v[a][b] = ext ? -conf.dmax : wild(r); h = fnv(&st, sizeof st); ev.begin(id, "print statistics"); std::vector<double> w = { (double)st.count }; static const int ord[] = { 3, 0, 5, 4, 2, 1 }; for (int a = 0; a < 2; a++) for (int b : ord) w.push_back(st.v[a][b]); Capture c; c.start(); ad_print_stats(&st); std::string o1 = c.stop(); c.start(); x_print(3, nullptr, nullptr, &st); std::string o2 = c.stop();
		// the order of the lines is a matter of presentation: each line names its value
		auto check = [&](const std::string &o, const char *key) { static const char *nm[] = { "Mean", "Standard", "Variance", "Max", "Kurtosis", "Skewness" }; int seen = 0; size_t pos = 0; while (pos < o.size()) { size_t e = o.find('\n', pos); if (e == std::string::npos) e = o.size(); std::string l = o.substr(pos, e - pos); pos = e + 1; size_t cp = l.rfind(':'); if (cp == std::string::npos) continue; std::string name = l.substr(0, cp), val = l.substr(cp + 1); double want = NAN; bool f = false; if (name.find("Count") != std::string::npos) { want = (double)st.count; f = true; } else { int a = name.find("Core") != std::string::npos ? 0 : name.find("Intra") != std::string::npos ? 1 : -1; for (int b = 0; a >= 0 && b < 6; b++) if (name.find(nm[b]) != std::string::npos) { want = st.v[a][b]; f = true; } } CHECK(f, key, "unknown line %.100s", l.c_str()); expect(val, { want }, 5.1e-6, key); seen++; } CHECK(seen == 13, key, "%d values printed, expected 13", seen); };
		check(o1, "print-stats"); check(o2, "print-stats-c++"); }
	else if (what == 8) { Data d = pick_data(r); int64_t mp = gen_minpts(r, d); ev.begin(id, d.desc() + fmt(" minPts %lld, printed", (long long)mp)); Run u; u.o = ad_new(mp); quiet_run(u.o, d); ad_snap *s = ad_snapshot(u.o, 100000); struct GS { ad_snap *s; ~GS() { ad_snap_free(s); } } gs{ s }; h = d.hash() ^ (uint64_t)mp; Capture c; std::vector<double> w; c.start(); ad_print_scores(u.o); std::string o = c.stop(); for (int64_t i = 0; i < s->n; i++) for (double q : { (double)s->scoreId[i], s->scoreCore[i], s->score[i] }) w.push_back(q); expect(o, w, 5.1e-7, "print-scores");
		w.clear(); c.start(); ad_print_distances(u.o); o = c.stop(); for (int64_t i = 0; i < s->n; i++) for (int64_t j = i + 1; j < s->n; j++) w.push_back(s->dist[i * s->n + j]); expect(o, w, 5.1e-7, "print-distances"); }
	else if (what == 10) { // hierarchies of many lines
		int64_t k = r.chance(30) ? r.range(1, 60) : r.chance(60) ? r.range(900, 2200) : r.range(2200, 5000), n = r.range(1, 4); if (k >= 900) ev.count("long_hierarchies"); std::vector<double> w, stored; std::vector<VI> l; double at = (double)k * r.range(1, 3) + r.unit(); for (int64_t i = 0; i < k; i++) { w.push_back(at); at -= r.chance(50) ? 1 : r.unit(); VI v; for (int64_t j = 0; j < n; j++) v.push_back(r.range(0, r.chance(10) ? 32767 : 5)); l.push_back(v); h = h * 31 + (uint64_t)v[0]; }
		bool out = r.chance(25); std::string path = DIR_ + "/long"; ev.begin(id, fmt("%s a hierarchy of %lld lines of %lld points", out ? "print" : "export", (long long)k, (long long)n)); Capture c; c.start(); char *nm = strdup(path.c_str()); x_hierarchy(w, l, n, out ? nullptr : nm, stored); free(nm); std::string o = c.stop(); bool ok; if (!out) o = slurp(path + "_hierarchy.csv", &ok); size_t pos = 0; int64_t i = 0;
		while (pos < o.size()) { size_t e = o.find('\n', pos); if (e == std::string::npos) e = o.size(); std::string s = o.substr(pos, e - pos); pos = e + 1; if (out) { if (s.find("-> [") == std::string::npos) continue; } else for (auto &x : s) if (x == ',') x = ' '; CHECK(i < k, "long-hierarchy", "more than %lld lines", (long long)k); std::vector<double> v; if (out) v.push_back((double)i); v.push_back(stored[(size_t)i]); for (int64_t x : l[(size_t)i]) v.push_back((double)x); expect(s, v, 6e-16, "long-hierarchy"); i++; ev.count("long_lines"); }
		CHECK(i == k, "long-hierarchy", "%lld lines, expected %lld", (long long)i, (long long)k); if (!out) { std::string t = slurp(path + "_visualization.vis", &ok); auto q = numbers(t); CHECK(q.size() == 2 && q[0] == 1 && q[1] == (double)k, "vis", "the line count file reads %.60s, expected 1 and %lld", t.c_str(), (long long)k); unlink((path + "_hierarchy.csv").c_str()); unlink((path + "_visualization.vis").c_str()); } }
	else { g_state s; s.n = r.range(1, 12); int64_t m = r.range(0, 20); for (int64_t i = 0; i < m; i++) { s.a.push_back(r.range(0, s.n - 1)); s.b.push_back(r.range(0, s.n - 1)); double w = std::fabs(wild(r)); s.w.push_back(w); } h = fnv(s.w.data(), s.w.size() * 8); ev.begin(id, fmt("print a graph of %lld vertices and %lld edges", (long long)s.n, (long long)m)); void *mem, *g = g_new(s, false, &mem); g_state t = g_get(g); Capture c; c.start(); g_print(g); std::string o = c.stop(); g_free(g, mem); std::vector<double> w = { (double)s.n, (double)m, (double)m, (double)m, (double)s.n }; for (int64_t x : t.a) w.push_back((double)x); for (int64_t x : t.b) w.push_back((double)x); for (double x : t.w) w.push_back(x); for (auto &v : t.adj) for (int64_t x : v) w.push_back((double)x); expect(o, w, 5.1e-7, "print-graph"); }
	ev.nontrivial(h); ev.sample(fmt("printing of kind %d", what));
}
int main(int argc, char **argv) {
	if (argc < 6) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]); if (argc > 6) MAXN = atoll(argv[6]); if (argc > 7) MINN = atoll(argv[7]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1; ev.open_from_env(); ad_config(&conf); DIR_ = "o"; char tmp[] = "/tmp/hdbo01.XXXXXX"; const char *top = nullptr;
	if (PROP == "O01") { std::string d = fmt("out-%lld-%d", (long long)shard, (int)getpid()); mkdir(d.c_str(), 0755); DIR_ = d; } (void)tmp; (void)top;
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue; Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k); ev.count("evaluations"); GEN_CASE = k; omp_control_threads((int)(1 + k % 3));
		try { if (PROP == "A01") a01(r, id); else if (PROP == "A02") a02(r, id); else if (PROP == "A03") a03(r, id); else if (PROP == "A04") a04(r, id); else if (PROP == "A05") a05(r, id); else if (PROP == "K01") k01(r, id); else if (PROP == "G01") g01(r, id); else if (PROP == "O01") o01(r, id); else return 3; }
		catch (Bad &b) { ev.viol(b.key, "%s", b.what.c_str()); }
	}
	ev.done(); fflush(stdout); return 0;
}
