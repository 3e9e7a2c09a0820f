// Clustering properties C01-C08, C11, C15-C17: generated data sets run through the
// real library, every published result compared with the reference definitions.
#include "oracle.hpp"
#include "ompctl.h"
#include <memory>
Ev ev; ad_conf conf;

static uint64_t SEED; static std::string PROP; static int64_t ONLY = -1;
static bool FLOATCFG, SHORTIDX;
static int64_t MAXN = 80, MINN = 0;

static void quiet_run(void *o, Data &d, int *ret = nullptr) {
	// a copy in exactly sized heap memory, so that reads past the data are visible
	char *p = (char *)malloc(d.raw.size() ? d.raw.size() : 1); memcpy(p, d.raw.data(), d.raw.size());
	int r = ad_run(o, p, d.rows, d.cols, d.rowwise, d.dtype); if (PROP == "C01" && memcmp(p, d.raw.data(), d.raw.size())) ev.viol("data-changed", "the data set was modified"); free(p); if (ret) *ret = r;
}
static GenOpt opts(Rng *r = nullptr) { GenOpt o; o.maxn = MAXN; if (r && r->chance(3)) o.maxn = std::max<int64_t>(MAXN, 320); o.minn = MINN; if (MINN) ev.count("large_cases"); o.floatRange = FLOATCFG; return o; }

static void check_all(const ad_snap *s, int64_t minPts, bool selStructure = true) {
	check_core(s, minPts);
	if (!s->core || !s->dist) return;
	OTree t = reference_tree(s, minPts);
	check_mst(s, t);
	Match m = check_hierarchy(s, t, true);
	if (!m.ok) return;
	check_tree(s, t, m); check_flat(s, t, m, true, selStructure); check_scores(s, t);
}

// what makes a data set worth counting, per property
struct Feat { bool split = false, multi = false, ties = false, inf = false, deep = false; };
static Feat features(const ad_snap *s, const OTree &t) {
	Feat f; f.split = t.c.size() > 1; f.multi = t.multi; std::set<double> w(t.mst.begin(), t.mst.end()); f.ties = w.size() < t.mst.size();
	for (size_t k = 1; k < t.c.size(); k++) { if (std::isinf(t.c[k].stab)) f.inf = true; if (t.c[k].parent > 0) f.deep = true; }
	(void)s; return f;
}
static void tally(const Feat &f) { ev.count("cases_split", f.split); ev.count("cases_multiway_split", f.multi); ev.count("cases_tied_weights", f.ties); ev.count("cases_infinite_stability", f.inf); ev.count("cases_nested_splits", f.deep); }
static void tally_snap(const ad_snap *s) { ev.count("points", s->n); ev.count("edges", s->nW); ev.count("hierarchy_lines", s->nlines); ev.count("clusters", s->nclusters ? s->nclusters - 1 : 0); }

// ---------------------------------------------------------------- C01
static void c01(Rng &r, const std::string &id) {
	GenOpt o = opts();
	Data d = gen_data(r, o);
	if (r.chance(45) && d.dtype != DT_DOUBLE) { // values anywhere in the range of the type
		d.kind = "extremes";
		for (int64_t i = 0; i < d.rows * d.cols; i++) {
			auto pick = [&](long double lo, long double hi) -> long double { int z = (int)r.range(0, 9); if (z < 2) return lo; if (z < 4) return hi; if (z < 5) return 0; return lo + (hi - lo) * (long double)r.unit(); };
			if (d.dtype == DT_INT) d.set(i, std::nearbyint((double)pick(INT_MIN, INT_MAX)));
			else if (d.dtype == DT_LONG) { long v = r.chance(30) ? (r.chance(50) ? LONG_MIN : LONG_MAX) : (long)r.next(); if (r.chance(20)) v = LONG_MAX - (long)r.range(0, 3); memcpy(&d.raw[(size_t)i * 8], &v, 8); }
			else if (d.dtype == DT_SHORT) d.set(i, std::nearbyint((double)pick(-32768, 32767)));
			else if (d.dtype == DT_CHAR) d.set(i, std::nearbyint((double)pick(-128, 127)));
			else if (!FLOATCFG) d.set(i, (float)pick(-3.4e38L, 3.4e38L));
		}
		if (FLOATCFG && d.dtype == DT_LONG && d.cols > 1) for (int64_t i = 0; i < d.rows * d.cols; i++) d.set(i, (long)(d.at(i) / 64));
	}
	ev.begin(id, d.desc());
	Run u; u.o = ad_new(2); quiet_run(u.o, d);
	int64_t n = d.n(), c = d.dim(); bool nonzero = false;
	if (ad_numpoints(u.o) != n) { ev.viol("point-count", "%lld points for %lld", (long long)ad_numpoints(u.o), (long long)n); return; }
	for (int64_t i = 0; i < n; i++) for (int64_t j = 0; j < n; j++) {
		double got = ad_distance(u.o, i, j);
		if (i == j) { if (got != 0) { ev.viol("self-distance", "point %lld: %.17g", (long long)i, got); return; } continue; }
		if (i > j) { if (!same(got, ad_distance(u.o, j, i))) { ev.viol("asymmetric", "%lld,%lld: %.17g and %.17g", (long long)i, (long long)j, got, ad_distance(u.o, j, i)); return; } continue; }
		long double sum = 0; for (int64_t k = 0; k < c; k++) { long double x = d.at(i * c + k) - d.at(j * c + k); sum += x * x; }
		long double want = sqrtl(sum); if (want > 0) nonzero = true;
		long double tol = want * (long double)(c + 8) * (conf.distance_is_float ? 1.2e-7L : 2.3e-16L);
		ev.count("distances_compared");
		if (!(fabsl((long double)got - want) <= tol)) { ev.viol("distance", "points %lld,%lld: %.17g, expected %.17Lg", (long long)i, (long long)j, got, want); return; }
	}
	ev.count(std::string("type_") + std::to_string(d.dtype)); if (!d.rowwise) ev.count("elementwise");
	if (nonzero && n > 1) ev.nontrivial(d.hash());
	ev.sample(d.full(24));
}
// ---------------------------------------------------------------- C02..C07, C17
static void fits_float(Data &d) { (void)d; }
static void ctree(Rng &r, const std::string &id) {
	GenOpt o = opts(&r); if (PROP == "C15") o.kind = r.chance(60) ? (r.chance(50) ? (int)G_DUP : (int)G_DUPBLOBS) : -1;
	Data d = gen_data(r, o); int64_t mp = gen_minpts(r, d); fits_float(d);
	bool again = r.chance(30); int64_t mp2 = gen_minpts(r, d);
	ev.begin(id, d.desc() + fmt(" minPts %lld%s", (long long)mp, again ? fmt(" rerun %lld", (long long)mp2).c_str() : ""));
	Run u; u.o = ad_new(mp); int ret = 0; quiet_run(u.o, d, &ret);
	if (ret != 0) { ev.viol("run-failed", "hdbscan_run returned %d", ret); return; }
	for (int pass = 0; pass < (again ? 2 : 1); pass++) {
		if (pass) { ev.count("evaluations"); ad_snap_free(u.s); u.s = nullptr; mp = mp2; if (ad_rerun(u.o, mp) != 0) { ev.viol("rerun-failed", "hdbscan_rerun failed"); return; } }
		u.s = ad_snapshot(u.o, 100000); const ad_snap *s = u.s; tally_snap(s);
		if (!s->core || !s->dist) { ev.viol("core-missing", "no core distances published"); return; }
		if (PROP == "C02") { check_core(s, mp); ev.count("core_distances", s->n);
			std::set<double> dd; int64_t zero = 0; for (int64_t i = 0; i < s->n; i++) for (int64_t j = i + 1; j < s->n; j++) { double x = s->dist[i * s->n + j]; if (!dd.insert(x).second) zero++; }
			ev.count("cases_tied_distances", zero > 0); ev.count("cases_fewer_than_minpts", s->n < mp); if (s->n > 2) ev.nontrivial(d.hash() ^ (uint64_t)mp * 77); continue; }
		OTree t = reference_tree(s, mp); Feat f = features(s, t); tally(f);
		bool nontriv = false;
		if (PROP == "C03") { check_mst(s, t); nontriv = s->n > 2; }
		else {
			Match m = check_hierarchy(s, t, PROP == "C04" || PROP == "C17");
			if (PROP == "C04") nontriv = t.lines.size() > 2;
			else if (!m.ok && PROP != "C17") { if (!m.ok) { // the other properties are still decided where labels can be matched
				ev.viol("hierarchy-inconsistent", "the published hierarchy does not allow the %s check", PROP.c_str()); return; } }
			else if (PROP == "C05") { check_tree(s, t, m); nontriv = f.split; }
			else if (PROP == "C06") { Flat fl = check_flat(s, t, m, true); ev.count("cases_with_selection", !fl.sel.empty()); ev.count("cases_stability_tie", fl.tie); nontriv = f.split; 
				bool chose = false; for (int64_t c : fl.sel) if (t.c[(size_t)m.of.at(c)].kids) chose = true; ev.count("cases_parent_preferred", chose);
				if (f.deep && !chose && !fl.sel.empty()) ev.count("cases_children_preferred"); }
			else if (PROP == "C07") { check_scores(s, t); nontriv = t.lines.size() > 1; }
			else if (PROP == "C17") { check_core(s, mp); check_mst(s, t); if (m.ok) { check_tree(s, t, m); check_flat(s, t, m, true); check_scores(s, t); } nontriv = f.split; }
			else if (PROP == "C15") nontriv = f.inf;
		}
		if (nontriv) ev.nontrivial(d.hash() ^ (uint64_t)mp * 77);
		ev.sample(d.desc() + fmt(" minPts %lld: %lld lines, %lld clusters, %zu selected points", (long long)mp, (long long)s->nlines, (long long)s->nclusters - 1, (size_t)std::count_if(s->labels, s->labels + (s->hasLabels ? s->n : 0), [](int64_t x) { return x != 0; })));
	}
}
// cross-configuration partition: integers on a line, distances exactly representable in every type
static void c17part(Rng &r, const std::string &id) {
	GenOpt o = opts(); o.integral = true; o.intLimit = 2000; o.dtype = DT_INT; o.maxcols = 1; o.allowElementwise = false; o.maxn = 60; o.kind = (int)r.range(0, G_COUNT - 1); if (o.kind == G_SIMPLEX) o.kind = G_GRID;
	Data d = gen_data(r, o); int64_t mp = gen_minpts(r, d);
	ev.begin(id, d.desc() + fmt(" minPts %lld (partition)", (long long)mp));
	Run u; u.o = ad_new(mp); quiet_run(u.o, d); u.s = ad_snapshot(u.o, 100000);
	OTree t = reference_tree(u.s, mp); Match m = check_hierarchy(u.s, t, true); if (!m.ok) return;
	// ties in stability may be decided by rounding: use a tolerance that covers float
	bool tie = false; for (int64_t c = 2; c < u.s->nclusters; c++) { double a = u.s->clusters[c].stability, b = u.s->clusters[c].pstability; if (u.s->clusters[c].hasChildren && (std::isinf(a) || std::isinf(b) ? a == b : std::fabs(a - b) <= 1e-3 * std::max(std::fabs(a), std::fabs(b)))) tie = true; }
	std::map<int64_t, int64_t> first; std::string p; for (int64_t i = 0; i < u.s->n; i++) { int64_t l = u.s->labels[i]; if (l == 0) p += "0,"; else { if (!first.count(l)) first[l] = i + 1; p += fmt("%lld,", (long long)first[l]); } }
	// reported to the driver, which compares the configurations
	ev.line("P " + id + " " + (tie ? "tie " : "sure ") + fmt("%016llx", (unsigned long long)fnv(p.data(), p.size())));
	ev.count("partitions");
}
// ---------------------------------------------------------------- C08 histories
static void c08(Rng &r, const std::string &id) {
	GenOpt o = opts(); if (!MINN) o.maxn = std::min<int64_t>(MAXN, 45);
	int nd = (int)r.range(1, 3); std::vector<Data> ds; for (int i = 0; i < nd; i++) ds.push_back(gen_data(r, o));
	int64_t mp = gen_minpts(r, ds[0]); int len = (int)r.range(2, 8);
	ev.begin(id, fmt("history of %d operations over %d data sets, first %s", len, nd, ds[0].desc().c_str()));
	Run u; u.o = ad_new(mp); int cur = -1; std::string hist = fmt("init(%lld)", (long long)mp); bool ran = false;
	uint64_t hh = 0; int changes = 0;
	for (int k = 0; k < len; k++) {
		int op = (int)r.range(0, 9);
		if (!ran && op >= 5) op = r.chance(80) ? 0 : 9;
		if (op < 4) { cur = (int)r.range(0, nd - 1); quiet_run(u.o, ds[(size_t)cur]); ran = true; hist += fmt(" run(%s)", ds[(size_t)cur].desc().c_str()); }
		else if (op < 9 && ran) { int64_t m2 = r.chance(20) ? mp : gen_minpts(r, ds[(size_t)cur]); if (m2 != mp) changes++; mp = m2; ad_rerun(u.o, mp); hist += fmt(" rerun(%lld)", (long long)mp); }
		else { ad_clean(u.o); hist += " clean"; ran = false; if (!ad_is_clean(u.o)) { ev.viol("clean-leaves-results", "%s", hist.c_str()); return; } if (r.chance(20)) { ad_clean(u.o); hist += " clean"; } }
		ev.count("operations"); hh = hh * 31 + (uint64_t)op * 7 + (cur >= 0 ? ds[(size_t)cur].hash() : 0) + (uint64_t)mp;
		if (!ran || (r.chance(40) && k + 1 < len)) continue;
		Run f; f.o = ad_new(mp); quiet_run(f.o, ds[(size_t)cur]); f.s = ad_snapshot(f.o, 100000);
		ad_snap *s = ad_snapshot(u.o, 100000); std::string df = snap_diff(s, f.s); ad_snap_free(s); ev.count("comparisons");
		if (!df.empty()) { ev.viol("history", "after %s: %s (reused, fresh)", hist.c_str(), df.c_str()); return; }
	}
	if (len > 2) ev.nontrivial(hh); ev.count("minpts_changes", changes); ev.sample(hist);
}
// ---------------------------------------------------------------- C11 metamorphic
static std::string canon(const int64_t *l, int64_t n, const std::vector<int64_t> *perm = nullptr) { // partition up to label names, in original order
	std::map<int64_t, int64_t> first; std::string p; std::vector<int64_t> v((size_t)n); for (int64_t i = 0; i < n; i++) v[(size_t)(perm ? (*perm)[(size_t)i] : i)] = l[i];
	for (int64_t i = 0; i < n; i++) { if (!v[(size_t)i]) { p += "0,"; continue; } if (!first.count(v[(size_t)i])) first[v[(size_t)i]] = i + 1; p += fmt("%lld,", (long long)first[v[(size_t)i]]); } return p;
}
static void c11(Rng &r, const std::string &id) {
	GenOpt o = opts(); o.integral = true; if (!MINN) o.maxn = std::min<int64_t>(MAXN, 60); o.dtype = DT_CHAR; o.intLimit = 60; o.allowElementwise = false;
	if (r.chance(50)) { o.dtype = DT_SHORT; o.intLimit = 8000; }
	Data d = gen_data(r, o); int64_t mp = gen_minpts(r, d);
	int what = (int)r.range(0, 5); static const char *nm[] = { "type", "columns", "shift", "scale", "points", "elementwise" };
	ev.begin(id, d.desc() + fmt(" minPts %lld, %s", (long long)mp, nm[what])); ev.count(std::string("relation_") + nm[what]);
	int64_t n = d.rows, c = d.cols;
	Data e = d; double factor = 1; std::vector<int64_t> perm;
	if (what == 0) { int t; do t = (int)r.range(0, DT_COUNT - 1); while (t == d.dtype || (t == DT_CHAR && d.dtype == DT_SHORT)); e = d.as(t); }
	else if (what == 1) { e = d; std::vector<int64_t> p((size_t)c); std::iota(p.begin(), p.end(), 0); for (int64_t i = c - 1; i > 0; i--) std::swap(p[(size_t)i], p[(size_t)r.range(0, i)]); for (int64_t i = 0; i < n; i++) for (int64_t k = 0; k < c; k++) e.set(i * c + k, d.at(i * c + p[(size_t)k])); }
	else if (what == 2) { int t = (int)(r.chance(50) ? DT_INT : r.chance(50) ? DT_LONG : DT_DOUBLE); e = d.as(t); for (int64_t k = 0; k < c; k++) { int64_t sh = r.range(-1000000000, 1000000000); for (int64_t i = 0; i < n; i++) e.set(i * c + k, d.at(i * c + k) + sh); } }
	else if (what == 3) { d = d.as(DT_DOUBLE); e = d; factor = std::ldexp(1.0, (int)r.range(-40, 40)); for (int64_t i = 0; i < n * c; i++) e.set(i, d.at(i) * factor); }
	else if (what == 4) { perm.resize((size_t)n); std::iota(perm.begin(), perm.end(), 0); for (int64_t i = n - 1; i > 0; i--) std::swap(perm[(size_t)i], perm[(size_t)r.range(0, i)]); for (int64_t i = 0; i < n; i++) for (int64_t k = 0; k < c; k++) e.set(i * c + k, d.at(perm[(size_t)i] * c + k)); }
	else { d.cols = e.cols = std::min<int64_t>(c, std::max<int64_t>(1, 90 / n)); c = d.cols; d.raw.resize((size_t)(n * c) * d.esize()); e.raw = d.raw; d.rowwise = false; e.rows = n * c; e.cols = 1; }
	Run a, b; a.o = ad_new(mp); b.o = ad_new(mp); quiet_run(a.o, d); quiet_run(b.o, e); a.s = ad_snapshot(a.o, 100000); b.s = ad_snapshot(b.o, 100000);
	if (a.s->nclusters > 2) ev.nontrivial(d.hash() ^ (uint64_t)(mp * 31 + what));
	ev.sample(d.desc() + fmt(" minPts %lld against %s: %s", (long long)mp, nm[what], e.desc().c_str()));
	if (what != 3 && what != 4) { std::string df = snap_diff(a.s, b.s); if (!df.empty()) ev.viol(nm[what], "%s", df.c_str()); return; }
	if (what == 3) {
		auto sc = [&](double x, double f) { return std::isinf(x) || std::isnan(x) || x == conf.dmax ? x : x * f; };
		for (int64_t i = 0; i < n * n; i++) if (!same(sc(a.s->dist[i], factor), b.s->dist[i])) { ev.viol("scale", "distance %lld: %.17g * %g is not %.17g", (long long)i, a.s->dist[i], factor, b.s->dist[i]); return; }
		for (int64_t i = 0; i < n; i++) if (!same(sc(a.s->core[i], factor), b.s->core[i])) { ev.viol("scale", "core distance %lld", (long long)i); return; }
		if (a.s->nlines != b.s->nlines || a.s->nclusters != b.s->nclusters) { ev.viol("scale", "%lld lines and %lld", (long long)a.s->nlines, (long long)b.s->nlines); return; }
		for (int64_t k = 0; k < a.s->nlines; k++) { if (!same(sc(a.s->lineWeight[k], factor), b.s->lineWeight[k])) { ev.viol("scale", "line weight %lld", (long long)k); return; } for (int64_t i = 0; i < n; i++) if (a.s->lineLabels[k][i] != b.s->lineLabels[k][i]) { ev.viol("scale", "label on line %lld", (long long)k); return; } }
		for (int64_t k = 1; k < a.s->nclusters; k++) { const ad_cluster &x = a.s->clusters[k], &y = b.s->clusters[k]; if (!same(sc(x.birth, factor), y.birth) || !same(sc(x.death, factor), y.death)) { ev.viol("scale", "levels of cluster %lld", (long long)k); return; } }
		for (int64_t i = 0; i < n; i++) if (a.s->labels[i] != b.s->labels[i] || !same(a.s->score[i], b.s->score[i]) || a.s->scoreId[i] != b.s->scoreId[i]) { ev.viol("scale", "label or score at %lld: %lld %.17g, %lld %.17g", (long long)i, (long long)a.s->labels[i], a.s->score[i], (long long)b.s->labels[i], b.s->score[i]); return; }
		return;
	}
	std::vector<double> sa((size_t)n), sb((size_t)n);
	for (int64_t k = 0; k < n; k++) { int64_t x = a.s->scoreId[k], y = b.s->scoreId[k]; if (x < 0 || x >= n || y < 0 || y >= n) { ev.viol("points", "score of point %lld", (long long)x); return; } sa[(size_t)x] = a.s->score[k]; sb[(size_t)perm[(size_t)y]] = b.s->score[k]; }
	for (int64_t i = 0; i < n; i++) if (!same(sa[(size_t)i], sb[(size_t)i])) { ev.viol("points", "outlier score of point %lld: %.17g and %.17g", (long long)i, sa[(size_t)i], sb[(size_t)i]); return; }
	bool tie = false; for (const ad_snap *s : { a.s, b.s }) for (int64_t k = 2; k < s->nclusters; k++) { const ad_cluster &x = s->clusters[k]; if (x.hasChildren && (std::isinf(x.stability) || std::isinf(x.pstability) ? x.stability == x.pstability : std::fabs(x.stability - x.pstability) <= 1e-9 * std::max(std::fabs(x.stability), std::fabs(x.pstability)))) tie = true; }
	ev.count("stability_ties", tie);
	if (!tie && canon(a.s->labels, n) != canon(b.s->labels, n, &perm)) ev.viol("points", "flat clustering differs after reordering the points");
}
// ---------------------------------------------------------------- C15, C16
struct Steps { std::vector<double> noise; std::vector<int64_t> last; int inf = 0; std::string out; };
static Steps stepwise(void *o, Data &d, bool compact) {
	Steps st; int64_t n = d.rows; st.noise.assign((size_t)n, -7); st.last.assign((size_t)n, -7);
	ad_step_distances(o, d.raw.data(), d.rows, d.cols, d.dtype); ad_step_mst(o); ad_step_sort(o);
	ad_step_hierarchy(o, compact, st.noise.data(), st.last.data());
	Capture c; c.start(); st.inf = ad_step_propagate(o); st.out = c.stop();
	ad_step_flat(o, st.inf); ad_step_scores(o, st.noise.data(), st.last.data(), st.inf); return st;
}
static void c15(Rng &r, const std::string &id) {
	GenOpt o = opts(); o.allowElementwise = false; if (r.chance(65)) { static const int ks[] = { G_DUP, G_DUPBLOBS, G_IDENT, G_SPARSEDUP, G_GRID }; o.kind = ks[r.range(0, 4)]; }
	Data d = gen_data(r, o); int64_t mp = r.chance(60) ? r.range(2, 5) : gen_minpts(r, d);
	ev.begin(id, d.desc() + fmt(" minPts %lld", (long long)mp));
	bool steps = r.chance(50); Run u; u.o = ad_new(mp); std::string out; int got = -1;
	if (steps) { Steps st = stepwise(u.o, d, false); out = st.out; got = st.inf; } else { Capture c; c.start(); quiet_run(u.o, d); out = c.stop(); }
	u.s = ad_snapshot(u.o, 100000); OTree t = reference_tree(u.s, mp);
	bool want = false; for (size_t k = 1; k < t.c.size(); k++) for (int64_t i = 0; i < u.s->n && !want; i++) if (t.last[(size_t)i] == (int)k && t.noiseLevel[(size_t)i] == 0) want = true;
	for (int64_t k = 2; k < u.s->nclusters; k++) if (std::isinf(u.s->clusters[k].stability)) ev.count("infinite_clusters");
	ev.count(want ? "cases_infinite" : "cases_finite"); bool dup = false; for (int64_t i = 0; i < u.s->n; i++) if (u.s->core[i] == 0) dup = true; if (dup && !want) ev.count("cases_zero_core_but_finite");
	size_t times = 0; for (size_t p = out.find("WARNING"); p != std::string::npos; p = out.find("WARNING", p + 1)) times++;
	if (steps && (got != 0) != want) { ev.viol(want ? "not-reported" : "false-report", "hdbscan_propagate_tree returned %d, infinite stability %s", got, want ? "occurs" : "does not occur"); return; }
	if (steps && got != 0 && got != 1) { ev.viol("truth-value", "returned %d", got); return; }
	if ((times > 0) != want) { ev.viol(want ? "no-warning" : "false-warning", "%zu warnings, infinite stability %s", times, want ? "occurs" : "does not occur"); return; }
	if (!want && !out.empty()) { ev.viol("unexpected-output", "output %.60s", out.c_str()); return; }
	if (times > 1) { ev.viol("warning-repeated", "%zu warnings", times); return; }
	if (want || dup) ev.nontrivial(d.hash() ^ (uint64_t)mp); ev.sample(d.desc() + fmt(" minPts %lld: infinite %d", (long long)mp, want));
}
static void c16(Rng &r, const std::string &id) {
	GenOpt o = opts(&r); o.allowElementwise = false; Data d = gen_data(r, o); int64_t mp = gen_minpts(r, d);
	ev.begin(id, d.desc() + fmt(" minPts %lld", (long long)mp));
	Run a; a.o = ad_new(mp); quiet_run(a.o, d); a.s = ad_snapshot(a.o, 100000);
	OTree t = reference_tree(a.s, mp);
	bool ranBefore = r.chance(30);
	for (int compact = 0; compact < 2; compact++) {
		Run b; b.o = ad_new(mp); if (ranBefore) quiet_run(b.o, d);
		Steps st = stepwise(b.o, d, compact); b.s = ad_snapshot(b.o, 100000);
		Match m = check_hierarchy(b.s, t, false, compact ? &t.compactKeep : nullptr);
		if (!compact) { std::string df = snap_diff(a.s, b.s); if (!df.empty()) { ev.viol("steps", "%s (run, steps)", df.c_str()); return; } }
		else {
			if (!m.ok) { check_hierarchy(b.s, t, true, &t.compactKeep); return; }
			check_tree(b.s, t, m, &t.compactKeep);
			if (a.s->nclusters != b.s->nclusters) { ev.viol("compact", "%lld and %lld clusters", (long long)a.s->nclusters, (long long)b.s->nclusters); return; }
			for (int64_t k = 1; k < a.s->nclusters; k++) { const ad_cluster &x = a.s->clusters[k], &y = b.s->clusters[k]; if (x.label != y.label || x.parent != y.parent || !same(x.birth, y.birth) || !same(x.death, y.death) || !same(x.stability, y.stability) || !same(x.pstability, y.pstability) || x.nvirtual != y.nvirtual) { ev.viol("compact", "cluster %lld differs", (long long)k); return; } }
			for (int64_t i = 0; i < a.s->n; i++) { if (a.s->labels[i] != b.s->labels[i]) { ev.viol("compact", "label of %lld: %lld and %lld", (long long)i, (long long)a.s->labels[i], (long long)b.s->labels[i]); return; } if (!same(a.s->score[i], b.s->score[i]) || a.s->scoreId[i] != b.s->scoreId[i]) { ev.viol("compact", "score %lld", (long long)i); return; } }
			ev.count("lines_dropped", (int64_t)t.lines.size() - (int64_t)t.compactKeep.size());
		}
		if (!m.ok) { ev.viol("hierarchy-inconsistent", "the published hierarchy cannot be matched"); return; }
		for (int64_t i = 0; i < a.s->n; i++) {
			if (!same(st.noise[(size_t)i], t.noiseLevel[(size_t)i])) { ev.viol("noise-level", "point %lld reported as noise at %.17g, became noise at %.17g", (long long)i, st.noise[(size_t)i], t.noiseLevel[(size_t)i]); return; }
			auto it = m.of.find(st.last[(size_t)i]); if (it == m.of.end() || it->second != t.last[(size_t)i]) { ev.viol("last-cluster", "point %lld reported in cluster %lld last", (long long)i, (long long)st.last[(size_t)i]); return; }
		}
	}
	if (t.c.size() > 1) ev.nontrivial(d.hash() ^ (uint64_t)mp); ev.sample(d.desc() + fmt(" minPts %lld: %zu lines, %zu kept", (long long)mp, t.lines.size(), t.compactKeep.size()));
}
// ---------------------------------------------------------------- C17: many more rows than a narrow index can square
static void c17big(Rng &r, const std::string &id) {
	GenOpt o; o.maxn = 400; o.floatRange = true; o.allowTiny = false; o.allowElementwise = false; Data d;
	do d = gen_data(r, o); while (d.n() < 150);
	int64_t mp = r.range(2, 12); ev.begin(id, d.desc() + fmt(" minPts %lld (larger)", (long long)mp));
	Run u; u.o = ad_new(mp); quiet_run(u.o, d); u.s = ad_snapshot(u.o, 100000); check_all(u.s, mp); ev.nontrivial(d.hash()); ev.count("larger_cases");
}
// ---------------------------------------------------------------- C18 (configured index): sampled against the coordinates
static void c18(Rng &r, const std::string &id, int64_t lo, int64_t hi) {
	int64_t n = r.range(lo, hi), c = r.range(1, 2), mp = r.range(2, 6);
	std::vector<float> x((size_t)(n * c)); bool ints = r.chance(50);
	for (auto &v : x) v = ints ? (float)r.range(0, 5000) : (float)(r.unit() * 1000);
	ev.begin(id, fmt("%lld points, %lld columns, minPts %lld", (long long)n, (long long)c, (long long)mp));
	void *o = ad_new(mp); ad_step_distances(o, x.data(), n, c, DT_FLOAT);
	auto ref = [&](int64_t i, int64_t j) { long double s = 0; for (int64_t k = 0; k < c; k++) { long double q = (long double)x[(size_t)(i * c + k)] - x[(size_t)(j * c + k)]; s += q * q; } return (double)sqrtl(s); };
	double eps = conf.distance_is_float ? 1e-6 : 1e-14;
	auto chk = [&](int64_t i, int64_t j) { double g = ad_distance(o, i, j), w = ref(i, j); ev.count("pairs_sampled"); if (!(std::fabs(g - w) <= eps * w)) { ev.viol("distance", "points %lld,%lld of %lld: %.9g, expected %.9g", (long long)i, (long long)j, (long long)n, g, w); return false; } return true; };
	bool ok = true;
	for (int64_t k = 0; k < 200000 && ok; k++) { int64_t i = r.range(0, n - 1), j = r.range(0, n - 1); if (r.chance(20)) i = n - 1 - r.range(0, 300) % n; if (i != j) ok = chk(i, j) && chk(j, i); }
	for (int64_t k = 0; k < n - 1 && ok; k++) ok = chk(k, n - 1) && chk(k, k + 1) && chk(0, k + 1);
	for (int64_t k = 0; k < 60 && ok; k++) {
		int64_t i = k < 3 ? k : k < 8 ? n - 1 - (k - 3) : r.range(0, n - 1); std::vector<double> dd; for (int64_t j = 0; j < n; j++) if (j != i) dd.push_back(ad_distance(o, i, j));
		std::nth_element(dd.begin(), dd.begin() + (mp - 2), dd.end()); ev.count("core_distances_checked");
		if (ad_core(o, i) != dd[(size_t)(mp - 2)]) { ev.viol("core-distance", "point %lld of %lld: %.9g, expected %.9g", (long long)i, (long long)n, ad_core(o, i), dd[(size_t)(mp - 2)]); ok = false; }
	}
	ev.nontrivial((uint64_t)n * 1000 + (uint64_t)c * 10 + (uint64_t)mp); ev.sample(fmt("%lld points x %lld, minPts %lld, %lld pairs", (long long)n, (long long)c, (long long)mp, (long long)(n * (n - 1) / 2)));
	ad_destroy(o);
}
// ---------------------------------------------------------------- all results of data beyond what 15 or 16 bits number: integers on a line, few distinct weights; flat: all clusters are born on one level
static void line_case(Rng &r, const std::string &id, int64_t lo, int64_t hi, bool flat) {
	int64_t n = r.range(lo, hi), mp = r.range(2, 9), groups = flat ? r.range(2, 3) : r.range(4, 12); std::vector<float> x; double at = 0; static const int gap[] = { 1, 1, 2, 3, 5, 8, 13 };
	std::function<void(int64_t, int)> put = [&](int64_t k, int level) { // a group, perhaps split in two by a wider gap
		if (!flat && level < 4 && k > 40 && r.chance(80)) { int64_t a = r.chance(20) ? mp + r.range(0, 2) : r.range(k / 4, k / 2); put(a, level + 1); at += 100 / (level + 1); put(k - a, level + 1); return; }
		int s = gap[r.range(0, 6)]; bool dup = !flat && r.chance(30); for (int64_t i = 0; i < k; i++) { x.push_back((float)at); if (!(dup && r.chance(20))) at += !flat && r.chance(2) ? s + 1 : s; } };
	int64_t left = n; for (int64_t g = 0; g < groups; g++) { int64_t k = g == groups - 1 ? left : std::min(left, n / groups + r.range(-20, 20)); left -= k; put(k, 0); at += 200 + (flat ? 0 : g % 3); if (flat) continue; for (int z = 0; z < 2 && left > 10; z++) { x.push_back((float)at); at += 60; left--; } }
	n = (int64_t)x.size(); for (int64_t i = n - 1; i > 0; i--) std::swap(x[(size_t)i], x[(size_t)r.range(0, i)]);
	bool swap = r.chance(40) && n > 32768; if (swap) std::swap(x[32767], x[(size_t)n - 1]);
	ev.begin(id, fmt("%lld integers on a line, minPts %lld", (long long)n, (long long)mp)); omp_control_threads((int)r.range(1, 2));
	Run u; u.o = ad_new(mp); int ret = ad_run(u.o, x.data(), n, 1, 1, DT_FLOAT); omp_control_threads(2);
	if (ret != 0) { ev.viol("run-failed", "hdbscan_run returned %d", ret); return; }
	for (int64_t k = 0; k < 3000000; k++) { int64_t i = r.range(0, n - 1), j = r.range(0, n - 1); double g = ad_distance(u.o, i, j), w = std::fabs((double)x[(size_t)i] - x[(size_t)j]); ev.count("pairs_sampled"); if (g != w) { ev.viol("distance", "points %lld,%lld of %lld: %.9g, expected %.9g", (long long)i, (long long)j, (long long)n, g, w); return; } }
	u.s = ad_snapshot(u.o, 10); const ad_snap *s = u.s; tally_snap(s); ev.count("large_cases");
	if (!s->core) { ev.viol("core-missing", "no core distances published"); return; }
	std::vector<float> y = x; std::sort(y.begin(), y.end()); // core distances: among the mp - 1 neighbours on both sides
	for (int64_t i = 0; i < n; i++) { int64_t p = std::lower_bound(y.begin(), y.end(), x[(size_t)i]) - y.begin(); std::vector<double> d; for (int64_t q = std::max<int64_t>(0, p - mp); q < std::min(n, p + 1 + mp); q++) if (q != p) d.push_back(std::fabs((double)y[(size_t)q] - y[(size_t)p])); std::sort(d.begin(), d.end());
		if (s->core[i] != d[(size_t)(mp - 2)]) { ev.viol("core-distance", "point %lld of %lld: %.9g, expected %.9g", (long long)i, (long long)n, s->core[i], d[(size_t)(mp - 2)]); return; } ev.count("core_distances_checked"); }
	LINE = x.data(); OTree t = reference_tree(s, mp); check_mst(s, t);
	Match m = check_hierarchy(s, t, true); if (m.ok) { check_tree(s, t, m); check_flat(s, t, m, true, true); check_scores(s, t); }
	LINE = nullptr; ev.nontrivial((uint64_t)n * 64 + (uint64_t)mp); ev.sample(fmt("%lld integers on a line, minPts %lld: %lld lines, %lld clusters", (long long)n, (long long)mp, (long long)s->nlines, (long long)s->nclusters - 1));
}

int main(int argc, char **argv) {
	if (argc < 6) return 3;
	PROP = argv[1]; SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]);
	if (argc > 6) MAXN = atoll(argv[6]); if (argc == 8) MINN = atoll(argv[7]); int64_t lo = argc > 7 ? atoll(argv[7]) : 0, hi = argc > 8 ? atoll(argv[8]) : 0;
	if (getenv("ONLY")) ONLY = atoll(getenv("ONLY"));
	int64_t skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1;
	ev.open_from_env(); ad_config(&conf); FLOATCFG = conf.distance_is_float; SHORTIDX = conf.index_bytes == 2;
	uint64_t stream = fnv(PROP.data(), PROP.size());
	for (int64_t k = shard; k < count; k += shards) {
		if (ONLY >= 0 && k != ONLY) continue;
		if (k <= skip) continue;
		Rng r(SEED, stream, (uint64_t)k); std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k);
		omp_control_threads((int)r.range(1, 4)); ev.count("evaluations"); GEN_CASE = k;
		if (PROP == "C01") c01(r, id); else if (PROP == "C08") c08(r, id); else if (PROP == "C11") c11(r, id);
		else if (PROP == "C15") c15(r, id); else if (PROP == "C16") c16(r, id);
		else if (PROP == "C17") { if (k % 3 == 2) c17part(r, id); else if (k % 30 == 7) c17big(r, id); else ctree(r, id); }
		else if (argc > 9) line_case(r, id, lo, hi, !strcmp(argv[9], "flat"));
		else if (PROP == "C18") c18(r, id, lo, hi);
		else ctree(r, id);
	}
	ev.done(); fflush(stdout); return 0;
}
