// Reference definitions of the clustering, computed independently of the library
// from the data (distances) and from the published distances / core distances.
#pragma once
#include "gen.hpp"
#include <numeric>
#include <cfloat>

extern ad_conf conf;
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
inline bool near(double a, double b, double scale) {
	if (same(a, b)) return true;
	if (std::isinf(a) || std::isinf(b) || std::isnan(a) || std::isnan(b)) return false;
	double eps = conf.distance_is_float ? 2e-5 : 1e-11;
	return std::fabs(a - b) <= eps * std::max({ std::fabs(a), std::fabs(b), scale });
}

struct OCluster { int parent = -1; double birth = NAN, death = NAN; int64_t offset = 0; int kids = 0; std::vector<char> born; std::set<int64_t> noise; double stab = 0, scale = 0; int64_t size = 0; };
struct OLine { double w; std::vector<int> lab; bool split = false; }; // label: cluster id + 1, 0 noise
struct OTree {
	std::vector<OCluster> c; std::vector<OLine> lines; std::vector<double> noiseLevel; std::vector<int> last; std::vector<double> mst;
	std::vector<int64_t> compactKeep; // indices of lines kept with the compact option
	bool multi = false; // a split into 3 or more, or several splits on one level
};
static const float *LINE = nullptr; // large data: points on a line, whose distances need no table
inline double mrd(const ad_snap *s, int64_t i, int64_t j) { double d = s->dist ? s->dist[i * s->n + j] : std::fabs((double)LINE[i] - LINE[j]); return std::max(d, std::max(s->core[i], s->core[j])); }

inline OTree reference_tree(const ad_snap *s, int64_t minPts) {
	OTree t; int64_t n = s->n;
	std::vector<int64_t> par((size_t)n, 0), ea, eb; std::vector<double> best((size_t)n, INFINITY), ew; std::vector<char> in((size_t)n, 0);
	in[0] = 1; for (int64_t j = 1; j < n; j++) { best[(size_t)j] = mrd(s, 0, j); }
	for (int64_t k = 1; k < n; k++) {
		int64_t b = -1; for (int64_t j = 0; j < n; j++) if (!in[(size_t)j] && (b < 0 || best[(size_t)j] < best[(size_t)b])) b = j;
		in[(size_t)b] = 1; ea.push_back(par[(size_t)b]); eb.push_back(b); ew.push_back(best[(size_t)b]);
		for (int64_t j = 0; j < n; j++) if (!in[(size_t)j]) { double m = mrd(s, b, j); if (m < best[(size_t)j]) { best[(size_t)j] = m; par[(size_t)j] = b; } }
	}
	t.mst = ew; std::sort(t.mst.begin(), t.mst.end());
	std::set<double, std::greater<double>> W(ew.begin(), ew.end()); for (int64_t i = 0; i < n; i++) W.insert(s->core[i]);
	std::vector<int> cur((size_t)n, 1); t.noiseLevel.assign((size_t)n, NAN); t.last.assign((size_t)n, -1);
	OCluster root; root.born.assign((size_t)n, 1); root.size = n; root.stab = NAN; t.c.push_back(root);
	std::vector<int64_t> left(1, n);
	std::vector<int64_t> uf((size_t)n);
	bool keepNext = true;
	for (double w : W) {
		bool affected = false;
		for (size_t e = 0; e < ew.size() && !affected; e++) affected = ew[e] == w && cur[(size_t)ea[e]];
		for (int64_t i = 0; i < n && !affected; i++) affected = s->core[i] == w && cur[(size_t)i];
		if (!affected) continue;
		OLine L; L.w = w; L.lab = cur;
		std::iota(uf.begin(), uf.end(), 0);
		auto find = [&](int64_t x) { while (uf[(size_t)x] != x) x = uf[(size_t)x] = uf[(size_t)uf[(size_t)x]]; return x; };
		for (size_t e = 0; e < ew.size(); e++) if (ew[e] < w) { int64_t a = find(ea[e]), b = find(eb[e]); if (a != b) uf[(size_t)a] = b; }
		std::map<int64_t, int64_t> csize; for (int64_t i = 0; i < n; i++) if (cur[(size_t)i]) csize[find(i)]++;
		std::map<int, std::set<int64_t>> big; for (int64_t i = 0; i < n; i++) if (cur[(size_t)i]) { int64_t f = find(i); if (csize[f] >= minPts) big[cur[(size_t)i]].insert(f); }
		std::map<int64_t, int> newid; int splits = 0;
		for (auto &b : big) if (b.second.size() >= 2) { splits++; if (b.second.size() > 2) t.multi = true;
			for (int64_t f : b.second) { OCluster k; k.parent = b.first - 1; k.birth = w; k.offset = (int64_t)t.lines.size() + 1; k.born.assign((size_t)n, 0); t.c[(size_t)(b.first - 1)].kids++; t.c.push_back(k); left.push_back(0); newid[f] = (int)t.c.size(); } }
		if (splits > 1) t.multi = true;
		for (int64_t i = 0; i < n; i++) if (cur[(size_t)i]) {
			int old = cur[(size_t)i]; int64_t f = find(i); OCluster &oc = t.c[(size_t)(old - 1)]; int now = old;
			if (csize[f] < minPts) { now = 0; oc.noise.insert(i); t.noiseLevel[(size_t)i] = w; t.last[(size_t)i] = old - 1; }
			else if (newid.count(f)) { now = newid[f]; t.c[(size_t)(now - 1)].born[(size_t)i] = 1; t.c[(size_t)(now - 1)].size++; left[(size_t)(now - 1)]++; }
			if (now != old) {
				if (old != 1) { double a = 1 / w - 1 / oc.birth; oc.stab += a; oc.scale += std::fabs(1 / w) + std::fabs(1 / oc.birth); if (std::isinf(oc.scale)) oc.scale = 0; }
				if (--left[(size_t)(old - 1)] == 0) oc.death = w;
				cur[(size_t)i] = now;
			}
		}
		L.split = splits > 0; 
		if (keepNext || L.split) t.compactKeep.push_back((int64_t)t.lines.size());
		keepNext = L.split;
		t.lines.push_back(L);
	}
	if (conf.distance_is_float) for (auto &c : t.c) if (c.size > 300) c.scale *= (double)c.size / 300; // sums of thousands of floats
	return t;
}

// oracle cluster id for every library label, -1 if none; by the members at birth
struct Match { std::map<int64_t, int> of; bool ok = true; };

// C02 -------------------------------------------------------------------------
inline void check_core(const ad_snap *s, int64_t minPts) {
	int64_t n = s->n;
	if (!s->core || !s->dist) { ev.viol("core-missing", "no core distances published"); return; }
	for (int64_t i = 0; i < n; i++) {
		std::vector<double> d; for (int64_t j = 0; j < n; j++) if (j != i) d.push_back(s->dist[i * n + j]);
		double want;
		if (n < minPts) want = conf.dmax; else { std::sort(d.begin(), d.end()); want = d[(size_t)(minPts - 2)]; }
		if (s->core[i] != want) { ev.viol("core-distance", "minPts %lld point %lld core %.17g expected %.17g", (long long)minPts, (long long)i, s->core[i], want); return; }
	}
}
// C03 -------------------------------------------------------------------------
inline void check_mst(const ad_snap *s, const OTree &t) {
	int64_t n = s->n, m = s->nW;
	if (s->nA != m || s->nB != m || m != 2 * n - 1) { ev.viol("edge-count", "lists of %lld %lld %lld entries for %lld points", (long long)s->nA, (long long)s->nB, (long long)m, (long long)n); return; }
	std::vector<int64_t> uf((size_t)n); std::iota(uf.begin(), uf.end(), 0);
	auto find = [&](int64_t x) { while (uf[(size_t)x] != x) x = uf[(size_t)x]; return x; };
	std::vector<int> self((size_t)n, 0); std::vector<double> tw;
	for (int64_t e = 0; e < m; e++) {
		int64_t a = s->ea[e], b = s->eb[e]; double w = s->ew[e];
		if (e && !(s->ew[e - 1] <= w)) { ev.viol("edge-order", "weight %.17g after %.17g at %lld", w, s->ew[e - 1], (long long)e); return; }
		if (a < 0 || b < 0 || a >= n || b >= n) { ev.viol("edge-vertex", "edge %lld joins %lld and %lld of %lld points", (long long)e, (long long)a, (long long)b, (long long)n); return; }
		if (a == b) { self[(size_t)a]++; if (w != s->core[a]) { ev.viol("self-weight", "self edge of %lld weighs %.17g, core distance %.17g", (long long)a, w, s->core[a]); return; } continue; }
		if (w != mrd(s, a, b)) { ev.viol("edge-weight", "edge %lld-%lld weighs %.17g, mutual reachability %.17g", (long long)a, (long long)b, w, mrd(s, a, b)); return; }
		int64_t x = find(a), y = find(b); if (x == y) { ev.viol("cycle", "edge %lld-%lld closes a cycle", (long long)a, (long long)b); return; } uf[(size_t)x] = y;
		tw.push_back(w);
	}
	for (int64_t i = 0; i < n; i++) if (self[(size_t)i] != 1) { ev.viol("self-edges", "point %lld has %d self edges", (long long)i, self[(size_t)i]); return; }
	if ((int64_t)tw.size() != n - 1) { ev.viol("tree-edges", "%zu tree edges for %lld points", tw.size(), (long long)n); return; }
	for (size_t k = 0; k < tw.size(); k++) if (tw[k] != t.mst[k]) { ev.viol("not-minimal", "sorted weight %zu is %.17g, of a minimum spanning tree %.17g", k, tw[k], t.mst[k]); return; }
}
// C04: hierarchy; fills the label bijection.  keep: indices of expected lines ------
inline Match check_hierarchy(const ad_snap *s, const OTree &t, bool report, const std::vector<int64_t> *keep = nullptr) {
	Match m; int64_t n = s->n;
	auto bad = [&](const char *k, const std::string &d) { m.ok = false; if (report) ev.viol(k, "%s", d.c_str()); };
	std::vector<int64_t> idx; if (keep) idx = *keep; else { idx.resize(t.lines.size()); std::iota(idx.begin(), idx.end(), 0); }
	if (s->nlines != (int64_t)idx.size() + 1) { bad("line-count", fmt("%lld lines, expected %zu", (long long)s->nlines, idx.size() + 1)); return m; }
	for (int64_t k = 0; k < s->nlines; k++) if (s->lineKey[k] != k || !s->lineLabels[k]) { bad("line-number", fmt("line key %lld at position %lld", (long long)s->lineKey[k], (long long)k)); return m; }
	if (s->lineWeight[0] != 0) { bad("line0-weight", fmt("line 0 has weight %g", s->lineWeight[0])); return m; }
	for (int64_t i = 0; i < n; i++) if (s->lineLabels[0][i] != 0) { bad("line0-label", fmt("line 0 has label %lld", (long long)s->lineLabels[0][i])); return m; }
	std::map<int, int64_t> back;
	for (size_t q = 0; q < idx.size(); q++) {
		const OLine &L = t.lines[(size_t)idx[q]];
		if (s->lineWeight[q + 1] != L.w) { bad("line-weight", fmt("line %zu weighs %.17g, expected %.17g", q + 1, s->lineWeight[q + 1], L.w)); return m; }
		for (int64_t i = 0; i < n; i++) {
			int64_t lab = s->lineLabels[q + 1][i]; int want = L.lab[(size_t)i];
			if ((lab == 0) != (want == 0)) { bad("noise", fmt("line %zu (weight %.17g): point %lld has label %lld, %s expected", q + 1, L.w, (long long)i, (long long)lab, want ? "a cluster" : "noise")); return m; }
			if (!want) continue;
			if (q == 0 && lab != 1) { bad("root-label", fmt("point %lld has label %lld on line 1", (long long)i, (long long)lab)); return m; }
			auto a = m.of.find(lab); auto b = back.find(want);
			if (a == m.of.end() && b == back.end()) { m.of[lab] = want - 1; back[want] = lab; }
			else if (a == m.of.end() || b == back.end() || a->second != want - 1 || b->second != lab) { bad("components", fmt("line %zu (weight %.17g): point %lld label %lld does not follow the components", q + 1, L.w, (long long)i, (long long)lab)); return m; }
		}
	}
	return m;
}
// C05 -------------------------------------------------------------------------
inline void check_tree(const ad_snap *s, const OTree &t, const Match &m, const std::vector<int64_t> *keep = nullptr) {
	int64_t n = s->n;
	if (s->nclusters != (int64_t)t.c.size() + 1) { ev.viol("cluster-count", "%lld entries, expected %zu", (long long)s->nclusters, t.c.size() + 1); return; }
	if (s->clusters[0].present) { ev.viol("entry0", "entry 0 is a cluster"); return; }
	std::map<int, int64_t> lab; for (auto &x : m.of) lab[x.second] = x.first;
	for (int64_t k = 1; k < s->nclusters; k++) {
		const ad_cluster &c = s->clusters[k];
		if (!c.present || c.label != k) { ev.viol("cluster-label", "entry %lld has label %lld", (long long)k, c.present ? (long long)c.label : -1ll); return; }
		auto it = m.of.find(k); if (it == m.of.end()) { ev.viol("cluster-label", "label %lld is not used in the hierarchy", (long long)k); return; }
		const OCluster &o = t.c[(size_t)it->second];
		int64_t par = o.parent < 0 ? -1 : (lab.count(o.parent) ? lab[o.parent] : -2);
		if (c.parent != par) { ev.viol("parent", "cluster %lld has parent %lld, expected %lld", (long long)k, (long long)c.parent, (long long)par); return; }
		if (!same(c.birth, o.birth)) { ev.viol("birth", "cluster %lld born at %.17g, expected %.17g", (long long)k, c.birth, o.birth); return; }
		if (!same(c.death, o.death)) { ev.viol("death", "cluster %lld died at %.17g, expected %.17g", (long long)k, c.death, o.death); return; }
		int64_t off = o.offset;
		if (keep && off) { for (size_t q = 0; q < keep->size(); q++) if ((*keep)[q] == o.offset - 1) { off = (int64_t)q + 1; break; } }
		if (c.offset != off) { ev.viol("offset", "cluster %lld has offset %lld, expected %lld", (long long)k, (long long)c.offset, (long long)off); return; }
		if (c.numPoints != 0) { ev.viol("points-left", "cluster %lld still has %lld points", (long long)k, (long long)c.numPoints); return; }
		if (c.hasChildren != (o.kids > 0)) { ev.viol("children", "cluster %lld hasChildren %d, split into %d", (long long)k, c.hasChildren, o.kids); return; }
		std::set<int64_t> v(c.virt, c.virt + std::max<int64_t>(0, c.nvirtual));
		if (c.nvirtual != (int64_t)o.noise.size() || v != o.noise) { ev.viol("noise-set", "cluster %lld has a noise set of %lld points, expected %zu", (long long)k, (long long)c.nvirtual, o.noise.size()); return; }
		if (c.vhas >= 0 && (c.vmiss >= 0 || c.vhas != c.nvirtual)) { ev.viol("noise-query", "cluster %lld: the noise set holds %lld points, says it contains %lld, and denies %lld", (long long)k, (long long)c.nvirtual, (long long)c.vhas, (long long)c.vmiss); return; }
		if (o.parent >= 0 && !near(c.stability, o.stab, o.scale)) { ev.viol("stability", "cluster %lld has stability %.17g, expected %.17g", (long long)k, c.stability, o.stab); return; }
	}
	(void)n;
}
// C06 -------------------------------------------------------------------------
// Uses the published stabilities, so that rounding decides ties the way the library sees them.
struct Flat { bool ok = false, tie = false; std::set<int64_t> sel; std::vector<int64_t> label; };
inline Flat check_flat(const ad_snap *s, const OTree &t, const Match &m, bool report, bool structure = true) {
	Flat f; int64_t n = s->n, K = s->nclusters;
	auto bad = [&](const char *k, const std::string &d) { if (report) ev.viol(k, "%s", d.c_str()); };
	std::vector<std::vector<int64_t>> kids((size_t)K);
	std::map<int, int64_t> lab; for (auto &x : m.of) lab[x.second] = x.first;
	for (auto &x : m.of) { int p = t.c[(size_t)x.second].parent; if (p >= 0 && x.first < K) kids[(size_t)lab[p]].push_back(x.first); }
	auto self = [&](int64_t c) { return kids[(size_t)c].empty() || s->clusters[c].stability >= s->clusters[c].pstability; };
	for (int64_t c = 1; c < K; c++) {
		double sum = 0, sc = 0; for (int64_t q : kids[(size_t)c]) { double v = self(q) ? s->clusters[q].stability : s->clusters[q].pstability; sum += v; sc += std::fabs(v); }
		if (!near(sum, s->clusters[c].pstability, sc)) { bad("propagated-stability", fmt("cluster %lld has propagated stability %.17g, its children pass %.17g", (long long)c, s->clusters[c].pstability, sum)); return f; }
		if (c > 1 && !kids[(size_t)c].empty()) { double a = s->clusters[c].stability, b = s->clusters[c].pstability, e = conf.distance_is_float ? 1e-3 : 1e-9;
			if (std::isinf(a) || std::isinf(b) ? a == b : std::fabs(a - b) <= e * std::max(std::fabs(a), std::fabs(b))) f.tie = true; }
	}
	std::vector<int64_t> st; for (int64_t q : kids[1]) st.push_back(q);
	while (!st.empty()) { int64_t c = st.back(); st.pop_back(); if (self(c)) f.sel.insert(c); else for (int64_t q : kids[(size_t)c]) st.push_back(q); }
	f.label.assign((size_t)n, 0); std::map<int64_t, int64_t> cover;
	for (int64_t c : f.sel) for (int64_t i = 0; i < n; i++) if (t.c[(size_t)m.of.at(c)].born[(size_t)i]) { f.label[(size_t)i] = c; cover[c]++; }
	if (!s->hasLabels) { bad("no-labels", "no flat labels"); return f; }
	if (structure) { // independent re-statement: optimum by own stabilities
		std::vector<double> opt(t.c.size(), 0), scl(t.c.size(), 0);
		for (size_t k = t.c.size(); k-- > 1;) { double mine = t.c[k].stab; double best = t.c[k].kids ? std::max(mine, opt[k]) : mine; int p = t.c[k].parent; opt[(size_t)p] += best; scl[(size_t)p] += std::max(t.c[k].scale, scl[k]); }
		double got = 0; for (int64_t i = 0; i < n; i++) (void)i;
		std::set<int64_t> used(s->labels, s->labels + n); used.erase(0);
		bool known = true; for (int64_t u : used) { if (!m.of.count(u) || u == 1) known = false; else got += t.c[(size_t)m.of.at(u)].stab; }
		if (!known) { bad("unknown-label", "the flat clustering uses a label that is not a selectable cluster"); return f; }
		if (!near(got, opt[0], scl[0])) { bad("not-optimal", fmt("total stability %.17g, optimum %.17g", got, opt[0])); return f; }
	}
	std::set<int64_t> d(s->clusters[1].desc, s->clusters[1].desc + s->clusters[1].ndesc);
	if ((int64_t)d.size() != s->clusters[1].ndesc || d != f.sel) { bad("selection", fmt("the root received %lld descendants, expected %zu", (long long)s->clusters[1].ndesc, f.sel.size())); return f; }
	for (int64_t i = 0; i < n; i++) if (s->labels[i] != f.label[(size_t)i]) { bad("flat-label", fmt("point %lld has label %lld, expected %lld", (long long)i, (long long)s->labels[i], (long long)f.label[(size_t)i])); return f; }
	for (auto &c : cover) if (c.second < s->minPoints) { bad("small-cluster", fmt("label %lld covers %lld points", (long long)c.first, (long long)c.second)); return f; }
	f.ok = true; return f;
}
// C07 -------------------------------------------------------------------------
inline double otype(double x) { return conf.distance_is_float ? (double)(float)x : x; }
inline std::vector<double> reference_scores(const OTree &t) {
	std::vector<double> low(t.c.size()); for (size_t k = 0; k < t.c.size(); k++) low[k] = t.c[k].kids ? INFINITY : t.c[k].death;
	for (size_t k = t.c.size(); k-- > 1;) { size_t p = (size_t)t.c[k].parent; low[p] = std::min(low[p], low[k]); }
	// descendants of a cluster die at lower levels than the cluster itself
	std::vector<double> r; for (size_t i = 0; i < t.noiseLevel.size(); i++) { double e = t.noiseLevel[i], m = low[(size_t)t.last[i]]; r.push_back(e != 0 ? (conf.distance_is_float ? (double)(1.0f - (float)m / (float)e) : 1 - m / e) : 0); }
	return r;
}
inline void check_scores(const ad_snap *s, const OTree &t) {
	int64_t n = s->n; if (!s->hasScores) { ev.viol("no-scores", "no outlier scores"); return; }
	std::vector<double> want = reference_scores(t); std::vector<char> seen((size_t)n, 0);
	for (int64_t k = 0; k < n; k++) {
		int64_t i = s->scoreId[k];
		if (i < 0 || i >= n || seen[(size_t)i]) { ev.viol("score-id", "position %lld names point %lld", (long long)k, (long long)i); return; }
		seen[(size_t)i] = 1;
		if (s->scoreCore[k] != s->core[i]) { ev.viol("score-core", "point %lld carries core distance %.17g, has %.17g", (long long)i, s->scoreCore[k], s->core[i]); return; }
		double e = conf.distance_is_float ? 1e-6 : 1e-15;
		if (!(std::fabs(s->score[k] - want[(size_t)i]) <= e)) { ev.viol("score", "point %lld has score %.17g, expected %.17g", (long long)i, s->score[k], want[(size_t)i]); return; }
		if (!(s->score[k] >= 0 && s->score[k] <= 1)) { ev.viol("score-range", "point %lld has score %.17g", (long long)i, s->score[k]); return; }
		if (k) {
			bool le = s->score[k - 1] < s->score[k] || (s->score[k - 1] == s->score[k] && (s->scoreCore[k - 1] < s->scoreCore[k] || (s->scoreCore[k - 1] == s->scoreCore[k] && s->scoreId[k - 1] < i)));
			if (!le) { ev.viol("score-order", "scores %lld and %lld are out of order", (long long)k - 1, (long long)k); return; }
		}
	}
}
// comparison of complete results, bit for bit -----------------------------------
inline std::string snap_diff(const ad_snap *a, const ad_snap *b) {
#define CMPI(f) if (a->f != b->f) return fmt(#f " %lld and %lld", (long long)a->f, (long long)b->f)
#define CMPA(f, n, what) do { if ((a->f == nullptr) != (b->f == nullptr)) return std::string(what " present in one only"); if (a->f) for (int64_t q = 0; q < (int64_t)(n); q++) if (!same((double)a->f[q], (double)b->f[q])) return fmt(what " %lld: %.17g and %.17g", (long long)q, (double)a->f[q], (double)b->f[q]); } while (0)
	CMPI(n); CMPI(minPoints); CMPI(nA); CMPI(nB); CMPI(nW); CMPI(nclusters); CMPI(nlines); CMPI(hasLabels); CMPI(hasScores);
	int64_t n = a->n;
	CMPA(dist, n * n, "distance"); CMPA(core, n, "core distance"); CMPA(ea, a->nA, "edge A"); CMPA(eb, a->nB, "edge B"); CMPA(ew, a->nW, "edge weight");
	for (int64_t k = 0; k < a->nlines; k++) { if (a->lineKey[k] != b->lineKey[k]) return fmt("line key %lld", (long long)k); if (!same(a->lineWeight[k], b->lineWeight[k])) return fmt("line weight %lld", (long long)k); CMPA(lineLabels[k], n, "line label"); }
	for (int64_t k = 0; k < a->nclusters; k++) {
		const ad_cluster &x = a->clusters[k], &y = b->clusters[k];
#define CC(f) if (!same((double)x.f, (double)y.f)) return fmt("cluster %lld " #f ": %.17g and %.17g", (long long)k, (double)x.f, (double)y.f)
		CC(present); CC(label); CC(parent); CC(birth); CC(death); CC(numPoints); CC(offset); CC(stability); CC(pstability); CC(pdeath); CC(constraints); CC(pconstraints); CC(hasChildren); CC(nvirtual); CC(ndesc);
		for (int64_t j = 0; j < x.nvirtual; j++) CC(virt[j]);
		for (int64_t j = 0; j < x.ndesc; j++) CC(desc[j]);
	}
	CMPA(labels, n, "label"); CMPA(score, n, "score"); CMPA(scoreCore, n, "score core distance"); CMPA(scoreId, n, "score point");
	return "";
}
inline uint64_t snap_hash(const ad_snap *s) {
	uint64_t h = fnv(&s->n, 8); if (s->core) h = fnv(s->core, (size_t)s->n * 8, h); if (s->ew) h = fnv(s->ew, (size_t)s->nW * 8, h);
	if (s->labels) h = fnv(s->labels, (size_t)s->n * 8, h); if (s->score) h = fnv(s->score, (size_t)s->n * 8, h); return h;
}
struct Run { // owns an object and its snapshot
	void *o = nullptr; ad_snap *s = nullptr;
	~Run() { if (s) ad_snap_free(s); if (o) ad_destroy(o); }
};
