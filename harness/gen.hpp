// Data set generator.  Every data set is a function of the generator state only.
#pragma once
#include "ev.hpp"
#include "adapter.h"
#include <cmath>
#include <climits>
#include <algorithm>
#include <functional>

struct Data {
	int dtype = DT_DOUBLE; int64_t rows = 0, cols = 0; bool rowwise = true;
	std::vector<char> raw; std::string kind; bool exactint = false; int64_t mphint = 0;
	int64_t n() const { return rowwise ? rows : rows * cols; }
	int64_t dim() const { return rowwise ? cols : 1; }
	size_t esize() const { switch (dtype) { case DT_INT: return 4; case DT_DOUBLE: return 8; case DT_FLOAT: return 4; case DT_LONG: return 8; case DT_SHORT: return 2; default: return 1; } }
	long double at(int64_t k) const {
		const char *p = raw.data() + (size_t)k * esize();
		switch (dtype) {
		case DT_INT: { int v; memcpy(&v, p, 4); return v; } case DT_DOUBLE: { double v; memcpy(&v, p, 8); return v; }
		case DT_FLOAT: { float v; memcpy(&v, p, 4); return v; } case DT_LONG: { long v; memcpy(&v, p, 8); return v; }
		case DT_SHORT: { short v; memcpy(&v, p, 2); return v; } default: { char v; memcpy(&v, p, 1); return v; }
		}
	}
	void set(int64_t k, long double x) {
		char *p = raw.data() + (size_t)k * esize();
		switch (dtype) {
		case DT_INT: { int v = (int)x; memcpy(p, &v, 4); break; } case DT_DOUBLE: { double v = (double)x; memcpy(p, &v, 8); break; }
		case DT_FLOAT: { float v = (float)x; memcpy(p, &v, 4); break; } case DT_LONG: { long v = (long)x; memcpy(p, &v, 8); break; }
		case DT_SHORT: { short v = (short)x; memcpy(p, &v, 2); break; } default: { char v = (char)x; memcpy(p, &v, 1); break; }
		}
	}
	uint64_t hash() const { uint64_t h = fnv(raw.data(), raw.size()); int64_t m[4] = { dtype, rows, cols, rowwise }; return fnv(m, sizeof m, h); }
	std::string desc() const { static const char *nm[] = { "int", "double", "float", "long", "short", "char" };
		return fmt("%s %s %lldx%lld%s", kind.c_str(), nm[dtype], (long long)rows, (long long)cols, rowwise ? "" : " elementwise"); }
	std::string full(int max = 60) const { std::string s = desc() + " ["; for (int64_t i = 0; i < rows * cols && i < max; i++) s += fmt("%.17Lg ", at(i)); return s + (rows * cols > max ? "...]" : "]"); }
	// n() rows of dim() values each, converted to another type
	Data as(int dt) const { Data d = *this; d.dtype = dt; d.raw.assign((size_t)(rows * cols) * d.esize(), 0); for (int64_t i = 0; i < rows * cols; i++) d.set(i, at(i)); return d; }
};

struct GenOpt {
	int64_t maxn = 80; bool allowTiny = true; int dtype = -1; int kind = -1; bool integral = false; bool allowElementwise = true;
	bool floatRange = false; // keep all distances within the range of float
	int64_t intLimit = 0;   // with integral: |value| bound (0: type dependent)
	int64_t maxcols = 0; int64_t minn = 0; // minn: at least that many points (not for the kinds that choose their own number)
};
enum { G_BLOBS, G_UNIFORM, G_GRID, G_DUP, G_IDENT, G_CHAIN, G_NESTED, G_OUTLIER, G_SIMPLEX, G_OFFSET, G_DUPBLOBS, G_BINTREE, G_MOTIF, G_SCALE, G_SPARSEDUP, G_TIE, G_COUNT };
static const char *gnames[] = { "blobs", "uniform", "grid", "duplicates", "identical", "chain", "nested", "outliers", "simplex", "offset", "dupblobs", "bintree", "motif", "scaled", "sparsedup", "stabilitytie" };

static int64_t GEN_CASE = -1; // the large cases of a check take the kinds in turn
inline Data gen_data(Rng &r, const GenOpt &o = GenOpt()) {
	Data d;
	int kind = o.kind >= 0 ? o.kind : (int)r.range(0, G_COUNT - 1);
	static const int turn[] = { G_MOTIF, G_BLOBS, G_GRID, G_CHAIN, G_DUPBLOBS, G_BINTREE, G_UNIFORM, G_NESTED, G_OUTLIER, G_SPARSEDUP, G_DUP, G_OFFSET, G_SCALE, G_IDENT };
	if (o.minn && o.kind < 0 && GEN_CASE >= 0) kind = turn[GEN_CASE % 14];
	d.dtype = o.dtype >= 0 ? o.dtype : (r.chance(35) ? (int)DT_DOUBLE : (int)r.range(0, DT_COUNT - 1));
	int64_t n; int z = (int)r.range(0, 99);
	if (z < 8 && o.allowTiny) n = r.range(1, 6);
	else if (z < 55) n = r.range(5, 40);
	else n = r.range(20, std::max<int64_t>(20, o.maxn));
	n = std::min(n, o.maxn); if (o.minn) { n = r.range(std::min(o.minn, o.maxn), o.maxn); while (kind == G_SIMPLEX || kind == G_TIE) kind = (int)r.range(0, G_COUNT - 1); }
	int64_t c = r.chance(85) ? r.range(1, 5) : n > 1000 || r.chance(93) ? r.range(6, 24) : r.range(25, 400);
	if (o.maxcols) c = std::min(c, o.maxcols);
	if (kind == G_IDENT && o.kind < 0 && !o.maxcols && r.chance(6)) c = 0; // points without coordinates are identical
	std::vector<double> v;
	auto V = [&](int64_t i, int64_t k) -> double & { return v[(size_t)(i * c + k)]; };
	auto fill = [&]() { v.assign((size_t)(n * c), 0); };
	switch (kind) {
	case G_SIMPLEX: n = std::min<int64_t>(n, 30); c = n; fill(); for (int64_t i = 0; i < n; i++) V(i, i) = 4; break;
	case G_BLOBS: case G_OUTLIER: case G_OFFSET: case G_DUPBLOBS: case G_SCALE: {
		fill(); int64_t k = r.range(1, 6); std::vector<double> cen((size_t)(k * c)), sd((size_t)k);
		for (auto &x : cen) x = r.unit() * 60 - 30;
		for (auto &x : sd) x = 0.3 + r.unit() * (r.chance(30) ? 8 : 2);
		for (int64_t i = 0; i < n; i++) { int64_t b = r.range(0, k - 1); for (int64_t q = 0; q < c; q++) V(i, q) = cen[(size_t)(b * c + q)] + sd[(size_t)b] * r.normal(); }
		if (kind == G_OUTLIER) { int64_t m = r.range(1, std::max<int64_t>(1, n / 6)); for (int64_t j = 0; j < m; j++) { int64_t i = r.range(0, n - 1); for (int64_t q = 0; q < c; q++) V(i, q) = (r.unit() - .5) * 120; } }
		if (kind == G_OFFSET) { double off = std::pow(10., (double)r.range(2, 6)); for (auto &x : v) x += off; }
		if (kind == G_DUPBLOBS) { int64_t g = r.range(1, 3); for (int64_t j = 0; j < g; j++) { int64_t src = r.range(0, n - 1), m = r.range(1, 12); for (int64_t t = 0; t < m; t++) { int64_t i = r.range(0, n - 1); for (int64_t q = 0; q < c; q++) V(i, q) = V(src, q); } } }
		if (kind == G_SCALE && !o.integral && (d.dtype == DT_DOUBLE || d.dtype == DT_FLOAT)) {
			int lim = d.dtype == DT_DOUBLE && !o.floatRange ? 120 : 12; double s = std::pow(10., (double)r.range(-lim, lim)); for (auto &x : v) x *= s; }
		break; }
	case G_UNIFORM: fill(); for (auto &x : v) x = r.unit() * 100 - 50; break;
	case G_GRID: { c = std::min<int64_t>(c, 4); fill(); int64_t m = r.range(2, 12); for (auto &x : v) x = (double)r.range(0, m); break; }
	case G_DUP: { fill(); int64_t k = r.range(1, std::max<int64_t>(1, n / 3)); std::vector<double> p((size_t)(k * c)); for (auto &x : p) x = (double)r.range(-20, 20);
		for (int64_t i = 0; i < n; i++) { int64_t b = r.range(0, k - 1); for (int64_t q = 0; q < c; q++) V(i, q) = p[(size_t)(b * c + q)]; } break; }
	case G_SPARSEDUP: { fill(); for (auto &x : v) x = (double)r.range(-60, 60); int64_t m = r.range(0, n / 2); for (int64_t t = 0; t < m; t++) { int64_t a = r.range(0, n - 1), b = r.range(0, n - 1); for (int64_t q = 0; q < c; q++) V(a, q) = V(b, q); } break; }
	case G_IDENT: { fill(); double x = (double)r.range(-9, 9); for (auto &y : v) y = x; break; }
	case G_CHAIN: { c = std::min<int64_t>(c, 2); fill(); double x = 0; double big = (double)r.range(2, 9); for (int64_t i = 0; i < n; i++) { V(i, 0) = x; x += r.chance(12) ? big : 1; } break; }
	case G_NESTED: { fill(); int64_t lv = r.range(2, 5); for (int64_t i = 0; i < n; i++) { double rad = 40; int64_t l = r.range(0, lv - 1); for (int64_t t = 0; t < l; t++) rad /= 3.3; for (int64_t q = 0; q < c; q++) V(i, q) = (q == 0 ? (double)((i % 2) ? 3 * rad : -3 * rad) * (l > 0) : 0) + r.normal() * rad / 3; } break; }
	case G_BINTREE: { c = std::min<int64_t>(c, 2); fill(); int64_t depth = r.range(2, 6); for (int64_t i = 0; i < n; i++) { int64_t b = i; double x = 0, s = (double)(int64_t(1) << (depth + 1)); for (int64_t t = 0; t < depth; t++) { x += ((b & 1) ? s : -s); b >>= 1; s /= 2; } V(i, 0) = x + (double)r.range(0, 1); } break; }
	case G_TIE: { // on a line, for minPts 2: clusters whose stability equals that of their best descendants (or misses it by one point)
		c = 1; int depth = (int)r.range(1, o.maxn >= 120 ? 3 : o.maxn >= 40 ? 2 : 1); double S = (double)(1 << depth) * (r.chance(70) ? 1 : 3);
		struct Node { std::vector<double> x; double best; };
		std::function<Node(int, bool)> build = [&](int L, bool leaf) -> Node { // best is in units of 1/S
			Node t; double sp = S / (double)(1 << L);
			if (leaf || L >= depth) { int64_t k = r.range(2, 4); for (int64_t i = 0; i < k; i++) t.x.push_back((double)i * sp); t.best = (double)k * (L ? (double)(1 << L) / 2 : 0.5); return t; }
			Node a = build(L + 1, r.chance(20)), b = build(L + 1, r.chance(20));
			double half = L ? (double)(1 << L) / 2 : 0.5, sum = a.best + b.best;
			int64_t m = (int64_t)std::llround(sum / half) - (int64_t)(a.x.size() + b.x.size()); int z = (int)r.range(0, 9); if (z == 8) m--; if (z == 9) m++; m = std::max<int64_t>(0, m);
			t.x = a.x; double e = t.x.back(); for (int64_t i = 0; i < m; i++) t.x.push_back(e += sp); e += sp; for (double y : b.x) t.x.push_back(e + y);
			t.best = std::max(sum, (double)t.x.size() * half); return t; };
		int64_t k = r.range(2, 3); std::vector<double> x; double e = 0;
		for (int64_t j = 0; j < k && (int64_t)x.size() < o.maxn; j++) { Node t = build(0, false); for (double y : t.x) x.push_back(e + y); e = x.back() + 2 * S; }
		if ((int64_t)x.size() > o.maxn) x.resize((size_t)o.maxn);
		n = (int64_t)x.size(); fill(); for (int64_t i = 0; i < n; i++) V(i, 0) = x[(size_t)i]; d.mphint = 2; break; }
	case G_MOTIF: { // equal copies of one small group of points, equally spaced: simultaneous multi-way splits
		c = std::min<int64_t>(std::max<int64_t>(c, 1), 3); int64_t k = r.range(2, 6), m = std::max<int64_t>(1, n / k); n = k * m; fill();
		std::vector<double> p((size_t)(m * c)); for (auto &x : p) x = (double)r.range(0, 6);
		double gap = (double)r.range(8, 40); bool two = r.chance(50);
		for (int64_t a = 0; a < k; a++) for (int64_t b = 0; b < m; b++) for (int64_t q = 0; q < c; q++) V(a * m + b, q) = p[(size_t)(b * c + q)] + (q == 0 ? gap * (double)(two ? (a / 2) * 3 + (a % 2) : a) : 0);
		break; }
	}
	if (r.chance(50)) for (int64_t i = n - 1; i > 0; i--) { int64_t j = r.range(0, i); for (int64_t q = 0; q < c; q++) std::swap(V(i, q), V(j, q)); }
	d.kind = gnames[kind]; d.rows = n; d.cols = c;
	if (o.allowElementwise && r.chance(6) && c > 0 && n * c <= o.maxn && kind != G_SIMPLEX) d.rowwise = false;
	d.raw.assign((size_t)(n * c) * d.esize(), 0);
	bool rounded = o.integral || r.chance(30);
	for (size_t i = 0; i < v.size(); i++) {
		double x = v[i];
		if (o.integral) { x = std::nearbyint(x * 2); if (o.intLimit) x = std::max<double>((double)-o.intLimit, std::min<double>((double)o.intLimit, x)); }
		else switch (d.dtype) {
		case DT_INT: x = std::nearbyint(x * 1000); break; case DT_LONG: x = std::nearbyint(x * 1e6); break;
		case DT_SHORT: x = std::nearbyint(std::max(-32768., std::min(32767., x * 100))); break;
		case DT_CHAR: x = std::nearbyint(std::max(-128., std::min(127., x))); break;
		default: if (kind == G_TIE) break; if (rounded && kind != G_SCALE) x = std::nearbyint(x * 4) / 4; }
		if (d.dtype == DT_CHAR) x = std::max(-128., std::min(127., x));
		if (d.dtype == DT_SHORT) x = std::max(-32768., std::min(32767., x));
		if (d.dtype == DT_INT) x = std::max(-2147483648., std::min(2147483647., x));
		d.set((int64_t)i, x);
	}
	d.exactint = o.integral;
	return d;
}
inline int64_t gen_minpts(Rng &r, int64_t n, int64_t hint = 0) {
	if (hint && r.chance(75)) return hint;
	int z = (int)r.range(0, 99);
	if (z < 70) return r.range(2, std::max<int64_t>(2, std::min<int64_t>(n, 8)));
	if (z < 88) return r.range(2, std::max<int64_t>(2, std::min<int64_t>(n + 2, 16)));
	if (z < 92) return std::max<int64_t>(2, n);
	if (z < 95) return n + 1 < 2 ? 2 : n + 1;
	if (z < 97) return n + 5;
	return r.range(2, std::max<int64_t>(2, n));
}
inline int64_t gen_minpts(Rng &r, const Data &d) { return gen_minpts(r, d.n(), d.mphint); }
