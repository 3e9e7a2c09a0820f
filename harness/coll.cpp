// L01-L05: the collections against abstract models, under the address sanitizer and
// with every allocation accounted.
#include "collections/hashtable.h"
#include "collections/linkedlist.h"
#include "collections/list.h"
#include "collections/set.h"
#include "collections/primes.h"
#include "hdbscan/utils.h"
#include "ev.hpp"
#include "wrap.h"
#include <algorithm>
#include <deque>
#include <set>
#include <cmath>
#include <cfloat>
#include <climits>
#include <functional>
#include <memory>
#include <limits>
Ev ev; static std::string PROP; static const char *JPROP = "";
typedef std::string Bytes;
extern "C" { size_t int_hash(void *, size_t); size_t long_hash(void *, size_t); size_t short_hash(void *, size_t); size_t char_hash(void *, size_t); size_t double_hash(void *, size_t); size_t float_hash(void *, size_t); size_t str_hash(void *, size_t); }

// exactly sized heap buffer
struct Buf { char *p; size_t n; Buf(size_t k, int fill = 0xa5) : p((char *)malloc(k)), n(k) { memset(p, fill, k); } Buf(const Bytes &b) : p((char *)malloc(b.size())), n(b.size()) { memcpy(p, b.data(), n); } ~Buf() { free(p); } Bytes str() const { return Bytes(p, n); } operator void *() { return p; } };
struct Bad { const char *key; std::string what; };
#define CHECK(c, key, ...) do { ev.count("observations"); if (!(c)) throw Bad{ key, fmt(__VA_ARGS__) }; } while (0)

// element kinds: library comparators, or opaque structures compared by their first byte(s)
static int cmp_first(const void *a, const void *b) { return (int)*(const unsigned char *)a - (int)*(const unsigned char *)b; }
static int32_t at(const void *p) { int32_t v; memcpy(&v, p, 4); return v; }
static int cmp_scaled(const void *a, const void *b) { return (at(a) - at(b)) * 65536; } // only the sign of a result means anything
static int cmp_extreme(const void *a, const void *b) { return at(a) < at(b) ? INT_MIN : at(a) > at(b) ? INT_MAX : 0; }
static size_t g_step; static int cmp_all(const void *a, const void *b) { return memcmp(a, b, g_step); }
struct Kind { const char *name; size_t step; int32_t (*cmp)(const void *, const void *); std::function<Bytes(Rng &)> make; };
template <class T> static Bytes raw(T v) { return Bytes((const char *)&v, sizeof v); }
static std::vector<std::unique_ptr<int32_t>> dummy;
static int32_t cells_i[64]; static double cells_d[64];
static std::vector<Kind> kinds() {
	std::vector<Kind> k;
	k.push_back({ "int", 4, int_compare, [](Rng &r) { return raw<int32_t>(r.chance(10) ? (r.chance(50) ? INT32_MIN : INT32_MAX) : (int32_t)r.range(-6, 14)); } });
	k.push_back({ "long", 8, long_compare, [](Rng &r) { return raw<long>(r.chance(10) ? (r.chance(50) ? LONG_MIN : LONG_MAX) : r.chance(20) ? (long)r.range(0, 8) << 33 : (long)r.range(-6, 14)); } });
	k.push_back({ "short", 2, short_compare, [](Rng &r) { return raw<short>((short)(r.chance(10) ? (r.chance(50) ? -32768 : 32767) : r.range(-6, 14))); } });
	k.push_back({ "char", 1, char_compare, [](Rng &r) { return raw<char>((char)r.range(-8, 12)); } });
	k.push_back({ "double", 8, double_compare, [](Rng &r) { return raw<double>(r.chance(10) ? (r.chance(50) ? -DBL_MAX : INFINITY) : (double)r.range(-6, 14) / 4 + 1e-9 * (double)r.range(0, 1)); } });
	k.push_back({ "float", 4, float_compare, [](Rng &r) { return raw<float>((float)r.range(-6, 14) / 4 + 1e-3f * (float)r.range(0, 1)); } });
	k.push_back({ "pointer", 8, ptr_compare, [](Rng &r) { return raw<void *>((void *)&cells_d[r.range(0, 15)]); } });
	k.push_back({ "int pointer", 8, int_ptr_compare, [](Rng &r) { return raw<void *>((void *)&cells_i[r.range(0, 20)]); } });
	k.push_back({ "int, scaled results", 4, cmp_scaled, [](Rng &r) { return raw<int32_t>((int32_t)r.range(-40, 40)); } });
	k.push_back({ "int, extreme results", 4, cmp_extreme, [](Rng &r) { return raw<int32_t>((int32_t)r.range(-12, 20)); } });
	for (size_t s : { 1, 3, 5, 12, 16, 24, 33, 64 }) k.push_back({ "structure", s, cmp_first, [s](Rng &r) { Bytes b(s, 0); for (auto &c : b) c = (char)r.range(0, 255); b[0] = (char)r.range(0, 12); return b; } });
	return k;
}
static Kind pick_kind(Rng &r) { static std::vector<Kind> k = kinds(); for (int i = 0; i < 64; i++) cells_i[i] = i / 2 - 4; return k[(size_t)r.range(0, (int64_t)k.size() - 1)]; }

// Large containers: few of the cases, with many different values, whose content is compared as a whole less often
static int64_t big_size(Rng &r) { return r.chance(60) ? r.range(1000, 6000) : r.chance(80) ? r.range(32000, 70000) : r.range(70000, 140000); }
static Kind big_kind(Rng &r, int64_t n) {
	int64_t top = std::max<int64_t>(4, n * 4 / 5);
	switch (r.range(0, 4)) {
	case 0: return { "int (many values)", 4, int_compare, [=](Rng &q) { return raw<int32_t>((int32_t)q.range(0, top)); } };
	case 1: return { "long (many values)", 8, long_compare, [=](Rng &q) { return raw<long>((long)q.range(-top, top)); } };
	case 2: return { "double (many values)", 8, double_compare, [=](Rng &q) { return raw<double>((double)q.range(0, top) / 8); } };
	case 3: return { "int, scaled results (many values)", 4, cmp_extreme, [=](Rng &q) { return raw<int32_t>((int32_t)q.range(-top, 0)); } };
	default: return { "structure (many values)", 12, int_compare, [=](Rng &q) { Bytes b(12, 0); for (auto &c : b) c = (char)q.range(0, 255); int32_t v = (int32_t)q.range(0, top); memcpy(&b[0], &v, 4); return b; } };
	}
}
// ------------------------------------------------------------------ L01
static void same_data(ArrayList *l, const std::vector<Bytes> &m, size_t step) { // the whole content at once
	CHECK(array_list_size(l) == m.size(), "size", "size %zu, expected %zu", array_list_size(l), m.size()); Bytes w; for (auto &b : m) w += b;
	for (size_t i = 0; w.size() && memcmp(l->data, w.data(), w.size()) && i < m.size(); i++) CHECK(!memcmp((char *)l->data + i * step, m[i].data(), step), "content", "element %zu of %zu differs", i, m.size());
}
static void same_list(ArrayList *l, const std::vector<Bytes> &m, size_t step) {
	CHECK(array_list_size(l) == m.size(), "size", "size %zu, expected %zu", array_list_size(l), m.size());
	CHECK((array_list_empty(l) != 0) == m.empty(), "empty", "empty reported as %d with %zu elements", array_list_empty(l), m.size());
	CHECK(l->max_size >= m.size(), "capacity", "capacity %zu for %zu elements", l->max_size, m.size());
	for (size_t i = 0; i < m.size(); i++) { Buf b(step); int r = array_list_value_at(l, i, b); CHECK(r == 1 && b.str() == m[i], "content", "element %zu of %zu differs (returned %d)", i, m.size(), r); }
	if (m.size() && memcmp(l->data, m[0].data(), step)) throw Bad{ "content", "the data array does not start with the first element" };
}
static void l01(Rng &r, const std::string &id) {
	bool big = r.chance(1); int64_t N = big ? big_size(r) : 0; Kind K = big ? big_kind(r, N) : pick_kind(r); size_t init = (size_t)r.range(1, r.chance(80) ? 6 : 70); int len = (int)(big ? r.range(20, 90) : r.chance(10) ? r.range(100, 900) : r.range(4, 90)); bool ptr = K.step == 8 && r.chance(30);
	ev.begin(id, fmt("list of %s (%zu bytes), capacity %zu, %lld elements first, %d operations", K.name, K.step, init, (long long)N, len)); g_step = K.step;
	long mark = wrap_live(); ArrayList *l = ptr ? ptr_array_list_init(init, K.cmp) : array_list_init(init, K.step, K.cmp); std::vector<Bytes> m; uint64_t h = 0; std::string last;
	bool grow = r.chance(50); int grows = 0;
	try {
		CHECK(l != nullptr, "init", "no list"); bool sorted = true;
		for (int64_t i = 0; i < N; i++) { Bytes v = K.make(r); int x = array_list_append(l, &v[0]); CHECK(x == 1, "append-result", "append returned %d", x); m.push_back(v); } if (big) { sorted = false; ev.count("large_containers"); ev.count("large_elements", N); }
		for (int k = 0; k < len; k++) {
			int op = (int)r.range(0, 13); if (grow && r.chance(30)) op = 0; h = h * 31 + (uint64_t)op; Bytes v = K.make(r); if (big && m.size() && r.chance(50)) v = m[(size_t)r.range(0, (int64_t)m.size() - 1)]; if (big && op == 12 && r.chance(80)) op = 11; Buf in(v), out(K.step); int64_t n = (int64_t)m.size(); last = fmt("operation %d (%d) at size %lld", k, op, (long long)n); ev.count("operations");
			auto eq = [&](const Bytes &a) { return K.cmp(a.data(), v.data()) == 0; };
			if (op <= 1) { int x = array_list_append(l, in); CHECK(x == 1, "append-result", "append returned %d", x); m.push_back(v); sorted = false; }
			else if (op == 2 || op == 3) { int64_t p = r.range(0, n + 2); if (r.chance(20)) p = n; int x = array_list_insert_at(l, in, (size_t)p); CHECK((x == 1) == (p <= n) && (x == 0 || x == 1), "insert-result", "insert at %lld of %lld returned %d", (long long)p, (long long)n, x); if (p <= n) { m.insert(m.begin() + p, v); sorted = false; } }
			else if (op == 4) { int64_t p = r.range(0, n + 2); int x = array_list_replace_at(l, in, (size_t)p); CHECK((x == 1) == (p < n), "replace-result", "replace at %lld of %lld returned %d", (long long)p, (long long)n, x); if (p < n) { m[(size_t)p] = v; sorted = false; } }
			else if (op == 5) { int64_t p = r.chance(30) ? n + r.range(0, 3) : r.range(0, std::max<int64_t>(0, n - 1)); if (r.chance(4)) p = -1; int x = array_list_value_at(l, (size_t)p, out); bool ok = p >= 0 && p < n; CHECK((x == 1) == ok && (x == 0 || x == 1), "value-result", "value at %lld of %lld returned %d", (long long)p, (long long)n, x); CHECK(ok ? out.str() == m[(size_t)p] : out.str() == Bytes(K.step, (char)0xa5), "value", "value at %lld of %lld", (long long)p, (long long)n); }
			else if (op == 6) { if (sorted && r.chance(70)) { int64_t x = array_list_find(l, in, 1); bool any = std::any_of(m.begin(), m.end(), eq); CHECK(any ? x >= 0 && x < n && eq(m[(size_t)x]) : x == -1, "find-sorted", "sorted search in %lld elements returned %lld", (long long)n, (long long)x); ev.count("sorted_searches"); }
				else { int64_t x = array_list_find(l, in, 0); int64_t w = std::find_if(m.begin(), m.end(), eq) - m.begin(); if (w == n) w = -1; CHECK(x == w, "find", "search returned %lld, expected %lld", (long long)x, (long long)w); } }
			else if (op == 7) { int64_t p = r.range(0, n + 1); int x = array_list_remove_at(l, (size_t)p, out); CHECK((x == 1) == (p < n), "remove-at-result", "remove at %lld of %lld returned %d", (long long)p, (long long)n, x); if (p < n) { CHECK(out.str() == m[(size_t)p], "remove-at-value", "removed value at %lld", (long long)p); m.erase(m.begin() + p); } }
			else if (op == 8 || op == 9) { auto it = std::find_if(m.begin(), m.end(), eq); int x = array_list_remove(l, in); if (it == m.end()) { CHECK(x == -1, "remove-result", "removing an absent element returned %d", x); CHECK(in.str() == v, "remove-value", "value changed"); } else { CHECK(x == 1, "remove-result", "remove returned %d", x); CHECK(in.str() == *it, "remove-value", "another element was handed back"); m.erase(it); } }
			else if (op == 10) { int x = array_list_pop(l, out); if (m.empty()) CHECK(x == -1, "pop-result", "pop of an empty list returned %d", x); else { CHECK(x == 1 && out.str() == m.back(), "pop", "pop returned %d or another value", x); m.pop_back(); } }
			else if (op == 11) { array_list_sort(l); ev.count("sorts"); sorted = true; std::vector<Bytes> got; CHECK(array_list_size(l) == m.size(), "sort-size", "size after sorting"); for (size_t i = 0; i < m.size(); i++) { Buf b(K.step); array_list_value_at(l, i, b); got.push_back(b.str()); } for (size_t i = 1; i < got.size(); i++) CHECK(K.cmp(got[i - 1].data(), got[i].data()) <= 0, "sort-order", "elements %zu and %zu out of order", i - 1, i); auto a = m, b = got; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end()); CHECK(a == b, "sort-elements", "sorting changed the elements"); m = got; }
			else if (op == 12) { if (r.chance(30)) { int z = (int)r.range(0, 1); array_list_clear(l, z); m.clear(); sorted = true; ev.count(z ? "clears_with_release" : "clears"); } }
			else { if (r.chance(40) && grows++ < 5) { int x = array_list_grow(l); CHECK(x == 1, "grow", "grow returned %d", x); } }
			if (m.size() < 950) same_list(l, m, K.step); else if (k % 8 == 0 || k + 1 == len) same_data(l, m, K.step);
			if (m.size() < 2) sorted = true;
		}
		ev.count("elements_seen", (long long)m.size());
		CHECK(array_list_delete(l) == nullptr, "delete-result", "delete returned a list"); l = nullptr; CHECK(wrap_live() == mark, "leak", "%ld blocks not released", wrap_live() - mark);
	} catch (Bad &b) { ev.viol(b.key, "%s: %s", last.c_str(), b.what.c_str()); }
	ev.nontrivial(h ^ K.step); ev.sample(fmt("%s[%zu] %d operations, %zu elements left", K.name, K.step, len, m.size()));
}
// ------------------------------------------------------------------ L02
static void l02(Rng &r, const std::string &id) {
	bool big = r.chance(1); int64_t N = big ? big_size(r) : 0; Kind K = big ? big_kind(r, N * 2) : pick_kind(r); int len = (int)(big ? r.range(20, 90) : r.chance(10) ? r.range(100, 700) : r.range(4, 90)); if (!strcmp(K.name, "structure") && K.step == 1) K.cmp = cmp_first;
	ev.begin(id, fmt("set of %s (%zu bytes), %lld elements first, %d operations", K.name, K.step, (long long)N, len)); long mark = wrap_live(); set_t *s = set_init(K.step, K.cmp); std::vector<Bytes> m; uint64_t h = 0; std::string last;
	bool wide = r.chance(30); long seq = r.chance(50) ? 1 : -1; long nextv = 0;
	try {
		CHECK(s != nullptr, "init", "no set");
		if (big) { // in the order of the comparator, against it, or in disorder
			std::vector<Bytes> all; for (int64_t i = 0; i < N; i++) all.push_back(K.make(r)); auto less = [&](const Bytes &a, const Bytes &b) { return K.cmp(a.data(), b.data()) < 0; }; int order = (int)(N > 20000 ? r.range(0, 1) : r.range(0, 2)); if (order < 2) std::stable_sort(all.begin(), all.end(), less); if (order == 1) std::reverse(all.begin(), all.end());
			std::set<Bytes, std::function<bool(const Bytes &, const Bytes &)>> seen(less); for (auto &v : all) { bool fresh = seen.insert(v).second; int x = set_insert(s, &v[0]); CHECK(x == (fresh ? 1 : 0), "insert-result", "insert of a %s element returned %d", fresh ? "new" : "present", x); } m.assign(seen.begin(), seen.end()); ev.count("large_containers"); ev.count("large_elements", (long long)m.size());
		}
		for (int k = 0; k < len; k++) {
			Bytes v = K.make(r); if (big && m.size() && r.chance(50)) v = m[(size_t)r.range(0, (int64_t)m.size() - 1)]; if (wide && !strcmp(K.name, "int")) v = raw<int32_t>((int32_t)(r.chance(50) ? (nextv += seq) : r.range(-500, 500)));
			int op = (int)r.range(0, 11); h = h * 31 + (uint64_t)op; Buf in(v), out(K.step); last = fmt("operation %d (%d) at size %zu", k, op, m.size()); ev.count("operations");
			auto it = std::lower_bound(m.begin(), m.end(), v, [&](const Bytes &a, const Bytes &b) { return K.cmp(a.data(), b.data()) < 0; }); bool has = it != m.end() && K.cmp(it->data(), v.data()) == 0; int64_t pos = it - m.begin();
			if (op <= 5) { int x = set_insert(s, in); CHECK(x == (has ? 0 : 1), "insert-result", "insert of a %s element returned %d", has ? "present" : "new", x); CHECK(in.str() == v, "insert-value", "the argument changed"); if (!has) m.insert(it, v); else ev.count("duplicate_insertions"); }
			else if (op <= 7) { int x = set_remove(s, in); if (has) { CHECK(x == 1, "remove-result", "remove returned %d", x); CHECK(in.str() == *it, "remove-value", "another element was handed back"); m.erase(it); } else CHECK(x == -1, "remove-result", "removing an absent element returned %d", x); }
			else if (op <= 8) { int64_t x = set_find(s, in); CHECK(x == (has ? pos : -1), "find", "find returned %lld, expected %lld", (long long)x, (long long)(has ? pos : -1)); }
			else if (op == 9) { int64_t p = r.range(0, (int64_t)m.size() + 1); int x = set_remove_at(s, (size_t)p, out); CHECK((x == 1) == (p < (int64_t)m.size()), "remove-at-result", "remove at %lld of %zu returned %d", (long long)p, m.size(), x); if (x == 1) { CHECK(out.str() == m[(size_t)p], "remove-at-value", "removed value"); m.erase(m.begin() + p); } }
			else if (op == 10) { if (r.chance(15)) { set_clear(s); m.clear(); ev.count("clears"); } else if (r.chance(30)) set_sort(s); }
			CHECK(set_size(s) == m.size(), "size", "size %zu, expected %zu", set_size(s), m.size()); CHECK((set_empty(s) != 0) == m.empty(), "empty", "empty reported as %d with %zu elements", set_empty(s), m.size());
			if (m.size() < 900) for (size_t i = 0; i < m.size(); i++) { Buf b(K.step); int x = set_value_at(s, i, b); CHECK(x == 1 && b.str() == m[i], "content", "element %zu of %zu", i, m.size()); } else if (k % 8 == 0 || k + 1 == len) same_data(s, m, K.step);
			{ Buf b(K.step); int x = set_value_at(s, m.size(), b); CHECK(x == 0, "content", "an element past the end"); }
		}
		set_delete(s); s = nullptr; CHECK(wrap_live() == mark, "leak", "%ld blocks not released", wrap_live() - mark);
	} catch (Bad &b) { ev.viol(b.key, "%s: %s", last.c_str(), b.what.c_str()); }
	ev.nontrivial(h ^ K.step); ev.sample(fmt("%s[%zu] %d operations, %zu elements left", K.name, K.step, len, m.size()));
}
// ------------------------------------------------------------------ L03
static int32_t cmp_str(const void *a, const void *b) { int c = strcmp(*(char *const *)a, *(char *const *)b); return c < 0 ? -1 : c > 0; }
static std::map<std::string, int> keyDestroyed; static std::map<void *, int> valDestroyed;
static void kd(void *p) { keyDestroyed[(char *)p]++; } static void vd(void *p) { valDestroyed[p]++; }
static char pool[200][2][12]; static char cells[4000];
static void l03(Rng &r, const std::string &id) {
	static const HTYPES kt[] = { H_INT, H_LONG, H_SHORT, H_CHAR, H_DOUBLE, H_FLOAT, H_STRING }, vt[] = { H_INT, H_DOUBLE, H_FLOAT, H_LONG, H_SHORT, H_CHAR, H_PTR, H_STRING };
	static const char *tn[] = { "int", "double", "float", "long", "short", "char", "string", "pointer" };
	HTYPES K = kt[r.range(0, 6)], D = vt[r.range(0, 7)]; bool exact = r.chance(50); size_t buckets = exact ? (size_t)r.range(0, 20) : (size_t)r.range(0, 130); int64_t span = r.chance(20) ? 150 : r.range(3, 40); if (r.chance(20)) { exact = true; buckets = 1; }
	bool big = r.chance(1); int64_t N = 0, B = 0; if (big) { K = r.chance(70) ? H_INT : H_LONG; N = r.chance(60) ? r.range(1000, 5000) : r.range(20000, 70000); B = r.chance(40) ? r.range(N / 20, N) : r.range(66000, 300000); buckets = (size_t)B; }
	int len = (int)(r.chance(15) ? r.range(100, 600) : r.range(5, 90)); ev.begin(id, fmt("table %s to %s, %zu buckets%s, %d operations over %lld keys", tn[K], tn[D], buckets, exact ? " exactly" : "", len, (long long)span));
	for (int i = 0; i < 200; i++) for (int j = 0; j < 2; j++) snprintf(pool[i][j], 12, i % 3 == 0 ? "k%d" : i % 3 == 1 ? "key-%d" : "%d", i);
	static int32_t (*cmp[])(const void *, const void *) = { int_compare, double_compare, float_compare, long_compare, short_compare, char_compare, cmp_str };
	auto key = [&](int64_t i) -> Bytes { switch (K) { case H_INT: return raw<int32_t>(i % 7 == 6 ? INT32_MIN + (int32_t)i : (int32_t)(i - span / 2) * (i % 5 == 4 ? 1000003 : 1)); case H_LONG: return raw<long>(i % 7 == 6 ? (long)i << 40 : (long)(i - span / 2)); case H_SHORT: return raw<short>((short)((i - span / 2) * (i % 5 == 4 ? 211 : 1))); case H_CHAR: return raw<char>((char)(i - span / 2)); case H_DOUBLE: return raw<double>(i % 9 == 8 ? (i % 2 ? -1e300 : 1e19) * (double)(i + 1) : (double)(i - span / 2) / 4); case H_FLOAT: return raw<float>(i % 9 == 8 ? (i % 2 ? -1e30f : 1e20f) * (float)(i + 1) : (float)(i - span / 2) / 4); default: return raw<char *>(pool[i][r.range(0, 1)]); } };
	auto wideCmp = K == H_INT && r.chance(40) ? cmp_extreme : cmp[K];
	size_t ds = get_htype_size(D); static int64_t cell = 0;
	auto val = [&]() -> Bytes { if (D == H_PTR || D == H_STRING) return raw<void *>(&cells[cell++ % 4000]); Bytes b(ds, 0); for (auto &c : b) c = (char)r.range(0, 255); return b; };
	long mark = wrap_live(); hashtable *t = exact ? hashtable_init_size(buckets, K, D, wideCmp) : hashtable_init(buckets, K, D, wideCmp); std::map<int64_t, Bytes> m; uint64_t h = (uint64_t)K * 8 + D; std::string last;
	auto less = [&](int64_t a, int64_t b) { Bytes x = key(a), y = key(b); return cmp[K](x.data(), y.data()) < 0; };
	auto own = [&](int64_t, Buf &kin) -> void * { if (!r.chance(20)) return kin; size_t st = get_htype_size(K); for (size_t i = 0; i < set_size(t->keys); i++) { char *e = (char *)t->keys->data + i * st; if (!cmp[K](e, kin.p)) { ev.count("own_keys"); return e; } } return kin; }; // the key where it lies in the table
	{ // indices must be distinct keys
		std::vector<int64_t> u; for (int64_t i = 0; i < span; i++) { bool dup = false; for (int64_t j : u) { Bytes x = key(i), y = key(j); if (!cmp[K](x.data(), y.data())) dup = true; } if (!dup) u.push_back(i); }
		try {
			CHECK(t != nullptr, "init", "no table");
			if (big) { // many entries or buckets: inserted, looked up, replaced and removed again
				std::map<int64_t, Bytes> g; int64_t mul = r.chance(50) ? 1 : r.range(2, 29999); auto bk = [&](int64_t i) { int64_t v = 1000 + i * mul; return K == H_INT ? raw<int32_t>((int32_t)v) : raw<long>((long)v << (i % 3 == 2 ? 32 : 0)); };
				for (int64_t i = 0; i < N; i++) { Bytes kb = bk(i), vb = val(), in = vb; int x = hashtable_insert(t, &kb[0], &in[0]); CHECK(x == 1 && in == vb, "insert-result", "insert of new key number %lld returned %d", (long long)i, x); g[i] = vb; }
				auto all = [&](const char *when) { for (int64_t i = 0; i < N + 20; i++) { Bytes kb = bk(i), out(ds, (char)0xa5); int x = hashtable_lookup(t, &kb[0], &out[0]); auto it = g.find(i); CHECK(x == (it != g.end() ? 1 : 0) && (!x || out == it->second), "lookup-value", "%s: key number %lld", when, (long long)i); } CHECK(hashtable_size(t) == g.size() && set_size(t->keys) == g.size(), "size", "%s: %zu entries and %zu keys, expected %zu", when, hashtable_size(t), set_size(t->keys), g.size()); };
				last = "large table"; all("after the insertions"); for (int q = 0; q < 300; q++) { int64_t i = r.range(0, N + 5); Bytes kb = bk(i), vb = val(), io = vb; bool has = g.count(i); if (r.chance(50)) { int x = hashtable_insert(t, &kb[0], &io[0]); CHECK(x == (has ? -1 : 1) && io == (has ? g[i] : vb), "replaced-value", "insert of %s key number %lld returned %d", has ? "present" : "new", (long long)i, x); g[i] = vb; } else { int x = hashtable_remove(t, &kb[0], &io[0]); CHECK(x == (has ? 1 : 0) && (!has || io == g[i]), "remove-value", "remove of %s key number %lld returned %d", has ? "present" : "missing", (long long)i, x); g.erase(i); } }
				all("after replacements and removals"); ev.count("large_containers"); ev.count("large_elements", N);
				if (r.chance(50)) { hashtable_clear(t, nullptr, nullptr); } else for (auto &p : g) { Bytes kb = bk(p.first), out(ds, 0); int x = hashtable_remove(t, &kb[0], &out[0]); CHECK(x == 1 && out == p.second, "remove-value", "remove of key number %lld returned %d", (long long)p.first, x); } CHECK(hashtable_size(t) == 0 && set_size(t->keys) == 0, "size", "%zu entries are left", hashtable_size(t));
			}
			for (int k = 0; k < len; k++) {
				int64_t i = u[(size_t)r.range(0, (int64_t)u.size() - 1)]; int op = (int)r.range(0, 11); h = h * 31 + (uint64_t)op + (uint64_t)i * 3; Bytes kb = key(i), vb = val(); Buf kin(kb), vin(vb), out(ds); bool has = m.count(i); last = fmt("operation %d (%d) at size %zu", k, op, m.size()); ev.count("operations");
				if (op <= 4) { int x = hashtable_insert(t, kin, vin); CHECK(x == (has ? -1 : 1), "insert-result", "insert of a %s key returned %d", has ? "present" : "new", x); CHECK(vin.str() == (has ? m[i] : vb), has ? "replaced-value" : "insert-value", "value handed back by insert"); m[i] = vb; if (has) ev.count("replacements"); }
				else if (op <= 6) { void *kp = own(i, kin); int x = hashtable_lookup(t, kp, out); CHECK(x == (has ? 1 : 0), "lookup-result", "lookup of a %s key returned %d", has ? "present" : "missing", x); CHECK(out.str() == (has ? m[i] : Bytes(ds, (char)0xa5)), "lookup-value", "value looked up"); }
				else if (op <= 9) { void *kp = own(i, kin); int x = hashtable_remove(t, kp, out); CHECK(x == (has ? 1 : 0), "remove-result", "remove of a %s key returned %d", has ? "present" : "missing", x); CHECK(out.str() == (has ? m[i] : Bytes(ds, (char)0xa5)), "remove-value", "value removed"); m.erase(i); if (has) ev.count("removals"); }
				else if (op == 10 && r.chance(12)) {
					keyDestroyed.clear(); valDestroyed.clear(); bool uk = K == H_STRING && r.chance(60), uv = (D == H_PTR || D == H_STRING) && r.chance(60); int x = hashtable_clear(t, uk ? kd : nullptr, uv ? vd : nullptr); CHECK(x == 1, "clear-result", "clear returned %d", x); ev.count("clears");
					if (uk) { CHECK(keyDestroyed.size() == m.size(), "key-destroy", "%zu keys destroyed of %zu", keyDestroyed.size(), m.size()); for (auto &p : m) { int c = keyDestroyed[pool[p.first][0]]; CHECK(c == 1, "key-destroy", "a key was destroyed %d times", c); } }
					if (uv) { CHECK(valDestroyed.size() == m.size(), "value-destroy", "%zu values destroyed of %zu", valDestroyed.size(), m.size()); for (auto &p : m) { void *q; memcpy(&q, p.second.data(), 8); int c = valDestroyed[q]; CHECK(c == 1, "value-destroy", "a value was destroyed %d times", c); } }
					m.clear();
				}
				CHECK(hashtable_size(t) == m.size(), "size", "size %zu, expected %zu", hashtable_size(t), m.size()); CHECK((hashtable_empty(t) != 0) == m.empty(), "empty", "empty reported as %d with %zu entries", hashtable_empty(t), m.size());
				if (r.chance(k + 1 == len ? 100 : 25)) {
					std::vector<int64_t> want; for (auto &p : m) want.push_back(p.first); std::sort(want.begin(), want.end(), less); CHECK(set_size(t->keys) == want.size(), "key-set", "%zu keys, expected %zu", set_size(t->keys), want.size());
					for (size_t q = 0; q < want.size(); q++) { Buf b(get_htype_size(K)); set_value_at(t->keys, q, b); Bytes w = key(want[q]); CHECK(cmp[K](b.p, w.data()) == 0, "key-set", "key %zu of %zu", q, want.size()); }
					for (int64_t j : u) { Bytes kk = key(j); Buf b(kk), o2(ds); int x = hashtable_lookup(t, b, o2); CHECK(x == (m.count(j) ? 1 : 0) && (!x || o2.str() == m[j]), "map", "key %lld of the table differs from the map", (long long)j); }
				}
			}
			keyDestroyed.clear(); valDestroyed.clear(); bool uv = (D == H_PTR || D == H_STRING), uk = K == H_STRING; size_t n = m.size(); hashtable_destroy(t, uk ? kd : nullptr, uv ? vd : nullptr); t = nullptr;
			if (uv) { CHECK(valDestroyed.size() == n, "value-destroy", "%zu values destroyed of %zu", valDestroyed.size(), n); for (auto &p : valDestroyed) CHECK(p.second == 1, "value-destroy", "a value was destroyed %d times", p.second); }
			if (uk) { CHECK(keyDestroyed.size() == n, "key-destroy", "%zu keys destroyed of %zu", keyDestroyed.size(), n); for (auto &p : keyDestroyed) CHECK(p.second == 1, "key-destroy", "a key was destroyed %d times", p.second); }
			keyDestroyed.clear(); valDestroyed.clear(); CHECK(wrap_live() == mark, "leak", "%ld blocks not released", wrap_live() - mark);
		} catch (Bad &b) { ev.viol(b.key, "%s: %s", last.c_str(), b.what.c_str()); }
	}
	ev.nontrivial(h); ev.sample(fmt("%s to %s, %zu buckets, %d operations, %zu entries left", tn[K], tn[D], buckets, len, m.size()));
}
// ------------------------------------------------------------------ L04
static void l04(Rng &r, const std::string &id) {
	int64_t N = r.chance(1) ? big_size(r) : r.chance(4) ? r.range(60, 900) : 0; bool big = N > 0; Kind K = big ? big_kind(r, N) : pick_kind(r); int len = (int)r.range(3, 90); ev.begin(id, fmt("linked list of %s (%zu bytes), %lld elements first, %d operations", K.name, K.step, (long long)N, len)); long mark = wrap_live(); linkedlist *l = linkedlist_init(K.step); std::deque<Bytes> m; uint64_t h = 0; std::string last;
	try {
		CHECK(l != nullptr, "init", "no list");
		for (int64_t i = 0; i < N; i++) { Bytes v = K.make(r); bool front = r.chance(30); int x = front ? linkedlist_front_add(l, &v[0]) : linkedlist_tail_add(l, &v[0]); CHECK(x == 1, "add-result", "add returned %d", x); if (front) m.push_front(v); else m.push_back(v); } if (big) { ev.count("large_containers"); ev.count("large_elements", N); }
		for (int k = 0; k < len; k++) {
			int op = (int)r.range(0, 12); Bytes v = K.make(r); if (big && m.size() && r.chance(60)) v = m[(size_t)r.range(0, (int64_t)m.size() - 1)]; if (N > 900 && op == 11 && r.chance(80)) op = 6; Buf in(v); h = h * 31 + (uint64_t)op; last = fmt("operation %d (%d) at size %zu", k, op, m.size()); ev.count("operations");
			auto it = std::find_if(m.begin(), m.end(), [&](const Bytes &a) { return K.cmp(a.data(), v.data()) == 0; });
			if (op <= 1) { int x = linkedlist_front_add(l, in); CHECK(x == 1, "add-result", "front add returned %d", x); m.push_front(v); }
			else if (op <= 3) { int x = linkedlist_tail_add(l, in); CHECK(x == 1, "add-result", "tail add returned %d", x); m.push_back(v); }
			else if (op == 4) { node *nd = r.chance(50) ? (m.push_front(v), linkedlist_node_front_add(l, in)) : (m.push_back(v), linkedlist_node_tail_add(l, in)); CHECK(nd && !memcmp(nd->data, v.data(), K.step), "node", "node of the added element"); }
			else if (op <= 6) { int x = linkedlist_remove(l, in, K.cmp); CHECK(x == (it != m.end() ? 1 : 0), "remove-result", "remove returned %d", x); if (it != m.end()) { ev.count(it == m.begin() ? "removals_head" : it + 1 == m.end() ? "removals_tail" : "removals_middle"); m.erase(it); } }
			else if (op <= 8) { int rem = r.chance(50); void *p = linkedlist_lookup(l, in, rem, K.cmp); CHECK((p != nullptr) == (it != m.end()), "lookup-result", "lookup %s", p ? "found an absent element" : "missed an element"); if (p) { CHECK(!memcmp(p, it->data(), K.step), "lookup-value", "another element"); if (rem) { free(p); m.erase(it); ev.count("lookup_removals"); } } }
			else if (op == 9 || op == 10) { int rem = r.chance(40); bool head = op == 9; void *p = head ? linkedlist_head(l, rem) : linkedlist_tail(l, rem); CHECK((p != nullptr) == !m.empty(), "end-result", "%s of a list of %zu", head ? "head" : "tail", m.size()); if (p) { CHECK(!memcmp(p, (head ? m.front() : m.back()).data(), K.step), "end-value", "%s", head ? "head" : "tail"); if (rem) { free(p); if (head) m.pop_front(); else m.pop_back(); ev.count("end_removals"); } } }
			else if (op == 11 && r.chance(12)) { linkedlist_clear(l); m.clear(); ev.count("clears"); }
			CHECK(l->size == (int)m.size(), "size", "size %d, expected %zu", l->size, m.size()); CHECK(linkedlist_empty(l) == (m.empty() ? 0 : 1), "empty", "non-emptiness reported as %d", linkedlist_empty(l)); // returns 1 if not empty
			if (m.size() > 900 && k % 8 && k + 1 < len) continue;
			size_t i = 0; node *p = l->head, *prev = nullptr; for (; p && i < m.size(); p = p->next, i++) { CHECK(!memcmp(p->data, m[i].data(), K.step), "forward", "element %zu from the head", i); CHECK(p->prev == prev, "links", "backward link of element %zu", i); prev = p; } CHECK(!p && i == m.size(), "forward", "%zu elements from the head, expected %zu", i + (p ? 1 : 0), m.size());
			i = m.size(); for (p = l->tail; p && i > 0; p = p->prev) { i--; CHECK(!memcmp(p->data, m[i].data(), K.step), "backward", "element %zu from the tail", i); } CHECK(!p && i == 0, "backward", "wrong number of elements from the tail");
		}
		linkedlist_delete(l); l = nullptr; CHECK(wrap_live() == mark, "leak", "%ld blocks not released", wrap_live() - mark);
	} catch (Bad &b) { ev.viol(b.key, "%s: %s", last.c_str(), b.what.c_str()); }
	ev.nontrivial(h ^ K.step); ev.sample(fmt("%s[%zu] %d operations, %zu elements left", K.name, K.step, len, m.size()));
}
// ------------------------------------------------------------------ L05
template <class T> static void comparators(Rng &r, const char *name, int32_t (*c)(const void *, const void *), int32_t (*cp)(const void *, const void *), size_t (*hash)(void *, size_t)) {
	std::vector<T> v; typedef std::numeric_limits<T> L; for (int i = 0; i < 12; i++) v.push_back(L::is_integer ? (T)r.next() : (T)((r.unit() - .5) * std::pow(10., (double)r.range(-30, 30))));
	v.push_back(0); v.push_back(1); v.push_back((T)-1); v.push_back(L::max()); v.push_back(L::lowest()); v.push_back(v[0]); if (!L::is_integer) { v.push_back((T)-0.0); v.push_back((T)INFINITY); v.push_back((T)-INFINITY); v.push_back(L::min()); v.push_back(L::denorm_min()); v.push_back(std::nextafter(v[1], (T)INFINITY)); } else { v.push_back((T)(v[1] + 1)); v.push_back((T)(L::max() - 1)); v.push_back((T)(1ll << (r.range(0, (int64_t)sizeof(T) * 8 - 1)))); }
	for (T a : v) for (T b : v) { T *pa = &a, *pb = &b; int w = a < b ? -1 : a > b, x = c(&a, &b), y = cp ? cp(&pa, &pb) : x; ev.count("comparisons"); auto sg = [](int q) { return q < 0 ? -1 : q > 0; }; CHECK(sg(x) == w, "compare", "%s comparator: %d for %.17Lg and %.17Lg", name, x, (long double)a, (long double)b); CHECK(sg(y) == w, "compare-pointers", "%s pointer comparator: %d for %.17Lg and %.17Lg", name, y, (long double)a, (long double)b);
		if (hash) { size_t nb = (size_t)r.range(1, r.chance(50) ? 5 : 5000); if (r.chance(5)) nb = (size_t)1 << r.range(20, 33); size_t p = hash(&a, nb), q = hash(&b, nb); ev.count("hashes"); CHECK(p < nb && q < nb, "hash-range", "%s hash %zu of %.17Lg with %zu buckets", name, p, (long double)a, nb); if (a == b) CHECK(p == q, "hash-equal", "%s hashes %zu and %zu of equal keys %.17Lg, %.17Lg", name, p, q, (long double)a, (long double)b); } }
}
static bool isprime(int64_t n) { if (n < 2) return false; for (int64_t i = 2; i * i <= n; i++) if (n % i == 0) return false; return true; }
static void l05(Rng &r, const std::string &id) {
	ev.begin(id, "comparators, hashes, primes"); 
	try {
		comparators<int>(r, "int", int_compare, int_ptr_compare, int_hash); comparators<long>(r, "long", long_compare, long_ptr_compare, long_hash); comparators<short>(r, "short", short_compare, short_ptr_compare, short_hash); comparators<char>(r, "char", char_compare, char_ptr_compare, char_hash); comparators<double>(r, "double", double_compare, double_ptr_compare, double_hash); comparators<float>(r, "float", float_compare, float_ptr_compare, float_hash);
		{ char a[4]; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) { void *p = a + i, *q = a + j; int x = ptr_compare(&p, &q); CHECK((x < 0) == (i < j) && (x > 0) == (i > j), "compare", "pointer comparator %d for offsets %d %d", x, i, j); } }
		for (int k = 0; k < 30; k++) { size_t n = (size_t)(r.chance(60) ? r.range(0, 80) : r.chance(60) ? std::max<int64_t>(0, (1ll << r.range(0, 13)) + r.range(-2, 2)) : r.range(0, 9000)); std::string s(n, 0); size_t shift = (size_t)r.range(1, 17); for (auto &c : s) c = (char)(r.chance(70) ? r.range(32, 126) : (r.next() | 1)); for (auto &c : s) if (!c) c = 'x'; Buf b(s + '\0'), b2(s + '\0'); size_t nb = (size_t)r.range(1, 3000), x = str_hash(b, nb), y = str_hash(b2, nb); Buf b3(std::string(shift, 'q') + s + '\0'); size_t z = str_hash((char *)b3.p + shift, nb); ev.count("hashes"); if (n > 100) ev.count("long_strings"); CHECK(x < nb && x == y && x == z, "hash-string", "hashes %zu and %zu of one string with %zu buckets", x, y, nb); }
		for (int k = 0; k < 60; k++) { int64_t x = r.chance(40) ? r.range(-5, 400) : r.chance(60) ? r.range(0, 100000) : r.range(0, 30000000); if (r.chance(4)) x = INT32_MAX - r.range(0, 100); if (r.chance(15)) x = 1 << r.range(0, 24); int64_t w = 3; if (x > 3) { w = x - 1; while (!isprime(w)) w--; } int64_t g = find_prime_less_than((int32_t)x); ev.count("prime_lookups"); CHECK(g == w, "prime-less", "find_prime_less_than(%lld) is %lld, expected %lld", (long long)x, (long long)g, (long long)w);
			if (x < 2147483000) { int64_t p = get_prime((int32_t)x); ev.count("primes_generated"); CHECK(p > x && isprime(p), "prime-above", "get_prime(%lld) is %lld", (long long)x, (long long)p); } }
		for (int k = 0; k < 60; k++) { int e = (int)r.range(0, 62); uint64_t n = ((uint64_t)1 << e) + (uint64_t)r.range(-1, 1); if (r.chance(30)) n = r.next() >> r.range(1, 63); uint64_t w = 1; while (w <= n) w <<= 1; if (!w) continue; size_t g = highestPowerof2(n); ev.count("powers"); CHECK(g == w, "power", "highestPowerof2(%llu) is %zu, expected %llu", (unsigned long long)n, g, (unsigned long long)w); }
		static const std::pair<HTYPES, size_t> sz[] = { { H_INT, 4 }, { H_DOUBLE, 8 }, { H_FLOAT, 4 }, { H_LONG, 8 }, { H_SHORT, 2 }, { H_CHAR, 1 }, { H_PTR, 8 }, { H_STRING, 8 } }; for (auto &p : sz) CHECK(get_htype_size(p.first) == p.second, "type-size", "size of type %d is %zu", p.first, get_htype_size(p.first));
	} catch (Bad &b) { ev.viol(b.key, "%s", b.what.c_str()); }
	ev.nontrivial(r.next()); ev.sample("18-22 values per type against each other, 60 primes, 60 powers, 30 strings");
}
int main(int argc, char **argv) {
	if (argc < 6) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1; ev.open_from_env();
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue; Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k); ev.count("evaluations");
		if (PROP == "L01") l01(r, id); else if (PROP == "L02") l02(r, id); else if (PROP == "L03") l03(r, id); else if (PROP == "L04") l04(r, id); else l05(r, id);
	}
	ev.done(); return 0;
}
