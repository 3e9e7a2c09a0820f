// L06: the collections while allocations fail: every operation either takes effect or reports
// its failure and leaves the container as it was; nothing is lost, leaked or corrupted.
#include "collections/hashtable.h"
#include "collections/linkedlist.h"
#include "collections/list.h"
#include "collections/set.h"
#include "hdbscan/utils.h"
#include "ev.hpp"
#include "wrap.h"
#include <algorithm>
#include <deque>
Ev ev; static std::string PROP;
struct Bad { const char *key; std::string what; };
#define CHECK(c, key, ...) do { ev.count("observations"); if (!(c)) throw Bad{ key, fmt(__VA_ARGS__) }; } while (0)
static Rng *R; static int RATE; static long refused_total;
struct Inject { bool on; long failed = 0; bool over = false; Inject() { on = R->chance(RATE); if (on) wrap_fail(R->chance(60) ? 0 : R->range(0, 3), 0, R->chance(50), 3); } bool end() { if (!over) { over = true; if (on) { failed = wrap_fail_end(); if (failed) { refused_total += failed; ev.count("refused_allocations", failed); } } } return failed > 0; } ~Inject() { end(); } };
static void list(Rng &r, bool set) {
	long mark = wrap_live(); ArrayList *l = nullptr; size_t cap = (size_t)r.range(1, 6); bool f; { Inject j; l = set ? set_init(sizeof(long), long_compare) : array_list_init(cap, sizeof(long), long_compare); f = j.end(); }
	if (!l) { CHECK(f, "init", "no list although memory was there"); CHECK(wrap_live() == mark, "leak", "a failed initialisation leaks"); ev.count("failures_reported"); l = set ? set_init(sizeof(long), long_compare) : array_list_init(cap, sizeof(long), long_compare); CHECK(l != nullptr, "init", "no list"); }
	std::vector<long> m; int len = (int)r.range(5, 80);
	for (int k = 0; k < len; k++) {
		ev.count("operations"); long v = r.range(-30, 30) * (r.chance(20) ? 1l << 35 : 1); int op = (int)r.range(0, 9); const char *what = ""; int64_t n = (int64_t)m.size(); auto at = set ? std::lower_bound(m.begin(), m.end(), v) : std::find(m.begin(), m.end(), v); bool has = at != m.end() && *at == v; bool fail = false; int x = 0; long arg = v;
		if (op <= 4) {
			int64_t p = op <= 2 ? n : r.range(0, n); { Inject j; if (set) { what = "set_insert"; x = set_insert(l, &arg); } else if (op <= 2) { what = "array_list_append"; x = array_list_append(l, &arg); } else { what = "array_list_insert_at"; x = array_list_insert_at(l, &arg, (size_t)p); } fail = j.end(); }
			CHECK(x == 0 || x == 1, "result", "%s returned %d", what, x); if (set && has) CHECK(x == 0, "result", "%s of a present element returned %d", what, x); else if (!fail) CHECK(x == 1, "result", "%s returned %d although memory was there", what, x);
			if (x == 1) m.insert(set ? at : m.begin() + p, v); else if (fail) ev.count("failures_reported");
		} else if (op == 5 && !set) { Inject j; x = array_list_grow(l); fail = j.end(); what = "array_list_grow"; CHECK(fail ? (x == 1 || x == -1) : x == 1, "result", "%s returned %d", what, x); if (x < 0) ev.count("failures_reported"); if (l->max_size > 4096) { array_list_clear(l, 1); m.clear(); }
		} else if (op == 6) { what = "remove"; { Inject j; x = set ? set_remove(l, &arg) : array_list_remove(l, &arg); fail = j.end(); } CHECK(x == (has ? 1 : -1), "result", "removing returned %d", x); if (has) m.erase(at);
		} else if (op == 7 && n) { what = "remove_at"; int64_t p = r.range(0, n - 1); { Inject j; x = set ? set_remove_at(l, (size_t)p, &arg) : array_list_remove_at(l, (size_t)p, &arg); } CHECK(x == 1 && arg == m[(size_t)p], "result", "remove_at returned %d", x); m.erase(m.begin() + p);
		} else if (op == 8 && r.chance(30)) { what = "clear"; int z = (int)r.range(0, 1); { Inject j; if (set) set_clear(l); else array_list_clear(l, z); fail = j.end(); } m.clear();
		} else if (!set && r.chance(20)) { what = "sort"; { Inject j; array_list_sort(l); } std::sort(m.begin(), m.end()); }
		CHECK(array_list_size(l) == m.size(), "content", "%s%s: %zu elements, expected %zu", what, fail ? " without memory" : "", array_list_size(l), m.size()); CHECK(m.empty() || l->data, "content", "%s%s: the elements are gone", what, fail ? " without memory" : ""); CHECK(l->max_size >= l->size, "content", "capacity below size");
		for (size_t i = 0; i < m.size(); i++) { long y = 0; CHECK(array_list_value_at(l, i, &y) == 1 && y == m[i], "content", "%s%s: element %zu of %zu", what, fail ? " without memory" : "", i, m.size()); }
		if (!m.empty()) { long q = m[(size_t)r.range(0, (int64_t)m.size() - 1)]; CHECK(set ? set_find(l, &q) >= 0 : array_list_find(l, &q, 0) >= 0, "content", "an element is not found"); }
	}
	{ Inject j; if (set) set_delete(l); else array_list_delete(l); } CHECK(wrap_live() == mark, "leak", "%ld blocks not released", wrap_live() - mark);
}
static long destroyed; static void vd(void *) { destroyed++; } static char cells[200];
static void table(Rng &r) {
	long mark = wrap_live(); hashtable *t = nullptr; bool ptr = r.chance(40), f; size_t b = (size_t)r.range(0, 12); auto make = [&] { return r.chance(50) ? hashtable_init(b, H_LONG, ptr ? H_PTR : H_DOUBLE, long_compare) : hashtable_init_size(b, H_LONG, ptr ? H_PTR : H_DOUBLE, long_compare); };
	{ Inject j; t = make(); f = j.end(); } if (!t) { CHECK(f, "init", "no table although memory was there"); CHECK(wrap_live() == mark, "leak", "a failed initialisation leaks"); ev.count("failures_reported"); t = make(); CHECK(t != nullptr, "init", "no table"); }
	union V { double d; void *p; }; std::map<long, V> m; int len = (int)r.range(5, 90); auto val = [&] { V v; if (ptr) v.p = cells + r.range(0, 199); else v.d = r.unit(); return v; }; auto same = [](V a, V b) { return !memcmp(&a, &b, sizeof a); };
	for (int k = 0; k < len; k++) {
		ev.count("operations"); long key = r.range(-12, 12), kk = key; V v = val(), a = v; bool has = m.count(key), fail = false; int op = (int)r.range(0, 9), x; const char *what = "";
		if (op <= 5) { what = "hashtable_insert"; { Inject j; x = hashtable_insert(t, &kk, &a); fail = j.end(); } CHECK(x == (has ? -1 : 1) || (fail && x == 0), "result", "inserting a %s key%s returned %d", has ? "present" : "new", fail ? " without memory" : "", x); CHECK(kk == key, "argument", "the key argument changed");
			if (x == 1) m[key] = v; else if (x == -1) { CHECK(same(a, m[key]), "argument", "not the replaced value handed back"); m[key] = v; } else { CHECK(same(a, v), "argument", "the value argument changed although nothing was inserted"); ev.count("failures_reported"); }
		} else if (op <= 7) { what = "hashtable_remove"; { Inject j; x = hashtable_remove(t, &kk, &a); fail = j.end(); } CHECK(x == (has ? 1 : 0) || (fail && x == 0), "result", "removing returned %d", x); if (x == 1) { CHECK(same(a, m[key]), "argument", "another value was removed"); m.erase(key); }
		} else if (op == 8 && r.chance(15)) { what = "hashtable_clear"; destroyed = 0; { Inject j; x = hashtable_clear(t, NULL, ptr ? vd : NULL); fail = j.end(); } CHECK(x == 1 || (fail && x == 0), "result", "clearing returned %d", x); if (x) { CHECK(!ptr || destroyed == (long)m.size(), "destroyed", "%ld values destroyed of %zu", destroyed, m.size()); m.clear(); } else CHECK(!destroyed, "destroyed", "values destroyed without clearing"); }
		CHECK(hashtable_size(t) == m.size() && (size_t)t->size == m.size(), "content", "%s%s: %zu keys, size %zu, expected %zu", what, fail ? " without memory" : "", hashtable_size(t), (size_t)t->size, m.size());
		for (long q = -13; q <= 13; q++) { long qq = q; V y; y.d = 0; Inject j; int g = hashtable_lookup(t, &qq, &y); j.end(); CHECK(g == (int)m.count(q) && (!g || same(y, m[q])), "content", "%s%s: lookup of key %ld", what, fail ? " without memory" : "", q); }
		size_t i = 0; for (auto &p : m) { long q = 0; CHECK(set_value_at(t->keys, i, &q) == 1 && q == p.first, "keys", "%s%s: key %zu", what, fail ? " without memory" : "", i); i++; }
	}
	destroyed = 0; size_t n = m.size(); int x; { Inject j; x = hashtable_destroy(t, NULL, ptr ? vd : NULL); } CHECK(x == 1, "result", "destroying returned %d", x); CHECK(!ptr || destroyed == (long)n, "destroyed", "%ld values destroyed of %zu", destroyed, n); CHECK(wrap_live() == mark, "leak", "%ld blocks not released", wrap_live() - mark);
}
static void linked(Rng &r) {
	long mark = wrap_live(); linkedlist *l; bool f; { Inject j; l = linkedlist_init(sizeof(long)); f = j.end(); } if (!l) { CHECK(f, "init", "no list although memory was there"); CHECK(wrap_live() == mark, "leak", "a failed initialisation leaks"); ev.count("failures_reported"); l = linkedlist_init(sizeof(long)); CHECK(l != nullptr, "init", "no list"); }
	std::deque<long> m; int len = (int)r.range(5, 60);
	for (int k = 0; k < len; k++) {
		ev.count("operations"); long v = r.range(-20, 20), a = v; int op = (int)r.range(0, 8), x = 0; bool fail = false, front = r.chance(50); const char *what = ""; auto at = std::find(m.begin(), m.end(), v); bool has = at != m.end();
		if (op <= 4) { what = "add"; { Inject j; if (op <= 2) x = front ? linkedlist_front_add(l, &a) : linkedlist_tail_add(l, &a); else { node *q = front ? linkedlist_node_front_add(l, &a) : linkedlist_node_tail_add(l, &a); x = q != NULL; } fail = j.end(); } CHECK(x == 1 || (fail && x == 0), "result", "adding%s returned %d", fail ? " without memory" : "", x); if (x) { if (front) m.push_front(v); else m.push_back(v); } else ev.count("failures_reported"); }
		else if (op == 5) { what = "remove"; { Inject j; x = linkedlist_remove(l, &a, long_compare); } CHECK(x == (has ? 1 : 0), "result", "removing returned %d", x); if (has) m.erase(at); }
		else if (op == 6) { what = "lookup"; void *p; { Inject j; p = linkedlist_lookup(l, &a, 0, long_compare); } CHECK((p != NULL) == has, "result", "lookup"); }
		else if (op == 7 && r.chance(20)) { what = "clear"; { Inject j; linkedlist_clear(l); } m.clear(); }
		CHECK(l->size == (int)m.size(), "content", "%s%s: size %d, expected %zu", what, fail ? " without memory" : "", l->size, m.size()); node *p = l->head; for (size_t i = 0; i < m.size(); i++, p = p->next) CHECK(p && p->data && !memcmp(p->data, &m[i], sizeof(long)), "content", "%s%s: element %zu", what, fail ? " without memory" : "", i); CHECK(!p, "content", "elements beyond the end");
		p = l->tail; for (size_t i = m.size(); i-- > 0; p = p->prev) CHECK(p && !memcmp(p->data, &m[i], sizeof(long)), "content", "element %zu from the tail", i); CHECK(!p, "content", "elements beyond the head");
	}
	{ Inject j; linkedlist_delete(l); } CHECK(wrap_live() == mark, "leak", "%ld blocks not released", wrap_live() - mark);
}
int main(int argc, char **argv) {
	if (argc < 6) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1; ev.open_from_env(); static const char *KN[] = { "list", "set", "hash table", "linked list" };
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue; Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); R = &r; RATE = (int)r.range(5, 70); int kind = (int)r.range(0, 3); long before = refused_total; ev.count("evaluations");
		ev.begin(fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k), fmt("%s, allocations fail in %d%% of the operations", KN[kind], RATE));
		Capture c; c.start(); try { if (kind == 0) list(r, false); else if (kind == 1) list(r, true); else if (kind == 2) table(r); else linked(r); c.stop(); } catch (Bad &b) { wrap_fail_end(); c.stop(); ev.viol(b.key, "%s: %s", KN[kind], b.what.c_str()); }
		if (refused_total > before) { ev.nontrivial(r.next()); ev.sample(fmt("%s: %ld allocations refused", KN[kind], refused_total - before)); }
	}
	ev.done(); return 0;
}
