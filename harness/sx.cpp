#include "collections/hashtable.h"
#include "collections/linkedlist.h"
#include "collections/list.h"
#include "collections/set.h"
#include "collections/primes.h"
#include "hdbscan/utils.h"
#include "sx.h"
#include "ev.hpp"
#include <memory>
std::vector<std::pair<std::string, std::function<void()>>> sx_ops(int64_t n, uint64_t seed) {
	struct S { ArrayList *a = nullptr; set_t *s = nullptr; hashtable *h = nullptr, *one = nullptr; linkedlist *l = nullptr; Rng r; S(uint64_t x) : r(x) {} };
	auto s = std::make_shared<S>(seed); std::vector<std::pair<std::string, std::function<void()>>> v; auto add = [&](const char *n, std::function<void()> f) { v.push_back({ n, f }); };
	int64_t few = n < 2000 ? n : 2000;
	add("list append", [=] { s->a = array_list_init(1, sizeof(int), int_compare); for (int i = 0; i < n; i++) { int x = (int)s->r.range(0, n); array_list_append(s->a, &x); } });
	add("list sort", [=] { array_list_sort(s->a); });
	add("list find", [=] { int x = -1; array_list_find(s->a, &x, 1); array_list_find(s->a, &x, 0); });
	add("list sort again", [=] { array_list_sort(s->a); });
	add("list remove", [=] { for (int64_t i = 0; i < few / 2; i++) { int y; array_list_remove_at(s->a, 0, &y); }; int x; while (array_list_size(s->a) > (size_t)few / 4 && array_list_pop(s->a, &x)); });
	add("list clear", [=] { array_list_clear(s->a, 0); array_list_delete(s->a); });
	add("set insert", [=] { s->s = set_init(sizeof(long), long_compare); for (int64_t i = 0; i < n; i++) { long x = (long)s->r.next(); set_insert(s->s, &x); } });
	add("set find", [=] { for (int k = 0; k < 200; k++) { long x = (long)s->r.next(); set_find(s->s, &x); } });
	add("set remove", [=] { while (set_size(s->s) > (size_t)(n - n / 8)) { long x; set_remove_at(s->s, set_size(s->s) / 2, &x); } });
	add("set delete", [=] { set_delete(s->s); });
	add("table insert", [=] { s->h = hashtable_init_size(16, H_LONG, H_DOUBLE, long_compare); for (int64_t i = 0; i < n; i++) { long k = (long)s->r.range(0, 2 * n); double x = 1; hashtable_insert(s->h, &k, &x); } });
	add("table lookup", [=] { for (long k = 0; k < 500; k++) { double x; hashtable_lookup(s->h, &k, &x); } });
	add("table remove", [=] { for (long k = 0; k < 500; k++) { double x; hashtable_remove(s->h, &k, &x); } });
	add("table clear", [=] { hashtable_clear(s->h, NULL, NULL); }); add("table destroy", [=] { hashtable_destroy(s->h, NULL, NULL); });
	add("chain insert", [=] { s->one = hashtable_init_size(1, H_INT, H_INT, int_compare); for (int i = 0; i < few; i++) { int x = i; hashtable_insert(s->one, &i, &x); } });
	add("chain lookup", [=] { for (int i = 0; i < few; i += 7) { int x; hashtable_lookup(s->one, &i, &x); } });
	add("chain destroy", [=] { hashtable_destroy(s->one, NULL, NULL); });
	add("linked add", [=] { s->l = linkedlist_init(sizeof(int)); for (int i = 0; i < n; i++) { if (i & 1) linkedlist_front_add(s->l, &i); else linkedlist_tail_add(s->l, &i); } });
	add("linked lookup", [=] { for (int i = 0; i < 20; i++) { int x = (int)(n - 1 - i); linkedlist_lookup(s->l, &x, 0, int_compare); int y; linkedlist_value_at(s->l, (int)n - 5, &y); } });
	add("linked remove", [=] { for (int i = 0; i < 20; i++) { int x = (int)(n - 1 - i); linkedlist_remove(s->l, &x, int_compare); } });
	add("linked delete", [=] { linkedlist_delete(s->l); });
	add("primes", [=] { find_prime_less_than((int)n * 50); });
	return v;
}
