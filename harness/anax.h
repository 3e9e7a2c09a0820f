// Plain-typed entry points into the C++ analysis functions, clusters and graphs.
#pragma once
#include "adapter.h"
#include <map>
#include <set>
#include <string>
#include <vector>
typedef std::map<int64_t, std::vector<int64_t>> xmap;
typedef std::map<int64_t, ad_range> xranges;
xmap x_map(const std::vector<int64_t> &labels, int64_t begin, int64_t end);
xranges x_ranges(void *o, const xmap &m);
void x_stats(xranges &r, ad_stats &st, int poison);      // sets the confidences in r
int x_analyse(const ad_stats &st);
void x_sort(int mode, const xmap *m, const xranges *r, std::vector<int64_t> &c, bool *changed);
void x_print(int what, const xmap *m, const xranges *r, const ad_stats *st); // 0 map 1 sizes 2 ranges 3 stats
// clusters
void *k_new(int64_t label, void *parent, double birth, int64_t n); void k_free(void *c);
int k_detach(void *c, int64_t n, double level); // 1 success
void k_propagate(void *c); void k_constraints(void *c, int64_t n); void k_vconstraints(void *c, int64_t n);
void k_vadd(void *c, const std::vector<int64_t> &p); int k_vhas(void *c, int64_t p); void k_vrelease(void *c);
struct k_state { int64_t label, n, own, prop; double birth, death, stab, pstab, pdeath; bool kids; std::vector<int64_t> desc, virt; int64_t parent; };
k_state k_get(void *c); int k_compare(void *a, void *b);
// exports (or prints, without a name) a hierarchy of the given lines, numbered from first
void x_hierarchy(const std::vector<double> &w, const std::vector<std::vector<int64_t>> &labels, int64_t n, char *name, std::vector<double> &stored);
// graphs
struct g_state { int64_t n; std::vector<int64_t> a, b; std::vector<double> w; std::vector<std::vector<int64_t>> adj; };
void *g_new(const g_state &s, bool own, void **mem); g_state g_get(void *g); void g_sort(void *g, int how, int64_t lo, int64_t hi); void g_remove(void *g, int64_t a, int64_t b); void g_free(void *g, void *mem); void g_print(void *g);
