// C19: how deep every operation reaches into the stack, for small and large data of the same shape.
#include "ev.hpp"
#include "anax.h"
#include "sx.h"
#include "adapter.h"
#include <functional>
#include <pthread.h>
#include <sys/mman.h>
Ev ev; static std::string PROP;
static unsigned char *lo_; static const size_t STACK = 8u << 20; static const unsigned char PAT = 0xA7;
static __attribute__((noinline)) unsigned char *here() { unsigned char *volatile p = (unsigned char *)__builtin_frame_address(0); return p; }
// bytes of stack below the caller touched by f
static __attribute__((noinline)) size_t depth(const std::function<void()> &f) {
	unsigned char *sp = here() - 512; unsigned char *p = lo_; size_t n = (size_t)(sp - lo_); memset(p, PAT, n - 4096); // the top page is used by memset's own callees at most
	f(); size_t k = 0; const uint64_t w = 0xA7A7A7A7A7A7A7A7ull; while (k + 8 <= n && *(uint64_t *)(p + k) == w) k += 8; return n - k;
}
typedef std::map<std::string, size_t> Use;
static const char *SH[] = { "uniform", "pairs", "nested", "identical", "grid", "chain" };
static std::vector<double> shape(Rng &r, int kind, int64_t n) {
	std::vector<double> d((size_t)n);
	for (int64_t i = 0; i < n; i++) switch (kind) {
		case 0: d[(size_t)i] = r.unit() * 1e6; break;
		case 1: d[(size_t)i] = (double)(i / 4) * 100 + (double)(i % 4); break;
		case 2: d[(size_t)i] = (double)(i / 8) * (double)(i / 8) * 3 + (double)(i % 8) * 0.25; break;   // gaps grow: one cluster leaves at a time
		case 3: d[(size_t)i] = 7; break;
		case 4: d[(size_t)i] = (double)(r.range(0, n / 3)); break;
		default: d[(size_t)i] = (double)i; }
	for (int64_t i = n - 1; i > 0 && kind != 5; i--) std::swap(d[(size_t)i], d[(size_t)r.range(0, i)]);
	return d;
}
static Use life(Rng r, int kind, int64_t n, int64_t mp, int64_t mp2, int64_t &clusters, bool note) {
	Use u; auto op = [&](const char *name, std::function<void()> f) { size_t z = depth(f); u[name] = std::max(u[name], z); if (note) ev.count("operations"); };
	std::vector<double> d = shape(r, kind, n); void *o = nullptr; op("init", [&] { o = ad_new(mp); });
	op("run", [&] { ad_run(o, d.data(), n, 1, 1, DT_DOUBLE); });
	op("re-run", [&] { ad_rerun(o, mp2); });
	void *m = nullptr, *dm = nullptr; ad_stats st; std::vector<int64_t> out((size_t)n + 2);
	op("cluster map", [&] { m = ad_map_of(o); }); clusters = ad_map_size(m);
	op("distances", [&] { dm = ad_ranges(o, m); }); op("statistics", [&] { ad_stats_compute(dm, &st, 0); }); op("validity", [&] { ad_stats_analyse(&st); });
	int64_t k = 0; for (int mode = 0; mode < 3; mode++) { void *t = mode ? dm : m; op("sort", [&] { k = ad_sort(t, mode, nullptr, 0, out.data(), n + 2); }); std::vector<int64_t> in(out.begin(), out.begin() + std::max<int64_t>(k, 0)); op("sort of a list", [&] { ad_sort(t, mode, in.data(), (int64_t)in.size(), out.data(), n + 2); }); }
	std::vector<int64_t> lab((size_t)n); for (int64_t i = 0; i < n; i++) lab[(size_t)i] = r.range(0, std::max<int64_t>(1, n / 3));
	xmap xm; op("C++ map", [&] { xm = x_map(lab, 0, n); }); xranges xr; if (n < 6000) { op("C++ distances", [&] { xr = x_ranges(o, xm); }); op("C++ statistics", [&] { x_stats(xr, st, 0); }); }
	for (int mode = 0; mode < 3; mode++) if (!mode || !xr.empty()) op("C++ sort", [&] { std::vector<int64_t> c; bool ch; x_sort(mode, &xm, &xr, c, &ch); });
	g_state g; g.n = n; for (int64_t i = 0; i + 1 < n; i++) { g.a.push_back(i); g.b.push_back(r.range(i + 1, n - 1)); g.w.push_back(kind == 5 ? (double)i : kind == 3 ? 1 : (double)r.range(0, n / 2)); }
	for (int how = 0; how < 2; how++) { void *mem = nullptr, *gr = nullptr; op("graph", [&] { gr = g_new(g, false, &mem); }); op("graph sort", [&] { g_sort(gr, how, 0, n - 2); }); op("graph destroy", [&] { g_free(gr, mem); }); }
	Capture c; c.start(); op("print", [&] { ad_print_map(m); ad_print_sizes(m); ad_print_ranges(dm); ad_print_stats(&st); ad_print_scores(o); }); c.stop();
	op("map destroy", [&] { ad_map_destroy(m); }); op("distances destroy", [&] { ad_ranges_destroy(dm); });
	for (auto &f : sx_ops(n, r.next())) op(("collections: " + f.first).c_str(), f.second);
	op("clean", [&] { ad_clean(o); }); op("destroy", [&] { ad_destroy(o); });
	return u;
}
static const size_t ALLOW = 6144;
struct Arg { std::function<void()> f; };
static void *tmain(void *p) { ((Arg *)p)->f(); return nullptr; }
static void c19(Rng &r, const std::string &id, int64_t maxn) {
	int kind = (int)r.range(0, 5); int64_t n = kind == 3 ? r.range(3000, 5000) : r.range(maxn / 2, maxn); bool wide = r.chance(30); int64_t mp = wide ? r.range(std::min<int64_t>(n, 3000) / 2, std::min<int64_t>(n, 3000)) : r.range(2, 8), mp2 = r.range(2, 30); if (wide) n = std::min<int64_t>(n, 4000);
	ev.begin(id, fmt("%s, %lld points, minPts %lld and %lld", SH[kind], (long long)n, (long long)mp, (long long)mp2));
	int64_t c0 = 0, c1 = 0; Use a, b; uint64_t s = r.next();
	for (int k = 0; k < 3; k++) { Use t = life(Rng(s, (uint64_t)k), kind, 60 + 40 * k, std::min<int64_t>(mp, 20), mp2, c0, false); for (auto &p : t) a[p.first] = std::max(a[p.first], p.second); }
	b = life(Rng(s, 9), kind, n, mp, mp2, c1, true); size_t top = 0;
	for (auto &p : b) { ev.count("observations"); if (!a.count(p.first)) { if (p.second > 65536) ev.viol("stack", "%s uses %zu bytes of stack for %lld points and %lld clusters", p.first.c_str(), p.second, (long long)n, (long long)c1); continue; }
		top = std::max(top, p.second); if (p.second > a[p.first] + ALLOW) ev.viol("stack", "%s uses %zu bytes of stack for %lld points and %lld clusters, %zu for at most 140 points", p.first.c_str(), p.second, (long long)n, (long long)c1, a[p.first]); }
	ev.count("points", n); ev.count("clusters", c1); if (c1 > 100) ev.count("cases_with_many_clusters");
	ev.nontrivial(fnv(&s, sizeof s, (uint64_t)n)); ev.sample(fmt("%s, %lld points, %lld clusters: at most %zu bytes of stack", SH[kind], (long long)n, (long long)c1, top));
}
int main(int argc, char **argv) {
	if (argc < 7) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]), maxn = atoll(argv[6]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1; ev.open_from_env();
	lo_ = (unsigned char *)mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_STACK, -1, 0); if (lo_ == MAP_FAILED) return 3;
	Arg a; a.f = [&] { for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue; Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); ev.count("evaluations"); c19(r, fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k), maxn); } };
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, lo_, STACK); pthread_t t; if (pthread_create(&t, &at, tmain, &a)) return 3; pthread_join(t, nullptr);
	ev.done(); return 0;
}
