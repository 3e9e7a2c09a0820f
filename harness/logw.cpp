// O02 log output of concurrent threads: every entry once, whole, in the order of each thread.
#include "oracle.hpp"
#include "ompctl.h"
#include "wrap.h"
#include <thread>
#include <atomic>
#include <time.h>
#include <dirent.h>
#include <pthread.h>
extern "C" { void lx_init(); void lx_close(); void lx_write(int, const char *); int lx_debug(); extern int ad_own_log; int ad_own_log = 1; }
Ev ev; ad_conf conf; static std::string PROP;
struct Bad { const char *key; std::string what; };
#define CHECK(c, key, ...) do { ev.count("observations"); if (!(c)) throw Bad{ key, fmt(__VA_ARGS__) }; } while (0)
static const char *NAMES[] = { "FATAL", "ERROR", "INFO", "WARN", "" };
struct Msg { int level; std::string s; };
static std::string slurp(const char *p, bool *ok) { FILE *f = fopen(p, "rb"); *ok = f != nullptr; if (!f) return ""; std::string s; char b[65536]; size_t k; while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k); fclose(f); return s; }
static std::string body(Rng &r, bool large) {
	std::string s; int z = (int)r.range(0, 9); int64_t n = z < 4 ? r.range(0, 40) : z < 7 ? r.range(40, 400) : z < 9 ? r.range(400, 9000) : large ? r.range(200000, 3000000) : r.range(9000, 60000); if (large && r.chance(3)) n = 12000000;
	static const char *bits[] = { "%s", "%n", "%d%d%d", "%%", "\n", "\t", "\\", "[2020-01-01 00:00:00] INFO: ", "%99999d", "\x01", "\xff\xfe", "\xc3\xa9", "\"", "%*s", "%hhn" };
	if (n > 20000) { s.assign((size_t)n, (char)r.range(33, 126)); for (int i = 0; i < 50; i++) s[(size_t)r.range(0, n - 1)] = (char)r.range(1, 255); } else while ((int64_t)s.size() < n) { if (r.chance(12)) s += bits[r.range(0, 14)]; else s += (char)(r.chance(95) ? r.range(32, 126) : r.range(1, 255)); }
	return s;
}
static bool stamp(const std::string &o, size_t &pos, time_t lo, time_t hi) {
	if (pos + 21 > o.size() || o[pos] != '[' || o[pos + 20] != ']') return false; struct tm t; memset(&t, 0, sizeof t); int n = 0; std::string x = o.substr(pos, 21); if (sscanf(x.c_str(), "[%4d-%2d-%2d %2d:%2d:%2d]%n", &t.tm_year, &t.tm_mon, &t.tm_mday, &t.tm_hour, &t.tm_min, &t.tm_sec, &n) != 6 || n != 21) return false; t.tm_year -= 1900; t.tm_mon--; t.tm_isdst = -1; time_t v = mktime(&t); if (v < lo - 1 || v > hi + 1) return false; pos += 21; return true;
}
static void parse(const std::string &o, const std::vector<std::vector<Msg>> &plan, time_t lo, time_t hi, const char *where, const Msg &warn, const std::vector<int> &runs) {
	long seen = 0, must = 0, may = 0; // warnings of the library: indistinguishable, one after each of the first runs[t] messages of thread t
	std::vector<size_t> at(plan.size(), 0); size_t pos = 0, switches = 0; int last = -1; size_t left = 0; for (auto &p : plan) left += p.size();
	while (left) {
		bool hit = false; for (size_t q = 0; q < plan.size() && !hit; q++) { size_t t = last < 0 ? q : ((size_t)last + q) % plan.size(); if (at[t] >= plan[t].size()) continue; const Msg &m = plan[t][at[t]]; size_t p = pos; if (m.level != 4) { if (!stamp(o, p, lo, hi)) continue; std::string pre = std::string(" ") + NAMES[m.level] + ": "; if (o.compare(p, pre.size(), pre)) continue; p += pre.size(); } if (o.compare(p, m.s.size(), m.s)) continue; p += m.s.size(); pos = p; at[t]++; left--; hit = true; size_t w = (size_t)runs[t]; if (at[t] <= w) may++; if (at[t] >= 2 && at[t] - 1 <= w) must++; CHECK(seen >= must, "entry", "%s: at byte %zu %ld warnings of clustering runs, expected %ld", where, pos, seen, must); if ((int)t != last) switches++; last = (int)t; ev.count("entries_matched"); ev.count("bytes_matched", (long long)m.s.size()); }
		if (!hit && seen < may) { size_t p = pos; bool ok = warn.level == 4 || (stamp(o, p, lo, hi) && !o.compare(p, 7, " WARN: ") && (p += 7)); if (ok && !o.compare(p, warn.s.size(), warn.s)) { pos = p + warn.s.size(); seen++; hit = true; ev.count("library_warnings"); } }
		if (!hit) { std::string got; for (char c : o.substr(std::min(pos, o.size()), 120)) got += isprint((unsigned char)c) ? c : '?'; std::string want; for (size_t t = 0; t < plan.size(); t++) if (at[t] < plan[t].size()) { want += fmt(" [%s of %zu: ", NAMES[plan[t][at[t]].level], plan[t][at[t]].s.size()); for (char c : plan[t][at[t]].s.substr(0, 40)) want += isprint((unsigned char)c) ? c : '?'; want += "]"; } throw Bad{ "entry", fmt("%s: at byte %zu of %zu found \"%s\", expected one of%.600s", where, pos, o.size(), got.c_str(), want.c_str()) }; }
	}
	while (seen < may) { size_t p = pos; bool ok = warn.level == 4 || (stamp(o, p, lo, hi) && !o.compare(p, 7, " WARN: ") && (p += 7)); CHECK(ok && !o.compare(p, warn.s.size(), warn.s), "entry", "%s: %ld warnings of clustering runs, expected %ld", where, seen, may); pos = p + warn.s.size(); seen++; ev.count("library_warnings"); }
	CHECK(pos == o.size(), "extra", "%s: %zu more bytes than the entries written: %.100s", where, o.size() - pos, o.substr(pos, 100).c_str()); ev.count("thread_switches", (long long)switches);
}
struct TArg { std::function<void()> f; };
static void *tmain(void *p) { ((TArg *)p)->f(); return nullptr; }
static void o02(Rng &r, const std::string &id) {
	int T = r.chance(30) ? 1 : (int)r.range(2, 8); bool dbg = lx_debug(); bool lib = r.chance(12), large = r.chance(4); static const char *zones[] = { "UTC0", "IST-5:30", "XYZ+11", "ABC-13:45" }; setenv("TZ", zones[r.range(0, 3)], 1); tzset();
	ev.begin(id, fmt("%d threads, %s build%s%s", T, dbg ? "debug" : "normal", lib ? ", library warnings" : "", large ? ", large messages" : ""));
	std::string before; unlink("hdbscan.log"); if (dbg && r.chance(70)) { before = body(r, false); FILE *f = fopen("hdbscan.log", "wb"); if (!f) _exit(3); fwrite(before.data(), 1, before.size(), f); fclose(f); }
	int cycles = dbg ? (int)r.range(1, 3) : 1; uint64_t h = (uint64_t)T; std::string expectHead = before; { Capture c; c.start(); printf(" "); c.stop(); time_t t = time(nullptr); struct tm q; localtime_r(&t, &q); }
	for (int c = 0; c < cycles; c++) {
		std::vector<std::vector<Msg>> plan((size_t)T); int64_t per = r.chance(15) ? r.range(50, 200) : r.range(1, 25); if (large) per = std::min<int64_t>(per, 5);
		for (int t = 0; t < T; t++) for (int64_t k = 0; k < per; k++) { Msg m; m.level = (int)r.range(0, 4); m.s = T > 1 || r.chance(50) ? fmt("<%d.%d.%lld>", c, t, (long long)k) : ""; m.s += body(r, large); if (r.chance(70)) m.s += "\n"; h = fnv(m.s.data(), std::min<size_t>(m.s.size(), 64), h * 7 + (uint64_t)m.level); plan[(size_t)t].push_back(m); }
		Data d; int64_t mp = 2; std::vector<int> runs((size_t)T, 0); int inf = 0; std::string warn;
		if (lib) { GenOpt o; o.maxn = 40; o.kind = G_DUP; o.allowTiny = false; d = gen_data(r, o); for (int t = 0; t < T; t++) runs[(size_t)t] = (int)r.range(0, 2); Capture k; k.start(); if (dbg) { rename("hdbscan.log", "kept.log"); lx_init(); } Run u; u.o = ad_new(mp); ad_run(u.o, d.raw.data(), d.rows, d.cols, d.rowwise, d.dtype); if (dbg) lx_close(); warn = k.stop(); if (dbg) { bool ok; warn = slurp("hdbscan.log", &ok); unlink("hdbscan.log"); rename("kept.log", "hdbscan.log"); size_t z = 0; if (!warn.empty()) { CHECK(stamp(warn, z, time(nullptr) - 5, time(nullptr)), "library-warning", "the warning starts with %.40s", warn.c_str()); CHECK(!warn.compare(z, 7, " WARN: "), "library-warning", "the warning starts with %.40s", warn.c_str()); warn = warn.substr(z + 7); } } inf = warn.empty() ? 0 : 1; ev.count("library_warnings_expected", inf); }
		long live = wrap_live(); Capture cap; cap.start(); time_t t0 = time(nullptr); lx_init(); if (r.chance(10)) lx_init();
		std::atomic<int> ready{ 0 }; std::vector<pthread_t> th((size_t)T); std::vector<TArg> arg((size_t)T); std::vector<uint64_t> seeds; for (int t = 0; t < T; t++) seeds.push_back(r.next()); bool slow = r.chance(20); bool small = r.chance(30);
		for (int t = 0; t < T; t++) { arg[(size_t)t].f = [&, t] { Rng q(seeds[(size_t)t]); ready++; while (ready < T) sched_yield(); int done = 0; for (size_t k = 0; k < plan[(size_t)t].size(); k++) { if (slow && q.chance(30)) usleep((useconds_t)q.range(0, 60)); else if (q.chance(20)) sched_yield(); lx_write(plan[(size_t)t][k].level, plan[(size_t)t][k].s.c_str()); if (done < runs[(size_t)t] && !small) { done++; omp_control_threads(1); void *o = ad_new(mp); ad_run(o, d.raw.data(), d.rows, d.cols, d.rowwise, d.dtype); ad_destroy(o); } } runs[(size_t)t] = done; };
			pthread_attr_t a; pthread_attr_init(&a); if (small) pthread_attr_setstacksize(&a, 262144); if (pthread_create(&th[(size_t)t], &a, tmain, &arg[(size_t)t])) _exit(3); pthread_attr_destroy(&a); }
		for (auto &x : th) pthread_join(x, nullptr); lx_close(); time_t t1 = time(nullptr); std::string out = cap.stop(); (void)live;
		if (!inf) runs.assign((size_t)T, 0); Msg wm{ dbg ? 3 : 4, warn };
		if (dbg) { CHECK(out.empty(), "stdout", "a debug build wrote to standard output: %.100s", out.c_str()); bool ok; std::string f = slurp("hdbscan.log", &ok); CHECK(ok, "log-file", "no log file"); CHECK(f.size() >= expectHead.size() && !f.compare(0, expectHead.size(), expectHead), "kept", "what the log file held before was changed"); parse(f.substr(expectHead.size()), plan, t0, t1, "log file", wm, runs); expectHead = f; ev.count("log_files"); }
		else { parse(out, plan, t0, t1, "standard output", wm, runs); bool ok; slurp("hdbscan.log", &ok); CHECK(!ok, "log-file", "a normal build wrote a log file"); }
		ev.count("threads", T);
	}
	unlink("hdbscan.log"); ev.nontrivial(h); ev.sample(fmt("%d threads, %d cycles, %s build", T, cycles, dbg ? "debug" : "normal"));
}
int main(int argc, char **argv) {
	if (argc < 6) return 3; PROP = argv[1]; uint64_t SEED = strtoull(argv[2], 0, 10); int64_t shard = atoll(argv[3]), shards = atoll(argv[4]), count = atoll(argv[5]);
	int64_t only = getenv("ONLY") ? atoll(getenv("ONLY")) : -1, skip = getenv("SKIP") ? atoll(getenv("SKIP")) : -1; ev.open_from_env(); ad_config(&conf);
	std::string dir = fmt("log-%d", (int)getpid()); if (mkdir(dir.c_str(), 0755) || chdir(dir.c_str())) return 3;
	for (int64_t k = shard; k < count; k += shards) {
		if ((only >= 0 && k != only) || k <= skip) continue; Rng r(SEED, fnv(PROP.data(), PROP.size()), (uint64_t)k); std::string id = fmt("%s:%llu:%lld", PROP.c_str(), (unsigned long long)SEED, (long long)k); ev.count("evaluations");
		long live = wrap_live(); (void)live; try { o02(r, id); } catch (Bad &b) { ev.viol(b.key, "%s", b.what.c_str()); }
	}
	ev.done(); return 0;
}
