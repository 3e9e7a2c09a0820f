// Event log of a harness process: written with write(2) line by line, so that it
// survives a crash of the code under test.  Lines:
//   B <case> <description>     case begins          S <text>   sample
//   V <key>\t<case>\t<detail>  violation            C <name> <value>  counter
//   N <case-hash>              distinct non-trivial case       D  done
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstring>
#include <cstdint>
#include <string>
#include <map>
#include <set>
#include <vector>
#include <fcntl.h>
#include <unistd.h>
#include <sys/stat.h>

struct Ev {
	int fd = 2;
	std::string cur, curdesc;
	std::map<std::string, long long> counters;
	std::map<std::string, int> vcount;
	long long nviol = 0, nsamples = 0, maxsamples = 4;
	void open_from_env() { const char *p = getenv("EV"); if (p) { fd = ::open(p, O_WRONLY | O_CREAT | O_APPEND, 0644); if (fd < 0) { perror("EV"); _exit(3); } } }
	void line(std::string s) {
		for (auto &c : s) if (c == '\n') c = ' ';
		s += '\n';
		const char *p = s.data(); size_t n = s.size();
		while (n) { ssize_t k = ::write(fd, p, n); if (k <= 0) _exit(3); p += k; n -= (size_t)k; }
	}
	void begin(const std::string &id, const std::string &desc) { cur = id; curdesc = desc; line("B " + id + " " + desc); }
	void viol(const char *key, const char *fmt, ...) __attribute__((format(printf, 3, 4))) {
		char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
		nviol++;
		if (vcount[key]++ < 5) line(std::string("V ") + key + "\t" + cur + "\t" + b + " {" + curdesc + "}");
	}
	void sample(const std::string &s) { if (nsamples++ < maxsamples) line("S " + s); }
	void count(const std::string &n, long long v = 1) { counters[n] += v; }
	void nontrivial(uint64_t h) { char b[40]; snprintf(b, sizeof b, "N %016llx", (unsigned long long)h); line(b); }
	void done() { for (auto &c : counters) line("C " + c.first + " " + std::to_string(c.second)); line("D"); }
};
extern Ev ev;

// ---- random numbers: everything derives from (seed, stream, index) ----
struct Rng {
	uint64_t s;
	static uint64_t mix(uint64_t z) { z += 0x9e3779b97f4a7c15ull; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	Rng(uint64_t a, uint64_t b = 0, uint64_t c = 0) { s = mix(mix(mix(a) ^ b) ^ (c * 0x100000001b3ull)); }
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	int64_t range(int64_t lo, int64_t hi) { if (hi <= lo) return lo; return lo + (int64_t)(next() % (uint64_t)(hi - lo + 1)); }
	bool chance(int pct) { return (int)(next() % 100) < pct; }
	double unit() { return (double)(next() >> 11) * (1.0 / 9007199254740992.0); }
	double normal() { double a = 0; for (int i = 0; i < 12; i++) a += unit(); return a - 6; }
};
inline uint64_t fnv(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char *c = (const unsigned char *)p; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; } return h;
}
inline std::string fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char *f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

// ---- capture of the library's standard output ----
extern "C" void ad_capture(void) __attribute__((weak)); // a debug build's log follows standard output
struct Capture {
	int saved = -1; std::string path; FILE *f = nullptr;
	void start() { fflush(stdout); saved = dup(1); f = tmpfile(); fcntl(fileno(f), F_SETFL, O_APPEND); dup2(fileno(f), 1); if (ad_capture) ad_capture(); }
	std::string stop() {
		fflush(stdout); dup2(saved, 1); close(saved); saved = -1; if (ad_capture) ad_capture();
		std::string r; char b[65536]; fseek(f, 0, SEEK_SET); lseek(fileno(f), 0, SEEK_SET);
		ssize_t k; while ((k = read(fileno(f), b, sizeof b)) > 0) r.append(b, (size_t)k);
		fclose(f); f = nullptr; return r;
	}
};
