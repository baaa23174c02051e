// Shared by every harness: case loop, seeds, verdict lines, watchdogs, heap and
// descriptor accounting. A harness is an executable
//     prog MODE --seed S --start A --cases N [--only K] --out FILE --cur FILE
// which runs case numbers A..A+N-1, each from its own seed derived from (S, case).
// It writes JSON lines to FILE; exit 0 = held, 10 = violations written,
// anything else = the code under test (or the harness) died in the case named by
// the progress file.
#pragma once
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <pthread.h>
#include <regex.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>
#include <math.h>
#include <limits.h>
#include <inttypes.h>

#if defined(HARNESS_ASAN)
// gcc does not ship the sanitizer headers here.
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" void __asan_poison_memory_region(void const volatile *, size_t);
extern "C" void __asan_unpoison_memory_region(void const volatile *, size_t);
#define ASAN_POISON_MEMORY_REGION
#define HAVE_HEAP 1
#endif

extern "C" {
// The library's own headers, with the C99 array qualifiers ("[static 1]",
// "[const]") removed by the build (see check.py); layouts come from the tree.
#include "38-moths.h"

#ifdef __SANITIZE_THREAD__
// Several threads may use one compiled expression: regexec locks it. ThreadSanitizer does
// not see the C library's lock and would report the library's own bookkeeping, so the
// driver wraps regexec (in this flavour only) with a lock of the expression's that it sees.
extern "C" int __real_regexec(const regex_t *, const char *, size_t, regmatch_t *, int);
extern "C" inline int __attribute__((used)) __wrap_regexec(const regex_t *preg, const char *s, size_t n, regmatch_t *m, int flags) {
	static pthread_mutex_t locks[8192];
	pthread_mutex_t *l = &locks[((uintptr_t)preg * 0x9e3779b97f4a7c15ull) >> 51];
	pthread_mutex_lock(l);
	int rc = __real_regexec(preg, s, n, m, flags);
	pthread_mutex_unlock(l);
	return rc;
}
#endif

}

typedef std::string str;

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ull);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
	bool chance(int percent) { return (int)below(100) < percent; }
	// Skewed size in 0..max, often small, often next to a power of two.
	size_t size(size_t max) {
		size_t r;
		switch (below(4)) {
			case 0: r = below(std::min<size_t>(max, 8) + 1); break;
			case 1: { size_t p = (size_t)1 << below(22); r = p + below(5); r = r >= 2 ? r - 2 : r; break; }
			case 2: r = below(std::min<size_t>(max, 300) + 1); break;
			default: r = below(max + 1);
		}
		return r > max ? below(max + 1) : r;
	}
	template <class T> const T &pick(const std::vector<T> &v) { return v[below(v.size())]; }
	str bytes(size_t n) { str o(n, 0); for (auto &c : o) c = (char)below(256); return o; }
	str from(const char *alphabet, size_t n) { size_t k = strlen(alphabet); str o(n, 0); for (auto &c : o) c = alphabet[below(k)]; return o; }
	str alnum(size_t n) { return from("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789", n); }
};

inline uint64_t hash64(const void *p, size_t n, uint64_t h = 1469598103934665603ull) {
	const unsigned char *c = (const unsigned char *)p;
	for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 1099511628211ull;
	h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32;
	return h;
}
inline uint64_t hash64(const str &s, uint64_t h = 1469598103934665603ull) { return hash64(s.data(), s.size(), h); }

inline str show(const str &s, size_t max = 400) {
	str o;
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i];
		char b[8];
		if (c == '\\') o += "\\\\";
		else if (c == '\n') o += "\\n";
		else if (c == '\r') o += "\\r";
		else if (c >= 32 && c < 127) o += c;
		else { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
	}
	if (s.size() > max) o += "...(" + std::to_string(s.size()) + " bytes)";
	return o;
}

inline str json(const str &s) {
	str o = "\"";
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

inline str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
inline str fmt(const char *f, ...) {
	va_list ap; va_start(ap, f); char *p = NULL; int n = vasprintf(&p, f, ap); va_end(ap);
	str o(p, n < 0 ? 0 : n); free(p); return o;
}

struct Cur { volatile uint64_t kase; volatile uint64_t stamp; char what[4000]; };

struct Harness {
	str mode; uint64_t seed = 1, start = 0, cases = 1, kase = 0; bool only = false; bool thorough = false;
	FILE *out = NULL; Cur *cur = NULL; Cur dummy;
	// Counters and marks are kept without allocating, so that counting never
	// disturbs the heap accounting of a case.
	struct { const char *k; uint64_t n; } stats[256]; int nstats = 0;
	uint64_t pending[4096]; int npending = 0;
	char pending_sample[700]; int nsampled = 0;
	std::unordered_set<uint64_t> distinct;
	std::vector<str> samples;
	std::set<str> keys;
	int violations = 0;
	int max_violations = 4;
	pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
	std::map<str, str> opts;

	void parse(int argc, char **argv) {
		str outp, curp;
		mode = argc > 1 ? argv[1] : "";
		for (int i = 2; i + 1 < argc; i += 2) {
			str k = argv[i], v = argv[i + 1];
			if (k == "--seed") seed = strtoull(v.c_str(), 0, 10);
			else if (k == "--start") start = strtoull(v.c_str(), 0, 10);
			else if (k == "--cases") cases = strtoull(v.c_str(), 0, 10);
			else if (k == "--only") { only = true; start = strtoull(v.c_str(), 0, 10); cases = 1; }
			else if (k == "--tier") thorough = v == "thorough";
			else if (k == "--out") outp = v;
			else if (k == "--cur") curp = v;
			else opts[k.substr(2)] = v;
		}
		out = outp.empty() ? fdopen(dup(1), "w") : fopen(outp.c_str(), "a");
		setvbuf(out, NULL, _IOFBF, 1 << 16);
		cur = &dummy;
		if (!curp.empty()) {
			int fd = open(curp.c_str(), O_RDWR | O_CREAT, 0600);
			if (fd >= 0 && ftruncate(fd, sizeof(Cur)) == 0)
				cur = (Cur *)mmap(NULL, sizeof(Cur), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
			close(fd);
		}
		// The library logs every request; nobody reads that here.
		if (!getenv("HARNESS_KEEP_STDOUT")) {
			int n = open("/dev/null", O_WRONLY);
			dup2(n, 1);
			if (!getenv("HARNESS_KEEP_STDERR")) { /* stderr keeps sanitizer reports */ }
			close(n);
		}
	}
	uint64_t case_seed() const { uint64_t a[2] = {seed, kase}; return hash64(a, sizeof a); }
	void note(const str &s) { size_t n = std::min(s.size(), sizeof(cur->what) - 1); memcpy(cur->what, s.data(), n); cur->what[n] = 0; }
	// k must be a literal.
	void stat(const char *k, uint64_t by = 1) {
		for (int i = 0; i < nstats; i++) if (stats[i].k == k || !strcmp(stats[i].k, k)) { stats[i].n += by; return; }
		if (nstats < 256) { stats[nstats].k = k; stats[nstats++].n = by; }
	}
	void nontrivial(uint64_t h) { if (npending < 4096) pending[npending++] = h; }
	void sample(const str &s) { snprintf(pending_sample, sizeof pending_sample, "%s", s.c_str()); }
	void flush_case() {
		for (int i = 0; i < npending; i++) distinct.insert(pending[i]);
		npending = 0;
		if (pending_sample[0] && samples.size() < 3) samples.push_back(pending_sample);
		pending_sample[0] = 0;
	}
	// key: stable name of what failed (no addresses, no seeds).
	void violation(const str &key, const str &msg) {
		pthread_mutex_lock(&mu);
		violations++;
		if (keys.insert(key).second) {
			fprintf(out, "{\"ev\":\"violation\",\"key\":%s,\"case\":%llu,\"msg\":%s}\n", json(key).c_str(),
				(unsigned long long)kase, json(msg.substr(0, 4000)).c_str());
			fflush(out);
		}
		pthread_mutex_unlock(&mu);
	}
	int finish() {
		str o = "{\"ev\":\"stats\",\"mode\":" + json(mode) + ",\"stats\":{";
		bool first = true;
		flush_case();
		for (int i = 0; i < nstats; i++) { o += (first ? "" : ",") + json(stats[i].k) + ":" + std::to_string(stats[i].n); first = false; }
		o += "},\"distinct\":" + std::to_string(distinct.size()) + ",\"samples\":[";
		for (size_t i = 0; i < samples.size(); i++) o += (i ? "," : "") + json(samples[i]);
		o += "]}";
		fprintf(out, "%s\n", o.c_str());
		fflush(out);
		return violations ? 10 : 0;
	}
	void run(const std::function<void(Rng &)> &fn) {
		for (uint64_t i = 0; i < cases; i++) {
			kase = start + i;
			cur->kase = kase; cur->stamp++;
			cur->what[0] = 0;
			cpu_arm();
			Rng r(case_seed());
			fn(r);
			stat("cases");
			flush_case();
			if (violations >= max_violations) break;
		}
		cpu_disarm();
	}
	// A case that burns this much CPU is an endless loop: cases take milliseconds.
	static int &cpu_limit() { static int l = 40; return l; }
	static void on_cpu(int) { const char m[] = "HARNESS: case exceeded its CPU limit\n"; ssize_t w = write(2, m, sizeof m - 1); (void)w; _exit(77); }
	void cpu_arm() {
		signal(SIGPROF, on_cpu);
		struct itimerval t = {{0, 0}, {cpu_limit(), 0}};
		setitimer(ITIMER_PROF, &t, NULL);
	}
	void cpu_disarm() { struct itimerval t = {{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &t, NULL); }
};

static Harness H;

static inline long heap_now() {
#ifdef HAVE_HEAP
	return (long)__sanitizer_get_current_allocated_bytes();
#else
	return 0;
#endif
}

static inline int count_fds() {
	int n = 0;
	for (int fd = 0; fd < 256; fd++) if (fcntl(fd, F_GETFD) != -1) n++;
	return n;
}

// Runs fn twice more if it left memory behind, so that lazy one-time allocations
// (locale, regex tables, stdio buffers) are not mistaken for leaks.
template <class F> static void leak_checked(const char *key, const str &what, F fn) {
	long a = heap_now();
	fn();
	long d = heap_now() - a;
	if (d == 0) return;
	long ds[3];
	for (int i = 0; i < 3; i++) { a = heap_now(); fn(); ds[i] = heap_now() - a; }
	if (ds[0] != 0 && ds[1] != 0 && ds[2] != 0)
		H.violation(key, fmt("%ld bytes of heap not given back (repeats: %ld %ld %ld): ", d, ds[0], ds[1], ds[2]) + what);
}

// A byte buffer of exactly n bytes, so that ASan sees the first byte out of it.
struct Exact {
	char *p; size_t n;
	explicit Exact(const str &s) : p((char *)malloc(s.size() ? s.size() : 1)), n(s.size()) { if (n) memcpy(p, s.data(), n);
#ifdef HAVE_HEAP
		if (!n) __asan_poison_memory_region(p, 1);
#endif
	}
	~Exact() {
#ifdef HAVE_HEAP
		if (!n) __asan_unpoison_memory_region(p, 1);
#endif
		free(p); }
	Exact(const Exact &) = delete;
};
// The same with a terminator.
struct ExactZ { char *p; explicit ExactZ(const str &s) : p((char *)malloc(s.size() + 1)) { memcpy(p, s.data(), s.size()); p[s.size()] = 0; } ~ExactZ() { free(p); } ExactZ(const ExactZ &) = delete; };
