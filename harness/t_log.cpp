// C21: every log call against a monitor of the two standard streams: one thread with
// generated formats, lengths, clocks and sinks, and many threads at once.
#include "common.hpp"
#include <locale.h>
#include <sched.h>
#if defined(__SANITIZE_THREAD__) || defined(__SANITIZE_ADDRESS__) || defined(HARNESS_ASAN)
extern "C" void __sanitizer_set_report_fd(void *);
#define HAVE_REPORT_FD 1
#endif

static const size_t CUT = 799; // the message buffer less its terminator

// ---- the clock the library sees ------------------------------------------------
static thread_local bool faking = false;
static thread_local time_t fake = 0;
static thread_local bool jitter = false;
static thread_local uint64_t jseed = 1;
static void wobble() {
	if (!jitter) return;
	jseed = jseed * 6364136223846793005ull + 1442695040888963407ull;
	unsigned k = (unsigned)(jseed >> 40) % 100;
	if (k < 15) sched_yield();
	else if (k < 18) usleep((jseed >> 50) % 200);
}
extern "C" {
int __real_gettimeofday(struct timeval *, void *);
time_t __real_time(time_t *);
int __real_clock_gettime(clockid_t, struct timespec *);
int __real_fputs(const char *, FILE *);
int __real_fputc(int, FILE *);
int __real_putc(int, FILE *);
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
int __real_vfprintf(FILE *, const char *, va_list);
int __real_fflush(FILE *);
ssize_t __real_write(int, const void *, size_t);
int __wrap_gettimeofday(struct timeval *t, void *z) {
	int rc = __real_gettimeofday(t, z);
	if (faking && t) { t->tv_sec = fake; }
	wobble();
	return rc;
}
time_t __wrap_time(time_t *p) { time_t t = faking ? fake : __real_time(NULL); if (p) *p = t; return t; }
int __wrap_clock_gettime(clockid_t c, struct timespec *t) { int rc = __real_clock_gettime(c, t); if (faking && t && c == CLOCK_REALTIME) t->tv_sec = fake; return rc; }
int __wrap_fputs(const char *s, FILE *f) { wobble(); int rc = __real_fputs(s, f); wobble(); return rc; }
int __wrap_fputc(int c, FILE *f) { wobble(); int rc = __real_fputc(c, f); wobble(); return rc; }
int __wrap_putc(int c, FILE *f) { wobble(); int rc = __real_putc(c, f); wobble(); return rc; }
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { wobble(); size_t rc = __real_fwrite(p, a, b, f); wobble(); return rc; }
int __wrap_vfprintf(FILE *f, const char *s, va_list ap) { wobble(); int rc = __real_vfprintf(f, s, ap); wobble(); return rc; }
int __wrap_fprintf(FILE *f, const char *s, ...) { va_list ap; va_start(ap, s); wobble(); int rc = __real_vfprintf(f, s, ap); va_end(ap); wobble(); return rc; }
int __wrap_fflush(FILE *f) { wobble(); int rc = __real_fflush(f); wobble(); return rc; }
ssize_t __wrap_write(int fd, const void *b, size_t n) { wobble(); return __real_write(fd, b, n); }
}

// ---- the format ------------------------------------------------------------------
// Every level has a marker of its own: bracketed, coloured, reset.
static const struct { log_level l; const char *names; int color; } LEVELS[] = {
	{LOG_INFO, "-", 34}, {LOG_DEBUG, "^", 91}, {LOG_WARN, "!", 33}, {LOG_ERR, "x", 31}, {LOG_FUN, "~", 36}, {LOG_DB, "&~", 35}};

static str stamp(time_t t) { struct tm tm; localtime_r(&t, &tm); char b[100]; strftime(b, sizeof b, "%b %d %H:%M:%S", &tm); return b; }

// Takes one line apart; "" or what is wrong with it. lo..hi: when it was written.
static str parse(const str &l, int &level, str &msg, time_t lo, time_t hi) {
	if (l.size() < 16 || l[15] != ' ') return "no timestamp";
	str ts = l.substr(0, 15);
	bool when = false;
	if (hi - lo > 100) return "(harness)";
	for (time_t t = lo; t <= hi; t++) if (stamp(t) == ts) when = true;
	if (!when) return "timestamp " + show(ts) + " of a call made at " + stamp(lo);
	level = -1;
	size_t after = 0;
	for (int k = 0; k < 6; k++) for (const char *c = LEVELS[k].names; *c; c++) {
		str m = fmt("[\x1b[%dm%c\x1b[0m] ", LEVELS[k].color, *c);
		if (!l.compare(16, m.size(), m)) { level = k; after = 16 + m.size(); }
	}
	if (level < 0) return "no marker of a level";
	msg = l.substr(after);
	return "";
}

static int sink_out, sink_err;
static str slurp(int fd, off_t from) {
	struct stat st; fstat(fd, &st);
	str s(st.st_size > from ? st.st_size - from : 0, 0);
	size_t got = 0;
	while (got < s.size()) { ssize_t k = pread(fd, &s[got], s.size() - got, from + got); if (k <= 0) break; got += k; }
	s.resize(got);
	return s;
}
static off_t fsize(int fd) { struct stat st; fstat(fd, &st); return st.st_size; }

static void one(Rng &r) {
	if (ftruncate(sink_out, 0) || ftruncate(sink_err, 0)) _exit(70);
	uint64_t sig = 0;
	int n = r.range(1, 12);
	for (int i = 0; i < n; i++) {
		int k = r.below(6);
		size_t len;
		switch (r.below(4)) { case 0: len = CUT - 5 + r.below(12); break; case 1: len = r.below(60); break; case 2: len = r.below(900); break; default: len = r.size(20000); }
		str s(len, ' ');
		for (auto &c : s) do c = r.chance(90) ? 32 + r.below(95) : 1 + r.below(255); while (c == '\n');
		ExactZ z(s);
		int num = (int)r.next(); long big = (long)r.next();
		str want;
		off_t o0 = fsize(sink_out), e0 = fsize(sink_err);
		log_level lv = LEVELS[k].l;
		int form = r.below(7);
		H.note(fmt("level %d, form %d, string of %zu bytes", k, form, len));
		str pct;
		for (char c : s) { pct += c; if (c == '%') pct += '%'; }
		ExactZ zp(pct);
		// mostly anywhere, else shortly after or before the last one
		fake = i && r.chance(40) ? std::max<long long>(0, fake + r.range(-3, 65)) : r.range(0, 4102444800ll);
		faking = true;
		switch (form) {
		case 0: m38_log_msg(lv, "%s", z.p); want = s; break;
		case 1: m38_log_msg(lv, zp.p); want = s; break;
		case 2: m38_log_msg(lv, "%i: %s -> %li", num, z.p, big); want = fmt("%i: %s -> %li", num, s.c_str(), big); break;
		case 3: m38_log_msg(lv, "%.*s|%5.2f|%c|%zu|%%", (int)(len / 2), z.p, num / 1000.0, 'q', len); want = fmt("%.*s|%5.2f|%c|%zu|%%", (int)(len / 2), s.c_str(), num / 1000.0, 'q', len); break;
		case 4: m38_log_msg(lv, "%s%s", z.p, z.p); want = s + s; break;
		case 5: m38_log_msg(lv, "%s", ""); break;
		default: m38_log_msg(lv, "%*d", (int)(len % 1000) + 1, num); want = fmt("%*d", (int)(len % 1000) + 1, num);
		}
		faking = false;
		// The record is in the file as soon as the call returns.
		str out = slurp(sink_out, o0), err = slurp(sink_err, e0);
		bool is_err = LEVELS[k].l == LOG_ERR;
		const str &mine = is_err ? err : out, &other = is_err ? out : err;
		str ctx = fmt(" (level %d, form %d, message of %zu bytes)", k, form, want.size());
		if (!other.empty()) { H.violation("log-wrong-stream", "the other stream got \"" + show(other, 120) + "\"" + ctx); return; }
		if (mine.empty()) { H.violation("log-lost", "nothing was written by the time the call returned" + ctx); return; }
		if (mine.back() != '\n' || std::count(mine.begin(), mine.end(), '\n') != 1) { H.violation("log-not-a-line", fmt("%d line ends in \"", (int)std::count(mine.begin(), mine.end(), '\n')) + show(mine.substr(0, 100)) + "..." + show(mine.substr(mine.size() > 30 ? mine.size() - 30 : 0)) + "\"" + ctx); return; }
		int lev; str msg, why = parse(mine.substr(0, mine.size() - 1), lev, msg, fake, fake);
		if (!why.empty()) { H.violation("log-malformed", why + " in \"" + show(mine, 150) + "\"" + ctx); return; }
		if (lev != k) { H.violation("log-wrong-marker", fmt("marker of level %d", lev) + ctx); return; }
		if (want.size() > CUT) { want.resize(CUT); H.stat("cut"); }
		if (msg != want) {
			size_t d = 0; while (d < msg.size() && d < want.size() && msg[d] == want[d]) d++;
			H.violation("log-wrong-text", fmt("%zu bytes of message, want %zu, first difference at %zu: \"%s\"", msg.size(), want.size(), d, show(msg.substr(d, 40)).c_str()) + ctx); return;
		}
		H.stat("records");
		H.stat(is_err ? "to_stderr" : "to_stdout");
		sig = hash64(mine, sig);
	}
	if (n > 1) H.nontrivial(sig);
	H.sample(fmt("%d calls, %lld bytes on stdout, %lld on stderr", n, (long long)fsize(sink_out), (long long)fsize(sink_err)));
}

// ---- threads -----------------------------------------------------------------------
struct Th { int id, n; uint64_t seed; std::vector<std::pair<int, str>> sent; };
static pthread_barrier_t bar;
static void *logger(void *p) {
	Th *t = (Th *)p;
	Rng r(t->seed);
	jitter = r.chance(60); jseed = r.next() | 1;
	for (int i = 0; i < t->n; i++) {
		int k = r.below(6);
		str s = fmt("T%d-%d ", t->id, i) + r.alnum(r.chance(20) ? r.below(1200) : r.below(80));
		t->sent.push_back({k, s.substr(0, CUT)});
	}
	pthread_barrier_wait(&bar);
	for (int i = 0; i < t->n; i++) {
		// The full text again: sent[] keeps it cut.
		m38_log_msg(LEVELS[t->sent[i].first].l, "%s%s", t->sent[i].second.c_str(), t->sent[i].second.size() == CUT ? "tail beyond the buffer" : "");
		if (r.chance(5)) usleep(r.below(100));
	}
	return NULL;
}
struct Drain { int fd; str data; uint64_t seed; bool slow; };
static void *drain(void *p) {
	Drain *d = (Drain *)p;
	Rng r(d->seed);
	char b[65536];
	ssize_t k;
	while ((k = read(d->fd, b, d->slow ? 1 + r.below(3000) : sizeof b)) > 0) { d->data.append(b, k); if (d->slow && r.chance(10)) usleep(r.below(400)); }
	return NULL;
}
static void threads(Rng &r) {
	int nt = r.range(2, 12), per = r.range(3, 120);
	bool pipes = r.chance(50);
	int po[2], pe[2], save[2] = {dup(1), dup(2)};
	Drain dr[2];
	pthread_t dt[2];
	if (pipes) {
		if (pipe(po) || pipe(pe)) _exit(70);
		fcntl(po[1], F_SETPIPE_SZ, 4096); fcntl(pe[1], F_SETPIPE_SZ, 4096);
		dup2(po[1], 1); dup2(pe[1], 2); close(po[1]); close(pe[1]);
		bool slow = r.chance(60);
		dr[0] = {po[0], "", r.next(), slow}; dr[1] = {pe[0], "", r.next(), slow};
		for (int i = 0; i < 2; i++) pthread_create(&dt[i], NULL, drain, &dr[i]);
	} else if (ftruncate(sink_out, 0) || ftruncate(sink_err, 0)) _exit(70);
	H.note(fmt("%d threads, %d calls each, %s", nt, per, pipes ? "pipes" : "files"));
	pthread_barrier_init(&bar, NULL, nt);
	std::vector<Th> th(nt);
	std::vector<pthread_t> t(nt);
	time_t lo = time(NULL);
	for (int i = 0; i < nt; i++) { th[i] = {i, per, r.next(), {}}; pthread_create(&t[i], NULL, logger, &th[i]); }
	for (int i = 0; i < nt; i++) pthread_join(t[i], NULL);
	time_t hi = time(NULL);
	pthread_barrier_destroy(&bar);
	str got[2];
	if (pipes) {
		dup2(save[0], 1); dup2(save[1], 2);
		for (int i = 0; i < 2; i++) { pthread_join(dt[i], NULL); close(dr[i].fd); got[i] = dr[i].data; }
	} else { got[0] = slurp(sink_out, 0); got[1] = slurp(sink_err, 0); }
	close(save[0]); close(save[1]);
	std::vector<int> next[2];
	uint64_t order = 0;
	long total = 0;
	std::vector<std::vector<bool>> seen(nt, std::vector<bool>(per));
	int prev = -1; long switches = 0;
	for (int s = 0; s < 2; s++) {
		std::vector<int> last(nt, -1);
		size_t o = 0;
		while (o < got[s].size()) {
			size_t e = got[s].find('\n', o);
			str l = got[s].substr(o, e == str::npos ? str::npos : e - o);
			if (e == str::npos) { H.violation("log-not-a-line", "the stream ends without a line end: \"" + show(l, 150) + "\""); return; }
			o = e + 1;
			int lev; str msg, why = parse(l, lev, msg, lo - 1, hi + 1); // time() lags the finer clocks
			if (!why.empty()) { H.violation("log-malformed", why + " in \"" + show(l, 200) + fmt("\" with %d threads", nt)); return; }
			int ti = -1, ci = -1;
			if (sscanf(msg.c_str(), "T%d-%d ", &ti, &ci) != 2 || ti < 0 || ti >= nt || ci < 0 || ci >= per) { H.violation("log-mixed", fmt("%d threads: not a message of any of them: \"", nt) + show(l, 200) + "\""); return; }
			if (msg != th[ti].sent[ci].second || lev != th[ti].sent[ci].first) { H.violation("log-mixed", fmt("%d threads: call %d of thread %d wrote \"", nt, ci, ti) + show(l, 300) + "\", want \"" + show(th[ti].sent[ci].second, 300) + "\""); return; }
			if ((LEVELS[lev].l == LOG_ERR) != (s == 1)) { H.violation("log-wrong-stream", fmt("level %d on stream %d", lev, s + 1)); return; }
			if (seen[ti][ci]) { H.violation("log-duplicated", fmt("call %d of thread %d is there twice", ci, ti)); return; }
			if (ci < last[ti]) { H.violation("log-reordered", fmt("call %d of thread %d after call %d of the same thread", ci, ti, last[ti])); return; }
			seen[ti][ci] = true; last[ti] = ci; total++;
			order = hash64(&ti, sizeof ti, order);
			if (ti != prev) switches++;
			prev = ti;
		}
	}
	if (total != (long)nt * per) { H.violation("log-lost", fmt("%d threads made %d calls each, %ld lines arrived", nt, per, total)); return; }
	H.stat("concurrent_records", total);
	H.stat("thread_switches", switches);
	H.stat(pipes ? "on_pipes" : "on_files");
	H.nontrivial(order);
	H.sample(fmt("%d threads, %ld lines, the writer changed %ld times", nt, total, switches));
}

int main(int argc, char **argv) {
	H.parse(argc, argv);
	if (chdir(H.opts["scratch"].c_str())) return 70;
	H.max_violations = 1;
#ifdef HAVE_REPORT_FD
	__sanitizer_set_report_fd((void *)(intptr_t)fcntl(2, F_DUPFD, 200));
#endif
	static const char *zones[] = {"UTC", "XYZ-5:45", "ABC+3:30", "EST5EDT,M3.2.0,M11.1.0"};
	setenv("TZ", zones[H.start / 7 % 4], 1);
	tzset();
	sink_out = open("out.log", O_RDWR | O_CREAT | O_APPEND | O_TRUNC, 0600);
	sink_err = open("err.log", O_RDWR | O_CREAT | O_APPEND | O_TRUNC, 0600);
	dup2(sink_out, 1); dup2(sink_err, 2);
	static char big[1 << 16];
	if (H.start % 3 == 1) setvbuf(stdout, big, _IOFBF, sizeof big);
	if (H.start % 3 == 2) setvbuf(stdout, NULL, _IOLBF, 0);
	H.run(H.mode == "threads" ? threads : one);
	return H.finish();
}
