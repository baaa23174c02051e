// C01-C06, C09, C10: the request/response engine in one process. One connection per
// case over a socket pair; the system calls of the library are interposed, so that
// the harness decides how the "network" splits, shortens, interrupts, stalls and
// breaks every transfer, and sees every byte, descriptor and mapping.
#include "common.hpp"
#include <sys/ioctl.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <poll.h>

// ---- the scripted connection ----------------------------------------------

enum End { SHUT, STALL, CLOSE, RESET };

struct Conn {
	int lib = -1, peer = -1;
	std::vector<str> seg; size_t next = 0;
	End end = STALL; bool ended = false;
	int recv_eintr = 0, recv_short = 0, send_eintr = 0, send_short = 0; // percent
	long send_fail_at = -1; int send_errno = 0; bool peer_quits = false;
	str got;
	Rng rng{1};
	int stalls = 0, closes = 0, recvs = 0, sends = 0, sent_after_close = 0;
	size_t fed = 0, sent = 0, consumed = 0;
	bool failed_send = false;
};
static Conn *C;

extern "C" {
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_recvfrom(int, void *, size_t, int, struct sockaddr *, socklen_t *);
ssize_t __real_recvmsg(int, struct msghdr *, int);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_write(int, const void *, size_t);
ssize_t __real_sendto(int, const void *, size_t, int, const struct sockaddr *, socklen_t);
ssize_t __real_sendmsg(int, const struct msghdr *, int);
ssize_t __real_writev(int, const struct iovec *, int);
int __real_close(int);
int __real_poll(struct pollfd *, nfds_t, int);
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__real_mmap64(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);

static bool ours(int fd) { return C && fd == C->lib && fd >= 0; }

static int queued(int fd) { int n = 0; ioctl(fd, FIONREAD, &n); return n; }

// Lets the next bytes arrive. Returns 0 when there is something to read or the end
// of the stream has been signalled, else an errno.
static int feed() {
	if (queued(C->lib) > 0) return 0;
	if (C->next < C->seg.size()) {
		const str &s = C->seg[C->next++];
		size_t off = 0;
		while (off < s.size()) { ssize_t n = __real_send(C->peer, s.data() + off, s.size() - off, MSG_NOSIGNAL | MSG_DONTWAIT); if (n <= 0) break; off += n; }
		if (off != s.size()) { fprintf(stderr, "harness: segment does not fit\n"); _exit(70); }
		C->fed += off;
		if (s.empty()) return feed();
		return 0;
	}
	switch (C->end) {
		case SHUT: if (!C->ended) { C->ended = true; shutdown(C->peer, SHUT_WR); } return 0;
		case CLOSE: if (!C->ended) { C->ended = true; __real_close(C->peer); C->peer = -1; } return 0;
		case RESET: C->ended = true; return ECONNRESET;
		default: C->stalls++; return EAGAIN;
	}
}

static ssize_t scripted_recv(void *buf, size_t len, int flags) {
	C->recvs++;
	if (C->recv_eintr && C->rng.chance(C->recv_eintr)) { errno = EINTR; return -1; }
	if (queued(C->lib) == 0 && (flags & MSG_DONTWAIT) && C->next >= C->seg.size() && C->end == STALL) { errno = EAGAIN; return -1; }
	int e = feed();
	if (e) { errno = e; return -1; }
	if (C->recv_short && len > 1 && C->rng.chance(C->recv_short)) len = 1 + C->rng.below(std::min<size_t>(len, C->rng.chance(50) ? 3 : len));
	ssize_t n = __real_recv(C->lib, buf, len, flags | MSG_DONTWAIT);
	if (n > 0 && !(flags & MSG_PEEK)) C->consumed += n;
	return n;
}

static void drain() {
	static char b[1 << 16];
	if (C->peer < 0) return;
	for (;;) { ssize_t n = __real_recv(C->peer, b, sizeof b, MSG_DONTWAIT); if (n <= 0) break; C->got.append(b, n); }
}

static ssize_t scripted_send(const void *buf, size_t len, int flags, bool via_send) {
	C->sends++;
	if (C->send_eintr && C->rng.chance(C->send_eintr)) { errno = EINTR; return -1; }
	if (C->send_fail_at >= 0 && C->sent >= (size_t)C->send_fail_at) {
		C->failed_send = true;
		if (C->peer_quits) {
			// really gone: the kernel answers, with SIGPIPE where the library asked for it
			if (C->peer >= 0) { __real_close(C->peer); C->peer = -1; }
			return via_send ? __real_send(C->lib, buf, len, flags) : __real_write(C->lib, buf, len);
		}
		errno = C->send_errno;
		return -1;
	}
	if (C->send_short && len > 1 && C->rng.chance(C->send_short)) len = 1 + C->rng.below(std::min<size_t>(len, C->rng.chance(30) ? 3 : len));
	if (C->send_fail_at >= 0) len = std::min<size_t>(len, C->send_fail_at - C->sent);
	len = std::min<size_t>(len, 60000);
	ssize_t n = via_send ? __real_send(C->lib, buf, len, flags) : __real_write(C->lib, buf, len);
	if (n > 0) C->sent += n;
	drain();
	return n;
}

ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return ours(fd) ? scripted_recv(b, n, f) : __real_recv(fd, b, n, f); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return ours(fd) ? scripted_recv(b, n, 0) : __real_read(fd, b, n); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { return ours(fd) ? scripted_recv(b, n, f) : __real_recvfrom(fd, b, n, f, a, l); }
ssize_t __wrap_recvmsg(int fd, struct msghdr *m, int f) {
	if (!ours(fd) || m->msg_iovlen < 1) return __real_recvmsg(fd, m, f);
	return scripted_recv(m->msg_iov[0].iov_base, m->msg_iov[0].iov_len, f);
}
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return ours(fd) ? scripted_send(b, n, f, true) : __real_send(fd, b, n, f); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return ours(fd) ? scripted_send(b, n, 0, false) : __real_write(fd, b, n); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { return ours(fd) ? scripted_send(b, n, f, true) : __real_sendto(fd, b, n, f, a, l); }
static ssize_t iov_send(const struct iovec *v, int k, int f, bool via) {
	ssize_t total = 0;
	for (int i = 0; i < k; i++) {
		if (v[i].iov_len == 0) continue;
		ssize_t n = scripted_send(v[i].iov_base, v[i].iov_len, f, via);
		if (n < 0) return total ? total : n;
		total += n;
		if ((size_t)n < v[i].iov_len) break;
	}
	return total;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int f) { return ours(fd) ? iov_send(m->msg_iov, m->msg_iovlen, f, true) : __real_sendmsg(fd, m, f); }
ssize_t __wrap_writev(int fd, const struct iovec *v, int k) { return ours(fd) ? iov_send(v, k, 0, false) : __real_writev(fd, v, k); }
int __wrap_close(int fd) {
	if (ours(fd)) { C->closes++; if (C->closes > 1) return 0; int rc = __real_close(fd); return rc; }
	return __real_close(fd);
}
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	if (n == 1 && ours(p[0].fd)) { if (p[0].events & POLLIN) { int e = feed(); if (e == EAGAIN) { p[0].revents = 0; return 0; } } return __real_poll(p, n, 0); }
	return __real_poll(p, n, t);
}
// What the checked versions of these calls become when the library is built with them.
static void fits(size_t n, size_t have) { if (n > have) { fputs("*** buffer overflow detected ***\n", stderr); abort(); } }
ssize_t __recv_chk(int fd, void *b, size_t n, size_t have, int f) { fits(n, have); return __wrap_recv(fd, b, n, f); }
ssize_t __read_chk(int fd, void *b, size_t n, size_t have) { fits(n, have); return __wrap_read(fd, b, n); }
int __poll_chk(struct pollfd *p, nfds_t n, int t, size_t have) { fits(n * sizeof *p, have); return __wrap_poll(p, n, t); }

// Mappings made by the library: what is mapped must be unmapped, with the same length.
struct Mapping { void *p; size_t n; };
static Mapping maps[64]; static int nmaps;
static int bad_unmaps;
static size_t pages(size_t n) { return (n + 4095) / 4096; }
static void *mapped(void *p, size_t n) { if (p != MAP_FAILED && nmaps < 64) { maps[nmaps].p = p; maps[nmaps++].n = n; } return p; }
static int map_faults, open_faults;
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
	if (map_faults) { map_faults--; H.stat("mmap_faults"); errno = ENOMEM; return MAP_FAILED; }
	return mapped(__real_mmap(a, n, pr, fl, fd, o), n); }
void *__wrap_mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) {
	if (map_faults) { map_faults--; H.stat("mmap_faults"); errno = ENOMEM; return MAP_FAILED; }
	return mapped(__real_mmap(a, n, pr, fl, fd, o), n); }
int __wrap_munmap(void *p, size_t n) {
	for (int i = 0; i < nmaps; i++) if (maps[i].p == p) {
		if (pages(maps[i].n) != pages(n)) bad_unmaps++;
		else { maps[i] = maps[--nmaps]; }
		return __real_munmap(p, n);
	}
	bad_unmaps++;
	return n == 0 ? __real_munmap(p, n) : (errno = EINVAL, -1);
}
// opening a pipe for reading waits for a writer that never comes
static int unblocked(const char *p, int f) { struct stat st; return p && stat(p, &st) == 0 && S_ISFIFO(st.st_mode) ? f | O_NONBLOCK : f; }
int __wrap_open(const char *p, int f, int m) { f = unblocked(p, f); if (open_faults) { open_faults--; H.stat("open_faults"); errno = EMFILE; return -1; } return __real_open(p, f, m); }
int __wrap_open64(const char *p, int f, int m) { f = unblocked(p, f); if (open_faults) { open_faults--; H.stat("open_faults"); errno = EMFILE; return -1; } return __real_open64(p, f, m); }
}

// ---- verdict attribution ----------------------------------------------------

static str PROP; // the property this run decides
// tags: the properties the observation contradicts, e.g. "C03 C05".
static void bad(const char *tags, const char *key, const str &msg) {
	if (strstr(tags, PROP.c_str())) H.violation(key, msg);
	else H.stat("other_properties");
}

// ---- scenario -----------------------------------------------------------------

enum Kind { STATIC_BUF, HEAP_BUF, RAW_BUF, FILE_MAP, FILE_RENDER, NO_BODY, N_KINDS };

struct Behaviour {
	Kind kind = STATIC_BUF; int code = 200; str data; str mime; std::vector<std::pair<str, str>> headers;
	str path; str expect_type; bool judge_type = true; bool missing = false; bool mime_after = false;
	str var; // value of the template variable
	bool has_cleanup = false, empty_out = false;
	int map_fault = 0, open_fault = 0;
};

struct RouteSpec { str verb, pattern; size_t groups; Behaviour b; };

struct Query { str name; bool found = false; str value; };

struct Seen {
	int calls = 0; str verb, path, header, body; size_t header_len = 0, body_len = 0; bool has_form = false; const char *unterminated = NULL;
	regmatch_t m[MAX_MATCHES];
	std::vector<Query> headers, form;
};

static const int MAXR = 8;
struct Case {
	std::vector<RouteSpec> routes; bool custom404 = false, cleanup404 = false; Behaviour b404;
	std::vector<str> ask_headers, ask_form; bool ask_cookie = false;
	Seen seen[MAXR + 1];
	int cleanups[MAXR + 1] = {0}; int cleanup_status[MAXR + 1] = {0};
	int returned[MAXR + 1] = {0};
	int insert_failed = 0;
	size_t outsize[MAXR + 1] = {0};
	bool generating = false;
	std::vector<int> fill; int filler_calls = 0;
	void again() { for (auto &s : seen) s = Seen(); memset(cleanups, 0, sizeof cleanups); memset(cleanup_status, 0, sizeof cleanup_status); memset(returned, 0, sizeof returned); memset(outsize, 0, sizeof outsize); insert_failed = filler_calls = 0; ask_headers.clear(); ask_form.clear(); }
};
static Case *G;

static str filler(Rng &r, size_t n);

static int behave(const Behaviour &b, m38_http_response *res, int idx) {
	if (!b.mime.empty() && !b.mime_after) { memcpy(res->mimetype, b.mime.c_str(), b.mime.size() + 1); }
	for (auto &h : b.headers) {
		int rc;
		if (h.first.size() % 7 == 3) { // terminated texts, with more room announced than they take
			ExactZ n(h.first), v(h.second);
			rc = m38_insert_custom_header(res, n.p, h.first.size() + h.second.size() % 3, v.p, h.second.size() + h.first.size() % 5);
		} else {
			Exact n(h.first), v(h.second);
			rc = m38_insert_custom_header(res, n.p, n.n, v.p, v.n);
		}
		if (rc != 1) G->insert_failed++;
	}
	int code = b.code;
	switch (b.kind) {
		case STATIC_BUF: res->out = (unsigned char *)b.data.data(); res->outsize = b.data.size(); break;
		case HEAP_BUF: { unsigned char *p = (unsigned char *)malloc(b.data.size() ? b.data.size() : 1); memcpy(p, b.data.data(), b.data.size()); res->out = p; res->outsize = b.data.size(); break; }
		case RAW_BUF: { char *p = (char *)malloc(b.data.size() ? b.data.size() : 1); memcpy(p, b.data.data(), b.data.size()); code = m38_return_raw_buffer(p, b.data.size(), res); break; }
		case FILE_MAP: map_faults = b.map_fault; open_faults = b.open_fault; code = m38_mmap_file(b.path.c_str(), res); map_faults = open_faults = 0; break;
		case FILE_RENDER: {
			greshunkel_ctext *ctx = gshkl_init_context();
			gshkl_add_string(ctx, "NAME", b.var.c_str());
			map_faults = b.map_fault; open_faults = b.open_fault;
			code = m38_render_file(ctx, b.path.c_str(), res); map_faults = open_faults = 0; break; }
		default: if (b.empty_out) { res->out = (unsigned char *)""; res->outsize = 0; } break;
	}
	if (!b.mime.empty() && b.mime_after) { memcpy(res->mimetype, b.mime.c_str(), b.mime.size() + 1); }
	G->returned[idx] = code;
	G->outsize[idx] = res->outsize;
	return code;
}

static void observe(Seen &s, const m38_http_request *q) {
	s.calls++;
	if (!memchr(q->verb, 0, sizeof q->verb)) s.unterminated = "method";
	if (!memchr(q->resource, 0, sizeof q->resource)) s.unterminated = "path";
	s.verb = str(q->verb, strnlen(q->verb, sizeof q->verb));
	s.path = str(q->resource, strnlen(q->resource, sizeof q->resource));
	s.header_len = q->header_len; s.body_len = q->body_len;
	s.header = q->full_header ? str(q->full_header, q->header_len) : str();
	memcpy(s.m, q->matches, sizeof s.m);
	s.has_form = q->form_elements != NULL;
	s.headers.clear(); s.form.clear();
	for (auto &n : G->ask_headers) {
		ExactZ name(n);
		char *v = m38_get_header_value_request(q, name.p);
		s.headers.push_back({n, v != NULL, v ? str(v) : str()});
		free(v);
	}
	if (G->ask_cookie) {
		char *c = m38_get_header_value_request(q, "Cookie");
		if (c) { char *v = m38_get_cookie_value(c, strlen(c), "session"); free(v); }
		free(c);
	}
	if (q->form_elements)
		for (auto &n : G->ask_form) {
			Exact name(n);
			size_t siz = 0;
			const char *v = (const char *)sparse_dict_get(q->form_elements, name.p, name.n, &siz);
			s.form.push_back({n, v != NULL, v ? str(v, siz) : str()});
		}
	// The raw body after all lookups:
	s.body = q->full_body && q->body_len ? str((const char *)q->full_body, q->body_len) : str();
}

template <int I> static int handler(const m38_http_request *q, m38_http_response *res) {
	observe(G->seen[I], q);
	return behave(I == MAXR ? G->b404 : G->routes[I].b, res, I);
}

static void clean(const Behaviour &b, int idx, const int status, m38_http_response *res) {
	G->cleanups[idx]++;
	G->cleanup_status[idx] = status;
	if (G->cleanups[idx] > 1) return; // counted; a second release would only hide that
	switch (b.kind) {
		case HEAP_BUF: case RAW_BUF:
			if (res->out) memset(res->out, 0xDD, b.data.size());
			if (RESPONSE_OK(G->returned[idx])) m38_heap_cleanup(status, res);
			else m38_heap_cleanup_no_check(status, res);
			break;
		case FILE_MAP: m38_mmap_cleanup(status, res); break;
		case FILE_RENDER: m38_heap_cleanup(status, res); break;
		default: break;
	}
}
template <int I> static void cleanup(const int status, m38_http_response *res) { clean(I == MAXR ? G->b404 : G->routes[I].b, I, status, res); }

typedef int (*hfn)(const m38_http_request *, m38_http_response *);
typedef void (*cfn)(const int, m38_http_response *);
static hfn HANDLERS[] = {handler<0>, handler<1>, handler<2>, handler<3>, handler<4>, handler<5>, handler<6>, handler<7>, handler<MAXR>};
static cfn CLEANUPS[] = {cleanup<0>, cleanup<1>, cleanup<2>, cleanup<3>, cleanup<4>, cleanup<5>, cleanup<6>, cleanup<7>, cleanup<MAXR>};

// ---- files --------------------------------------------------------------------

struct PoolFile { str path, data, type; bool judge; };
static std::vector<PoolFile> pool;       // raw content
static std::vector<PoolFile> large_files;
static std::vector<PoolFile> templates;  // content with xXx @NAME xXx
static std::vector<str> missing_paths;
static str scratch;

static const std::vector<std::pair<str, str>> TYPES = {
	{"css", "text/css"}, {"jpg", "image/jpeg"}, {"txt", "text/plain"}, {"html", "text/html"}, {"svg", "image/svg+xml"},
	{"ico", "image/x-icon"}, {"webm", "video/webm"}, {"gif", "image/gif"}, {"json", "application/json"}, {"js", "text/javascript"}};

static void put_file(const str &p, const str &d) {
	FILE *f = fopen(p.c_str(), "w");
	if (!f || fwrite(d.data(), 1, d.size(), f) != d.size() || fclose(f)) { fprintf(stderr, "harness: cannot write %s\n", p.c_str()); _exit(70); }
}

static str random_case(Rng &r, str s) { for (auto &c : s) c = r.chance(50) ? toupper(c) : tolower(c); return s; }

static std::pair<str, PoolFile> name_file(Rng &r, int i, bool render) {
	PoolFile f; f.judge = true;
	str dir;
	switch (r.below(6)) {
		case 0: dir = scratch + "/"; break;
		case 1: { dir = "deep"; for (int k = 0; k < 6; k++) { dir += "/"; mkdir(dir.c_str(), 0755); dir += "directorylevel" + std::to_string(k); } mkdir(dir.c_str(), 0755); dir += "/"; break; }
		default: dir = "";
	}
	str ext;
	switch (r.below(8)) {
		case 0: ext = ".bin"; f.type = "application/octet-stream"; break;
		case 1: ext = r.pick(std::vector<str>{".htm", ".jsx", ".jso", ".cs", ".csss", ".tx", ".text", ".j", ".jpeg", ".webmx", ".sv", ".mp4", ".wasm", ".gi", ".ic"}); f.type = "application/octet-stream"; break;
		case 2: ext = ""; f.judge = false; break;
		default: { auto &t = r.pick(TYPES); ext = "." + (r.chance(60) ? t.first : random_case(r, t.first)); f.type = t.second; }
	}
	str base = r.chance(30) ? std::to_string(i) : r.chance(30) ? "a.b" + std::to_string(i) : "file" + std::to_string(i) + r.alnum(r.below(20));
	if (!f.judge && base.find('.') != str::npos) base = "noext" + std::to_string(i);
	f.path = dir + base + ext;
	return {f.path, f};
}

static void make_files(uint64_t seed) {
	Rng r(seed);
	static const size_t sizes[] = {0, 0, 1, 2, 100, 1023, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65535, 65536, 70000, 200000};
	for (int i = 0; i < 60; i++) {
		auto f = name_file(r, i, false).second;
		size_t n = i < 19 ? sizes[i] : r.size(50000);
		f.data = r.chance(50) ? r.bytes(n) : filler(r, n);
		put_file(f.path, f.data);
		pool.push_back(f);
	}
	for (int i = 0; i < 3; i++) { // large ones
		static const size_t large[] = {(1 << 20) - 1, (1 << 20) + 4097, 2600000};
		PoolFile f{"large" + std::to_string(i) + ".webm", r.bytes(large[i]), "video/webm", true};
		put_file(f.path, f.data);
		large_files.push_back(f);
	}
	for (int i = 0; i < 6; i++) { // under a second name, through a symbolic link
		auto f = name_file(r, 60 + i, false).second;
		const str to = scratch + "/target" + std::to_string(i);
		f.data = r.bytes(sizes[r.below(19)]);
		put_file(to, f.data);
		unlink(f.path.c_str());
		if (symlink(to.c_str(), f.path.c_str())) exit(70);
		pool.push_back(f);
	}
	for (int i = 100; i < 150; i++) {
		auto f = name_file(r, i, true).second;
		size_t n = i - 100 < 19 ? sizes[i - 100] : r.size(20000);
		str d;
		while (d.size() < n) {
			size_t left = n - d.size();
			if (left > 13 && r.chance(20)) d += "xXx @NAME xXx";
			else if (left > 0) { str line = r.from("abcdefghi <>/=\"'&;.,", std::min<size_t>(left, r.below(120))); d += line; if (d.size() < n) d += '\n'; }
		}
		d.resize(n);
		// a directive cut by resize would be text; keep it that way
		f.data = d;
		put_file(f.path, f.data);
		templates.push_back(f);
	}
	missing_paths = {"missing.html", "no/such/dir.css", "", "deep", scratch, pool[3].path + "/x", str(300, 'q'), "missing"};
	// things that exist but are no files
	unlink("dev.txt"); unlink("pipe.css"); unlink("sock.html"); unlink("dangling.png"); unlink("todir.txt");
	if (symlink("/dev/zero", "dev.txt") || mkfifo("pipe.css", 0600) || symlink("nowhere", "dangling.png") || symlink("deep", "todir.txt")) exit(70);
	int s = socket(AF_UNIX, SOCK_STREAM, 0);
	struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strcpy(a.sun_path, "sock.html");
	if (s < 0 || bind(s, (struct sockaddr *)&a, sizeof a)) exit(70);
	__real_close(s);
	for (const char *n : {"dev.txt", "pipe.css", "sock.html", "dangling.png", "todir.txt"}) missing_paths.push_back(n);
}

static str replace_all(str s, const str &a, const str &b) { str o; size_t i = 0, j; while ((j = s.find(a, i)) != str::npos) { o += s.substr(i, j - i) + b; i = j + a.size(); } return o + s.substr(i); }

static str filler(Rng &r, size_t n) {
	str o; static const std::vector<str> bits = {"Content-Length: 3\r\n", "\r\n\r\n", "HTTP/1.1 200 OK\r\n", "%s%n%d", "lorem ipsum ", "Range: bytes=0-1\r\n", str("\0\0", 2), "\xff\xfe", "<html>", "a=b&c=d"};
	while (o.size() < n) o += r.chance(40) ? r.pick(bits) : r.bytes(r.range(1, 40));
	o.resize(n);
	return o;
}

// ---- generators ---------------------------------------------------------------

static str token(Rng &r, size_t n) { return r.from("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-", n); }

static Behaviour gen_behaviour(Rng &r, bool for404) {
	Behaviour b;
	static const int codes[] = {200, 200, 200, 200, 301, 302, 400, 403, 404, 500, 206};
	b.code = for404 ? 404 : codes[r.below(11)];
	int k = r.below(100);
	if (PROP == "C09") k = r.range(58, 92);
	if (PROP == "C05") k = r.below(100) < 85 ? r.range(0, 80) : 95;
	if (for404) k = r.below(58);
	if (PROP == "C05" && r.chance(70)) b.code = 200;
	if (k < 20) b.kind = STATIC_BUF;
	else if (k < 45) b.kind = HEAP_BUF;
	else if (k < 58 && !for404) b.kind = RAW_BUF;
	else if (k < 58) b.kind = HEAP_BUF;
	else if (k < 78) b.kind = FILE_MAP;
	else if (k < 93) b.kind = FILE_RENDER;
	else { b.kind = NO_BODY; b.empty_out = r.chance(30); }
	if (b.kind == STATIC_BUF || b.kind == HEAP_BUF || b.kind == RAW_BUF) {
		size_t n = r.chance(2) ? r.below(PROP == "C03" || PROP == "C05" ? 1500000 : 200000) : r.size(9000);
		if (PROP == "C05" && r.chance(2)) n = 1000000 + r.below(500000);
		if (PROP == "C03" && !for404 && r.below(2500) == 0) { n = r.range(2 << 20, 18 << 20); H.stat("huge_bodies"); }
		if (n == 0 && (b.code == 404 || b.code == 206)) n = 5;
		b.data = r.chance(50) ? filler(r, n) : r.bytes(n);
	}
	if (b.kind == NO_BODY && (b.code == 404 || b.code == 206)) b.code = for404 ? 404 : 302;
	b.has_cleanup = b.kind == HEAP_BUF || b.kind == RAW_BUF || b.kind == FILE_MAP || b.kind == FILE_RENDER || r.chance(50);
	b.expect_type = "text/html";
	if (b.kind == FILE_MAP || b.kind == FILE_RENDER) {
		auto &p = b.kind == FILE_MAP ? pool : templates;
		b.code = 200;
		if (r.chance(10)) { b.missing = true; b.path = r.pick(missing_paths); b.code = 404; }
		else {
			const PoolFile &f = b.kind == FILE_MAP && (PROP == "C09" || PROP == "C05") && r.chance(1) ? r.pick(large_files) : r.pick(p);
			b.path = f.path; b.expect_type = f.type; b.judge_type = f.judge;
			if (b.kind == FILE_MAP) b.data = f.data;
			else {
				b.var = r.pick(std::vector<str>{"", "v", "a longer value & more", r.alnum(r.below(500))});
				b.data = replace_all(f.data, "xXx @NAME xXx", b.var);
				if (!b.data.empty() && b.data.back() == '\n') b.data.pop_back();
			}
			if (r.chance(3) && !f.data.empty()) { if (r.chance(50)) b.map_fault = 1; else b.open_fault = 1; b.missing = true; b.code = 404; }
		}
	}
	if (b.missing) b.judge_type = false;
	if (r.chance(40)) {
		b.mime = r.pick(std::vector<str>{"text/plain", "application/json", "text/html; charset=utf-8", "a/b", "application/x-thirty-one-chars", "application/x-exactly-31-letter", r.from("abcdef/+.-", r.chance(30) ? 31 : r.range(1, 31)), "image/svg+xml", "text/%s%d"});
		b.mime_after = r.chance(30);
		if (b.mime_after || !b.missing) { b.expect_type = b.mime; b.judge_type = true; }
	}
	int nh = r.chance(50) ? 0 : r.below(5);
	if (r.chance(5)) nh = r.range(5, 30);
	const bool heavy = r.below(300) == 0; // header lines of more than 64 KB
	if (heavy) nh = r.range(1, 4);
	for (int i = 0; i < nh; i++) {
		str name = r.chance(25) ? r.pick(std::vector<str>{"Set-Cookie", "Location", "Cache-Control", "ETag"}) : "X-" + token(r, 1 + r.below(20));
		if (r.chance(2)) name = "X-" + token(r, 600);
		str value = r.chance(10) ? "" : r.from("abcdefgh XYZ0123456789;=/:,%sdn\"'<>\xc3\xa9", heavy ? r.range(30000, 140000) : r.chance(5) ? r.below(5000) : r.below(60));
		// surrounding blanks are not part of a header value
		while (!value.empty() && value.back() == ' ') value.pop_back();
		while (!value.empty() && value.front() == ' ') value.erase(0, 1);
		b.headers.push_back({name, value});
	}
	return b;
}

static str lower(str s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }

struct ReqSpec {
	str verb, path, raw_header, body /* as it must reach the handler */, wire;
	std::map<str, str> headers; // lower-case name -> value
	bool form = false; std::map<str, str> fields; std::vector<str> not_fields;
	str range; bool has_range = false;
	End end = STALL;
	long content_length = -1;
};

static str gen_path(Rng &r) {
	static const std::vector<str> fixed = {"/", "/a", "/b/12", "/b/12/edit", "/static/js/app.js", "/user/bob/post/7", "/x/y/z", "/index.html?q=1", "*", "/a/"};
	if (r.chance(55)) return r.pick(fixed);
	if (r.chance(35)) { // nearly one of them
		str p = r.pick(fixed);
		for (int k = 1 + r.below(2); k > 0; k--) switch (r.below(6)) {
			case 0: for (auto &ch : p) if (r.chance(40)) ch = toupper((unsigned char)ch); break;
			case 1: p.insert(1 + r.below(p.size()), 1, r.from("ab0/.-9x", 1)[0]); break;
			case 2: if (p.size() > 1) p.erase(1 + r.below(p.size() - 1), 1); break;
			case 3: p += r.pick(std::vector<str>{"/", "x", "0", "?", "#", "/a", ".html"}); break;
			case 4: p = r.pick(std::vector<str>{"/pre", "/a", "/x", "/0"}) + p; break;
			default: p.insert(1 + r.below(p.size()), 1, "\n\t\r\x80\xff\x01"[r.below(6)]); break;
		}
		return p;
	}
	if (r.chance(10)) return "/" + r.from("abc/019.-_~%?=&:", r.range(480, 510));
	if (r.chance(20)) { // around sizes a buffer may have, with text that captures up to the end
		static const int at[] = {7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128, 129, 254, 255, 256, 257, 384, 509, 510, 511};
		str p = r.pick(std::vector<str>{"/", "/b/", "/static/", "/user/bob/post/"});
		size_t n = at[r.below(20)];
		while (p.size() < n) p += r.from("0123456789", 1);
		return p;
	}
	if (r.chance(10)) return "/Host:x/Content-Length:9/" + r.alnum(r.below(30));
	return "/" + r.from("abcxyz/019.-_~%?=&:+", r.below(60));
}

static str urlencode(Rng &r, const str &raw, int style) {
	static const char *up = "0123456789ABCDEF", *lo = "0123456789abcdef";
	str o;
	for (unsigned char c : raw) {
		bool must = strchr("%+&=", c) || c == 0 || c == '\r' || c == '\n';
		if (c == ' ' && r.chance(60)) { o += '+'; continue; }
		if (must || style == 2 || (style == 1 && !isalnum(c)) || (style == 3 && r.chance(40))) {
			const char *d = r.chance(50) ? up : lo;
			o += '%'; o += d[c >> 4]; o += d[c & 15];
		} else o += (char)c;
	}
	return o;
}

static void gen_form(Rng &r, ReqSpec &q) {
	size_t n = r.chance(5) ? r.range(30, 400) : r.below(9);
	str body; int style = r.below(4);
	std::vector<str> names;
	for (size_t i = 0; i < n; i++) {
		if (i) body += "&";
		int k = r.below(100);
		if (k < 4) continue; // an empty pair
		if (k < 8) { str s = "noequals" + r.alnum(r.chance(70) ? 4 : r.range(1, 300)); body += s; q.not_fields.push_back(s); continue; }
		if (k < 12) { str s = "badesc" + r.alnum(r.chance(70) ? 4 : r.range(1, 300)); body += s + "=" + r.pick(std::vector<str>{"%", "%4", "%zz", "ok%4", "%%41", "a%g1b"}); q.not_fields.push_back(s); continue; }
		if (k < 14) { str s = "badkey" + r.alnum(r.chance(70) ? 4 : r.range(1, 300)); body += s + r.pick(std::vector<str>{"%", "%4", "%zz"}) + "=v"; q.not_fields.push_back(s); continue; }
		str name = r.chance(20) && !names.empty() ? r.pick(names) : r.chance(4) ? str() : r.chance(10) ? r.alnum(r.range(200, 600)) : r.chance(20) ? r.chance(20) ? r.alnum(r.below(4)) + str(1, 0) + r.alnum(r.below(4)) : r.from("ab \xc3\xa9+&=%", 1 + r.below(10)) : r.chance(30) && !names.empty() ? r.pick(names) + "x" : r.alnum(1 + r.below(10));
		if (r.chance(4)) name = r.pick(std::vector<str>{"amp;", "amp;x", "quot;a", "a;b", "a[]", "a[0]", "a.b", " a", "a ", "a b", "?a", "#", "__proto__", "A", "a"});
		str value = r.chance(10) ? "" : r.chance(5) ? r.bytes(r.below(3000)) : r.chance(30) ? r.from("a =&%+\xff\xc3\xa9;\"<>", r.below(60)) : r.chance(10) ? str("\0x\0", 3) : r.alnum(r.below(40));
		names.push_back(name);
		q.fields[name] = value;
		str ev = urlencode(r, value, style);
		if (r.chance(3)) { str e = r.pick(std::vector<str>{"\n", "\r\n", "\r", " ", "\t"}); if (e == " ") { ev += "+"; q.fields[name] += " "; } else { ev += e; q.fields[name] += e; } } // kept as it is
		// everything after the first '=' is the value, further ones may stay unescaped
		if (r.chance(10) && ev.find('=') == str::npos) { ev += "=tail"; q.fields[name] += "=tail"; }
		body += urlencode(r, name, style) + "=" + ev;
	}
	if (r.chance(10)) body += "&";
	q.body = body;
	for (auto &p : q.fields) if (p.first.size() > 1 && r.chance(30)) { q.not_fields.push_back(p.first.substr(0, p.first.size() - 1)); q.not_fields.push_back(p.first + "y"); }
	q.not_fields.push_back("absent"); q.not_fields.push_back("");
	for (size_t i = 0; i < q.not_fields.size();) if (q.fields.count(q.not_fields[i])) q.not_fields.erase(q.not_fields.begin() + i); else i++;
	q.form = true;
}

static size_t range_hint; // size of a body the range may be meant for
static str gen_range(Rng &r) {
	auto num = [&]() -> uint64_t { if (r.chance(45)) { int64_t v = (int64_t)range_hint + r.range(-2, 2); return v < 0 ? 0 : v; } if (r.chance(40) && range_hint) return r.below(range_hint); switch (r.below(6)) { case 0: return 0; case 1: return r.below(4); case 2: return r.size(9000); case 3: return 4095 + r.below(3); case 4: return r.below(200000); default: return r.chance(50) ? r.next() >> 2 : r.below(1ull << 40); } };
	uint64_t a = num(), b = num();
	if (r.chance(8)) { // written with leading zeros, or with an end no number holds
		if (b < a) std::swap(a, b);
		str z = std::to_string(b);
		if (r.chance(30)) z = r.from("123456789", 1) + r.from("0123456789", r.range(18, 30));
		return "bytes=" + str(r.below(3), '0') + std::to_string(a) + "-" + str(r.below(3), '0') + z;
	}
	switch (r.below(12)) {
		case 0: case 1: case 2: if (b < a) std::swap(a, b); return fmt("bytes=%llu-%llu", (unsigned long long)a, (unsigned long long)b);
		case 3: case 4: return fmt("bytes=%llu-", (unsigned long long)a);
		case 5: return fmt("bytes=%llu-%llu", (unsigned long long)a, (unsigned long long)(a + r.below(3)));
		case 6: return fmt("bytes=-%llu", (unsigned long long)b);
		case 7: return fmt("bytes=%llu-%llu", (unsigned long long)a, (unsigned long long)b);
		case 8: return fmt("bytes=%llu-%llu,%llu-%llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)num(), (unsigned long long)num());
		case 9: return r.pick(std::vector<str>{"bytes=0-0", "bytes=00-00", "bytes=0-", "bytes=-", "bytes=", "bytes", "items=0-1", "bytes=a-b", "bytes=1-b", "bytes= 1-2", "bytes=1 -2", "bytes=99999999999999999999-", "bytes=0-99999999999999999999", "bytes=5", "Bytes=0-1", "bytes=--5", "bytes=3--5", "bytes=+1-2", "bytes=0x1-2", "bytes=%n", "%s%s%s%s%n", "bytes=%s-%s", "bytes=%d-%n", "%n%n%n%n"});
		case 10: return "bytes=" + r.from("0123456789-,", r.below(16));
		default: return r.from("bytes=-0123456789, ", r.below(24));
	}
}

static void gen_request(Rng &r, ReqSpec &q, const str &want_verb, const str &want_path) {
	q.verb = want_verb; q.path = want_path;
	str h = q.verb + " " + q.path + " HTTP/1." + (r.chance(80) ? "1" : "0") + "\r\n";
	std::vector<std::pair<str, str>> lines;
	auto add = [&](const str &n, str v) {
		while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
		while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
		if (q.headers.count(lower(n))) return false; q.headers[lower(n)] = v; lines.push_back({r.chance(10) ? random_case(r, n) : n, v}); return true; };
	if (r.chance(80)) add("Host", "localhost:" + std::to_string(r.below(65536)));
	if (r.chance(PROP == "C24" ? 75 : 40)) add(PROP == "C24" ? random_case(r, "User-Agent") : "User-Agent", r.from("Mozilla/5.0 (X11; %s) Gecko", PROP == "C24" && r.chance(10) ? r.below(900) : r.below(100)));
	if (r.chance(PROP == "C24" ? 60 : 20)) add("X-Real-IP", "10.0.0." + std::to_string(r.below(256)));
	if (r.chance(20)) add("Cookie", "a=1; session=" + r.alnum(20) + "; b=2");
	int extra = r.chance(50) ? r.below(4) : r.below(12);
	if (r.chance(4)) extra = r.range(20, 120);
	for (int i = 0; i < extra; i++) {
		str name = r.chance(30) ? r.pick(std::vector<str>{"X-Content-Length", "Content-Length-X", "X-Host", "Hos", "Hostname", "Content-Typ", "Accept", "Accept-Encoding", "X-Range", "Ranges", "User", "Content", "If-Range", "Cookie2"}) : token(r, r.range(2, 24)) + "q";
		str value;
		switch (r.below(6)) {
			case 0: value = r.pick(std::vector<str>{"Content-Length: 7", "Host: evil", "Cookie: session=evil", "Range: bytes=0-0", "Accept: */*", ":", "a:b:c"}); break;
			case 1: value = ""; break;
			case 2: value = r.from("abc ,;=:/\"%s\t\xc3\xa9", r.chance(10) ? r.below(3000) : r.below(80)); break;
			default: value = r.alnum(1 + r.below(40));
		}
		while (!value.empty() && (value.back() == ' ' || value.back() == '\t')) value.pop_back();
		while (!value.empty() && (value[0] == ' ' || value[0] == '\t')) value.erase(0, 1);
		if (r.chance(15)) { name = r.from("ABxyz", 1); if (r.chance(50)) value = ""; }
		add(name, value);
	}
	if (r.chance(2)) add("X-Huge", r.from("abcdefgh ", r.range(1000, 100000)) + "z");
	if (r.chance(PROP == "C05" ? 85 : 15)) { q.has_range = true; q.range = gen_range(r); while (!q.range.empty() && q.range.back() == ' ') q.range.pop_back(); while (!q.range.empty() && q.range[0] == ' ') q.range.erase(0, 1); add("Range", q.range); }
	bool form = r.chance(PROP == "C10" ? 95 : PROP == "C06" ? 40 : 15);
	if (form) {
		gen_form(r, q);
		add("Content-Type", r.chance(70) ? "application/x-www-form-urlencoded" : "application/x-www-form-urlencoded; charset=UTF-8");
	} else {
		if (r.chance(30)) add("Content-Type", r.pick(std::vector<str>{"application/json", "text/plain", "multipart/form-data; boundary=x"}));
		if (r.chance(PROP == "C02" ? 70 : 35)) {
			size_t n = r.chance(PROP == "C02" ? 4 : 1) ? r.below(r.chance(20) ? 1900000 : 300000) : r.size(6000);
			q.body = r.chance(50) ? filler(r, n) : r.bytes(n);
		}
	}
	str after;
	if (!q.body.empty() || r.chance(30)) {
		q.content_length = q.body.size();
		str cl = (r.chance(8) ? str(r.range(1, 3), '0') : str()) + std::to_string(q.body.size());
		int how = r.below(10);
		if (how == 0 && !form) { // less arrives than announced, then the client is done sending
			q.content_length = q.body.size() + 1 + r.below(2000);
			cl = std::to_string(q.content_length);
			q.end = SHUT;
		} else if (how == 1) after = filler(r, r.range(1, 2000)); // bytes past the body are not ours
		add(r.chance(70) ? "Content-Length" : random_case(r, "Content-Length"), cl);
	} else if (r.chance(20)) after = filler(r, r.range(1, 300));
	// order does not matter
	for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[r.below(i)]);
	for (auto &l : lines) {
		static const std::vector<str> seps = {": ", ": ", ": ", ":", ":  ", ":\t"};
		h += l.first + r.pick(seps) + l.second + (r.chance(5) ? " " : "") + "\r\n";
	}
	// lengths around those of buffers
	if (r.chance(PROP == "C02" ? 8 : 3)) {
		const size_t unit = r.pick(std::vector<size_t>{256, 512, 1024, 1024, 2048, 4096, 8192, 65536}), len = h.size() + strlen("Xpad:\r\n\r\n") + (r.chance(50) ? q.body.size() : 0);
		size_t pad = unit - len % unit + r.pick(std::vector<int>{0, 0, 0, 1, 2, 3, 4, -1, -2});
		if (pad > 2 * unit) pad += unit; // wrapped below zero
		h += "Xpad:" + r.alnum(pad) + "\r\n";
		H.stat("padded_requests");
	}
	h += "\r\n";
	q.raw_header = h;
	q.wire = h + q.body + after;
	if (r.chance(25)) q.end = SHUT;
}

static std::vector<str> split(Rng &r, const str &w, size_t header_len) {
	std::vector<str> out;
	std::set<size_t> cuts;
	switch (r.below(7)) {
		case 0: break; // one write
		case 1: if (w.size() < 3000) { for (size_t i = 1; i < w.size(); i++) cuts.insert(i); break; } // fall through
		case 2: { int n = 1 + r.below(12); for (int i = 0; i < n; i++) cuts.insert(r.below(w.size() + 1)); break; }
		case 3: for (size_t i = 1024; i < w.size(); i += 1024) cuts.insert(i + (r.chance(20) ? (int)r.below(3) - 1 : 0)); break;
		case 4: for (int d = -4; d <= 1; d++) if (r.chance(50) && (long)header_len + d > 0) cuts.insert(header_len + d); break;
		case 5: cuts.insert(header_len); break;
		default: { size_t step = 1 + r.below(200); if (w.size() / step > 5000) step = w.size() / 5000 + 1; for (size_t i = step; i < w.size(); i += step) cuts.insert(i); }
	}
	for (size_t i = 50000; i < w.size(); i += 50000) cuts.insert(i);
	size_t prev = 0;
	for (size_t c : cuts) { if (c <= prev || c >= w.size()) continue; out.push_back(w.substr(prev, c - prev)); prev = c; }
	out.push_back(w.substr(prev));
	return out;
}

// ---- oracle: response ----------------------------------------------------------

struct Parsed { str why; int code = 0; std::vector<std::pair<str, str>> h; str body; };

static Parsed parse_response(const str &w) {
	Parsed p;
	size_t e = w.find("\r\n\r\n");
	if (e == str::npos) { p.why = "no blank line ends the header"; return p; }
	str head = w.substr(0, e + 2); p.body = w.substr(e + 4);
	size_t i = 0; bool first = true;
	while (i < head.size()) {
		size_t j = head.find("\r\n", i);
		str line = head.substr(i, j - i);
		i = j + 2;
		for (unsigned char c : line) if ((c < 32 && c != '\t') || c == 127) { p.why = "control bytes in the header: " + show(line); return p; }
		if (first) {
			first = false;
			if (line.size() < 13 || line.compare(0, 7, "HTTP/1.") || !isdigit(line[7]) || line[8] != ' ' || !isdigit(line[9]) || !isdigit(line[10]) || !isdigit(line[11]) || line[12] != ' ') { p.why = "bad status line: " + show(line); return p; }
			p.code = atoi(line.substr(9, 3).c_str());
		} else {
			size_t c = line.find(':');
			if (c == str::npos || c == 0) { p.why = "bad header line: " + show(line); return p; }
			str v = line.substr(c + 1);
			while (!v.empty() && (v[0] == ' ' || v[0] == '\t')) v.erase(0, 1);
			while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.pop_back();
			p.h.push_back({line.substr(0, c), v});
		}
	}
	return p;
}

static int count_h(const Parsed &p, const char *n, str &v) { int k = 0; for (auto &h : p.h) if (lower(h.first) == n) { k++; v = h.second; } return k; }

static bool all_digits(const str &s) { return !s.empty() && s.find_first_not_of("0123456789") == str::npos; }

static str about; // short description of the case for messages

// Judges the bytes the client got against what the handler made.
static void judge_response(const str &got, const Behaviour &b, int code, const ReqSpec &q, bool builtin404) {
	Parsed p = parse_response(got);
	const bool ranged = q.has_range && code == 200 && !b.data.empty();
	const char *tag = q.has_range ? "C03 C05" : "C03";
	const bool file = b.kind == FILE_MAP || b.kind == FILE_RENDER;
	const char *btag = ranged ? "C03 C05 C09" : file ? "C03 C09" : builtin404 ? "C03 C04" : q.has_range ? "C03 C05" : "C03";
	if (!p.why.empty()) { bad(ranged ? "C03 C05 C09" : "C03 C04 C09", "response-malformed", p.why + " in " + show(got, 600) + about); return; }
	str v, cl;
	int ncl = count_h(p, "content-length", cl);
	if (ncl != 1 || !all_digits(cl)) { bad(tag, "response-content-length", fmt("%d Content-Length lines ('%s')", ncl, show(cl).c_str()) + about); return; }
	if (strtoull(cl.c_str(), 0, 10) != p.body.size()) bad(tag, "response-content-length", fmt("Content-Length %s, %zu bytes followed (status %d)", cl.c_str(), p.body.size(), p.code) + about);
	str ct; int nct = count_h(p, "content-type", ct);
	if (nct != 1) bad(tag, "response-content-type", fmt("%d Content-Type lines", nct) + about);
	else if (!builtin404 && b.judge_type && ct != b.expect_type) bad(file ? "C03 C05 C09" : tag, "response-content-type", fmt("Content-Type '%s', expected '%s' (file '%s')", show(ct).c_str(), b.expect_type.c_str(), b.path.c_str()) + about);
	// custom headers: exactly these, in this order
	if (!builtin404) {
		std::vector<std::pair<str, str>> mine;
		std::set<str> names; for (auto &h : b.headers) names.insert(h.first);
		for (auto &h : p.h) if (names.count(h.first)) mine.push_back(h);
		if (mine != b.headers) {
			str d = fmt("%zu custom header lines, expected %zu", mine.size(), b.headers.size());
			for (size_t i = 0; i < b.headers.size(); i++) if (i >= mine.size() || mine[i] != b.headers[i]) { d += "; line " + std::to_string(i) + " should be " + show(b.headers[i].first + ": " + b.headers[i].second, 80); break; }
			bad(tag, "response-custom-headers", d + about);
		}
	}
	// status and bytes
	if (builtin404) {
		if (p.code != 404) bad("C03 C04", "response-status", fmt("status %d instead of the built-in 404", p.code) + about);
		if (p.body.empty()) bad("C03 C04", "response-body", "the built-in 404 page is empty" + about);
		return;
	}
	if (b.missing) {
		if (p.code != 404) bad("C03 C09", "missing-file-status", fmt("status %d for the missing file '%s'", p.code, b.path.c_str()) + about);
		return;
	}
	if (!ranged) {
		if (p.code != code) bad(btag, "response-status", fmt("status %d, the handler returned %d", p.code, code) + about);
		if (p.body != b.data) { size_t i = 0; while (i < p.body.size() && i < b.data.size() && p.body[i] == b.data[i]) i++; bad(btag, "response-body", fmt("%zu body bytes instead of %zu, first difference at %zu", p.body.size(), b.data.size(), i) + about); }
		if (q.has_range && code == 200) H.stat("range_empty_body");
		return;
	}
	// Range: satisfiable "bytes=first-last" / "bytes=first-" within the resource?
	const size_t n = b.data.size();
	bool satisfiable = false; unsigned long long first = 0, last = 0;
	{
		const str &s = q.range;
		size_t d = s.find('-');
		if (s.compare(0, 6, "bytes=") == 0 && d != str::npos) {
			str a = s.substr(6, d - 6), z = s.substr(d + 1);
			if (all_digits(a) && a.size() <= 18 && (z.empty() || all_digits(z))) {
				first = strtoull(a.c_str(), 0, 10);
				last = z.empty() ? n - 1 : strtoull(z.c_str(), 0, 10); // the largest number if it is larger still
				satisfiable = first < n && (z.empty() || last >= first);
				if (last >= n) last = n - 1;
			}
		}
	}
	str cr; int ncr = count_h(p, "content-range", cr);
	if (p.code == 206) {
		unsigned long long x, y, t; int used = 0;
		if (ncr != 1 || sscanf(cr.c_str(), "bytes %llu-%llu/%llu%n", &x, &y, &t, &used) != 3 || (size_t)used != cr.size()) { bad("C05", "range-label", fmt("206 with Content-Range '%s' (x%d) for Range '%s' of %zu bytes", show(cr).c_str(), ncr, show(q.range).c_str(), n) + about); return; }
		if (t != n || x > y || y >= n) { bad("C05", "range-label", fmt("Content-Range '%s' of a resource of %zu bytes (Range '%s')", cr.c_str(), n, show(q.range).c_str()) + about); return; }
		if (p.body != b.data.substr(x, y - x + 1)) bad("C05", "range-bytes", fmt("the %zu bytes sent are not bytes %llu-%llu of the resource (Range '%s', size %zu)", p.body.size(), x, y, show(q.range).c_str(), n) + about);
		if (satisfiable && (x != first || y != last)) bad("C05", "range-wrong-part", fmt("Range '%s' of %zu bytes answered with %llu-%llu, expected %llu-%llu", show(q.range).c_str(), n, x, y, first, last) + about);
		H.stat(satisfiable ? "range_satisfied" : "range_other_206");
	} else {
		if (satisfiable) bad("C05", "range-ignored", fmt("Range '%s' of %zu bytes answered with %d", show(q.range).c_str(), n, p.code) + about);
		else if (p.code == 416) H.stat("range_416");
		else {
			if (p.code != 200) bad("C05", "range-status", fmt("Range '%s' of %zu bytes answered with %d", show(q.range).c_str(), n, p.code) + about);
			if (ncr != 0) bad("C05", "range-label", fmt("a %d with Content-Range '%s'", p.code, show(cr).c_str()) + about);
			if (p.body != b.data) bad("C05 C03", "range-full-body", fmt("Range '%s': %zu bytes instead of the whole %zu", show(q.range).c_str(), p.body.size(), n) + about);
			H.stat("range_full_200");
		}
	}
}

// ---- one connection --------------------------------------------------------------

struct Outcome { bool responded = false; bool generated = false; long steps = 0; };

static void open_conn(Conn &c) {
	int sv[2];
	if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) { perror("socketpair"); _exit(70); }
	c.lib = sv[0]; c.peer = sv[1];
	C = &c;
}

static Outcome serve(Conn &c, const m38_app &app) {
	Outcome o;
	G->generating = true;
	m38_handled_request *h = m38_generate_response(c.lib, &app);
	G->generating = false;
	if (h) {
		o.generated = true;
		// every call either sends something, is interrupted, or ends the response
		while (h) {
			h = m38_send_response(h);
			o.steps++;
			if (o.steps > 20000000) { bad("C03 C06 C01", "send-endless", "the response never ends"); _exit(10); }
		}
		drain();
	}
	return o;
}

static void close_conn(Conn &c, bool lib_should_have) {
	if (c.closes == 0) { if (lib_should_have) bad("C06 C01", "fd-not-closed", "the connection's descriptor was not closed" + about); __real_close(c.lib); }
	if (c.closes > 1) bad("C06 C01 C07", "fd-closed-twice", fmt("the connection's descriptor was closed %d times", c.closes) + about);
	if (c.peer >= 0) __real_close(c.peer);
	C = NULL;
}

static int filler_handler(const m38_http_request *, m38_http_response *res) { G->filler_calls++; res->out = (unsigned char *)"wrong"; res->outsize = 5; return 200; }

struct AppBox {
	int sock = -1; std::vector<m38_route> routes; m38_app app;
	AppBox(const Case &g) : app{} {
		app.main_sock_fd = &sock; app.num_threads = 1;
		size_t total = g.routes.size();
		for (int n : g.fill) total += n;
		const_cast<int &>(app.num_routes) = (int)total;
		for (size_t i = 0; i < g.routes.size(); i++) {
			for (int k = 0; i < g.fill.size() && k < g.fill[i]; k++) {
				m38_route f = {};
				snprintf(f.verb, sizeof f.verb, "%s", k % 3 ? "GET" : "LINK");
				snprintf(f.name, sizeof f.name, "other %d", k);
				snprintf(f.route_match, sizeof f.route_match, k % 3 ? "^/other/%zu-%d$" : "^.*$", i, k);
				f.handler = filler_handler;
				routes.push_back(f);
			}
			m38_route r = {};
			snprintf(r.verb, sizeof r.verb, "%s", g.routes[i].verb.c_str());
			snprintf(r.name, sizeof r.name, "route %zu", i);
			snprintf(r.route_match, sizeof r.route_match, "%s", g.routes[i].pattern.c_str());
			r.expected_matches = g.routes[i].groups;
			r.handler = HANDLERS[i];
			r.cleanup = g.routes[i].b.has_cleanup ? CLEANUPS[i] : NULL;
			routes.push_back(r);
		}
		app.routes = routes.data();
		if (g.custom404) {
			if (g.cleanup404 && g.b404.data.size() % 2) m38_set_404_cleanup(&app, CLEANUPS[MAXR]);
			// Setting either again replaces it.
			if (g.b404.data.size() % 3 == 0) { m38_set_404_handler(&app, HANDLERS[0]); if (g.cleanup404) m38_set_404_cleanup(&app, CLEANUPS[0]); }
			m38_set_404_handler(&app, HANDLERS[MAXR]);
			if (g.cleanup404) m38_set_404_cleanup(&app, CLEANUPS[MAXR]);
		}
	}
	~AppBox() { free(app.r_404_route); }
};

static void gen_routes(Rng &r, Case &g) {
	static const std::vector<std::pair<str, size_t>> pats = {
		{"^/$", 0}, {"^/a$", 0}, {"^/b/([0-9]+)$", 1}, {"^/b/([0-9]+)/(edit|view)$", 2}, {"^/static/(.*)$", 1}, {"^/user/([a-z]+)/post/([0-9]+)$", 2},
		{"^.*$", 0}, {"/x", 0}, {"^/([a-z])/([a-z])/([a-z])$", 3}, {"^/a/?$", 0}, {"\\.html", 0}, {"^/(a)?(b)?", 2}, {"([0-9]+)", 1}, {"^/nothing-matches-this$", 0}, {"^/(static|user)/", 1}, {"^\\*$", 0},
		{"^/((((([a-z])/?)[^/]*)/?)(.*))$", 6}, {"^(/([a-z]*)(/([a-z0-9]*)(/([a-z]*))?)?)$", 6}, {"^/(.)(.)(.)(.)(.)(.)(.)", 7}, {"(/|\\?).$", 1}, {"^/[A-Z]", 0}, {"^/[^a-z]*$", 0}};
	static const std::vector<str> verbs = {"GET", "GET", "GET", "POST", "PUT", "DELETE", "OPTIONS", "PATCH", "GE", "get", "Get", "pOST", "m-search", "GETS"};
	// patterns alike for most of their length
	str prefix;
	if (r.chance(PROP == "C04" ? 15 : 2)) { prefix = str("abcdefghijklmnopqrstuvwxyz0-9/_.?=") + str(r.pick(std::vector<int>{0, 0, 10, 40, 80, 140, 190}), 'q'); prefix = "^/[" + prefix + "]*"; H.stat("alike_patterns"); }
	size_t n = r.chance(5) ? 0 : 1 + r.below(PROP == "C04" ? MAXR : 3);
	if (PROP == "C05" || PROP == "C09") n = r.chance(80) ? 0 : 1;
	for (size_t i = 0; i < n; i++) {
		auto &p = r.pick(pats);
		RouteSpec s{r.pick(verbs), p.first, std::min<size_t>(MAX_MATCHES - 1, r.chance(80) ? p.second : r.below(p.second + 1)), gen_behaviour(r, false)};
		if (!prefix.empty() && r.chance(80)) { s.pattern = prefix + r.pick(std::vector<str>{"1", "js$", "[0-9]$", "/$", "x", "e", "html", "edit$", "t/7", "[b2]$", "A", "$"}); s.groups = 0; }
		// a route that declines: 404 without a body
		if (r.chance(8)) { s.b.kind = NO_BODY; s.b.code = 404; s.b.data.clear(); if (r.chance(50)) s.b.headers.clear(); if (r.chance(70)) s.b.mime.clear(); s.b.missing = false; s.b.judge_type = true; s.b.expect_type = "text/html"; s.b.empty_out = r.chance(50); }
		g.routes.push_back(s);
	}
	if (PROP != "C04" && r.chance(93)) { g.routes.push_back({"GET", "^.*$", 0, gen_behaviour(r, false)}); g.routes.push_back({"POST", "^.*$", 0, gen_behaviour(r, false)}); }
	while (g.routes.size() > MAXR) g.routes.pop_back();
	if (PROP == "C04" && !g.routes.empty() && r.chance(8)) { // long tables
		for (size_t i = 0; i < g.routes.size(); i++) g.fill.push_back(r.chance(50) ? 0 : r.below(r.chance(50) ? 40 : 300));
		H.stat("long_tables");
	}
	g.custom404 = r.chance(60);
	g.b404 = gen_behaviour(r, true);
	g.b404.headers.clear();
	g.cleanup404 = g.custom404 && g.b404.has_cleanup;
}

static str tmpl_case_desc(const ReqSpec &q, const Case &g) { return fmt(" [%s %s, %zu header bytes, %zu body bytes, %zu routes]", q.verb.c_str(), show(q.path, 60).c_str(), q.raw_header.size(), q.body.size(), g.routes.size()); }

static const std::vector<str> VERBS = {"GET", "POST", "PUT", "DELETE", "HEAD", "PROPFIND", "G", "VERYLONGVERBABC", "get", "Get", "pOST", "post", "m-search", "GETS"};

static void exchange(Rng &r, Case &g, AppBox &box, ReqSpec &q);

// The same request with another body of the same header size.
static bool other_body(Rng &r, ReqSpec &q) {
	if (q.form || q.content_length != (long)q.body.size() || q.body.empty() || q.body.size() > 100000) return false;
	str old = std::to_string(q.body.size());
	size_t lo = 1; for (size_t i = 1; i < old.size(); i++) lo *= 10;
	size_t n = r.chance(30) ? q.body.size() : (size_t)r.range(lo, lo * 10 - 1);
	size_t at = lower(q.raw_header).find("\r\ncontent-length:");
	if (at == str::npos) return false;
	at = q.raw_header.find_first_of("0123456789", at);
	if (q.raw_header.compare(at, old.size() + 1, old + "\r") != 0) return false;
	q.raw_header.replace(at, old.size(), std::to_string(n));
	q.headers["content-length"] = std::to_string(n);
	q.body = r.chance(50) ? filler(r, n) : r.bytes(n);
	q.content_length = n; q.wire = q.raw_header + q.body; q.end = STALL;
	return true;
}

// Other bytes under the names of the files the routes serve.
static std::vector<std::pair<str, str>> rewritten;
static void rewrite_files(Rng &r, Case &g) {
	for (auto &x : g.routes) {
		Behaviour &b = x.b;
		if (b.kind != FILE_MAP || b.missing || b.map_fault || b.open_fault) continue;
		bool known = false; for (auto &w : rewritten) known = known || w.first == b.path;
		if (!known) rewritten.push_back({b.path, b.data});
		size_t n = r.chance(50) ? b.data.size() : r.size(20000);
		str d = r.bytes(n);
		put_file(b.path, d);
		for (auto &y : g.routes) if (y.b.kind == FILE_MAP && y.b.path == b.path) y.b.data = d;
		H.stat("files_rewritten");
	}
}

// ---- C24: the access log ------------------------------------------------------------

static int log_fd = -1;
static void open_log() {
	log_fd = memfd_create("log", 0);
	if (log_fd < 0 || fcntl(log_fd, F_SETFL, O_APPEND) || dup2(log_fd, 1) < 0) _exit(70);
}
static str take_log() {
	fflush(stdout);
	str s(lseek(log_fd, 0, SEEK_END), 0);
	if (pread(log_fd, &s[0], s.size(), 0) != (ssize_t)s.size() || ftruncate(log_fd, 0)) _exit(70);
	return s;
}
static const str FORGED = "Feb 30 00:00:00 [\x1b[36m~\x1b[0m] 6.6.6.6 \"GET /forged\" 200 5 \"nobody\"";
static bool has_control(const str &s) { for (unsigned char c : s) if (c < 32 || c == 127) return true; return false; }
// The text of a record, level markers removed; false if the line is no record.
static bool record_text(const str &line, str &text, bool &access_level) {
	size_t m = line.find(" [\x1b[");
	if (m == str::npos || m > 40) return false;
	size_t e = line.find("\x1b[0m] ", m);
	if (e == str::npos || e > m + 12) return false;
	access_level = line.compare(m, 8, " [\x1b[36m~") == 0;
	text = line.substr(e + 6);
	return true;
}
static void judge_log(const ReqSpec &q, const Conn &c, bool generated) {
	const str log = take_log();
	std::vector<str> lines;
	for (size_t i = 0; i < log.size();) { size_t j = log.find('\n', i); if (j == str::npos) j = log.size(); lines.push_back(log.substr(i, j - i)); i = j + 1; }
	std::vector<str> access;
	for (auto &l : lines) {
		str t; bool a = false;
		if (!record_text(l, t, a)) { bad("C24", "log-line-not-a-record", "the log holds the line '" + show(l, 300) + "'" + about); return; }
		if (!l.compare(0, 6, "Feb 30")) { bad("C24", "log-forged", "the client's text stands in the log as a record of its own: '" + show(l, 300) + "'" + about); return; }
		if (a) access.push_back(t);
	}
	H.stat("log_lines", lines.size());
	if (!generated) { if (!access.empty()) bad("C24", "access-unanswered", "a request that got no response was recorded: '" + show(access[0], 300) + "'" + about); return; }
	auto hdr = [&](const char *n, const char *none) { auto it = q.headers.find(n); return it == q.headers.end() ? str(none) : it->second; };
	const str ip = hdr("x-real-ip", "NOIP"), ua = hdr("user-agent", "NOUSERAGENT");
	if (access.size() != 1) { bad("C24", "access-count", fmt("%zu access records for one request", access.size()) + about); return; }
	H.stat("access_records");
	if (has_control(ip + ua + q.verb + q.path)) { H.stat("control_bytes"); return; }
	const str who = ip + " \"" + q.verb + " " + q.path + "\" ", rec = access[0];
	const str common = rec.substr(0, who.size()), wanted = who.substr(0, common.size());
	if (common != wanted || (rec.size() < who.size() && rec.size() < 700)) { bad("C24", "access-request", "access record '" + show(rec, 400) + "' does not start with '" + show(who, 400) + "'" + about); return; }
	if (c.failed_send || rec.size() > 700 || who.size() + ua.size() > 700) return;
	Parsed p = parse_response(c.got);
	if (!p.why.empty()) return;
	std::vector<size_t> sizes = {p.body.size()};
	str v; if (p.code == 206 && count_h(p, "content-range", v) == 1 && v.find('/') != str::npos) sizes.push_back(strtoull(v.c_str() + v.find('/') + 1, NULL, 10));
	bool ok = false;
	for (size_t n : sizes) ok = ok || rec == who + fmt("%d %zu \"", p.code, n) + ua + "\"";
	if (!ok) bad("C24", "access-record", "access record '" + show(rec, 400) + fmt("' for an answer of status %d with %zu bytes", p.code, p.body.size()) + about);
	else H.stat("access_compared");
}
// Clients put line ends and whole records where the log will show them.
static void gen_injection(Rng &r, ReqSpec &q) {
	auto put = [&](const str &name, const str &value) {
		if (q.headers.count(lower(name))) return;
		size_t at = q.raw_header.find("\r\n") + 2;
		str line = name + ": " + value + "\r\n";
		q.raw_header.insert(at, line); q.wire.insert(at, line);
		q.headers[lower(name)] = value;
	};
	const std::vector<str> ends = {"\n", "\n", "\r", "\n\n", "\x1b[2K\r", "\v", "\x7f"};
	for (const char *n : {"User-Agent", "X-Real-IP", "Range"}) if (r.chance(50)) put(n, (r.chance(50) ? "bytes=1-2" : r.alnum(r.below(10))) + r.pick(ends) + (r.chance(70) ? FORGED : r.alnum(r.below(30))) + (r.chance(50) ? r.pick(ends) + "x" : str()));
	H.stat("injections");
}

static void roundtrip(uint64_t seed) {
	Rng r(seed);
	Case g; G = &g;
	gen_routes(r, g);
	ReqSpec q;
	range_hint = g.routes.empty() ? 0 : r.pick(g.routes).b.data.size();
	str verb = PROP != "C04" && r.chance(85) ? r.chance(60) ? "GET" : "POST" : r.chance(70) ? (g.routes.empty() ? "GET" : r.pick(g.routes).verb) : r.pick(VERBS);
	gen_request(r, q, verb, gen_path(r));
	if (PROP == "C24" && r.chance(15)) gen_injection(r, q);
	AppBox box(g);
	exchange(r, g, box, q);
	// the same application goes on serving
	for (int more = r.chance(20) ? r.below(4) : 0; more > 0; more--) {
		H.stat("follow_ups"); H.stat("cases");
		int how = r.below(6);
		if (how == 0 || (how < 3 && other_body(r, q))) ;
		else {
			str v = how == 3 ? r.chance(70) && !g.routes.empty() ? r.pick(g.routes).verb : r.pick(VERBS) : q.verb, p = how == 4 ? gen_path(r) : q.path;
			q = ReqSpec();
			gen_request(r, q, v, p);
		}
		if (r.chance(50)) rewrite_files(r, g);
		g.again();
		exchange(r, g, box, q);
	}
	for (auto &w : rewritten) put_file(w.first, w.second);
	std::vector<std::pair<str, str>>().swap(rewritten);
	G = NULL;
	str().swap(about);
}

static void exchange(Rng &r, Case &g, AppBox &box, ReqSpec &q) {
	for (auto &p : q.headers) if (r.chance(50)) g.ask_headers.push_back(random_case(r, p.first));
	for (const char *n : {"Host", "Content-Length", "Content-Type", "Cookie", "Range", "X-Absent", "Conten", "Content-Length-", "session", "a", "q", "HTTP", "GET"}) if (r.chance(30)) g.ask_headers.push_back(n);
	for (auto &p : q.fields) g.ask_form.push_back(p.first);
	for (auto &n : q.not_fields) g.ask_form.push_back(n);
	about = tmpl_case_desc(q, g);
	H.note(about + " " + show(q.wire, 1500));

	Conn c; c.rng = Rng(r.next());
	c.seg = split(r, q.wire, q.raw_header.size());
	c.end = q.end;
	if (r.chance(25)) c.recv_eintr = r.below(50);
	if (r.chance(40)) c.recv_short = r.range(5, 95);
	if (q.wire.size() > 100000) c.recv_short = std::min(c.recv_short, 10);
	if (r.chance(30)) c.send_eintr = r.below(60);
	if (r.chance(60)) c.send_short = r.range(5, 100);
	bool faulty_send = r.chance(PROP == "C06" ? 50 : 8);
	if (faulty_send) {
		c.send_fail_at = r.chance(20) ? 0 : r.chance(50) ? r.below(200) : r.size(20000);
		static const int errs[] = {EPIPE, ECONNRESET, ETIMEDOUT, ENOTCONN, EHOSTUNREACH};
		c.send_errno = errs[r.below(5)];
		c.peer_quits = r.chance(40);
	}
	const int maps_before = nmaps; bad_unmaps = 0;
	// a process without standard input gets descriptor 0 for whatever it opens first
	const int zero = r.chance(4) ? 1 + r.below(2) : 0;
	if (zero == 1) __real_close(0);
	open_conn(c);
	if (zero == 2) __real_close(0);
	if (zero) H.stat("descriptor_zero");
	Outcome o = serve(c, box.app);
	if (zero == 2 && __real_open("/dev/null", O_RDONLY) != 0) bad("C06 C09", "fd-leak", "descriptor 0 is still open after the connection" + about);

	// -- which route should have been taken (independent first-match model)
	int want = -1; regmatch_t wm[MAX_MATCHES]; memset(wm, 0, sizeof wm);
	for (size_t i = 0; i < g.routes.size() && want < 0; i++) {
		if (g.routes[i].verb != q.verb) continue;
		regex_t re; if (regcomp(&re, g.routes[i].pattern.c_str(), REG_EXTENDED)) _exit(70);
		regmatch_t m[MAX_MATCHES]; memset(m, 0, sizeof m);
		if (regexec(&re, q.path.c_str(), MAX_MATCHES, m, 0) == 0) { want = i; memcpy(wm, m, sizeof m); }
		regfree(&re);
	}
	const bool declined = want >= 0 && g.routes[want].b.kind == NO_BODY && g.routes[want].b.code == 404;
	const bool to404 = want < 0 || declined;
	const int producer = to404 ? (g.custom404 ? MAXR : -1) : want;

	if (!o.generated) {
		bad("C02 C03 C04 C05 C09 C10 C06", "no-response", fmt("a well-formed request got no response (%zu of %zu bytes read, %d segments, end %d, stalls %d)", c.consumed, q.wire.size(), (int)c.seg.size(), c.end, c.stalls) + about);
		close_conn(c, false);
	} else {
		if (c.stalls) bad("C02 C08", "waits-for-more", "the library waits for more after the whole request arrived" + about);
		// -- routing
		int calls = 0; for (int i = 0; i < MAXR; i++) calls += g.seen[i].calls;
		if (want >= 0 && (calls != 1 || g.seen[want].calls != 1)) bad("C04", "wrong-route", fmt("route %d should handle %s %s; calls: %d in total, %d there", want, q.verb.c_str(), show(q.path, 100).c_str(), calls, g.seen[want].calls) + about);
		if (g.filler_calls) bad("C04", "wrong-route", fmt("a route that does not match %s %s was used", q.verb.c_str(), show(q.path, 100).c_str()) + about);
		if (want < 0 && calls != 0) bad("C04", "wrong-route", fmt("no route matches %s %s but a handler ran", q.verb.c_str(), show(q.path, 100).c_str()) + about);
		if (g.seen[MAXR].calls != (producer == MAXR ? 1 : 0)) bad("C04", "wrong-404-handler", fmt("the custom 404 handler ran %d times", g.seen[MAXR].calls) + about);
		if (want >= 0 && g.seen[want].calls == 1 && g.routes[want].groups > 0)
			for (size_t k = 0; k <= g.routes[want].groups; k++) if (g.seen[want].m[k].rm_so != wm[k].rm_so || g.seen[want].m[k].rm_eo != wm[k].rm_eo) { bad("C04", "wrong-captures", fmt("capture %zu of '%s' on '%s' is %d-%d, expected %d-%d", k, g.routes[want].pattern.c_str(), show(q.path, 100).c_str(), (int)g.seen[want].m[k].rm_so, (int)g.seen[want].m[k].rm_eo, (int)wm[k].rm_so, (int)wm[k].rm_eo) + about); break; }
		H.stat(want < 0 ? "unrouted" : declined ? "declined" : "routed");
		// -- what the handler saw
		int at = want >= 0 && g.seen[want].calls ? want : producer == MAXR && g.seen[MAXR].calls ? MAXR : -1;
		if (at >= 0) {
			Seen &s = g.seen[at];
			if (s.verb != q.verb) bad("C02", "request-verb", fmt("method '%s' instead of '%s'", show(s.verb).c_str(), q.verb.c_str()) + about);
			if (s.path != q.path) bad("C02 C04", "request-path", fmt("path '%s' instead of '%s'", show(s.path).c_str(), show(q.path).c_str()) + about);
			if (s.header_len != q.raw_header.size() || s.header != q.raw_header) bad("C02", "request-header", fmt("header text of %zu bytes instead of %zu", s.header_len, q.raw_header.size()) + about);
			if (s.body_len != q.body.size() || s.body != q.body) bad("C02 C10", "request-body", fmt("body of %zu bytes instead of %zu, or other bytes (Content-Length %ld)", s.body_len, q.body.size(), q.content_length) + about);
			for (auto &h : s.headers) {
				auto it = q.headers.find(lower(h.name));
				H.stat("header_lookups");
				if (it == q.headers.end()) { if (h.found) bad("C02", "header-phantom", fmt("header '%s' is absent but '%s' was found", h.name.c_str(), show(h.value).c_str()) + about); }
				else if (!h.found) bad("C02", "header-lost", fmt("header '%s' not found", h.name.c_str()) + about);
				else if (h.value != it->second) bad("C02", "header-value", fmt("header '%s' is '%s' instead of '%s'", h.name.c_str(), show(h.value).c_str(), show(it->second).c_str()) + about);
			}
			if (q.form && !s.has_form) bad("C10", "form-missing", "no form elements for a form-encoded body" + about);
			if (!q.form && s.has_form) bad("C10", "form-phantom", "form elements without a form-encoded body" + about);
			for (auto &f : s.form) {
				auto it = q.fields.find(f.name);
				H.stat(it == q.fields.end() ? "form_absent" : "form_fields");
				if (it == q.fields.end()) { if (f.found) bad("C10", "form-phantom", fmt("field '%s' was not submitted but found with '%s'", show(f.name, 80).c_str(), show(f.value, 80).c_str()) + about + " body " + show(q.body, 300)); }
				else if (!f.found) bad("C10", "form-lost", fmt("field '%s' not found", show(f.name, 80).c_str()) + about + " body " + show(q.body, 300));
				else if (f.value != it->second) bad("C10", "form-value", fmt("field '%s' is '%s' (%zu bytes) instead of '%s' (%zu bytes)", show(f.name, 80).c_str(), show(f.value, 80).c_str(), f.value.size(), show(it->second, 80).c_str(), it->second.size()) + about + " body " + show(q.body, 300));
			}
			H.stat("requests_compared");
			H.stat("request_bytes", q.wire.size());
		}
		if (g.insert_failed) bad("C03", "header-insert-failed", fmt("%d custom headers were refused", g.insert_failed) + about);
		// -- file handlers
		if (producer >= 0 && producer < MAXR && g.seen[producer].calls) {
			const Behaviour &b = g.routes[producer].b;
			if (b.kind == FILE_MAP || b.kind == FILE_RENDER) {
				H.stat(b.missing ? "files_missing" : b.kind == FILE_MAP ? "files_served" : "files_rendered");
				if (g.returned[producer] != b.code) bad("C09", "file-status", fmt("serving '%s' returned %d, expected %d", b.path.c_str(), g.returned[producer], b.code) + about);
			}
		}
		// -- what the client got
		const bool know_producer = producer < 0 || g.seen[producer].calls == 1;
		if (know_producer && !c.failed_send) {
			Behaviour builtin; const Behaviour &b = producer < 0 ? builtin : producer == MAXR ? g.b404 : g.routes[producer].b;
			if (declined && !g.routes[want].b.mime.empty()) g.b404.judge_type = g.b404.judge_type && !g.b404.mime.empty();
			judge_response(c.got, b, producer < 0 ? 404 : g.returned[producer], q, producer < 0);
			H.stat("responses_compared"); H.stat("response_bytes", c.got.size());
			if (!b.headers.empty()) H.stat("with_custom_headers");
			static const char *kinds[] = {"kind_static", "kind_heap", "kind_raw", "kind_file", "kind_rendered", "kind_none"};
			H.stat(kinds[b.kind]);
		}
		if (c.failed_send) H.stat("send_failures");
		// -- clean-up
		if (know_producer && producer >= 0) {
			const Behaviour &b = producer == MAXR ? g.b404 : g.routes[producer].b;
			bool has = producer == MAXR ? g.cleanup404 : b.has_cleanup;
			int n = g.cleanups[producer];
			if (has && n != 1) bad("C06", "cleanup-count", fmt("the clean-up ran %d times (send failed: %d)", n, c.failed_send) + about);
			if (has && n == 1 && !!RESPONSE_OK(g.cleanup_status[producer]) != !!RESPONSE_OK(g.returned[producer])) bad("C06", "cleanup-status", fmt("the clean-up was told %d, the handler returned %d (send failed: %d)", g.cleanup_status[producer], g.returned[producer], c.failed_send) + about);
			if (has) H.stat("cleanups");
			for (int i = 0; i <= MAXR; i++) if (i != producer && i != want && g.cleanups[i]) bad("C06", "cleanup-foreign", fmt("the clean-up of route %d ran, %d produced the response", i, producer) + about);
		}
		close_conn(c, true);
	}
	if (PROP == "C24") judge_log(q, c, o.generated);
	if (zero == 1 && __real_open("/dev/null", O_RDONLY) != 0) bad("C06 C09", "fd-leak", "descriptor 0 is still open after the connection" + about);
	if (bad_unmaps) bad("C06 C09", "munmap", fmt("%d wrong unmappings", bad_unmaps) + about);
	if (nmaps != maps_before) { bad("C06 C09", "mapping-leak", fmt("%d mappings left behind", nmaps - maps_before) + about); while (nmaps > maps_before) { nmaps--; __real_munmap(maps[nmaps].p, maps[nmaps].n); } }
	uint64_t sig = hash64(q.wire); sig = hash64(&c.recvs, sizeof c.recvs, sig); sig = hash64(&c.sends, sizeof c.sends, sig);
	if (o.generated) H.nontrivial(sig);
	H.sample(about + " -> " + show(c.got, 200));
	H.stat("recv_calls", c.recvs); H.stat("send_calls", c.sends); H.stat("segments", c.seg.size());
}

// ---- C01: hostile bytes ------------------------------------------------------------

static str mutate(Rng &r, str w) {
	int n = 1 + r.below(r.chance(30) ? 12 : 3);
	static const std::vector<str> bits = {"\r\n", "\r\n\r\n", "\n", " ", ":", "Content-Length: ", "Content-Length: -1\r\n", "Content-Length: 99999999999999999999\r\n", "Content-Length: 4294967296\r\n", "Content-Length: 2097152\r\n", "Content-Length:\r\n", "Range: bytes=", "Range: bytes=-\r\n", "Range: bytes=9-1\r\n", "Range: %s%s%s%n%n\r\n", "Range: bytes=%n-%s\r\n", "Range: bytes %n%n\r\n", "Cookie: session=%s%n\r\n", "Host: %n%s%s%s\r\n", "%n%s%n%s", "%", "%0", "=&", "&&", "+",
		str("\0", 1), str("\0\0\0\0", 4), "Content-Type: application/x-www-form-urlencoded\r\n", "Cookie: ", "Cookie: session", "Cookie: session=\r\n", "Host\r\n", "X-Real-IP:\r\n", "User-Agent: %s%s%n\r\n", "GET", "\xff", "GET / HTTP/1.1\r\n\r\n", "\t", "bytes=18446744073709551615-18446744073709551615"};
	for (int i = 0; i < n; i++) {
		size_t p = r.below(w.size() + 1);
		size_t hdr = std::min<size_t>(w.size(), 400);
		if (r.chance(60)) p = r.below(hdr + 1);
		switch (r.below(9)) {
			case 0: w = w.substr(0, p); break;
			case 1: if (p < w.size()) w.erase(p, 1 + r.below(6)); break;
			case 2: w.insert(p, r.pick(bits)); break;
			case 3: if (p < w.size()) w[p] = (char)r.below(256); break;
			case 4: w.insert(p, r.bytes(r.below(20))); break;
			case 5: w.insert(p, str(r.chance(10) ? r.below(60000) : r.below(1500), r.pick(std::vector<char>{'A', ' ', '\r', '\n', '%', '=', '&', ';', '0', '9', '-', ':'}))); break;
			case 6: { size_t e = w.find("\r\n", p); if (e != str::npos) w.erase(e, 1 + r.below(2)); break; }
			case 7: { size_t e = p + r.below(200); if (p < w.size()) w.insert(r.below(w.size() + 1), w.substr(p, e - p)); break; }
			default: { size_t s = w.find(' '); if (s != str::npos && r.chance(50)) w.insert(s, r.alnum(r.below(r.chance(50) ? 30 : 1200))); else { s = w.find(' ', s == str::npos ? 0 : s + 1); if (s != str::npos) w.insert(s, r.alnum(r.below(r.chance(50) ? 520 : 3000))); } }
		}
	}
	return w;
}

static void hostile(uint64_t seed) {
	Rng r(seed);
	Case g; G = &g;
	g.ask_cookie = true;
	for (const char *n : {"Host", "Content-Length", "Content-Type", "Cookie", "Range", "X-Absent", "A", "Content"}) g.ask_headers.push_back(n);
	for (const char *n : {"a", "", "field", "%", "noequals"}) g.ask_form.push_back(n);
	{
		Behaviour b = gen_behaviour(r, false); g.routes.push_back({"GET", "^/(.*)$", 1, b});
		b = gen_behaviour(r, false); g.routes.push_back({"POST", "^.*$", 0, b});
		b = gen_behaviour(r, false); g.routes.push_back({r.chance(50) ? "PUT" : "G", "^/([^/]*)/?(.*)$", 2, b});
		for (auto &x : g.routes) if (x.b.data.size() > 20000) x.b.data.resize(20000);
	}
	g.custom404 = r.chance(50); g.b404 = gen_behaviour(r, true); g.cleanup404 = g.custom404 && g.b404.has_cleanup;
	str w;
	int kind = r.below(100);
	ReqSpec q;
	gen_request(r, q, r.pick(std::vector<str>{"GET", "POST", "PUT"}), gen_path(r));
	if (kind < 70) w = mutate(r, q.wire.substr(0, 30000));
	else if (kind < 78) w = r.bytes(r.size(3000));
	else if (kind < 86) w = r.from("GET / \r\n:%=&;", r.size(400));
	else if (kind < 94) w = q.wire.substr(0, r.below(q.wire.size() + 1)); // cut anywhere
	else if (kind < 97) w = (r.chance(30) ? r.alnum(r.range(13, 18)) : str("GET")) + " /" + r.alnum(r.chance(60) ? r.range(505, 515) : r.range(400, 1300)) + " HTTP/1.1\r\n" + (r.chance(50) ? "\r\n" : "");
	else if (kind < 98) { w = "POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n"; str b = r.from("%=&+a1", r.size(5000)); w += "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; }
	else if (r.chance(85)) { w = "GET / HTTP/1.1\r\n" + str(r.chance(10) ? 2200000 : 90000, 'h'); }
	else { size_t n = MAX_REQUEST_SIZE + 100000 + r.below(300000); w = "POST / HTTP/1.1\r\nContent-Length: " + std::to_string(r.chance(80) ? n : n * 1000) + "\r\n\r\n"; w.resize(n, 'b'); }
	about = " [hostile " + show(w, 700) + "]";
	H.note(about);
	Conn c; c.rng = Rng(r.next());
	c.seg = split(r, w, std::min<size_t>(w.size(), 200));
	c.end = (End)r.below(4);
	if (r.chance(30)) c.recv_eintr = r.below(40);
	if (r.chance(40) && w.size() < 100000) c.recv_short = r.range(5, 95);
	if (r.chance(50)) c.send_short = r.range(5, 100);
	if (r.chance(20)) { c.send_fail_at = r.below(600); c.send_errno = r.chance(50) ? EPIPE : ECONNRESET; c.peer_quits = r.chance(50); }
	AppBox box(g);
	const int maps_before = nmaps; bad_unmaps = 0;
	open_conn(c);
	if (c.end == CLOSE && r.chance(30)) c.send_fail_at = -1;
	Outcome o = serve(c, box.app);
	H.stat(o.generated ? "hostile_answered" : "hostile_refused");
	if (PROP == "C24") { ReqSpec any; any.path = "\n"; judge_log(any, c, o.generated); }
	for (auto &s : g.seen) if (s.unterminated) bad("C01 C02", "unterminated-field", fmt("the handler was given a %s without terminator", s.unterminated) + about);
	// The documented maximum, up to what one read may bring.
	if (c.consumed > MAX_REQUEST_SIZE + 65536) bad("C01", "reads-too-much", fmt("%zu bytes were read for one request, the maximum is %d", (size_t)c.consumed, MAX_REQUEST_SIZE) + about);
	if (w.size() > MAX_REQUEST_SIZE) H.stat("oversized_requests");
	static const char *ends[] = {"end_shutdown", "end_stall", "end_close", "end_reset"};
	H.stat(ends[c.end]);
	if (o.generated && !c.failed_send && c.peer >= 0) { Parsed p = parse_response(c.got); if (!p.why.empty()) bad("C01 C03", "response-malformed", p.why + about); }
	if (o.generated && c.closes == 0) bad("C01 C06", "fd-not-closed", "answered but not closed" + about);
	close_conn(c, false);
	if (bad_unmaps) bad("C01 C06", "munmap", "wrong unmapping" + about);
	if (nmaps != maps_before) bad("C01 C06", "mapping-leak", "mappings left behind" + about);
	// the next client is served as usual
	if (H.kase % 4 == 0) {
		Case g2; G = &g2;
		Behaviour b; b.kind = STATIC_BUF; b.data = "alive " + std::to_string(seed); b.code = 200;
		g2.routes.push_back({"GET", "^/alive$", 0, b});
		AppBox box2(g2);
		Conn c2; c2.seg = {"GET /alive HTTP/1.1\r\nHost: x\r\n\r\n"}; c2.end = STALL;
		open_conn(c2);
		Outcome o2 = serve(c2, box2.app);
		Parsed p = parse_response(c2.got);
		if (!o2.generated || p.code != 200 || p.body != b.data) bad("C01", "next-request", "the request after a hostile one was not answered as usual: " + show(c2.got, 200) + about);
		close_conn(c2, true);
		H.stat("probes");
	}
	H.nontrivial(hash64(w));
	H.sample(about);
	G = NULL;
	str().swap(about);
}

// The documented parsing functions, on blocks that end where the bytes end.
static void direct(uint64_t seed, bool damaged) {
	Rng r(seed);
	ReqSpec q;
	gen_request(r, q, r.pick(std::vector<str>{"GET", "POST", "PUT", "VERYLONGVERBABC", "G"}), gen_path(r));
	str w = q.wire;
	if (damaged) {
		if (w.size() > 30000) w.resize(30000);
		int how = r.below(4);
		if (how == 0) w = w.substr(0, r.below(w.size() + 1));
		else if (how == 1) w = w.substr(0, r.below(std::min<size_t>(w.size(), q.verb.size() + q.path.size() + 20)));
		else if (how == 2) { w = mutate(r, w); }
		else w = mutate(r, w).substr(0, r.below(w.size() + 1));
	}
	about = " [parsing " + show(w, 500) + "]";
	H.note(about);
	Exact wire(w);
	m38_http_request out;
	memset(&out, 0, sizeof out);
	int rc = m38_parse_request((const unsigned char *)wire.p, wire.n, &out);
	H.stat(rc == 0 ? "parsed" : "not_parsed");
	if (!damaged && rc != 0) bad("C02 C10", "not-parsed", "a complete request was refused" + about);
	if (rc == 0) {
		if (out.header_len > w.size() || !out.full_header || memcmp(out.full_header, w.data(), out.header_len)) bad("C01 C02", "header-text", "the header is not the first bytes of the request" + about);
		if (!damaged) {
			if (!memchr(out.verb, 0, sizeof out.verb) || q.verb != out.verb) bad("C02", "verb", fmt("method \"%.16s\"", out.verb) + about);
			if (!memchr(out.resource, 0, sizeof out.resource) || q.path != out.resource) bad("C02", "path", fmt("path \"%.512s\"", out.resource) + about);
			if (out.header_len != q.raw_header.size()) bad("C02", "header-len", fmt("the header has %zu bytes instead of %zu", (size_t)out.header_len, q.raw_header.size()) + about);
		}
		{
			str h = w.substr(0, out.header_len);
			if (damaged && r.chance(50)) h = h.substr(0, r.below(h.size() + 1));
			Exact block(h);
			std::vector<str> names = {"Host", "Content-Length", "X-Absent", "A", "Content", "Cookie"};
			for (auto &x : q.headers) if (r.chance(40)) names.push_back(random_case(r, x.first));
			for (auto &n : names) {
				ExactZ name(n);
				char *v = m38_get_header_value_raw(block.p, block.n, name.p);
				if (!damaged) {
					auto want = q.headers.find(lower(n));
					if (!v != (want == q.headers.end()) || (v && want->second != v)) bad("C02", "header-lookup", n + ": " + (v ? "\"" + show(v, 200) + "\"" : str("absent")) + about);
				}
				free(v);
			}
		}
		const size_t received = w.size() - out.header_len;
		size_t announced = r.chance(50) ? received : r.chance(50) ? r.below(received + 1) : received + 1 + r.below(5000);
		if (!damaged && q.form) announced = q.body.size();
		if (announced > 0 && received > 0) {
			int brc = m38_parse_body(received, announced, (const unsigned char *)wire.p, &out);
			const size_t want = std::min(received, announced);
			if (brc != 0 || out.body_len != want || !out.full_body || memcmp(out.full_body, w.data() + out.header_len, want)) bad("C01 C02 C10", "body", fmt("%zu bytes received, %zu announced: status %d, %zu bytes", received, announced, brc, (size_t)out.body_len) + about);
			else if (q.form || r.chance(30)) {
				int frc = m38_parse_form_encoded_body(&out);
				if (frc == 0 && out.form_elements && q.form && !damaged) {
					for (auto &f : q.fields) {
						Exact name(f.first);
						size_t siz = 0;
						const char *v = (const char *)sparse_dict_get(out.form_elements, name.p, name.n, &siz);
						if (!v || str(v, siz) != f.second) bad("C10", "field", "field " + show(f.first, 100) + ": " + (v ? show(str(v, siz), 200) : str("absent")) + about);
					}
				} else if (!damaged && q.form) bad("C10", "form", fmt("the form was refused (%d)", frc) + about);
				if (out.body_len != want || memcmp(out.full_body, w.data() + out.header_len, want)) bad("C02 C10", "body-consumed", "parsing the form changed the body" + about);
				if (out.form_elements) sparse_dict_free(out.form_elements);
			}
			free(out.full_body);
		}
	}
	free(out.full_header);
	H.nontrivial(hash64(w));
	str().swap(about);
}

int main(int argc, char **argv) {
	H.parse(argc, argv);
	PROP = H.mode;
	scratch = H.opts["scratch"];
	if (scratch.empty() || chdir(scratch.c_str())) { fprintf(stderr, "harness: scratch?\n"); return 70; }
	make_files(H.seed);
	if (PROP == "C24") open_log();
	// warm up lazily allocated state
	H.kase = ~0ull >> 8; for (int i = 0; i < 3; i++) { if (PROP == "C01") { hostile(i); direct(i, true); } else roundtrip(i); }
	H.nstats = 0; H.npending = 0;
	const int fds = count_fds();
	H.run([&](Rng &r) {
		uint64_t seed = r.next();
		const char *key = "heap-leak";
		if (PROP == "C01" && r.chance(10)) leak_checked(key, "parsing", [&] { direct(seed, true); });
		else if ((PROP == "C02" || PROP == "C10") && r.chance(8)) direct(seed, false);
		else if (PROP == "C01") leak_checked(key, "a hostile connection", [&] { hostile(seed); });
		else if (PROP == "C06") leak_checked(key, "a connection", [&] { roundtrip(seed); });
		else if (PROP == "C24" && r.chance(25)) hostile(seed);
		else roundtrip(seed);
		if (PROP == "C24") take_log();
		if (count_fds() != fds) { bad("C01 C06", "fd-leak", fmt("%d descriptors open, %d before", count_fds(), fds)); _exit(H.finish() ? 10 : 0); }
	});
	return H.finish();
}
