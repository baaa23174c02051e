// C01, C06, C07, C08, C23: the running server (m38_http_serve with its threads, queues and
// sockets) against real client processes. One server process per case; queue
// operations, accept and transfers are interposed to inject delays and faults and to
// tell ThreadSanitizer that a message hands its content over.
#include "common.hpp"
#include <arpa/inet.h>
#include <mqueue.h>
#include <netinet/in.h>
#include <sched.h>
#include <stdarg.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#if defined(__SANITIZE_THREAD__)
extern "C" void __tsan_acquire(void *);
extern "C" void __tsan_release(void *);
#else
static void __tsan_acquire(void *) {}
static void __tsan_release(void *) {}
#endif

static const int MAXID = 4096, MAXCONN = 1024, MAXEV = 1 << 16;

enum Kind { K_HEAP, K_FILE, K_RENDER, K_FORM, K_ECHO, K_404, K_DECLINE, K_RANGE, N_KINDS };
enum Manner { GOOD, GOOD_SLOW_READ, GOOD_SPLIT, BAD_GARBAGE, BAD_CLOSE, BAD_RESET, BAD_HALF_RESET, BAD_ABANDON, STALL_IDLE, STALL_PARTIAL, STALL_NOREAD };

struct ReqPlan { int id; Kind kind; Manner manner; size_t size; uint64_t seed; int delay_ms; };

struct Plan {
	int workers = 1, clients = 1;
	int delay = 0;                 // percent of operations delayed
	int eintr = 0;                 // percent of interrupted calls
	int accept_faults = 0;         // how many accepts fail, and how
	int nofile = 0;                // spare descriptors, 0: no limit
	bool heap = false;             // two identical rounds, heap and descriptors compared
	bool custom404 = false;
	std::vector<std::vector<ReqPlan>> work; // per client
};

// Shared with the clients.
struct ClientLog { std::atomic<int> ok, bad, unanswered; char msg[600]; };
struct Shared {
	std::atomic<int> port, round_go, round_done;
	std::atomic<int> handled[MAXID];
	std::atomic<long> handler_calls, cleanup_calls, answered, good_expected, max_latency_ms, hostile;
	std::atomic<int> failed;
	char key[64], msg[2000];
};
static Shared *S;

extern bool quiet_fail;
bool quiet_fail = false;
static void fail(const char *key, const str &msg) {
	if (quiet_fail) return;
	int z = 0;
	if (!S->failed.compare_exchange_strong(z, 1)) return;
	snprintf(S->key, sizeof S->key, "%s", key);
	snprintf(S->msg, sizeof S->msg, "%s", msg.c_str());
	S->failed = 2;
}

// ---- interposed calls --------------------------------------------------------

static Plan *P;
static bool serving;   // set in the server process only
static thread_local Rng *trng;
static std::atomic<uint64_t> tcount{0};
static std::atomic<int> fdstate[MAXCONN * 4];
static std::atomic<int> open_conns{0};
static std::atomic<long> n_accepts{0}, n_accept_faults{0}, n_eintr{0}, n_delays{0}, n_mq{0}, n_requeue_full{0};
static std::atomic<uint64_t> events[MAXEV];
static std::atomic<int> nevents{0};
static uint64_t case_rng_seed;
static char sync_tokens[8192];

static Rng &tr() {
	if (!trng) trng = new Rng(case_rng_seed + 77 * tcount.fetch_add(1, std::memory_order_relaxed));
	return *trng;
}
static void delay() {
	if (!serving || !P || !P->delay || !tr().chance(P->delay)) return;
	n_delays.fetch_add(1, std::memory_order_relaxed);
	if (tr().chance(30)) sched_yield();
	else usleep(tr().below(tr().chance(10) ? 3000 : 300));
}
static bool interrupted() {
	if (!serving || !P || !P->eintr || !tr().chance(P->eintr)) return false;
	n_eintr.fetch_add(1, std::memory_order_relaxed);
	errno = EINTR;
	return true;
}
static void event(int kind, uint64_t token) {
	int i = nevents.fetch_add(1, std::memory_order_relaxed);
	if (i < MAXEV) events[i].store((uint64_t)kind << 56 | (token & 0xffffffffffffffull), std::memory_order_relaxed);
}
static void *token(const char *m, size_t n) { return &sync_tokens[hash64(m, n) % sizeof sync_tokens]; }
static uint64_t number(const char *m, size_t n) { uint64_t v = 0; memcpy(&v, m, std::min<size_t>(n, 8)); return v; }
// The servers of one case share their queues, as servers on one machine do; the
// cases of other jobs do not.
static char queue_tag[64];
// Names created by this case's processes, so that they can be removed at its end.
struct Opened { std::atomic<int> n; char names[16][64]; };
static Opened *queues_made;
static void created(const char *n) {
	for (int i = 0, k = std::min(queues_made->n.load(), 16); i < k; i++) if (!strcmp(queues_made->names[i], n)) return;
	int i = queues_made->n.fetch_add(1);
	if (i < 16) snprintf(queues_made->names[i], 64, "%s", n); else queues_made->n.fetch_sub(1);
}
static void mqname(char *out, const char *name) { snprintf(out, 200, "/m38verif.%s.%s", queue_tag, name[0] == '/' ? name + 1 : name); }

// C23: where a server dies, and what went through its queues.
static long crash_at = 0;
static std::atomic<long> n_points{0};
static void point() {
	if (!serving || !crash_at) return;
	if (n_points.fetch_add(1, std::memory_order_relaxed) + 1 == crash_at) { kill(getpid(), SIGKILL); pause(); }
}
static bool track_messages = false;
static std::map<str, int> in_queues;
static pthread_mutex_t in_queues_mu = PTHREAD_MUTEX_INITIALIZER;
static void message_sent(const char *m, size_t n, int by) {
	if (!track_messages || !serving) return;
	pthread_mutex_lock(&in_queues_mu);
	in_queues[str(m, n)] += by;
	pthread_mutex_unlock(&in_queues_mu);
}
static void message_received(const char *m, size_t n) {
	if (!track_messages || !serving) return;
	pthread_mutex_lock(&in_queues_mu);
	bool bad = --in_queues[str(m, n)] < 0;
	pthread_mutex_unlock(&in_queues_mu);
	if (bad) fail("acted-on-leftover", fmt("a server received a queue message of %zu bytes (%llx) that it never sent", n, (unsigned long long)number(m, n)));
}
static void bad_descriptor(int fd, const char *how) {
	if (track_messages && serving && fd >= 0 && S->port.load() && fcntl(fd, F_GETFD) == -1 && errno == EBADF)
		fail("acted-on-leftover", fmt("a server called %s on descriptor %d, which it does not have", how, fd));
}

extern "C" {
mqd_t __real_mq_open(const char *, int, ...);
int __real_mq_unlink(const char *);
int __real_mq_send(mqd_t, const char *, size_t, unsigned);
int __real_mq_timedsend(mqd_t, const char *, size_t, unsigned, const struct timespec *);
ssize_t __real_mq_receive(mqd_t, char *, size_t, unsigned *);
ssize_t __real_mq_timedreceive(mqd_t, char *, size_t, unsigned *, const struct timespec *);
int __real_accept(int, struct sockaddr *, socklen_t *);
int __real_accept4(int, struct sockaddr *, socklen_t *, int);
int __real_listen(int, int);
int __real_close(int);
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
ssize_t __real_recv(int, void *, size_t, int);
ssize_t __real_read(int, void *, size_t);
ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_write(int, const void *, size_t);

mqd_t __wrap_mq_open(const char *name, int flags, ...) {
	char n[256];
	va_list ap; va_start(ap, flags);
	mode_t mode = 0; struct mq_attr *attr = NULL;
	if (flags & O_CREAT) { mode = va_arg(ap, mode_t); attr = va_arg(ap, struct mq_attr *); }
	va_end(ap);
	mqname(n, name);
	point();
	delay();
	if (!(flags & O_CREAT)) return __real_mq_open(n, flags);
	mqd_t d = __real_mq_open(n, flags, mode, attr);
	if (d != (mqd_t)-1) { int e = errno; created(n); errno = e; }
	// The system's number of queues is used up: says nothing about the server.
	if (d == (mqd_t)-1 && errno == ENOSPC) { fprintf(stderr, "HARNESS: no more message queues\n"); _exit(70); }
	return d;
}
int __wrap_mq_unlink(const char *name) { char n[256]; mqname(n, name); point(); delay(); return __real_mq_unlink(n); }
int __wrap_mq_send(mqd_t q, const char *m, size_t n, unsigned p) {
	delay();
	if (interrupted()) return -1;
	__tsan_release(token(m, n));
	event(1, number(m, n));
	n_mq.fetch_add(1, std::memory_order_relaxed);
	point();
	message_sent(m, n, 1);
	int rc = __real_mq_send(q, m, n, p);
	if (rc) { int e = errno; message_sent(m, n, -1); errno = e; }
	point();
	delay();
	return rc;
}
int __wrap_mq_timedsend(mqd_t q, const char *m, size_t n, unsigned p, const struct timespec *t) {
	delay();
	if (interrupted()) return -1;
	__tsan_release(token(m, n));
	event(2, number(m, n));
	message_sent(m, n, 1);
	int rc = __real_mq_timedsend(q, m, n, p, t);
	if (rc) { int e = errno; message_sent(m, n, -1); errno = e; }
	point();
	if (rc) n_requeue_full.fetch_add(1, std::memory_order_relaxed);
	return rc;
}
ssize_t __wrap_mq_receive(mqd_t q, char *m, size_t n, unsigned *p) {
	delay();
	if (interrupted()) return -1;
	ssize_t k = __real_mq_receive(q, m, n, p);
	if (k > 0) { point(); message_received(m, k); __tsan_acquire(token(m, k)); event(3, number(m, k)); }
	delay();
	return k;
}
ssize_t __wrap_mq_timedreceive(mqd_t q, char *m, size_t n, unsigned *p, const struct timespec *t) {
	delay();
	if (interrupted()) return -1;
	ssize_t k = __real_mq_timedreceive(q, m, n, p, t);
	if (k > 0) { message_received(m, k); __tsan_acquire(token(m, k)); event(3, number(m, k)); }
	return k;
}
static int accepted(int fd) {
	if (fd >= 0) point();
	if (fd >= 0 && fd < MAXCONN * 4 && serving) {
		fdstate[fd].store(1, std::memory_order_relaxed);
		open_conns.fetch_add(1, std::memory_order_relaxed);
		n_accepts.fetch_add(1, std::memory_order_relaxed);
		event(4, fd);
	}
	return fd;
}
static int accept_fault() {
	static const int errs[] = {EINTR, ECONNABORTED, EMFILE, ENFILE, ENOBUFS, ENOMEM, EPROTO, ECONNABORTED};
	if (!serving || !P) return 0;
	long k = n_accept_faults.load(std::memory_order_relaxed);
	if (k >= P->accept_faults || !tr().chance(P->accept_faults > 500 ? 95 : 60)) return 0;
	n_accept_faults.store(k + 1, std::memory_order_relaxed);
	return errs[tr().below(8)];
}
int __wrap_accept(int s, struct sockaddr *a, socklen_t *l) {
	delay();
	if (int e = accept_fault()) { errno = e; return -1; }
	int fd = accepted(__real_accept(s, a, l));
	int keep = errno;
	delay();
	errno = keep;
	return fd;
}
int __wrap_accept4(int s, struct sockaddr *a, socklen_t *l, int f) {
	delay();
	if (int e = accept_fault()) { errno = e; return -1; }
	int fd = accepted(__real_accept4(s, a, l, f));
	int keep = errno;
	delay();
	errno = keep;
	return fd;
}
int __wrap_listen(int s, int backlog) {
	// The length of the kernel's queue is not what is judged here.
	int rc = __real_listen(s, 1024);
	struct sockaddr_in a; socklen_t l = sizeof a;
	getsockname(s, (struct sockaddr *)&a, &l);
	if (rc == 0 && serving) { S->port.store(ntohs(a.sin_port)); point(); }
	return rc;
}
int __wrap_close(int fd) {
	if (!serving || fd < 0 || fd >= MAXCONN * 4) return __real_close(fd);
	bad_descriptor(fd, "close");
	int was = fdstate[fd].load(std::memory_order_relaxed);
	if (was == 1) {
		delay();
		fdstate[fd].store(2, std::memory_order_relaxed);
		open_conns.fetch_sub(1, std::memory_order_relaxed);
		event(5, fd);
	} else if (was == 2 && fcntl(fd, F_GETFD) == -1)
		fail("conn-closed-twice", fmt("descriptor %d of a connection was closed again", fd));
	return __real_close(fd);
}
static int opened(int fd) { if (fd >= 0 && fd < MAXCONN * 4 && serving) fdstate[fd].store(0, std::memory_order_relaxed); return fd; }
int __wrap_open(const char *p, int f, int m) { return opened(__real_open(p, f, m)); }
int __wrap_open64(const char *p, int f, int m) { return opened(__real_open64(p, f, m)); }
static void used(int fd, const char *how) {
	if (serving && fd >= 0 && fd < MAXCONN * 4 && fdstate[fd].load(std::memory_order_relaxed) == 2 && fcntl(fd, F_GETFD) == -1)
		fail("conn-used-after-close", fmt("%s on descriptor %d after it was closed", how, fd));
}
static bool conn(int fd) { return serving && fd >= 0 && fd < MAXCONN * 4 && fdstate[fd].load(std::memory_order_relaxed) == 1; }
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { used(fd, "recv"); bad_descriptor(fd, "recv"); if (conn(fd)) { point(); delay(); if (interrupted()) return -1; } return __real_recv(fd, b, n, f); }
ssize_t __wrap_read(int fd, void *b, size_t n) { used(fd, "read"); if (conn(fd)) { delay(); if (interrupted()) return -1; } return __real_read(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { used(fd, "send"); bad_descriptor(fd, "send"); if (conn(fd)) { point(); delay(); if (interrupted()) return -1; if (P && P->delay && n > 1 && tr().chance(5)) n = 1 + tr().below(n); } return __real_send(fd, b, n, f); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { used(fd, "write"); if (conn(fd)) { delay(); if (interrupted()) return -1; } return __real_write(fd, b, n); }
}

// ---- what the application serves ----------------------------------------------

struct PoolFile { const char *name; str data; const char *type; };
static std::vector<PoolFile> files;
static str tmpl_text;

static str body_for(int id, size_t size) {
	Rng r(id * 2654435761u + 17);
	str s = fmt("id=%d;", id);
	while (s.size() < size) { uint64_t v = r.next(); s.append((char *)&v, 8); }
	s.resize(std::max<size_t>(size, 1));
	return s;
}
static str secret(int id) { return fmt("s%dx%08x", id, (unsigned)hash64(&id, sizeof id)); }
static const char *mime_for(int id) { static const char *m[] = {"", "text/plain", "application/json", "image/gif"}; return m[id % 4]; }

static int group(const m38_http_request *q, int g) { return atoi(q->resource + q->matches[g].rm_so); }
static void mark(int id, m38_http_response *res) {
	if (id >= 0 && id < MAXID) S->handled[id].fetch_add(1, std::memory_order_relaxed);
	S->handler_calls.fetch_add(1, std::memory_order_relaxed);
	str t = std::to_string(id);
	if (res) m38_insert_custom_header(res, "X-Token", 7, t.c_str(), t.size());
}
static void set_heap(m38_http_response *res, const str &b) { res->out = (unsigned char *)malloc(b.size()); memcpy(res->out, b.data(), b.size()); res->outsize = b.size(); }

static int h_heap(const m38_http_request *q, m38_http_response *res) {
	int id = group(q, 1);
	mark(id, res);
	const char *m = mime_for(id);
	memcpy(res->mimetype, m, strlen(m) + 1);
	set_heap(res, body_for(id, group(q, 2)));
	return 200;
}
static int h_file(const m38_http_request *q, m38_http_response *res) { mark(group(q, 1), res); return m38_mmap_file(files[group(q, 2) % files.size()].name, res); }
static int h_render(const m38_http_request *q, m38_http_response *res) {
	int id = group(q, 1);
	mark(id, res);
	greshunkel_ctext *c = gshkl_init_context();
	gshkl_add_string(c, "NAME", secret(id).c_str());
	greshunkel_var a = gshkl_add_array(c, "LIST");
	for (int i = 0; i < id % 5; i++) gshkl_add_int_to_loop(&a, id + i);
	return m38_render_file(c, "t.html", res);
}
static int h_form(const m38_http_request *q, m38_http_response *res) {
	mark(group(q, 1), res);
	size_t n = 0;
	const char *v = q->form_elements ? (const char *)sparse_dict_get(q->form_elements, "v", 1, &n) : NULL;
	set_heap(res, "form:" + (v ? str(v, strnlen(v, n)) : str("(none)")));
	return 200;
}
static int h_echo(const m38_http_request *q, m38_http_response *res) {
	mark(group(q, 1), res);
	char *v = m38_get_header_value_request(q, "X-Secret");
	str out = "echo:" + str(v ? v : "(none)");
	free(v);
	// Every helper of the library that a handler may use.
	char *c = m38_get_header_value_request(q, "Cookie");
	char *id = c ? m38_get_cookie_value(c, strlen(c), "id") : NULL;
	str secret_ = id ? id : "(none)";
	out += "|" + secret_;
	free(c); free(id);
	char hash[HASH_STR_SIZE + 1] = {0};
	hash_string_fnv1a((const unsigned char *)secret_.data(), secret_.size(), hash);
	out += "|" + str(hash);
	std::vector<char> dec(secret_.size() * 3 + 1);
	str enc;
	for (char ch : secret_) enc += fmt("%%%02x", (unsigned char)ch);
	int n = m38_url_decode(enc.c_str(), dec.data());
	out += "|" + str(dec.data(), n > 0 ? n - 1 : 0);
	const char *x = strnstr(secret_.c_str(), "x", secret_.size());
	out += fmt("|%d|%d", x ? (int)(x - secret_.c_str()) : -1, endswith(secret_.c_str(), secret_.c_str() + secret_.size() / 2));
	const PoolFile &f = files[group(q, 1) % files.size()];
	out += fmt("|%zu|%d", (size_t)get_file_size(f.name), get_file_creation_date(f.name) > 0);
	m38_range_header rh = m38_parse_range_header(fmt("bytes=%d-%d", group(q, 1), group(q, 1) + 7).c_str());
	out += fmt("|%zu-%zu", rh.offset, rh.limit);
	vector *vec = vector_new(sizeof(int), 0);
	for (int i = 0; i < 9; i++) { int val = group(q, 1) + i; vector_append(vec, &val, sizeof val); }
	vector_reverse(vec);
	for (int i = 0; i < 9; i++) { int val = 0; memcpy(&val, vector_get(vec, i), sizeof val); out += fmt(",%d", val); }
	vector_free(vec);
	struct sparse_dict *d = sparse_dict_init();
	for (int i = 0; i < 12; i++) { str k = fmt("k%d", i), val = fmt("v%d", group(q, 1) + i); sparse_dict_set(d, k.data(), k.size(), val.data(), val.size()); }
	for (int i = 0; i < 12; i++) { str k = fmt("k%d", i); size_t len = 0; const char *val = (const char *)sparse_dict_get(d, k.data(), k.size(), &len); out += "," + (val ? str(val, len) : str("(none)")); }
	sparse_dict_free(d);
	set_heap(res, out);
	return 200;
}
static int h_decline(const m38_http_request *q, m38_http_response *res) { mark(group(q, 1), NULL); (void)res; return 404; }
static int h_404(const m38_http_request *q, m38_http_response *res) {
	const char *p = strrchr(q->resource, '/');
	mark(-1, NULL);
	str t = "no " + str(p ? p : "?");
	set_heap(res, t);
	return 404;
}
static void c_heap(const int code, m38_http_response *res) { S->cleanup_calls.fetch_add(1, std::memory_order_relaxed); m38_heap_cleanup_no_check(code, res); }
static void c_file(const int code, m38_http_response *res) { S->cleanup_calls.fetch_add(1, std::memory_order_relaxed); m38_mmap_cleanup(code, res); }
static void c_render(const int code, m38_http_response *res) { S->cleanup_calls.fetch_add(1, std::memory_order_relaxed); m38_heap_cleanup(code, res); }

static m38_route route(const char *verb, const char *name, const char *match, size_t groups, int (*h)(const m38_http_request *, m38_http_response *), void (*c)(const int, m38_http_response *)) {
	m38_route r = {};
	strcpy(r.verb, verb); strcpy(r.name, name); strcpy(r.route_match, match);
	r.expected_matches = groups; r.handler = h; r.cleanup = c;
	return r;
}
static const m38_route ROUTES[] = {
	route("GET", "heap", "^/s/([0-9]+)/([0-9]+)$", 2, h_heap, c_heap),
	route("GET", "file", "^/f/([0-9]+)/([0-9]+)$", 2, h_file, c_file),
	route("GET", "render", "^/r/([0-9]+)$", 1, h_render, c_render),
	route("POST", "form", "^/p/([0-9]+)$", 1, h_form, c_heap),
	route("GET", "echo", "^/h/([0-9]+)$", 1, h_echo, c_heap),
	route("GET", "decline", "^/d/([0-9]+)$", 1, h_decline, NULL),
};
static m38_app application(int *fd, int port, int workers) {
	m38_app a = {};
	a.main_sock_fd = fd; a.port = port; a.num_threads = workers; a.routes = ROUTES;
	const_cast<int &>(a.num_routes) = (int)(sizeof ROUTES / sizeof *ROUTES);
	return a;
}

// ---- clients -------------------------------------------------------------------

struct Want { int code; str body; bool token; str type; };

static str request_bytes(const ReqPlan &q, const Plan &pl, Want &w) {
	Rng r(q.seed);
	str extra;
	int n = r.below(4);
	for (int i = 0; i < n; i++) extra += fmt("X-Pad-%d: %s\r\n", i, r.alnum(r.below(300)).c_str());
	w.code = 200; w.token = true; w.type = "text/html";
	switch (q.kind) {
	case K_HEAP: w.body = body_for(q.id, q.size); if (*mime_for(q.id)) w.type = mime_for(q.id); return fmt("GET /s/%d/%zu HTTP/1.1\r\nHost: x\r\n", q.id, q.size) + extra + "\r\n";
	case K_FILE: { size_t k = q.size % files.size(); w.body = files[k].data; w.type = files[k].type; return fmt("GET /f/%d/%zu HTTP/1.1\r\nHost: x\r\n", q.id, k) + extra + "\r\n"; }
	case K_RENDER: {
		w.body = "<" + secret(q.id) + ">\n";
		for (int i = 0; i < q.id % 5; i++) w.body += fmt("[%d]", q.id + i);
		w.body += "\nend";
		return fmt("GET /r/%d HTTP/1.1\r\n", q.id) + extra + "\r\n";
	}
	case K_FORM: {
		str pad = r.alnum(r.below(3000)), b = "a=" + pad + "&v=" + secret(q.id) + "%21&zz=1";
		w.body = "form:" + secret(q.id) + "!";
		return fmt("POST /p/%d HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n%sContent-Length: %zu\r\n\r\n", q.id, extra.c_str(), b.size()) + b;
	}
	case K_ECHO: {
		str sec = secret(q.id);
		uint64_t h = 14695981039346656037ull;
		for (unsigned char ch : sec) h = (h ^ ch) * 1099511628211ull;
		w.body = "echo:" + sec + "|" + sec + fmt("|%llX|", (unsigned long long)h) + sec + fmt("|%d|1|%zu|1|%d-%d", (int)sec.find('x'), files[q.id % files.size()].data.size(), q.id, q.id + 7);
		for (int i = 0; i < 9; i++) w.body += fmt(",%d", q.id + 8 - i);
		for (int i = 0; i < 12; i++) w.body += fmt(",v%d", q.id + i);
		return fmt("GET /h/%d HTTP/1.1\r\n%sX-Secret: %s\r\nCookie: a=1; id=%s; idx=zz\r\n\r\n", q.id, extra.c_str(), sec.c_str(), sec.c_str());
	}
	case K_404: case K_DECLINE:
		w.code = 404; w.token = false;
		w.body = pl.custom404 ? fmt("no /%d", q.id) : "<h1>\"Welcome to Die|</h1>";
		return fmt("GET /%s/%d HTTP/1.1\r\n%s\r\n", q.kind == K_404 ? "nothing" : "d", q.id, extra.c_str());
	default: {
		size_t sz = std::max<size_t>(q.size, 1), a = r.below(sz), b = a + r.below(sz - a);
		w.code = 206; w.body = body_for(q.id, sz).substr(a, b - a + 1);
		if (*mime_for(q.id)) w.type = mime_for(q.id);
		return fmt("GET /s/%d/%zu HTTP/1.1\r\nRange: bytes=%zu-%zu\r\n%s\r\n", q.id, sz, a, b, extra.c_str());
	}
	}
}

static long now_ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000L + t.tv_nsec / 1000000; }
static int DEADLINE = 75;
static bool doomed = false; // clients of a server that is about to be killed

static int dial() {
	static std::atomic<unsigned> dials{0};
	const unsigned turn = dials++;
	for (int i = 0; i < (doomed ? 3 : 200); i++) {
		int s = socket(AF_INET, SOCK_STREAM, 0);
		struct sockaddr_in a = {};
		a.sin_family = AF_INET; a.sin_port = htons(S->port.load()); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK + (turn % 7 == 3)); // any address of this machine's
		if (connect(s, (struct sockaddr *)&a, sizeof a) == 0) {
			struct timeval t = {DEADLINE, 0};
			setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
			setsockopt(s, SOL_SOCKET, SO_SNDTIMEO, &t, sizeof t);
			return s;
		}
		close(s);
		usleep(20000);
	}
	return -1;
}
static void reset_close(int s) { struct linger l = {1, 0}; setsockopt(s, SOL_SOCKET, SO_LINGER, &l, sizeof l); close(s); }
static bool push(int s, const str &d) { size_t o = 0; while (o < d.size()) { ssize_t n = send(s, d.data() + o, d.size() - o, MSG_NOSIGNAL); if (n <= 0) return false; o += n; } return true; }

static str judge(const str &got, const Want &w, int id) {
	size_t e = got.find("\r\n\r\n");
	if (e == str::npos) return fmt("no complete header in %zu bytes: \"%s\"", got.size(), show(got, 100).c_str());
	str head = got.substr(0, e + 2), body = got.substr(e + 4);
	if (head.compare(0, 9, "HTTP/1.1 ") || atoi(head.c_str() + 9) != w.code) return fmt("status line \"%s\", want %d", show(head.substr(0, 30)).c_str(), w.code);
	auto field = [&](const char *n) { size_t p = head.find("\r\n" + str(n) + ": "); if (p == str::npos) return str("(absent)"); p += strlen(n) + 4; return head.substr(p, head.find("\r\n", p) - p); };
	if (w.token && field("X-Token") != std::to_string(id)) return "token " + show(field("X-Token"));
	if (!w.token && field("X-Token") != "(absent)") return "token " + show(field("X-Token")) + " on a 404";
	if (field("Content-Length") != std::to_string(w.body.size())) return "Content-Length " + show(field("Content-Length")) + fmt(", want %zu", w.body.size());
	if (w.token && field("Content-Type") != w.type) return "Content-Type " + show(field("Content-Type")) + ", want " + w.type;
	if (body != w.body) { size_t i = 0; while (i < body.size() && i < w.body.size() && body[i] == w.body[i]) i++; return fmt("%zu body bytes, want %zu, first difference at %zu: \"%s\"", body.size(), w.body.size(), i, show(body.substr(i, 40)).c_str()); }
	return "";
}

static std::vector<int> held; // connections of stalling clients, kept to the end
static pthread_mutex_t held_mu = PTHREAD_MUTEX_INITIALIZER;

static void perform(const ReqPlan &q, const Plan &pl) {
	Rng r(q.seed ^ 0x5555);
	Want w;
	str bytes = request_bytes(q, pl, w);
	if (q.delay_ms) usleep(q.delay_ms * 1000);
	int s = dial();
	if (s < 0) { if (q.manner <= GOOD_SPLIT) fail("refused", "a client could not connect for 4 s"); return; }
	long t0 = now_ms();
	switch (q.manner) {
	case BAD_GARBAGE: { S->hostile++; str g = r.chance(50) ? r.bytes(r.size(5000)) : bytes.substr(0, r.below(bytes.size())) + r.bytes(r.below(200)); push(s, g); if (r.chance(50)) shutdown(s, SHUT_WR); char b[4096]; if (r.chance(50)) { shutdown(s, SHUT_WR); while (recv(s, b, sizeof b, 0) > 0) {} } close(s); return; }
	case BAD_CLOSE: S->hostile++; if (r.chance(70)) push(s, bytes.substr(0, r.below(bytes.size() + 1))); close(s); return;
	case BAD_RESET: S->hostile++; push(s, bytes); if (r.chance(50)) usleep(r.below(3000)); reset_close(s); return;
	case BAD_HALF_RESET: S->hostile++; push(s, bytes.substr(0, r.below(bytes.size()))); if (r.chance(50)) usleep(r.below(3000)); reset_close(s); return;
	case BAD_ABANDON: { S->hostile++; push(s, bytes); char b[1000]; size_t n = r.below(5000); while (n > 0) { ssize_t k = recv(s, b, std::min(n, sizeof b), 0); if (k <= 0) break; n -= k; } if (r.chance(50)) reset_close(s); else close(s); return; }
	case STALL_IDLE: case STALL_PARTIAL: case STALL_NOREAD:
		S->hostile++;
		if (q.manner == STALL_PARTIAL) push(s, bytes.substr(0, 1 + r.below(bytes.size() - 1)));
		if (q.manner == STALL_NOREAD) { int small = 4096; setsockopt(s, SOL_SOCKET, SO_RCVBUF, &small, sizeof small); push(s, bytes); }
		pthread_mutex_lock(&held_mu); held.push_back(s); pthread_mutex_unlock(&held_mu);
		return;
	default: break;
	}
	S->good_expected++;
	bool sent = true;
	if (q.manner == GOOD_SPLIT) {
		size_t o = 0;
		int one = 1; setsockopt(s, IPPROTO_TCP, 1 /* TCP_NODELAY */, &one, sizeof one);
		while (o < bytes.size() && sent) { size_t n = std::min(bytes.size() - o, 1 + r.below(r.chance(50) ? 20 : 2000)); sent = push(s, bytes.substr(o, n)); o += n; if (r.chance(30)) usleep(r.below(800)); }
	} else sent = push(s, bytes);
	str got;
	std::vector<char> b(q.manner == GOOD_SLOW_READ ? 9000 : 65536);
	bool timed_out = false, reset = false;
	for (;;) {
		ssize_t n = recv(s, b.data(), q.manner == GOOD_SLOW_READ ? 1 + r.below(b.size()) : b.size(), 0);
		if (n > 0) { got.append(b.data(), n); if (q.manner == GOOD_SLOW_READ && got.size() < 200000) usleep(r.below(1500)); if (now_ms() - t0 > DEADLINE * 1000L) { timed_out = true; break; } continue; }
		if (n == -1 && errno == EINTR) continue;
		if (n == -1 && (errno == EAGAIN || errno == EWOULDBLOCK)) timed_out = true;
		else if (n == -1) reset = true;
		break;
	}
	close(s);
	long ms = now_ms() - t0, old = S->max_latency_ms.load();
	while (ms > old && !S->max_latency_ms.compare_exchange_weak(old, ms)) {}
	str id = fmt("request %d (kind %d, manner %d, size %zu)", q.id, (int)q.kind, (int)q.manner, q.size);
	if (timed_out) { fail("unanswered", id + fmt(" had no complete answer after %d s (%zu bytes so far)", DEADLINE, got.size())); return; }
	if (got.empty()) { fail(reset ? "reset" : "dropped", id + " was closed without an answer"); return; }
	str why = judge(got, w, q.id);
	if (!why.empty()) { fail("wrong-answer", id + ": " + why + (reset ? " (connection reset)" : "")); return; }
	S->answered++;
}

struct ClientArg { const std::vector<ReqPlan> *work; const Plan *pl; int round; };
static void *client(void *a) {
	ClientArg *c = (ClientArg *)a;
	for (ReqPlan q : *c->work) { if (S->failed) break; q.id += c->round * (MAXID / 4); perform(q, *c->pl); }
	return NULL;
}
static int client_process(const Plan &pl) {
	for (int round = 0; round < (pl.heap ? 3 : 1); round++) {
		while (S->round_go.load() <= round) { if (getppid() == 1) _exit(0); usleep(500); }
		std::vector<pthread_t> t(pl.work.size());
		std::vector<ClientArg> a(pl.work.size());
		for (size_t i = 0; i < pl.work.size(); i++) { a[i] = {&pl.work[i], &pl, round}; pthread_create(&t[i], NULL, client, &a[i]); }
		for (auto &x : t) pthread_join(x, NULL);
		for (int s : held) close(s);
		held.clear();
		S->round_done.store(round + 1);
	}
	_exit(0);
}

// ---- one case --------------------------------------------------------------------

static m38_app *APP;
static std::atomic<int> serve_rc{-99};
static void *serve_thread(void *) { int rc = m38_http_serve(APP); serve_rc = rc; return NULL; }

static bool quiesced() { return open_conns.load(std::memory_order_relaxed) == 0; }
static bool wait_quiet(int ms) { long t = now_ms(); while (!quiesced()) { if (now_ms() - t > ms) return false; usleep(1000); } usleep(3000); return true; }

static void add_line(const str &l) { fputs(l.c_str(), H.out); fflush(H.out); }

struct Result { uint64_t sig; long v[14]; };

static long n_access, n_log_lines;
// C24: every answered request has left one access record, and nothing broke the lines.
static int log_fd = -1;
static void judge_log(const Plan &pl) {
	fflush(stdout);
	str log(lseek(log_fd, 0, SEEK_END), 0);
	if (pread(log_fd, &log[0], log.size(), 0) != (ssize_t)log.size()) _exit(70);
	std::map<str, std::vector<str>> access; // by what is asked for
	for (size_t i = 0; i < log.size();) {
		size_t j = log.find('\n', i);
		if (j == str::npos) j = log.size();
		const str l = log.substr(i, j - i);
		i = j + 1;
		const size_t m = l.find(" [\x1b["), e = m == str::npos ? m : l.find("\x1b[0m] ", m);
		if (e == str::npos || m > 40 || e > m + 12) { fail("log-line-not-a-record", "the log holds the line '" + show(l, 300) + "'"); return; }
		const str t = l.substr(e + 6);
		const size_t a = t.find('"'), b = a == str::npos ? a : t.find('"', a + 1);
		if (l.compare(m, 8, " [\x1b[36m~") == 0 && b != str::npos) access[t.substr(a, b - a + 1)].push_back(t);
		n_log_lines++;
	}
	for (auto &w : pl.work) for (auto &q : w) {
		Want want;
		const str bytes = request_bytes(q, pl, want), what = "\"" + bytes.substr(0, bytes.find(" HTTP/")) + "\"";
		auto &got = access[what];
		if (got.size() > 1 || (q.manner <= GOOD_SPLIT && got.empty())) { fail("access-count", fmt("%zu access records for ", got.size()) + what + fmt(" (kind %d, manner %d)", (int)q.kind, (int)q.manner)); return; }
		if (q.manner > GOOD_SPLIT) continue;
		if (got[0].find(what + fmt(" %d ", want.code)) == str::npos) { fail("access-record", "the access record '" + show(got[0], 300) + fmt("' is for an answer of status %d", want.code)); return; }
		n_access++;
	}
}

static int server_process(Plan &pl, Result *res) {
	if (H.mode == "C24") {
		log_fd = memfd_create("log", 0);
		if (log_fd < 0 || dup2(log_fd, 1) < 0) _exit(70);
	}
	P = &pl;
	pid_t clients = fork();
	if (clients == 0) { client_process(pl); }
	serving = true;
	if (H.kase % 9 == 4) { H.stat("no_stdin"); __real_close(0); } // then something of the server's is descriptor 0
	int main_fd = -1;
	m38_app app = application(&main_fd, 0, pl.workers);
	if (pl.custom404) { m38_set_404_handler(&app, h_404); m38_set_404_cleanup(&app, c_heap); }
	APP = &app;
	pthread_t t;
	pthread_create(&t, NULL, serve_thread, NULL);
	long t0 = now_ms();
	while (S->port.load() == 0) {
		if (serve_rc.load() != -99) { fail("serve-returned", fmt("m38_http_serve returned %d", serve_rc.load())); break; }
		if (now_ms() - t0 > 60000) { fail("never-listened", "the server did not listen within 60 s"); break; }
		usleep(500);
	}
	if (H.kase % 9 == 5) { usleep(100000); H.stat("descriptor_zero"); __real_close(0); } // then a connection is descriptor 0
	if (pl.nofile) {
		usleep(100000);
		struct rlimit rl; getrlimit(RLIMIT_NOFILE, &rl);
		int top = 0;
		for (int fd = 0; fd < 512; fd++) if (fcntl(fd, F_GETFD) != -1) top = fd;
		rl.rlim_cur = top + 1 + pl.nofile;
		setrlimit(RLIMIT_NOFILE, &rl);
	}
	long heap[4] = {0}; int fds[4] = {0};
	const int rounds = pl.heap ? 3 : 1;
	for (int round = 0; round < rounds && !S->failed; round++) {
		S->round_go.store(round + 1);
		t0 = now_ms();
		while (S->round_done.load() <= round) {
			int st;
			if (waitpid(clients, &st, WNOHANG) == clients) { if (S->round_done.load() <= round) { fprintf(stderr, "HARNESS: the clients died\n"); _exit(70); } break; }
			if (serve_rc.load() != -99) { fail("serve-returned", fmt("m38_http_serve returned %d while clients were being served", serve_rc.load())); break; }
			if (now_ms() - t0 > 200000) { fail("unanswered", "the clients did not finish within 200 s"); break; }
			if (S->failed.load() == 2 && now_ms() - t0 > 1000) break;
			usleep(500);
		}
		if (S->failed) break;
		// Every connection is over now; the server has to notice.
		if (!wait_quiet(30000)) { fail("conn-left-open", fmt("%d connections still open 30 s after their clients left", open_conns.load())); break; }
		long a = S->handler_calls.load(), b = S->cleanup_calls.load();
		heap[round] = heap_now(); fds[round] = count_fds();
		(void)a; (void)b;
	}
	if (!S->failed) {
		// Requests that were read in full reached exactly one handler call.
		for (auto &w : pl.work) for (auto &q : w) for (int round = 0; round < rounds; round++) {
			int n = S->handled[q.id + round * (MAXID / 4)].load();
			bool good = q.manner <= GOOD_SPLIT, counted = q.kind != K_404;
			if (good && counted && n != 1) fail("handled-count", fmt("request %d was passed to %d handler calls", q.id, n));
			if (n > 1) fail("handled-count", fmt("request %d was passed to %d handler calls", q.id, n));
		}
		long declined = 0;
		for (auto &w : pl.work) for (auto &q : w) if (q.kind == K_DECLINE) for (int round = 0; round < rounds; round++) declined += S->handled[q.id + round * (MAXID / 4)].load();
		// A 404 passes through the declining handler and the 404 handler: one clean-up.
		long calls = S->handler_calls.load() - declined, cleans = S->cleanup_calls.load();
		if (calls != cleans) fail("cleanup-count", fmt("%ld responses produced, %ld cleaned up", calls, cleans));
		if (log_fd >= 0 && !S->failed) judge_log(pl);
		if (rounds == 3) {
			if (fds[2] > fds[1]) fail("fd-leak", fmt("%d descriptors after the second round, %d after the third", fds[1], fds[2]));
			long d1 = heap[1] - heap[0], d2 = heap[2] - heap[1];
			if (d1 > 3000 && d2 > 3000) fail("server-heap-growth", fmt("live heap grew by %ld and %ld bytes over two identical rounds", d1, d2));
		}
	}
	if (!S->failed) for (int i = 0, n = std::min(nevents.load(), MAXEV); i < n; i++) { uint64_t e = events[i].load(std::memory_order_relaxed); static std::map<uint64_t, int> names; int nm = names.emplace(e & 0xffffffffffffffull, names.size()).first->second; uint64_t x = (e >> 56) * 1000003 + nm; res->sig = hash64(&x, 8, res->sig); }
	long v[] = {n_accepts.load(), n_accept_faults.load(), n_eintr.load(), n_delays.load(), n_mq.load(), n_requeue_full.load(), S->answered.load(), S->hostile.load(), S->handler_calls.load(), S->cleanup_calls.load(), S->max_latency_ms.load(), nevents.load(), n_access, n_log_lines};
	memcpy(res->v, v, sizeof v);
	kill(clients, SIGKILL);
	__wrap_mq_unlink("/mothsaqueue"); __wrap_mq_unlink("/mothshqueue");
	_exit(S->failed ? 10 : 0);
}

// ---- plans -------------------------------------------------------------------------

static Plan make_plan(Rng &r) {
	Plan pl;
	const str &m = H.mode;
	const bool c01 = m == "C01", c06 = m == "C06", c08 = m == "C08";
	pl.workers = r.chance(25) ? 1 : r.range(1, 8);
	pl.clients = r.range(2, 24);
	pl.delay = r.chance(70) ? r.range(1, 25) : 0;
	pl.custom404 = r.chance(50);
	int bad = c06 ? 50 : c01 ? 60 : 15;
	int scenario = c08 ? (int)(H.kase % 6) : -1;
	int big = 10, slow = 10, reqs = r.range(1, 6);
	bool no_files = false;
	if (c06) { pl.heap = true; reqs = r.range(1, 3); }
	if (scenario == 0) { pl.workers = r.range(1, 3); pl.clients = r.range(14, 40); big = 70; slow = 30; bad = 0; }        // large responses, few workers
	if (scenario == 1) { pl.accept_faults = H.kase % 24 == 1 ? r.range(501, 700) : r.range(3, 60); }
	if (scenario == 2) { pl.eintr = r.range(2, 25); }
	if (scenario == 3) { bad = 70; pl.accept_faults = r.below(10); }
	if (scenario == 3 && H.kase % 12 == 3) { pl.workers = r.range(1, 3); pl.clients = r.range(16, 24); reqs = r.range(20, 40); bad = 92; H.stat("hostile_crowds"); }
	if (scenario == 4) { pl.nofile = r.range(2, 10); pl.clients = r.range(16, 40); no_files = true; }
	if (scenario == 5) { pl.workers = r.range(6, 8); pl.clients = r.range(20, 48); slow = 70; big = 50; bad = 0; pl.eintr = r.chance(50) ? 3 : 0; }
	if (!c08 && r.chance(20)) pl.eintr = r.range(1, 8);
	int id = 1;
	for (int c = 0; c < pl.clients; c++) {
		std::vector<ReqPlan> w;
		int n = scenario == 0 || scenario == 5 ? r.range(1, 3) : reqs;
		for (int i = 0; i < n; i++) {
			ReqPlan q = {id++, (Kind)r.below(N_KINDS), GOOD, 0, r.next(), r.chance(10) ? (int)r.below(15) : 0};
			if (no_files && (q.kind == K_FILE || q.kind == K_RENDER)) q.kind = K_ECHO;
			int k = r.below(100);
			if (k < bad) q.manner = (Manner)(BAD_GARBAGE + r.below(5));
			else if (r.chance(slow)) q.manner = GOOD_SLOW_READ;
			else if (r.chance(30)) q.manner = GOOD_SPLIT;
			if (r.chance(big)) { q.size = r.range(20000, 400000); if (r.chance(60)) q.kind = K_HEAP; }
			else q.size = r.chance(30) ? 4096 * r.range(1, 4) - r.below(300) : r.size(9000);
			w.push_back(q);
		}
		pl.work.push_back(w);
	}
	if (m == "C07" && H.kase % 4 == 1) {
		// Everybody does the same, so that whatever path that is, several workers are in it.
		pl.workers = r.range(4, 8);
		const Kind kind = (Kind)r.below(N_KINDS);
		const size_t lo = r.chance(40) ? r.range(200000, 380000) : r.chance(50) ? r.range(20000, 60000) : r.below(9000);
		for (auto &w : pl.work) for (auto &q : w) { q.kind = kind; q.size = lo + r.below(20000); if (r.chance(50)) q.delay_ms = 0; }
		H.stat("uniform_cases");
	}
	if ((c01 && H.kase % 4 == 0) || (c08 && H.kase % 6 == 1)) {
		// Clients that stall, each holding a worker or the responder until it gives up on them.
		int stall = pl.workers + r.below(pl.workers + 1);
		for (int i = 0; i < stall; i++) pl.work.push_back({{id++, K_HEAP, r.chance(50) ? STALL_IDLE : STALL_PARTIAL, 10, r.next(), 0}});
		int noread = r.range(1, 2);
		for (int i = 0; i < noread; i++) pl.work.push_back({{id++, K_HEAP, STALL_NOREAD, 9000000, r.next(), 0}});
		for (auto &w : pl.work) for (auto &q : w) if (q.manner <= GOOD_SPLIT) q.delay_ms += 30;
	}
	if (c01 || c08) // and afterwards everybody else is still served
		for (int i = 0; i < 3; i++) pl.work.push_back({{id++, K_ECHO, GOOD, 0, r.next(), 60}});
	return pl;
}

// ---- C23: servers after servers -----------------------------------------------------

static pid_t start_server(Plan &pl, int port, long crash, bool reports, std::atomic<int> *rc, bool when_listening = false) {
	*rc = -99;
	fflush(NULL);
	pid_t pid = fork();
	if (pid) return pid;
	setpgid(0, 0);
	P = &pl;
	if (when_listening) { while (S->port.load() == 0) {} port = S->port.load(); }
	serving = reports;
	track_messages = true;
	crash_at = crash;
	if (H.kase % 7 == 4) __real_close(0);
	int main_fd = -1;
	m38_app app = application(&main_fd, port, pl.workers);
	APP = &app;
	int got = m38_http_serve(&app);
	*rc = got;
	_exit(0);
}
static void one_round(Plan &pl) {
	std::vector<pthread_t> t(pl.work.size());
	std::vector<ClientArg> a(pl.work.size());
	for (size_t i = 0; i < pl.work.size(); i++) { a[i] = {&pl.work[i], &pl, 0}; pthread_create(&t[i], NULL, client, &a[i]); }
	for (auto &x : t) pthread_join(x, NULL);
	for (int s : held) close(s);
	held.clear();
}
static pid_t start_clients(Plan &pl, bool dying) {
	fflush(NULL);
	pid_t pid = fork();
	if (pid) return pid;
	setpgid(0, 0);
	doomed = quiet_fail = dying;
	one_round(pl);
	if (dying) pause(); // stalling clients stay
	_exit(0);
}
static bool gone(pid_t &pid, int *st) {
	if (pid <= 0) return true;
	if (waitpid(pid, st, WNOHANG) != pid) return false;
	pid = -1;
	return true;
}
static void finish_off(pid_t &pid) { int st; if (pid > 0) { kill(-pid, SIGKILL); kill(pid, SIGKILL); waitpid(pid, &st, 0); } pid = -1; }

static Plan make_small(Rng &r, int &id, bool dying) {
	Plan pl;
	pl.workers = r.range(1, 4);
	pl.delay = r.chance(70) ? r.range(1, 40) : 0;
	pl.clients = r.range(1, 12);
	for (int c = 0; c < pl.clients; c++) {
		std::vector<ReqPlan> w;
		int n = r.range(1, 3);
		for (int i = 0; i < n; i++) {
			ReqPlan q = {id++, (Kind)r.below(N_KINDS), GOOD, r.chance(20) ? (size_t)r.range(20000, 200000) : r.size(9000), r.next(), 0};
			if (r.chance(20)) q.manner = r.chance(50) ? GOOD_SPLIT : GOOD_SLOW_READ;
			else if (dying && r.chance(10)) q.manner = (Manner)(BAD_GARBAGE + r.below(5));
			w.push_back(q);
		}
		pl.work.push_back(w);
	}
	if (dying && r.chance(60)) {
		// Whoever blocks the workers or the responder leaves the queues full.
		int n = r.chance(60) ? pl.workers : r.below(2);
		for (int i = 0; i < n; i++) pl.work.insert(pl.work.begin(), {{id++, K_HEAP, STALL_PARTIAL, 10, r.next(), 0}});
		if (r.chance(60)) pl.work.insert(pl.work.begin(), {{id++, K_HEAP, STALL_NOREAD, 3000000, r.next(), 0}});
	}
	return pl;
}
static int pick_port() {
	static int next = 12000 + (int)(H.start / std::max<uint64_t>(H.cases, 1) % 8) * 2000 + (int)(H.seed % 1000);
	for (;;) {
		int p = next++;
		int s = socket(AF_INET, SOCK_STREAM, 0), one = 1;
		setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		struct sockaddr_in a = {};
		a.sin_family = AF_INET; a.sin_port = htons(p); a.sin_addr.s_addr = htonl(INADDR_ANY);
		bool ok = bind(s, (struct sockaddr *)&a, sizeof a) == 0 && __real_listen(s, 1) == 0;
		close(s);
		if (ok) return p;
	}
}
static void died(int st, const char *who) {
	fprintf(stderr, "HARNESS: %s: status %x\n", who, st);
	if (WIFSIGNALED(st)) { signal(WTERMSIG(st), SIG_DFL); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); kill(getpid(), WTERMSIG(st)); pause(); }
	_exit(WEXITSTATUS(st) ? WEXITSTATUS(st) : 70);
}
static void remove_queues() {
	for (const char *q : {"mothsaqueue", "mothshqueue"}) __real_mq_unlink(fmt("/m38verif.%s.%s", queue_tag, q).c_str());
	for (int i = 0, k = std::min(queues_made->n.load(), 16); i < k; i++) __real_mq_unlink(queues_made->names[i]);
	queues_made->n = 0;
}
static void restart(Rng &r) {
	S = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::atomic<int> *rcs = (std::atomic<int> *)mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (!queues_made) queues_made = (Opened *)mmap(NULL, sizeof(Opened), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	snprintf(queue_tag, sizeof queue_tag, "%d.%d", (int)getpid(), (int)(H.kase % 100000));
	case_rng_seed = r.next();
	DEADLINE = 40;
	H.cpu_disarm();
	int port = pick_port(), id = 1;
	int killed = r.chance(20) ? 0 : r.range(1, 3);
	str story;
	uint64_t sig = 0;
	// Earlier runs, killed.
	for (int g = 0; g < killed; g++) {
		Plan pl = make_small(r, id, true);
		long crash = r.chance(75) ? (r.chance(30) ? r.range(1, 12) : r.range(1, 250)) : 0;
		int ms = crash ? 400 : r.range(0, 200);
		story += fmt("server with %d workers killed %s%ld; ", pl.workers, crash ? "at event " : "after ms ", crash ? crash : (long)ms);
		H.note(story);
		S->port = 0;
		pid_t srv = start_server(pl, r.chance(70) ? port : pick_port(), crash, true, rcs), cl = -1;
		long t0 = now_ms();
		int st = 0;
		while (!gone(srv, &st) && now_ms() - t0 < 20000) {
			if (S->port.load() && cl < 0) { cl = start_clients(pl, true); t0 = now_ms(); }
			if (cl > 0 && now_ms() - t0 > ms) break;
			usleep(500);
		}
		if (srv < 0) {
			if (!WIFSIGNALED(st) || WTERMSIG(st) != SIGKILL) {
				finish_off(cl);
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0) H.violation("serve-returned", fmt("m38_http_serve returned %d on a free port (", rcs->load()) + story + ")");
				else if (!S->failed) died(st, "a server that was to be killed");
			} else H.stat("killed_at_event");
		} else H.stat("killed_by_time");
		finish_off(srv);
		finish_off(cl);
		H.stat("servers_killed");
		if (H.violations || S->failed) break;
		struct mq_attr at;
		for (const char *q : {"mothsaqueue", "mothshqueue"}) {
			mqd_t d = __real_mq_open(fmt("/m38verif.%s.%s", queue_tag, q).c_str(), O_RDONLY);
			if (d != (mqd_t)-1) { if (mq_getattr(d, &at) == 0 && at.mq_curmsgs > 0) { H.stat("messages_left_behind", at.mq_curmsgs); sig = hash64(&at.mq_curmsgs, sizeof at.mq_curmsgs, sig); } mq_close(d); }
		}
		sig = hash64(&crash, sizeof crash, sig);
	}
	// What can also be left: only one of the two queues, queues of another size,
	// messages of a run that is long gone.
	if (!S->failed && !H.violations) for (const char *q : {"mothsaqueue", "mothshqueue"}) {
		if (r.chance(55)) continue;
		const str name = fmt("/m38verif.%s.%s", queue_tag, q);
		__real_mq_unlink(name.c_str());
		if (r.chance(25)) { H.stat("queues_removed"); story += fmt("%s removed; ", q); continue; }
		struct mq_attr at = {}; at.mq_maxmsg = r.chance(70) ? 10 : r.range(1, 10); at.mq_msgsize = r.chance(75) ? (long)sizeof(void *) : r.pick(std::vector<long>{1, 4, 16, 64, 8192});
		mqd_t d = __real_mq_open(name.c_str(), O_CREAT | O_EXCL | O_RDWR | O_NONBLOCK, r.chance(85) ? 0750 : 0700, &at);
		if (d == (mqd_t)-1) continue;
		int n = r.chance(15) ? 0 : r.chance(30) ? at.mq_maxmsg : r.range(1, at.mq_maxmsg);
		for (int i = 0; i < n; i++) {
			char m[8192] = {0}; uint64_t v = r.chance(30) ? r.below(40) : r.chance(50) ? 0x10 + 8 * r.below(1000) : 0x7f0000000000ULL + 16 * r.below(100000);
			memcpy(m, &v, std::min<size_t>(8, at.mq_msgsize));
			if (__real_mq_send(d, m, r.chance(90) ? std::min<size_t>(sizeof(void *), at.mq_msgsize) : r.below(at.mq_msgsize + 1), r.chance(90) ? 0 : r.below(10)) == 0) H.stat("messages_planted");
		}
		mq_close(d);
		H.stat("queues_planted");
		story += fmt("%s left with %d messages of %ld; ", q, n, at.mq_msgsize);
		sig = hash64(&n, sizeof n, sig);
	}
	std::vector<int> before(MAXID);
	const int first_id = id;
	for (int i = 0; i < MAXID; i++) before[i] = S->handled[i].load();
	// Sometimes something else has the port first.
	if (!S->failed && !H.violations && r.chance(25)) {
		int s = socket(AF_INET, SOCK_STREAM, 0), one = 1, st = 0;
		setsockopt(s, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
		struct sockaddr_in a = {};
		a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(INADDR_ANY);
		if (bind(s, (struct sockaddr *)&a, sizeof a) == 0 && __real_listen(s, 1) == 0) {
			Plan pl = make_small(r, id, false);
			S->port = 0;
			pid_t b = start_server(pl, port, 0, true, rcs);
			long t0 = now_ms();
			while (!gone(b, &st) && now_ms() - t0 < 20000) usleep(500);
			if (b > 0) H.violation("no-failure", "starting on an occupied port did not return within 20 s");
			else if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (!S->failed) died(st, "a server on an occupied port"); }
			else if (rcs->load() == 0) H.violation("no-failure", "starting on an occupied port returned success");
			else H.stat("refused_starts");
			finish_off(b);
			story += "one refused start; ";
		}
		close(s);
	}
	// The server that has to work, and others that want its port.
	if (!S->failed && !H.violations) {
		Plan pl = make_small(r, id, false);
		int rivals = r.chance(50) ? r.range(1, 4) : 0, at_start = r.below(rivals + 1);
		story += fmt("%d workers serving, %d rivals, %d of them from the start, delay %d%%", pl.workers, rivals, at_start, pl.delay);
		H.note(story);
		S->port = 0;
		pid_t rv[4] = {-1, -1, -1, -1};
		int st = 0, rst[4] = {0};
		for (int i = 0; i < at_start; i++) rv[i] = start_server(pl, port, 0, false, rcs + 1 + i, true);
		pid_t srv = start_server(pl, port, 0, true, rcs), cl = -1;
		long t0 = now_ms();
		while (S->port.load() == 0 && !gone(srv, &st) && now_ms() - t0 < 20000) usleep(200);
		if (srv < 0) { if (WIFEXITED(st) && WEXITSTATUS(st) == 0) fail("serve-returned", fmt("m38_http_serve returned %d on a free port", rcs->load())); else if (!S->failed) died(st, "the server"); }
		else if (S->port.load() == 0) fail("never-listened", "the server did not listen within 20 s");
		if (!S->failed) {
			cl = start_clients(pl, false);
			for (int i = at_start; i < rivals; i++) { usleep(r.below(30000)); rv[i] = start_server(pl, port, 0, false, rcs + 1 + i); }
			t0 = now_ms();
			while (!gone(cl, &st) && now_ms() - t0 < 100000) {
				if (S->failed.load() == 2) break;
				if (gone(srv, &st)) { if (WIFEXITED(st) && WEXITSTATUS(st) == 0) fail("serve-returned", fmt("m38_http_serve returned %d while clients were being served", rcs->load())); else if (!S->failed) { finish_off(cl); for (pid_t &p : rv) finish_off(p); died(st, "the server"); } break; }
				usleep(300);
			}
			if (cl > 0 && !S->failed) fail("unanswered", "the clients did not finish within 100 s");
			for (int i = 0; i < rivals && !S->failed; i++) {
				t0 = now_ms();
				while (!gone(rv[i], &rst[i]) && now_ms() - t0 < 20000) usleep(300);
				if (rv[i] > 0) fail("no-failure", "starting on a port that is being served did not return within 20 s");
				else if (!WIFEXITED(rst[i]) || WEXITSTATUS(rst[i])) { finish_off(srv); finish_off(cl); died(rst[i], "a rival server"); }
				else if (rcs[1 + i].load() == 0) fail("no-failure", "starting on a port that is being served returned success");
				else H.stat("rivals_refused");
			}
			// Whoever failed to start left the running server as it was.
			if (!S->failed && rivals) {
				Plan more = make_small(r, id, false);
				S->port = port;
				cl = start_clients(more, false);
				t0 = now_ms();
				while (!gone(cl, &st) && S->failed.load() != 2 && now_ms() - t0 < 100000) usleep(300);
				if (cl > 0 && !S->failed) fail("unanswered", "clients after the rivals did not finish within 100 s");
				pl.work.insert(pl.work.end(), more.work.begin(), more.work.end());
			}
		}
		if (!S->failed) {
			for (auto &w : pl.work) for (auto &q : w) if (q.kind != K_404 && S->handled[q.id].load() != 1) { fail("handled-count", fmt("request %d was passed to %d handler calls", q.id, S->handled[q.id].load())); }
			for (int i = 0; i < first_id; i++) if (S->handled[i].load() != before[i]) fail("acted-on-leftover", fmt("request %d of a killed server was handled by a later one", i));
		}
		finish_off(srv); finish_off(cl);
		for (pid_t &p : rv) finish_off(p);
		sig = hash64(&rivals, sizeof rivals, sig);
	}
	remove_queues();
	if (S->failed) { for (int i = 0; i < 100 && S->failed != 2; i++) usleep(1000); H.violation(S->key, str(S->msg) + " [" + story + "]"); }
	H.stat("answered", S->answered.load());
	H.stat("handler_calls", S->handler_calls.load());
	H.nontrivial(hash64(story, sig));
	H.sample(story);
	munmap(S, sizeof *S); munmap(rcs, 4096);
}

static void one(Rng &r) {
	case_rng_seed = r.next();
	Plan pl = make_plan(r);
	S = (Shared *)mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	Result *res = (Result *)mmap(NULL, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	int reqs = 0, hostile = 0, stalls = 0;
	for (auto &w : pl.work) for (auto &q : w) { reqs++; hostile += q.manner > GOOD_SPLIT; stalls += q.manner >= STALL_IDLE; }
	str desc = fmt("%d workers, %zu clients, %d requests (%d hostile, %d stalling), delay %d%%, eintr %d%%, accept faults %d, spare fds %d", pl.workers, pl.work.size(), reqs, hostile, stalls, pl.delay, pl.eintr, pl.accept_faults, pl.nofile);
	H.note(desc);
	fflush(NULL);
	H.cpu_disarm();
	if (!queues_made) queues_made = (Opened *)mmap(NULL, sizeof(Opened), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	snprintf(queue_tag, sizeof queue_tag, "%d.%d", (int)getpid(), (int)(H.kase % 100000));
	pid_t pid = fork();
	if (pid == 0) { setpgid(0, 0); prctl(PR_SET_PDEATHSIG, SIGKILL); server_process(pl, res); }
	int st = 0;
	// The server process has its own limits; this one is for a server that cannot even run those.
	for (long t0 = now_ms(), failed_at = 0; waitpid(pid, &st, WNOHANG) == 0; usleep(1000)) {
		if (S->failed && !failed_at) failed_at = now_ms();
		bool late = now_ms() - t0 > (pl.heap ? 3 : 1) * 240000L;
		if (!late && !(failed_at && now_ms() - failed_at > 15000)) continue;
		kill(-pid, SIGKILL); kill(pid, SIGKILL);
		waitpid(pid, &st, 0);
		if (!S->failed) fail("server-stuck", "the server process hung");
		st = 10 << 8;
		break;
	}
	kill(-pid, SIGKILL);
	remove_queues();
	if (WIFSIGNALED(st)) { fprintf(stderr, "HARNESS: server died of signal %d\n", WTERMSIG(st)); signal(WTERMSIG(st), SIG_DFL); struct rlimit z = {0, 0}; setrlimit(RLIMIT_CORE, &z); kill(getpid(), WTERMSIG(st)); pause(); }
	int rc = WEXITSTATUS(st);
	if (S->failed) { for (int i = 0; i < 100 && S->failed != 2; i++) usleep(1000); H.violation(S->key, str(S->msg) + " [" + desc + "]"); }
	else if (rc != 0) _exit(rc);
	static const char *names[] = {"accepted", "accept_faults", "interrupted_calls", "delays", "queue_messages", "requeue_found_full", "answered", "hostile_clients", "handler_calls", "cleanup_calls", NULL, "events", "access_records", "log_lines"};
	for (int i = 0; i < 14; i++) if (names[i]) H.stat(names[i], res->v[i]);
	H.stat("stalling_clients", stalls);
	H.stat("latency_ms_sum_of_max", res->v[10]);
	if (pl.workers > 1 || pl.work.size() > 1) H.nontrivial(res->sig);
	H.sample(desc + fmt("; %ld events, slowest answer %ld ms", res->v[11], res->v[10]));
	munmap(S, sizeof *S); munmap(res, sizeof *res);
}

int main(int argc, char **argv) {
	H.parse(argc, argv);
	if (chdir(H.opts["scratch"].c_str())) return 70;
	signal(SIGPIPE, SIG_DFL);
	H.max_violations = 1;
	Rng r(42);
	auto put = [&](const char *n, const str &d, const char *t) { FILE *f = fopen(n, "w"); if (!f || (d.size() && fwrite(d.data(), 1, d.size(), f) != d.size()) || fclose(f)) exit(70); files.push_back({n, d, t}); };
	put("a.txt", r.alnum(3000), "text/plain");
	put("b.css", "", "text/css");
	put("c.html", r.bytes(150000), "text/html");
	put("d.bin", r.bytes(4096), "application/octet-stream");
	put("t.html", "<xXx @NAME xXx>\nxXx LOOP i LIST xXx[xXx @i xXx]xXx BBL xXx\nend\n", "text/html");
	files.pop_back();
	H.run(H.mode == "C23" ? restart : one);
	return H.finish();
}
