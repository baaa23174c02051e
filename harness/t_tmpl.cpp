// C15-C18: the template engine against a reference interpreter.
#include "tmpl_model.hpp"
#include <sys/wait.h>
#include <sys/resource.h>
using namespace tpl;

static str scratch;

static void write_files(const Files &f) {
	for (auto &p : f) {
		if (p.first.find("sub/") != str::npos) mkdir("sub", 0700);
		int fd = open(p.first.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		if (fd < 0 || write(fd, p.second.data(), p.second.size()) != (ssize_t)p.second.size()) { fprintf(stderr, "HARNESS: cannot write %s\n", p.first.c_str()); exit(70); }
		close(fd);
	}
}
static void remove_files(const Files &f) { for (auto &p : f) unlink(p.first.c_str()); }

static str where(const str &a, const str &b) {
	size_t i = 0;
	while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
	size_t s = i > 40 ? i - 40 : 0;
	return fmt("first difference at %zu: want \"...%s\" got \"...%s\"", i, show(a.substr(s, 120)).c_str(), show(b.substr(s, 120)).c_str());
}

struct Doc { str text, want; std::vector<Call> calls; Files files; };

// Renders once and compares everything observable.
static bool render_once(const greshunkel_ctext *g, const Doc &d, bool null_size, const char *when) {
	Log log;
	flog = &log;
	size_t size = (size_t)-1;
	char *got;
	{
		Exact e(d.text);
		str before(e.p, e.n);
		got = gshkl_render(g, e.p, e.n, null_size ? NULL : &size);
		if (e.n && memcmp(e.p, before.data(), e.n)) H.violation("template-changed", fmt("%s: rendering changed the template's bytes", when));
	}
	flog = nullptr;
	if (!got) { H.violation("render-null", fmt("%s: rendering returned NULL for %s", when, show(d.text).c_str())); return false; }
	str out(got);
	free(got);
	bool ok = true;
	if (out != d.want) { H.violation("render-text", fmt("%s: template \"%s\": ", when, show(d.text, 1500).c_str()) + where(d.want, out)); ok = false; }
	else if (!null_size && size != chomp(d.want).size()) { H.violation("render-size", fmt("%s: reported size %zu for %zu bytes ending in \"%s\": template \"%s\"", when, size, d.want.size(), show(d.want.substr(d.want.size() > 5 ? d.want.size() - 5 : 0)).c_str(), show(d.text, 800).c_str())); ok = false; }
	if (log.calls != d.calls) {
		size_t i = 0;
		while (i < log.calls.size() && i < d.calls.size() && log.calls[i] == d.calls[i]) i++;
		str w = i < d.calls.size() ? fmt("filter %d arg %s", d.calls[i].fn, d.calls[i].has ? show(d.calls[i].arg).c_str() : "(none)") : "no call";
		str h = i < log.calls.size() ? fmt("filter %d arg %s", log.calls[i].fn, log.calls[i].has ? show(log.calls[i].arg).c_str() : "(none)") : "no call";
		H.violation("filter-calls", fmt("%s: call %zu: want %s, saw %s: template \"%s\"", when, i, w.c_str(), h.c_str(), show(d.text, 800).c_str()));
		ok = false;
	}
	if (!log.bad.empty() || !log.live.empty()) { H.violation("filter-cleanup", fmt("%s: %s; %zu filter results never cleaned up", when, log.bad.c_str(), log.live.size())); ok = false; }
	H.stat("renders");
	return ok;
}

static bool make_doc(Gen &g, Doc &d) {
	g.files.clear();
	g.huge = false;
	d.text = g.tmpl();
	d.files = g.files;
	Interp in;
	in.files = &d.files;
	try { d.want = in.render(g.ctx, d.text); } catch (Trouble &) { return false; }
	if (in.cost > 6e7 || (d.want.size() > 300000 && !g.huge)) return false; // includes multiply: seconds of work for one template
	d.calls = in.calls;
	return true;
}

// Other values under the same names.
static void vary(Rng &r, Val &v) {
	if (v.type == Val::STR) { if (r.chance(70)) { v.s = r.chance(15) ? "" : r.chance(15) ? "FALSE" : r.alnum(r.below(60)); for (char &c : v.s) if (c == 'x' || c == 'X') c = 'q'; } }
	else if (v.type == Val::INT) { if (r.chance(70)) { v.n = (int)r.next(); v.s = std::to_string(v.n); } }
	else if (v.type == Val::SUB) { auto n = std::make_shared<Ctx>(*v.sub); for (auto &x : n->vals) vary(r, x.second); v.sub = n; }
	else for (auto &x : v.arr) vary(r, x);
}
static bool varied(Rng &r, const Gen &g, const Doc &d, Ctx &ctx, Doc &other) {
	ctx = g.ctx;
	for (auto &x : ctx.vals) vary(r, x.second);
	other = d; other.calls.clear();
	Interp in;
	in.files = &other.files;
	try { other.want = in.render(ctx, other.text); } catch (Trouble &) { return false; }
	other.calls = in.calls;
	return true;
}

static void count(const Gen &g) {
	H.stat("variables", g.n_vars); H.stat("loops", g.n_loops); H.stat("conditionals", g.n_conds); H.stat("includes", g.n_incs); H.stat("filter_calls", g.n_calls);
}

static void one(Rng &r, bool blocks, bool includes, bool filters) {
	Gen g(r, blocks, includes, filters);
	g.context();
	Doc d;
	if (!make_doc(g, d)) { H.stat("skipped"); return; }
	count(g);
	H.note("template " + show(d.text, 3000));
	write_files(d.files);
	greshunkel_ctext *c = build(g.ctx);
	bool ok = render_once(c, d, r.chance(10), "first render");
	if (ok && r.chance(20)) render_once(c, d, false, "second render");
	if (ok && r.chance(25)) {
		// the same template with other values, the first context gone or not
		Ctx ctx; Doc o;
		if (varied(r, g, d, ctx, o)) {
			bool both = r.chance(50);
			if (!both) { gshkl_free_context(c); c = NULL; }
			greshunkel_ctext *c2 = build(ctx);
			ok = render_once(c2, o, false, "with other values");
			if (both && ok) { ok = render_once(c, d, false, "with the first values again"); if (ok) render_once(c2, o, false, "with the other values again"); }
			gshkl_free_context(c2);
			H.stat("other_values");
		}
	}
	if (c && ok && !d.files.empty() && r.chance(12)) {
		// the files say something else by now
		Doc n = d;
		n.calls.clear();
		for (auto &f : n.files) if (r.chance(60)) f.second = r.chance(30) ? f.second + "\nmore " + g.plain(r.below(20)) + "\n" : r.chance(30) ? "" : g.plain(r.below(80)) + "\n";
		Interp in;
		in.files = &n.files;
		bool sound = true;
		try { n.want = in.render(g.ctx, n.text); } catch (Trouble &) { sound = false; }
		if (sound && in.cost < 6e7) {
			n.calls = in.calls;
			write_files(n.files);
			render_once(c, n, false, "after its files changed");
			H.stat("files_changed");
		}
	}
	if (c) gshkl_free_context(c);
	remove_files(d.files);
	if (d.want.size() > 1000000) H.stat("megabytes");
	H.stat("empty_template", d.text.empty());
	H.stat("big_template", d.text.size() > 4096);
	if (g.n_vars + g.n_loops + g.n_conds + g.n_incs + g.n_calls) { H.nontrivial(hash64(d.text, hash64(d.want))); H.sample(show(d.text, 200) + " -> " + show(d.want, 200)); }
}

// Exactly one of the two conditionals is rendered, whatever the name stands for.
static void complement(Rng &r, bool pure = false) {
	Gen g(r, true, false, false);
	g.context();
	str n = r.chance(15) ? g.name(false) : g.ctx.vals.empty() ? "a" : r.pick(g.ctx.vals).first;
	for (char &c : n) if (!letter(c) && c != '_') return;
	// and for a string member of a sub-context
	if (r.chance(40) && !g.ctx.find("sub_ctx")) {
		Val sub; sub.type = Val::SUB; sub.sub = std::make_shared<Ctx>();
		for (int i = r.below(4); i >= 0; i--) { Val m; m.s = r.chance(60) ? r.pick(std::vector<str>{"", "FALSE", "TRUE", "False", "FALSEY", "0", " "}) : r.alnum(r.below(40)); sub.sub->vals.push_back({r.pick(std::vector<str>{"name", "nam", "names", "k", "sub_ctx", n}), m}); }
		n = "sub_ctx";
		g.ctx.vals.push_back({n, sub});
	}
	const Val *v = g.ctx.find(n);
	if (v && v->type == Val::SUB && !v->sub->vals.empty()) {
		str m = r.pick(v->sub->vals).first;
		bool text = true;
		for (auto &x : v->sub->vals) if (x.first == m) { text = text && x.second.type == Val::STR; }
		for (char &c : m) if (!letter(c) && c != '_') text = false;
		if (text) { n += "." + m; H.stat("complement_member"); }
	}
	str t = "xXx UNLESS @" + n + " xXx[no]xXx ENDLESS xXxxXx UNLESS NOT @" + n + " xXx[yes]xXx ENDLESS xXx";
	greshunkel_ctext *c = build(g.ctx);
	if (pure) { // nothing left behind, nothing changed, the same again
		const uint64_t before = digest(c);
		str first;
		for (int i = 0; i < 2; i++) leak_checked("render-leak", t, [&]() {
			char *out = gshkl_render(c, t.data(), t.size(), NULL);
			if (i && first != out) H.violation("render-changes", t + ": first " + show(first) + ", then " + show(out));
			first = out;
			free(out);
		});
		if (digest(c) != before) H.violation("context-changed", "rendering changed its context: " + t);
		H.stat("pure_conditionals");
		gshkl_free_context(c);
		return;
	}
	size_t sz = 0;
	Exact e(t);
	char *out = gshkl_render(c, e.p, e.n, &sz);
	if (strcmp(out, "[no]") && strcmp(out, "[yes]")) H.violation("conditional-complement", "on @" + n + " both or none of the conditionals rendered: " + show(out));
	H.stat(strcmp(out, "[no]") ? "complement_yes" : "complement_no");
	free(out);
	gshkl_free_context(c);
}

// C18: one context, several templates, any order, heap and context watched.
static void pure(Rng &r0) {
	const uint64_t seed = r0.next();
	if (r0.chance(10)) { leak_checked("context-leak", "building, rendering and freeing a context", [seed]() { Rng r(seed); complement(r, true); }); return; }
	leak_checked("context-leak", "building, rendering and freeing a context", [seed]() {
		Rng r(seed);
		Gen g(r, true, true, true);
		g.context();
		std::vector<Doc> docs;
		int n = r.below(4);
		for (int i = 0; i < n; i++) { Doc d; if (make_doc(g, d)) docs.push_back(d); }
		Files all;
		bool clash = false;
		for (auto &d : docs) for (auto &f : d.files) { if (all.count(f.first) && all[f.first] != f.second) clash = true; all[f.first] = f.second; }
		if (clash) return;
		count(g);
		write_files(all);
		greshunkel_ctext *c = build(g.ctx);
		const uint64_t before = digest(c);
		int m = docs.empty() ? 0 : r.range(1, 6);
		for (int i = 0; i < m; i++) {
			Doc &d = docs[r.below(docs.size())];
			H.note("template " + show(d.text, 3000));
			leak_checked("render-leak", show(d.text, 800), [&]() { render_once(c, d, false, i ? "repeated render" : "first render"); });
			if (digest(c) != before) { H.violation("context-changed", "rendering changed its context: " + show(d.text, 800)); break; }
		}
		gshkl_free_context(c);
		remove_files(all);
		if (m > 1) { uint64_t h = seed; for (auto &d : docs) h = hash64(d.text, h); H.nontrivial(h); H.sample(fmt("%d renders of %zu templates, first ", m, docs.size()) + show(docs[0].text, 200)); }
		if (m == 0) H.stat("never_rendered");
		H.stat("contexts");
	});
}

// C18: several threads rendering from the same context at once.
struct Work { const greshunkel_ctext *c; const std::vector<Doc> *docs; std::vector<int> order; pthread_barrier_t *bar; str bad; long renders = 0; };
static void *renderer(void *arg) {
	Work *w = (Work *)arg;
	pthread_barrier_wait(w->bar);
	for (int i : w->order) {
		const Doc &d = (*w->docs)[i];
		Log log;
		flog = &log;
		size_t size = 0;
		char *got = gshkl_render(w->c, d.text.data(), d.text.size(), &size);
		flog = nullptr;
		w->renders++;
		if (d.want != got || size != chomp(d.want).size()) { if (w->bad.empty()) w->bad = "template " + show(d.text, 800) + ": " + where(d.want, got); }
		else if (log.calls != d.calls || !log.bad.empty() || !log.live.empty()) { if (w->bad.empty()) w->bad = "filter calls differ: template " + show(d.text, 800); }
		free(got);
	}
	return NULL;
}
static void threads(Rng &r) {
	Gen g(r, true, true, true);
	g.context();
	std::vector<Doc> docs;
	for (int i = 0; i < 4; i++) { Doc d; if (make_doc(g, d) && d.text.size() < 6000) docs.push_back(d); }
	Files all;
	for (auto &d : docs) for (auto &f : d.files) { if (all.count(f.first) && all[f.first] != f.second) return; all[f.first] = f.second; }
	if (docs.empty()) return;
	count(g);
	write_files(all);
	greshunkel_ctext *c = build(g.ctx);
	const uint64_t before = digest(c);
	const int T = r.range(2, 6);
	pthread_barrier_t bar;
	pthread_barrier_init(&bar, NULL, T);
	std::vector<Work> ws(T);
	std::vector<pthread_t> ts(T);
	for (int i = 0; i < T; i++) {
		ws[i].c = c; ws[i].docs = &docs; ws[i].bar = &bar;
		int n = r.range(1, 6);
		for (int j = 0; j < n; j++) ws[i].order.push_back(r.below(docs.size()));
	}
	H.note(fmt("%d threads, first template ", T) + show(docs[0].text, 2000));
	for (int i = 0; i < T; i++) pthread_create(&ts[i], NULL, renderer, &ws[i]);
	for (int i = 0; i < T; i++) { pthread_join(ts[i], NULL); H.stat("concurrent_renders", ws[i].renders); if (!ws[i].bad.empty()) H.violation("concurrent-render", ws[i].bad); }
	pthread_barrier_destroy(&bar);
	if (digest(c) != before) H.violation("context-changed", "concurrent rendering changed the context");
	gshkl_free_context(c);
	remove_files(all);
	H.nontrivial(hash64(docs[0].text, T));
	H.sample(fmt("%d threads x %zu templates", T, docs.size()));
}

// Values and filter results that hold directives, each in a process of its own.
static void as_data(Rng &) {
	struct { const char *key, *var, *value, *tmpl, *want; bool filter; } cases[] = {
		{"value-directive-self", "v", "xXx @v xXx", "a xXx @v xXx b", "a xXx @v xXx b", false},
		{"value-directive-other", "v", "xXx @w xXx", "a xXx @v xXx b", "a xXx @w xXx b", false},
		{"value-directive-unknown", "v", "xXx @nope xXx", "a xXx @v xXx b", "a xXx @nope xXx b", false},
		{"value-directive-filter", "v", "XxX f arg XxX", "a xXx @v xXx b", "a XxX f arg XxX b", false},
		{"value-directive-include", "v", "xXx SCREAM inc xXx", "xXx @v xXx b", "xXx SCREAM inc xXx b", false},
		{"filter-result-directive", "v", "XxX f q XxX", "a XxX id xXx @w xXx XxX b", "a XxX f W XxX b", true},
	};
	for (auto &k : cases) {
		if (k.filter != (H.mode == "C17data")) continue;
		int p[2];
		if (pipe(p)) exit(70);
		pid_t pid = fork();
		if (pid == 0) {
			struct rlimit rl = {2, 2};
			setrlimit(RLIMIT_CPU, &rl);
			rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
			freopen("/dev/null", "w", stderr);
			struct itimerval t = {{0, 0}, {0, 0}};
			setitimer(ITIMER_PROF, &t, NULL);
			Files f = {{"inc", "included"}};
			write_files(f);
			greshunkel_ctext *c = gshkl_init_context();
			gshkl_add_string(c, k.var, k.value);
			gshkl_add_string(c, "w", "W");
			gshkl_add_filter(c, "f", REAL[F_FIXED], NULL);
			gshkl_add_filter(c, "id", [](const char *a) -> char * { return strdup(fmt("XxX f %s XxX", a).c_str()); }, gshkl_filter_cleanup);
			size_t n = 0;
			char *out = gshkl_render(c, k.tmpl, strlen(k.tmpl), &n);
			if (write(p[1], out, strlen(out))) {}
			_exit(0);
		}
		close(p[1]);
		str out;
		char b[4096];
		for (ssize_t n; (n = read(p[0], b, sizeof b)) > 0;) out.append(b, n);
		close(p[0]);
		int st = 0;
		waitpid(pid, &st, 0);
		H.stat("data_cases");
		H.nontrivial(hash64(k.key, strlen(k.key)));
		if (st != 0 || out != k.want) H.violation(k.key, fmt("template \"%s\" with %s = \"%s\": want \"%s\", got \"%s\" (status %d)", k.tmpl, k.var, k.value, k.want, show(out).c_str(), st));
	}
}

// C20: cases for the Python classes, one JSON object per line.
static str hexed(const str &s) { str o; for (unsigned char c : s) o += fmt("%02x", c); return "\"" + o + "\""; }
static str emit_val(const Val &v);
static str emit_ctx(const Ctx &c) {
	str o = "[";
	std::set<str> seen; // a dict has one value per key; the first definition is the one that counts
	for (auto &v : c.vals) if (seen.insert(v.first).second) o += (o.size() > 1 ? "," : "") + ("[" + hexed(v.first)) + "," + emit_val(v.second) + "]";
	return o + "]";
}
static str emit_val(const Val &v) {
	if (v.type == Val::STR) return "{\"s\":" + hexed(v.s) + "}";
	if (v.type == Val::INT) return fmt("{\"i\":%ld}", v.n);
	if (v.type == Val::SUB) return "{\"d\":" + emit_ctx(*v.sub) + "}";
	str o = "{\"l\":[";
	for (size_t i = 0; i < v.arr.size(); i++) o += (i ? "," : "") + emit_val(v.arr[i]);
	return o + "]}";
}
static bool utf8(const str &s) {
	for (size_t i = 0; i < s.size();) {
		unsigned char c = s[i];
		int n = c < 0x80 ? 0 : c >= 0xc2 && c < 0xe0 ? 1 : c >= 0xe0 && c < 0xf0 ? 2 : c >= 0xf0 && c < 0xf5 ? 3 : -1;
		if (n < 0 || i + n >= s.size() + (n == 0)) return false;
		for (int k = 1; k <= n; k++) if ((s[i + k] & 0xc0) != 0x80) return false;
		i += n + 1;
	}
	return true;
}
static void emit(Rng &r) {
	static FILE *f = fopen(H.opts["emit"].c_str(), "w");
	int k = r.below(4);
	Gen g(r, k != 0, k > 1, k != 2);
	g.utf8_only = true;
	g.context();
	for (auto &x : g.ctx.filters) if (x.fn == F_REV) x.fn = F_WRAP; // no halves of characters
	for (auto &x : g.ctx.filters) for (auto &v : g.ctx.vals) if (x.name == v.first) return; // one dict holds both
	Doc d;
	if (!make_doc(g, d) || !utf8(d.text) || !utf8(d.want)) return;
	for (auto &x : d.files) if (!utf8(x.second)) return;
	Ctx ctx2; Doc d2;
	if (!varied(r, g, d, ctx2, d2)) return;
	str fl = "[", fi = "[", ca = "[";
	std::set<str> seen;
	for (auto &x : g.ctx.filters) if (seen.insert(x.name).second) fl += (fl.size() > 1 ? "," : "") + ("[" + hexed(x.name)) + fmt(",%d]", x.fn);
	for (auto &x : d.files) fi += (fi.size() > 1 ? "," : "") + ("[" + hexed(x.first)) + "," + hexed(x.second) + "]";
	for (auto &x : d.calls) ca += fmt("%s[%d,%d,", ca.size() > 1 ? "," : "", x.fn, (int)x.has) + hexed(x.arg) + "]";
	str ca2 = "[";
	for (auto &x : d2.calls) ca2 += fmt("%s[%d,%d,", ca2.size() > 1 ? "," : "", x.fn, (int)x.has) + hexed(x.arg) + "]";
	fprintf(f, "{\"want2\":%s,\"ctx2\":%s,\"calls2\":%s],", hexed(d2.want).c_str(), emit_ctx(ctx2).c_str(), ca2.c_str());
	fprintf(f, "\"case\":%llu,\"text\":%s,\"want\":%s,\"ctx\":%s,\"filters\":%s],\"files\":%s],\"calls\":%s]}\n", (unsigned long long)H.kase,
		hexed(d.text).c_str(), hexed(d.want).c_str(), emit_ctx(g.ctx).c_str(), fl.c_str(), fi.c_str(), ca.c_str());
	fflush(f);
}

int main(int argc, char **argv) {
	H.parse(argc, argv);
	if (chdir(H.opts["scratch"].c_str())) return 70;
	H.max_violations = 8;
	const str &m = H.mode;
	if (m == "C15") H.run([](Rng &r) { one(r, false, false, false); });
	else if (m == "C16") H.run([](Rng &r) { if (r.chance(15)) complement(r); else one(r, true, r.chance(20), false); });
	else if (m == "C17") H.run([](Rng &r) { int k = r.below(3); one(r, r.chance(30), k != 1, k != 0); });
	else if (m == "C18") H.run(pure);
	else if (m == "threads") H.run(threads);
	else if (m == "C15data" || m == "C17data") H.run(as_data);
	else if (m == "emit") H.run(emit);
	else return 70;
	return H.finish();
}
