// A reference interpreter for the GRESHUNKEL template language, written from its
// documented meaning, and generators of contexts and templates for it.
#pragma once
#include "common.hpp"

namespace tpl {

struct Ctx;
struct Val {
	enum { STR, INT, ARR, SUB } type = STR;
	str s;                               // STR, INT (decimal)
	long n = 0;
	std::vector<Val> arr;                // ARR
	std::shared_ptr<Ctx> sub;            // SUB
};
struct Filter { str name; int fn; };
struct Ctx {
	std::vector<std::pair<str, Val>> vals;
	std::vector<Filter> filters;
	const Ctx *parent = nullptr;
	const Val *find(const str &n) const {
		for (const Ctx *c = this; c; c = c->parent)
			for (auto &v : c->vals) if (v.first == n) return &v.second;
		return nullptr;
	}
	const Filter *find_filter(const str &n) const {
		for (const Ctx *c = this; c; c = c->parent)
			for (auto &f : c->filters) if (f.name == n) return &f;
		return nullptr;
	}
};

struct Call { int fn; bool has; str arg; bool operator==(const Call &o) const { return fn == o.fn && has == o.has && arg == o.arg; } };
typedef std::map<str, str> Files;

str apply_filter(int fn, bool has, const str &arg);

static bool sp(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static bool word(char c) { return letter(c) || c == '_' || (c >= '0' && c <= '9'); }
static str chomp(str s) { if (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); return s; }

struct Trouble { str why; };

struct Interp {
	const Files *files = nullptr;
	std::vector<Call> calls;
	int depth = 0;
	double cost = 0; // roughly the characters a straightforward implementation looks at

	template <class P> static str take(const str &s, size_t &i, P ok) { size_t a = i; while (i < s.size() && ok(s[i])) i++; return s.substr(a, i - a); }
	static bool lit(const str &s, size_t &i, const char *l) { size_t n = strlen(l); if (s.compare(i, n, l) != 0) return false; i += n; return true; }

	// What is reported leaves out the terminator of the last line. Whether a terminator
	// that comes from elsewhere (an empty value after the last line, a block, a file)
	// counts as the last line's is not judged.
	str render(const Ctx &c, const str &t) {
		if (++depth > 45) throw Trouble{"too deep"};
		str out;
		size_t pos = 0;
		bool own = false;
		while (pos < t.size()) {
			size_t end;
			str piece;
			own = false;
			if (loop(c, t, pos, end, piece) || cond(c, t, pos, end, piece)) {
				out += piece;
				cost += t.size() - pos;
				pos = end;
				continue;
			}
			end = pos;
			while (end < t.size() && t[end] != '\n' && t[end] != '\r') end++;
			if (end < t.size()) { end++; own = true; }
			size_t before = n_included;
			cost += t.size() - pos;
			out += line(c, t.substr(pos, end - pos));
			if (n_included != before) own = false;
			pos = end;
		}
		if (!own && chomp(out).size() != out.size()) throw Trouble{"whose terminator"};
		depth--;
		return out;
	}
	size_t n_included = 0;
	bool loop(const Ctx &c, const str &t, size_t pos, size_t &end, str &piece) {
		size_t i = pos;
		while (i < t.size() && sp(t[i])) i++;
		if (!lit(t, i, "xXx LOOP ")) return false;
		auto nm = [](char ch) { return letter(ch) || ch == '_'; };
		str var = take(t, i, nm);
		if (var.empty() || !lit(t, i, " ")) return false;
		str arr = take(t, i, nm);
		if (arr.empty() || !lit(t, i, " xXx")) return false;
		size_t close = t.find("xXx BBL xXx", i);
		if (close == str::npos) return false;
		str body = t.substr(i, close - i);
		end = close + 11;
		const Val *a = c.find(arr);
		if (!a || a->type != Val::ARR) throw Trouble{"loop over " + arr};
		for (auto &e : a->arr) {
			Ctx inner;
			inner.parent = &c;
			inner.vals.push_back({var, e});
			piece += chomp(render(inner, body));
		}
		return true;
	}
	bool cond(const Ctx &c, const str &t, size_t pos, size_t &end, str &piece) {
		size_t i = pos;
		while (i < t.size() && sp(t[i])) i++;
		if (!lit(t, i, "xXx UNLESS ")) return false;
		bool inverse = lit(t, i, "NOT ");
		if (!lit(t, i, "@")) return false;
		str var = take(t, i, [](char ch) { return letter(ch) || ch == '_' || ch == '.'; });
		if (var.empty() || !lit(t, i, " xXx")) return false;
		size_t close = t.find("xXx ENDLESS xXx", i);
		if (close == str::npos) return false;
		str body = t.substr(i, close - i);
		end = close + 15;
		const Val *v = c.find(var);
		if (v && v->type == Val::INT) throw Trouble{"conditional on an integer"};
		bool truthy = v && (v->type == Val::SUB || (v->type == Val::ARR && !v->arr.empty()) || (v->type == Val::STR && !v->s.empty() && v->s != "FALSE"));
		if (truthy != inverse) return true;
		piece = inverse ? chomp(render(c, body)) : line(c, body);
		return true;
	}
	str line(const Ctx &c, const str &s0) {
		str s;
		// Variables and references into sub-contexts.
		for (size_t i = 0; i < s0.size();) {
			size_t j = i;
			if (lit(s0, j, "xXx @")) {
				str a = take(s0, j, word), b;
				bool dotted = false;
				if (!a.empty() && lit(s0, j, ".")) { dotted = true; b = take(s0, j, word); }
				if (!a.empty() && (!dotted || !b.empty()) && lit(s0, j, " xXx")) {
					const Val *v = c.find(a);
					if (!v) throw Trouble{"no variable " + a};
					if (dotted) {
						if (v->type != Val::SUB) throw Trouble{a + " is no sub-context"};
						const Val *w = nullptr;
						for (auto &x : v->sub->vals) if (x.first == b) { w = &x.second; break; }
						v = w;
						if (!v) throw Trouble{"no " + b + " in " + a};
					}
					if (v->type != Val::STR && v->type != Val::INT) throw Trouble{a + " is no string"};
					s += v->s;
					cost += s0.size();
					i = j;
					continue;
				}
			}
			s += s0[i++];
		}
		// An include line.
		size_t i = 0;
		while (i < s.size() && sp(s[i])) i++;
		if (lit(s, i, "xXx SCREAM ")) {
			str path = take(s, i, [](char ch) { return letter(ch) || ch == '_' || ch == '.' || ch == '/'; });
			if (!path.empty() && lit(s, i, " xXx")) {
				auto f = files->find(path);
				if (f == files->end()) throw Trouble{"no file " + path};
				s = chomp(render(c, f->second));
				n_included++;
			}
		}
		// Filter calls.
		str o;
		for (i = 0; i < s.size();) {
			size_t j = i;
			if (lit(s, j, "XxX ")) {
				str n = take(s, j, word);
				if (!n.empty()) {
					size_t close = s.find(" XxX", j);
					size_t arg = j;
					while (arg < s.size() && sp(s[arg])) arg++;
					bool has = close != j;
					if (close != str::npos && arg > close) arg = close;
					if (close != str::npos && (!has || arg > j)) {
						const Filter *f = c.find_filter(n);
						if (!f) throw Trouble{"no filter " + n};
						str a = has ? s.substr(arg, close - arg) : "";
						calls.push_back({f->fn, has, a});
						cost += s.size();
						o += apply_filter(f->fn, has, a);
						i = close + 4;
						continue;
					}
				}
			}
			o += s[i++];
		}
		return o;
	}
};

// ---- filters ---------------------------------------------------------------

enum { F_UPPER, F_REV, F_WRAP, F_FIXED, F_LEN, F_EMPTY, NFILTERS };

inline str apply_filter(int fn, bool has, const str &a) {
	str o;
	switch (fn) {
	case F_UPPER: for (char c : a) o += toupper((unsigned char)c) == 'X' ? 'Q' : (char)((c >= 'a' && c <= 'z') ? c - 32 : c); return has ? o : "NOARG";
	case F_REV: o.assign(a.rbegin(), a.rend()); return has ? o : "(none)";
	case F_WRAP: return has ? "<b>" + a + "</b>" + str(a.size() % 7, '!') : "<b/>";
	case F_FIXED: return "fixed";
	case F_LEN: return has ? fmt("%zu:%08x", a.size(), (unsigned)hash64(a)) : "-";
	default: return "";
	}
}

// What the real filter functions saw, per thread.
struct Log { std::vector<Call> calls; std::vector<char *> live; str bad; int cleaned = 0; };
inline thread_local Log *flog = nullptr;

template <int FN> char *real_filter(const char *arg) {
	str r = apply_filter(FN, arg != NULL, arg ? arg : "");
	char *p = FN == F_FIXED ? (char *)"fixed" : strdup(r.c_str());
	if (flog) {
		flog->calls.push_back({FN, arg != NULL, arg ? arg : ""});
		if (FN == F_LEN || FN == F_EMPTY) flog->live.push_back(p);
	}
	return p;
}
// The clean-up of F_LEN and F_EMPTY, which keeps track of what it was given.
inline void tracked_cleanup(char *p) {
	if (flog) {
		auto it = std::find(flog->live.begin(), flog->live.end(), p);
		if (it == flog->live.end()) { flog->bad = "clean-up called with something else than an outstanding filter result"; return; }
		flog->live.erase(it);
		flog->cleaned++;
	}
	free(p);
}
typedef char *(*filter_fn)(const char *);
inline filter_fn const REAL[NFILTERS] = {real_filter<F_UPPER>, real_filter<F_REV>, real_filter<F_WRAP>, real_filter<F_FIXED>, real_filter<F_LEN>, real_filter<F_EMPTY>};
typedef void (*clean_fn)(char *);
inline clean_fn real_cleanup(int fn) { return fn == F_FIXED ? nullptr : fn == F_LEN || fn == F_EMPTY ? tracked_cleanup : gshkl_filter_cleanup; }

// ---- building the real context ---------------------------------------------

inline greshunkel_ctext *build(const Ctx &c) {
	greshunkel_ctext *g = gshkl_init_context();
	for (auto &v : c.vals) {
		// The caller's buffers go away right after the call.
		ExactZ name(v.first);
		int rc = 0;
		switch (v.second.type) {
		case Val::STR: { ExactZ s(v.second.s); rc = gshkl_add_string(g, name.p, s.p); break; }
		case Val::INT: rc = gshkl_add_int(g, name.p, (int)v.second.n); break;
		case Val::SUB: rc = gshkl_add_sub_context(g, name.p, build(*v.second.sub)); break;
		case Val::ARR: {
			greshunkel_var a = gshkl_add_array(g, name.p);
			for (auto &e : v.second.arr) {
				if (e.type == Val::STR) { ExactZ s(e.s); rc |= gshkl_add_string_to_loop(&a, s.p); }
				else if (e.type == Val::INT) rc |= gshkl_add_int_to_loop(&a, (int)e.n);
				else rc |= gshkl_add_sub_context_to_loop(&a, build(*e.sub));
			}
			break;
		}
		}
		if (rc != 0) H.violation("add-failed", "adding " + v.first + " to a context did not return 0");
	}
	for (auto &f : c.filters) {
		ExactZ name(f.name);
		if (gshkl_add_filter(g, name.p, REAL[f.fn], real_cleanup(f.fn)) != 0) H.violation("add-failed", "adding filter " + f.name + " did not return 0");
	}
	return g;
}

// A digest of everything a context holds.
inline uint64_t digest(const greshunkel_ctext *g, uint64_t h = 7) {
	h = hash64(&g->parent, sizeof g->parent, h);
	h = hash64(&g->values->count, sizeof(size_t), h);
	for (size_t i = 0; i < g->values->count; i++) {
		const greshunkel_tuple *t = (const greshunkel_tuple *)vector_get(g->values, i);
		h = hash64(t->name, sizeof t->name, h);
		int ty = (int)t->type;
		h = hash64(&ty, sizeof ty, h);
		if (t->type == GSHKL_STR) h = hash64(t->value.str, strlen(t->value.str) + 1, h);
		else if (t->type == GSHKL_SUBCTEXT) h = digest(t->value.sub_ctext, h);
		else {
			h = hash64(&t->value.arr->count, sizeof(size_t), h);
			for (size_t j = 0; j < t->value.arr->count; j++) {
				const greshunkel_tuple *e = (const greshunkel_tuple *)vector_get(t->value.arr, j);
				h = hash64(e->name, sizeof e->name, h);
				if (e->type == GSHKL_STR) h = hash64(e->value.str, strlen(e->value.str) + 1, h);
				else if (e->type == GSHKL_SUBCTEXT) h = digest(e->value.sub_ctext, h);
			}
		}
	}
	h = hash64(&g->filter_functions->count, sizeof(size_t), h);
	for (size_t i = 0; i < g->filter_functions->count; i++) {
		const greshunkel_filter *f = (const greshunkel_filter *)vector_get(g->filter_functions, i);
		h = hash64(f->name, sizeof f->name, h);
		h = hash64(&f->filter_func, sizeof f->filter_func, h);
	}
	return h;
}

// ---- generators ------------------------------------------------------------

struct Gen {
	Rng &r;
	bool blocks, includes, filters, utf8_only = false;
	Files files;
	Ctx ctx;
	std::vector<str> strs, ints, arrs, subs, fls;   // visible names usable in templates
	std::map<str, std::vector<str>> subkeys;        // sub-context name -> its string names
	std::map<str, const Val *> arrays;
	bool huge = false;
	int n_vars = 0, n_loops = 0, n_conds = 0, n_incs = 0, n_calls = 0;
	Gen(Rng &r, bool b, bool i, bool f) : r(r), blocks(b), includes(i), filters(f) {}

	static bool safe(const str &s) {
		return s.find("xXx") == str::npos && s.find("XxX") == str::npos && (s.empty() || ((s[0] | 32) != 'x' && (s.back() | 32) != 'x'));
	}
	str name(bool digits) {
		const char *al = digits ? "abcxXyzABCZ_0189" : "abcxXyzABCZ_";
		size_t n = r.chance(80) ? r.range(1, 6) : r.range(7, 31);
		if (r.chance(4)) n = 31;
		for (;;) { str s = r.from(al, n); if (s.find("xXx") == str::npos && s.find("XxX") == str::npos) return s; }
	}
	str raw(size_t n, bool newline) {
		static const char *common = "abcdefghijklmnopqrstuvwxyz  ABCDEFXXxx0123456789.,;:!?<>/\\\"'&%$#@()[]{}*+-=^|~`_\t";
		str o;
		while (o.size() < n) {
			int k = r.below(100);
			if (k < 88) o += common[r.below(strlen(common))];
			else if (k < 93) { static const char *u[] = {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x90\x9b", "\xc3\x9f", "\xe6\x97\xa5"}; o += u[r.below(5)]; }
			else if (k < 95 && !utf8_only) o += (char)r.range(128, 255);
			else if (k < 96 && !utf8_only) o += (char)r.range(1, 8);
			else if (newline && k < 98) o += "\n";
			else o += ' ';
		}
		return o;
	}
	str value() {
		for (;;) {
			str s;
			int k = r.below(100);
			if (k < 10) s = "";
			else if (k < 14) s = "FALSE";
			else if (k < 18) { static const char *near_false[] = {"FALSEHOOD", "FALSE1", "FALS", "false", "False", "F", "FALSE.", "AFALSE", "0", "TRUE"}; s = near_false[r.below(10)]; }
			else if (k < 75) s = raw(r.range(1, 30), true);
			else if (k < 90) s = raw(r.range(30, 512), true);
			else { s = raw(512, true); }
			if (s.size() > 512) { s.resize(512); if (utf8_only) while (!s.empty() && (s.back() & 0x80)) s.pop_back(); }
			if (!safe(s)) continue;
			// The reported size is about the text's own last line terminator.
			if (!s.empty() && (s.back() == '\n' || s.back() == '\r')) continue;
			return s;
		}
	}
	Val scalar() {
		Val v;
		if (r.chance(25)) {
			v.type = Val::INT;
			static const int edge[] = {0, 1, -1, INT_MAX, INT_MIN, 10, -10, 1000000000};
			v.n = r.chance(50) ? edge[r.below(8)] : (int)r.next();
			v.s = std::to_string(v.n);
		} else { v.type = Val::STR; v.s = value(); }
		return v;
	}
	std::shared_ptr<Ctx> subctx(std::vector<str> &keys, int depth) {
		auto c = std::make_shared<Ctx>();
		int n = r.range(1, 5);
		for (int i = 0; i < n; i++) {
			str k = name(true);
			bool dup = false;
			for (auto &v : c->vals) if (v.first == k) dup = true;
			if (depth < 2 && r.chance(10) && !dup) {
				Val v; v.type = Val::SUB; std::vector<str> ignored; v.sub = subctx(ignored, depth + 1);
				c->vals.push_back({k, v});
			} else {
				c->vals.push_back({k, scalar()});
				if (!dup) keys.push_back(k);
			}
		}
		if (keys.empty()) { str k; do k = name(true); while ([&] { for (auto &v : c->vals) if (v.first == k) return true; return false; }()); c->vals.push_back({k, scalar()}); keys.push_back(k); }
		return c;
	}
	bool known(const str &n) { for (auto &v : ctx.vals) if (v.first == n) return true; return false; }
	void context() {
		int n = r.chance(5) ? r.range(33, 80) : r.range(1, 9);
		for (int i = 0; i < n; i++) {
			int k = r.below(100);
			if (k < 60) {
				str nm = name(true);
				// prefixes and extensions of names already there
				if (!ctx.vals.empty() && r.chance(25)) { nm = r.pick(ctx.vals).first; if (r.chance(50) && nm.size() < 31) nm += r.from("ab01", 1); else if (nm.size() > 1) nm.pop_back(); }
				bool again = known(nm);
				Val v = scalar();
				ctx.vals.push_back({nm, v});
				if (!again) (v.type == Val::INT ? ints : strs).push_back(nm);
			} else if (k < 80) {
				str nm = name(true);
				bool again = known(nm);
				Val v; v.type = Val::SUB;
				std::vector<str> keys;
				v.sub = subctx(keys, 0);
				ctx.vals.push_back({nm, v});
				if (!again) { subs.push_back(nm); subkeys[nm] = keys; }
			} else {
				str nm = name(false);
				bool again = known(nm);
				Val v; v.type = Val::ARR;
				int cnt = r.chance(20) ? 0 : r.chance(10) ? (r.chance(10) ? r.range(250, 1100) : r.range(15, 60)) : r.range(1, 6);
				bool of_subs = r.chance(30);
				if (of_subs) {
					// every element has the key "k"
					for (int j = 0; j < cnt; j++) { Val e; e.type = Val::SUB; std::vector<str> keys; e.sub = subctx(keys, 1); bool has = false; for (auto &x : e.sub->vals) if (x.first == "kK0") has = true; if (!has) e.sub->vals.push_back({"kK0", scalar()}); v.arr.push_back(e); }
				} else
				{
					// mixed, or all of one type; sometimes the same again
					const int mono = r.below(4), again_p = r.chance(30) ? 30 : 0;
					for (int j = 0; j < cnt; j++) { Val e; do e = scalar(); while ((mono == 1 && e.type != Val::STR) || (mono == 2 && e.type != Val::INT)); if (j && r.chance(again_p)) e = v.arr[r.below(j)]; v.arr.push_back(e); }
				}
				v.s = of_subs ? "subs" : "scalars";
				ctx.vals.push_back({nm, v});
				if (!again) arrs.push_back(nm);
			}
		}
		if (filters) {
			int m = r.range(1, 9);
			for (int i = 0; i < m; i++) {
				str nm = name(true);
				if (!ctx.filters.empty() && r.chance(20)) { nm = r.pick(ctx.filters).name; if (nm.size() < 31 && r.chance(60)) nm += "1"; }
				ctx.filters.push_back({nm, (int)r.below(NFILTERS)});
				fls.push_back(nm);
			}
		}
	}
	str plain(size_t n, bool newline = false) {
		for (;;) { str s = raw(n, newline); if (safe(s)) return s; n = n ? n - 1 : 0; }
	}
	// A reference to something visible, or "".
	str ref(const std::vector<str> &scope, const std::vector<str> &subscope) {
		int k = r.below(100);
		n_vars++;
		if (!scope.empty() && k < 35) return "xXx @" + r.pick(scope) + " xXx";
		if (!subscope.empty() && k < 60) return "xXx @" + r.pick(subscope) + ".kK0 xXx";
		if (!subs.empty() && k < 60) { const str &s = r.pick(subs); bool shadowed = std::find(scope.begin(), scope.end(), s) != scope.end() || std::find(subscope.begin(), subscope.end(), s) != subscope.end(); if (!shadowed) return "xXx @" + s + "." + r.pick(subkeys[s]) + " xXx"; }
		if (!ints.empty() && k < 75) { const str &s = r.pick(ints); if (std::find(subscope.begin(), subscope.end(), s) == subscope.end()) return "xXx @" + s + " xXx"; }
		if (!strs.empty()) { const str &s = r.pick(strs); if (std::find(subscope.begin(), subscope.end(), s) == subscope.end()) return "xXx @" + s + " xXx"; }
		n_vars--;
		return "";
	}
	str eol() { int k = r.below(100); return k < 85 ? "\n" : k < 92 ? "\r\n" : k < 95 ? "\r" : "\n\n"; }
	struct Scope { std::vector<str> vars, subs; bool in_loop = false, in_cond = false; int inc = 0; };

	str call(const Scope &sc) {
		str o = "XxX " + r.pick(fls);
		n_calls++;
		int k = r.below(100);
		if (k < 25) return o + " XxX";
		o += str(r.chance(85) ? 1 : r.range(2, 4), r.chance(95) ? ' ' : '\t');
		str arg;
		int parts = r.range(1, 3);
		for (int i = 0; i < parts; i++) {
			if (r.chance(40)) arg += ref(sc.vars, sc.subs);
			else { str s = plain(r.chance(1) ? r.range(1000, 20000) : r.range(1, 40)); if (s.find('\n') != str::npos) continue; arg += s; }
		}
		size_t a = arg.find_first_not_of(" \t\n\r");
		if (a == str::npos) arg = "w"; else if (a) arg = "w" + arg;
		return o + arg + (r.chance(5) ? "  XxX" : " XxX");
	}
	str decoy() {
		static const char *d[] = {"xXx word xXx w", "@name", "xXx@b xXx w", "xXx @a-b xXx w", "xXx @ xXx w", "xXx @a.b.c xXx w", "xXx  @a xXx w", "w xXx", "aXxXb", "{{ @a }}", "xXx @a xX w", "xx@a xx", "xXx LOOP xXx w", "xXx UNLESS xXx w", "xXx SCREAM xXx w", "xXx BBL", "xXx ENDLES xXx w"};
		return d[r.below(sizeof d / sizeof *d)];
	}
	str text_line(const Scope &sc, bool with_eol = true) {
		str o;
		int parts = r.chance(8) ? 0 : r.range(1, 5);
		for (int i = 0; i < parts; i++) {
			int k = r.below(100);
			if (k < 45) o += plain(r.chance(4) ? r.range(200, 5000) : r.range(0, 40));
			else if (k < 85) { o += ref(sc.vars, sc.subs); }
			else if (k < 90) { o += " "; o += decoy(); o += " w "; }
			else if (filters && k < 100) o += (r.chance(50) ? " " : "") + call(sc);
			else o += " ";
		}
		return o + (with_eol ? eol() : "");
	}
	str cond_name(const Scope &sc) {
		for (int i = 0; i < 20; i++) {
			str n;
			int k = r.below(100);
			if (k < 15) n = name(false);
			else if (k < 40 && (!sc.vars.empty() || !sc.subs.empty())) n = sc.vars.empty() ? r.pick(sc.subs) : r.pick(sc.vars);
			else if (!ctx.vals.empty()) n = r.pick(ctx.vals).first;
			else n = name(false);
			bool ok = !n.empty() && n.size() < 32;
			for (char c : n) if (!letter(c) && c != '_') ok = false;
			// integers are neither true nor false by the documentation
			if (std::find(sc.vars.begin(), sc.vars.end(), n) == sc.vars.end() && std::find(sc.subs.begin(), sc.subs.end(), n) == sc.subs.end()) {
				const Val *v = ctx.find(n);
				if (v && v->type == Val::INT) ok = false;
			} else if (intish.count(n)) ok = false;
			if (ok) return n;
		}
		return "nobody";
	}
	std::set<str> intish; // loop variables that may be integers
	str conditional(const Scope &sc) {
		n_conds++;
		Scope in = sc;
		in.in_cond = true;
		bool inverse = r.chance(50);
		str o = str(r.below(3), ' ') + "xXx UNLESS " + (inverse ? "NOT " : "") + "@" + cond_name(sc) + " xXx";
		if (r.chance(60)) o += "\n";
		int n = r.below(4);
		if (inverse)
			for (int i = 0; i < n; i++) {
				int k = r.below(100);
				if (k < 30 && !sc.in_loop && !arrs.empty()) o += loop(in);
				else if (k < 45 && includes) o += include(in);
				else o += text_line(in);
			}
		else
			for (int i = 0; i < n; i++) { str t = text_line(in); o += "w" + t; }
		o += "xXx ENDLESS xXx";
		o += r.chance(60) ? "\n" : r.chance(50) ? "" : text_line(sc);
		return o;
	}
	str loop(const Scope &sc) {
		n_loops++;
		Scope in = sc;
		in.in_loop = true;
		const str arr = r.pick(arrs);
		str var = name(false);
		// shadow something now and then
		if (r.chance(20) && !strs.empty()) { str n = r.pick(strs); bool ok = true; for (char c : n) if (!letter(c) && c != '_') ok = false; if (ok) var = n; }
		const Val *v = ctx.find(arr);
		if (var == arr) var = var.size() > 1 ? var.substr(1) : "q";
		if (v->s == "subs") { in.vars.erase(std::remove(in.vars.begin(), in.vars.end(), var), in.vars.end()); in.subs.push_back(var); }
		else { in.subs.erase(std::remove(in.subs.begin(), in.subs.end(), var), in.subs.end()); in.vars.push_back(var); }
		intish.insert(var);
		if (v->s != "subs") { bool any = false; for (auto &e : v->arr) any |= e.type == Val::INT; if (!any) intish.erase(var); } else intish.erase(var);
		str o = str(r.below(4), r.chance(80) ? ' ' : '\t') + "xXx LOOP " + var + " " + arr + " xXx";
		if (r.chance(60)) o += "\n";
		const bool big = v->arr.size() > 200;
		int n = big ? r.below(2) : r.below(4);
		for (int i = 0; i < n; i++) {
			int k = r.below(100);
			if (big) o += r.from("ab ", 1 + r.below(5)) + ref(in.vars, in.subs) + eol();
			else if (k < 25 && !sc.in_cond) o += conditional(in);
			else if (k < 40 && includes) o += include(in);
			else o += text_line(in);
		}
		if (r.chance(20)) o += text_line(in, false) + " ";
		o += "xXx BBL xXx";
		o += r.chance(60) ? "\n" : r.chance(50) ? "" : text_line(sc);
		intish.insert(var);
		return o;
	}
	str file_name() {
		str dir;
		if (r.chance(4)) for (size_t want = r.range(40, 900); dir.size() < want;) dir += r.pick(std::vector<str>{"./", "sub/../", "sub/./../", ".//", "sub//../"});
		dir += r.chance(20) ? "sub/" : r.chance(10) ? "./" : "";
		return dir + "f_" + r.from("abcdefghijkl", r.chance(3) ? r.range(40, 200) : 6) + (r.chance(50) ? ".html" : "");
	}
	// Files that include each other a good way down, blocks around each include.
	str chain() {
		Scope in;
		const int n = r.range(4, 14);
		int doubled = 0;
		str inner = text_line(in) + text_line(in, false);
		for (int i = 0; i < n; i++) {
			str path = file_name();
			if (files.count(path)) continue;
			n_incs++;
			files[path] = inner;
			str line = "xXx SCREAM " + path + " xXx" + eol();
			std::vector<str> few;
			for (auto &a : arrs) { const Val *v = ctx.find(a); if (!v->arr.empty() && (v->arr.size() == 1 || (v->arr.size() <= 3 && doubled < 4))) few.push_back(a); }
			const int k = r.below(100);
			if (blocks && k < 55 && !few.empty()) {
				const str arr = r.pick(few);
				if (ctx.find(arr)->arr.size() > 1) doubled++;
				str var = fmt("lvl_%c_", (char)('a' + i));
				n_loops++;
				str at = ctx.find(arr)->s == "subs" ? "xXx @" + var + ".kK0 xXx" : "xXx @" + var + " xXx";
				inner = text_line(in) + "xXx LOOP " + var + " " + arr + " xXx\n" + at + " w\n" + line + "xXx BBL xXx\n" + text_line(in, false);
			} else if (blocks && k < 80) {
				n_conds++;
				str c;
				for (auto &v : ctx.vals) if (v.second.type == Val::STR && ctx.find(v.first) == &v.second && !v.second.s.empty() && v.second.s != "FALSE" && r.chance(60)) { bool ok = true; for (char ch : v.first) if (!letter(ch) && ch != '_') ok = false; if (ok) c = v.first; }
				inner = text_line(in) + (c.empty() ? line : "xXx UNLESS NOT @" + c + " xXx\n" + line + "xXx ENDLESS xXx\n") + text_line(in, false);
			} else inner = text_line(in) + line + text_line(in, false);
		}
		return inner;
	}
	str include(const Scope &sc) {
		if (sc.inc >= 2) return text_line(sc);
		n_incs++;
		Scope in = sc;
		in.inc++;
		in.in_loop = in.in_cond = false; // a file's blocks are its own
		str path = file_name();
		str content;
		if (r.chance(10)) {}
		else if (r.chance(15)) {
			// sizes around what an implementation may read at a time
			static const size_t edges[] = {255, 256, 1023, 1024, 2047, 2048, 2049, 4095, 4096, 4097, 6144, 8192};
			size_t n = edges[r.below(12)] + r.below(3) - 1;
			if (r.chance(5) && !sc.in_loop && !sc.inc) n = r.chance(50) ? 65536 + r.below(3) - 1 : r.below(200000);
			while (content.size() < n) { str t = plain(std::min<size_t>(n - content.size(), 60)); content += t; if (t.empty()) content += "w"; if (content.size() < n && r.chance(30)) content += "\n"; }
		} else {
			int n = r.range(1, 4);
			for (int i = 0; i < n; i++) {
				int k = r.below(100);
				if (k < 15 && blocks && !arrs.empty()) content += loop(in);
				else if (k < 30 && blocks) content += conditional(in);
				else if (k < 45) content += include(in);
				else content += text_line(in, i + 1 < n || r.chance(70));
			}
		}
		files[path] = content;
		// "An include line": whatever else stands on it goes with it.
		return str(r.below(3), ' ') + "xXx SCREAM " + path + " xXx" + eol();
	}
	str tmpl() {
		Scope sc;
		str o;
		if (includes && r.chance(6)) return chain();
		if (!blocks && !includes && !filters && r.below(1500) == 0) { // megabytes out of a small text
			str nm;
			do nm = name(false); while (known(nm));
			Val v; v.type = Val::STR; v.s = r.from("abcdefg ,.", 511) + "z";
			ctx.vals.push_back({nm, v});
			for (int lines = r.range(60, 600); lines > 0; lines--) { for (int j = r.range(4, 12); j > 0; j--) o += "xXx @" + nm + " xXx" + (r.chance(30) ? " " : ""); o += eol(); n_vars++; }
			huge = true;
			return o;
		}
		int n = r.chance(6) ? r.range(20, 120) : r.range(1, 8);
		if (blocks && n > 40) n = 40;
		for (int i = 0; i < n; i++) {
			int k = r.below(100);
			if (blocks && k < 25 && !arrs.empty()) o += loop(sc);
			else if (blocks && k < 50) o += conditional(sc);
			else if (includes && k < 70) o += include(sc);
			else o += text_line(sc, i + 1 < n || r.chance(60));
		}
		if (r.chance(3)) o = "";
		if (!blocks && r.chance(4)) { o += "\n"; size_t want = r.size(60000); while (o.size() < want) o += text_line(sc); }
		return o;
	}
};

} // namespace tpl
