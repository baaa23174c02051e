// C11 (decode), C19 (cookie), C22 (helpers): small pure functions against naive
// specifications, with exactly sized buffers under ASan/UBSan.
#include "common.hpp"

// ---- C11 ------------------------------------------------------------------

static int hexval(int c) { if (c >= '0' && c <= '9') return c - '0'; c |= 32; return c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; }

// Reference: false when malformed.
static bool ref_decode(const str &s, str &out) {
	out.clear();
	for (size_t i = 0; i < s.size(); i++) {
		if (s[i] == '+') out += ' ';
		else if (s[i] == '%') {
			if (i + 2 >= s.size()) return false;
			int a = hexval((unsigned char)s[i + 1]), b = hexval((unsigned char)s[i + 2]);
			if (a < 0 || b < 0 || s[i + 1] == 0 || s[i + 2] == 0) return false;
			out += (char)(a * 16 + b);
			i += 2;
		} else out += s[i];
	}
	return true;
}

static str encode(Rng &r, const str &raw, int style) {
	static const char *up = "0123456789ABCDEF", *lo = "0123456789abcdef";
	str o;
	for (unsigned char c : raw) {
		bool must = c == '%' || c == '+' || c == 0 || (style == 1 && !isalnum(c));
		if (c == ' ' && r.chance(60)) { o += '+'; continue; }
		if (must || style == 2 || (style == 3 && r.chance(50))) {
			const char *d = r.chance(50) ? up : lo; const char *e = r.chance(50) ? up : lo;
			o += '%'; o += d[c >> 4]; o += e[c & 15];
		} else o += (char)c;
	}
	return o;
}

static void decode_case(Rng &r) {
	int kind = r.below(10);
	str in, raw; bool inverse = false;
	if (kind < 5) { raw = r.chance(40) ? r.from(" %+abc\xff\x01=&", r.size(400)) : r.bytes(r.size(r.chance(5) ? 20000 : 200)); in = encode(r, raw, r.below(4)); inverse = true; }
	else if (kind < 6) { raw = in = r.from("abcXYZ019-_.~!*'()/\xc3\xa9", r.size(300)); inverse = true; }
	else if (kind < 9) in = r.from("%%%+aF09gG zx", r.size(40));
	else { raw = r.bytes(r.below(30)); in = encode(r, raw, 2) + (r.chance(50) ? "%" : r.chance(50) ? "%4" : "%4g"); }
	if (r.below(3000) == 0) { raw = r.bytes(r.range(30000, 300000)); in = encode(r, raw, r.below(4)); inverse = true; H.stat("long_inputs"); }
	for (auto &c : in) if (!c) c = 'N';
	H.note("decode " + show(in));
	str want; bool valid = ref_decode(in, want);
	if (inverse && (!valid || want != raw)) { fprintf(stderr, "harness bug\n"); abort(); }
	ExactZ src(in);
	Exact dst(str(in.size() + 1, '\x5a'));
	bool nodest = r.chance(10);
	int n = m38_url_decode(src.p, nodest ? NULL : dst.p);
	if (memcmp(src.p, in.c_str(), in.size() + 1)) H.violation("decode-input-changed", show(in));
	if (!valid) {
		if (n != -1) H.violation("decode-malformed-accepted", fmt("'%s' returned %d", show(in).c_str(), n));
		H.stat("malformed");
	} else {
		if (n != (int)want.size() + 1) H.violation("decode-length", fmt("'%s': returned %d, expected %zu", show(in).c_str(), n, want.size() + 1));
		else if (!nodest && (memcmp(dst.p, want.data(), want.size()) || dst.p[want.size()] != 0)) H.violation("decode-bytes", fmt("'%s' decoded to '%s', expected '%s'", show(in).c_str(), show(str(dst.p, want.size() + 1)).c_str(), show(want).c_str()));
		H.stat("valid");
		H.stat("escapes", std::count(in.begin(), in.end(), '%'));
	}
	if (in.find('%') != str::npos || in.find('+') != str::npos) H.nontrivial(hash64(in));
	H.sample(show(in, 100) + (valid ? " -> " + show(want, 100) : " -> rejected"));
}

// ---- C19 ------------------------------------------------------------------

static void cookie_case(Rng &r) {
	const bool malformed = r.chance(25);
	static const std::vector<str> names = {"a", "ab", "aba", "session", "sessionid", "id", "xsession", "session-id", "SESSION", "s", "_id", "sid", "b", "ba"};
	str cookie; std::map<str, std::vector<str>> model;
	const str longname = r.alnum(r.range(20, 90));
	if (malformed)
		cookie = r.chance(80) ? r.from("ab=; \tsid", r.size(60)) : r.bytes(r.size(120));
	else {
		const bool many = r.chance(3);
		size_t n = many ? r.range(7, 400) : r.below(7);
		int sep = r.below(4);
		for (size_t i = 0; i < n; i++) {
			if (i) cookie += sep == 0 ? "; " : sep == 1 ? ";" : sep == 2 ? ";  " : (r.chance(50) ? "; " : ";\t");
			if (r.chance(5)) { cookie += "flag" + r.alnum(3); continue; }
			if (r.chance(3)) continue; // nothing between two separators
			str name = r.chance(5) ? longname : r.pick(names);
			str value;
			switch (r.below(6)) {
				case 0: value = ""; break;
				case 1: value = r.pick(names); break; // a value that names another cookie
				case 2: value = r.pick(names) + "=" + r.alnum(r.below(5)); break;
				case 3: value = r.from("abcXYZ0189-_.%\"=&/", r.size(r.chance(3) ? 20000 : 300)); break;
				default: value = r.alnum(r.range(1, 20));
			}
			if (many && r.chance(85) && i + 1 < n) { cookie += "zz" + std::to_string(i) + "=" + r.alnum(r.below(12)); continue; }
			if (model.count(name)) { if (r.chance(80)) { cookie += "zz" + std::to_string(i) + "=1"; continue; } }
			cookie += name + "=" + value;
			model[name].push_back(value);
		}
		if (n && r.chance(10)) cookie += ";";
	}
	for (auto &c : cookie) if (!c) c = '0';
	std::vector<str> ask = names;
	ask.push_back(longname); ask.push_back("nothere"); ask.push_back(longname.substr(1));
	H.note("cookie " + show(cookie));
	// Sometimes the caller's size ends the string: what follows is not the cookie's.
	const bool sized = r.chance(40);
	Exact exact(cookie);
	str longer = cookie + (r.chance(50) ? "; " : "") + r.pick(std::vector<str>{"nothere=1; session=stray", "x", "=1", "id=7; zz=2"});
	ExactZ src(r.chance(50) ? cookie : longer);
	const char *string = sized ? exact.p : src.p;
	if (sized) H.stat("unterminated");
	for (auto &n : ask) {
		ExactZ needle(n);
		char *v = m38_get_cookie_value(string, cookie.size(), needle.p);
		H.stat("lookups");
		if (!malformed) {
			auto it = model.find(n);
			if (it == model.end()) {
				if (v) H.violation("cookie-found-unknown", fmt("'%s' has no cookie '%s' but '%s' was returned", show(cookie).c_str(), n.c_str(), show(v).c_str()));
			} else {
				H.stat("present");
				if (!v) H.violation("cookie-lost", fmt("cookie '%s' of '%s' not found", n.c_str(), show(cookie).c_str()));
				else if (std::find(it->second.begin(), it->second.end(), str(v)) == it->second.end()) H.violation("cookie-value", fmt("cookie '%s' of '%s' is '%s'", n.c_str(), show(cookie).c_str(), show(v).c_str()));
			}
		} else if (v && cookie.find(v) == str::npos) H.violation("cookie-foreign", fmt("'%s' is not part of '%s'", show(v).c_str(), show(cookie).c_str()));
		free(v);
	}
	if (r.chance(5) && m38_get_cookie_value(NULL, 0, "a") != NULL) H.violation("cookie-null", "a value from no cookie string");
	H.stat(malformed ? "malformed" : "wellformed");
	if (malformed || model.size() > 1) H.nontrivial(hash64(cookie));
	H.sample(show(cookie, 200));
	H.stat("heap_checked");
}

static void cookie_leak(Rng &r) {
	const uint64_t seed = r.next();
	if (H.kase % 3) { Rng q(seed); cookie_case(q); return; }
	Rng q(seed);
	str c; for (int i = 0; i < 5; i++) c += "n" + q.alnum(2) + "=" + q.alnum(q.below(30)) + "; ";
	str c2 = c + "session=1";
	leak_checked("cookie-leak", "cookie lookup", [&] { free(m38_get_cookie_value(c2.c_str(), c2.size(), "session")); free(m38_get_cookie_value(c2.c_str(), c2.size(), "nothere")); });
	Rng q2(seed + 1); cookie_case(q2);
}

// ---- C22 ------------------------------------------------------------------

static str scratch;

static void helper_case(Rng &r) {
	// strnstr
	for (int k = 0; k < 4; k++) {
		const char *alpha = r.chance(50) ? "ab" : r.chance(40) ? "aAbB" : r.chance(20) ? "a\x01\x7f\x80\xff\xe1" : "abcdefgh";
		str hay = r.from(alpha, r.size(60)), needle = r.from(alpha, 1 + r.below(r.chance(20) ? 12 : 4));
		if (r.chance(30) && hay.size() >= needle.size()) hay = hay.substr(0, hay.size() - needle.size()) + needle;
		if (r.chance(10)) { // long ones
			needle = r.from(alpha, r.range(200, 600)); hay = r.from(alpha, r.below(700));
			switch (r.below(4)) { case 0: hay += needle + r.from(alpha, r.below(50)); break; case 1: hay += needle.substr(0, needle.size() - 1 - r.below(20)); break; case 2: hay += needle.substr(0, needle.size() & 0xff) + r.from(alpha, 300); break; default: hay += needle; }
		}
		if (r.below(4000) == 0) hay = str(r.range(60000, 140000), alpha[0]) + hay;
		bool terminated = r.chance(50);
		size_t len = terminated ? (r.chance(40) ? hay.size() + 1 + r.below(10) : r.below(hay.size() + 1)) : hay.size();
		str buf = hay; size_t visible = std::min(len, hay.size());
		if (terminated) { buf += '\0'; if (r.chance(40) && len > buf.size()) buf += needle; if (buf.size() < len) buf += str(len - buf.size(), 'a'); }
		H.note("strnstr " + show(buf) + " / " + needle + fmt(" / %zu", len));
		Exact e(buf); ExactZ n(needle);
		char *p = strnstr(e.p, n.p, len);
		size_t want = hay.substr(0, visible).find(needle);
		if (want == str::npos ? p != NULL : p != e.p + want)
			H.violation("strnstr", fmt("'%s' in the first %zu bytes of '%s': %s, expected %s", needle.c_str(), len, show(buf).c_str(), p ? std::to_string(p - e.p).c_str() : "nothing", want == str::npos ? "nothing" : std::to_string(want).c_str()));
		H.stat(want == str::npos ? "strnstr_absent" : "strnstr_found");
		H.nontrivial(hash64(buf + needle) ^ len);
	}
	// endswith
	for (int k = 0; k < 4; k++) {
		const char *al = r.chance(70) ? "ab." : "aAbB.\xe1\xc1";
		str s = r.from(al, r.size(40)), suf = r.chance(50) ? s.substr(r.below(s.size() + 1)) : r.from(al, r.below(6));
		if (r.chance(10)) { s = r.from(al, r.range(200, 1200)); suf = s.substr(r.chance(50) ? r.below(s.size() + 1) : s.size() - std::min<size_t>(s.size(), 250 + r.below(15))); if (r.chance(10)) suf = "a" + s; }
		if (r.chance(10)) s = s.substr(0, r.below(4)) + suf + r.from(al, 1 + r.below(4)); // there, but not at the end
		if (r.chance(30) && !suf.empty()) suf[r.below(suf.size())] ^= r.chance(50) ? 3 : 0x20;
		for (auto &c : suf) if (!c) c = 'a';
		H.note("endswith " + show(s) + " / " + show(suf));
		ExactZ a(s), b(suf);
		int got = endswith(a.p, b.p);
		bool want = s.size() >= suf.size() && s.compare(s.size() - suf.size(), suf.size(), suf) == 0;
		if ((got != 0) != want) H.violation("endswith", fmt("endswith('%s', '%s') = %d", show(s).c_str(), show(suf).c_str(), got));
		H.stat(want ? "endswith_true" : "endswith_false");
	}
	// hash
	{
		str s = r.bytes(r.size(r.chance(5) ? 100000 : 1500));
		H.note(fmt("fnv1a of %zu bytes", s.size()));
		Exact e(s); Exact o(str(HASH_STR_SIZE, '\x7f'));
		hash_string_fnv1a((const unsigned char *)e.p, e.n, o.p);
		uint64_t h = 14695981039346656037ULL;
		for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
		bool hex = memchr(o.p, 0, o.n) != NULL && o.p[0] && strspn(o.p, "0123456789abcdefABCDEF") == strlen(o.p);
		if (!hex || fmt("%llX", (unsigned long long)h) != o.p) H.violation("fnv1a", fmt("%zu bytes: '%s', expected %llX", s.size(), hex ? o.p : "no hexadecimal string", (unsigned long long)h));
		H.stat("hashes"); if (s.size() >= 256) H.stat("hashes_long");
	}
	// range values
	for (int k = 0; k < 3; k++) {
		uint64_t a = r.chance(30) ? r.below(3) : r.chance(10) ? r.next() >> r.range(1, 40) : r.below(1 << 20), b = r.chance(30) ? a : a + r.below(1 << 20);
		a &= LONG_MAX >> 1; b &= LONG_MAX >> 1; if (b < a) std::swap(a, b);
		str v; uint64_t wo = 0, wl = 0; bool judge = true;
		switch (r.below(6)) {
			case 0: v = fmt("bytes=%llu-", (unsigned long long)a); wo = a; break;
			case 1: case 2: v = r.chance(80) ? fmt("bytes=%llu-%llu", (unsigned long long)a, (unsigned long long)b) : fmt("bytes=%s%llu-%s%llu", str(r.below(4), '0').c_str(), (unsigned long long)a, str(r.below(4), '0').c_str(), (unsigned long long)b); wo = a; wl = b; break;
			case 3: v = r.pick(std::vector<str>{"", "bytes", "bytes=", "bytes=12", "items=1-2", "byte=0-1", "Bits=0-5", "0-10", " bytes=0-1", "bytes 0-1"}); break;
			case 4: v = fmt("bytes=%llu", (unsigned long long)a); break;
			default: v = r.chance(50) ? "bytes=" + r.from("0123456789--, x", r.below(30)) : r.from("bytes=0123456789-", r.below(20)); judge = false;
		}
		H.note("range " + show(v));
		ExactZ e(v);
		m38_range_header h = m38_parse_range_header(e.p);
		if (judge && (h.offset != wo || h.limit != wl)) H.violation("range-value", fmt("'%s' parsed to offset %zu limit %zu, expected %llu and %llu", show(v).c_str(), h.offset, h.limit, (unsigned long long)wo, (unsigned long long)wl));
		if (!judge && (h.offset > (size_t)LONG_MAX || h.limit > (size_t)LONG_MAX)) H.violation("range-huge", fmt("'%s' parsed to offset %zu limit %zu", show(v).c_str(), h.offset, h.limit));
		H.stat("ranges");
	}
	// files
	if (r.chance(20)) {
		str path = scratch + "/f" + std::to_string(r.below(5));
		str link = scratch + "/l";
		unlink(path.c_str()); unlink(link.c_str());
		if (symlink("nowhere", (scratch + "/dangling").c_str())) {}
		size_t n = r.size(100000);
		FILE *f = fopen(path.c_str(), "w"); if (!f) abort();
		str data = r.bytes(n); fwrite(data.data(), 1, n, f); fclose(f);
		// a file with a hole takes no room, whatever its size
		if (r.chance(20)) { size_t big = n + (r.chance(50) ? r.range(1, 9) << 32 : r.next() >> 28); if (truncate(path.c_str(), big) == 0) { n = big; H.stat("files_huge"); } }
		time_t t = r.chance(10) ? -r.range(1, 2000000000) : r.range(1, 4000000000LL);
		struct timeval tv[2] = {{r.range(1, 2000000000), 0}, {t, (long)r.below(1000000)}};
		utimes(path.c_str(), tv);
		struct stat as_kept; // not every file system keeps every date
		if (stat(path.c_str(), &as_kept) == 0) t = as_kept.st_mtime;
		// a link stands for the file it leads to
		if (r.chance(30) && symlink(path.c_str(), link.c_str()) == 0) { path = link; H.stat("files_linked"); }
		H.note("file " + path);
		if (get_file_size(path.c_str()) != n) H.violation("file-size", fmt("%zu for a file of %zu bytes", get_file_size(path.c_str()), n));
		if (get_file_creation_date(path.c_str()) != t) H.violation("file-date", fmt("%lld instead of %lld", (long long)get_file_creation_date(path.c_str()), (long long)t));
		str missing = r.chance(20) ? scratch + "/dangling" : r.chance(50) ? path + "-missing" : path + "/x";
		if (get_file_size(missing.c_str()) != 0 || get_file_creation_date(missing.c_str()) != 0) H.violation("file-missing", "a missing file has a size or date");
		H.stat("files");
	}
	H.sample(H.cur->what);
}

int main(int argc, char **argv) {
	H.parse(argc, argv);
	scratch = H.opts.count("scratch") ? H.opts["scratch"] : "/nonexistent";
	if (H.mode == "decode") H.run(decode_case);
	else if (H.mode == "cookie") H.run(cookie_leak);
	else H.run(helper_case);
	return H.finish();
}
