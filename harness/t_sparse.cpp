// C12 (dict): the dictionary against a map; C13 (array): the sparse array against a map.
#include "common.hpp"

// ---- dictionary ---------------------------------------------------------

static uint64_t fnv_signed(const str &k) {
	uint64_t h = 14695981039346656037ULL;
	for (char c : k) { h ^= (uint64_t)(int64_t)(signed char)c; h *= 1099511628211ULL; }
	return h;
}

// Two pairs of different keys with equal 64-bit FNV-1a hashes; any common suffix
// keeps them equal. They separate "same hash" from "same key".
static const std::pair<str, str> COLLIDE[] = {
	{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ"},
	{"gMPflVXtwGDXbIhP73TX", "LtHf1prlU1bCeYZEdqWf"},
	{"pFuM83THhM-Qw8FI5FKo", ".jPx7rOtTDteKAwvfOEo"},
};

struct KeyGen {
	Rng &r; int style; uint64_t low_mask; std::vector<str> made;
	KeyGen(Rng &r) : r(r), style(r.below(7)) {}
	str fresh(size_t i) {
		switch (style) {
			case 0: return "key" + std::to_string(i);
			case 1: return r.alnum(1 + r.below(12));
			case 2: return r.alnum(r.chance(30) ? r.range(200, 700) : r.range(1, 30));
			case 3: { // all keys start probing at the same slot of a small table
				for (int t = 0; t < 4000; t++) { str k = r.alnum(3 + r.below(6)); if ((fnv_signed(k) & 63) == 7) return k; }
				return r.alnum(9); }
			case 4: { // equal full hashes
				const auto &p = COLLIDE[r.below(3)];
				str suffix = r.chance(50) ? "" : r.alnum(r.below(3));
				return (r.chance(50) ? p.first : p.second) + suffix; }
			case 5: { // prefixes of each other
				str base = "abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz";
				return base.substr(0, 1 + r.below(base.size())); }
			default: { str k = r.bytes(r.below(24)); for (auto &c : k) if (!c) c = 1; return k; }
		}
	}
};

static void dict_case(Rng &r0) {
	const uint64_t seed = r0.next();
	auto body = [seed](bool record) {
		Rng r(seed);
		struct sparse_dict *d = sparse_dict_init();
		std::map<str, str> model;
		KeyGen g(r);
		size_t n = r.chance(8) ? r.range(300, 2500) : r.chance(30) ? r.range(20, 200) : r.range(1, 40);
		if (H.thorough && r.chance(10)) n *= 4;
		const bool huge = H.kase % 750 == 7; // more keys than 16 bits can number
		if (huge) { n = r.range(66000, 140000); g.style = r.chance(70) ? 0 : 2; if (record) H.stat("huge_tables"); }
		std::vector<str> keys;
		bool ok = true;
		uint64_t sig = g.style;
		auto look = [&](const str &k) {
			Exact e(k);
			size_t siz = 0xABCDEF;
			const bool want_size = !r.chance(10);
			const char *p = (const char *)sparse_dict_get(d, e.p, e.n, want_size ? &siz : NULL);
			auto it = model.find(k);
			if (it == model.end()) {
				if (p) { H.violation("dict-found-unknown", fmt("key '%s' was never stored but found (%zu keys)", show(k, 60).c_str(), model.size())); ok = false; }
				if (record) H.stat("lookups_absent");
			} else {
				if (!p) { H.violation("dict-lost", fmt("key '%s' (length %zu) is not found (%zu keys, style %d)", show(k, 60).c_str(), k.size(), model.size(), g.style)); ok = false; }
				else if (want_size && siz != it->second.size()) { H.violation("dict-length", fmt("key '%s': length %zu instead of %zu", show(k, 60).c_str(), siz, it->second.size())); ok = false; }
				else if (memcmp(p, it->second.data(), it->second.size())) { H.violation("dict-value", fmt("key '%s': wrong value (%zu keys)", show(k, 60).c_str(), model.size())); ok = false; }
				if (record) H.stat("lookups_present");
			}
		};
		const bool long_keys = !huge && n < 100 && r.chance(2);
		for (size_t i = 0; ok && i < n; i++) {
			str k = (!keys.empty() && r.chance(20)) ? r.pick(keys) : g.fresh(i);
			if (long_keys && r.chance(10)) k += str(65536 * r.range(1, 2) - r.below(3), 'k') + r.alnum(r.below(3));
			str v = r.bytes(1 + (r.chance(5) ? r.below(3000) : r.below(24)));
			bool over = model.count(k);
			{
				Exact ek(k), ev(v);
				if (sparse_dict_set(d, ek.p, ek.n, ev.p, ev.n) != 1) { H.violation("dict-set-failed", fmt("storing key '%s' (length %zu) failed with %zu keys present (style %d)", show(k, 60).c_str(), k.size(), model.size(), g.style)); ok = false; break; }
				memset(ek.p, 'Z', ek.n); memset(ev.p, 'Z', ev.n); // values and keys are copies
			}
			model[k] = v;
			keys.push_back(k);
			sig = sig * 1099511628211ull ^ hash64(k);
			if (record) H.stat(over ? "overwrites" : "insertions");
			look(k);
			if (ok && r.chance(30)) look(r.pick(keys));
			if (ok && r.chance(20)) look(g.fresh(i + 100000));
			if (ok && r.chance(10)) { str x = r.pick(keys); if (x.size() > 1) look(x.substr(0, x.size() - 1)); if (ok) look(x + "x"); }
		}
		if (ok) for (auto &p : model) { if (huge && r.chance(70)) continue; look(p.first); if (!ok) break; }
		if (ok && g.style == 4) for (auto &p : COLLIDE) { look(p.first); look(p.second); if (!ok) break; }
		if (ok && record) {
			if (model.size() > 25) H.stat("tables_grown");
			if (model.size() > 1) H.nontrivial(sig);
			H.sample(fmt("%zu operations, %zu keys of style %d", n, model.size(), g.style));
		}
		sparse_dict_free(d);
	};
	if (H.kase % 3 == 2 && H.kase % 750 != 7) {
		leak_checked("dict-leak", "dictionary life cycle", [&] { body(false); });
		H.stat("leak_checked");
	} else
		body(true);
}

// ---- sparse array -------------------------------------------------------

static void array_case(Rng &r0) {
	const uint64_t seed = r0.next();
	auto body = [seed](bool record) {
		Rng r(seed);
		const bool wide = r.chance(8); // a group of these exceeds 64 KB
		const size_t esz = wide ? r.range(1400, 9000) : r.chance(20) ? r.range(1, 400) : r.range(1, 24);
		uint32_t max;
		switch (r.below(5)) {
			case 0: max = 48 * r.range(1, 4) + r.range(-1, 1); break;
			case 1: max = r.range(1, 64); break;
			case 2: max = 32 * r.range(1, 8); break;
			default: max = r.range(1, 1200);
		}
		if (wide) max = r.range(40, 160);
		else if (r.chance(3)) max = r.range(1, 10) * 16384 + r.range(-2000, 60000);
		const bool large = max > 4000;
		struct sparse_array *a = sparse_array_init(esz, max);
		std::map<uint32_t, str> model;
		bool ok = true;
		uint64_t sig = hash64(&max, sizeof max);
		auto look = [&](uint32_t i) {
			size_t siz = 0;
			const void *p = sparse_array_get(a, i, &siz);
			auto it = model.find(i);
			if (it != model.end() && it->second.empty()) {
				// nothing was stored last: whether that is an empty item or no item, it is not the old one
				if (p && siz != 0) { H.violation("array-length", fmt("position %u of %u has %zu bytes, none were stored last", i, max, siz)); ok = false; }
			} else if (it == model.end()) {
				if (p) { H.violation("array-found-unset", fmt("position %u of %u was never stored but has %zu bytes", i, max, siz)); ok = false; }
			} else if (!p) { H.violation("array-lost", fmt("position %u of %u is empty, %zu bytes were stored", i, max, it->second.size())); ok = false; }
			else if (siz != it->second.size()) { H.violation("array-length", fmt("position %u of %u: length %zu instead of %zu", i, max, siz, it->second.size())); ok = false; }
			else if (memcmp(p, it->second.data(), siz)) { H.violation("array-value", fmt("position %u of %u: wrong bytes", i, max)); ok = false; }
			if (record) H.stat("reads");
		};
		size_t n = large ? r.range(300, 3000) : wide || r.chance(15) ? max * 2 : r.range(1, 150);
		if (wide && record) H.stat("wide_arrays");
		if (large && record) H.stat("large_arrays");
		int order = r.below(4);
		for (size_t k = 0; ok && k < n; k++) {
			uint32_t i;
			switch (order) {
				case 0: i = k % max; break;
				case 1: i = max - 1 - k % max; break;
				case 2: i = std::min<uint32_t>(max - 1, r.below(std::min<uint32_t>(max, 48))); break;
				default: i = large && r.chance(20) ? std::min<uint32_t>(max - 1, (uint32_t)r.range(1, 10) * 16384 + (uint32_t)r.below(5)) : r.below(max);
			}
			sig = sig * 31 + i;
			int what = r.below(100);
			if (what < 75) {
				Exact e(r.bytes(r.chance(60) ? esz : 1 + r.below(esz)));
				str want(e.p, e.n);
				if (sparse_array_set(a, i, e.p, e.n) != 1) { H.violation("array-set-failed", fmt("storing %zu bytes at %u of %u failed", e.n, i, max)); ok = false; break; }
				memset(e.p, 'Z', e.n);
				if (record) H.stat(model.count(i) ? "overwrites" : "stores");
				model[i] = want;
				look(i);
			} else if (what < 85) {
				Exact e(r.bytes(esz + 1 + r.below(9)));
				if (sparse_array_set(a, i, e.p, e.n) != 0) { H.violation("array-oversize-accepted", fmt("%zu bytes accepted, elements are %zu", e.n, esz)); ok = false; break; }
				look(i);
				if (record) H.stat("oversize_refused");
			} else if (what < 87) {
				Exact e("");
				if (sparse_array_set(a, i, e.p, 0) == 1) model[i] = "";
				look(i);
				if (record) H.stat("empty_stores");
			} else if (what < 93) {
				uint32_t o = r.chance(50) ? max : r.chance(50) ? max + r.below(100) : (uint32_t)r.next();
				if (o < max) o = max;
				Exact e(r.bytes(esz));
				if (sparse_array_set(a, o, e.p, e.n) != 0) { H.violation("array-outside-accepted", fmt("position %u accepted, the size is %u", o, max)); ok = false; break; }
				size_t siz = 0;
				if (sparse_array_get(a, o, &siz) != NULL) { H.violation("array-outside-read", fmt("position %u read, the size is %u", o, max)); ok = false; break; }
				if (record) H.stat("outside_refused");
			} else
				look(r.below(max));
		}
		if (!large) for (uint32_t i = 0; ok && i < max; i++) look(i);
		else { for (auto &p : model) { if (!ok) break; look(p.first); } for (int k = 0; ok && k < 1500; k++) look(r.below(max)); }
		if (ok && record) { if (model.size() > 1) H.nontrivial(sig); H.sample(fmt("%u positions of %zu bytes, %zu operations, order %d, %zu stored", max, esz, n, order, model.size())); }
		sparse_array_free(a);
	};
	if (H.kase % 3 == 2) {
		leak_checked("array-leak", "sparse array life cycle", [&] { body(false); });
		H.stat("leak_checked");
	} else
		body(true);
}

int main(int argc, char **argv) {
	H.parse(argc, argv);
	if (H.mode == "dict") {
		for (auto &p : COLLIDE) if (fnv_signed(p.first) == fnv_signed(p.second)) H.stat("colliding_pairs");
		H.run(dict_case);
	} else
		H.run(array_case);
	return H.finish();
}
