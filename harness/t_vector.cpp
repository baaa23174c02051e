// C14: the vector against a plain list, under ASan/UBSan with heap accounting.
#include "common.hpp"

static void one(Rng &r0) {
	const uint64_t seed = r0.next();
	auto body = [seed]() {
		Rng r(seed);
		const bool ptrs = r.chance(30);
		size_t isz = ptrs ? sizeof(void *) : (r.chance(20) ? r.range(1, 600) : r.range(1, 40));
		const size_t cap = r.chance(30) ? 0 : r.chance(80) ? r.below(9) : r.below(70);
		const bool wide = !ptrs && r.chance(4);
		if (wide) isz = r.chance(60) ? r.range(1000, 9000) : r.range(30000, 140000);
		const bool big = !wide && r.below(700) == 0; // past 16-bit counts
		const size_t nops = wide ? r.range(2, 40) : big ? r.range(40, 120) : r.chance(10) ? r.range(100, 900) : r.below(60);
		vector *v = vector_new(isz, cap);
		if (wide) H.stat("wide_items");
		std::vector<str> model;
		uint64_t sig = hash64(&isz, sizeof isz); sig ^= hash64(&cap, sizeof cap, sig);
		str err;
		auto check = [&](const char *when) {
			if (v->count != model.size()) { H.violation("vector-count", fmt("%s: count %zu, %zu appended (item size %zu, initial %zu)", when, v->count, model.size(), isz, cap)); return false; }
			for (size_t i = 0; i < model.size(); i++) {
				const char *p = (const char *)vector_get(v, i);
				if (!p) { H.violation("vector-get-null", fmt("%s: item %zu of %zu is NULL", when, i, model.size())); return false; }
				if (memcmp(p, model[i].data(), model[i].size())) { H.violation("vector-item", fmt("%s: item %zu of %zu differs (item size %zu, initial %zu)", when, i, model.size(), isz, cap)); return false; }
			}
			if (vector_get(v, model.size()) != NULL || vector_get(v, model.size() + r.below(1000)) != NULL) { H.violation("vector-get-past-end", fmt("%s: an item past the last one", when)); return false; }
			H.stat("items_compared", model.size());
			return true;
		};
		bool ok = true;
		if (big) {
			const size_t n = r.range(65500, 140000);
			Exact e(r.bytes(isz));
			for (size_t i = 0; i < n && ok; i++) {
				memcpy(e.p, &i, std::min(isz, sizeof i));
				if (vector_append(v, e.p, isz) != 1) { H.violation("vector-append-failed", fmt("append %zu did not return 1", i)); ok = false; }
				model.push_back(str(e.p, isz));
			}
			H.stat("big_vectors");
		}
		for (size_t i = 0; ok && i < nops; i++) {
			int k = r.below(100);
			sig = sig * 31 + k;
			if (k < 55 || (k < 75 && !ptrs)) {
				if (ptrs && r.chance(80)) {
					void *p = (void *)(uintptr_t)(r.chance(10) ? 0 : r.next());
					if (vector_append_ptr(v, p) != 1) { H.violation("vector-append-ptr-failed", "append_ptr did not return 1"); ok = false; }
					model.push_back(str((char *)&p, sizeof p));
					H.stat("append_ptr");
				} else {
					Exact e(r.bytes(isz));
					str want(e.p, isz);
					if (vector_append(v, e.p, isz) != 1) { H.violation("vector-append-failed", fmt("append %zu of item size %zu did not return 1", i, isz)); ok = false; }
					memset(e.p, 0xEE, isz); // the vector has its own copy
					model.push_back(want);
					H.stat("append");
				}
			} else if (k < 78) {
				// a NULL item is stored as zeros
				// (whatever its size is said to be), and so is one of no bytes
				Exact some(r.bytes(isz));
				const bool none = r.chance(40);
				if (vector_append(v, none ? some.p : NULL, none ? 0 : r.chance(50) ? isz : r.below(isz + 1)) != 1) { H.violation("vector-append-failed", "append of NULL or of no bytes did not return 1"); ok = false; }
				model.push_back(str(isz, 0));
				H.stat("append_null");
			} else if (k < 84) {
				Exact e(r.bytes(isz + 1 + r.below(20)));
				if (vector_append(v, e.p, e.n) != 0) { H.violation("vector-oversize-accepted", fmt("an item of %zu bytes was accepted by a vector of %zu byte items", e.n, isz)); ok = false; }
				H.stat("oversize_refused");
				ok = ok && check("after a refused append");
			} else if (k < 87) {
				if (isz != sizeof(void *)) {
					if (vector_append_ptr(v, v) != 0) { H.violation("vector-ptr-accepted", fmt("a pointer was accepted by a vector of %zu byte items", isz)); ok = false; }
					H.stat("ptr_refused");
					ok = ok && check("after a refused append_ptr");
				}
			} else if (k < 92) {
				// shorter items: their own bytes are kept
				size_t n = r.below(isz);
				if (n > 0) {
					Exact e(r.bytes(n));
					str want(e.p, n);
					if (vector_append(v, e.p, n) != 1) { H.violation("vector-append-failed", fmt("append of %zu bytes into items of %zu did not return 1", n, isz)); ok = false; }
					model.push_back(want);
					H.stat("append_short");
				}
			} else if (k < 97) {
				if (vector_reverse(v) != 1) { H.violation("vector-reverse-failed", "reverse did not return 1"); ok = false; }
				std::reverse(model.begin(), model.end());
				// short items: only their own bytes are specified, reversal keeps whole slots
				ok = ok && check("after reverse");
				H.stat("reverse");
			} else {
				vector_reverse(v); vector_reverse(v);
				ok = ok && check("after two reversals");
				H.stat("reverse_twice");
			}
		}
		if (ok) check("at the end");
		H.stat("ops", nops);
		if (model.size() > cap) H.stat("grew");
		if (model.size() > 1) H.nontrivial(sig);
		H.sample(fmt("item size %zu, initial capacity %zu, %zu operations, %zu items", isz, cap, nops, model.size()));
		vector_free(v);
	};
	if (H.kase % 4 == 3) {
		// heap accounting without the harness' own bookkeeping
		leak_checked("vector-leak", "vector life cycle", [seed]() {
			Rng r(seed);
			size_t isz = r.range(1, 64), n = r.below(200);
			vector *v = vector_new(isz, r.below(5));
			char *item = (char *)calloc(1, isz);
			for (size_t i = 0; i < n; i++) vector_append(v, item, isz);
			if (r.chance(50)) vector_reverse(v);
			free(item);
			vector_free(v);
		});
		H.stat("leak_checked");
	} else
		body();
}

int main(int argc, char **argv) {
	H.parse(argc, argv);
	H.run(one);
	return H.finish();
}
