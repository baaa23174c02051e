From e6c30e58b35c93e8b9568cc3168db68068d5b264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 01/53] fix: grow vectors from zero capacity and keep their
 spare byte

---
 src/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6153dda..935d961 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -27,10 +27,11 @@ inline int vector_append(vector *vec, const void *item, const size_t item_size)
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, vec->max_size * vec->item_size + 1);
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
+		vec->max_size = new_max;
 		vec->items = array;
 	}
 
@@ -53,10 +54,11 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, (vec->max_size * vec->item_size));
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
+		vec->max_size = new_max;
 		vec->items = array;
 	}
 
-- 
2.43.0


From b3dec75d349b0841492da67659b5969d3ac34e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:41 +0000
Subject: [PATCH 02/53] fix: vector_get returns NULL past the last item

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index 935d961..1649035 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -70,7 +70,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 inline const void *vector_get(const vector *vec, const unsigned int i) {
 	if (vec == NULL)
 		return NULL;
-	if (i > vec->max_size)
+	if (i >= vec->count)
 		return NULL;
 	return nth(i);
 }
-- 
2.43.0


From 54fe9624d4a25783609a4b9a56c931a70e4cba1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 03/53] fix: hash dictionary keys of 256 bytes and more

---
 src/simple_sparsehash.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 47bb96b..a42d48b 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -15,12 +15,11 @@ static uint64_t hash_fnv1a(const char *key, const size_t klen) {
 	static const uint64_t fnv_prime = 1099511628211ULL;
 	static const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = klen;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < klen; i++) {
+
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
-- 
2.43.0


From 2dd093dc8f57d70198e06ed15d201f39677c174f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 04/53] fix: overwriting a dictionary key freed an interior
 pointer

---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index a42d48b..ff28640 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -387,15 +387,15 @@ int sparse_dict_set(struct sparse_dict *dict,
 			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
-				char *existing_key = existing_bucket->key;
 				void *existing_val = existing_bucket->val;
 				if (_create_and_insert_new_bucket(dict->buckets, probed_val, key, klen, value, vlen, key_hash)) {
 					/* We return here because we don't want to execute the 'resize the table'
 					 * logic. We overwrote a bucket instead of adding a new one, so we know
 					 * we don't need to resize anything.
 					 */
-					free(existing_key);
+					/* The key lives in the same allocation as the value. */
 					free(existing_val);
+
 					return 1;
 				} else {
 					goto error;
-- 
2.43.0


From 3c13af12cff3a0571a5669a972877be8cce6999a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 05/53] fix: probe sequence missed free dictionary slots

---
 src/simple_sparsehash.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index ff28640..621ed57 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -6,7 +6,8 @@
 
 #define FULL_ELEM_SIZE (arr->elem_size + sizeof(size_t))
 #define MAX_ARR_SIZE ((arr->maximum - 1)/GROUP_SIZE + 1)
-#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * num_probes) & (maximum - 1)
+/* Triangular numbers visit every slot of a power-of-two sized table. */
+#define QUADRATIC_PROBE(maximum) (key_hash + ((uint64_t)num_probes * (num_probes + 1)) / 2) & (maximum - 1)
 
 /* One of the simplest hashing functions, FNV-1a. See the wikipedia article for more info:
  * http://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-- 
2.43.0


From 972e041dc01d7961803a1be72168841f663be303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 06/53] fix: sparse array accepted a position one past its
 maximum

---
 src/simple_sparsehash.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 621ed57..ab6e3dd 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -213,7 +213,7 @@ struct sparse_array *sparse_array_init(const size_t element_size, const uint32_t
 int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 						   const void *val, const size_t vlen) {
 	/* Don't let users set outside the bounds of the array. */
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return 0;
 	/* Since our hashtable is divided into many arrays, we need to pick the one
 	 * relevant to `i` in this case:
@@ -224,8 +224,9 @@ int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 }
 
 const void *sparse_array_get(struct sparse_array *arr, const uint32_t i, size_t *outsize) {
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return NULL;
+
 	struct sparse_array_group *operating_group = &arr->groups[i / GROUP_SIZE];
 	const int position = i % GROUP_SIZE;
 	return _sparse_array_group_get(operating_group, position, outsize);
-- 
2.43.0


From 5838e74342cde0acaf0ef5caf1b14ffe14f4d18f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 07/53] fix: undefined shift and unaligned size read in the
 sparse array

---
 src/simple_sparsehash.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index ab6e3dd..f1474fc 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -38,7 +38,7 @@ static uint32_t modbit(const uint32_t position) {
 	/* Get the number of bits of this number that are 0 - 31,
 	 * or something like that.
 	 */
-	return 1 << (position & 31);
+	return (uint32_t)1 << (position & 31);
 }
 
 /* This is one of the popcount implementations from Wikipedia.
@@ -160,9 +160,12 @@ static const void *_sparse_array_group_get(struct sparse_array_group *arr,
 	/* In a perfect world you could store 0 sized items and have that mean
 	 * something, but I'll tolerate none of that right now.
 	 */
-	if (*(size_t *)item_siz == 0)
+	size_t stored_siz = 0;
+	memcpy(&stored_siz, item_siz, sizeof(stored_siz));
+	if (stored_siz == 0)
 		return NULL;
 
+
 	/* If the user wants to know the size (outsize is non-null), write it
 	 * out.
 	 */
-- 
2.43.0


From d1881da350a61e82f69ca1d2e23ebd75f3820269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:26 +0000
Subject: [PATCH 08/53] fix: logging used the unsynchronised localtime

---
 src/logging.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index f73c16c..ff0ce06 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -30,9 +30,11 @@ void m38_log_msg(log_level level, const char *fmsg, ...) {
 
 	/* Time stuff */
 	struct timeval timest;
+	struct tm time_parts = {0};
 	gettimeofday(&timest, NULL);
 	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S",
-			localtime(&timest.tv_sec));
+			localtime_r(&timest.tv_sec, &time_parts));
+
 
 	switch (level) {
 		case LOG_INFO:
-- 
2.43.0


From da5b30ddfc19685140d8058534c0ba2ea88ce774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 09/53] fix: strnstr missed a needle at the very end

---
 src/utils.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index f1e50eb..f49a2c3 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -62,7 +62,7 @@ int endswith(const char *string, const char *suffix) {
 
 /* Pulled from here: http://stackoverflow.com/a/25705264 */
 char *strnstr(const char *haystack, const char *needle, size_t len) {
-	int i;
+	size_t i;
 	size_t needle_len;
 
 	/* segfault here if needle is not NULL terminated */
@@ -72,7 +72,8 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<(int)(len-needle_len); i++)
+	for (i=0; i + needle_len <= len; i++)
+
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From bc1f7853f529aa1daf5df2e86a09c2b9583cc8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 10/53] fix: hash_string_fnv1a never returned for 256 bytes and
 more

---
 src/utils.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index f49a2c3..ec6cd70 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -102,12 +102,11 @@ int hash_string_fnv1a(const unsigned char *key, const size_t siz, char outbuf[st
 	const uint64_t fnv_prime = 1099511628211ULL;
 	const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = siz;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < siz; i++) {
+
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
-- 
2.43.0


From 0179e666df419cb5d44a3dc1e87450d725c2b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:14 +0000
Subject: [PATCH 11/53] fix: cookie lookup matched substrings and kept the
 separator

---
 src/utils.c | 44 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 22 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index ec6cd70..b85cf71 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -121,29 +121,29 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 	if (!cookie_string)
 			return NULL;
 
-	const char *cookie_loc = strnstr(cookie_string, needle, cookie_string_siz);
-	if (!cookie_loc)
-			return NULL;
+	const size_t needle_siz = strlen(needle);
+	const char *cur = cookie_string;
+	const char *end = cookie_string + strnlen(cookie_string, cookie_string_siz);
+
+	/* Cookies are "name=value" pairs separated by semicolons. */
+	while (cur < end) {
+		const char *pair_end = memchr(cur, ';', end - cur);
+		if (!pair_end)
+			pair_end = end; /* This is okay, it might be at the end of the cookie. */
+
+		while (cur < pair_end && (*cur == ' ' || *cur == '\t'))
+			cur++;
+
+		const char *equals = memchr(cur, '=', pair_end - cur);
+		if (equals && (size_t)(equals - cur) == needle_siz && memcmp(cur, needle, needle_siz) == 0) {
+			const char *value = equals + 1;
+			while (pair_end > value && (pair_end[-1] == ' ' || pair_end[-1] == '\t'))
+				pair_end--;
+			return strndup(value, pair_end - value);
+		}
 
-	const char *cookie_string_start = cookie_loc;
-	const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_string_siz - (cookie_loc - cookie_string));
-	if (!cookie_string_end) {
-			/* This is okay, it might be at the end of the cookie. */
-			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
-			if (!cookie_string_end)
-					cookie_string_end = cookie_loc + cookie_string_siz;
+		cur = pair_end + 1;
 	}
 
-	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
-	const char *cookie_string_value = strnstr(cookie_loc, "=", cookie_string_size);
-	if (!cookie_string_value)
-			return NULL;
-
-	/* -1 here is for the '=': */
-	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value;
-	char *data = calloc(sizeof(char), cookie_string_value_size + 2); /* Plus two here: One for =, one for NULL */
-	data[cookie_string_value_size] = '\0';
-	strncpy(data, cookie_string_value + 1, cookie_string_value_size);
-
-	return data;
+	return NULL;
 }
-- 
2.43.0


From 42f398300ad31c21e0a06364d6b15eeff9a5d462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 12/53] fix: header lookup matched other text and crashed on
 short lines

---
 src/parse.c | 45 ++++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8bf79b8..d8842a2 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -99,23 +99,34 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 }
 
 char *m38_get_header_value_raw(const char *request, const size_t request_siz, const char header[static 1]) {
-	/* TODO: Make sure this function handles bad input. */
-	char *data = NULL;
-	const char *header_loc = strnstr(request, header, request_siz);
-	if (!header_loc)
-		return NULL;
-
-	const char *header_value_start = header_loc + strnlen(header, request_siz) + strlen(": ");
-	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz);
-	if (!header_value_end)
-		return NULL;
-
-	const size_t header_value_size = header_value_end - header_value_start;
-	data = calloc(sizeof(char), header_value_size + 1);
-	data[header_value_size] = '\0';
-	strncpy(data, header_value_start, header_value_size);
-
-	return data;
+	const size_t header_siz = strlen(header);
+	const char *request_end = request + request_siz;
+
+	/* The first line is the request line, header fields start after it. */
+	const char *line_end = memmem(request, request_siz, "\r\n", strlen("\r\n"));
+	while (line_end) {
+		const char *line = line_end + strlen("\r\n");
+		line_end = memmem(line, request_end - line, "\r\n", strlen("\r\n"));
+
+		/* An empty line ends the header. */
+		if (!line_end || line_end == line)
+			break;
+
+		if ((size_t)(line_end - line) <= header_siz || line[header_siz] != ':' ||
+				strncasecmp(line, header, header_siz) != 0)
+			continue;
+
+		const char *value = line + header_siz + 1;
+		const char *value_end = line_end;
+		while (value < value_end && (*value == ' ' || *value == '\t'))
+			value++;
+		while (value_end > value && (value_end[-1] == ' ' || value_end[-1] == '\t'))
+			value_end--;
+
+		return strndup(value, value_end - value);
+	}
+
+	return NULL;
 }
 
 char *m38_get_header_value_request(const m38_http_request *req, const char header[static 1]) {
-- 
2.43.0


From a8042037b720ac6bb42b2108f109867d574576d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 13/53] fix: request parsing read past the received bytes

---
 src/parse.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index d8842a2..44c9622 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -135,7 +135,7 @@ char *m38_get_header_value_request(const m38_http_request *req, const char heade
 
 int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_http_request *out) {
 	/* Find the verb */
-	const char *verb_end = strnstr((char *)to_read, " ", MAX_READ_LEN);
+	const char *verb_end = strnstr((char *)to_read, " ", num_read < MAX_READ_LEN ? num_read : MAX_READ_LEN);
 	if (verb_end == NULL)
 		goto error;
 
@@ -144,7 +144,8 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 	strncpy(out->verb, (char *)to_read, verb_size);
 
 	const char *res_offset = verb_end + strlen(" ");
-	const char *resource_end = strnstr(res_offset, " ", sizeof(out->resource));
+	const size_t left = num_read - (res_offset - (char *)to_read);
+	const char *resource_end = strnstr(res_offset, " ", left < sizeof(out->resource) ? left : sizeof(out->resource));
 	if (resource_end == NULL)
 		goto error;
 
@@ -155,7 +156,8 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 	/* Parse full header here. */
 	size_t header_length = 0;
 	int found_end = 0;
-	while (header_length + 3 <= num_read) {
+	while (header_length + 3 < num_read) {
+
 		if (to_read[header_length] == '\r' &&
 		    to_read[header_length + 1] == '\n' &&
 		    to_read[header_length + 2] == '\r' &&
-- 
2.43.0


From bff1f9825ef4e17a6a87d90f11285394c51c6e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 14/53] fix: headers and bodies were cut at the first NUL byte

---
 src/parse.c | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 44c9622..d03899a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -133,6 +133,16 @@ char *m38_get_header_value_request(const m38_http_request *req, const char heade
 	return m38_get_header_value_raw(req->full_header, req->header_len, header);
 }
 
+/* Copies bytes, NULs included, and terminates the copy. */
+static unsigned char *copy_bytes(const char *src, const size_t len) {
+	unsigned char *copied = malloc(len + 1);
+	if (!copied)
+		return NULL;
+	memcpy(copied, src, len);
+	copied[len] = '\0';
+	return copied;
+}
+
 int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_http_request *out) {
 	/* Find the verb */
 	const char *verb_end = strnstr((char *)to_read, " ", num_read < MAX_READ_LEN ? num_read : MAX_READ_LEN);
@@ -174,7 +184,9 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 	}
 
-	out->full_header = strndup((char *)to_read, header_length);
+	out->full_header = (char *)copy_bytes((char *)to_read, header_length);
+	if (!out->full_header)
+		goto error;
 	out->header_len = header_length;
 
 	return 0;
@@ -192,15 +204,16 @@ int m38_parse_body(const size_t received_body_len,
 	/* We want to read the least amount. Read whatever is smallest. DO IT BECAUSE I SAY SO. */
 	if (content_length_num == received_body_len) {
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, content_length_num);
+		request->full_body = copy_bytes(body_start, content_length_num);
 	} else if (received_body_len < content_length_num) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Received body length is less than clength for full_body.");
 		request->body_len = received_body_len;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = copy_bytes(body_start, request->body_len);
 	} else if (content_length_num > 0 && content_length_num < received_body_len) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Content length is less than total received body length.");
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = copy_bytes(body_start, request->body_len);
+
 	} else {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Discrepancy between content-length and body length.");
 		request->full_body = NULL;
-- 
2.43.0


From 236aaa46c1fe49c252ef0b1a1678688090281ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:24 +0000
Subject: [PATCH 15/53] fix: form parsing overflowed, consumed the body and
 lost field text

---
 src/parse.c | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index d03899a..ea93939 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -237,22 +237,29 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 
 	new_dict = sparse_dict_init();
 
-	while ((potential_kv_pair = strsep((char **)&request->full_body, "&")) != NULL) {
-		char *key = NULL;
-		char *value = NULL;
-		key = strsep(&potential_kv_pair, "=");
-		value = strsep(&potential_kv_pair, "=");
+	char *remaining = duplicated_body;
+	while ((potential_kv_pair = strsep(&remaining, "&")) != NULL) {
+		char *key = strsep(&potential_kv_pair, "=");
+		char *value = potential_kv_pair; /* Everything after the first '='. */
 
 		if (!key || !value) {
 			continue;
 		}
 
-		char *decoded_buffer = calloc(1, strlen(value));
-		if (m38_url_decode(value, decoded_buffer) > 0) {
-			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
-		} else {
+		/* Both decode to at most their own length, plus the terminator. */
+		char *decoded_key = calloc(1, strlen(key) + 1);
+		char *decoded_buffer = calloc(1, strlen(value) + 1);
+		int key_siz = -1, value_siz = -1;
+		if (decoded_key && decoded_buffer) {
+			key_siz = m38_url_decode(key, decoded_key);
+			value_siz = m38_url_decode(value, decoded_buffer);
+		}
+		/* The decoded sizes count the terminator. */
+		if (key_siz <= 0 || value_siz <= 0 ||
+				!sparse_dict_set(new_dict, decoded_key, key_siz - 1, decoded_buffer, value_siz - 1)) {
 			m38_log_msg(LOG_WARN, "Could not place item into form elements dict.");
 		}
+		free(decoded_key);
 		free(decoded_buffer);
 	}
 
-- 
2.43.0


From 0e0773a75332f56967ba1e43e83f27b53d876390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:06 +0000
Subject: [PATCH 16/53] fix: negative range positions became huge offsets

---
 src/parse.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index ea93939..e14f3ba 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -49,7 +49,7 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 	}
 
 	long int _fn = strtol(actual_value, NULL, 10);
-	if ((_fn == LONG_MIN || _fn == LONG_MAX) && errno == ERANGE) {
+	if (_fn < 0 || (_fn == LONG_MAX && errno == ERANGE)) {
 		m38_log_msg(LOG_WARN, "Malformed range query, could not parse first_num: %s", range_query);
 		m38_range_header rng = {
 			.limit = 0,
@@ -72,7 +72,8 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 	 * The '+1' here is for the '-' between the two numbers.
 	 */
 	const long int _sn = strtol(actual_value + (i + 1), NULL, 10);
-	if ((_sn == LONG_MIN || _sn == LONG_MAX) && errno == ERANGE) {
+	if (_sn < 0 || (_sn == LONG_MAX && errno == ERANGE)) {
+
 		/* No second number, just return 0. */
 		m38_range_header rng = {
 			.limit = 0,
-- 
2.43.0


From 6d157ff4e04a5905aa19b012313d7bad63668580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 17/53] fix: requests split by the network were dropped, cut or
 crashed the reader

---
 src/grengine.c | 134 +++++++++++++++++++++++--------------------------
 1 file changed, 62 insertions(+), 72 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9acb18b..75e9d82 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -2,7 +2,9 @@
 #ifdef __clang__
 	#pragma clang diagnostic ignored "-Wmissing-field-initializers"
 #endif
+#define _GNU_SOURCE
 #include <assert.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <regex.h>
 #include <stdio.h>
@@ -314,62 +316,63 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	free(user_agent);
 }
 
-static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
-	size_t read_this_time = 0;
-	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
-		*num_read += read_this_time;
-		if (read_this_time == 0 || read_this_time < MAX_READ_LEN)
-			break;
-		read_this_time = 0;
-
-		*to_read = realloc(*to_read, *num_read + MAX_READ_LEN);
-		if (!(*to_read)) {
-			m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
-			goto error;
-		}
-		memset(*to_read + *num_read, '\0', MAX_READ_LEN);
-		if (*num_read >= MAX_REQUEST_SIZE)
-			break;
-	}
-
-	return 0;
+/* The value of the Content-Length header, or 0. */
+static size_t get_content_length(const char *header, const size_t header_len) {
+	char *clength = m38_get_header_value_raw(header, header_len, "Content-Length");
+	if (clength == NULL)
+		return 0;
 
-error:
-	return -1;
+	const long int clength_num = strtol(clength, NULL, 10);
+	free(clength);
+	return clength_num > 0 ? (size_t)clength_num : 0;
 }
 
-static int attempt_reread_from_socket(
-		const int accept_fd, const size_t clength_num,
-		const size_t post_body_len, m38_http_request *out) {
+/* Reads until the header and the body it announces have arrived, the client is
+ * done sending or MAX_REQUEST_SIZE is reached. What was read is always followed
+ * by a NULL terminator. */
+static int read_request_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
+	size_t capacity = MAX_READ_LEN;
+	size_t header_len = 0;
+	size_t wanted = MAX_REQUEST_SIZE;
+
+	while (*num_read < wanted) {
+		if (*num_read + MAX_READ_LEN + 1 > capacity) {
+			capacity = (*num_read + MAX_READ_LEN + 1) * 2;
+			unsigned char *grown = realloc(*to_read, capacity);
+			if (!grown) {
+				m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
+				return -1;
+			}
+			*to_read = grown;
+		}
 
-	unsigned char *to_read = NULL;
-	size_t num_read = 0;
+		const ssize_t read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0);
+		if (read_this_time == -1 && errno == EINTR)
+			continue;
+		if (read_this_time == -1) {
+			m38_log_msg(LOG_ERR, "Could not read request.");
+			return -1;
+		}
+		if (read_this_time == 0)
+			break;
 
-	/* If we have a post_body_len > 0, we don't have to reread from the socket. */
-	/* In addition, if we have a longer content-length than we have known post-body
-	 * length, than we should attempt to re-read from the client. */
-	if ((post_body_len <= 0 && clength_num > 0) ||
-		(post_body_len > 0 && post_body_len < clength_num)) {
-
-		to_read = calloc(1, MAX_READ_LEN);
-
-		m38_log_msg(LOG_WARN, "Content-Length is %i but we got a post_body_len of %i.", clength_num, post_body_len);
-		m38_log_msg(LOG_WARN, "Attempting to re-read from stream.", clength_num, post_body_len);
-		/* ------------------------------------- */
-		/* XXX: Do a select here with a timeout. */
-		/* ------------------------------------- */
-		int rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-		if (rc != 0)
-			goto error;
+		/* The end of the header may straddle what we already had. */
+		const size_t scan_from = *num_read < 3 ? 0 : *num_read - 3;
+		*num_read += read_this_time;
+		(*to_read)[*num_read] = '\0';
+
+		if (header_len == 0) {
+			const unsigned char *header_end = memmem(*to_read + scan_from, *num_read - scan_from, "\r\n\r\n", strlen("\r\n\r\n"));
+			if (header_end) {
+				header_len = header_end - *to_read + strlen("\r\n\r\n");
+				const size_t clength_num = get_content_length((char *)*to_read, header_len);
+				if (header_len < MAX_REQUEST_SIZE && clength_num < MAX_REQUEST_SIZE - header_len)
+					wanted = header_len + clength_num;
+			}
+		}
 	}
 
-	out->full_body = to_read;
-	out->body_len = num_read;
 	return 0;
-
-error:
-	free(to_read);
-	return -1;
 }
 
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
@@ -386,7 +389,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t num_read = 0;
 	int rc = 0;
 
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
+	rc = read_request_from_socket(accept_fd, &to_read, &num_read);
 	if (rc != 0)
 		goto error;
 
@@ -406,30 +409,17 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		goto error;
 	}
 
-	char *clength = m38_get_header_value_raw(request.full_header, request.header_len, "Content-Length");
-	size_t clength_num = 0;
-	if (clength == NULL) {
-		m38_log_msg(LOG_WARN, "Could not parse content length.");
-	} else {
-		clength_num = atoi(clength);
-		free(clength);
-	}
+	const size_t clength_num = get_content_length(request.full_header, request.header_len);
 
-	/* Do we have a POST body or something? */
-	const size_t post_body_len = num_read - request.header_len;
-	if (post_body_len <= 0 && clength_num > 0) {
-		/* re-read will just copy into the m38_http_request. */
-		rc = attempt_reread_from_socket(accept_fd, clength_num, post_body_len, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not reread from socket and parse body.");
-			goto error;
-		}
-	} else {
-		rc = m38_parse_body(post_body_len, clength_num, to_read, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not parse body.");
-			goto error;
-		}
+	/* Do we have a POST body or something? Anything past the announced length isn't ours. */
+	size_t post_body_len = num_read - request.header_len;
+	if (post_body_len > clength_num)
+		post_body_len = clength_num;
+
+	rc = m38_parse_body(post_body_len, clength_num, to_read, &request);
+	if (rc != 0) {
+		m38_log_msg(LOG_ERR, "Could not parse body.");
+		goto error;
 	}
 
 	/* Parses form encoding, if applicable: */
-- 
2.43.0


From 20cc0f65de30fbdaa031faeb906bbaf20ee05ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 18/53] fix: failed requests freed uninitialised pointers and
 leaked, forms leaked

---
 src/grengine.c | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 75e9d82..faad65e 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -20,7 +20,9 @@
 #include "greshunkel.h"
 #include "utils.h"
 #include "logging.h"
+#include "simple_sparsehash.h"
 #include "vector.h"
+
 #include "types.h"
 
 static const char r_200[] =
@@ -375,6 +377,8 @@ static int read_request_from_socket(const int accept_fd, unsigned char **to_read
 	return 0;
 }
 
+static void _clean_up_extra_headers(m38_http_response *response);
+
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN);
 	char *actual_response = NULL;
@@ -389,10 +393,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t num_read = 0;
 	int rc = 0;
 
-	rc = read_request_from_socket(accept_fd, &to_read, &num_read);
-	if (rc != 0)
-		goto error;
-
 	m38_http_request request = {
 		.verb = {0},
 		.resource = {0},
@@ -403,6 +403,10 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
+	rc = read_request_from_socket(accept_fd, &to_read, &num_read);
+	if (rc != 0)
+		goto error;
+
 	rc = m38_parse_request(to_read, num_read, &request);
 	if (rc != 0) {
 		m38_log_msg(LOG_ERR, "Could not parse request.");
@@ -434,10 +438,12 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		if (rc != 0) {
 			/* application/x-www-form-urlencoded */
 			m38_log_msg(LOG_ERR, "Could not parse form-urlencoded body.");
+			free(content_type);
 			goto error;
 		}
 	
 	}
+	free(content_type);
 
 	/* Find our matching route: */
 	int64_t i;
@@ -625,17 +631,20 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return hreq;
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(500, &response);
+	_clean_up_extra_headers(&response);
 	free(actual_response);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return NULL;
 }
 
-- 
2.43.0


From ea10c0300c28c829718e4d8fe385a2858de1bace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:12 +0000
Subject: [PATCH 19/53] fix: custom headers wrote past a stack buffer and
 reported failure on success

---
 src/grengine.c | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index faad65e..3f38947 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -282,23 +282,31 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 		return 0;
 	}
 
-	const char *copied_header = strndup(header, header_len);
-	const char *copied_value = strndup(value, value_len);
+	char *copied_header = strndup(header, header_len);
+	char *copied_value = strndup(value, value_len);
 	if (!copied_header || !copied_value) {
 		m38_log_msg(LOG_ERR, "Could not create copied values for http_response extra headers!");
-		free(new_pair);
-		return 0;
+		goto error;
 	}
 
 	m38_header_pair _stack_pair = {
 		.header = copied_header,
-		.header_len = header_len,
+		.header_len = strlen(copied_header),
 		.value = copied_value,
-		.value_len = value_len,
+		.value_len = strlen(copied_value),
 	};
 	memcpy(new_pair, &_stack_pair, sizeof(m38_header_pair));
-	vector_append_ptr(response->extra_headers, new_pair);
+	if (!vector_append_ptr(response->extra_headers, new_pair)) {
+		m38_log_msg(LOG_ERR, "Could not store http_response extra header!");
+		goto error;
+	}
+
+	return 1;
 
+error:
+	free(copied_header);
+	free(copied_value);
+	free(new_pair);
 	return 0;
 }
 
@@ -562,12 +570,10 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		snprintf(actual_response, actual_response_siz, matched_response->message, response.mimetype, response.outsize);
 		for (i = 0; i < response.extra_headers->count; i++) {
 			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
-								    + strlen("\r\n") + 1;
-			char buf[siz];
-			buf[siz] = '\0';
-			snprintf(buf, actual_response_siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
-			strncat(actual_response, buf, siz);
+			strcat(actual_response, (*pair)->header);
+			strcat(actual_response, ": ");
+			strcat(actual_response, (*pair)->value);
+			strcat(actual_response, "\r\n");
 		}
 		strcat(actual_response, r_final);
 
-- 
2.43.0


From 2f25b14ad057f215974130da8bb2b2480f562615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 20/53] fix: partial responses had wrong lengths, labels and
 bytes

---
 src/grengine.c | 146 +++++++++++++++++++++++--------------------------
 1 file changed, 69 insertions(+), 77 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 3f38947..09a35cc 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -385,6 +385,38 @@ static int read_request_from_socket(const int accept_fd, unsigned char **to_read
 	return 0;
 }
 
+/* Turns the value of a Range header into the first and last byte of a body.
+ * Returns 0 if the value does not name a part of the body. */
+static int resolve_range(const char *range_header_value, const size_t size, size_t *start_byte, size_t *end_byte) {
+	const m38_range_header byte_range = m38_parse_range_header(range_header_value);
+	m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
+
+	/* Anything but "bytes=first-" or "bytes=first-last" is ignored. */
+	if (strncmp(range_header_value, "bytes=", strlen("bytes=")) != 0)
+		return 0;
+	const char *digits = "0123456789";
+	const char *first = range_header_value + strlen("bytes=");
+	const size_t first_len = strspn(first, digits);
+	if (first_len == 0 || first[first_len] != '-')
+		return 0;
+	const char *last = first + first_len + 1;
+	if (last[strspn(last, digits)] != '\0')
+		return 0;
+
+	if (byte_range.offset >= size)
+		return 0;
+
+	/* A limit of 0 means there is none, unless the client asked for the very first byte. */
+	const int only_first_byte = byte_range.offset == 0 && *last != '\0' && last[strspn(last, "0")] == '\0';
+	size_t limit = byte_range.limit;
+	if ((limit == 0 && !only_first_byte) || limit >= size)
+		limit = size - 1;
+
+	*start_byte = byte_range.offset;
+	*end_byte = limit;
+	return 1;
+}
+
 static void _clean_up_extra_headers(m38_http_response *response);
 
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
@@ -525,10 +557,13 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t actual_response_siz = 0;
 
 	/* Figure out if this thing needs to be partial */
+	size_t start_byte = 0, end_byte = response.outsize > 0 ? response.outsize - 1 : 0;
 	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && RESPONSE_OK(response_code)) {
+	if (range_header_value && response_code == 200 && response.out != NULL &&
+			resolve_range(range_header_value, response.outsize, &start_byte, &end_byte)) {
 		response_code = 206;
 	}
+	free(range_header_value);
 
 	/* Figure out what header we need to use: */
 	const code_to_message *matched_response = NULL;
@@ -545,83 +580,40 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	 * compile time. */
 	assert(matched_response != NULL);
 
-	if (response_code == 200 || response_code == 404 || response_code == 301 ||
-			response_code == 302 ||response_code == 400 || response_code == 403 ||
-			response_code == 500) {
-		const size_t integer_length = UINT_LEN(response.outsize);
-		if (response.mimetype[0] == '\0')
-			memcpy(response.mimetype, "text/html", strlen("text/html"));
-
-		header_size = strlen(response.mimetype) + strlen(matched_response->message)
-			+ integer_length - strlen("%s") - strlen("%zu") + strlen(r_final);
-
-		size_t i = 0;
-		for (i = 0; i < response.extra_headers->count; i++) {
-			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			header_size += (*pair)->header_len + strlen(": ") + (*pair)->value_len
-								    + strlen("\r\n");
-		}
-		actual_response_siz = response.outsize + header_size;
-		actual_response = malloc(actual_response_siz + 1);
-		memset(actual_response, '\0', actual_response_siz);
-		actual_response[actual_response_siz] = '\0';
-
-		/* snprintf the header because it's just a string: */
-		snprintf(actual_response, actual_response_siz, matched_response->message, response.mimetype, response.outsize);
-		for (i = 0; i < response.extra_headers->count; i++) {
-			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			strcat(actual_response, (*pair)->header);
-			strcat(actual_response, ": ");
-			strcat(actual_response, (*pair)->value);
-			strcat(actual_response, "\r\n");
-		}
-		strcat(actual_response, r_final);
-
-		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out, response.outsize);
-	} else if (response_code == 206) {
-		/* Byte range queries have some extra shit. */
-		m38_range_header byte_range = m38_parse_range_header(range_header_value);
-		/* TODO: Add the custom header stuff here (for 206), too. */
-
-		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
-		free(range_header_value);
-
-		size_t end_byte = 0;
-		if (byte_range.limit == 0) {
-			end_byte = response.outsize - 1;
-		} else {
-			end_byte = (response.outsize - byte_range.limit) - 1;
-		}
-
-		if (end_byte >= response.outsize)
-			end_byte = response.outsize - 1;
-		const size_t start_byte = byte_range.offset < response.outsize ? byte_range.offset : 0;
-		const size_t max_size = response.outsize; /* Should be the same as file size. */
-		const size_t integer_length = UINT_LEN(max_size);
-
-		const size_t minb_len = start_byte == 0 ? 1 : UINT_LEN(start_byte);
-		const size_t maxb_len = end_byte == 0 ? 1 : UINT_LEN(end_byte);
-		/* Compute the size of the header */
-		header_size = strlen(response.mimetype) + strlen(matched_response->message) + strlen(r_final)
-			+ integer_length + minb_len + maxb_len + integer_length
-			- strlen("%s") - (strlen("%zu") * 4);
-		actual_response_siz = max_size + header_size;
-		/* malloc the full response */
-		actual_response = malloc(actual_response_siz + 1);
-		actual_response[actual_response_siz] = '\0';
-
-		/* snprintf the header because it's just a string: */
-		snprintf(actual_response, actual_response_siz, matched_response->message,
-			response.mimetype, max_size,
-			start_byte, end_byte, max_size);
-		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, max_size);
-
-		strcat(actual_response, r_final);
-
-		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out + start_byte, end_byte - start_byte);
+	if (response.mimetype[0] == '\0')
+		memcpy(response.mimetype, "text/html", strlen("text/html"));
+
+	/* Only the requested bytes of the body are sent for a byte range. The
+	 * other headers have no place for the range and ignore it. */
+	const size_t body_size = response.outsize > 0 ? end_byte - start_byte + 1 : 0;
+	const size_t max_size = response.outsize; /* Should be the same as file size. */
+	const int start_line_size = snprintf(NULL, 0, matched_response->message,
+		response.mimetype, body_size, start_byte, end_byte, max_size);
+
+	header_size = start_line_size + strlen(r_final);
+	for (i = 0; i < (int64_t)response.extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
+		header_size += (*pair)->header_len + strlen(": ") + (*pair)->value_len
+							    + strlen("\r\n");
 	}
+	actual_response_siz = body_size + header_size;
+	actual_response = calloc(1, actual_response_siz + 1);
+
+	/* snprintf the header because it's just a string: */
+	snprintf(actual_response, actual_response_siz + 1, matched_response->message,
+		response.mimetype, body_size, start_byte, end_byte, max_size);
+	for (i = 0; i < (int64_t)response.extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
+		strcat(actual_response, (*pair)->header);
+		strcat(actual_response, ": ");
+		strcat(actual_response, (*pair)->value);
+		strcat(actual_response, "\r\n");
+	}
+	strcat(actual_response, r_final);
+
+	/* memcpy the rest because it could be anything: */
+	if (body_size > 0)
+		memcpy(actual_response + header_size, response.out + start_byte, body_size);
 
 	log_request(&request, &response, response_code);
 
-- 
2.43.0


From 20007adc41e5e767ba8427e3dab9a572f20daf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 21/53] fix: short and interrupted sends lost part of the
 response

---
 src/grengine.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 09a35cc..6aa4858 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -663,13 +663,16 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 	const size_t bytes_left = hreq->response_len - hreq->sent;
 	const size_t to_send = bytes_left < 4096 ? bytes_left : 4096;
-	int rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
+	const ssize_t rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
+	if (rc == -1 && errno == EINTR)
+		return hreq;
 	if (rc <= 0) {
 		m38_log_msg(LOG_ERR, "Could not send response.");
 		goto error;
 	}
 
-	hreq->sent += to_send;
+	hreq->sent += rc;
+
 
 	if (hreq->response_len - hreq->sent <= 0) {
 		if (matching_route->cleanup != NULL) {
-- 
2.43.0


From 4deee7e92ce52e5ee7778a5267de7db382a26611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 22/53] fix: responses leaked when the client went away

---
 src/grengine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 6aa4858..117171b 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -690,8 +690,9 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 	return hreq;
 
 error:
+	/* The handler's own status decides what there is to clean up. */
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &hreq->response);
+		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
-- 
2.43.0


From 4d15289289c050531bf5c5cd36fcfbebac2b7d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:23 +0000
Subject: [PATCH 23/53] fix: the extension of short paths was ignored

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 117171b..14541bf 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -231,7 +231,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	unsigned int i = sizeof(ending);
 	int found_dot = 0;
 	const size_t res_len = strlen(file_path);
-	for (i = res_len; i > (res_len - sizeof(ending)); i--) {
+	for (i = res_len; i > 0 && i + sizeof(ending) > res_len; i--) {
 		if (file_path[i] == '.') {
 			found_dot = 1;
 			break;
-- 
2.43.0


From 8d0d47484ea0c51691ab01dc86651cc562c36a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 24/53] fix: empty files were answered with 404

---
 src/grengine.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 14541bf..9be63df 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -169,9 +169,11 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 	gshkl_free_context((greshunkel_ctext *)ctext);
 
 	/* Clean up the stuff we're no longer using. */
-	munmap(response->out, original_size);
+	if (original_size > 0)
+		munmap(response->out, original_size);
 	free(response->extra_data);
 
+
 	/* Make sure the response is kept up to date: */
 	response->outsize = new_size;
 	response->out = (unsigned char *)rendered;
@@ -207,7 +209,11 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	const size_t c_offset = offset != NULL ? *offset : 0;
 	const size_t c_limit = limit != NULL ? (*limit - c_offset) : (st.st_size - c_offset);
 
-	response->out = mmap(NULL, c_limit, PROT_READ, MAP_PRIVATE, fd, c_offset);
+	/* There is nothing to map in an empty file. */
+	if (c_limit == 0)
+		response->out = (unsigned char *)"";
+	else
+		response->out = mmap(NULL, c_limit, PROT_READ, MAP_PRIVATE, fd, c_offset);
 	response->outsize = c_limit - c_offset;
 
 	if (response->out == MAP_FAILED) {
@@ -224,7 +230,8 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	}
 	close(fd);
 
-	madvise(response->out, c_limit, MADV_SEQUENTIAL | MADV_WILLNEED);
+	if (c_limit > 0)
+		madvise(response->out, c_limit, MADV_SEQUENTIAL | MADV_WILLNEED);
 
 	/* Figure out the mimetype for this resource: */
 	char ending[16] = {0};
@@ -266,7 +273,8 @@ void m38_heap_cleanup(const int status_code, m38_http_response *response) {
 
 void m38_mmap_cleanup(const int status_code, m38_http_response *response) {
 	if (RESPONSE_OK(status_code)) {
-		munmap(response->out, response->outsize);
+		if (response->outsize > 0)
+			munmap(response->out, response->outsize);
 		free(response->extra_data);
 	}
 }
-- 
2.43.0


From bdb2918b3e228eb141fbf8105cf8bd1a40aa6513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 25/53] fix: opening something that is not a file could block
 the worker

---
 src/grengine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9be63df..11c395f 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -185,7 +185,8 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 				 const size_t *offset, const size_t *limit) {
 	response->extra_data = calloc(1, sizeof(struct stat));
 
-	if (stat(file_path, response->extra_data) == -1) {
+	if (stat(file_path, response->extra_data) == -1 ||
+			!S_ISREG(((struct stat *)response->extra_data)->st_mode)) {
 		response->out = (unsigned char *)"<html><body><p>No such file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>No such file.</p></body></html>");
 		free(response->extra_data);
-- 
2.43.0


From 18225c5e0380cc80f600cc30942725b39d003eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:59 +0000
Subject: [PATCH 26/53] fix: rendering a missing file leaked the context

---
 src/grengine.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 11c395f..bb2834c 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -157,8 +157,10 @@ int m38_return_raw_buffer(const char *buf, const size_t buf_size, m38_http_respo
 
 int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path, m38_http_response *response) {
 	int rc = m38_mmap_file(file_path, response);
-	if (!RESPONSE_OK(rc))
+	if (!RESPONSE_OK(rc)) {
+		gshkl_free_context((greshunkel_ctext *)ctext);
 		return rc;
+	}
 
 	/* Render the mmap()'d file with greshunkel */
 	const char *mmapd_region = (char *)response->out;
-- 
2.43.0


From 1a9c656ca44f78caefefc53ad8c4b0d5ca2d2d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 27/53] fix: workers read their arguments from a dead stack
 slot

---
 src/server.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/server.c b/src/server.c
index 063c4d9..97d2c26 100644
--- a/src/server.c
+++ b/src/server.c
@@ -37,7 +37,7 @@ typedef struct {
 
 typedef struct {
 	const m38_app *app;
-	const int worker_ident;
+	int worker_ident;
 } handler_arg;
 
 static inline mqd_t _open_queue(const char *queue_name, int flags, const size_t size) {
@@ -130,9 +130,10 @@ static void *responder(void *arg) {
 static void *handler(void *arg) {
 	mqd_t accepted_socket_queue = -1;
 	mqd_t handled_queue = -1;
-	const handler_arg *args = arg;
+	handler_arg *args = arg;
 	const m38_app *app = args->app;
 	const int worker_ident = args->worker_ident;
+	free(args);
 
 	accepted_socket_queue = mq_open(ACCEPTED_SOCKET_QUEUE_NAME, O_RDONLY);
 	if (accepted_socket_queue == -1) {
@@ -278,13 +279,17 @@ int m38_http_serve(m38_app *app) {
 
 	int i;
 	for (i = 0; i < app->num_threads; i++) {
-		handler_arg args = {
-			.app = app,
-			.worker_ident = i
-		};
-		if (pthread_create(&handlers[i], NULL, handler, &args) != 0) {
+		/* Every worker owns (and frees) its own arguments. */
+		handler_arg *args = malloc(sizeof(handler_arg));
+		if (args == NULL)
+			goto error;
+		args->app = app;
+		args->worker_ident = i;
+		if (pthread_create(&handlers[i], NULL, handler, args) != 0) {
+			free(args);
 			goto error;
 		}
+
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
 	}
 
-- 
2.43.0


From d769a66414dc0f4396c2e507c910d9b6d8fd2914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 28/53] fix: connections with unusable requests were never
 closed

---
 src/server.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/server.c b/src/server.c
index 97d2c26..5f473f4 100644
--- a/src/server.c
+++ b/src/server.c
@@ -162,6 +162,12 @@ static void *handler(void *arg) {
 		} else {
 			m38_log_msg(LOG_FUN, "Worker %i: Handling response.", worker_ident);
 			m38_handled_request *req = m38_generate_response(new_fd, app);
+			if (req == NULL) {
+				/* There is nothing to respond with, so nobody else will close this. */
+				m38_log_msg(LOG_ERR, "Worker %i: Could not generate a response.", worker_ident);
+				close(new_fd);
+				continue;
+			}
 
 			ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
 			if (msg_size == -1)
-- 
2.43.0


From 621a549ecfba2b81f1f5ed29750efb262a930255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 29/53] fix: the responder deadlocked on its own full queue

---
 src/server.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/server.c b/src/server.c
index 5f473f4..0d9989f 100644
--- a/src/server.c
+++ b/src/server.c
@@ -112,13 +112,16 @@ static void *responder(void *arg) {
 			m38_log_msg(LOG_ERR, "Responder: Got bogus request from queue.");
 		} else {
 			m38_handled_request *new_req = m38_send_response(req);
-			if (new_req != NULL) {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0);
-				if (msg_size == -1)
-					m38_log_msg(LOG_ERR, "Responder: Could not enqueue handled response.");
-			} else {
-				m38_log_msg(LOG_FUN, "Responder: Response sent.");
+			while (new_req != NULL) {
+				/* Let the other responses have a turn. Nobody else empties this queue, so
+				 * don't wait if it is full but carry on with this response. */
+				const struct timespec dont_wait = {0};
+				if (mq_timedsend(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0, &dont_wait) == 0)
+					break;
+				new_req = m38_send_response(new_req);
 			}
+			if (new_req == NULL)
+				m38_log_msg(LOG_FUN, "Responder: Response sent.");
 		}
 	}
 
-- 
2.43.0


From 48fd41a13058cbdd7c2b3b791711006537bf6696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 30/53] fix: a transient accept error stopped the server for
 good

---
 src/server.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 0d9989f..14cb7df 100644
--- a/src/server.c
+++ b/src/server.c
@@ -5,7 +5,9 @@
 #include <arpa/inet.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
+
 #include <mqueue.h>
 #include <netdb.h>
 #include <netinet/in.h>
@@ -74,8 +76,15 @@ static void *acceptor(void *arg) {
 		int new_fd = accept(main_sock_fd, (struct sockaddr *)&their_addr, &sin_size);
 
 		if (new_fd == -1) {
+			const int accept_errno = errno;
 			m38_log_msg(LOG_ERR, "Acceptor: Could not accept new connection.");
-			return NULL;
+			/* The socket was shut down: */
+			if (accept_errno == EBADF || accept_errno == EINVAL || accept_errno == ENOTSOCK)
+				return NULL;
+			/* Everything else passes, but running out of descriptors or memory may take a moment. */
+			if (accept_errno != EINTR && accept_errno != ECONNABORTED)
+				usleep(10000);
+			continue;
 		}
 
 		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
-- 
2.43.0


From 05a9bfff98902ae3055fcec8970c9b2143a8ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:04 +0000
Subject: [PATCH 31/53] fix: failing to open the handled queue went unnoticed

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 14cb7df..fd649e5 100644
--- a/src/server.c
+++ b/src/server.c
@@ -271,7 +271,7 @@ int m38_http_serve(m38_app *app) {
 	}
 
 	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
-	if (po_accepted_queue == -1) {
+	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
 		goto error;
-- 
2.43.0


From 705b868c8afa8a42c3198bd49df0ce51f71574e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 32/53] fix: a signal stopped workers and dropped queued
 connections

---
 src/server.c | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/server.c b/src/server.c
index fd649e5..162c9ab 100644
--- a/src/server.c
+++ b/src/server.c
@@ -87,8 +87,12 @@ static void *acceptor(void *arg) {
 			continue;
 		}
 
-		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
+		ssize_t msg_size = -1;
+		do {
+			msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
+		} while (msg_size == -1 && errno == EINTR);
 		if (msg_size == -1) {
+
 			/* We want to continue from this error. Maybe the queue is full or something. */
 			m38_log_msg(LOG_ERR, "Acceptor: Could not queue new accepted connection.");
 			close(new_fd);
@@ -113,7 +117,9 @@ static void *responder(void *arg) {
 		m38_handled_request *req = NULL;
 		ssize_t msg_size = mq_receive(handled_queue, (char *)&req, sizeof(m38_handled_request *), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
 			perror("Responder: ");
 			break;
@@ -165,7 +171,9 @@ static void *handler(void *arg) {
 		int new_fd = 0;
 		ssize_t msg_size = mq_receive(accepted_socket_queue, (char *)&new_fd, sizeof(int), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Worker %i: Could not read from accepted_socket_queue.", worker_ident);
 			break;
 		} else if (new_fd == -1) {
@@ -181,7 +189,10 @@ static void *handler(void *arg) {
 				continue;
 			}
 
-			ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+			ssize_t msg_size = -1;
+			do {
+				msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
+			} while (msg_size == -1 && errno == EINTR);
 			if (msg_size == -1)
 				m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
 		}
-- 
2.43.0


From e35558fe13fe35caf52838e4cfc59dfe34831624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:29 +0000
Subject: [PATCH 33/53] fix: stalled clients wedged workers and the responder
 forever

---
 src/server.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/server.c b/src/server.c
index 162c9ab..53d88e3 100644
--- a/src/server.c
+++ b/src/server.c
@@ -17,7 +17,9 @@
 #include <sys/mman.h>
 #include <sys/socket.h>
 #include <sys/stat.h>
+#include <sys/time.h>
 #include <stddef.h>
+
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -33,6 +35,9 @@
 #define ACCEPTED_SOCKET_QUEUE_NAME "/mothsaqueue"
 #define HANDLED_CONNECTION_QUEUE_NAME "/mothshqueue"
 
+/* Seconds a client may neither send nor read anything before we give up on it. */
+#define CLIENT_STALL_TIMEOUT 5
+
 typedef struct {
 	const int main_sock_fd;
 } acceptor_arg;
@@ -181,6 +186,10 @@ static void *handler(void *arg) {
 			break;
 		} else {
 			m38_log_msg(LOG_FUN, "Worker %i: Handling response.", worker_ident);
+			/* A client that stalls must not keep a worker or the responder forever. */
+			const struct timeval stall_timeout = { .tv_sec = CLIENT_STALL_TIMEOUT };
+			setsockopt(new_fd, SOL_SOCKET, SO_RCVTIMEO, &stall_timeout, sizeof(stall_timeout));
+			setsockopt(new_fd, SOL_SOCKET, SO_SNDTIMEO, &stall_timeout, sizeof(stall_timeout));
 			m38_handled_request *req = m38_generate_response(new_fd, app);
 			if (req == NULL) {
 				/* There is nothing to respond with, so nobody else will close this. */
-- 
2.43.0


From 9793c57cec719cc2e648d29e25fff9d814351c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 34/53] fix: loops freed the sub-contexts of their array after
 one rendering

---
 src/greshunkel.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8757f7d..a4c1de3 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -229,9 +229,22 @@ int gshkl_add_string_to_loop(greshunkel_var *loop, const char *value) {
 
 static inline void _gshkl_free_arr(greshunkel_tuple *to_free) {
 	assert(to_free->type == GSHKL_ARR);
+	unsigned int i;
+	for (i = 0; i < to_free->value.arr->count; i++) {
+		const greshunkel_tuple *item = vector_get(to_free->value.arr, i);
+		if (item->type == GSHKL_SUBCTEXT)
+			gshkl_free_context((struct greshunkel_ctext *)item->value.sub_ctext);
+	}
 	vector_free((vector *)to_free->value.arr);
 }
 
+/* Child contexts only borrow their values while rendering. */
+static void _gshkl_free_child_context(greshunkel_ctext *ctext) {
+	vector_free(ctext->values);
+	vector_free(ctext->filter_functions);
+	free(ctext);
+}
+
 void gshkl_free_context(greshunkel_ctext *ctext) {
 	unsigned int i;
 	for (i = 0; i < ctext->values->count; i++) {
@@ -664,11 +677,12 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 			}
 
 			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
-			gshkl_free_context(_temp_ctext);
+			_gshkl_free_child_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
 			to_return.data = realloc(to_return.data, to_return.size);
+
 			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
 			free(rendered_piece.data);
 		}
-- 
2.43.0


From 831263236b37ec28d1fb4a5e3a30badd1a01c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 35/53] fix: rendering read past the end of the template

---
 src/greshunkel.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index a4c1de3..d471307 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -999,6 +999,14 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	char *rendered = NULL;
 	size_t intermediate_outsize = 0;
 
+	/* The buffer we were given doesn't have to be terminated. */
+	char *template = malloc(original_size + 1);
+	if (template == NULL)
+		return NULL;
+	memcpy(template, to_render, original_size);
+	template[original_size] = '\0';
+	to_render = template;
+
 	struct compiled_regex all_regex;
 	_compile_regex(&all_regex);
 
@@ -1046,6 +1054,7 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		free(to_append.data);
 	}
 	_destroy_regex(&all_regex);
+	free(template);
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
 	if (outsize)
@@ -1053,6 +1062,8 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	return rendered;
 
 error:
+	free(template);
 	free(rendered);
 	return NULL;
+
 }
-- 
2.43.0


From ef66e62213757baf767f023d922c78fabeaf0659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 36/53] fix: size of empty and of block-terminated renderings

---
 src/greshunkel.c | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index d471307..2be3788 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -681,7 +681,7 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
-			to_return.data = realloc(to_return.data, to_return.size);
+			to_return.data = realloc(to_return.data, to_return.size + 1);
 
 			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
 			free(rendered_piece.data);
@@ -1048,7 +1048,8 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 			med_buf[intermediate_outsize] = '\0';
 			rendered = med_buf;
 		}
-		memcpy(rendered + old_outsize, to_append.data, to_append.size);
+		if (to_append.size > 0)
+			memcpy(rendered + old_outsize, to_append.data, to_append.size);
 		if (to_append.data != current_line.data)
 			free(current_line.data);
 		free(to_append.data);
@@ -1057,10 +1058,18 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 	free(template);
 	/* rendered[intermediate_outsize - 1] = '\0'; */
 
-	if (outsize)
-		*outsize = intermediate_outsize - 1;
+	if (rendered == NULL)
+		rendered = calloc(1, 1);
+
+	/* The last line's terminator isn't counted. */
+	if (outsize) {
+		const char last = intermediate_outsize > 0 ? rendered[intermediate_outsize - 1] : 'x';
+		const int terminated = last == '\0' || last == '\n' || last == '\r';
+		*outsize = intermediate_outsize - (terminated ? 1 : 0);
+	}
 	return rendered;
 
+
 error:
 	free(template);
 	free(rendered);
-- 
2.43.0


From 666ebbf0bf1d1486117e79f9fdc817e0b164a824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:39 +0000
Subject: [PATCH 37/53] fix: an empty block swallowed everything up to the last
 closing marker

---
 src/greshunkel.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 2be3788..a2c96e9 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -629,10 +629,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 		const char *closest_BBL = NULL;
 		closest_BBL = strstr(loop_meat.start, "xXx BBL xXx");
 		possible_dif = closest_BBL - buf;
-		if (possible_dif != (unsigned int)loop_meat.rm_so) {
-			loop_meat.rm_eo = possible_dif;
-			loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
-		}
+		loop_meat.rm_eo = possible_dif;
+		loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
 
 		/* We found a fucking loop, holy shit */
 		*num_read = loop_meat.rm_eo + strlen("xXx BBL xXx");
@@ -774,10 +772,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
@@ -854,10 +850,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
-- 
2.43.0


From 6e5b767567207aa1b4c29e8b2937065dd57a4616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 38/53] fix: conditionals on empty strings and strings starting
 with FALSE

---
 src/greshunkel.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index a2c96e9..94dc4a2 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -707,7 +707,7 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 	}
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_falsey: is_string SF: %i", says_false);
 			return says_false;
 		} else if (is_loop) {
@@ -719,8 +719,8 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 		return !is_subcontext;
 	}
 
-	m38_log_msg(LOG_DEBUG, "_is_falsey: return 0");
-	return 0;
+	m38_log_msg(LOG_DEBUG, "_is_falsey: is_null");
+	return 1;
 }
 
 static inline int _is_truthy(const greshunkel_tuple *tuple) {
@@ -738,7 +738,7 @@ static inline int _is_truthy(const greshunkel_tuple *tuple) {
 
 	if (!is_null) {
 		if (is_string) {
-			const int says_false = strncmp(tuple->value.str, "FALSE", strlen("FALSE")) == 0 ? 1 : 0;
+			const int says_false = strcmp(tuple->value.str, "FALSE") == 0 ? 1 : 0;
 			m38_log_msg(LOG_DEBUG, "_is_truthy: !is_null is_string SF: %i", !says_false);
 			return !says_false;
 		} else if (is_loop) {
-- 
2.43.0


From 4047abd32d1ab7665f24e14c2955927cfa7845ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:20 +0000
Subject: [PATCH 39/53] fix: dotted conditionals read and wrote past their name
 buffers

---
 src/greshunkel.c | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 94dc4a2..8c615b1 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -793,10 +793,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			}
 		} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 			/* TODO: Check sub-context. */
-			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+			*sub_ctext_match = '\0';
+			const char *sub_context_name = just_match_str;
+			const char *sub_item_name = sub_ctext_match + strlen(".");
 
 			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -868,10 +867,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		if (!(tuple = find_needle(ctext, just_match_str, 1))) {
 			if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				*sub_ctext_match = '\0';
+				const char *sub_context_name = just_match_str;
+				const char *sub_item_name = sub_ctext_match + strlen(".");
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
@@ -897,10 +895,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 				should_render = 1;
 			} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
 				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
+				*sub_ctext_match = '\0';
+				const char *sub_context_name = just_match_str;
+				const char *sub_item_name = sub_ctext_match + strlen(".");
 
 				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
 					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-- 
2.43.0


From ccb3ccab11eeb0f9c52cc54813fd8b6a9659d277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:23 +0000
Subject: [PATCH 40/53] fix: long array and sub-context names were not
 terminated

---
 src/greshunkel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8c615b1..1c0a34b 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -90,7 +90,7 @@ int gshkl_add_sub_context(greshunkel_ctext *parent, const char name[const], cons
 			.sub_ctext = child
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
+	const size_t name_len = strnlen(name, WISDOM_OF_WORDS - 1);
 	strncpy(_stack_tuple.name, name, name_len);
 
 	return _gshkl_add_var_to_context(parent, &_stack_tuple);
@@ -169,7 +169,7 @@ greshunkel_var gshkl_add_array(greshunkel_ctext *ctext, const char name[]) {
 			.arr = vector_new(sizeof(greshunkel_tuple), 16)
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
+	const size_t name_len = strnlen(name, WISDOM_OF_WORDS - 1);
 	strncpy(_stack_tuple.name, name, name_len);
 
 	_gshkl_add_var_to_context(ctext, &_stack_tuple);
-- 
2.43.0


From 4014aab9c89c5dbc4558de2bd599fbc1e5d0703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:27 +0000
Subject: [PATCH 41/53] fix: included files of 2048 bytes and more were cut and
 overflowed

---
 src/greshunkel.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 1c0a34b..9aee0e3 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -10,7 +10,11 @@
 #include "greshunkel.h"
 #include "logging.h"
 
+/* How much of an included file is read at a time. */
+#define INCLUDE_READ_LEN 2048
+
 /* Compiled regex vars. */
+
 struct compiled_regex {
 	regex_t c_var_regex;
 	regex_t c_cvar_regex;
@@ -523,8 +527,7 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 
 
 		/* Open the file here. */
-		/* TODO: Make this actually the whole size of the file, not just a random buffer. */
-		char template_file[2048] = {0};
+		char *template_file = NULL;
 		size_t template_file_siz = 0;
 		FILE *include_file = fopen(just_match_str, "r");
 		if (!include_file) {
@@ -534,12 +537,19 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 			assert(1 == 0);
 		}
 
-		template_file_siz = fread(template_file, 1, sizeof(template_file), include_file);
+		size_t num_read = 0;
+		do {
+			char *grown = realloc(template_file, template_file_siz + INCLUDE_READ_LEN);
+			assert(grown != NULL);
+			template_file = grown;
+			num_read = fread(template_file + template_file_siz, 1, INCLUDE_READ_LEN, include_file);
+			template_file_siz += num_read;
+		} while (num_read == INCLUDE_READ_LEN);
 		fclose(include_file);
-		template_file[template_file_siz] = '\0';
 
 		line rendered_piece = {0};
 		rendered_piece.data = gshkl_render(ctext, template_file, template_file_siz, &rendered_piece.size);
+		free(template_file);
 
 		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
-- 
2.43.0


From b007c165a717b3f1c9ae5241a51fe542adc75b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:30 +0000
Subject: [PATCH 42/53] fix: line buffers were leaked or freed twice during
 interpolation

---
 src/greshunkel.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 9aee0e3..1f9158f 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -565,12 +565,11 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 
 static line
 _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const struct compiled_regex *all_regex) {
-	line interpolated_line = {0};
 	line new_line_to_add = {0};
 
 	/* Do context variables first: */
-	const line _operating_line = _interpolate_line_subcontext(ctext, current_line, all_regex);
-	const line *operating_line = &_operating_line;
+	line interpolated_line = _interpolate_line_subcontext(ctext, current_line, all_regex);
+	const line *operating_line = &interpolated_line;
 	assert(operating_line->data != NULL);
 
 	match_t match[2] = {0};
@@ -594,7 +593,9 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 			assert(tuple->type == GSHKL_STR);
 		}
 
-		free(interpolated_line.data);
+		/* The line we were given belongs to our caller, everything else is ours. */
+		if (interpolated_line.data != current_line.data)
+			free(interpolated_line.data);
 		interpolated_line.size = new_line_to_add.size;
 		interpolated_line.data = new_line_to_add.data;
 		new_line_to_add.size = 0;
@@ -607,14 +608,15 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	if (included_line.data != interpolated_line.data && interpolated_line.data != current_line.data)
+		free(interpolated_line.data);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
-	if (filtered_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	if (filtered_line.data != included_line.data && included_line.data != current_line.data)
+		free(included_line.data);
 
 	return filtered_line;
+
 }
 
 static line
-- 
2.43.0


From b416df516026323ff6c59096af6e4618e59bf8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 43/53] fix: a filter without argument got the rest of the line
 as its argument

---
 src/greshunkel.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 1f9158f..ced7c99 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -366,10 +366,11 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 
-			const size_t new_len = start_of_first_XxX - argument.start;
-
-			/* Render the argument out so we can pass it to the filter function. */
-			char *rendered_argument = strndup(argument.start, new_len);
+			/* Render the argument out so we can pass it to the filter function. If the
+			 * first marker comes before it, the argument isn't ours and we have none. */
+			char *rendered_argument = NULL;
+			if (start_of_first_XxX >= argument.start)
+				rendered_argument = strndup(argument.start, start_of_first_XxX - argument.start);
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From ba412307eb77c4f18deb1ae49ca767d2034d50ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 44/53] fix: the Python binding cut pointers to 32 bits

---
 python/greshunkel.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index e8f1a3c..14de087 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -13,12 +13,19 @@ GshklFilterFunc = CFUNCTYPE(c_char_p, c_char_p)
 
 lib38moths = cdll.LoadLibrary("lib38moths.so")
 
+# Without these, pointers would be passed as ints and cut to 32 bits.
+lib38moths.gshkl_init_context.argtypes = []
 lib38moths.gshkl_init_context.restype = c_void_p
+lib38moths.gshkl_add_string.argtypes = [c_void_p, c_char_p, c_char_p]
+lib38moths.gshkl_add_int.argtypes = [c_void_p, c_char_p, c_int]
+lib38moths.gshkl_add_sub_context.argtypes = [c_void_p, c_char_p, c_void_p]
+lib38moths.gshkl_add_sub_context_to_loop.argtypes = [POINTER(greshunkel_var), c_void_p]
 lib38moths.gshkl_add_array.argtypes = [c_void_p, c_char_p]
 lib38moths.gshkl_add_array.restype = greshunkel_var
 lib38moths.gshkl_add_string_to_loop.argtypes = [POINTER(greshunkel_var), c_char_p]
 lib38moths.gshkl_add_int_to_loop.argtypes = [POINTER(greshunkel_var), c_int]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
+lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, c_void_p]
 lib38moths.gshkl_render.restype = c_char_p
 
 def _add_item_to_greshunkel_loop(ctext, loop, value):
@@ -40,7 +47,7 @@ def _add_item_to_greshunkel_context(ctext, key, value):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
-        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), c_size_t(value))
+        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), value)
     elif isinstance(value, list):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
-- 
2.43.0


From 498c43f4a1d0a0bd4fd82eb391ead634a10926ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 45/53] fix: the Python binding cut templates with non-ASCII
 text

---
 python/greshunkel.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 14de087..c703376 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -72,6 +72,7 @@ class Template(object):
         self.template = template
 
     def render(self, context):
-        template_c_string = c_char_p(self.template.encode())
-        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(self.template), None)
+        encoded = self.template.encode()
+        template_c_string = c_char_p(encoded)
+        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(encoded), None)
         return ret_c_str.decode()
-- 
2.43.0


From d21eed2e4e1ac73d651bf25c02bc117db7de894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:11 +0000
Subject: [PATCH 46/53] fix: the Python Context did not keep its filters alive

---
 python/greshunkel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index c703376..cdd331d 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -64,6 +64,8 @@ def _add_item_to_greshunkel_context(ctext, key, value):
 class Context(object):
     def __init__(self, context_dict):
         self.gshkl_ctext = lib38moths.gshkl_init_context()
+        # The C side only has pointers to the filters, keep them alive:
+        self.context_dict = dict(context_dict)
         for key, value in context_dict.items():
             _add_item_to_greshunkel_context(self.gshkl_ctext, key, value)
 
-- 
2.43.0


From 5d53d047ca157e57918f062edce75e7eb4fd32d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:41 +0000
Subject: [PATCH 47/53] fix: an empty filter argument was lost when another
 call followed it

---
 src/greshunkel.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index ced7c99..317dc45 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -367,10 +367,13 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
 
 			/* Render the argument out so we can pass it to the filter function. If the
-			 * first marker comes before it, the argument isn't ours and we have none. */
+			 * first marker follows the name, the argument isn't ours and we have none. */
 			char *rendered_argument = NULL;
-			if (start_of_first_XxX >= argument.start)
-				rendered_argument = strndup(argument.start, start_of_first_XxX - argument.start);
+			if (start_of_first_XxX > function_name.start + function_name.len) {
+				/* It may be nothing but the whitespace before that marker. */
+				const char *argument_start = argument.start < start_of_first_XxX ? argument.start : start_of_first_XxX;
+				rendered_argument = strndup(argument_start, start_of_first_XxX - argument_start);
+			}
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From fc2e0c5e30f1db26901d26303423411757b57b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 48/53] fix: looking up an empty sparse group did arithmetic on
 a NULL pointer

---
 src/simple_sparsehash.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index f1474fc..cf080dd 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -150,13 +150,13 @@ static int _sparse_array_group_set(struct sparse_array_group *arr, const uint32_
 
 static const void *_sparse_array_group_get(struct sparse_array_group *arr,
 							 const uint32_t i, size_t *outsize) {
+	if (!is_position_occupied(arr->bitmap, i))
+		return NULL;
+
 	const uint32_t offset = position_to_offset(arr->bitmap, i);
 	const unsigned char *item_siz = (unsigned char *)(arr->group) + (offset * FULL_ELEM_SIZE);
 	const void *item = item_siz + sizeof(size_t);
 
-	if (!is_position_occupied(arr->bitmap, i))
-		return NULL;
-
 	/* In a perfect world you could store 0 sized items and have that mean
 	 * something, but I'll tolerate none of that right now.
 	 */
-- 
2.43.0


From e5f470d3225e17988af0dacfc31e4bb8bbf6bca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:49 +0000
Subject: [PATCH 49/53] fix: measuring a URL-decoded string did arithmetic on a
 NULL pointer

---
 src/utils.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index b85cf71..c8347a8 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -25,11 +25,11 @@ inline static int _ishex(int x) {
 
 /* Taken from the wikipedia page on URL decoding. */
 int m38_url_decode(const char *s, char *dec) {
-	char *o;
+	int o;
 	const char *end = s + strlen(s);
 	int c;
 
-	for (o = dec; s <= end; o++) {
+	for (o = 0; s <= end; o++) {
 		c = *s++;
 		if (c == '+') c = ' ';
 		else if (c == '%' && (!_ishex(*s++) ||
@@ -38,11 +38,11 @@ int m38_url_decode(const char *s, char *dec) {
 			return -1;
 
 		if (dec) {
-			*o = c;
+			dec[o] = c;
 		}
 	}
 
-	return o - dec;
+	return o;
 }
 
 int endswith(const char *string, const char *suffix) {
-- 
2.43.0


From 5b8197e734458bc8ad6ef1b1bdb4e498689f54f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 50/53] fix: a file opened as descriptor 0 was answered with
 404

---
 src/grengine.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index bb2834c..3261698 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -196,7 +196,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 		return 404;
 	}
 	int fd = open(file_path, O_RDONLY);
-	if (fd <= 0) {
+	if (fd < 0) {
 		response->out = (unsigned char *)"<html><body><p>Could not open file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>could not open file.</p></body></html>");
 		perror("mmap_file_ol: could not open file");
-- 
2.43.0


From ba2634ca7b53415fc623469c1bdd324f88df6dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 51/53] fix: the server did not start when its socket got
 descriptor 0

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 53d88e3..69caf1f 100644
--- a/src/server.c
+++ b/src/server.c
@@ -223,7 +223,7 @@ static void *handler(void *arg) {
 static inline int create_socket(const int port) {
 	int rc = -1;
 	int sock_fd = socket(PF_INET, SOCK_STREAM, 0);
-	if (sock_fd <= 0) {
+	if (sock_fd < 0) {
 		m38_log_msg(LOG_ERR, "Could not create main socket.");
 		goto error;
 	}
-- 
2.43.0


From ed8952ed3ae642c0fd5282c876aeb8e92cefb28d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 52/53] fix: the first definition of a sub-context's member
 decides dotted conditionals

With a name defined twice in a sub-context, once with something and once
without, both UNLESS and UNLESS NOT rendered their bodies.
---
 src/greshunkel.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 317dc45..25ba5e9 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -823,8 +823,10 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 					const size_t larger = strlen(_name) > strlen(sub_item_name) ?
 							strlen(_name) : strlen(sub_item_name);
 
-					if (strncmp(_name, sub_item_name, larger) == 0 && _is_falsey(sub_tuple)) {
-							should_render = 1;
+					if (strncmp(_name, sub_item_name, larger) == 0) {
+						/* The first definition of a name wins. */
+						should_render = _is_falsey(sub_tuple);
+						break;
 					}
 				}
 			}
@@ -897,9 +899,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 						const size_t larger = strlen(_name) > strlen(sub_item_name) ?
 								strlen(_name) : strlen(sub_item_name);
 
-						if (strncmp(_name, sub_item_name, larger) == 0 &&
-							_is_truthy(sub_tuple)) {
-								should_render = 1;
+						if (strncmp(_name, sub_item_name, larger) == 0) {
+							should_render = _is_truthy(sub_tuple);
+							break;
 						}
 					}
 				}
@@ -925,9 +927,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 						const size_t larger = strlen(_name) > strlen(sub_item_name) ?
 								strlen(_name) : strlen(sub_item_name);
 
-						if (strncmp(_name, sub_item_name, larger) == 0 &&
-							_is_truthy(sub_tuple)) {
-								should_render = 1;
+						if (strncmp(_name, sub_item_name, larger) == 0) {
+							should_render = _is_truthy(sub_tuple);
+							break;
 						}
 					}
 				}
-- 
2.43.0


From d4fe8287846758ca16352c8fba7285c04d138b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 53/53] fix: clients could forge log lines

The request line, X-Real-IP, User-Agent and Range were logged as sent, line
ends and terminal sequences included.
---
 src/grengine.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 3261698..e7b6f2c 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -321,14 +321,29 @@ error:
 	return 0;
 }
 
+/* What a client sent goes into the log, where it must not end the line or act on a terminal. */
+static char *scrub(char *text) {
+	char *c = text;
+	for (; c && *c; c++) {
+		if ((unsigned char)*c < ' ' || *c == 0x7f)
+			*c = '?';
+	}
+	return text;
+}
+
 static void log_request(const m38_http_request *request, const m38_http_response *response, const int response_code) {
-	char *visitor_ip_addr = m38_get_header_value_raw(request->full_header, request->header_len, "X-Real-IP");
-	char *user_agent = m38_get_header_value_raw(request->full_header, request->header_len, "User-Agent");
+	char *visitor_ip_addr = scrub(m38_get_header_value_raw(request->full_header, request->header_len, "X-Real-IP"));
+	char *user_agent = scrub(m38_get_header_value_raw(request->full_header, request->header_len, "User-Agent"));
+	char verb[sizeof(request->verb)];
+	char resource[sizeof(request->resource)];
+
+	memcpy(verb, request->verb, sizeof(verb));
+	memcpy(resource, request->resource, sizeof(resource));
 
 	m38_log_msg(LOG_FUN, "%s \"%s %s\" %i %i \"%s\"",
 		visitor_ip_addr == NULL ? "NOIP" : visitor_ip_addr,
-		request->verb,
-		request->resource,
+		scrub(verb),
+		scrub(resource),
 		response_code,
 		response->outsize,
 		user_agent == NULL ? "NOUSERAGENT" : user_agent);
@@ -569,7 +584,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 
 	/* Figure out if this thing needs to be partial */
 	size_t start_byte = 0, end_byte = response.outsize > 0 ? response.outsize - 1 : 0;
-	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
+	char *range_header_value = scrub(m38_get_header_value_raw(request.full_header, request.header_len, "Range"));
 	if (range_header_value && response_code == 200 && response.out != NULL &&
 			resolve_range(range_header_value, response.outsize, &start_byte, &end_byte)) {
 		response_code = 206;
-- 
2.43.0

