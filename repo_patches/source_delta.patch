From f3445b1097633efcdb7f5f83083cbfc0462c551e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 01/50] fix: let vectors grow from zero capacity and keep the
 spare byte

Doubling a capacity of zero never made room, so the append wrote past the
block.  vector_append() relies on one spare byte behind the last element;
growing in vector_append_ptr() dropped it.
---
 src/vector.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/vector.c b/src/vector.c
index 6153dda..9d5538e 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -27,11 +27,12 @@ inline int vector_append(vector *vec, const void *item, const size_t item_size)
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, vec->max_size * vec->item_size + 1);
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max;
 	}
 
 	if (item_size != 0 && item != NULL) {
@@ -53,11 +54,12 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 		return 0;
 
 	if (vec->count == vec->max_size) {
-		vec->max_size *= 2;
-		void *array = realloc(vec->items, (vec->max_size * vec->item_size));
+		const size_t new_max = vec->max_size ? vec->max_size * 2 : 1;
+		void *array = realloc(vec->items, new_max * vec->item_size + 1);
 		if (!array)
 			return 0;
 		vec->items = array;
+		vec->max_size = new_max;
 	}
 
 	memcpy(nth(vec->count), &pointer, sizeof(void *));
-- 
2.43.0


From 69526db7f0c9441427a62992d8c217f2dbfe1084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 02/50] fix: vector_get() returns NULL for indexes that hold no
 element

---
 src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vector.c b/src/vector.c
index 9d5538e..5300193 100644
--- a/src/vector.c
+++ b/src/vector.c
@@ -70,7 +70,7 @@ inline int vector_append_ptr(vector *vec, const void *pointer) {
 inline const void *vector_get(const vector *vec, const unsigned int i) {
 	if (vec == NULL)
 		return NULL;
-	if (i > vec->max_size)
+	if (i >= vec->count)
 		return NULL;
 	return nth(i);
 }
-- 
2.43.0


From 35d786e4a36ae41e81583a7e440f93396fe72675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 03/50] fix: refuse sparse array indexes equal to the maximum

---
 src/simple_sparsehash.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 47bb96b..12e2ca8 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -213,7 +213,7 @@ struct sparse_array *sparse_array_init(const size_t element_size, const uint32_t
 int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 						   const void *val, const size_t vlen) {
 	/* Don't let users set outside the bounds of the array. */
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return 0;
 	/* Since our hashtable is divided into many arrays, we need to pick the one
 	 * relevant to `i` in this case:
@@ -224,7 +224,7 @@ int sparse_array_set(struct sparse_array *arr, const uint32_t i,
 }
 
 const void *sparse_array_get(struct sparse_array *arr, const uint32_t i, size_t *outsize) {
-	if (i > arr->maximum)
+	if (i >= arr->maximum)
 		return NULL;
 	struct sparse_array_group *operating_group = &arr->groups[i / GROUP_SIZE];
 	const int position = i % GROUP_SIZE;
-- 
2.43.0


From 44e6611e6d06b5d73d23ea709a947b850332ead1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 04/50] fix: overwriting a dictionary entry freed its key
 inside the value's block

---
 src/simple_sparsehash.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 12e2ca8..13bce9c 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -388,14 +388,13 @@ int sparse_dict_set(struct sparse_dict *dict,
 			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
-				char *existing_key = existing_bucket->key;
+				/* The key lives in the same allocation as the value. */
 				void *existing_val = existing_bucket->val;
 				if (_create_and_insert_new_bucket(dict->buckets, probed_val, key, klen, value, vlen, key_hash)) {
 					/* We return here because we don't want to execute the 'resize the table'
 					 * logic. We overwrote a bucket instead of adding a new one, so we know
 					 * we don't need to resize anything.
 					 */
-					free(existing_key);
 					free(existing_val);
 					return 1;
 				} else {
-- 
2.43.0


From 5afd28e1c0f227e581a24ffd7f4e40324f96e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 05/50] fix: hashing a dictionary key of 256 bytes or more
 never ended

---
 src/simple_sparsehash.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 13bce9c..4c316e2 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -15,12 +15,10 @@ static uint64_t hash_fnv1a(const char *key, const size_t klen) {
 	static const uint64_t fnv_prime = 1099511628211ULL;
 	static const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = klen;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < klen; i++) {
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
-- 
2.43.0


From d9ee9b5cc253f3ea0a4aa76ec2f7639efd81b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 06/50] fix: dictionary probing has to reach every slot

With a power-of-two table n*n visits only a few residues, so insertions
failed with most of the table free.  Triangular numbers visit them all.
---
 src/simple_sparsehash.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index 4c316e2..e8ed549 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -6,7 +6,7 @@
 
 #define FULL_ELEM_SIZE (arr->elem_size + sizeof(size_t))
 #define MAX_ARR_SIZE ((arr->maximum - 1)/GROUP_SIZE + 1)
-#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * num_probes) & (maximum - 1)
+#define QUADRATIC_PROBE(maximum) (key_hash + num_probes * (num_probes + 1) / 2) & (maximum - 1)
 
 /* One of the simplest hashing functions, FNV-1a. See the wikipedia article for more info:
  * http://en.wikipedia.org/wiki/Fowler%E2%80%93Noll%E2%80%93Vo_hash_function
-- 
2.43.0


From d0f8d55f1bab0ef162fede2ade0f8a8e0e8762c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:14 +0000
Subject: [PATCH 07/50] fix: compare dictionary keys by length and bytes, not
 as C strings

---
 src/simple_sparsehash.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/simple_sparsehash.c b/src/simple_sparsehash.c
index e8ed549..db1edff 100644
--- a/src/simple_sparsehash.c
+++ b/src/simple_sparsehash.c
@@ -274,7 +274,7 @@ static int _create_and_insert_new_bucket(
 	memcpy(copied_value, value, vlen);
 
 	copied_key = copied_value + vlen;
-	strncpy(copied_key, key, klen);
+	memcpy(copied_key, key, klen);
 
 	struct sparse_bucket bct = {
 		.key = copied_key,
@@ -382,8 +382,8 @@ int sparse_dict_set(struct sparse_dict *dict,
 		} else {
 			/* We found a bucket. Check to see if it has the same key as we do. */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				/* Great, we probed along the hashtable and found a bucket with the same key as
 				 * the key we want to insert. Replace it. */
 				/* The key lives in the same allocation as the value. */
@@ -439,8 +439,8 @@ void *sparse_dict_get(struct sparse_dict *dict, const char *key,
 			 * The value we pulled from the underlying array could be anything.
 			 */
 			struct sparse_bucket *existing_bucket = (struct sparse_bucket *)current_value;
-			const size_t lrgr_key = existing_bucket->klen > klen ? existing_bucket->klen : klen;
-			if (existing_bucket->hash == key_hash && strncmp(existing_bucket->key, key, lrgr_key) == 0) {
+			if (existing_bucket->hash == key_hash && existing_bucket->klen == klen &&
+					memcmp(existing_bucket->key, key, klen) == 0) {
 				if (outsize)
 					memcpy(outsize, &existing_bucket->vlen, sizeof(existing_bucket->vlen));
 
-- 
2.43.0


From 75f89b75407b077d86709eb563a4aead6f353413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 08/50] fix: strnstr() missed a match at the very end and
 underflowed on short input

---
 src/utils.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index f1e50eb..f952775 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -62,7 +62,7 @@ int endswith(const char *string, const char *suffix) {
 
 /* Pulled from here: http://stackoverflow.com/a/25705264 */
 char *strnstr(const char *haystack, const char *needle, size_t len) {
-	int i;
+	size_t i;
 	size_t needle_len;
 
 	/* segfault here if needle is not NULL terminated */
@@ -72,7 +72,10 @@ char *strnstr(const char *haystack, const char *needle, size_t len) {
 	/* Limit the search if haystack is shorter than 'len' */
 	len = strnlen(haystack, len);
 
-	for (i=0; i<(int)(len-needle_len); i++)
+	if (len < needle_len)
+		return NULL;
+
+	for (i=0; i<=len-needle_len; i++)
 	{
 		if ((haystack[0] == needle[0]) && (0 == strncmp(haystack, needle, needle_len)))
 			return (char *)haystack;
-- 
2.43.0


From 75ddc4012a53a87d96c1fa201eb99bbce0e92236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 09/50] fix: hash_string_fnv1a() never returned for 256 bytes
 or more

---
 src/utils.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index f952775..998e3ae 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -104,12 +104,10 @@ int hash_string_fnv1a(const unsigned char *key, const size_t siz, char outbuf[st
 	const uint64_t fnv_prime = 1099511628211ULL;
 	const uint64_t fnv_offset_bias = 14695981039346656037ULL;
 
-	const int iterations = siz;
-
-	uint8_t i;
+	size_t i;
 	uint64_t hash = fnv_offset_bias;
 
-	for(i = 0; i < iterations; i++) {
+	for(i = 0; i < siz; i++) {
 		hash = hash ^ key[i];
 		hash = hash * fnv_prime;
 	}
-- 
2.43.0


From 7ae007335d810e9aeaaf3140d060a4e8afc65276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 10/50] fix: m38_get_cookie_value() returned parts of other
 cookies

It searched for the name anywhere in the header, so a name occurring inside
another cookie's name or value matched, and the value of the last cookie ran
past the given size.
---
 src/utils.c | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 998e3ae..970ab86 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -122,29 +122,27 @@ char *m38_get_cookie_value(const char *cookie_string, const size_t cookie_string
 	if (!cookie_string)
 			return NULL;
 
-	const char *cookie_loc = strnstr(cookie_string, needle, cookie_string_siz);
-	if (!cookie_loc)
-			return NULL;
-
-	const char *cookie_string_start = cookie_loc;
-	const char *cookie_string_end = strnstr(cookie_loc, ";", cookie_string_siz - (cookie_loc - cookie_string));
-	if (!cookie_string_end) {
-			/* This is okay, it might be at the end of the cookie. */
-			cookie_string_end = strnstr(cookie_loc, " ", cookie_string_siz - (cookie_loc - cookie_string));
-			if (!cookie_string_end)
-					cookie_string_end = cookie_loc + cookie_string_siz;
+	const size_t needle_len = strlen(needle);
+	const char *pos = cookie_string;
+	const char *end = cookie_string + strnlen(cookie_string, cookie_string_siz);
+	while (pos < end) {
+		/* Skip the separators in front of this cookie. */
+		while (pos < end && (*pos == ';' || *pos == ' ' || *pos == '\t'))
+			pos++;
+
+		const char *cookie_end = memchr(pos, ';', end - pos);
+		if (!cookie_end)
+			cookie_end = end;
+
+		if ((size_t)(cookie_end - pos) > needle_len && pos[needle_len] == '=' &&
+				strncmp(pos, needle, needle_len) == 0) {
+			const char *value = pos + needle_len + 1;
+			while (cookie_end > value && isspace((unsigned char)cookie_end[-1]))
+				cookie_end--;
+			return strndup(value, cookie_end - value);
+		}
+		pos = cookie_end;
 	}
 
-	const size_t cookie_string_size = cookie_string_end - cookie_string_start;
-	const char *cookie_string_value = strnstr(cookie_loc, "=", cookie_string_size);
-	if (!cookie_string_value)
-			return NULL;
-
-	/* -1 here is for the '=': */
-	const size_t cookie_string_value_size = cookie_string_end - cookie_string_value;
-	char *data = calloc(sizeof(char), cookie_string_value_size + 2); /* Plus two here: One for =, one for NULL */
-	data[cookie_string_value_size] = '\0';
-	strncpy(data, cookie_string_value + 1, cookie_string_value_size);
-
-	return data;
+	return NULL;
 }
-- 
2.43.0


From a4247c19083a1ecd74d9327d5ec1e563224a30f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 11/50] fix: header lookup matched text anywhere in the request

m38_get_header_value_raw() looked for the name as a substring of the whole
request, was case-sensitive, assumed exactly one space after the colon and
underflowed when there was none.  Compare the names of the header lines.
---
 src/parse.c | 38 ++++++++++++++++++++++----------------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 8bf79b8..e1fdc04 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -100,22 +100,28 @@ m38_range_header m38_parse_range_header(const char *range_query) {
 
 char *m38_get_header_value_raw(const char *request, const size_t request_siz, const char header[static 1]) {
 	/* TODO: Make sure this function handles bad input. */
-	char *data = NULL;
-	const char *header_loc = strnstr(request, header, request_siz);
-	if (!header_loc)
-		return NULL;
-
-	const char *header_value_start = header_loc + strnlen(header, request_siz) + strlen(": ");
-	const char *header_value_end = strnstr(header_loc, "\r\n", request_siz);
-	if (!header_value_end)
-		return NULL;
-
-	const size_t header_value_size = header_value_end - header_value_start;
-	data = calloc(sizeof(char), header_value_size + 1);
-	data[header_value_size] = '\0';
-	strncpy(data, header_value_start, header_value_size);
-
-	return data;
+	const size_t header_len = strlen(header);
+	const char *end = request + request_siz;
+
+	/* The first line is the request line, the headers follow it. */
+	const char *line_end = memmem(request, request_siz, "\r\n", strlen("\r\n"));
+	while (line_end) {
+		const char *line = line_end + strlen("\r\n");
+		line_end = memmem(line, end - line, "\r\n", strlen("\r\n"));
+		if (!line_end || line_end == line)
+			break;
+
+		if ((size_t)(line_end - line) <= header_len || line[header_len] != ':' ||
+				strncasecmp(line, header, header_len) != 0)
+			continue;
+
+		const char *value = line + header_len + 1;
+		while (value < line_end && (*value == ' ' || *value == '\t'))
+			value++;
+		return strndup(value, line_end - value);
+	}
+
+	return NULL;
 }
 
 char *m38_get_header_value_request(const m38_http_request *req, const char header[static 1]) {
-- 
2.43.0


From eda2bf100a104c8be6eb52a9a407b261fcb19120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 12/50] fix: m38_parse_request() read past the received bytes

The searches were bounded by the buffer size instead of the number of bytes
received and ran into the header lines; over-long methods were cut off and
then matched the routes of another method.
---
 src/parse.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index e1fdc04..ba5934f 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -129,28 +129,37 @@ char *m38_get_header_value_request(const m38_http_request *req, const char heade
 }
 
 int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_http_request *out) {
+	/* Everything we look for here has to be in the request line. */
+	const char *line_end = memmem(to_read, num_read, "\r\n", strlen("\r\n"));
+	if (line_end == NULL)
+		goto error;
+
 	/* Find the verb */
-	const char *verb_end = strnstr((char *)to_read, " ", MAX_READ_LEN);
+	const char *verb_end = memchr(to_read, ' ', line_end - (char *)to_read);
 	if (verb_end == NULL)
 		goto error;
 
-	const size_t c_verb_size = verb_end - (char *)to_read;
-	const size_t verb_size = c_verb_size >= sizeof(out->verb) ? sizeof(out->verb) - 1: c_verb_size;
-	strncpy(out->verb, (char *)to_read, verb_size);
+	const size_t verb_size = verb_end - (char *)to_read;
+	if (verb_size >= sizeof(out->verb))
+		goto error;
+	memcpy(out->verb, to_read, verb_size);
+	out->verb[verb_size] = '\0';
 
 	const char *res_offset = verb_end + strlen(" ");
-	const char *resource_end = strnstr(res_offset, " ", sizeof(out->resource));
+	const char *resource_end = memchr(res_offset, ' ', line_end - res_offset);
 	if (resource_end == NULL)
 		goto error;
 
-	const size_t c_resource_size = resource_end - res_offset;
-	const size_t resource_size = c_resource_size >= sizeof(out->resource) ? sizeof(out->resource) : c_resource_size;
-	strncpy(out->resource, res_offset, resource_size);
+	const size_t resource_size = resource_end - res_offset;
+	if (resource_size >= sizeof(out->resource))
+		goto error;
+	memcpy(out->resource, res_offset, resource_size);
+	out->resource[resource_size] = '\0';
 
 	/* Parse full header here. */
 	size_t header_length = 0;
 	int found_end = 0;
-	while (header_length + 3 <= num_read) {
+	while (header_length + 3 < num_read) {
 		if (to_read[header_length] == '\r' &&
 		    to_read[header_length + 1] == '\n' &&
 		    to_read[header_length + 2] == '\r' &&
-- 
2.43.0


From 6d70627c8a8a8ebb1c88e0e5a32abed89e150e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 13/50] fix: request bodies were cut off at the first zero byte

---
 src/parse.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index ba5934f..54574e4 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -185,6 +185,17 @@ error:
 	return -1;
 }
 
+/* The body can be anything, so it is copied by size. The added NUL is for
+ * handlers that use it as a string. */
+static unsigned char *copy_body(const char *body, const size_t siz) {
+	unsigned char *copy = malloc(siz + 1);
+	if (!copy)
+		return NULL;
+	memcpy(copy, body, siz);
+	copy[siz] = '\0';
+	return copy;
+}
+
 int m38_parse_body(const size_t received_body_len,
 			   const size_t content_length_num,
 			   const unsigned char *raw_request,
@@ -194,15 +205,15 @@ int m38_parse_body(const size_t received_body_len,
 	/* We want to read the least amount. Read whatever is smallest. DO IT BECAUSE I SAY SO. */
 	if (content_length_num == received_body_len) {
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, content_length_num);
+		request->full_body = copy_body(body_start, content_length_num);
 	} else if (received_body_len < content_length_num) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Received body length is less than clength for full_body.");
 		request->body_len = received_body_len;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = copy_body(body_start, request->body_len);
 	} else if (content_length_num > 0 && content_length_num < received_body_len) {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Content length is less than total received body length.");
 		request->body_len = content_length_num;
-		request->full_body = (unsigned char *)strndup(body_start, request->body_len);
+		request->full_body = copy_body(body_start, request->body_len);
 	} else {
 		m38_log_msg(LOG_DEBUG, "FULL BODY: Discrepancy between content-length and body length.");
 		request->full_body = NULL;
-- 
2.43.0


From 2f2364aba48547e2ac9b4f5e3c6b1f4db15f9272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:41 +0000
Subject: [PATCH 14/50] fix: form parsing destroyed the body and mangled fields

It consumed (and leaked) full_body, wrote one byte past the decoding buffer,
cut values at a second '=' or a decoded zero byte and did not decode names.
---
 src/parse.c | 32 ++++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index 54574e4..6cf17db 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -230,30 +230,39 @@ int m38_parse_body(const size_t received_body_len,
 int m38_parse_form_encoded_body(m38_http_request *request) {
 	struct sparse_dict *new_dict = NULL;
 	char *potential_kv_pair = NULL;
+	/* strsep() eats what it splits, so work on a copy. */
 	char *duplicated_body = strndup((char *)request->full_body, request->body_len);
 	if (!duplicated_body) {
 		goto err;
 	}
 
 	new_dict = sparse_dict_init();
+	if (!new_dict) {
+		goto err;
+	}
 
-	while ((potential_kv_pair = strsep((char **)&request->full_body, "&")) != NULL) {
-		char *key = NULL;
-		char *value = NULL;
-		key = strsep(&potential_kv_pair, "=");
-		value = strsep(&potential_kv_pair, "=");
+	char *to_split = duplicated_body;
+	while ((potential_kv_pair = strsep(&to_split, "&")) != NULL) {
+		char *key = potential_kv_pair;
+		char *value = strchr(potential_kv_pair, '=');
 
-		if (!key || !value) {
+		if (!value) {
 			continue;
 		}
-
-		char *decoded_buffer = calloc(1, strlen(value));
-		if (m38_url_decode(value, decoded_buffer) > 0) {
-			sparse_dict_set(new_dict, key, strlen(key), decoded_buffer, strlen(decoded_buffer));
+		*value++ = '\0';
+
+		/* Decoding never makes anything longer. Its result counts the NUL. */
+		char *decoded_key = calloc(1, strlen(key) + 1);
+		char *decoded_value = calloc(1, strlen(value) + 1);
+		const int key_siz = decoded_key ? m38_url_decode(key, decoded_key) : -1;
+		const int value_siz = decoded_value ? m38_url_decode(value, decoded_value) : -1;
+		if (key_siz > 0 && value_siz > 0) {
+			sparse_dict_set(new_dict, decoded_key, key_siz - 1, decoded_value, value_siz - 1);
 		} else {
 			m38_log_msg(LOG_WARN, "Could not place item into form elements dict.");
 		}
-		free(decoded_buffer);
+		free(decoded_key);
+		free(decoded_value);
 	}
 
 	request->form_elements = new_dict;
@@ -262,6 +271,5 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 
 err:
 	free(duplicated_body);
-	free(new_dict);
 	return -1;
 }
-- 
2.43.0


From 6916a8573f52ba13ded1015a1b3fb38d21404384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 15/50] fix: read requests completely, however the network
 splits them

Reading stopped at the first short recv(), waited forever after a request that
was a multiple of 1024 bytes long, took a failed recv() for a huge read, and
lost bodies that arrived in several segments.  The error path also used the
request before it was initialised.
---
 src/grengine.c | 132 +++++++++++++++++++------------------------------
 1 file changed, 50 insertions(+), 82 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 9acb18b..e6e71f4 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -2,7 +2,9 @@
 #ifdef __clang__
 	#pragma clang diagnostic ignored "-Wmissing-field-initializers"
 #endif
+#define _GNU_SOURCE
 #include <assert.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <regex.h>
 #include <stdio.h>
@@ -314,62 +316,52 @@ static void log_request(const m38_http_request *request, const m38_http_response
 	free(user_agent);
 }
 
-static int read_max_bytes_from_socket(const int accept_fd, unsigned char **to_read, size_t *num_read) {
-	size_t read_this_time = 0;
-	while ((read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0))) {
-		*num_read += read_this_time;
-		if (read_this_time == 0 || read_this_time < MAX_READ_LEN)
-			break;
-		read_this_time = 0;
-
-		*to_read = realloc(*to_read, *num_read + MAX_READ_LEN);
-		if (!(*to_read)) {
-			m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
-			goto error;
+/* Reads until the header is complete, parses it, and then reads until the body
+ * it announces is complete. A client that goes away before that is an error.
+ */
+static int read_request(const int accept_fd, unsigned char **to_read, size_t *num_read,
+		m38_http_request *request, size_t *clength_num) {
+	while (1) {
+		if (request->full_header == NULL && memmem(*to_read, *num_read, "\r\n\r\n", strlen("\r\n\r\n"))) {
+			if (m38_parse_request(*to_read, *num_read, request) != 0) {
+				m38_log_msg(LOG_ERR, "Could not parse request.");
+				return -1;
+			}
+
+			char *clength = m38_get_header_value_raw(request->full_header, request->header_len, "Content-Length");
+			const long clength_val = clength == NULL ? 0 : strtol(clength, NULL, 10);
+			free(clength);
+			*clength_num = clength_val > 0 ? clength_val : 0;
+			if (*clength_num > MAX_REQUEST_SIZE || request->header_len + *clength_num > MAX_REQUEST_SIZE) {
+				m38_log_msg(LOG_ERR, "Request is too big.");
+				return -1;
+			}
 		}
-		memset(*to_read + *num_read, '\0', MAX_READ_LEN);
-		if (*num_read >= MAX_REQUEST_SIZE)
-			break;
-	}
-
-	return 0;
 
-error:
-	return -1;
-}
+		if (request->full_header != NULL && *num_read >= request->header_len + *clength_num)
+			return 0;
 
-static int attempt_reread_from_socket(
-		const int accept_fd, const size_t clength_num,
-		const size_t post_body_len, m38_http_request *out) {
+		if (*num_read >= MAX_REQUEST_SIZE) {
+			m38_log_msg(LOG_ERR, "Request is too big.");
+			return -1;
+		}
 
-	unsigned char *to_read = NULL;
-	size_t num_read = 0;
+		const ssize_t read_this_time = recv(accept_fd, *to_read + *num_read, MAX_READ_LEN, 0);
+		if (read_this_time == -1 && errno == EINTR)
+			continue;
+		if (read_this_time <= 0) {
+			m38_log_msg(LOG_ERR, "Connection ended before the request was complete.");
+			return -1;
+		}
+		*num_read += read_this_time;
 
-	/* If we have a post_body_len > 0, we don't have to reread from the socket. */
-	/* In addition, if we have a longer content-length than we have known post-body
-	 * length, than we should attempt to re-read from the client. */
-	if ((post_body_len <= 0 && clength_num > 0) ||
-		(post_body_len > 0 && post_body_len < clength_num)) {
-
-		to_read = calloc(1, MAX_READ_LEN);
-
-		m38_log_msg(LOG_WARN, "Content-Length is %i but we got a post_body_len of %i.", clength_num, post_body_len);
-		m38_log_msg(LOG_WARN, "Attempting to re-read from stream.", clength_num, post_body_len);
-		/* ------------------------------------- */
-		/* XXX: Do a select here with a timeout. */
-		/* ------------------------------------- */
-		int rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-		if (rc != 0)
-			goto error;
+		unsigned char *bigger = realloc(*to_read, *num_read + MAX_READ_LEN);
+		if (!bigger) {
+			m38_log_msg(LOG_ERR, "Ran out of memory reading request.");
+			return -1;
+		}
+		*to_read = bigger;
 	}
-
-	out->full_body = to_read;
-	out->body_len = num_read;
-	return 0;
-
-error:
-	free(to_read);
-	return -1;
 }
 
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
@@ -386,10 +378,6 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t num_read = 0;
 	int rc = 0;
 
-	rc = read_max_bytes_from_socket(accept_fd, &to_read, &num_read);
-	if (rc != 0)
-		goto error;
-
 	m38_http_request request = {
 		.verb = {0},
 		.resource = {0},
@@ -400,36 +388,16 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		.full_body = NULL
 	};
 
-	rc = m38_parse_request(to_read, num_read, &request);
-	if (rc != 0) {
-		m38_log_msg(LOG_ERR, "Could not parse request.");
-		goto error;
-	}
-
-	char *clength = m38_get_header_value_raw(request.full_header, request.header_len, "Content-Length");
 	size_t clength_num = 0;
-	if (clength == NULL) {
-		m38_log_msg(LOG_WARN, "Could not parse content length.");
-	} else {
-		clength_num = atoi(clength);
-		free(clength);
-	}
+	rc = read_request(accept_fd, &to_read, &num_read, &request, &clength_num);
+	if (rc != 0)
+		goto error;
 
-	/* Do we have a POST body or something? */
-	const size_t post_body_len = num_read - request.header_len;
-	if (post_body_len <= 0 && clength_num > 0) {
-		/* re-read will just copy into the m38_http_request. */
-		rc = attempt_reread_from_socket(accept_fd, clength_num, post_body_len, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not reread from socket and parse body.");
-			goto error;
-		}
-	} else {
-		rc = m38_parse_body(post_body_len, clength_num, to_read, &request);
-		if (rc != 0) {
-			m38_log_msg(LOG_ERR, "Could not parse body.");
-			goto error;
-		}
+	/* Whatever was received after the announced body is not part of this request. */
+	rc = m38_parse_body(clength_num, clength_num, to_read, &request);
+	if (rc != 0) {
+		m38_log_msg(LOG_ERR, "Could not parse body.");
+		goto error;
 	}
 
 	/* Parses form encoding, if applicable: */
-- 
2.43.0


From 0f6bd6ae3a8cb4b0fae9f4391132ba1e518264f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 16/50] fix: every form submission and failed request leaked
 memory

---
 src/grengine.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index e6e71f4..0fcaf32 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -20,6 +20,7 @@
 #include "greshunkel.h"
 #include "utils.h"
 #include "logging.h"
+#include "simple_sparsehash.h"
 #include "vector.h"
 #include "types.h"
 
@@ -300,6 +301,8 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 	return 0;
 }
 
+static void _clean_up_extra_headers(m38_http_response *response);
+
 static void log_request(const m38_http_request *request, const m38_http_response *response, const int response_code) {
 	char *visitor_ip_addr = m38_get_header_value_raw(request->full_header, request->header_len, "X-Real-IP");
 	char *user_agent = m38_get_header_value_raw(request->full_header, request->header_len, "User-Agent");
@@ -404,10 +407,11 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	const char form_encoding[] = "application/x-www-form-urlencoded";
 	const size_t form_encoding_siz = strlen(form_encoding);
 	char *content_type = m38_get_header_value_request(&request, "Content-Type");
+	const int is_form = content_type != NULL &&
+			strncmp(form_encoding, content_type, form_encoding_siz) == 0;
+	free(content_type);
 
-	if (content_type &&
-			strlen(content_type) >= form_encoding_siz &&
-			strncmp(form_encoding, content_type, form_encoding_siz) == 0) {
+	if (is_form) {
 		rc = m38_parse_form_encoded_body(&request);
 		if (rc != 0) {
 			/* application/x-www-form-urlencoded */
@@ -603,17 +607,20 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return hreq;
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
 		matching_route->cleanup(500, &response);
+	_clean_up_extra_headers(&response);
 	free(actual_response);
 	free(to_read);
 	free(request.full_header);
 	free(request.full_body);
-	free(request.form_elements);
+	if (request.form_elements)
+		sparse_dict_free(request.form_elements);
 	return NULL;
 }
 
-- 
2.43.0


From 327f53b3f7620cd5a855786c34a7c3e5b81bf6e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 17/50] fix: short writes lost data and failed writes leaked
 the response

send() may take less than it was given.  After a failed write the clean-up was
called with 500, which the stock clean-ups take for a response without data.
---
 src/grengine.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 0fcaf32..69ba3da 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -641,13 +641,13 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 	const size_t bytes_left = hreq->response_len - hreq->sent;
 	const size_t to_send = bytes_left < 4096 ? bytes_left : 4096;
-	int rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
+	const ssize_t rc = send(hreq->accept_fd, hreq->response_bytes + hreq->sent, to_send, MSG_NOSIGNAL);
 	if (rc <= 0) {
 		m38_log_msg(LOG_ERR, "Could not send response.");
 		goto error;
 	}
 
-	hreq->sent += to_send;
+	hreq->sent += rc;
 
 	if (hreq->response_len - hreq->sent <= 0) {
 		if (matching_route->cleanup != NULL) {
@@ -666,7 +666,7 @@ m38_handled_request *m38_send_response(m38_handled_request *hreq) {
 
 error:
 	if (matching_route != NULL && matching_route->cleanup != NULL)
-		matching_route->cleanup(500, &hreq->response);
+		matching_route->cleanup(hreq->response_code, &hreq->response);
 	_clean_up_extra_headers(&hreq->response);
 	close(hreq->accept_fd);
 	free(hreq->response_bytes);
-- 
2.43.0


From 4be706cac1fb0eda0eb707bd7e85e5533df43347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 18/50] fix: m38_insert_custom_header() reported failure on
 success

---
 src/grengine.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 69ba3da..43291e9 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -285,20 +285,20 @@ int m38_insert_custom_header(m38_http_response *response, const char *header, co
 	const char *copied_value = strndup(value, value_len);
 	if (!copied_header || !copied_value) {
 		m38_log_msg(LOG_ERR, "Could not create copied values for http_response extra headers!");
+		free((char *)copied_header);
+		free((char *)copied_value);
 		free(new_pair);
 		return 0;
 	}
 
 	m38_header_pair _stack_pair = {
 		.header = copied_header,
-		.header_len = header_len,
+		.header_len = strlen(copied_header),
 		.value = copied_value,
-		.value_len = value_len,
+		.value_len = strlen(copied_value),
 	};
 	memcpy(new_pair, &_stack_pair, sizeof(m38_header_pair));
-	vector_append_ptr(response->extra_headers, new_pair);
-
-	return 0;
+	return vector_append_ptr(response->extra_headers, new_pair);
 }
 
 static void _clean_up_extra_headers(m38_http_response *response);
-- 
2.43.0


From f3d84500489ec33b75212753e82af7a3aef0565d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 19/50] fix: custom headers wrote past a stack buffer

---
 src/grengine.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 43291e9..e6f7bda 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -541,8 +541,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
 								    + strlen("\r\n") + 1;
 			char buf[siz];
-			buf[siz] = '\0';
-			snprintf(buf, actual_response_siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
+			snprintf(buf, siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
 			strncat(actual_response, buf, siz);
 		}
 		strcat(actual_response, r_final);
-- 
2.43.0


From 94498fa235b3c4bf4c50aa30c61994041946e81d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 20/50] fix: byte range responses

The number and choice of the bytes sent were wrong, Content-Length announced
the whole body, a range beyond the end read outside the body, custom headers
and the default type were left out, redirects were turned into partial
content, a 206 without a Range header crashed and the header value leaked.
---
 src/grengine.c | 166 ++++++++++++++++++++++++++-----------------------
 1 file changed, 88 insertions(+), 78 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index e6f7bda..85e59f4 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -367,6 +367,46 @@ static int read_request(const int accept_fd, unsigned char **to_read, size_t *nu
 	}
 }
 
+/* Figures out which bytes of a body a Range header asks for. Returns 0 if the
+ * whole body should be sent, because we don't support what it asks for.
+ */
+static int wanted_range(const char *range_value, const size_t total, size_t *start_byte, size_t *end_byte) {
+	static const char digits[] = "0123456789";
+	static const size_t max_digits = 18; /* What always fits. */
+
+	if (strncmp(range_value, "bytes=", strlen("bytes=")) != 0)
+		return 0;
+
+	const char *first = range_value + strlen("bytes=");
+	const size_t first_len = strspn(first, digits);
+	if (first_len == 0 || first[first_len] != '-')
+		return 0;
+
+	const char *last = first + first_len + 1;
+	const size_t last_len = strspn(last, digits);
+	if (last[last_len] != '\0')
+		return 0;
+
+	if (first_len - strspn(first, "0") > max_digits)
+		return 0;
+
+	const m38_range_header byte_range = m38_parse_range_header(range_value);
+	if (byte_range.offset >= total)
+		return 0;
+
+	*start_byte = byte_range.offset;
+	*end_byte = total - 1;
+	if (last_len > 0 && last_len - strspn(last, "0") <= max_digits) {
+		if (byte_range.limit < byte_range.offset) {
+			*start_byte = 0;
+			return 0;
+		}
+		if (byte_range.limit < total)
+			*end_byte = byte_range.limit;
+	}
+	return 1;
+}
+
 m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *app) {
 	unsigned char *to_read = calloc(1, MAX_READ_LEN);
 	char *actual_response = NULL;
@@ -492,11 +532,21 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	size_t header_size = 0;
 	size_t actual_response_siz = 0;
 
+	if (response.mimetype[0] == '\0')
+		strncpy(response.mimetype, "text/html", sizeof(response.mimetype));
+
 	/* Figure out if this thing needs to be partial */
+	size_t start_byte = 0;
+	size_t end_byte = response.outsize > 0 ? response.outsize - 1 : 0;
+	size_t body_siz = response.outsize;
 	char *range_header_value = m38_get_header_value_raw(request.full_header, request.header_len, "Range");
-	if (range_header_value && RESPONSE_OK(response_code)) {
+	if (range_header_value && response_code == 200 &&
+			wanted_range(range_header_value, response.outsize, &start_byte, &end_byte)) {
+		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, response.outsize);
 		response_code = 206;
+		body_siz = end_byte - start_byte + 1;
 	}
+	free(range_header_value);
 
 	/* Figure out what header we need to use: */
 	const code_to_message *matched_response = NULL;
@@ -513,84 +563,44 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	 * compile time. */
 	assert(matched_response != NULL);
 
-	if (response_code == 200 || response_code == 404 || response_code == 301 ||
-			response_code == 302 ||response_code == 400 || response_code == 403 ||
-			response_code == 500) {
-		const size_t integer_length = UINT_LEN(response.outsize);
-		if (response.mimetype[0] == '\0')
-			memcpy(response.mimetype, "text/html", strlen("text/html"));
-
-		header_size = strlen(response.mimetype) + strlen(matched_response->message)
-			+ integer_length - strlen("%s") - strlen("%zu") + strlen(r_final);
-
-		size_t i = 0;
-		for (i = 0; i < response.extra_headers->count; i++) {
-			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			header_size += (*pair)->header_len + strlen(": ") + (*pair)->value_len
-								    + strlen("\r\n");
-		}
-		actual_response_siz = response.outsize + header_size;
-		actual_response = malloc(actual_response_siz + 1);
-		memset(actual_response, '\0', actual_response_siz);
-		actual_response[actual_response_siz] = '\0';
-
-		/* snprintf the header because it's just a string: */
-		snprintf(actual_response, actual_response_siz, matched_response->message, response.mimetype, response.outsize);
-		for (i = 0; i < response.extra_headers->count; i++) {
-			m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
-			const size_t siz = (*pair)->header_len + strlen(": ") + (*pair)->value_len
-								    + strlen("\r\n") + 1;
-			char buf[siz];
-			snprintf(buf, siz, "%s: %s\r\n", (*pair)->header, (*pair)->value);
-			strncat(actual_response, buf, siz);
-		}
-		strcat(actual_response, r_final);
-
-		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out, response.outsize);
-	} else if (response_code == 206) {
-		/* Byte range queries have some extra shit. */
-		m38_range_header byte_range = m38_parse_range_header(range_header_value);
-		/* TODO: Add the custom header stuff here (for 206), too. */
-
-		m38_log_msg(LOG_INFO, "Range header parsed: Raw: %s Limit: %zu Offset: %zu", range_header_value, byte_range.limit, byte_range.offset);
-		free(range_header_value);
-
-		size_t end_byte = 0;
-		if (byte_range.limit == 0) {
-			end_byte = response.outsize - 1;
-		} else {
-			end_byte = (response.outsize - byte_range.limit) - 1;
-		}
-
-		if (end_byte >= response.outsize)
-			end_byte = response.outsize - 1;
-		const size_t start_byte = byte_range.offset < response.outsize ? byte_range.offset : 0;
-		const size_t max_size = response.outsize; /* Should be the same as file size. */
-		const size_t integer_length = UINT_LEN(max_size);
-
-		const size_t minb_len = start_byte == 0 ? 1 : UINT_LEN(start_byte);
-		const size_t maxb_len = end_byte == 0 ? 1 : UINT_LEN(end_byte);
-		/* Compute the size of the header */
-		header_size = strlen(response.mimetype) + strlen(matched_response->message) + strlen(r_final)
-			+ integer_length + minb_len + maxb_len + integer_length
-			- strlen("%s") - (strlen("%zu") * 4);
-		actual_response_siz = max_size + header_size;
-		/* malloc the full response */
-		actual_response = malloc(actual_response_siz + 1);
-		actual_response[actual_response_siz] = '\0';
-
-		/* snprintf the header because it's just a string: */
-		snprintf(actual_response, actual_response_siz, matched_response->message,
-			response.mimetype, max_size,
-			start_byte, end_byte, max_size);
-		m38_log_msg(LOG_INFO, "Sending back: Content-Range: %zu-%zu/%zu", start_byte, end_byte, max_size);
-
-		strcat(actual_response, r_final);
-
-		/* memcpy the rest because it could be anything: */
-		memcpy(actual_response + header_size, response.out + start_byte, end_byte - start_byte);
+	/* Byte range queries have some extra shit. */
+	if (response_code == 206)
+		header_size = snprintf(NULL, 0, matched_response->message, response.mimetype, body_siz,
+				start_byte, end_byte, response.outsize);
+	else
+		header_size = snprintf(NULL, 0, matched_response->message, response.mimetype, body_siz);
+
+	for (i = 0; i < (int64_t)response.extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
+		header_size += (*pair)->header_len + strlen(": ") + (*pair)->value_len
+							    + strlen("\r\n");
+	}
+	header_size += strlen(r_final);
+
+	/* malloc the full response */
+	actual_response_siz = body_siz + header_size;
+	actual_response = malloc(actual_response_siz + 1);
+	actual_response[actual_response_siz] = '\0';
+
+	/* snprintf the header because it's just a string: */
+	if (response_code == 206)
+		snprintf(actual_response, header_size + 1, matched_response->message, response.mimetype, body_siz,
+				start_byte, end_byte, response.outsize);
+	else
+		snprintf(actual_response, header_size + 1, matched_response->message, response.mimetype, body_siz);
+
+	for (i = 0; i < (int64_t)response.extra_headers->count; i++) {
+		m38_header_pair **pair = (m38_header_pair **)vector_get(response.extra_headers, i);
+		strcat(actual_response, (*pair)->header);
+		strcat(actual_response, ": ");
+		strcat(actual_response, (*pair)->value);
+		strcat(actual_response, "\r\n");
 	}
+	strcat(actual_response, r_final);
+
+	/* memcpy the rest because it could be anything: */
+	if (body_siz > 0)
+		memcpy(actual_response + header_size, response.out + start_byte, body_siz);
 
 	log_request(&request, &response, response_code);
 
-- 
2.43.0


From ef1a0945f58c12739e4330270e0eec0f491b7cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 21/50] fix: the type of a static file depends on its extension
 only

The search for the dot started behind the end of the path, ran before its start
for short paths and took dots in directory names for an extension.
---
 src/grengine.c | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 85e59f4..07ed493 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -226,20 +226,11 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 	madvise(response->out, c_limit, MADV_SEQUENTIAL | MADV_WILLNEED);
 
 	/* Figure out the mimetype for this resource: */
-	char ending[16] = {0};
-	unsigned int i = sizeof(ending);
-	int found_dot = 0;
-	const size_t res_len = strlen(file_path);
-	for (i = res_len; i > (res_len - sizeof(ending)); i--) {
-		if (file_path[i] == '.') {
-			found_dot = 1;
-			break;
-		}
-	}
 	if (strlen(response->mimetype) == 0) {
-		if (found_dot) {
-			strncpy(ending, file_path + i, sizeof(ending) - 1);
-			guess_mimetype(ending, sizeof(ending), response);
+		const char *last_slash = strrchr(file_path, '/');
+		const char *extension = strrchr(last_slash ? last_slash : file_path, '.');
+		if (extension) {
+			guess_mimetype(extension, strlen(extension) + 1, response);
 		} else {
 			/* Fuck it, do something smart later with render_file. */
 			strncpy(response->mimetype, "text/html", sizeof(response->mimetype));
-- 
2.43.0


From f58ac1ac06d3e07f666c47aeb08f5bd30dd94c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 22/50] fix: empty files are served as empty files instead of a
 404

---
 src/grengine.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index 07ed493..d64b8d4 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -190,19 +190,26 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 		return 404;
 	}
 	int fd = open(file_path, O_RDONLY);
-	if (fd <= 0) {
+	if (fd < 0) {
 		response->out = (unsigned char *)"<html><body><p>Could not open file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>could not open file.</p></body></html>");
 		perror("mmap_file_ol: could not open file");
 		free(response->extra_data);
 		response->extra_data = NULL;
-		close(fd);
 		return 404;
 	}
 
 
 	const struct stat st = *(struct stat *)response->extra_data;
 
+	if (S_ISREG(st.st_mode) && st.st_size == 0) {
+		/* There is nothing to map, but that's fine. */
+		response->out = (unsigned char *)"";
+		response->outsize = 0;
+		close(fd);
+		goto guess_type;
+	}
+
 	const size_t c_offset = offset != NULL ? *offset : 0;
 	const size_t c_limit = limit != NULL ? (*limit - c_offset) : (st.st_size - c_offset);
 
@@ -225,6 +232,7 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 
 	madvise(response->out, c_limit, MADV_SEQUENTIAL | MADV_WILLNEED);
 
+guess_type:
 	/* Figure out the mimetype for this resource: */
 	if (strlen(response->mimetype) == 0) {
 		const char *last_slash = strrchr(file_path, '/');
-- 
2.43.0


From cefdd13b304557336d3dfb0d2ebd249d4b29c38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 23/50] fix: m38_render_file() leaked the context when there is
 no such file

---
 src/grengine.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index d64b8d4..a378a68 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -156,8 +156,10 @@ int m38_return_raw_buffer(const char *buf, const size_t buf_size, m38_http_respo
 
 int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path, m38_http_response *response) {
 	int rc = m38_mmap_file(file_path, response);
-	if (!RESPONSE_OK(rc))
+	if (!RESPONSE_OK(rc)) {
+		gshkl_free_context((greshunkel_ctext *)ctext);
 		return rc;
+	}
 
 	/* Render the mmap()'d file with greshunkel */
 	const char *mmapd_region = (char *)response->out;
@@ -170,6 +172,7 @@ int m38_render_file(const struct greshunkel_ctext *ctext, const char *file_path,
 	/* Clean up the stuff we're no longer using. */
 	munmap(response->out, original_size);
 	free(response->extra_data);
+	response->extra_data = NULL;
 
 	/* Make sure the response is kept up to date: */
 	response->outsize = new_size;
-- 
2.43.0


From 8c887cd19e4244e59280a9a9994dddc444a9d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:50 +0000
Subject: [PATCH 24/50] fix: use the built-in 404 page when only a clean-up was
 set for it

---
 src/grengine.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grengine.c b/src/grengine.c
index a378a68..14fa682 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -496,7 +496,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 	if (matching_route == NULL) {
 		matching_route = &r_404_route;
 		response_code = 404;
-		if (app->r_404_route) {
+		if (app->r_404_route && app->r_404_route->handler) {
 			m38_log_msg(LOG_INFO, "Setting custom 404 handler for %s.", matching_route->name);
 			matching_route = app->r_404_route;
 		} else {
@@ -516,7 +516,7 @@ m38_handled_request *m38_generate_response(const int accept_fd, const m38_app *a
 		m38_log_msg(LOG_INFO, "No response gen: Calling 404 handler for %s.", matching_route->name);
 		matching_route = &r_404_route;
 
-		if (app->r_404_route) {
+		if (app->r_404_route && app->r_404_route->handler) {
 			m38_log_msg(LOG_INFO, "Setting custom 404 handler for %s.", matching_route->name);
 			matching_route = app->r_404_route;
 		} else {
-- 
2.43.0


From deead63b5c03d28c7d19c973c393237fe3931124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:16 +0000
Subject: [PATCH 25/50] fix: names of 32 characters or more left arrays and
 sub-contexts without a terminated name

gshkl_add_array() and gshkl_add_sub_context() filled all 32 bytes of the name,
so a lookup ran on into the type and the value.
---
 src/greshunkel.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 8757f7d..a01101c 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -90,8 +90,7 @@ int gshkl_add_sub_context(greshunkel_ctext *parent, const char name[const], cons
 			.sub_ctext = child
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
-	strncpy(_stack_tuple.name, name, name_len);
+	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
 	return _gshkl_add_var_to_context(parent, &_stack_tuple);
 }
@@ -169,8 +168,7 @@ greshunkel_var gshkl_add_array(greshunkel_ctext *ctext, const char name[]) {
 			.arr = vector_new(sizeof(greshunkel_tuple), 16)
 		}
 	};
-	const size_t name_len = strnlen(name, WISDOM_OF_WORDS) < WISDOM_OF_WORDS ? strnlen(name, WISDOM_OF_WORDS) : WISDOM_OF_WORDS;
-	strncpy(_stack_tuple.name, name, name_len);
+	strncpy(_stack_tuple.name, name, WISDOM_OF_WORDS - 1);
 
 	_gshkl_add_var_to_context(ctext, &_stack_tuple);
 	return _stack_tuple.value;
-- 
2.43.0


From b29fb28fc6794237b9ae4c5961a0a77edd757714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:19 +0000
Subject: [PATCH 26/50] fix: looping over sub-contexts freed them

The context that binds the loop variable was freed together with the
sub-context it was bound to, so a second loop over the same array, or a second
rendering, used freed memory, and arrays that were never looped over leaked.
Arrays now own their sub-contexts, like contexts do.
---
 src/greshunkel.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index a01101c..a0f7ba5 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -227,9 +227,22 @@ int gshkl_add_string_to_loop(greshunkel_var *loop, const char *value) {
 
 static inline void _gshkl_free_arr(greshunkel_tuple *to_free) {
 	assert(to_free->type == GSHKL_ARR);
+	unsigned int i;
+	for (i = 0; i < to_free->value.arr->count; i++) {
+		const greshunkel_tuple *next = vector_get(to_free->value.arr, i);
+		if (next->type == GSHKL_SUBCTEXT)
+			gshkl_free_context((struct greshunkel_ctext *)next->value.sub_ctext);
+	}
 	vector_free((vector *)to_free->value.arr);
 }
 
+/* Child contexts only borrow what they refer to, so none of that is freed. */
+static void _gshkl_free_child_context(greshunkel_ctext *ctext) {
+	vector_free(ctext->values);
+	vector_free(ctext->filter_functions);
+	free(ctext);
+}
+
 void gshkl_free_context(greshunkel_ctext *ctext) {
 	unsigned int i;
 	for (i = 0; i < ctext->values->count; i++) {
@@ -662,7 +675,7 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 			}
 
 			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
-			gshkl_free_context(_temp_ctext);
+			_gshkl_free_child_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
@@ -813,7 +826,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			/* Recurse contexts until my fucking mind melts. */
 			greshunkel_ctext *_temp_ctext = _gshkl_init_child_context(ctext);
 			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
-			gshkl_free_context(_temp_ctext);
+			_gshkl_free_child_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
-- 
2.43.0


From a3f0025a158285df4806e93bb07e3045c5c1e5e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:21 +0000
Subject: [PATCH 27/50] fix: rendering read past the template, miscounted its
 result and leaked

The template was read up to its first zero byte instead of original_size, the
reported size was one short when the template ended in a newline (and -1, with
a NULL result, for an empty template), the last character of a loop body or
include that ended in another block was dropped, a line with both variables
and an include was freed twice, and lines taken by blocks were leaked.
---
 src/greshunkel.c | 111 +++++++++++++++++++++++++++++------------------
 1 file changed, 69 insertions(+), 42 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index a0f7ba5..d3c11a8 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -265,8 +265,10 @@ static line read_line(const char *buf) {
 	size_t num_read = 0;
 	while (1) {
 		c = buf[num_read];
+		if (c == '\0')
+			break;
 		num_read++;
-		if (c == '\0' || c == '\n' || c == '\r')
+		if (c == '\n' || c == '\r')
 			break;
 	}
 
@@ -331,6 +333,18 @@ static const void *find_needle(const greshunkel_ctext *ctext, const char *needle
 	return NULL;
 }
 
+static line _render(const greshunkel_ctext *ctext, const char *to_render, const struct compiled_regex *all_regex);
+
+/* Loop bodies, conditionals and includes lose the end of their last line. */
+static void _chomp(line *rendered, const char *template_text) {
+	const size_t template_len = strlen(template_text);
+	if (template_len == 0 || rendered->size == 0)
+		return;
+	const char last = template_text[template_len - 1];
+	if ((last == '\n' || last == '\r') && rendered->data[rendered->size - 1] == last)
+		rendered->data[--rendered->size] = '\0';
+}
+
 static line
 _filter_line(const greshunkel_ctext *ctext, const line *current_line, const struct compiled_regex *all_regex) {
 	line interpolated_line = {0};
@@ -537,7 +551,8 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 		template_file[template_file_siz] = '\0';
 
 		line rendered_piece = {0};
-		rendered_piece.data = gshkl_render(ctext, template_file, template_file_siz, &rendered_piece.size);
+		rendered_piece = _render(ctext, template_file, all_regex);
+		_chomp(&rendered_piece, template_file);
 
 		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
@@ -559,6 +574,8 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 	/* Do context variables first: */
 	const line _operating_line = _interpolate_line_subcontext(ctext, current_line, all_regex);
 	const line *operating_line = &_operating_line;
+	if (_operating_line.data != current_line.data)
+		interpolated_line = _operating_line;
 	assert(operating_line->data != NULL);
 
 	match_t match[2] = {0};
@@ -595,12 +612,12 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	if (included_line.data != operating_line->data)
+		free(interpolated_line.data);
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
-	if (filtered_line.data != interpolated_line.data && interpolated_line.data != NULL)
-		free(operating_line->data);
+	if (filtered_line.data != included_line.data && included_line.data != current_line.data)
+		free(included_line.data);
 
 	return filtered_line;
 }
@@ -674,13 +691,15 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 				assert(1 == 0);
 			}
 
-			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
+			rendered_piece = _render(_temp_ctext, to_render_line.data, all_regex);
+			_chomp(&rendered_piece, to_render_line.data);
 			_gshkl_free_child_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
-			to_return.data = realloc(to_return.data, to_return.size);
+			to_return.data = realloc(to_return.data, to_return.size + 1);
 			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
+			to_return.data[to_return.size] = '\0';
 			free(rendered_piece.data);
 		}
 
@@ -825,15 +844,16 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 
 			/* Recurse contexts until my fucking mind melts. */
 			greshunkel_ctext *_temp_ctext = _gshkl_init_child_context(ctext);
-			rendered_piece.data = gshkl_render(_temp_ctext, to_render_line.data, to_render_line.size, &rendered_piece.size);
+			rendered_piece = _render(_temp_ctext, to_render_line.data, all_regex);
+			_chomp(&rendered_piece, to_render_line.data);
 			_gshkl_free_child_context(_temp_ctext);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
 			if (old_size <= 0) {
-				to_return.data = calloc(1, to_return.size);
+				to_return.data = calloc(1, to_return.size + 1);
 			} else {
-				to_return.data = realloc(to_return.data, to_return.size);
+				to_return.data = realloc(to_return.data, to_return.size + 1);
 			}
 
 			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
@@ -935,9 +955,9 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
 			if (old_size <= 0) {
-				to_return.data = calloc(1, to_return.size);
+				to_return.data = calloc(1, to_return.size + 1);
 			} else {
-				to_return.data = realloc(to_return.data, to_return.size);
+				to_return.data = realloc(to_return.data, to_return.size + 1);
 			}
 
 			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
@@ -988,19 +1008,16 @@ static inline void _destroy_regex(struct compiled_regex *all_regex) {
 	regfree(&all_regex->c_conditional_inverse_regex);
 }
 
-char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const size_t original_size, size_t *outsize) {
-	assert(to_render != NULL);
-	assert(ctext != NULL);
-
+static line _render(const greshunkel_ctext *ctext, const char *to_render, const struct compiled_regex *all_regex) {
 	/* We start up a new buffer and copy the old one into it: */
-	char *rendered = NULL;
-	size_t intermediate_outsize = 0;
-
-	struct compiled_regex all_regex;
-	_compile_regex(&all_regex);
+	line rendered = {
+		.size = 0,
+		.data = calloc(1, 1)
+	};
+	assert(rendered.data != NULL);
 
 	size_t num_read = 0;
-	while (num_read < original_size) {
+	while (to_render[num_read] != '\0') {
 		line current_line = read_line(to_render + num_read);
 
 		line to_append = {0};
@@ -1009,16 +1026,16 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		 * in the offset and just let it go. If it processes more than the
 		 * size of the current line, we know it did something.
 		 * Append the whole line it gets back. */
-		to_append = _interpolate_loop(ctext, to_render + num_read, &loop_readahead, &all_regex);
+		to_append = _interpolate_loop(ctext, to_render + num_read, &loop_readahead, all_regex);
 
 		/* Otherwise just interpolate the line like normal. */
 		if (loop_readahead == 0) {
 			/* Now let's try to interpolate an if statement, much like a loop. */
 			size_t conditional_readahead = 0;
-			to_append = _interpolate_conditionals(ctext, to_render + num_read, &conditional_readahead, &all_regex);
+			to_append = _interpolate_conditionals(ctext, to_render + num_read, &conditional_readahead, all_regex);
 
 			if (conditional_readahead == 0) {
-				to_append = _interpolate_line(ctext, current_line, &all_regex);
+				to_append = _interpolate_line(ctext, current_line, all_regex);
 				num_read += current_line.size;
 			} else {
 				num_read += conditional_readahead;
@@ -1028,28 +1045,38 @@ char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const s
 		}
 
 		/* Fuck this */
-		const size_t old_outsize = intermediate_outsize;
-		intermediate_outsize += to_append.size;
-		{
-			char *med_buf = realloc(rendered, intermediate_outsize + 1);
-			if (med_buf == NULL)
-				goto error;
-			med_buf[intermediate_outsize] = '\0';
-			rendered = med_buf;
+		if (to_append.size > 0) {
+			char *med_buf = realloc(rendered.data, rendered.size + to_append.size + 1);
+			assert(med_buf != NULL);
+			memcpy(med_buf + rendered.size, to_append.data, to_append.size);
+			rendered.data = med_buf;
+			rendered.size += to_append.size;
+			rendered.data[rendered.size] = '\0';
 		}
-		memcpy(rendered + old_outsize, to_append.data, to_append.size);
 		if (to_append.data != current_line.data)
 			free(current_line.data);
 		free(to_append.data);
 	}
-	_destroy_regex(&all_regex);
-	/* rendered[intermediate_outsize - 1] = '\0'; */
 
-	if (outsize)
-		*outsize = intermediate_outsize - 1;
 	return rendered;
+}
 
-error:
-	free(rendered);
-	return NULL;
+char *gshkl_render(const greshunkel_ctext *ctext, const char *to_render, const size_t original_size, size_t *outsize) {
+	assert(to_render != NULL);
+	assert(ctext != NULL);
+
+	/* The buffer we were given doesn't have to be terminated. */
+	char *template_text = strndup(to_render, original_size);
+	if (template_text == NULL)
+		return NULL;
+
+	struct compiled_regex all_regex;
+	_compile_regex(&all_regex);
+	const line rendered = _render(ctext, template_text, &all_regex);
+	_destroy_regex(&all_regex);
+	free(template_text);
+
+	if (outsize)
+		*outsize = rendered.size;
+	return rendered.data;
 }
-- 
2.43.0


From ac4531865d8c22e6b90cefadf760570b5747c377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:53 +0000
Subject: [PATCH 28/50] fix: includes were cut off at 2048 bytes

A file of exactly that size or more also wrote past the buffer. The filters on
an included line are not looked for a second time in the rendered file.
---
 src/greshunkel.c | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index d3c11a8..dad2dcd 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -535,9 +535,8 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 
 
 		/* Open the file here. */
-		/* TODO: Make this actually the whole size of the file, not just a random buffer. */
-		char template_file[2048] = {0};
-		size_t template_file_siz = 0;
+		char *template_file = NULL;
+		size_t template_file_siz = 0, num_read = 0;
 		FILE *include_file = fopen(just_match_str, "r");
 		if (!include_file) {
 			/* If we couldn't open the file, blow up with an assertion. */
@@ -546,13 +545,19 @@ _include_line(const greshunkel_ctext *ctext, const line *current_line, const str
 			assert(1 == 0);
 		}
 
-		template_file_siz = fread(template_file, 1, sizeof(template_file), include_file);
+		do {
+			template_file_siz += num_read;
+			template_file = realloc(template_file, template_file_siz + 2048 + 1);
+			assert(template_file != NULL);
+			num_read = fread(template_file + template_file_siz, 1, 2048, include_file);
+		} while (num_read > 0);
 		fclose(include_file);
 		template_file[template_file_siz] = '\0';
 
 		line rendered_piece = {0};
 		rendered_piece = _render(ctext, template_file, all_regex);
 		_chomp(&rendered_piece, template_file);
+		free(template_file);
 
 		free(interpolated_line.data);
 		interpolated_line.size = rendered_piece.size;
@@ -612,8 +617,11 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 
 	/* SCREAM includes */
 	line included_line = _include_line(ctext, operating_line, all_regex);
-	if (included_line.data != operating_line->data)
+	if (included_line.data != operating_line->data) {
+		/* The filters of the included file have been called already. */
 		free(interpolated_line.data);
+		return included_line;
+	}
 
 	line filtered_line = _filter_line(ctext, &included_line, all_regex);
 	if (filtered_line.data != included_line.data && included_line.data != current_line.data)
-- 
2.43.0


From 2d4931e10ed452498c92a4bc4655d27da67e2a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:20 +0000
Subject: [PATCH 29/50] fix: filter calls without an argument followed by
 another call on the line

The expression ran to the last call of the line, so the first filter was given
the rest of the line (a negative length) as its argument.
---
 src/greshunkel.c | 46 +++++++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 15 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index dad2dcd..9c7eda6 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -3,6 +3,7 @@
 	#pragma clang diagnostic ignored "-Wmissing-field-initializers"
 #endif
 #include <assert.h>
+#include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
@@ -40,7 +41,7 @@ typedef struct _match {
 static const char variable_regex[] = "xXx @([a-zA-Z_0-9]+) xXx";
 static const char ctext_variable_regex[] = "xXx @([a-zA-Z_0-9]+)\\.([a-zA-Z_0-9]+) xXx";
 static const char loop_regex[] = "^\\s*xXx LOOP ([a-zA-Z_]+) ([a-zA-Z_]+) xXx(.*)xXx BBL xXx";
-static const char filter_regex[] = "XxX ([a-zA-Z_0-9]+)\\s+(.*) XxX";
+static const char filter_regex[] = "XxX ([a-zA-Z_0-9]+)(\\s)";
 static const char filter_regex_no_args[] = "XxX ([a-zA-Z_0-9]+) XxX";
 static const char include_regex[] = "^\\s*xXx SCREAM ([a-zA-Z_./]+) xXx";
 static const char conditional_regex[] = "^\\s*xXx UNLESS @([a-zA-Z_.]+) xXx(.*)xXx ENDLESS xXx";
@@ -345,6 +346,32 @@ static void _chomp(line *rendered, const char *template_text) {
 		rendered->data[--rendered->size] = '\0';
 }
 
+/* Finds the first filter call that has an argument. Calls without one are skipped as a whole. */
+static int _find_filter_call(const regex_t *preg, const char *string, match_t pmatch[3]) {
+	const char *next = string;
+
+	while (regexec_2_0_beta(preg, next, 3, pmatch) == 0) {
+		const char *end_of_name = pmatch[1].start + pmatch[1].len;
+		const char *closing_XxX = strstr(end_of_name, " XxX");
+		if (closing_XxX == NULL)
+			return 1;
+		if (closing_XxX == end_of_name) {
+			next = closing_XxX + strlen(" XxX");
+			continue;
+		}
+
+		pmatch[2].start = end_of_name;
+		while (pmatch[2].start < closing_XxX && isspace((unsigned char)*pmatch[2].start))
+			pmatch[2].start++;
+		pmatch[2].len = closing_XxX - pmatch[2].start;
+		pmatch[0].rm_so = pmatch[0].start - string;
+		pmatch[0].rm_eo = closing_XxX + strlen(" XxX") - string;
+		pmatch[0].len = pmatch[0].rm_eo - pmatch[0].rm_so;
+		return 0;
+	}
+	return 1;
+}
+
 static line
 _filter_line(const greshunkel_ctext *ctext, const line *current_line, const struct compiled_regex *all_regex) {
 	line interpolated_line = {0};
@@ -354,16 +381,8 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 
 	/* Now we match template filters: */
 	match_t filter_matches[3];
-	while (regexec_2_0_beta(&all_regex->c_filter_regex, operating_line->data, 3, filter_matches) == 0) {
-		match_t whole_match = filter_matches[0];
-		const char *start_of_first_XxX = strstr(whole_match.start, " XxX");
-		const char *end_of_first_XxX = start_of_first_XxX + strlen(" XxX");
-		const size_t full_diff = end_of_first_XxX - whole_match.start;
-
-		whole_match.rm_eo = (whole_match.start + full_diff) - operating_line->data;
-		whole_match.len = full_diff;
-		assert(start_of_first_XxX != NULL);
-
+	while (_find_filter_call(&all_regex->c_filter_regex, operating_line->data, filter_matches) == 0) {
+		const match_t whole_match = filter_matches[0];
 		const match_t function_name = filter_matches[1];
 		const match_t argument = filter_matches[2];
 
@@ -373,11 +392,8 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 		strncpy(just_match_str, function_name.start, function_name.len);
 
 		if ((filter = find_needle(ctext, just_match_str, 0))) {
-
-			const size_t new_len = start_of_first_XxX - argument.start;
-
 			/* Render the argument out so we can pass it to the filter function. */
-			char *rendered_argument = strndup(argument.start, new_len);
+			char *rendered_argument = strndup(argument.start, argument.len);
 
 			/* Pass it to the filter function. */
 			char *filter_result = filter->filter_func(rendered_argument);
-- 
2.43.0


From 9cb3fb6df7690c868b9bac936e47ea27061c4328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:23 +0000
Subject: [PATCH 30/50] fix: a block without a body swallowed everything up to
 the last end marker

---
 src/greshunkel.c | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 9c7eda6..6e8b16e 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -668,10 +668,8 @@ _interpolate_loop(const greshunkel_ctext *ctext, const char *buf, size_t *num_re
 		const char *closest_BBL = NULL;
 		closest_BBL = strstr(loop_meat.start, "xXx BBL xXx");
 		possible_dif = closest_BBL - buf;
-		if (possible_dif != (unsigned int)loop_meat.rm_so) {
-			loop_meat.rm_eo = possible_dif;
-			loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
-		}
+		loop_meat.rm_eo = possible_dif;
+		loop_meat.len = loop_meat.rm_eo - loop_meat.rm_so;
 
 		/* We found a fucking loop, holy shit */
 		*num_read = loop_meat.rm_eo + strlen("xXx BBL xXx");
@@ -814,10 +812,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
@@ -895,10 +891,8 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		const char *closest_endif = NULL;
 		closest_endif = strstr(conditional_meat.start, "xXx ENDLESS xXx");
 		possible_dif = closest_endif - buf;
-		if (possible_dif != (unsigned int)conditional_meat.rm_so) {
-			conditional_meat.rm_eo = possible_dif;
-			conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
-		}
+		conditional_meat.rm_eo = possible_dif;
+		conditional_meat.len = conditional_meat.rm_eo - conditional_meat.rm_so;
 
 		/* We found a conditioanl. */
 		*num_read = conditional_meat.rm_eo + strlen("xXx ENDLESS xXx");
-- 
2.43.0


From e639f17e8d6ccbd7559b21435f479d5a4c261b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:27 +0000
Subject: [PATCH 31/50] fix: UNLESS and UNLESS NOT both skipped empty strings

---
 src/greshunkel.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 6e8b16e..69eda31 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -759,8 +759,8 @@ static inline int _is_falsey(const greshunkel_tuple *tuple) {
 		return !is_subcontext;
 	}
 
-	m38_log_msg(LOG_DEBUG, "_is_falsey: return 0");
-	return 0;
+	m38_log_msg(LOG_DEBUG, "_is_falsey: return 1");
+	return 1;
 }
 
 static inline int _is_truthy(const greshunkel_tuple *tuple) {
-- 
2.43.0


From 9f3f03093281a3ea2d678e3da03c195584070148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:02 +0000
Subject: [PATCH 32/50] fix: conditionals on sub-context members read past the
 name

Looking up the member copied beyond the end of the name, could overflow the
name buffers, and considered every member of that name instead of the first.
---
 src/greshunkel.c | 111 +++++++++++++----------------------------------
 1 file changed, 31 insertions(+), 80 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 69eda31..150b70c 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -795,6 +795,29 @@ static inline int _is_truthy(const greshunkel_tuple *tuple) {
 	return rc;
 }
 
+/* Finds the member a dotted name refers to, or NULL if there is none. */
+static const greshunkel_tuple *_find_sub_item(const greshunkel_ctext *ctext, const char *dotted_name) {
+	const char *sub_item_name = strchr(dotted_name, '.');
+	if (sub_item_name == NULL)
+		return NULL;
+
+	char *sub_context_name = strndup(dotted_name, sub_item_name - dotted_name);
+	assert(sub_context_name != NULL);
+	const greshunkel_tuple *tuple = find_needle(ctext, sub_context_name, 1);
+	free(sub_context_name);
+	if (tuple == NULL || tuple->type != GSHKL_SUBCTEXT)
+		return NULL;
+
+	const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
+	unsigned int i;
+	for (i = 0; i < sub_ctext->values->count; i++) {
+		const greshunkel_tuple *sub_tuple = vector_get(sub_ctext->values, i);
+		if (strcmp(sub_tuple->name, sub_item_name + strlen(".")) == 0)
+			return sub_tuple;
+	}
+	return NULL;
+}
+
 static line
 _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t *num_read, const struct compiled_regex *all_regex) {
 	line to_return = {0};
@@ -825,34 +848,11 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		/* TODO: Support a boolean type. */
 		/*if (!((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_BOOL)) { */
 		const greshunkel_tuple *tuple = NULL;
-		char *sub_ctext_match = NULL;
 		int should_render = 0;
 		if ((tuple = find_needle(ctext, just_match_str, 1))) {
-			if (_is_truthy(tuple)) {
-				should_render = 1;
-			}
-		} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
-			/* TODO: Check sub-context. */
-			char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-			char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-			memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-			memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
-
-			if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
-				const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-
-				unsigned int i;
-				for (i = 0; i < sub_ctext->values->count; i++) {
-					const greshunkel_tuple *sub_tuple = vector_get(sub_ctext->values, i);
-					const char *_name = sub_tuple->name;
-					const size_t larger = strlen(_name) > strlen(sub_item_name) ?
-							strlen(_name) : strlen(sub_item_name);
-
-					if (strncmp(_name, sub_item_name, larger) == 0 && _is_falsey(sub_tuple)) {
-							should_render = 1;
-					}
-				}
-			}
+			should_render = _is_truthy(tuple);
+		} else if ((tuple = _find_sub_item(ctext, just_match_str))) {
+			should_render = _is_falsey(tuple);
 		}
 
 		if (should_render) {
@@ -904,62 +904,13 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 		/* TODO: Support a boolean type. */
 		/*if (!((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_BOOL)) */
 		const greshunkel_tuple *tuple = NULL;
-		char *sub_ctext_match = NULL;
 		int should_render = 0;
-		if (!(tuple = find_needle(ctext, just_match_str, 1))) {
-			if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
-				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
-
-				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
-					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-
-					unsigned int i;
-					for (i = 0; i < sub_ctext->values->count; i++) {
-						const greshunkel_tuple *sub_tuple = vector_get(sub_ctext->values, i);
-						const char *_name = sub_tuple->name;
-						const size_t larger = strlen(_name) > strlen(sub_item_name) ?
-								strlen(_name) : strlen(sub_item_name);
-
-						if (strncmp(_name, sub_item_name, larger) == 0 &&
-							_is_truthy(sub_tuple)) {
-								should_render = 1;
-						}
-					}
-				}
-			} else {
-				should_render = 1;
-			}
+		if ((tuple = find_needle(ctext, just_match_str, 1))) {
+			should_render = _is_falsey(tuple);
+		} else if ((tuple = _find_sub_item(ctext, just_match_str))) {
+			should_render = _is_truthy(tuple);
 		} else {
-			if (_is_falsey(tuple)) {
-				should_render = 1;
-			} else if ((sub_ctext_match = strchr(just_match_str, '.')) != NULL) {
-				/* TODO: Check sub-context. */
-				char sub_context_name[MAX_GSHKL_STR_SIZE] = {0};
-				char sub_item_name[MAX_GSHKL_STR_SIZE] = {0};
-				memcpy(sub_context_name, just_match_str, sub_ctext_match - just_match_str);
-				memcpy(sub_item_name, sub_ctext_match + strlen("."), conditional_variable.len - strlen(sub_context_name) + strlen("."));
-
-				if ((tuple = find_needle(ctext, sub_context_name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
-					const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-
-					unsigned int i;
-					for (i = 0; i < sub_ctext->values->count; i++) {
-						const greshunkel_tuple *sub_tuple = vector_get(sub_ctext->values, i);
-						const char *_name = sub_tuple->name;
-						const size_t larger = strlen(_name) > strlen(sub_item_name) ?
-								strlen(_name) : strlen(sub_item_name);
-
-						if (strncmp(_name, sub_item_name, larger) == 0 &&
-							_is_truthy(sub_tuple)) {
-								should_render = 1;
-						}
-					}
-				}
-			}
+			should_render = strchr(just_match_str, '.') == NULL;
 		}
 
 		if (should_render) {
-- 
2.43.0


From 10cb01bb8ca01f54634fda403c7ed1fe545b2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:05 +0000
Subject: [PATCH 33/50] fix: UNLESS bodies were treated as one long line

Loops and includes inside them were not rendered, or replaced the whole body.
---
 src/greshunkel.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index 150b70c..b137784 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -918,8 +918,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			to_render_line.data = strndup(conditional_meat.start, conditional_meat.len);
 			to_render_line.size = conditional_meat.len;
 
-			/* TODO: This should use gshkl_render. See _interpolate_loop */
-			line rendered_piece = _interpolate_line(ctext, to_render_line, all_regex);
+			line rendered_piece = _render(ctext, to_render_line.data, all_regex);
 
 			const size_t old_size = to_return.size;
 			to_return.size += rendered_piece.size;
@@ -930,8 +929,7 @@ _interpolate_conditionals(const greshunkel_ctext *ctext, const char *buf, size_t
 			}
 
 			memcpy(to_return.data + old_size, rendered_piece.data, rendered_piece.size);
-			if (rendered_piece.data != to_render_line.data)
-				free(rendered_piece.data);
+			free(rendered_piece.data);
 			free(to_render_line.data);
 		}
 	}
-- 
2.43.0


From 551503e4e34aeee997c9d6151a1e185da312c79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:17 +0000
Subject: [PATCH 34/50] fix: values that look like variables were expanded
 again

A value mentioning its own variable made rendering go on forever.
---
 src/greshunkel.c | 129 ++++++++++++++++++-----------------------------
 1 file changed, 49 insertions(+), 80 deletions(-)

diff --git a/src/greshunkel.c b/src/greshunkel.c
index b137784..b753481 100644
--- a/src/greshunkel.c
+++ b/src/greshunkel.c
@@ -14,7 +14,6 @@
 /* Compiled regex vars. */
 struct compiled_regex {
 	regex_t c_var_regex;
-	regex_t c_cvar_regex;
 	regex_t c_loop_regex;
 	regex_t c_filter_regex;
 	regex_t c_filter_no_args_regex;
@@ -38,8 +37,7 @@ typedef struct _match {
 	const char *start;
 } match_t;
 
-static const char variable_regex[] = "xXx @([a-zA-Z_0-9]+) xXx";
-static const char ctext_variable_regex[] = "xXx @([a-zA-Z_0-9]+)\\.([a-zA-Z_0-9]+) xXx";
+static const char variable_regex[] = "xXx @([a-zA-Z_0-9]+)(\\.([a-zA-Z_0-9]+))? xXx";
 static const char loop_regex[] = "^\\s*xXx LOOP ([a-zA-Z_]+) ([a-zA-Z_]+) xXx(.*)xXx BBL xXx";
 static const char filter_regex[] = "XxX ([a-zA-Z_0-9]+)(\\s)";
 static const char filter_regex_no_args[] = "XxX ([a-zA-Z_0-9]+) XxX";
@@ -460,77 +458,45 @@ _filter_line(const greshunkel_ctext *ctext, const line *current_line, const stru
 	return *operating_line;
 }
 
-static line
-_interpolate_line_subcontext(const greshunkel_ctext *ctext, const line current_line, const struct compiled_regex *all_regex) {
-	/* Matches context-based variables, which are dictionary-like. */
-	line interpolated_line = {0};
-	line new_line_to_add = {0};
-	const line *operating_line = &current_line;
+/* Returns the text of a member of a sub-context, which are dictionary-like. */
+static const char *
+_find_subcontext_value(const greshunkel_ctext *ctext, const char *name, const match_t subname_match, const line *operating_line) {
+	const greshunkel_tuple *tuple;
 
-	match_t cvar_match[3];
-	while (regexec_2_0_beta(&all_regex->c_cvar_regex, operating_line->data, 3, cvar_match) == 0) {
-		const match_t inner_match = cvar_match[1];
-		const match_t subname_match = cvar_match[2];
-		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
-		assert(subname_match.rm_so != -1 && subname_match.rm_eo != -1);
+	/* So here we search for a sub context instead of a string. */
+	if ((tuple = find_needle(ctext, name, 1)) && tuple->type == GSHKL_SUBCTEXT) {
+		const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
 
-		const greshunkel_tuple *tuple;
-		char just_match_str[inner_match.len + 1];
-		just_match_str[inner_match.len] = '\0';
-		strncpy(just_match_str, inner_match.start, inner_match.len);
+		char just_subname_match_str[subname_match.len + 1];
+		just_subname_match_str[subname_match.len] = '\0';
+		strncpy(just_subname_match_str, subname_match.start, subname_match.len);
 
-		/* So here we search for a sub context instead of a string. */
-		if ((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_SUBCTEXT) {
-			const greshunkel_ctext *sub_ctext = tuple->value.sub_ctext;
-
-			char just_subname_match_str[subname_match.len + 1];
-			just_subname_match_str[subname_match.len] = '\0';
-			strncpy(just_subname_match_str, subname_match.start, subname_match.len);
-			/* So now we need to:
-			 * 1. Loop through the subcontext's values searching for subname_match
-			 * 2. Inteprolate using that value.
-			 */
-
-			unsigned int i;
-			for (i = 0; i < sub_ctext->values->count; i++) {
-				const greshunkel_tuple *sub_tuple = vector_get(sub_ctext->values, i);
-				const char *_name = sub_tuple->name;
-				const size_t larger = strlen(_name) > strlen(just_subname_match_str) ?
-						strlen(_name) : strlen(just_subname_match_str);
-
-				if (strncmp(_name, just_subname_match_str, larger) == 0) {
-					/* TODO: Only works on strings. */
-					assert(sub_tuple->type == GSHKL_STR);
-					vishnu(&new_line_to_add, cvar_match[0], sub_tuple->value.str, operating_line);
-					goto done;
-				}
+		unsigned int i;
+		for (i = 0; i < sub_ctext->values->count; i++) {
+			const greshunkel_tuple *sub_tuple = vector_get(sub_ctext->values, i);
+			const char *_name = sub_tuple->name;
+			const size_t larger = strlen(_name) > strlen(just_subname_match_str) ?
+					strlen(_name) : strlen(just_subname_match_str);
+
+			if (strncmp(_name, just_subname_match_str, larger) == 0) {
+				/* TODO: Only works on strings. */
+				assert(sub_tuple->type == GSHKL_STR);
+				return sub_tuple->value.str;
 			}
-
-			/* Blow up if we had a variable that wasn't in the context. */
-			printf("Did not match a sub-context variable that needed to be matched, or variable was None/NULL/0).\n");
-			printf("Line: %s\n", operating_line->data);
-			assert(1 == 0);
-		} else {
-			/* Blow up if we had a variable that wasn't in the context. */
-			printf("Did not match a cvariable that needed to be matched.\n");
-			printf("Line: %s\n", operating_line->data);
-			assert(tuple != NULL);
-			assert(tuple->type == GSHKL_SUBCTEXT);
 		}
 
-done:
-		free(interpolated_line.data);
-		interpolated_line.size = new_line_to_add.size;
-		interpolated_line.data = new_line_to_add.data;
-		new_line_to_add.size = 0;
-		new_line_to_add.data = NULL;
-		operating_line = &interpolated_line;
-
-		/* Set the next regex check after this one. */
-		memset(cvar_match, 0, sizeof(cvar_match));
+		/* Blow up if we had a variable that wasn't in the context. */
+		printf("Did not match a sub-context variable that needed to be matched, or variable was None/NULL/0).\n");
+		printf("Line: %s\n", operating_line->data);
+		assert(1 == 0);
+	} else {
+		/* Blow up if we had a variable that wasn't in the context. */
+		printf("Did not match a cvariable that needed to be matched.\n");
+		printf("Line: %s\n", operating_line->data);
+		assert(tuple != NULL);
+		assert(tuple->type == GSHKL_SUBCTEXT);
 	}
-
-	return (*operating_line);
+	return NULL;
 }
 
 static line
@@ -592,26 +558,27 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 	line interpolated_line = {0};
 	line new_line_to_add = {0};
 
-	/* Do context variables first: */
-	const line _operating_line = _interpolate_line_subcontext(ctext, current_line, all_regex);
-	const line *operating_line = &_operating_line;
-	if (_operating_line.data != current_line.data)
-		interpolated_line = _operating_line;
+	const line *operating_line = &current_line;
 	assert(operating_line->data != NULL);
 
-	match_t match[2] = {0};
-	while (regexec_2_0_beta(&all_regex->c_var_regex, operating_line->data, 2, match) == 0) {
+	/* The values we put in are not searched for more variables. */
+	size_t searched = 0;
+	match_t match[4] = {0};
+	while (regexec_2_0_beta(&all_regex->c_var_regex, operating_line->data + searched, 4, match) == 0) {
 		const match_t inner_match = match[1];
 		assert(inner_match.rm_so != -1 && inner_match.rm_eo != -1);
 
 		const greshunkel_tuple *tuple;
+		const char *value = NULL;
 		/* Copy the string here so we only get the match, not everything after it. */
 		char just_match_str[inner_match.len + 1];
 		just_match_str[inner_match.len] = '\0';
 		strncpy(just_match_str, inner_match.start, inner_match.len);
 
-		if ((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_STR) {
-			vishnu(&new_line_to_add, match[0], tuple->value.str, operating_line);
+		if (match[3].rm_so != -1) {
+			value = _find_subcontext_value(ctext, just_match_str, match[3], operating_line);
+		} else if ((tuple = find_needle(ctext, just_match_str, 1)) && tuple->type == GSHKL_STR) {
+			value = tuple->value.str;
 		} else {
 			/* Blow up if we had a variable that wasn't in the context. */
 			printf("Did not match a variable that needed to be matched.\n");
@@ -620,6 +587,12 @@ _interpolate_line(const greshunkel_ctext *ctext, const line current_line, const
 			assert(tuple->type == GSHKL_STR);
 		}
 
+		match_t whole_match = match[0];
+		whole_match.rm_so += searched;
+		whole_match.rm_eo += searched;
+		vishnu(&new_line_to_add, whole_match, value, operating_line);
+		searched = whole_match.rm_so + strlen(value);
+
 		free(interpolated_line.data);
 		interpolated_line.size = new_line_to_add.size;
 		interpolated_line.data = new_line_to_add.data;
@@ -942,9 +915,6 @@ static inline void _compile_regex(struct compiled_regex *all_regex) {
 	int reti = regcomp(&all_regex->c_var_regex, variable_regex, REG_EXTENDED);
 	assert(reti == 0);
 
-	reti = regcomp(&all_regex->c_cvar_regex, ctext_variable_regex, REG_EXTENDED);
-	assert(reti == 0);
-
 	reti = regcomp(&all_regex->c_loop_regex, loop_regex, REG_EXTENDED);
 	assert(reti == 0);
 
@@ -966,7 +936,6 @@ static inline void _compile_regex(struct compiled_regex *all_regex) {
 
 static inline void _destroy_regex(struct compiled_regex *all_regex) {
 	regfree(&all_regex->c_var_regex);
-	regfree(&all_regex->c_cvar_regex);
 	regfree(&all_regex->c_loop_regex);
 	regfree(&all_regex->c_filter_regex);
 	regfree(&all_regex->c_filter_no_args_regex);
-- 
2.43.0


From 0f738478ab5ab515c3b531e94af61ad0dc8beec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 35/50] fix: the responder waited forever for room in its own
 queue

---
 src/server.c | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/server.c b/src/server.c
index 063c4d9..efd5624 100644
--- a/src/server.c
+++ b/src/server.c
@@ -111,14 +111,18 @@ static void *responder(void *arg) {
 		} else if (req == NULL) {
 			m38_log_msg(LOG_ERR, "Responder: Got bogus request from queue.");
 		} else {
-			m38_handled_request *new_req = m38_send_response(req);
-			if (new_req != NULL) {
-				ssize_t msg_size = mq_send(handled_queue, (char *)&new_req, sizeof(m38_handled_request *), 0);
-				if (msg_size == -1)
-					m38_log_msg(LOG_ERR, "Responder: Could not enqueue handled response.");
-			} else {
-				m38_log_msg(LOG_FUN, "Responder: Response sent.");
+			/* Whatever is not finished goes to the end of the line. If there is no room
+			 * in the line it's carried on with: we're the only one who makes room in it,
+			 * so waiting for some would be waiting forever.
+			 */
+			static const struct timespec dont_wait = {0};
+			while ((req = m38_send_response(req)) != NULL) {
+				if (mq_timedsend(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0, &dont_wait) == 0)
+					break;
 			}
+
+			if (req == NULL)
+				m38_log_msg(LOG_FUN, "Responder: Response sent.");
 		}
 	}
 
-- 
2.43.0


From 65241ebfbdd684438d866d30f40f2a49ed43bf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 36/50] fix: connections without a response were never closed

---
 src/server.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index efd5624..33df031 100644
--- a/src/server.c
+++ b/src/server.c
@@ -166,9 +166,12 @@ static void *handler(void *arg) {
 			m38_log_msg(LOG_FUN, "Worker %i: Handling response.", worker_ident);
 			m38_handled_request *req = m38_generate_response(new_fd, app);
 
-			ssize_t msg_size = mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0);
-			if (msg_size == -1)
+			if (req == NULL) {
+				/* There is nothing to send, and nobody else knows about this connection. */
+				close(new_fd);
+			} else if (mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0) == -1) {
 				m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+			}
 		}
 
 		struct mq_attr attr = {0};
-- 
2.43.0


From a3f28497c7dfe616cdc2fc22e999c28259613b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 37/50] fix: responses that could not be enqueued were lost

---
 src/server.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.c b/src/server.c
index 33df031..8cfe215 100644
--- a/src/server.c
+++ b/src/server.c
@@ -171,6 +171,8 @@ static void *handler(void *arg) {
 				close(new_fd);
 			} else if (mq_send(handled_queue, (char *)&req, sizeof(m38_handled_request *), 0) == -1) {
 				m38_log_msg(LOG_ERR, "Worker %i: Could not enqueue handled response.", worker_ident);
+				while (req != NULL)
+					req = m38_send_response(req);
 			}
 		}
 
-- 
2.43.0


From bf346d35d9fbc444a6debdd5eca4b8c2905a867d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 38/50] fix: the first failed accept() stopped the server

---
 src/server.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 8cfe215..2f4e544 100644
--- a/src/server.c
+++ b/src/server.c
@@ -5,6 +5,7 @@
 #include <arpa/inet.h>
 #include <assert.h>
 #include <dirent.h>
+#include <errno.h>
 #include <fcntl.h>
 #include <mqueue.h>
 #include <netdb.h>
@@ -74,8 +75,24 @@ static void *acceptor(void *arg) {
 		int new_fd = accept(main_sock_fd, (struct sockaddr *)&their_addr, &sin_size);
 
 		if (new_fd == -1) {
+			const int accept_errno = errno;
 			m38_log_msg(LOG_ERR, "Acceptor: Could not accept new connection.");
-			return NULL;
+			switch (accept_errno) {
+				case EBADF:
+				case EFAULT:
+				case EINVAL:
+				case ENOTSOCK:
+				case EOPNOTSUPP:
+					/* There is no listening socket anymore. */
+					return NULL;
+				case EMFILE:
+				case ENFILE:
+				case ENOBUFS:
+				case ENOMEM:
+					/* Give the connections we have some time to finish. */
+					usleep(10000);
+			}
+			continue;
 		}
 
 		ssize_t msg_size = mq_send(accepted_socket_queue, (char *)&new_fd, sizeof(int), 0);
-- 
2.43.0


From 49943228055d1a1cfe21059a3a6b19c2fe6df542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 39/50] fix: signals stopped workers and the responder

---
 src/server.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/server.c b/src/server.c
index 2f4e544..107a67c 100644
--- a/src/server.c
+++ b/src/server.c
@@ -121,7 +121,9 @@ static void *responder(void *arg) {
 		m38_handled_request *req = NULL;
 		ssize_t msg_size = mq_receive(handled_queue, (char *)&req, sizeof(m38_handled_request *), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Responder: Could not read from handled_queue.");
 			perror("Responder: ");
 			break;
@@ -173,7 +175,9 @@ static void *handler(void *arg) {
 		int new_fd = 0;
 		ssize_t msg_size = mq_receive(accepted_socket_queue, (char *)&new_fd, sizeof(int), NULL);
 
-		if (msg_size == -1) {
+		if (msg_size == -1 && errno == EINTR) {
+			continue;
+		} else if (msg_size == -1) {
 			m38_log_msg(LOG_ERR, "Worker %i: Could not read from accepted_socket_queue.", worker_ident);
 			break;
 		} else if (new_fd == -1) {
-- 
2.43.0


From 9c29829a93e34e0fb2c2e45db0e8157948dc6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 40/50] fix: startup ignored that the handled queue could not
 be created

---
 src/server.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/server.c b/src/server.c
index 107a67c..5b0f937 100644
--- a/src/server.c
+++ b/src/server.c
@@ -282,7 +282,7 @@ int m38_http_serve(m38_app *app) {
 	}
 
 	po_handled_queue = _open_queue(HANDLED_CONNECTION_QUEUE_NAME, O_RDWR | O_CREAT, sizeof(m38_handled_request *));
-	if (po_accepted_queue == -1) {
+	if (po_handled_queue == -1) {
 		m38_log_msg(LOG_ERR, "Could not preopen handled socket queue..");
 		perror("Main Thread");
 		goto error;
-- 
2.43.0


From a135d69de363c028a8473805c5d1ed8afc8067b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 41/50] fix: workers read their arguments from a variable that
 was gone

---
 src/server.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/server.c b/src/server.c
index 5b0f937..94da537 100644
--- a/src/server.c
+++ b/src/server.c
@@ -252,6 +252,7 @@ int m38_http_serve(m38_app *app) {
 	mqd_t po_handled_queue = -1;
 	/* Handlers take accepted sockets and turn them into responses: */
 	pthread_t handlers[app->num_threads];
+	handler_arg handler_args[app->num_threads];
 	/* The responder is responsible for sending bytes back over the wire: */
 	pthread_t responder_worker;
 	/* The acceptor listens and accepts new connections, and enqueues them: */
@@ -308,11 +309,9 @@ int m38_http_serve(m38_app *app) {
 
 	int i;
 	for (i = 0; i < app->num_threads; i++) {
-		handler_arg args = {
-			.app = app,
-			.worker_ident = i
-		};
-		if (pthread_create(&handlers[i], NULL, handler, &args) != 0) {
+		/* The worker reads this whenever it gets around to it. */
+		memcpy(&handler_args[i], &(handler_arg){ .app = app, .worker_ident = i }, sizeof(handler_arg));
+		if (pthread_create(&handlers[i], NULL, handler, &handler_args[i]) != 0) {
 			goto error;
 		}
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
-- 
2.43.0


From adcacea2d520c32f79581bc987aff5fdd2d03a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:19 +0000
Subject: [PATCH 42/50] fix: failed startups left threads and the listening
 socket behind

---
 src/server.c | 47 ++++++++++++++++++++++++++++++++---------------
 1 file changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/server.c b/src/server.c
index 94da537..bbea56b 100644
--- a/src/server.c
+++ b/src/server.c
@@ -214,7 +214,7 @@ static void *handler(void *arg) {
 static inline int create_socket(const int port) {
 	int rc = -1;
 	int sock_fd = socket(PF_INET, SOCK_STREAM, 0);
-	if (sock_fd <= 0) {
+	if (sock_fd < 0) {
 		m38_log_msg(LOG_ERR, "Could not create main socket.");
 		goto error;
 	}
@@ -243,7 +243,8 @@ static inline int create_socket(const int port) {
 	return sock_fd;
 
 error:
-	close(sock_fd);
+	if (sock_fd >= 0)
+		close(sock_fd);
 	return -1;
 }
 
@@ -257,6 +258,8 @@ int m38_http_serve(m38_app *app) {
 	pthread_t responder_worker;
 	/* The acceptor listens and accepts new connections, and enqueues them: */
 	pthread_t acceptor_enqueuer;
+	int responder_started = 0;
+	int num_started = 0;
 
 	int *main_sock_fd = app->main_sock_fd;
 	*main_sock_fd = create_socket(app->port);
@@ -293,17 +296,11 @@ int m38_http_serve(m38_app *app) {
 		.main_sock_fd = *main_sock_fd,
 	};
 
-	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, &args) != 0) {
-		m38_log_msg(LOG_ERR, "Could not start acceptor thread.");
-		goto error;
-	}
-
-	m38_log_msg(LOG_INFO, "Acceptor thread started.");
-
 	if (pthread_create(&responder_worker, NULL, responder, NULL) != 0) {
 		m38_log_msg(LOG_ERR, "Could not start responder thread.");
 		goto error;
 	}
+	responder_started = 1;
 
 	m38_log_msg(LOG_INFO, "Responder thread started.");
 
@@ -314,18 +311,23 @@ int m38_http_serve(m38_app *app) {
 		if (pthread_create(&handlers[i], NULL, handler, &handler_args[i]) != 0) {
 			goto error;
 		}
+		num_started++;
 		m38_log_msg(LOG_INFO, "Worker thread %i started.", i);
 	}
 
-	if (mq_close(po_accepted_queue) == -1) {
-		m38_log_msg(LOG_ERR, "Main thread: Could not close accepted queue.");
+	/* Nobody can connect until everything else is up and running. */
+	if (pthread_create(&acceptor_enqueuer, NULL, acceptor, &args) != 0) {
+		m38_log_msg(LOG_ERR, "Could not start acceptor thread.");
 		goto error;
 	}
 
-	if (mq_close(po_handled_queue) == -1) {
+	m38_log_msg(LOG_INFO, "Acceptor thread started.");
+
+	if (mq_close(po_accepted_queue) == -1)
+		m38_log_msg(LOG_ERR, "Main thread: Could not close accepted queue.");
+
+	if (mq_close(po_handled_queue) == -1)
 		m38_log_msg(LOG_ERR, "Main thread: Could not close handled queue.");
-		goto error;
-	}
 
 	for (i = 0; i < app->num_threads; i++) {
 		pthread_join(handlers[i], NULL);
@@ -339,7 +341,22 @@ int m38_http_serve(m38_app *app) {
 
 error:
 	perror("Server error");
-	close(*main_sock_fd);
+	/* Nothing was accepted yet, so they are all waiting for something to do. */
+	while (num_started > 0) {
+		num_started--;
+		pthread_cancel(handlers[num_started]);
+		pthread_join(handlers[num_started], NULL);
+	}
+	if (responder_started) {
+		pthread_cancel(responder_worker);
+		pthread_join(responder_worker, NULL);
+	}
+	if (po_accepted_queue != -1)
+		mq_close(po_accepted_queue);
+	if (po_handled_queue != -1)
+		mq_close(po_handled_queue);
+	if (*main_sock_fd >= 0)
+		close(*main_sock_fd);
 	return -1;
 }
 
-- 
2.43.0


From e7366b2b81080f5f81cb7a28ee59fee97a0b66bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 43/50] fix: the Python binding cut context pointers to 32 bits

---
 python/greshunkel.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index e8f1a3c..a000212 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -18,7 +18,12 @@ lib38moths.gshkl_add_array.argtypes = [c_void_p, c_char_p]
 lib38moths.gshkl_add_array.restype = greshunkel_var
 lib38moths.gshkl_add_string_to_loop.argtypes = [POINTER(greshunkel_var), c_char_p]
 lib38moths.gshkl_add_int_to_loop.argtypes = [POINTER(greshunkel_var), c_int]
+lib38moths.gshkl_add_string.argtypes = [c_void_p, c_char_p, c_char_p]
+lib38moths.gshkl_add_int.argtypes = [c_void_p, c_char_p, c_int]
+lib38moths.gshkl_add_sub_context.argtypes = [c_void_p, c_char_p, c_void_p]
+lib38moths.gshkl_add_sub_context_to_loop.argtypes = [POINTER(greshunkel_var), c_void_p]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
+lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, POINTER(c_size_t)]
 lib38moths.gshkl_render.restype = c_char_p
 
 def _add_item_to_greshunkel_loop(ctext, loop, value):
@@ -40,7 +45,7 @@ def _add_item_to_greshunkel_context(ctext, key, value):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
-        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), c_size_t(value))
+        lib38moths.gshkl_add_int(ctext, c_char_p(key.encode()), value)
     elif isinstance(value, list):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
-- 
2.43.0


From 923ff0c47f1597a7ae7964e4a9fb0e0e2e36c50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:21 +0000
Subject: [PATCH 44/50] fix: the Python binding lost the end of templates that
 are not ASCII

---
 python/greshunkel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index a000212..8bed687 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -70,6 +70,6 @@ class Template(object):
         self.template = template
 
     def render(self, context):
-        template_c_string = c_char_p(self.template.encode())
-        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_c_string, len(self.template), None)
+        template_bytes = self.template.encode()
+        ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_bytes, len(template_bytes), None)
         return ret_c_str.decode()
-- 
2.43.0


From 39162f6472ab2fad6e5be152789499ffdbb453dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 45/50] fix: the Python binding let filters be freed while
 contexts still used them

---
 python/greshunkel.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index 8bed687..b629f46 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -26,7 +26,7 @@ lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_v
 lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, POINTER(c_size_t)]
 lib38moths.gshkl_render.restype = c_char_p
 
-def _add_item_to_greshunkel_loop(ctext, loop, value):
+def _add_item_to_greshunkel_loop(loop, value, filters):
     if isinstance(value, str):
         lib38moths.gshkl_add_string_to_loop(byref(loop), c_char_p(value.encode()))
     elif isinstance(value, int):
@@ -39,9 +39,9 @@ def _add_item_to_greshunkel_loop(ctext, loop, value):
         sub_ctext = lib38moths.gshkl_init_context()
         lib38moths.gshkl_add_sub_context_to_loop(byref(loop), sub_ctext)
         for sub_key, sub_value in value.items():
-            _add_item_to_greshunkel_context(sub_ctext, sub_key, sub_value)
+            _add_item_to_greshunkel_context(sub_ctext, sub_key, sub_value, filters)
 
-def _add_item_to_greshunkel_context(ctext, key, value):
+def _add_item_to_greshunkel_context(ctext, key, value, filters):
     if isinstance(value, str):
         lib38moths.gshkl_add_string(ctext, c_char_p(key.encode()), c_char_p(value.encode()))
     elif isinstance(value, int):
@@ -50,20 +50,23 @@ def _add_item_to_greshunkel_context(ctext, key, value):
         converted_key = c_char_p(key.encode())
         new_loop = lib38moths.gshkl_add_array(ctext, converted_key)
         for subitem in value:
-            _add_item_to_greshunkel_loop(ctext, new_loop, subitem)
+            _add_item_to_greshunkel_loop(new_loop, subitem, filters)
     elif hasattr(value, '__call__'):
+        filters.append(value)
         lib38moths.gshkl_add_filter(ctext, c_char_p(key.encode()), value, None)
     elif isinstance(value, dict):
         sub_ctext = lib38moths.gshkl_init_context()
         lib38moths.gshkl_add_sub_context(ctext, c_char_p(key.encode()), sub_ctext)
         for sub_key, sub_value in value.items():
-            _add_item_to_greshunkel_context(sub_ctext, sub_key, sub_value)
+            _add_item_to_greshunkel_context(sub_ctext, sub_key, sub_value, filters)
 
 class Context(object):
     def __init__(self, context_dict):
+        # The C side only holds pointers to the filters, so keep them alive.
+        self.filters = []
         self.gshkl_ctext = lib38moths.gshkl_init_context()
         for key, value in context_dict.items():
-            _add_item_to_greshunkel_context(self.gshkl_ctext, key, value)
+            _add_item_to_greshunkel_context(self.gshkl_ctext, key, value, self.filters)
 
 class Template(object):
     def __init__(self, template):
-- 
2.43.0


From 4bb9c305478cc217dc8f88359551d5f9b179cded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:53 +0000
Subject: [PATCH 46/50] fix: the Python binding never freed contexts and
 rendered text

---
 python/greshunkel.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/greshunkel.py b/python/greshunkel.py
index b629f46..7190239 100644
--- a/python/greshunkel.py
+++ b/python/greshunkel.py
@@ -1,6 +1,6 @@
 from ctypes import cdll, c_char_p, c_size_t, c_void_p, Union,\
                    LittleEndianStructure, c_char, POINTER,\
-                   c_int, byref, CFUNCTYPE, create_string_buffer
+                   c_int, byref, CFUNCTYPE, create_string_buffer, string_at
 
 class greshunkel_var(Union):
     _fields_ = [
@@ -24,7 +24,11 @@ lib38moths.gshkl_add_sub_context.argtypes = [c_void_p, c_char_p, c_void_p]
 lib38moths.gshkl_add_sub_context_to_loop.argtypes = [POINTER(greshunkel_var), c_void_p]
 lib38moths.gshkl_add_filter.argtypes = [c_void_p, c_char_p, GshklFilterFunc, c_void_p]
 lib38moths.gshkl_render.argtypes = [c_void_p, c_char_p, c_size_t, POINTER(c_size_t)]
-lib38moths.gshkl_render.restype = c_char_p
+lib38moths.gshkl_render.restype = c_void_p
+lib38moths.gshkl_filter_cleanup.argtypes = [c_void_p]
+lib38moths.gshkl_filter_cleanup.restype = None
+lib38moths.gshkl_free_context.argtypes = [c_void_p]
+lib38moths.gshkl_free_context.restype = None
 
 def _add_item_to_greshunkel_loop(loop, value, filters):
     if isinstance(value, str):
@@ -68,6 +72,10 @@ class Context(object):
         for key, value in context_dict.items():
             _add_item_to_greshunkel_context(self.gshkl_ctext, key, value, self.filters)
 
+    def __del__(self, free_context=lib38moths.gshkl_free_context):
+        if getattr(self, "gshkl_ctext", None) is not None:
+            free_context(self.gshkl_ctext)
+
 class Template(object):
     def __init__(self, template):
         self.template = template
@@ -75,4 +83,6 @@ class Template(object):
     def render(self, context):
         template_bytes = self.template.encode()
         ret_c_str = lib38moths.gshkl_render(context.gshkl_ctext, template_bytes, len(template_bytes), None)
-        return ret_c_str.decode()
+        rendered = string_at(ret_c_str)
+        lib38moths.gshkl_filter_cleanup(ret_c_str)
+        return rendered.decode()
-- 
2.43.0


From 7cb3c93396c265239a78ae6db0951dacac822138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 47/50] fix: headers with NUL bytes were read past their copy

---
 src/parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/parse.c b/src/parse.c
index 6cf17db..aa8417a 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -176,6 +176,10 @@ int m38_parse_request(const unsigned char *to_read, const size_t num_read, m38_h
 		goto error;
 	}
 
+	/* full_header is a string, and there is no place for a NUL in a header anyway. */
+	if (memchr(to_read, '\0', header_length) != NULL)
+		goto error;
+
 	out->full_header = strndup((char *)to_read, header_length);
 	out->header_len = header_length;
 
-- 
2.43.0


From 031f89383fbfec5bde13c20e611885ec0d2ad42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:59 +0000
Subject: [PATCH 48/50] fix: serving a FIFO waited forever for somebody to
 write to it

---
 src/grengine.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/grengine.c b/src/grengine.c
index 14fa682..8f6828b 100644
--- a/src/grengine.c
+++ b/src/grengine.c
@@ -192,7 +192,8 @@ static int mmap_file_ol(const char *file_path, m38_http_response *response,
 		response->extra_data = NULL;
 		return 404;
 	}
-	int fd = open(file_path, O_RDONLY);
+	/* Nobody may ever write to it if it's a FIFO, so don't wait for that. */
+	int fd = open(file_path, O_RDONLY | O_NONBLOCK);
 	if (fd < 0) {
 		response->out = (unsigned char *)"<html><body><p>Could not open file.</p></body></html>";
 		response->outsize= strlen("<html><body><p>could not open file.</p></body></html>");
-- 
2.43.0


From a1fd78da679e9275a7ea2f69f70504ff8f3c9c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:43 +0000
Subject: [PATCH 49/50] fix: a NUL byte in a form hid all fields after it

---
 src/parse.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/parse.c b/src/parse.c
index aa8417a..b9a52a8 100644
--- a/src/parse.c
+++ b/src/parse.c
@@ -234,8 +234,8 @@ int m38_parse_body(const size_t received_body_len,
 int m38_parse_form_encoded_body(m38_http_request *request) {
 	struct sparse_dict *new_dict = NULL;
 	char *potential_kv_pair = NULL;
-	/* strsep() eats what it splits, so work on a copy. */
-	char *duplicated_body = strndup((char *)request->full_body, request->body_len);
+	/* What gets split gets NULs, so work on a copy. */
+	char *duplicated_body = (char *)copy_body((char *)request->full_body, request->body_len);
 	if (!duplicated_body) {
 		goto err;
 	}
@@ -245,12 +245,19 @@ int m38_parse_form_encoded_body(m38_http_request *request) {
 		goto err;
 	}
 
+	const char *body_end = duplicated_body + request->body_len;
 	char *to_split = duplicated_body;
-	while ((potential_kv_pair = strsep(&to_split, "&")) != NULL) {
+	while ((potential_kv_pair = to_split) != NULL) {
+		char *pair_end = memchr(potential_kv_pair, '&', body_end - potential_kv_pair);
+		const size_t pair_siz = (pair_end ? pair_end : body_end) - potential_kv_pair;
+		to_split = pair_end ? pair_end + 1 : NULL;
+		potential_kv_pair[pair_siz] = '\0';
+
 		char *key = potential_kv_pair;
 		char *value = strchr(potential_kv_pair, '=');
 
-		if (!value) {
+		/* A NUL has to be encoded. */
+		if (!value || strlen(potential_kv_pair) != pair_siz) {
 			continue;
 		}
 		*value++ = '\0';
-- 
2.43.0


From c4dd7fe0eb1bf087a9c37a91535a62fc208ff5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:18 +0000
Subject: [PATCH 50/50] fix: log calls made at the same time could get each
 other's time

localtime() keeps its result in one struct for the whole process; the
accept thread and the handler threads all log.
---
 src/logging.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/logging.c b/src/logging.c
index f73c16c..9d5d7bb 100644
--- a/src/logging.c
+++ b/src/logging.c
@@ -30,9 +30,10 @@ void m38_log_msg(log_level level, const char *fmsg, ...) {
 
 	/* Time stuff */
 	struct timeval timest;
+	struct tm tm;
 	gettimeofday(&timest, NULL);
 	strftime(buffer, sizeof(buffer), "%b %d %H:%M:%S",
-			localtime(&timest.tv_sec));
+			localtime_r(&timest.tv_sec, &tm));
 
 	switch (level) {
 		case LOG_INFO:
-- 
2.43.0

