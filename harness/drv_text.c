#define _GNU_SOURCE
#include <fcntl.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include "drv.h"
#include "parse.h"
#include "utils.h"
#include "logging.h"
#include "simple_sparsehash.h"

static void j_opt(const char *k, const char *kn, const char *s) {
	j_int(kn, s == NULL); j_bytes(k, s, s ? strlen(s) : 0);
}

/* hdr TEXT NAME : header lookup in a buffer that is not NUL-terminated */
static int c_hdr(int c, char **v) { (void)c;
	bytes t = unhex(v[1]), n = unhex_z(v[2]);
	size_t b0 = live_bytes();
	char *r = m38_get_header_value_raw((char *)t.p, t.n, (char *)n.p);
	ev_begin("hdr"); j_bytes("text", t.p, t.n); j_bytes("name", n.p, n.n); j_opt("val", "nil", r);
	free(r); j_int("delta", (long long)live_bytes() - (long long)b0); ev_end();
	/* through a request object */
	m38_http_request rq = { .full_header = (char *)t.p, .header_len = t.n };
	r = m38_get_header_value_request(&rq, (char *)n.p);
	ev_begin("hdr"); j_bytes("text", t.p, t.n); j_bytes("name", n.p, n.n); j_opt("val", "nil", r);
	free(r); j_int("delta", (long long)live_bytes() - (long long)b0); ev_end();
	freeb(t); freeb(n); return 0; }

/* cookie TEXT SIZE NAME */
static int c_cookie(int c, char **v) { (void)c;
	bytes t = unhex(v[1]), n = unhex_z(v[3]); size_t siz = atol(v[2]);
	size_t b0 = live_bytes();
	char *r = m38_get_cookie_value(t.null ? NULL : (char *)t.p, siz, (char *)n.p);
	ev_begin("cookie"); j_int("none", t.null); j_bytes("text", t.p, siz < t.n ? siz : t.n); j_bytes("name", n.p, n.n); j_opt("val", "nil", r);
	free(r); j_int("delta", (long long)live_bytes() - (long long)b0); ev_end();
	freeb(t); freeb(n); return 0; }

static int c_urldec(int c, char **v) { (void)c;
	bytes t = unhex_z(v[1]);
	unsigned char *d = malloc(t.n + 1);
	memset(d, 0xAA, t.n + 1);
	int r = m38_url_decode((char *)t.p, (char *)d);
	int r2 = m38_url_decode((char *)t.p, NULL);
	ev_begin("urldec"); j_bytes("text", t.p, t.n); j_int("ret", r); j_int("ret2", r2); j_bytes("buf", d, t.n + 1); ev_end();
	free(d); freeb(t); return 0; }

static int c_strnstr(int c, char **v) { (void)c;    /* HAY (exact, maybe unterminated) TERM NEEDLE LEN */
	int term = atoi(v[2]);
	bytes h = term ? unhex_z(v[1]) : unhex(v[1]), n = unhex_z(v[3]); size_t len = strtoul(v[4], NULL, 10);
	char *r = strnstr((char *)h.p, (char *)n.p, len);
	ev_begin("strnstr"); j_bytes("hay", h.p, h.n); j_bytes("needle", n.p, n.n); j_int("len", len > 100000 ? 100000 : (long long)len);
	j_int("pos", r ? (long long)(r - (char *)h.p) : -1); ev_end();
	freeb(h); freeb(n); return 0; }

static int c_endswith(int c, char **v) { (void)c;
	bytes a = unhex_z(v[1]), b = unhex_z(v[2]);
	int r = endswith((char *)a.p, (char *)b.p);
	ev_begin("endswith"); j_bytes("s", a.p, a.n); j_bytes("suf", b.p, b.n); j_int("ret", r); ev_end();
	freeb(a); freeb(b); return 0; }

static int c_fnv(int c, char **v) { (void)c;
	bytes a = unhex(v[1]); char *o = malloc(HASH_STR_SIZE); memset(o, 0x7e, HASH_STR_SIZE);
	int r = hash_string_fnv1a(a.p, a.n, o);
	ev_begin("fnv"); j_bytes("s", a.p, a.n); j_int("ret", r); j_bytes("out", o, strnlen(o, HASH_STR_SIZE)); j_int("term", memchr(o, 0, HASH_STR_SIZE) != NULL); ev_end();
	free(o); freeb(a); return 0; }

/* finfo KIND SIZE MTIME : file helpers on a file of that size (KIND 0), a missing file (1), a directory (2) */
static int c_finfo(int c, char **v) { (void)c;
	char path[] = "/tmp/38vXXXXXX"; int kind = atoi(v[1]); long sz = atol(v[2]), mt = atol(v[3]);
	int fd = mkstemp(path);
	if (ftruncate(fd, sz)) {}
	struct timespec ts[2] = { {1000, 0}, {mt, 0} };
	futimens(fd, ts); close(fd);
	if (kind == 1) unlink(path);
	size_t s = get_file_size(path); time_t t = get_file_creation_date(path);
	ev_begin("finfo"); j_int("kind", kind); j_int("size", sz); j_int("mtime", mt); j_int("rsize", (long long)s);
	char dg[32]; j_bytes("want", dg, sprintf(dg, "%ld", sz)); j_bytes("got", dg, sprintf(dg, "%zu", s)); j_int("rdate", (long long)t); ev_end();
	unlink(path); return 0; }

static int c_range(int c, char **v) { (void)c;
	bytes t = unhex_z(v[1]);
	m38_range_header r = m38_parse_range_header((char *)t.p);
	long long lim = r.limit > 2000000000u ? 2000000000 : (long long)r.limit, off = r.offset > 2000000000u ? 2000000000 : (long long)r.offset;
	ev_begin("range"); j_bytes("text", t.p, t.n); j_int("limit", lim); j_int("offset", off);
	char dg[32]; j_bytes("ld", dg, sprintf(dg, "%zu", (size_t)r.limit)); j_bytes("od", dg, sprintf(dg, "%zu", (size_t)r.offset)); ev_end();
	freeb(t); return 0; }

static void j_req(m38_http_request *q, int withbody) {
	j_bytes("verb", q->verb, strnlen(q->verb, sizeof q->verb)); j_int("verbterm", memchr(q->verb, 0, sizeof q->verb) != NULL);
	j_bytes("res", q->resource, strnlen(q->resource, sizeof q->resource)); j_int("resterm", memchr(q->resource, 0, sizeof q->resource) != NULL);
	j_bytes("head", q->full_header, q->full_header ? q->header_len : 0);
	if (withbody) { j_int("bodynil", q->full_body == NULL); j_bytes("body", q->full_body, q->full_body ? q->body_len : 0); }
}
/* preq BYTES CLEN : parse a whole request held in an exact-size buffer, then its body */
static int c_preq(int c, char **v) { (void)c;
	bytes t = unhex(v[1]); long clen = atol(v[2]);
	m38_http_request q; memset(&q, 0, sizeof q);
	size_t b0 = live_bytes();
	int r = m38_parse_request(t.p, t.n, &q);
	ev_begin("preq"); j_bytes("text", t.p, t.n); j_int("ret", r); j_req(&q, 0); ev_end();
	if (r == 0 && clen >= 0) {
		size_t got = t.n - q.header_len;
		int rb = m38_parse_body(got, clen, t.p, &q);
		ev_begin("pbody"); j_bytes("raw", t.p + q.header_len, got); j_int("clen", clen); j_int("ret", rb);
		j_int("bodynil", q.full_body == NULL); j_bytes("body", q.full_body, q.full_body ? q.body_len : 0); ev_end();
	}
	free(q.full_header); free(q.full_body);
	ev_begin("pfree"); j_int("delta", (long long)live_bytes() - (long long)b0); ev_end();
	freeb(t); return 0; }

/* form BODY K1 K2 ... : parse a form body, look the given keys up */
static int c_form(int c, char **v) {
	bytes t = unhex_z(v[1]);
	m38_http_request q; memset(&q, 0, sizeof q);
	size_t b0 = live_bytes();
	q.full_body = malloc(t.n + 1); memcpy(q.full_body, t.p, t.n + 1); q.body_len = t.n;
	int r = m38_parse_form_encoded_body(&q);
	ev_begin("form"); j_bytes("text", t.p, t.n); j_int("ret", r); j_int("nil", q.form_elements == NULL);
	j_int("bodynil", q.full_body == NULL); j_bytes("body", q.full_body, q.full_body ? q.body_len : 0); ev_end();
	for (int i = 2; i < c && q.form_elements; i++) {
		bytes k = unhex(v[i]); size_t n = 0;
		char *x = sparse_dict_get(q.form_elements, (char *)k.p, k.n, &n);
		ev_begin("fget"); j_bytes("k", k.p, k.n); j_int("nil", x == NULL); j_bytes("v", x, x ? n : 0); ev_end();
		freeb(k);
	}
	if (q.form_elements) sparse_dict_free(q.form_elements);
	free(q.full_body);
	ev_begin("ffree"); j_int("delta", (long long)live_bytes() - (long long)b0); ev_end();
	freeb(t); return 0; }

/* log LEVEL KIND MSG INT */
static size_t slurp(int fd, unsigned char *b, size_t n) { lseek(fd, 0, SEEK_SET); ssize_t r = read(fd, b, n); return r > 0 ? (size_t)r : 0; }
static int c_log(int c, char **v) { (void)c;
	int lvl = atoi(v[1]), kind = atoi(v[2]), num = atoi(v[4]);
	bytes m = unhex_z(v[3]);
	static char want[70000];
	int so = dup(1), se = dup(2), fo = memfd_create("o", 0), fe = memfd_create("e", 0);
	fflush(stdout); dup2(fo, 1); dup2(fe, 2);
	time_t t0 = time(NULL);
	if (kind == 0) { snprintf(want, sizeof want, "%s", (char *)m.p); m38_log_msg(lvl, "%s", (char *)m.p); }
	else if (kind == 1) { snprintf(want, sizeof want, "%s=%i", (char *)m.p, num); m38_log_msg(lvl, "%s=%i", (char *)m.p, num); }
	else if (kind == 2) { snprintf(want, sizeof want, "%i %s %zu", num, (char *)m.p, m.n); m38_log_msg(lvl, "%i %s %zu", num, (char *)m.p, m.n); }
	else { snprintf(want, sizeof want, "%s", (char *)m.p); m38_log_msg(lvl, (char *)m.p); }
	time_t t1 = time(NULL);
	dup2(so, 1); dup2(se, 2); close(so); close(se);
	static unsigned char ob[70000], eb[70000];
	size_t on = slurp(fo, ob, sizeof ob), en = slurp(fe, eb, sizeof eb);
	close(fo); close(fe);
	char d0[64], d1[64]; strftime(d0, 64, "%b %d %H:%M:%S", localtime(&t0)); strftime(d1, 64, "%b %d %H:%M:%S", localtime(&t1));
	ev_begin("log"); j_int("lvl", lvl); j_bytes("msg", want, strlen(want)); j_bytes("t0", d0, strlen(d0)); j_bytes("t1", d1, strlen(d1));
	j_bytes("out", ob, on); j_bytes("err", eb, en); ev_end();
	freeb(m); return 0; }

/* mlog THREADS N SIZE [SEED RATE] : concurrent callers.  With SEED, turns change at basic blocks and around calls of
 * the time functions, and the clock is one that leaps at every reading: each thread notes what it was told. */
#include <pthread.h>
struct ml { int t, n, siz; char stamp[32][128]; };
static void ml_msg(char *b, int t, int i, int siz) { int k = sprintf(b, "T%d.%d.", t, i); while (k < siz) { b[k] = 'a' + (t + i + k) % 26; k++; } b[k] = 0; }
static void *ml_run(void *a) { struct ml *m = a; char b[900]; par_enter(m->t);
	for (int i = 0; i < m->n; i++) { ml_msg(b, m->t, i, m->siz); told = m->stamp[i < 32 ? i : 31]; *told = 0; m38_log_msg(LOG_INFO, "%s", b); told = NULL; }
	par_leave(); return NULL; }
static void j_text(char *js, size_t *k, const char *b) {
	js[(*k)++] = '[';
	for (int q = 0; b[q]; q++) *k += sprintf(js + *k, "%s%d", q ? "," : "", b[q]);
	js[(*k)++] = ']'; }
static int c_mlog(int c, char **v) {
	int nt = atoi(v[1]), n = atoi(v[2]), siz = atoi(v[3]);
	int so = dup(1), fo = memfd_create("o", 0);
	fflush(stdout); dup2(fo, 1);
	pthread_t th[16]; static struct ml a[16];
	if (c > 5) par_begin(nt, atoi(v[4]), atoi(v[5]));
	for (int t = 0; t < nt; t++) { a[t] = (struct ml){ t, n, siz }; pthread_create(&th[t], NULL, ml_run, &a[t]); }
	for (int t = 0; t < nt; t++) pthread_join(th[t], NULL);
	par_end();
	dup2(so, 1); close(so);
	static unsigned char ob[400000];
	size_t on = slurp(fo, ob, sizeof ob); close(fo);
	ev_begin("mlog"); j_bytes("out", ob, on);
	static char js[2000000]; size_t k = 0; js[k++] = '[';
	for (int t = 0; t < nt; t++) for (int i = 0; i < n; i++) {
		char b[900]; ml_msg(b, t, i, siz);
		if (t || i) js[k++] = ',';
		j_text(js, &k, b);
	}
	js[k++] = ']'; js[k] = 0; j_raw("msgs", js);
	k = 0; js[k++] = '[';                  /* for each message what its caller was told, "" if the clock was not ours */
	for (int t = 0; t < nt; t++) for (int i = 0; i < n; i++) { if (t || i) js[k++] = ','; j_text(js, &k, i < 32 ? a[t].stamp[i] : ""); }
	js[k++] = ']'; js[k] = 0; j_raw("told", js); ev_end(); return 0; }

const struct cmd text_cmds[] = {
	{"hdr", c_hdr}, {"cookie", c_cookie}, {"urldec", c_urldec}, {"strnstr", c_strnstr}, {"endswith", c_endswith}, {"fnv", c_fnv},
	{"finfo", c_finfo}, {"range", c_range}, {"preq", c_preq}, {"form", c_form}, {"log", c_log}, {"mlog", c_mlog}, {NULL, NULL} };
