// Exchanges: m38_generate_response / m38_send_response against a scripted connection.
#define _GNU_SOURCE
#include <errno.h>
#include <poll.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/stat.h>
#include <unistd.h>
#include "drv.h"
#include "grengine.h"
#include "parse.h"
#include "server.h"
#include "simple_sparsehash.h"
#include "utils.h"
#include "greshunkel.h"

#define XFD 900                      /* and one more for every thread of a parallel case */
static __thread struct {
	int fd, open, closes;
	bytes *segs; int nseg, cur; size_t off;
	const char *end;                 /* eof | err | open */
	char **caps; int ncap, capi;
	int over;                        /* reads after the end */
} X;

static int is_x(int fd) { return fd >= XFD && fd < XFD + 16; }
/* the connection of another thread is none of this thread's business */
static int stale(int fd, const char *op) {
	if (X.open && fd == X.fd) return 0;
	ev_begin("stale"); j_str("op", op); ev_end(); errno = EBADF; return 1; }
static ssize_t x_recv(int fd, void *buf, size_t len) {
	par_point();
	if (stale(fd, "recv")) return -1;
	while (X.cur < X.nseg && X.off == X.segs[X.cur].n) { X.cur++; X.off = 0; }
	if (X.cur < X.nseg) {
		bytes *s = &X.segs[X.cur];
		size_t n = s->n - X.off < len ? s->n - X.off : len;
		memcpy(buf, s->p + X.off, n); X.off += n;
		ev_begin("recv"); j_int("n", n); ev_end();
		return n;
	}
	if (!strcmp(X.end, "eof")) { ev_begin("recv"); j_int("n", 0); ev_end(); if (++X.over > 50) _exit(98); return 0; }
	if (!strcmp(X.end, "intr") && X.over++ < 1) { ev_begin("recv"); j_int("n", -1); ev_end(); errno = EINTR; return -1; }
	if (!strcmp(X.end, "err")) { ev_begin("recv"); j_int("n", -1); ev_end(); if (++X.over > 50) _exit(98); errno = ECONNRESET; return -1; }
	/* The client has sent everything and waits for its answer: a real read would block for ever. */
	ev_begin("recv"); j_int("n", -2); ev_end(); if (++X.over > 50) _exit(98);
	errno = ECONNRESET; return -1;
}
static ssize_t x_send(int fd, const void *buf, size_t len, int flags) {
	par_point();
	if (stale(fd, "send")) return -1;
	const char *c = X.capi < X.ncap ? X.caps[X.capi] : "*";
	if (X.capi < X.ncap && strcmp(c, "*")) X.capi++;
	ssize_t r; int err = 0;
	if (!strcmp(c, "e")) { r = -1; err = EPIPE; }
	else if (!strcmp(c, "r")) { r = -1; err = ECONNRESET; }
	else if (!strcmp(c, "*")) r = len;
	else { size_t k = strtoul(c, NULL, 10); r = k < len ? k : len; }
	ev_begin("send"); j_int("len", len); j_int("ret", r); j_bytes("b", buf, r > 0 ? r : 0); ev_end();
	/* what a real kernel does to a writer that neither asked for no signal nor ignores it */
	if (err == EPIPE && !(flags & MSG_NOSIGNAL)) { fflush(OUT); raise(SIGPIPE); }
	errno = err; return r;
}
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
ssize_t __real_read(int, void *, size_t); ssize_t __real_write(int, const void *, size_t);
int __real_close(int); int __real_setsockopt(int, int, int, const void *, socklen_t); int __real_shutdown(int, int);
int __real_poll(struct pollfd *, nfds_t, int);
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return is_x(fd) ? x_recv(fd, b, n) : __real_recv(fd, b, n, f); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return is_x(fd) ? x_recv(fd, b, n) : __real_read(fd, b, n); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; return is_x(fd) ? x_recv(fd, b, n) : __real_recv(fd, b, n, f); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return is_x(fd) ? x_send(fd, b, n, f) : __real_send(fd, b, n, f); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; return is_x(fd) ? x_send(fd, b, n, f) : __real_send(fd, b, n, f); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return is_x(fd) ? x_send(fd, b, n, 0) : __real_write(fd, b, n); }
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { return is_x(fd) ? 0 : __real_setsockopt(fd, l, o, v, n); }
int __wrap_shutdown(int fd, int h) { return is_x(fd) ? 0 : __real_shutdown(fd, h); }
int __wrap_poll(struct pollfd *p, nfds_t n, int t) {
	if (n == 1 && is_x(p->fd)) { p->revents = p->events & (POLLIN | POLLOUT); return 1; }
	return __real_poll(p, n, t); }
int __wrap_close(int fd) {
	if (!is_x(fd)) return __real_close(fd);
	par_point();
	if (fd != X.fd) { stale(fd, "close"); return -1; }
	ev_begin("close"); ev_end();
	X.closes++;
	if (!X.open) { errno = EBADF; return -1; }
	X.open = 0; return 0;
}

/* ---- scripted handlers ------------------------------------------------------------------ */
#define NSLOT 14
#define NF 12          /* slot of the not-found handler */
enum { K_RAW, K_HEAP, K_MMAP, K_RENDER, K_NONE, K_STATIC404 };
struct resp {
	int kind, code; bytes mime, body; char *path; int clean;   /* 0 none 1 heap 2 heap_nc 3 mmap 4 log only */
	int nh; bytes hk[256], hv[256];
	unsigned char *out; size_t outsize; uint32_t sum;
};
static __thread struct resp R[NSLOT];
#define NROUTE 400
static __thread m38_route routes[NROUTE]; static __thread int nroutes;   /* several routes may have the handler of one slot */
static __thread m38_app *app; static int sockfd = -1;
static __thread bytes fkeys[16]; static __thread int nfkeys;
extern greshunkel_ctext *tmpl_build(void);   /* a context built by the template commands of this case */

static uint32_t sum(const unsigned char *p, size_t n) { uint32_t h = 7; for (size_t i = 0; i < n; i++) h = h * 31 + p[i]; return h; }

static int run_handler(int s, const m38_http_request *q, m38_http_response *rs) {
	struct resp *r = &R[s];
	ev_begin("handler"); j_int("slot", s);
	j_bytes("verb", q->verb, strnlen(q->verb, sizeof q->verb)); j_bytes("res", q->resource, strnlen(q->resource, sizeof q->resource));
	j_bytes("head", q->full_header, q->full_header ? q->header_len : 0);
	j_int("bodynil", q->full_body == NULL); j_bytes("body", q->full_body, q->full_body ? q->body_len : 0);
	char mb[256]; int o = 0; o += sprintf(mb, "[");
	for (int i = 0; i < MAX_MATCHES; i++) o += sprintf(mb + o, "%s[%d,%d]", i ? "," : "", (int)q->matches[i].rm_so, (int)q->matches[i].rm_eo);
	sprintf(mb + o, "]"); j_raw("m", mb);
	j_int("hasform", q->form_elements != NULL);
	ev_end();
	if (q->form_elements) for (int i = 0; i < nfkeys; i++) {
		size_t n = 0; char *x = sparse_dict_get(q->form_elements, (char *)fkeys[i].p, fkeys[i].n, &n);
		ev_begin("fget"); j_bytes("k", fkeys[i].p, fkeys[i].n); j_int("nil", x == NULL); j_bytes("v", x, x ? n : 0); ev_end();
	}
	for (int i = 0; i < r->nh; i++) m38_insert_custom_header(rs, (char *)r->hk[i].p, r->hk[i].n, (char *)r->hv[i].p, r->hv[i].n);
	if (r->mime.n) { memset(rs->mimetype, 0, sizeof rs->mimetype); memcpy(rs->mimetype, r->mime.p, r->mime.n); }
	int code = r->code, rc;
	switch (r->kind) {
	case K_RAW: rc = m38_return_raw_buffer((char *)r->body.p, r->body.n, rs); if (code == 200) code = rc; break;
	case K_HEAP: rs->out = malloc(r->body.n ? r->body.n : 1); memcpy(rs->out, r->body.p, r->body.n); rs->outsize = r->body.n; break;
	case K_MMAP: rc = m38_mmap_file(r->path, rs); if (code == 200 || rc == 404) code = rc; break;
	case K_RENDER: rc = m38_render_file(tmpl_build(), r->path, rs); if (code == 200 || rc == 404) code = rc; break;
	}
	r->out = rs->out; r->outsize = rs->outsize; r->sum = rs->out ? sum(rs->out, rs->outsize) : 0;
	ev_begin("hret"); j_int("slot", s); j_int("code", code); j_int("outnil", rs->out == NULL); j_bytes("mime", rs->mimetype, strnlen(rs->mimetype, sizeof rs->mimetype));
	j_bytes("out", rs->out, rs->out ? rs->outsize : 0); ev_end();
	return code;
}
static void run_cleanup(int s, int code, m38_http_response *rs) {
	struct resp *r = &R[s];
	int same = rs->out == r->out && rs->outsize == r->outsize && (!rs->out || sum(rs->out, rs->outsize) == r->sum);
	ev_begin("cleanup"); j_int("slot", s); j_int("code", code); j_int("same", same); ev_end();
	if (r->clean == 1) m38_heap_cleanup(code, rs);
	else if (r->clean == 2) m38_heap_cleanup_no_check(code, rs);
	else if (r->clean == 3) m38_mmap_cleanup(code, rs);
}
#define SLOT(i) static int h##i(const m38_http_request *q, m38_http_response *r) { return run_handler(i, q, r); } \
                static void c##i(const int code, m38_http_response *r) { run_cleanup(i, code, r); }
SLOT(0) SLOT(1) SLOT(2) SLOT(3) SLOT(4) SLOT(5) SLOT(6) SLOT(7) SLOT(8) SLOT(9) SLOT(10) SLOT(11) SLOT(12) SLOT(13)
static int (*hs[NSLOT])(const m38_http_request *, m38_http_response *) = { h0,h1,h2,h3,h4,h5,h6,h7,h8,h9,h10,h11,h12,h13 };
static void (*cs[NSLOT])(const int, m38_http_response *) = { c0,c1,c2,c3,c4,c5,c6,c7,c8,c9,c10,c11,c12,c13 };

void reset_http(void) {
	for (int i = 0; i < NSLOT; i++) {
		freeb(R[i].mime); freeb(R[i].body); free(R[i].path);
		for (int j = 0; j < R[i].nh; j++) { freeb(R[i].hk[j]); freeb(R[i].hv[j]); }
	}
	memset(R, 0, sizeof R); memset(routes, 0, sizeof routes); nroutes = 0;
	for (int i = 0; i < nfkeys; i++) freeb(fkeys[i]);
	nfkeys = 0;
	if (app) { free(app->r_404_route); free(app); app = NULL; }
}
static void mkapp(void) {
	if (app) return;
	m38_app a = { .main_sock_fd = &sockfd, .port = 0, .num_threads = 1, .routes = routes, .num_routes = nroutes };
	app = malloc(sizeof a); memcpy(app, &a, sizeof a);
}
/* one configuration, and one application, for all threads of a parallel case: a thread keeps what it may not change */
void http_share(int take) {
	static struct resp *r; static bytes *fk; static int nr, nfk; static m38_app *a;
	if (!take) { mkapp(); memcpy((void *)&app->num_routes, &nroutes, sizeof nroutes); r = R; fk = fkeys; nr = nroutes; nfk = nfkeys; a = app; return; }
	memcpy(R, r, sizeof R); memcpy(fkeys, fk, sizeof fkeys); nroutes = nr; nfkeys = nfk; app = a; }
/* resp SLOT KIND CODE MIME BODY|PATH CLEAN HDRS */
static int c_resp(int c, char **v) {
	struct resp *r = &R[atoi(v[1])];
	static const char *kn[] = { "raw", "heap", "mmap", "render", "none" };
	for (int i = 0; i < 5; i++) if (!strcmp(kn[i], v[2])) r->kind = i;
	r->code = atoi(v[3]); r->mime = unhex(v[4]);
	if (r->kind == K_MMAP || r->kind == K_RENDER) r->path = strdup(v[5]); else r->body = unhex(v[5]);
	r->clean = atoi(v[6]);
	ev_begin("resp"); j_int("slot", atoi(v[1])); j_str("kind", v[2]); j_int("code", r->code); j_bytes("mime", r->mime.p, r->mime.n); j_bytes("body", r->body.p, r->body.n);
	j_int("clean", r->clean);
	fprintf(OUT, ",\"hdrs\":[");
	if (c > 7 && strcmp(v[7], "-")) {
		char *sv = NULL;
		for (char *t = strtok_r(v[7], ",", &sv); t; t = strtok_r(NULL, ",", &sv)) {
			char *col = strchr(t, ':'); *col = 0;
			/* more text follows what the given lengths say */
			bytes k = unhex(t), x = unhex(col + 1);
			k.p = realloc(k.p, k.n + 4); memcpy(k.p + k.n, "#!?", 4);
			x.p = realloc(x.p, x.n + 4); memcpy(x.p + x.n, "#!?", 4);
			r->hk[r->nh] = k; r->hv[r->nh] = x;
			fprintf(OUT, r->nh ? ",[[" : "[[");
			for (size_t i = 0; i < k.n; i++) fprintf(OUT, i ? ",%d" : "%d", k.p[i]);
			fprintf(OUT, "],[");
			for (size_t i = 0; i < x.n; i++) fprintf(OUT, i ? ",%d" : "%d", x.p[i]);
			fprintf(OUT, "]]");
			r->nh++;
		}
	}
	fprintf(OUT, "]"); ev_end();
	return 0;
}
/* route SLOT VERB REGEX NEXP HASCLEAN AST */
static int c_route(int c, char **v) {
	int s = atoi(v[1]);
	if (nroutes == NROUTE) return 0;
	m38_route *r = &routes[nroutes++];
	bytes b = unhex(v[2]), g = unhex(v[3]);
	memcpy(r->verb, b.p, b.n); memcpy(r->route_match, g.p, g.n); snprintf(r->name, sizeof r->name, "r%d", s);
	r->expected_matches = atoi(v[4]); r->handler = hs[s]; r->cleanup = atoi(v[5]) ? cs[s] : NULL;
	ev_begin("route"); j_int("slot", s); j_bytes("verb", b.p, b.n); j_int("nexp", atoi(v[4])); j_int("clean", atoi(v[5]));
	if (c > 6) j_raw("ast", v[6]); else j_raw("ast", "[]");
	ev_end();
	freeb(b); freeb(g); return 0;
}
/* notfound WHAT : h (handler) c (clean-up), in the given order */
static int c_notfound(int c, char **v) { (void)c;
	mkapp();
	int hasc = 0, hash = 0;
	for (char *p = v[1]; *p; p++) {
		if (*p == 'h') { m38_set_404_handler(app, hs[NF]); hash = 1; }
		if (*p == 'c') { m38_set_404_cleanup(app, cs[NF]); hasc = 1; }
	}
	ev_begin("notfound"); j_int("slot", NF); j_int("h", hash); j_int("clean", hasc); ev_end(); return 0; }
static int c_fkeys(int c, char **v) { for (int i = 1; i < c; i++) fkeys[nfkeys++] = unhex(v[i]); return 0; }

/* xchg END CAPS SEG... */
static int c_xchg(int c, char **v) {
	mkapp();
	memcpy((void *)&app->num_routes, &nroutes, sizeof nroutes);
	memset(&X, 0, sizeof X);
	X.open = 1; X.end = v[1]; X.fd = XFD + par_self();
	char *capv[64]; int nc = 0; char *sv = NULL;
	for (char *t = strtok_r(v[2], ",", &sv); t && nc < 64; t = strtok_r(NULL, ",", &sv)) capv[nc++] = t;
	X.caps = capv; X.ncap = nc;
	X.segs = calloc(c, sizeof(bytes));
	size_t tot = 0;
	for (int i = 3; i < c; i++) { X.segs[X.nseg] = unhex(v[i]); tot += X.segs[X.nseg].n; X.nseg++; }
	unsigned char *all = malloc(tot + 1); tot = 0;
	for (int i = 0; i < X.nseg; i++) { memcpy(all + tot, X.segs[i].p, X.segs[i].n); tot += X.segs[i].n; }
	ev_begin("xbegin"); j_str("end", v[1]); j_bytes("req", all, tot); ev_end();
	size_t b0 = live_bytes(); long m0 = live_maps(); int f0 = open_fds();
	m38_handled_request *h = m38_generate_response(X.fd, app);
	ev_begin("gen"); j_int("nil", h == NULL); ev_end();
	/* what a worker does with a request that produced nothing */
	int n = 0;
	while (h && n++ < 5000) h = m38_send_response(h);
	ev_begin("xend"); j_int("delta", (long long)live_bytes() - (long long)b0); j_int("maps", live_maps() - m0);
	j_int("fds", open_fds() - f0); j_int("unfinished", h != NULL); ev_end();
	for (int i = 0; i < X.nseg; i++) freeb(X.segs[i]);
	free(X.segs); free(all);
	return 0;
}
/* mkfile PATH BYTES */
static int c_mkfile(int c, char **v) { (void)c;
	bytes b = unhex(v[2]); FILE *f = fopen(v[1], "w"); fwrite(b.p, 1, b.n, f); fclose(f);
	ev_begin("file"); j_bytes("path", v[1], strlen(v[1])); j_bytes("b", b.p, b.n); ev_end();
	freeb(b); return 0; }
static int c_rmfile(int c, char **v) { (void)c; unlink(v[1]);
	ev_begin("rm"); j_bytes("path", v[1], strlen(v[1])); ev_end(); return 0; }
static int c_mkfifo(int c, char **v) { (void)c; mkfifo(v[1], 0644); return 0; }
/* a file that is there, but cannot be opened */
static int c_mksock(int c, char **v) { (void)c;
	struct sockaddr_un a = { .sun_family = AF_UNIX };
	int s = socket(AF_UNIX, SOCK_STREAM, 0);
	strncpy(a.sun_path, v[1], sizeof a.sun_path - 1);
	if (bind(s, (struct sockaddr *)&a, sizeof a)) {}
	close(s); return 0; }
static int c_mkdir(int c, char **v) { (void)c; mkdir(v[1], 0755); return 0; }
/* static PATH MIME : call the file-serving helper directly */
static int c_static(int c, char **v) { (void)c;
	m38_http_response rs; memset(&rs, 0, sizeof rs);
	bytes m = unhex(v[2]); memcpy(rs.mimetype, m.p, m.n);
	size_t b0 = live_bytes(); long m0 = live_maps(); int f0 = open_fds();
	int rc = m38_mmap_file(v[1], &rs);
	ev_begin("static"); j_bytes("path", v[1], strlen(v[1])); j_bytes("preset", m.p, m.n); j_int("ret", rc);
	j_bytes("mime", rs.mimetype, strnlen(rs.mimetype, sizeof rs.mimetype)); j_int("mimeterm", memchr(rs.mimetype, 0, sizeof rs.mimetype) != NULL);
	j_bytes("out", rs.out, rs.out ? rs.outsize : 0);
	m38_mmap_cleanup(rc, &rs);
	j_int("delta", (long long)live_bytes() - (long long)b0); j_int("maps", live_maps() - m0); j_int("fds", open_fds() - f0);
	ev_end(); freeb(m); return 0; }
/* page PATH : render a template file with the context built so far in this case */
static int c_page(int c, char **v) { (void)c;
	m38_http_response rs; memset(&rs, 0, sizeof rs);
	bytes m = unhex(v[2]); memcpy(rs.mimetype, m.p, m.n);
	size_t b0 = live_bytes(); long m0 = live_maps(); int f0 = open_fds();
	int rc = m38_render_file(tmpl_build(), v[1], &rs);
	ev_begin("page"); j_bytes("path", v[1], strlen(v[1])); j_bytes("preset", m.p, m.n); j_int("ret", rc); j_bytes("mime", rs.mimetype, strnlen(rs.mimetype, sizeof rs.mimetype));
	j_bytes("out", rs.out, rs.out ? rs.outsize : 0);
	m38_heap_cleanup(rc, &rs);
	j_int("delta", (long long)live_bytes() - (long long)b0); j_int("maps", live_maps() - m0); j_int("fds", open_fds() - f0);
	ev_end(); freeb(m); return 0; }

const struct cmd http_cmds[] = {
	{"resp", c_resp}, {"route", c_route}, {"notfound", c_notfound}, {"fkeys", c_fkeys}, {"xchg", c_xchg},
	{"mkfile", c_mkfile}, {"rmfile", c_rmfile}, {"mkdir", c_mkdir}, {"mkfifo", c_mkfifo}, {"mksock", c_mksock}, {"static", c_static}, {"page", c_page}, {NULL, NULL} };
