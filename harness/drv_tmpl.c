// Template engine: building contexts, rendering, releasing.
#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
size_t __sanitizer_get_current_allocated_bytes(void);
size_t __sanitizer_get_allocated_size(const volatile void *);
#include "drv.h"
#include "greshunkel.h"

#define NC 64
static __thread greshunkel_ctext *ctx[NC];
static __thread greshunkel_var arr[NC];
static __thread size_t base;
static __thread int deferring, quiet;
static __thread char *deferred[512]; static __thread int ndef;

static void rel(void) { for (int i = 0; i < ndef; i++) free(deferred[i]); ndef = 0; }
void reset_tmpl(void) { memset(ctx, 0, sizeof ctx); memset(arr, 0, sizeof arr); deferring = quiet = 0; rel(); }

/* filters: what they compute is fixed here and stated in the specification */
static char *flog(int kind, const char *arg, char *res) {
	ev_begin("fcall"); j_int("kind", kind); j_int("nil", arg == NULL); j_bytes("arg", arg, arg ? strlen(arg) : 0); j_bytes("res", res, strlen(res)); ev_end();
	return res;
}
static char *f_upper(const char *a) { char *r = strdup(a ? a : "NONE"); for (char *p = r; *p; p++) if (*p >= 'a' && *p <= 'z') *p -= 32; return flog(0, a, r); }
static char *f_const(const char *a) { return flog(1, a, "z"); }
static char *f_rev(const char *a) { char *r = strdup(a ? a : "NONE"); size_t n = strlen(r); for (size_t i = 0; i < n / 2; i++) { char t = r[i]; r[i] = r[n-1-i]; r[n-1-i] = t; } return flog(2, a, r); }
static char *f_wrap(const char *a) { const char *s = a ? a : "NONE"; char *r = malloc(strlen(s) + 3); sprintf(r, "[%s]", s); return flog(3, a, r); }
static char *f_empty(const char *a) { return flog(4, a, ""); }
static char *f_twice(const char *a) { const char *s = a ? a : "NONE"; char *r = malloc(2 * strlen(s) + 1); sprintf(r, "%s%s", s, s); return flog(5, a, r); }
static void clog(int kind, const char *r) { ev_begin("fclean"); j_int("kind", kind); j_bytes("res", r, strlen(r)); ev_end(); }
static void k_upper(char *r) { clog(0, r); gshkl_filter_cleanup(r); }
static void k_rev(char *r) { clog(2, r); free(r); }
static void k_wrap(char *r) { clog(3, r); free(r); }
static void k_empty(char *r) { clog(4, r); }
static void k_twice(char *r) { clog(5, r); gshkl_filter_cleanup(r); }
static char *(*ff[])(const char *) = { f_upper, f_const, f_rev, f_wrap, f_empty, f_twice };
static void (*fk[])(char *) = { k_upper, NULL, k_rev, k_wrap, k_empty, k_twice };

static int run_tmpl(int c, char **v) {
	const char *op = v[0];
	int id = atoi(v[1]), rc = 0;
	int exec = !deferring || quiet;
	bytes nm = {0}, val = {0};
	if (!strcmp(op, "ctx")) { if (exec) ctx[id] = gshkl_init_context();
		if (!quiet) { ev_begin("ctx"); j_int("id", id); ev_end(); } return 0; }
	if (!strcmp(op, "astr")) { val = unhex_z(v[2]); if (exec) rc = gshkl_add_string_to_loop(&arr[id], val.null ? NULL : (char *)val.p);
		if (!quiet) { ev_begin("astr"); j_int("id", id); j_bytes("val", val.p, val.n); j_int("ret", rc); ev_end(); } freeb(val); return 0; }
	if (!strcmp(op, "aint")) { int n = c > 3 ? atoi(v[3]) : 1;
		for (int i = 0; exec && i < n; i++) rc |= gshkl_add_int_to_loop(&arr[id], (int)strtol(v[2], NULL, 10));
		if (!quiet) { char b[32]; sprintf(b, "%s", v[2]); ev_begin("aint"); j_int("id", id); j_int("n", n); j_bytes("val", b, strlen(b)); j_int("ret", rc); ev_end(); } return 0; }
	if (!strcmp(op, "asub")) { if (exec) rc = gshkl_add_sub_context_to_loop(&arr[id], ctx[atoi(v[2])]);
		if (!quiet) { ev_begin("asub"); j_int("id", id); j_int("sub", atoi(v[2])); j_int("ret", rc); ev_end(); } return 0; }
	nm = unhex_z(v[2]);
	if (!strcmp(op, "addstr")) { val = unhex_z(v[3]); if (exec) rc = gshkl_add_string(ctx[id], (char *)nm.p, (char *)val.p); }
	else if (!strcmp(op, "addint")) { if (exec) rc = gshkl_add_int(ctx[id], (char *)nm.p, (int)strtol(v[3], NULL, 10)); }
	else if (!strcmp(op, "addarr")) { if (exec) arr[atoi(v[3])] = gshkl_add_array(ctx[id], (char *)nm.p); }
	else if (!strcmp(op, "addsub")) { if (exec) rc = gshkl_add_sub_context(ctx[id], (char *)nm.p, ctx[atoi(v[3])]); }
	else if (!strcmp(op, "filt")) { if (exec) rc = gshkl_add_filter(ctx[id], (char *)nm.p, ff[atoi(v[3])], fk[atoi(v[3])]); }
	if (!quiet) {
		ev_begin(op); j_int("id", id); j_bytes("name", nm.p, nm.n); j_int("ret", rc);
		if (!strcmp(op, "addstr")) j_bytes("val", val.p, val.n);
		else if (!strcmp(op, "addint")) j_bytes("val", v[3], strlen(v[3]));
		else j_int("ref", atoi(v[3]));
		ev_end();
	}
	freeb(nm); freeb(val); return 0; }
static int c_build(int c, char **v) {
	if (deferring) {
		char buf[1 << 16]; size_t o = 0;
		for (int i = 0; i < c; i++) o += snprintf(buf + o, sizeof buf - o, "%s ", v[i]);
		deferred[ndef++] = strdup(buf);
	}
	return run_tmpl(c, v); }
static int c_defer(int c, char **v) { (void)c; (void)v; deferring = 1; return 0; }
greshunkel_ctext *tmpl_build(void) {
	quiet = 1;
	for (int k = 0; k < ndef; k++) {
		char *t = strdup(deferred[k]), *av[8], *sv = NULL; int ac = 0;
		for (char *p = strtok_r(t, " ", &sv); p && ac < 8; p = strtok_r(NULL, " ", &sv)) av[ac++] = p;
		run_tmpl(ac, av); free(t);
	}
	quiet = 0;
	return ctx[0]; }
/* the main thread's contexts become this thread's */
void tmpl_share(int take) {
	static greshunkel_ctext **c; static char **d; static int nd, def;
	if (!take) { c = ctx; d = deferred; nd = ndef; def = deferring; return; }
	memcpy(ctx, c, sizeof ctx); memcpy(deferred, d, sizeof deferred); ndef = nd; deferring = def; }
void tmpl_unshare(void) { ndef = 0; }
static int c_tbase(int c, char **v) { (void)c; (void)v; base = live_bytes(); return 0; }
static int c_render(int c, char **v) { (void)c;
	int id = atoi(v[1]); bytes t = unhex(v[2]);
	size_t n = 77777, b0 = live_bytes();
	char *r = gshkl_render(ctx[id], (char *)t.p, t.n, &n);
	long long d = (long long)live_bytes() - (long long)b0 - (long long)own_size(r);
	ev_begin("render"); j_int("id", id); j_bytes("text", t.p, t.n); j_int("nil", r == NULL);
	j_int("size", n > 1000000000u ? 1000000000 : (long long)n); j_bytes("out", r, r ? strlen(r) : 0); j_int("delta", d); ev_end();
	free(r); freeb(t); return 0; }
static int c_tfree(int c, char **v) { (void)c;
	gshkl_free_context(ctx[atoi(v[1])]); ctx[atoi(v[1])] = NULL;
	ev_begin("tfree"); j_int("id", atoi(v[1])); j_int("delta", (long long)live_bytes() - (long long)base); ev_end(); return 0; }

const struct cmd tmpl_cmds[] = {
	{"ctx", c_build}, {"addstr", c_build}, {"addint", c_build}, {"addarr", c_build}, {"addsub", c_build}, {"filt", c_build},
	{"astr", c_build}, {"aint", c_build}, {"asub", c_build}, {"defer", c_defer}, {"tbase", c_tbase},
	{"render", c_render}, {"tfree", c_tfree}, {NULL, NULL} };
