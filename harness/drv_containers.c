#define _GNU_SOURCE
#include <stdlib.h>
#include <string.h>
#include "drv.h"
#include "vector.h"
#include "simple_sparsehash.h"

static __thread vector *vec; static __thread size_t visz;
static __thread struct sparse_dict *dict;
static __thread struct sparse_array *sarr;
static __thread size_t base;
static __thread size_t spesz;

void reset_containers(void) { vec = NULL; dict = NULL; sarr = NULL; }

static int c_vnew(int c, char **v) { (void)c;
	visz = atol(v[1]); base = live_bytes(); vec = vector_new(visz, atol(v[2]));
	ev_begin("vnew"); j_int("isz", visz); j_int("cap", atol(v[2])); j_int("nil", vec == NULL); ev_end(); return 0; }
static int c_vapp(int c, char **v) { (void)c;     /* vapp BYTES [SIZE] */
	bytes b = unhex(v[1]); size_t n = c > 2 ? (size_t)atol(v[2]) : b.n;
	int r = vector_append(vec, b.null ? NULL : b.p, n);
	freeb(b);
	b = unhex(v[1]);
	ev_begin("vapp"); j_int("nil", b.null); j_bytes("b", b.p, b.n); j_int("n", n); j_int("ret", r); j_int("count", vec->count); ev_end();
	freeb(b); return 0; }
static int c_vptr(int c, char **v) { (void)c;
	bytes b = unhex(v[1]); void *p = NULL; memcpy(&p, b.p, sizeof p);
	int r = vector_append_ptr(vec, p);
	ev_begin("vptr"); j_bytes("b", b.p, b.n); j_int("ret", r); j_int("count", vec->count); ev_end();
	freeb(b); return 0; }
static int c_vget(int c, char **v) { (void)c;
	const void *p = vector_get(vec, (unsigned)atol(v[1]));
	ev_begin("vget"); j_int("i", atol(v[1])); j_int("nil", p == NULL);
	/* an index the vector should have refused is not read */
	if (p && (size_t)atol(v[1]) < vec->count) j_bytes("b", p, visz); else j_bytes("b", "", 0);
	ev_end(); return 0; }
static int c_vrev(int c, char **v) { (void)c; (void)v;
	int r = vector_reverse(vec);
	ev_begin("vrev"); j_int("ret", r); j_int("count", vec->count); ev_end(); return 0; }
static int c_vnull(int c, char **v) { (void)c; (void)v;
	int x = 0;
	ev_begin("vnull"); j_int("app", vector_append(NULL, &x, sizeof x)); j_int("ptr", vector_append_ptr(NULL, &x));
	j_int("get", vector_get(NULL, 0) != NULL); j_int("rev", vector_reverse(NULL)); vector_free(NULL); ev_end(); return 0; }
static int c_vfree(int c, char **v) { (void)c; (void)v;
	vector_free(vec); vec = NULL;
	ev_begin("vfree"); j_int("delta", (long long)live_bytes() - (long long)base); ev_end(); return 0; }

static int c_dnew(int c, char **v) { (void)c; (void)v;
	base = live_bytes(); dict = sparse_dict_init(); ev_begin("dnew"); j_int("nil", dict == NULL); ev_end(); return 0; }
static int c_dset(int c, char **v) { (void)c;
	bytes k = unhex(v[1]), x = unhex(v[2]);
	int r = sparse_dict_set(dict, (char *)k.p, k.n, x.p, x.n);
	memset(k.p, 0xEE, k.n); memset(x.p, 0xEE, x.n); freeb(k); freeb(x);     /* the dictionary must have copied */
	k = unhex(v[1]); x = unhex(v[2]);
	ev_begin("dset"); j_bytes("k", k.p, k.n); j_bytes("v", x.p, x.n); j_int("ret", r); ev_end();
	freeb(k); freeb(x); return 0; }
static int c_dget(int c, char **v) { (void)c;
	bytes k = unhex(v[1]); size_t n = 12345;
	void *p = sparse_dict_get(dict, (char *)k.p, k.n, &n);
	void *q = sparse_dict_get(dict, (char *)k.p, k.n, NULL);
	ev_begin("dget"); j_bytes("k", k.p, k.n); j_int("nil", p == NULL); j_int("same", p == q);
	j_bytes("v", p, p ? n : 0); ev_end();
	freeb(k); return 0; }
static int c_dfree(int c, char **v) { (void)c; (void)v;
	sparse_dict_free(dict); dict = NULL;
	ev_begin("dfree"); j_int("delta", (long long)live_bytes() - (long long)base); ev_end(); return 0; }

static int c_snew(int c, char **v) { (void)c;
	base = live_bytes(); spesz = atol(v[1]); sarr = sparse_array_init(atol(v[1]), (uint32_t)atol(v[2]));
	ev_begin("snew"); j_int("esz", atol(v[1])); j_int("max", atol(v[2])); j_int("nil", sarr == NULL); ev_end(); return 0; }
static int c_sset(int c, char **v) { (void)c;
	bytes x = unhex(v[2]);
	int r = sparse_array_set(sarr, (uint32_t)atol(v[1]), x.p, x.n);
	ev_begin("sset"); j_int("i", atol(v[1])); j_bytes("v", x.p, x.n); j_int("ret", r); ev_end();
	freeb(x); return 0; }
static int c_sget(int c, char **v) { (void)c;
	size_t n = 12345;
	const void *p = sparse_array_get(sarr, (uint32_t)atol(v[1]), &n);
	ev_begin("sget"); j_int("i", atol(v[1])); j_int("nil", p == NULL);
	if (p && n <= spesz) { j_int("n", n); j_bytes("v", p, n); } else { j_int("n", p ? (long long)n : 0); j_bytes("v", "", 0); }
	ev_end(); return 0; }
static int c_sfree(int c, char **v) { (void)c; (void)v;
	sparse_array_free(sarr); sarr = NULL;
	ev_begin("sfree"); j_int("delta", (long long)live_bytes() - (long long)base); ev_end(); return 0; }

const struct cmd container_cmds[] = {
	{"vnew", c_vnew}, {"vapp", c_vapp}, {"vptr", c_vptr}, {"vget", c_vget}, {"vrev", c_vrev}, {"vnull", c_vnull}, {"vfree", c_vfree},
	{"dnew", c_dnew}, {"dset", c_dset}, {"dget", c_dget}, {"dfree", c_dfree},
	{"snew", c_snew}, {"sset", c_sset}, {"sget", c_sget}, {"sfree", c_sfree}, {NULL, NULL} };
