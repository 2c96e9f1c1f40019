// Shared plumbing of the API driver: script input, JSON output, fault-scripted
// connections, allocation accounting.  Nothing in here interprets results: it
// records inputs and outputs, the TLA+ specifications judge them.
#pragma once
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>

typedef struct { unsigned char *p; size_t n; int null; } bytes;   /* exact-size heap copy */

extern __thread FILE *OUT;                /* each thread of a parallel case has a history of its own */
extern __thread int in_par;              /* heap accounting means nothing there: live_bytes() is 0 */
size_t own_size(const void *p);          /* heap bytes of a result, 0 in parallel cases */
bytes unhex(const char *tok);            /* "-" -> NULL, "." -> empty, else hex */
bytes unhex_z(const char *tok);          /* same, with a NUL after the bytes */
void  freeb(bytes b);
size_t live_bytes(void);                 /* bytes currently allocated on the heap */
long  live_maps(void);                   /* file mappings currently held by the code under test */
int   open_fds(void);

/* JSON: one object per event */
void ev_begin(const char *name);
void j_int(const char *k, long long v);
void j_bytes(const char *k, const void *p, size_t n);
void j_str(const char *k, const char *s);
void j_raw(const char *k, const char *json);
void ev_end(void);

typedef int (*cmd_fn)(int argc, char **argv);
struct cmd { const char *name; cmd_fn fn; };
extern const struct cmd container_cmds[], text_cmds[], http_cmds[], tmpl_cmds[];
void reset_containers(void), reset_http(void), reset_tmpl(void);

/* threads that take turns at the basic blocks of the code under test */
void par_begin(int n, unsigned long seed, unsigned rate), par_enter(int k), par_leave(void), par_end(void);
extern __thread char *told;              /* the leaping clock: where to note the readings, 128 bytes; NULL: the real clock */
void par_point(void);                    /* a good place for another thread to get the turn */
int par_self(void);                      /* number of this thread, 0 outside of parallel cases */
void tmpl_share(int take), http_share(int take), tmpl_unshare(void);
