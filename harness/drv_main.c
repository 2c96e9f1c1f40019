// API driver: apidrv SCRIPT OUT START  -- runs the cases of SCRIPT from number START.
// A case that crashes or hangs ends the process; the caller resumes with the next one.
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
size_t __sanitizer_get_current_allocated_bytes(void);
size_t __sanitizer_get_allocated_size(const volatile void *);
#include "drv.h"
#include "logging.h"

__thread FILE *OUT;
static __thread int first_ev;
__thread int in_par;

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static bytes unhex_slack(const char *tok, size_t slack) {
	bytes b = {0};
	if (!strcmp(tok, "-")) { b.null = 1; return b; }
	b.n = !strcmp(tok, ".") ? 0 : strlen(tok) / 2;
	b.p = malloc(b.n + slack);
	for (size_t i = 0; i < b.n; i++)
		b.p[i] = hexv(tok[2*i]) * 16 + hexv(tok[2*i+1]);
	if (slack) memset(b.p + b.n, 0, slack);
	return b;
}
bytes unhex(const char *tok) { return unhex_slack(tok, 0); }
bytes unhex_z(const char *tok) { return unhex_slack(tok, 1); }
void freeb(bytes b) { free(b.p); }
size_t live_bytes(void) { return in_par ? 0 : __sanitizer_get_current_allocated_bytes(); }
size_t own_size(const void *p) { return p && !in_par ? __sanitizer_get_allocated_size(p) : 0; }
int open_fds(void) {
	int n = 0, fd;
	if (in_par) return 0;
	for (fd = 0; fd < 128; fd++) if (fcntl(fd, F_GETFD) != -1) n++;
	return n;
}

/* File mappings made by the code under test. */
static struct { void *p; size_t n; } maps[256];
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_munmap(void *, size_t);
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) {
	void *r = __real_mmap(a, n, pr, fl, fd, o);
	if (r != MAP_FAILED)
		for (int i = 0; i < 256; i++) if (!maps[i].p) { maps[i].p = r; maps[i].n = n; break; }
	return r;
}
int __wrap_munmap(void *p, size_t n) {
	for (int i = 0; i < 256; i++) if (maps[i].p == p && p) {
		/* unmapping only a part leaves the rest mapped */
		size_t have = (maps[i].n + 4095) & ~(size_t)4095, want = (n + 4095) & ~(size_t)4095;
		if (want >= have) maps[i].p = NULL;
	}
	return __real_munmap(p, n);
}
long live_maps(void) { long n = 0; if (in_par) return 0; for (int i = 0; i < 256; i++) if (maps[i].p) n++; return n; }

void ev_begin(const char *name) {
	if (!first_ev) fputc(',', OUT);
	first_ev = 0;
	fprintf(OUT, "{\"e\":\"%s\"", name);
}
/* TLC integers have 32 bits: larger numbers are recorded as 2000000000 (all bounds in play are far below) */
void j_int(const char *k, long long v) { if (v > 2000000000) v = 2000000000; if (v < -2000000000) v = -2000000000; fprintf(OUT, ",\"%s\":%lld", k, v); }
void j_bytes(const char *k, const void *p, size_t n) {
	const unsigned char *c = p;
	fprintf(OUT, ",\"%s\":[", k);
	for (size_t i = 0; i < n; i++) fprintf(OUT, i ? ",%d" : "%d", c[i]);
	fputc(']', OUT);
}
void j_str(const char *k, const char *s) { fprintf(OUT, ",\"%s\":\"%s\"", k, s); }
void j_raw(const char *k, const char *s) { fprintf(OUT, ",\"%s\":%s", k, s); }
void ev_end(void) { fputs("}", OUT); }

static const struct cmd *tables[] = { container_cmds, text_cmds, http_cmds, tmpl_cmds, NULL };
void __sanitizer_set_death_callback(void (*)(void));
static void on_death(void) { fflush(OUT); }
static void on_abort(int s) { (void)s; fflush(OUT); fflush(stdout); _exit(96); }
static void on_alarm(int s) { (void)s; fflush(OUT); _exit(99); }

/* ---- parallel cases: "case par SEED RATE", then lines "THREAD command...",
 * or "* command..." for what is done beforehand and can be seen by all of them.
 * The code under test is compiled with a call at every basic block; there, with
 * probability 1/RATE, another thread gets the turn.  Only one runs at a time, so a
 * case can be repeated.  A thread that blocks on a lock is passed over. */
#include <pthread.h>
#define NP 8
static struct { pthread_t p; char **l; int n, cap, alive; char *buf; size_t len; } P[NP];
static int np, turn = -1, par_on; static unsigned par_rate, rate_now; static unsigned long prs; static volatile unsigned long moves;
static pthread_mutex_t pm = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t pc[NP];
static __thread int self = -1;
int __real_pthread_mutex_lock(pthread_mutex_t *); int __real_clock_gettime(clockid_t, struct timespec *);
static unsigned prnd(unsigned n) { prs ^= prs << 13; prs ^= prs >> 7; prs ^= prs << 17; return (prs >> 11) % n; }
static void await(void) {             /* pm held */
	while (turn != self) {
		struct timespec ts; __real_clock_gettime(CLOCK_REALTIME, &ts); ts.tv_nsec += 200000000; if (ts.tv_nsec > 999999999) { ts.tv_sec++; ts.tv_nsec -= 1000000000; }
		unsigned long m = moves;
		if (pthread_cond_timedwait(&pc[self], &pm, &ts) && m == moves) { turn = self; moves++; }    /* whoever has the turn is stuck */
	}
}
static void pass(void) {              /* pm held */
	int c[NP], n = 0;
	for (int i = 0; i < np; i++) if (i != self && P[i].alive) c[n++] = i;
	/* RATE 0: turns of very different lengths */
	static const unsigned rates[] = { 1, 3, 10, 40, 200, 1000 };
	rate_now = par_rate ? par_rate : rates[prnd(6)];
	if (n) { turn = c[prnd(n)]; moves++; pthread_cond_signal(&pc[turn]); }
}
static void switch_(void) { __real_pthread_mutex_lock(&pm); pass(); await(); pthread_mutex_unlock(&pm); }
void __sanitizer_cov_trace_pc(void) {
	if (self < 0 || !par_on) return;
	moves++;
	if (turn != self || prnd(rate_now) == 0) switch_();
}
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	if (self < 0 || !par_on) return __real_pthread_mutex_lock(m);
	for (int k = 0; k < 100000; k++) { if (pthread_mutex_trylock(m) == 0) return 0; switch_(); }
	return __real_pthread_mutex_lock(m);
}
void par_begin(int n, unsigned long seed, unsigned rate) {
	np = n; prs = seed * 0x9E3779B97F4A7C15ul + 88172645463325252ul; par_rate = rate; rate_now = rate ? rate : 20; turn = 0; par_on = 1;
	for (int k = 0; k < np; k++) { P[k].alive = 1; pthread_cond_init(&pc[k], NULL); }
}
void par_enter(int k) { if (!par_on) return; __real_pthread_mutex_lock(&pm); self = k; await(); pthread_mutex_unlock(&pm); }
void par_leave(void) { if (self < 0) return; __real_pthread_mutex_lock(&pm); P[self].alive = 0; pass(); self = -1; pthread_mutex_unlock(&pm); }
void par_end(void) { if (par_on) { par_on = 0; np = 0; } }
/* the leaping clock */
#include <time.h>
__thread char *told;
static time_t leap(void) {
	static time_t t = 1700000000;
	time_t now = t += 3723 + 86400;           /* another day, hour, minute and second every time */
	struct tm tm; char b[40]; gmtime_r(&now, &tm); strftime(b, sizeof b, "%b %d %H:%M:%S|", &tm);
	if (strlen(told) + strlen(b) < 128) strcat(told, b);
	return now;
}
static void around(void) { if (self >= 0 && par_on && prnd(2) == 0) switch_(); }
void par_point(void) { around(); }
int par_self(void) { return self < 0 ? 0 : self; }
int __real_gettimeofday(struct timeval *, void *);
int __wrap_gettimeofday(struct timeval *a, void *z) { if (!told) return __real_gettimeofday(a, z); a->tv_sec = leap(); a->tv_usec = 0; around(); return 0; }
time_t __real_time(time_t *);
time_t __wrap_time(time_t *a) { if (!told) return __real_time(a); time_t t = leap(); if (a) *a = t; around(); return t; }
int __real_clock_gettime(clockid_t, struct timespec *);
int __wrap_clock_gettime(clockid_t c, struct timespec *a) { if (!told) return __real_clock_gettime(c, a); a->tv_sec = leap(); a->tv_nsec = 0; around(); return 0; }
struct tm *__real_localtime(const time_t *);
struct tm *__wrap_localtime(const time_t *a) { struct tm *r = __real_localtime(a); around(); return r; }
static void run_line(char *line) {
	char *sv = NULL, *av[64]; int ac = 0, done = 0;
	for (char *t = strtok_r(line, " ", &sv); t && ac < 64; t = strtok_r(NULL, " ", &sv)) av[ac++] = t;
	for (int i = 0; tables[i] && !done; i++)
		for (const struct cmd *c = tables[i]; c->name; c++)
			if (!strcmp(c->name, av[0])) { c->fn(ac, av); done = 1; break; }
	if (!done) { fprintf(stderr, "unknown command %s\n", av[0]); _exit(2); }
}
static struct { char **l; int n, cap; char *buf; size_t len; } S;       /* lines that set up what all of them share */
static void *par_run(void *x) {
	int k = (int)(long)x;
	OUT = open_memstream(&P[k].buf, &P[k].len); in_par = 1; first_ev = S.len == 0;
	if (S.n) { fputs(S.buf, OUT); tmpl_share(1); http_share(1); }
	par_enter(k);
	for (int i = 0; i < P[k].n; i++) run_line(P[k].l[i]);
	if (S.n) tmpl_unshare(); else reset_http();
	reset_containers(); reset_tmpl();
	par_leave();
	fclose(OUT);
	return NULL;
}
static void par_case(long id) {
	FILE *out = OUT;
	if (S.n) {
		OUT = open_memstream(&S.buf, &S.len); in_par = first_ev = 1;
		for (int i = 0; i < S.n; i++) { run_line(S.l[i]); free(S.l[i]); }
		fclose(OUT); OUT = out; in_par = 0;
		tmpl_share(0); http_share(0);
	}
	par_begin(np, prs, par_rate);
	for (int k = 0; k < np; k++) pthread_create(&P[k].p, NULL, par_run, (void *)(long)k);
	for (int k = 0; k < np; k++) pthread_join(P[k].p, NULL);
	par_on = 0;
	for (int k = 0; k < np; k++) {
		fprintf(OUT, "%s{\"id\":%ld,\"ev\":[%s]}", k ? "\x1e" : "", id, P[k].buf);
		free(P[k].buf);
		for (int i = 0; i < P[k].n; i++) free(P[k].l[i]);
		P[k].n = 0;
	}
	fputs("\n", OUT); fflush(OUT); np = 0;
	if (S.n) { free(S.buf); S.n = 0; S.len = 0; }
}
static void par_add(char *line) {
	if (line[0] == '*') {
		if (S.n == S.cap) S.l = realloc(S.l, (S.cap = S.cap * 2 + 8) * sizeof(char *));
		S.l[S.n++] = strdup(line + 2);
		return;
	}
	int k = line[0] - '0';
	if (k >= np) np = k + 1;
	if (P[k].n == P[k].cap) P[k].l = realloc(P[k].l, (P[k].cap = P[k].cap * 2 + 8) * sizeof(char *));
	P[k].l[P[k].n++] = strdup(line + 2);
}

int main(int argc, char **argv) {
	if (argc < 4) return 2;
	FILE *in = fopen(argv[1], "r");
	OUT = fopen(argv[2], "a");
	long start = atol(argv[3]), cur = -1;
	if (!in || !OUT) return 2;
	static char obuf[1 << 16];
	setvbuf(OUT, obuf, _IOFBF, sizeof obuf);
	int dn = open("/dev/null", O_RDWR);
	if (!getenv("DRV_VERBOSE")) { dup2(dn, 1); dup2(dn, 2); }
	if (dn > 2) close(dn);
	if (fcntl(0, F_GETFD) == -1) open("/dev/null", O_RDONLY);
	static char so[4096]; setvbuf(stdout, so, _IOFBF, sizeof so);
	signal(SIGALRM, on_alarm);
	signal(SIGABRT, on_abort);
	__sanitizer_set_death_callback(on_death);
	int lim = getenv("DRV_CASE_SECS") ? atoi(getenv("DRV_CASE_SECS")) : 10;
	m38_log_msg(LOG_INFO, "warm up");          /* time zone tables are allocated once */
	static char line[1 << 24];
	int running = 0, par = 0;
	while (fgets(line, sizeof line, in)) {
		size_t n = strlen(line);
		while (n && (line[n-1] == '\n' || line[n-1] == '\r')) line[--n] = 0;
		if (!n) continue;
		if (!strncmp(line, "case", 4)) {
			if (running && par) par_case(cur);
			else if (running) { fputs("]}\n", OUT); fflush(OUT); }
			par = sscanf(line, "case par %lu %u", &prs, &par_rate) == 2;
			reset_containers(); reset_http(); reset_tmpl();
			cur++;
			running = cur >= start;
			if (running) {
				struct itimerval it = { {0,0}, {lim,0} };
				setitimer(ITIMER_REAL, &it, NULL);
				if (!par) fprintf(OUT, "{\"id\":%ld,\"ev\":[", cur);
				first_ev = 1;
			}
			continue;
		}
		if (!running) continue;
		if (par) par_add(line); else run_line(line);
	}
	if (running && par) par_case(cur);
	else if (running) fputs("]}\n", OUT);
	fflush(OUT);
	_exit(0);
}
