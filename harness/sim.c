// The whole server (m38_http_serve and its threads) on a simulated kernel.
//   sim SCRIPT OUT : every run of SCRIPT in a process of its own; one record per run in OUT.
// Sockets, message queues and thread scheduling are simulated: exactly one thread runs at a
// time, and which one goes on after each call into the kernel is decided here (at random, by
// random priorities, or by a list that was generated from the TLA+ design).  Nothing in here
// judges anything: calls and their results are recorded, the TLA+ specification judges them.
#define _GNU_SOURCE
#include <errno.h>
#include <fcntl.h>
#include <mqueue.h>
#include <poll.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/uio.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <time.h>
#include <unistd.h>
#include <regex.h>
#include "grengine.h"
#include "server.h"
#include "greshunkel.h"
#include "simple_sparsehash.h"

int __real_close(int); ssize_t __real_write(int, const void *, size_t); ssize_t __real_read(int, void *, size_t);
ssize_t __real_recv(int, void *, size_t, int); ssize_t __real_send(int, const void *, size_t, int);
int __real_fcntl(int, int, ...); int __real_poll(struct pollfd *, nfds_t, int);
int __real_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __real_pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *);
int __real_pthread_cond_signal(pthread_cond_t *);
int __real_regexec(const regex_t *, const char *, size_t, regmatch_t[], int);
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t);

/* ------------------------------------------------------------------ recording */
static FILE *OUT;
static long nev, maxev = 6000;
static void ev(const char *name) { fprintf(OUT, ",{\"e\":\"%s\"", name); nev++; }
static void ji(const char *k, long long v) { fprintf(OUT, ",\"%s\":%lld", k, v); }
static void jb(const char *k, const void *p, size_t n) {
	const unsigned char *c = p;
	fprintf(OUT, ",\"%s\":[", k);
	for (size_t i = 0; i < n; i++) fprintf(OUT, i ? ",%d" : "%d", c[i]);
	fputc(']', OUT);
}
static void js(const char *k, const char *s) { fprintf(OUT, ",\"%s\":\"%s\"", k, s); }
static void done_run(const char *why) { if (why) { ev(why); fputc('}', OUT); } fflush(OUT); _exit(0); }

/* ------------------------------------------------------------------ the run's script */
#define NC 160
static uint64_t rs;
static unsigned rnd(unsigned n) { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return n ? (rs >> 11) % n : 0; }
static struct conn {
	int def, state;                   /* 0 unborn 1 backlog 2 accepted 3 closed 4 aborted before accept */
	int kind, slot, size;             /* 'k' stays, 'e' leaves, 'r' resets, 'a' aborts before it is accepted */
	int hold;                         /* sends nothing before everything else has come to rest */
	int leave_after;                  /* segments it sends before it may leave */
	unsigned char *seg[24]; size_t segn[24]; int nseg, cur;
	unsigned char *in; size_t inn, inpos;
	int gone, reset; int window; int plan[16], nplan, planpos; int afterlife;
	int fd;
} C[NC];
static int nc;
static int o_workers = 2, o_cap0 = 10, o_cap1 = 10, o_fine = 0, o_bb = 0, o_pct = 0, o_fdlimit = 1000, o_port = 8080, o_nf = 0, o_stale = 0, o_staleq = 3, o_window = 0, o_burst = 0, o_starve = -1, o_first = 0;
static int f_sock, f_bind, f_listen, f_mq, f_thread;         /* which start-up call fails (n-th; 0 none) */
static struct { int call, nth, err; } flt[32]; static int nflt;  /* 0 accept 1 put0 2 put1 3 take0 4 take1 */
static int cnt[8];
static char *sched_tok[512]; static int nsched, schedpos, followed, diverged;

static int fault(int call) {
	cnt[call]++;
	for (int i = 0; i < nflt; i++) if (flt[i].call == call && flt[i].nth == cnt[call]) return flt[i].err;
	return 0;
}
static unsigned char body_byte(int c, int k) { return 33 + (k * 7 + c * 13 + k / 64) % 90; }

/* ------------------------------------------------------------------ threads */
#define NT 40
enum { T_NEW, T_WAIT, T_RUN, T_DONE };
static struct th {
	int state, id, cancelled, sleepy, prio, woken;
	pthread_t p; pthread_cond_t cv;
	void *(*fn)(void *); void *arg;
	int (*pred)(void *); void *parg;
	const char *op; int opfd; long vis; const char *lastvis; int conn;
} T[NT];
static int nt, cur;
static __thread struct th *me;
static pthread_mutex_t big = PTHREAD_MUTEX_INITIALIZER;
static long steps, last_progress;
static int returned;

static int always(void *x) { (void)x; return 1; }
static int enabled(struct th *t) {
	if (t->state == T_NEW) return 1;
	if (t->state != T_WAIT) return 0;
	if (t->cancelled) return 1;
	return t->pred(t->parg);
}
static void progress(const char *what) { last_progress = steps; if (me) { me->vis++; me->lastvis = what; } }

/* ------------------------------------------------------------------ the simulated kernel */
static int FB = 300, o_fd0;           /* descriptors start at 0 on request (1), or only those of connections do (2) */
#define NF 200
enum { FREE, LSOCK, SOCK, CONN, MQ };
static struct { int kind, c, q, flags, bound, listening, shut; } F[NF];
#define NQ 6
static struct mq { int used, linked; char name[64]; long maxmsg, cap, msgsize; int n, seq; struct { char *p; size_t len; unsigned prio; int seq, stale; } m[80]; } Q[NQ];
static struct shared { int n; struct { char name[64]; long msgsize; } q[NQ]; } *SH;
static int mine(int fd) { return fd >= FB && fd < FB + NF; }
static int newfd_(int conn) { for (int i = !conn && o_fd0 == 2; i < NF; i++) if (F[i].kind == FREE) { memset(&F[i], 0, sizeof F[i]); F[i].c = -1; return FB + i; } return -1; }
static int connof(int fd) { return mine(fd) && F[fd - FB].kind == CONN ? F[fd - FB].c : -1; }
static int nopen(void) { int n = 0; for (int i = 0; i < NF; i++) n += F[i].kind == CONN; return n; }
static int backlog(void) { for (int i = 0; i < nc; i++) if (C[i].state == 1) return 1; return 0; }
static int listening(int fd) { return mine(fd) && F[fd - FB].kind == LSOCK; }

static int lports[8];
static int port_open(void) {
	int n = 0;
	for (int i = 0; i < NF; i++) if (F[i].kind == LSOCK && !F[i].shut && F[i].listening) lports[n++] = F[i].bound;
	/* a thread that waits in accept() keeps the socket it waits on alive */
	for (int i = 0; i < nt; i++) if (T[i].state == T_WAIT && T[i].op && !strcmp(T[i].op, "accept") && !listening(T[i].opfd)) lports[n++] = -1;
	return n;
}
/* ------------------------------------------------------------------ what the clients do */
static int env_actions(int *act, int *who) {       /* 0 connect 1 deliver 2 leave 3 drain */
	int n = 0;
	static int quota;
	(void)quota;
	int first = -1;
	for (int i = 0; i < nc; i++) if (C[i].state == 0 && C[i].hold != 2) { if (first < 0) first = i; }
	if (first >= 0 && port_open()) { act[n] = 0; who[n++] = first; }
	for (int i = 0; i < nc; i++) {
		struct conn *c = &C[i];
		if (c->state != 1 && c->state != 2) continue;
		if (c->gone || c->reset) continue;
		if (c->hold) continue;
		if (c->cur < c->nseg) { act[n] = 1; who[n++] = i; }
		if (c->kind != 'k' && c->cur >= c->leave_after) { act[n] = 2; who[n++] = i; }
		if (c->window == 0) { act[n] = 3; who[n++] = i; }
	}
	return n;
}
static void env_do(int a, int w) {
	struct conn *c = &C[w];
	last_progress = steps;
	switch (a) {
	case 0: c->state = 1; ev("connect"); ji("c", w); fputc('}', OUT); break;
	case 1:
		c->in = realloc(c->in, c->inn + c->segn[c->cur] + 1);
		memcpy(c->in + c->inn, c->seg[c->cur], c->segn[c->cur]); c->inn += c->segn[c->cur];
		ev("deliver"); ji("c", w); ji("n", c->segn[c->cur]); fputc('}', OUT);
		c->cur++; break;
	case 2:
		if (c->kind == 'a' && c->state == 1) { c->state = 4; ev("aborted"); ji("c", w); fputc('}', OUT); break; }
		if (c->kind == 'r') c->reset = 1;
		c->gone = 1;
		ev("leave"); ji("c", w); ji("reset", c->reset); fputc('}', OUT); break;
	case 3: c->window = 1 + rnd(3); break;
	}
}
static int aborted_pending;

static void quiet(int final) {
	int blocked = 0;
	for (int i = 0; i < nt; i++) if (T[i].state == T_WAIT && T[i].op && !strcmp(T[i].op, "recv")) blocked++;
	ev("quiet"); ji("final", final); ji("inrecv", blocked); ji("returned", returned);
	int n = port_open();
	fprintf(OUT, ",\"ports\":[");
	for (int i = 0; i < n; i++) fprintf(OUT, i ? ",%d" : "%d", lports[i]);
	fputc(']', OUT);
	int acc = 0, alive = 0;
	for (int i = 0; i < nt; i++) {
		if (T[i].state == T_WAIT && T[i].op && !strcmp(T[i].op, "accept")) acc++;
		if (T[i].state != T_DONE && i) alive++;
	}
	ji("accepting", acc); ji("threads", alive);
	fputc('}', OUT);
}

/* Chooses who goes on; performs what the clients do on the way.  Called with the lock held. */
static int env_prio[NC + 1];
static int find_worker(int k) {
	static int map[NT]; static int init;
	if (!init) { init = 1; for (int i = 0; i < NT; i++) map[i] = -1; }
	if (map[k] >= 0) return map[k];
	for (int i = 1; i < nt; i++) {
		int usedby = 0;
		for (int j = 0; j < NT; j++) usedby |= map[j] == i;
		if (!usedby && T[i].state == T_WAIT && T[i].op && !strcmp(T[i].op, "take0")) return map[k] = i;
	}
	return -1;
}
static int find_role(const char *op) {
	for (int i = 1; i < nt; i++) if (T[i].state != T_DONE && T[i].op && !strncmp(T[i].op, op, strlen(op))) return i;
	return -1;
}
static int role_thread[3] = { -1, -1, -1 };
static int tok_left; static long tok_vis; static int tok_th = -1;
/* a token: C3 D3 L3 (clients), A:<event> R:<event> W0:<event> (run that thread until it did <event>) */
static int next_scripted(void) {
	for (;;) {
		if (tok_th >= 0) {
			struct th *t = &T[tok_th];
			const char *want = strchr(sched_tok[schedpos], ':') + 1;
			if (t->vis > tok_vis && t->lastvis && !strcmp(t->lastvis, want)) { followed++; tok_th = -1; schedpos++; continue; }
			if (tok_left-- > 0 && enabled(t)) return tok_th;
			diverged++; tok_th = -1; schedpos++; continue;
		}
		if (schedpos >= nsched) return -1;
		char *k = sched_tok[schedpos];
		int act[3 * NC], who[3 * NC], n = env_actions(act, who);
		if (k[0] == 'C' || k[0] == 'D' || k[0] == 'L') {
			int a = k[0] == 'C' ? 0 : k[0] == 'D' ? 1 : 2, w = atoi(k + 1), hit = 0;
			for (int i = 0; i < n; i++) if (act[i] == a && who[i] == w) { env_do(a, w); hit = 1; break; }
			if (hit) followed++; else diverged++;
			schedpos++; continue;
		}
		/* everybody has to be where the design starts: waiting for work */
		for (int i = 0; i < nt; i++) if (T[i].state == T_NEW) return i;
		if (k[0] == 'A') { if (role_thread[0] < 0) role_thread[0] = find_role("accept"); tok_th = role_thread[0]; }
		else if (k[0] == 'R') { if (role_thread[1] < 0) role_thread[1] = find_role("take1"); tok_th = role_thread[1]; }
		else tok_th = find_worker(atoi(k + 1));
		if (tok_th < 0) {
			/* not started yet: let the others get ready */
			int cand[NT], m = 0;
			for (int i = 0; i < nt; i++) if (enabled(&T[i]) && !(T[i].op && strstr("accept take0 take1", T[i].op))) cand[m++] = i;
			if (m) return cand[rnd(m)];
			diverged++; schedpos++; continue;
		}
		tok_left = 200; tok_vis = T[tok_th].vis;
	}
}
static const char BB[] = "bb";
static int pick(void) {
	for (;;) {
		if (!(me && me->op == BB)) steps++;      /* turns inside a computation do not count */
		if (nev > maxev) done_run("spin");
		if (nsched) { int k = next_scripted(); if (k >= 0) return k; }
		int act[3 * NC], who[3 * NC], n = env_actions(act, who), cand[NT], m = 0, sl[NT], s = 0;
		for (int i = 0; i < nt; i++) if (enabled(&T[i])) {
			if (T[i].sleepy) sl[s++] = i; else cand[m++] = i;
		}
		if ((n + m == 0 && s == 0) || (n == 0 && steps - last_progress > 4000)) {
			int held = 0;
			for (int i = 0; i < nc; i++) held += C[i].hold && (C[i].state == 1 || C[i].state == 2 || (C[i].state == 0 && port_open()));
			quiet(!held);
			if (!held) { ev("stats"); ji("followed", followed); ji("diverged", diverged); fputc('}', OUT); done_run(NULL); }
			for (int i = 0; i < nc; i++) C[i].hold = 0;
			last_progress = steps;
			continue;
		}
		if (m + n == 0 || (s && rnd(50) == 0)) return sl[rnd(s)];
		if (o_starve >= 0) {              /* one thread only gets what the others leave */
			int k = 0;
			for (int i = 0; i < m; i++) if (cand[i] != o_starve) cand[k++] = cand[i];
			if (k + n) m = k;
		}
		if (o_first && n) { int k = rnd(n); env_do(act[k], who[k]); continue; }   /* clients first: everything at once */
		if (o_pct) {
			int best = -1, bp = -1;
			for (int i = 0; i < m; i++) if (T[cand[i]].prio > bp) { bp = T[cand[i]].prio; best = cand[i]; }
			int be = -1;
			for (int i = 0; i < n; i++) if (env_prio[who[i]] > bp) { bp = env_prio[who[i]]; be = i; }
			if (rnd(o_pct) == 0) { if (be >= 0) env_prio[who[be]] = rnd(1000); else T[best].prio = rnd(1000); }
			if (be >= 0) { env_do(act[be], who[be]); continue; }
			return best;
		}
		if (o_burst && m && rnd(o_burst)) {   /* keep going with the same thread for a while */
			for (int i = 0; i < m; i++) if (cand[i] == cur) return cur;
		}
		unsigned k = rnd(m + n);
		if (k < (unsigned)m) return cand[k];
		env_do(act[k - m], who[k - m]);
	}
}
static void hand_over(void) {           /* lock held; the caller has set its own state */
	int k = pick();
	cur = k;
	if (&T[k] != me) {
		if (T[k].state == T_NEW) T[k].state = T_RUN;
		__real_pthread_cond_signal(&T[k].cv);
	}
}
static void die_if_cancelled(void);
static void sched_on(const char *op, int fd, int (*pred)(void *), void *arg, int sleepy) {
	if (!me) return;
	__real_pthread_mutex_lock(&big);
	me->state = T_WAIT; me->pred = pred; me->parg = arg; me->op = op; me->opfd = fd; me->sleepy = sleepy;
	hand_over();
	while (cur != me->id) __real_pthread_cond_wait(&me->cv, &big);
	me->state = T_RUN; me->op = NULL; me->sleepy = 0;
	pthread_mutex_unlock(&big);
	if (op != BB) die_if_cancelled();
}
static void step(const char *op) { sched_on(op, -1, always, NULL, 0); }
static void fine(const char *op) { if (o_fine && me && me->state == T_RUN && cur == me->id && rnd(o_fine) == 0) sched_on(op, -1, always, NULL, 0); }
static void finish_thread(void *x) {
	(void)x;
	__real_pthread_mutex_lock(&big);
	me->state = T_DONE;
	hand_over();
	pthread_mutex_unlock(&big);
}
static void die_if_cancelled(void) { if (me->cancelled) pthread_exit(PTHREAD_CANCELED); }
static void *trampoline(void *x) {
	struct th *t = x;
	me = t;
	__real_pthread_mutex_lock(&big);
	while (cur != t->id) __real_pthread_cond_wait(&t->cv, &big);
	t->state = T_RUN;
	pthread_mutex_unlock(&big);
	void *r;
	pthread_cleanup_push(finish_thread, NULL);
	r = t->fn(t->arg);
	pthread_cleanup_pop(1);
	return r;
}
int __wrap_pthread_create(pthread_t *p, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
	(void)a;
	static int n;
	step("create");
	if (++n == f_thread || nt >= NT) { ev("thread"); ji("ok", 0); fputc('}', OUT); return EAGAIN; }
	struct th *t = &T[nt];
	t->id = nt; t->fn = fn; t->arg = arg; t->state = T_NEW; t->prio = rnd(1000); t->conn = -1;
	pthread_cond_init(&t->cv, NULL);
	nt++;
	if (__real_pthread_create(&t->p, NULL, trampoline, t) != 0) done_run("harness");
	*p = t->p;
	ev("thread"); ji("ok", 1); fputc('}', OUT);
	step("created");
	return 0;
}
static struct th *byp(pthread_t p) { for (int i = 0; i < nt; i++) if (pthread_equal(T[i].p, p)) return &T[i]; return NULL; }
static int p_done(void *x) { return ((struct th *)x)->state == T_DONE; }
int __wrap_pthread_join(pthread_t p, void **r) {
	struct th *t = byp(p);
	if (!t) return ESRCH;
	sched_on("join", -1, p_done, t, 0);
	if (r) *r = NULL;
	return 0;
}
int __wrap_pthread_detach(pthread_t p) { (void)p; return 0; }
int __wrap_pthread_cancel(pthread_t p) { struct th *t = byp(p); step("cancel"); if (t && t->state != T_DONE) t->cancelled = 1; return 0; }
/* locks, should there be any */
static int p_unlocked(void *x) { pthread_mutex_t *m = x; if (pthread_mutex_trylock(m)) return 0; pthread_mutex_unlock(m); return 1; }
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
	if (!me) return __real_pthread_mutex_lock(m);
	do sched_on("lock", -1, p_unlocked, m, 0); while (pthread_mutex_trylock(m));
	return 0;
}
static int p_woken(void *x) { return ((struct th *)x)->woken; }
int __wrap_pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
	if (!me) return __real_pthread_cond_wait(c, m);
	me->woken = 0; me->parg = c; me->opfd = 0;
	pthread_mutex_unlock(m);
	struct th *t = me; (void)t;
	me->prio = me->prio; me->conn = me->conn;
	me->arg = c;
	sched_on("cond", -1, p_woken, me, 0);
	return __wrap_pthread_mutex_lock(m);
}
int __wrap_pthread_cond_signal(pthread_cond_t *c) { step("signal"); for (int i = 0; i < nt; i++) if (T[i].op && !strcmp(T[i].op, "cond") && T[i].arg == c && !T[i].woken) { T[i].woken = 1; break; } return 0; }
int __wrap_pthread_cond_broadcast(pthread_cond_t *c) { step("signal"); for (int i = 0; i < nt; i++) if (T[i].op && !strcmp(T[i].op, "cond") && T[i].arg == c) T[i].woken = 1; return 0; }
static int p_sem(void *x) { int v = 0; sem_getvalue(x, &v); return v > 0; }
int __wrap_sem_wait(sem_t *s) { sched_on("sem", -1, p_sem, s, 0); return sem_trywait(s); }
int __real_sem_post(sem_t *);
int __wrap_sem_post(sem_t *s) { step("post"); return __real_sem_post(s); }
int __wrap_usleep(useconds_t u) { (void)u; sched_on("sleep", -1, always, NULL, 1); return 0; }
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { (void)a; (void)b; sched_on("sleep", -1, always, NULL, 1); return 0; }
unsigned __wrap_sleep(unsigned s) { (void)s; sched_on("sleep", -1, always, NULL, 1); return 0; }
int __wrap_sched_yield(void) { sched_on("sleep", -1, always, NULL, 1); return 0; }
/* points inside the code where another thread may get its turn; the code under test calls the first at every basic block */
void __sanitizer_cov_trace_pc(void) { if (o_bb && me && me->state == T_RUN && cur == me->id && rnd(o_bb) == 0) sched_on(BB, -1, always, NULL, 0); }
void __wrap_m38_log_msg(int l, const char *f, ...) { (void)l; (void)f; fine("log"); }
void __wrap_perror(const char *s) { (void)s; }
int __wrap_regexec(const regex_t *r, const char *s, size_t n, regmatch_t m[], int f) { fine("regexec"); int k = __real_regexec(r, s, n, m, f); fine("regexec"); return k; }
void *__wrap_malloc(size_t n) { fine("malloc"); return __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { fine("calloc"); return __real_calloc(n, m); }

/* ------------------------------------------------------------------ sockets */
static void foreign(const char *op, int fd) { ev("foreign"); js("op", op); ji("fd", fd); ji("t", me ? me->id : -1); fputc('}', OUT); }
int __wrap_socket(int d, int t, int p) {
	(void)d; (void)t; (void)p; static int n;
	step("socket");
	if (++n == f_sock) { errno = EMFILE; return -1; }
	int fd = newfd_(0); F[fd - FB].kind = SOCK; return fd;
}
int __wrap_setsockopt(int fd, int l, int o, const void *v, socklen_t n) { (void)l; (void)o; (void)v; (void)n; if (!mine(fd) || F[fd - FB].kind == FREE) foreign("setsockopt", fd); return 0; }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t n) {
	(void)n; static int k;
	step("bind");
	if (!mine(fd) || F[fd - FB].kind != SOCK) { errno = EBADF; return -1; }
	if (++k == f_bind) { errno = EADDRINUSE; return -1; }
	F[fd - FB].bound = ntohs(((const struct sockaddr_in *)a)->sin_port); return 0;
}
int __wrap_listen(int fd, int b) {
	(void)b; static int k;
	step("listen");
	if (!mine(fd) || (F[fd - FB].kind != SOCK && F[fd - FB].kind != LSOCK)) { errno = EBADF; return -1; }
	if (++k == f_listen) { errno = EADDRINUSE; return -1; }
	F[fd - FB].kind = LSOCK; F[fd - FB].listening = 1;
	ev("listen"); ji("port", F[fd - FB].bound); fputc('}', OUT);
	return 0;
}
static int p_accept(void *x) {
	int fd = (int)(intptr_t)x;
	if (!listening(fd)) return 0;
	if (F[fd - FB].shut) return 1;
	for (int i = 0; i < nc; i++) if (C[i].state == 4) return 1;
	for (int i = 0; i < nflt; i++) if (flt[i].call == 0 && flt[i].nth == cnt[0] + 1) return 1;
	return backlog();
}
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *n, int fl) {
	(void)fl;
	if (!listening(fd)) { errno = EBADF; step("accept"); return -1; }
	sched_on("accept", fd, p_accept, (void *)(intptr_t)fd, 0);
	if (!listening(fd)) { errno = EBADF; return -1; }
	if (F[fd - FB].shut) { errno = EINVAL; return -1; }
	int e = fault(0);
	for (int i = 0; !e && i < nc; i++) if (C[i].state == 4) { C[i].state = 5; e = ECONNABORTED; }
	if (!e && nopen() >= o_fdlimit) e = EMFILE;
	static int nomore;
	if (e) {
		/* (out of descriptors: it may ask again and again) */
		if (e != EMFILE || nomore++ < 20) { progress("accept"); ev("accepterr"); ji("err", e); fputc('}', OUT); }
		errno = e; return -1;
	}
	int k = -1;
	for (int i = 0; i < nc; i++) if (C[i].state == 1) { k = i; break; }
	int nf = newfd_(1);
	F[nf - FB].kind = CONN; F[nf - FB].c = k; C[k].fd = nf; C[k].state = 2;
	if (a && n && *n >= sizeof(struct sockaddr_in)) { struct sockaddr_in s = { .sin_family = AF_INET, .sin_port = htons(40000 + k) }; memcpy(a, &s, sizeof s); *n = sizeof s; }
	progress("accept");
	ev("accept"); ji("t", me->id); ji("c", k); ji("fd", nf); fputc('}', OUT);
	return nf;
}
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *n) { return __wrap_accept4(fd, a, n, 0); }

static int p_recv(void *x) {
	int fd = (int)(intptr_t)x, k = connof(fd);
	if (k < 0) return 1;
	return C[k].inpos < C[k].inn || C[k].gone || C[k].reset;
}
static ssize_t do_recv(int fd, void *b, size_t n, int fl) {
	if (connof(fd) < 0) { foreign("recv", fd); step("badrecv"); errno = EBADF; return -1; }
	struct conn *c = &C[connof(fd)]; int k = connof(fd);
	if ((fl & MSG_DONTWAIT) || (F[fd - FB].flags & O_NONBLOCK)) {
		step("recvnb");
		if (!p_recv((void *)(intptr_t)fd)) { errno = EAGAIN; return -1; }
	} else sched_on("recv", fd, p_recv, (void *)(intptr_t)fd, 0);
	if (connof(fd) != k) { foreign("recv", fd); errno = EBADF; return -1; }
	ssize_t r;
	if (c->reset) { r = -1; errno = ECONNRESET; }
	else if (c->inpos < c->inn) {
		r = c->inn - c->inpos < n ? c->inn - c->inpos : n;
		memcpy(b, c->in + c->inpos, r);
		if (!(fl & MSG_PEEK)) c->inpos += r;
	} else r = 0;
	int e = errno;
	progress("recv"); me->conn = k;
	ev("recv"); ji("t", me->id); ji("c", k); ji("n", r); fputc('}', OUT);
	errno = e;
	return r;
}
static int p_send(void *x) {
	int fd = (int)(intptr_t)x, k = connof(fd);
	if (k < 0) return 1;
	return C[k].window != 0 || C[k].gone || C[k].reset;
}
static ssize_t do_send(int fd, const void *b, size_t n, int fl) {
	int k = connof(fd);
	if (k < 0) { foreign("send", fd); step("badsend"); errno = EBADF; return -1; }
	struct conn *c = &C[k];
	if ((fl & MSG_DONTWAIT) || (F[fd - FB].flags & O_NONBLOCK)) {
		step("sendnb");
		if (!p_send((void *)(intptr_t)fd)) { errno = EAGAIN; return -1; }
	} else sched_on("send", fd, p_send, (void *)(intptr_t)fd, 0);
	if (connof(fd) != k) { foreign("send", fd); errno = EBADF; return -1; }
	ssize_t r; int e = 0;
	if ((c->gone || c->reset) && c->afterlife-- <= 0) { r = -1; e = c->reset ? ECONNRESET : EPIPE; }
	else {
		size_t lim = c->nplan ? (size_t)c->plan[c->planpos++ % c->nplan] : n;
		if (lim == 0) lim = n;
		r = n < lim ? n : lim;
		if (c->window > 0) c->window--;
	}
	progress("send");
	ev("send"); ji("t", me->id); ji("c", k); ji("len", n > 2000000000 ? 2000000000 : n); ji("ret", r); jb("b", b, r > 0 ? r : 0); fputc('}', OUT);
	if (e == EPIPE && !(fl & MSG_NOSIGNAL)) {
		struct sigaction sa; sigaction(SIGPIPE, NULL, &sa);
		if (sa.sa_handler == SIG_DFL) done_run("sigpipe");
	}
	errno = e;
	return r;
}
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { return do_recv(fd, b, n, f); }
ssize_t __wrap_recvfrom(int fd, void *b, size_t n, int f, struct sockaddr *a, socklen_t *l) { (void)a; (void)l; return do_recv(fd, b, n, f); }
ssize_t __wrap_read(int fd, void *b, size_t n) { return mine(fd) ? do_recv(fd, b, n, 0) : __real_read(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { return do_send(fd, b, n, f); }
ssize_t __wrap_sendto(int fd, const void *b, size_t n, int f, const struct sockaddr *a, socklen_t l) { (void)a; (void)l; return do_send(fd, b, n, f); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { return mine(fd) ? do_send(fd, b, n, 0) : __real_write(fd, b, n); }
int __wrap_shutdown(int fd, int how) {
	step("shutdown");
	if (!mine(fd) || F[fd - FB].kind == FREE) { foreign("shutdown", fd); errno = EBADF; return -1; }
	if (F[fd - FB].kind == LSOCK) F[fd - FB].shut = 1;
	(void)how; return 0;
}
int __wrap_fcntl(int fd, int cmd, ...) {
	va_list ap; va_start(ap, cmd); long a = va_arg(ap, long); va_end(ap);
	if (!mine(fd)) return __real_fcntl(fd, cmd, a);
	if (F[fd - FB].kind == FREE) { errno = EBADF; return -1; }
	if (cmd == F_GETFL) return F[fd - FB].flags;
	if (cmd == F_SETFL) F[fd - FB].flags = a;
	return 0;
}
int __wrap_poll(struct pollfd *p, nfds_t n, int tmo) {
	for (int tries = 0; ; tries++) {
		int r = 0;
		for (nfds_t i = 0; i < n; i++) {
			p[i].revents = 0;
			int k = connof(p[i].fd);
			if (k < 0) { if (listening(p[i].fd) && backlog()) p[i].revents |= p[i].events & POLLIN; }
			else {
				if (p_recv((void *)(intptr_t)p[i].fd)) p[i].revents |= p[i].events & POLLIN;
				if (p_send((void *)(intptr_t)p[i].fd)) p[i].revents |= p[i].events & POLLOUT;
			}
			r += p[i].revents != 0;
		}
		if (r || tmo == 0 || (tmo > 0 && tries > 2)) return r;
		sched_on("sleep", -1, always, NULL, 1);
	}
}
/* files the server itself opened */
#define MAXREAL 1024
static char opened[MAXREAL];
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...) {
	va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
	int fd = __real_open(p, fl, mode);
	if (me && fd >= 0 && fd < MAXREAL) opened[fd] = 1;
	return fd;
}
ssize_t __wrap_writev(int fd, const struct iovec *v, int n) {
	size_t t = 0, o = 0;
	for (int i = 0; i < n; i++) t += v[i].iov_len;
	char *b = __real_malloc(t + 1);
	for (int i = 0; i < n; i++) { memcpy(b + o, v[i].iov_base, v[i].iov_len); o += v[i].iov_len; }
	ssize_t r = mine(fd) ? do_send(fd, b, t, 0) : __real_write(fd, b, t);
	int e = errno; free(b); errno = e;
	return r;
}
ssize_t __wrap_sendmsg(int fd, const struct msghdr *m, int fl) {
	size_t t = 0, o = 0;
	for (size_t i = 0; i < m->msg_iovlen; i++) t += m->msg_iov[i].iov_len;
	char *b = __real_malloc(t + 1);
	for (size_t i = 0; i < m->msg_iovlen; i++) { memcpy(b + o, m->msg_iov[i].iov_base, m->msg_iov[i].iov_len); o += m->msg_iov[i].iov_len; }
	ssize_t r = do_send(fd, b, t, fl);
	int e = errno; free(b); errno = e;
	return r;
}
int __wrap_close(int fd) {
	if (!mine(fd)) {
		if (fd < 0) { errno = EBADF; return -1; }
		if (fd >= MAXREAL || !opened[fd]) { foreign("close", fd); return 0; }
		opened[fd] = 0;
		return __real_close(fd);
	}
	step("close");
	int kind = F[fd - FB].kind, k = connof(fd);
	if (kind == FREE) { foreign("close", fd); errno = EBADF; return -1; }
	if (kind == CONN) {
		C[k].state = 3;
		progress("close");
		ev("close"); ji("t", me->id); ji("c", k); fputc('}', OUT);
	}
	if (kind == LSOCK) { ev("unlisten"); fputc('}', OUT); }
	F[fd - FB].kind = FREE;
	return 0;
}

/* ------------------------------------------------------------------ message queues */
static int qof(int d) { return mine(d) && F[d - FB].kind == MQ ? F[d - FB].q : -1; }
static int qclass(int q) { return Q[q].msgsize == sizeof(int) ? 0 : 1; }
mqd_t __wrap_mq_open(const char *name, int fl, ...) {
	va_list ap; va_start(ap, fl); mode_t mode = 0; struct mq_attr *at = NULL;
	if (fl & O_CREAT) { mode = va_arg(ap, mode_t); at = va_arg(ap, struct mq_attr *); }
	va_end(ap); (void)mode;
	static int n;
	step("mq_open");
	int q = -1;
	for (int i = 0; i < NQ; i++) if (Q[i].linked && !strcmp(Q[i].name, name)) q = i;
	if (fl & O_CREAT && ++n == f_mq) { errno = ENOSPC; ev("mqfail"); fputc('}', OUT); return -1; }
	if (q < 0) {
		if (!(fl & O_CREAT)) { errno = ENOENT; return -1; }
		if (at && (at->mq_maxmsg <= 0 || at->mq_maxmsg > 10 || at->mq_msgsize <= 0 || at->mq_msgsize > 8192)) { errno = EINVAL; return -1; }
		for (int i = 0; i < NQ; i++) if (!Q[i].used) { q = i; break; }
		if (q < 0) { errno = ENOSPC; return -1; }
		memset(&Q[q], 0, sizeof Q[q]);
		Q[q].used = Q[q].linked = 1; snprintf(Q[q].name, sizeof Q[q].name, "%s", name);
		Q[q].maxmsg = at ? at->mq_maxmsg : 10; Q[q].msgsize = at ? at->mq_msgsize : 8192;
		int lim = qclass(q) == 0 ? o_cap0 : o_cap1;       /* room, should the system have less of it */
		Q[q].cap = Q[q].maxmsg < lim ? Q[q].maxmsg : lim;
		if (SH) {
			int known = 0;
			for (int i = 0; i < SH->n; i++) known |= !strcmp(SH->q[i].name, name);
			if (!known && SH->n < NQ) { snprintf(SH->q[SH->n].name, 64, "%s", name); SH->q[SH->n++].msgsize = Q[q].msgsize; }
		}
	} else if ((fl & O_CREAT) && (fl & O_EXCL)) { errno = EEXIST; return -1; }
	int fd = newfd_(0);
	if (fd < 0) { errno = EMFILE; return -1; }
	F[fd - FB].kind = MQ; F[fd - FB].q = q; F[fd - FB].flags = fl;
	return fd;
}
int __wrap_mq_close(mqd_t d) { step("mq_close"); if (qof(d) < 0) { foreign("mq_close", d); errno = EBADF; return -1; } F[d - FB].kind = FREE; return 0; }
int __wrap_mq_unlink(const char *name) {
	step("mq_unlink");
	for (int i = 0; i < NQ; i++) if (Q[i].linked && !strcmp(Q[i].name, name)) { Q[i].linked = 0; return 0; }
	errno = ENOENT; return -1;
}
/* which connection a message is about */
static int msg_conn(int q, const char *p, size_t n) {
	if (Q[q].msgsize == sizeof(int) && n >= sizeof(int)) { int fd; memcpy(&fd, p, sizeof fd); return connof(fd); }
	if (Q[q].msgsize == sizeof(void *) && n >= sizeof(void *)) { m38_handled_request *r; memcpy(&r, p, sizeof r); return r ? connof(r->accept_fd) : -1; }
	return -1;
}
static int p_room(void *x) { int q = (int)(intptr_t)x; return Q[q].n < Q[q].cap; }
static int p_put(void *x) { int q = (int)(intptr_t)x; int call = 1 + qclass(q); for (int i = 0; i < nflt; i++) if (flt[i].call == call && flt[i].nth == cnt[call] + 1) return 1; return p_room(x); }
static int do_put(mqd_t d, const char *p, size_t n, unsigned prio, const struct timespec *ts) {
	int q = qof(d);
	if (q < 0) { foreign("mq_send", d); step("badput"); errno = EBADF; return -1; }
	if ((F[d - FB].flags & O_ACCMODE) == O_RDONLY) { step("badput"); errno = EBADF; return -1; }
	if (n > (size_t)Q[q].msgsize) { step("badput"); errno = EMSGSIZE; return -1; }
	int k = qclass(q), e = 0, c = msg_conn(q, p, n);
	if (F[d - FB].flags & O_NONBLOCK) { step("putnb"); e = fault(1 + k); if (!e && !p_room((void *)(intptr_t)q)) e = EAGAIN; }
	else if (ts) {
		int past = ts->tv_sec < time(NULL);
		sched_on("puttimed", d, always, NULL, !past);
		e = fault(1 + k); if (!e && !p_room((void *)(intptr_t)q)) e = ETIMEDOUT;
	} else { sched_on(k ? "put1" : "put0", d, p_put, (void *)(intptr_t)q, 0); e = fault(1 + k); }
	if (!e && Q[q].n >= Q[q].cap) e = EINTR;
	progress("put");
	if (e) { ev("refused"); ji("t", me->id); ji("q", k); ji("c", c); ji("n", Q[q].n); ji("cap", Q[q].cap); ji("err", e); fputc('}', OUT); errno = e; return -1; }
	int i = Q[q].n++;
	Q[q].m[i].p = __real_malloc(n + 1); memcpy(Q[q].m[i].p, p, n); Q[q].m[i].len = n; Q[q].m[i].prio = prio; Q[q].m[i].seq = Q[q].seq++; Q[q].m[i].stale = 0;
	ev("put"); ji("t", me->id); ji("q", k); ji("c", c); ji("n", Q[q].n); ji("cap", Q[q].cap); fputc('}', OUT);
	return 0;
}
int __wrap_mq_send(mqd_t d, const char *p, size_t n, unsigned prio) { return do_put(d, p, n, prio, NULL); }
int __wrap_mq_timedsend(mqd_t d, const char *p, size_t n, unsigned prio, const struct timespec *ts) { return do_put(d, p, n, prio, ts); }
static int p_take(void *x) { int q = (int)(intptr_t)x; int call = 3 + qclass(q); for (int i = 0; i < nflt; i++) if (flt[i].call == call && flt[i].nth == cnt[call] + 1) return 1; return Q[q].n > 0; }
static ssize_t do_take(mqd_t d, char *p, size_t n, unsigned *prio, const struct timespec *ts) {
	int q = qof(d);
	if (q < 0) { foreign("mq_receive", d); step("badtake"); errno = EBADF; return -1; }
	if ((F[d - FB].flags & O_ACCMODE) == O_WRONLY) { step("badtake"); errno = EBADF; return -1; }
	if (n < (size_t)Q[q].msgsize) { step("badtake"); errno = EMSGSIZE; return -1; }
	int k = qclass(q), e = 0;
	if (F[d - FB].flags & O_NONBLOCK) { step("takenb"); e = fault(3 + k); if (!e && !Q[q].n) e = EAGAIN; }
	else if (ts) { sched_on("taketimed", d, always, NULL, 1); e = fault(3 + k); if (!e && !Q[q].n) e = ETIMEDOUT; }
	else { sched_on(k ? "take1" : "take0", d, p_take, (void *)(intptr_t)q, 0); e = fault(3 + k); }
	if (!e && !Q[q].n) e = EINTR;
	progress("take");
	if (e) { errno = e; return -1; }
	int b = 0;
	for (int i = 1; i < Q[q].n; i++) if (Q[q].m[i].prio > Q[q].m[b].prio || (Q[q].m[i].prio == Q[q].m[b].prio && Q[q].m[i].seq < Q[q].m[b].seq)) b = i;
	size_t len = Q[q].m[b].len;
	if (Q[q].m[b].stale) { ev("stale"); ji("q", k); fputc('}', OUT); done_run(NULL); }
	memcpy(p, Q[q].m[b].p, len); if (prio) *prio = Q[q].m[b].prio;
	int c = msg_conn(q, Q[q].m[b].p, len);
	free(Q[q].m[b].p);
	memmove(&Q[q].m[b], &Q[q].m[b + 1], (Q[q].n - b - 1) * sizeof Q[q].m[0]);
	Q[q].n--;
	ev("take"); ji("t", me->id); ji("q", k); ji("c", c); fputc('}', OUT);
	return len;
}
ssize_t __wrap_mq_receive(mqd_t d, char *p, size_t n, unsigned *prio) { return do_take(d, p, n, prio, NULL); }
ssize_t __wrap_mq_timedreceive(mqd_t d, char *p, size_t n, unsigned *prio, const struct timespec *ts) { return do_take(d, p, n, prio, ts); }
int __wrap_mq_getattr(mqd_t d, struct mq_attr *a) {
	int q = qof(d);
	step("mq_getattr");
	if (q < 0) { foreign("mq_getattr", d); errno = EBADF; return -1; }
	memset(a, 0, sizeof *a); a->mq_flags = F[d - FB].flags & O_NONBLOCK; a->mq_maxmsg = Q[q].cap; a->mq_msgsize = Q[q].msgsize; a->mq_curmsgs = Q[q].n;
	return 0;
}
int __wrap_mq_setattr(mqd_t d, const struct mq_attr *a, struct mq_attr *o) {
	int q = qof(d);
	if (q < 0) { errno = EBADF; return -1; }
	if (o) __wrap_mq_getattr(d, o);
	F[d - FB].flags = (F[d - FB].flags & ~O_NONBLOCK) | (a->mq_flags & O_NONBLOCK);
	return 0;
}

/* ------------------------------------------------------------------ the application */
static struct rec { unsigned char *out; size_t n; uint32_t sum; int live, slot; } R[NC][2];
static uint32_t sum(const unsigned char *p, size_t n) { uint32_t h = 7; for (size_t i = 0; i < n; i++) h = h * 31 + p[i]; return h; }
#define S_NF 9
static char *wrap(const char *a) { char *r = __real_malloc(strlen(a) + 3); sprintf(r, "[%s]", a); return r; }
static int run_handler(int s, const m38_http_request *q, m38_http_response *rs) {
	const char *sl = strrchr(q->resource, '/');
	int c = sl && sl[1] >= '0' && sl[1] <= '9' ? atoi(sl + 1) : -1, code = 200;
	if (c < 0 || c >= nc) c = -1;
	progress("handler");
	ev("handler"); ji("t", me ? me->id : -1); ji("c", c); ji("slot", s); ji("on", me ? me->conn : -1);
	jb("verb", q->verb, strnlen(q->verb, sizeof q->verb)); jb("res", q->resource, strnlen(q->resource, sizeof q->resource));
	jb("head", q->full_header, q->full_header ? q->header_len : 0); jb("body", q->full_body, q->full_body ? q->body_len : 0);
	for (int i = 1; i < 3; i++) {         /* what the groups of the route matched */
		const regmatch_t *m = &q->matches[i]; size_t rl = strnlen(q->resource, sizeof q->resource);
		if (s == 8 && m->rm_so >= 0 && m->rm_eo >= m->rm_so && (size_t)m->rm_eo <= rl) jb(i == 1 ? "cap1" : "cap2", q->resource + m->rm_so, m->rm_eo - m->rm_so);
		else jb(i == 1 ? "cap1" : "cap2", "", 0);
	}
	fputc('}', OUT);
	step("handler");
	if (q->form_elements) {
		size_t n = 0; void *v = sparse_dict_get(q->form_elements, "b", 1, &n);
		ev("fget"); ji("c", c); jb("k", "b", 1); ji("nil", v == NULL); jb("v", v, v ? n : 0); fputc('}', OUT);
	}
	char tag[16]; sprintf(tag, "%d", c);
	m38_insert_custom_header(rs, "X-C", 3, tag, strlen(tag));
	int n = c >= 0 ? C[c].size : 3;
	unsigned char *b = __real_malloc(n + 1);
	for (int i = 0; i < n; i++) b[i] = body_byte(c, i);
	switch (s) {
	case 0: case 4: rs->out = b; rs->outsize = n; break;
	case 1: m38_return_raw_buffer((char *)b, n, rs); break;         /* never freed: static as far as the server knows */
	case 2: { free(b); char f[32]; sprintf(f, "f%d.txt", c); code = m38_mmap_file(f, rs); break; }
	case 3: free(b); code = 404; break;
	case 5: rs->out = b; rs->outsize = n; code = 404; break;
	case 6: rs->out = b; rs->outsize = n; code = 302; break;
	case 7: case 8: {
		static const char T[] = "n=xXx @N xXx;XxX wrap xXx @N xXx XxX\nxXx LOOP i A xXx<xXx @i xXx>xXx BBL xXx\nend xXx @N xXx\n";
		free(b);
		greshunkel_ctext *x = gshkl_init_context();
		gshkl_add_filter(x, "wrap", wrap, gshkl_filter_cleanup);
		gshkl_add_string(x, "N", tag);
		greshunkel_var a = gshkl_add_array(x, "A");
		for (int j = 0; j < n % 7; j++) gshkl_add_int_to_loop(&a, c * 10 + j);
		if (s == 8) {                 /* the same page from a file; releases the context */
			char f[32]; sprintf(f, "p%d.html", c);
			FILE *o = fopen(f, "w"); fwrite(T, 1, sizeof T - 1, o); fclose(o);
			code = m38_render_file(x, f, rs);
		} else {
			rs->out = (unsigned char *)gshkl_render(x, T, sizeof T - 1, &rs->outsize);
			gshkl_free_context(x);
		}
		break; }
	case S_NF: rs->out = b; rs->outsize = n; code = 404; break;
	}
	struct rec *r = &R[c < 0 ? 0 : c][s == S_NF];
	r->out = rs->out; r->n = rs->outsize; r->sum = rs->out ? sum(rs->out, rs->outsize) : 0; r->live = 1; r->slot = s;
	if (me && rs->out == NULL) rs->extra_data = NULL;
	step("handled");
	progress("hret");
	ev("hret"); ji("t", me ? me->id : -1); ji("c", c); ji("slot", s); ji("code", code); ji("outnil", rs->out == NULL);
	jb("mime", rs->mimetype, strnlen(rs->mimetype, sizeof rs->mimetype)); jb("out", rs->out, rs->out ? rs->outsize : 0); fputc('}', OUT);
	return code;
}
static void run_cleanup(int s, int code, m38_http_response *rs) {
	int c = -1;
	/* static data may be cleaned up for a declined request: found by its slot then */
	for (int i = 0; i < nc && c < 0; i++) { struct rec *r = &R[i][s == S_NF]; if (r->live && r->slot == s && r->out && r->out == rs->out) c = i; }
	struct rec *r = c >= 0 ? &R[c][s == S_NF] : NULL;
	int same = r && rs->outsize == r->n && sum(rs->out, rs->outsize) == r->sum;
	progress("cleanup");
	ev("cleanup"); ji("t", me ? me->id : -1); ji("c", c); ji("slot", s); ji("code", code); ji("same", same); fputc('}', OUT);
	if (r) r->live = 0;
	step("cleanup");
	if (s == 2) m38_mmap_cleanup(code, rs);
	else if (r) m38_heap_cleanup_no_check(code, rs);
}
#define SLOT(i) static int h##i(const m38_http_request *q, m38_http_response *r) { return run_handler(i, q, r); } \
                static void c##i(const int code, m38_http_response *r) { run_cleanup(i, code, r); }
SLOT(0) SLOT(1) SLOT(2) SLOT(3) SLOT(4) SLOT(5) SLOT(6) SLOT(7) SLOT(8) SLOT(9)
static m38_route routes[9];
static int sockfd = -1;
static void add_route(int i, const char *verb, const char *re, int (*h)(const m38_http_request *, m38_http_response *), void (*c)(const int, m38_http_response *)) {
	snprintf(routes[i].verb, sizeof routes[i].verb, "%s", verb); snprintf(routes[i].route_match, sizeof routes[i].route_match, "%s", re);
	snprintf(routes[i].name, sizeof routes[i].name, "r%d", i); routes[i].handler = h; routes[i].cleanup = c;
}
static void run(void) {
	add_route(0, "GET", "^/h/[0-9]+$", h0, c0);
	add_route(1, "GET", "^/s/[0-9]+$", h1, NULL);
	add_route(2, "GET", "^/m/[0-9]+$", h2, c2);
	add_route(3, "GET", "^/n/[0-9]+$", h3, NULL);
	add_route(4, "POST", "^/h/[0-9]+$", h4, c4);
	add_route(5, "GET", "^/e/[0-9]+$", h5, c5);
	add_route(6, "GET", "^/r/[0-9]+$", h6, c6);
	add_route(7, "GET", "^/t/[0-9]+$", h7, c7);
	add_route(8, "GET", "^/(p)/([0-9]+)$", h8, c8);
	m38_route with_groups = { .expected_matches = 2 };
	strcpy(with_groups.verb, routes[8].verb); strcpy(with_groups.name, routes[8].name); strcpy(with_groups.route_match, routes[8].route_match);
	with_groups.handler = h8; with_groups.cleanup = c8;
	memcpy(&routes[8], &with_groups, sizeof with_groups);
	for (int i = 0; i < nc; i++) if (C[i].slot == 2) {
		char f[32]; sprintf(f, "f%d.txt", i);
		FILE *x = fopen(f, "w"); for (int k = 0; k < C[i].size; k++) fputc(body_byte(i, k), x); fclose(x);
	}
	m38_app a = { .main_sock_fd = &sockfd, .port = o_port, .num_threads = o_workers, .routes = routes, .num_routes = 9 };
	static m38_app app_; memcpy(&app_, &a, sizeof a);
	if (o_nf & 1) m38_set_404_handler(&app_, h9);
	if (o_nf & 2) m38_set_404_cleanup(&app_, c9);
	/* what an earlier run may have left in the queues */
	if (o_stale && SH) for (int i = 0; i < SH->n; i++) if (o_staleq >> i & 1) {
		Q[i].used = Q[i].linked = 1; strcpy(Q[i].name, SH->q[i].name); Q[i].maxmsg = 10; Q[i].msgsize = SH->q[i].msgsize; Q[i].cap = 10;
		for (int k = 0; k < o_stale && k < 10; k++) { Q[i].m[k].p = calloc(1, 16); Q[i].m[k].len = Q[i].msgsize < 16 ? Q[i].msgsize : 16; Q[i].m[k].seq = Q[i].seq++; Q[i].m[k].stale = 1; Q[i].n++; }
	}
	nt = 1; me = &T[0]; me->id = 0; me->state = T_RUN; me->p = pthread_self(); me->prio = rnd(1000); cur = 0; me->conn = -1;
	pthread_cond_init(&me->cv, NULL);
	for (int i = 0; i <= NC; i++) env_prio[i] = rnd(1000);
	for (int i = 0; i < nc; i++) { C[i].window = o_window ? (int)rnd(o_window) : -1; C[i].afterlife = C[i].kind == 'r' ? 0 : rnd(3); }
	int rc = m38_http_serve(&app_);
	returned = 1;
	ev("returned"); ji("rc", rc); fputc('}', OUT);
	finish_thread(NULL);
	for (;;) pause();
}

/* ------------------------------------------------------------------ scripts */
void __sanitizer_set_death_callback(void (*)(void));
static void on_death(void) { if (OUT) fflush(OUT); }
static void on_abort(int s) { (void)s; fflush(OUT); _exit(96); }
static void on_alarm(int s) { (void)s; fflush(OUT); _exit(99); }
static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static void parse(char *line) {
	char *sv = NULL, *t = strtok_r(line, " ", &sv);
	if (!t) return;
	if (!strcmp(t, "opt")) {
		while ((t = strtok_r(NULL, " ", &sv))) {
			char *e = strchr(t, '='); *e = 0; int v = atoi(e + 1);
			struct { const char *n; int *p; } o[] = { {"workers",&o_workers},{"cap0",&o_cap0},{"cap1",&o_cap1},{"fine",&o_fine},{"bb",&o_bb},{"pct",&o_pct},{"fdlimit",&o_fdlimit},{"port",&o_port},{"nf",&o_nf},
				{"stale",&o_stale},{"staleq",&o_staleq},{"fd0",&o_fd0},{"window",&o_window},{"burst",&o_burst},{"starve",&o_starve},{"first",&o_first},{"fsock",&f_sock},{"fbind",&f_bind},{"flisten",&f_listen},{"fmq",&f_mq},{"fthread",&f_thread} };
			for (unsigned i = 0; i < sizeof o / sizeof *o; i++) if (!strcmp(o[i].n, t)) *o[i].p = v;
			if (!strcmp(t, "seed")) { rs = strtoull(e + 1, NULL, 10) * 0x9E3779B97F4A7C15ull + 88172645463325252ull; for (int i = 0; i < 5; i++) rnd(2); }
		}
	} else if (!strcmp(t, "conn")) {      /* conn KIND SLOT SIZE HOLD LEAVEAFTER PLAN SEG... */
		struct conn *c = &C[nc++];
		c->kind = strtok_r(NULL, " ", &sv)[0]; c->slot = atoi(strtok_r(NULL, " ", &sv)); c->size = atoi(strtok_r(NULL, " ", &sv));
		c->hold = atoi(strtok_r(NULL, " ", &sv)); c->leave_after = atoi(strtok_r(NULL, " ", &sv));
		char *pl = strtok_r(NULL, " ", &sv), *s2 = NULL;
		for (char *x = strtok_r(pl, ",", &s2); x && c->nplan < 16; x = strtok_r(NULL, ",", &s2)) c->plan[c->nplan++] = atoi(x);
		while ((t = strtok_r(NULL, " ", &sv)) && c->nseg < 24) {
			size_t n = strcmp(t, ".") ? strlen(t) / 2 : 0; unsigned char *p = malloc(n + 1);
			for (size_t i = 0; i < n; i++) p[i] = hexv(t[2*i]) * 16 + hexv(t[2*i+1]);
			c->seg[c->nseg] = p; c->segn[c->nseg++] = n;
		}
		c->fd = -1;
	} else if (!strcmp(t, "fault")) {
		flt[nflt].call = atoi(strtok_r(NULL, " ", &sv)); flt[nflt].nth = atoi(strtok_r(NULL, " ", &sv)); flt[nflt++].err = atoi(strtok_r(NULL, " ", &sv));
	} else if (!strcmp(t, "sched")) {
		while ((t = strtok_r(NULL, " ", &sv)) && nsched < 512) sched_tok[nsched++] = strdup(t);
	}
}
int main(int argc, char **argv) {
	if (argc < 3) return 2;
	FILE *in = fopen(argv[1], "r");
	if (!in) return 2;
	SH = mmap(NULL, sizeof *SH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	SH->n = 0;
	static char line[1 << 20];
	char **ls = NULL; int n = 0, cap = 0; long id = -1;
	FILE *po = fopen(argv[2], "a");
	static const char probe[] = "probe";
	int eof = 0;
	for (int first = 1; !eof; ) {
		int go = 0;
		if (first) { go = 1; first = 0; n = 0; ls = NULL; }
		else {
			if (!fgets(line, sizeof line, in)) { eof = 1; go = 1; strcpy(line, "run"); }
			size_t k = strlen(line); while (k && line[k-1] == '\n') line[--k] = 0;
			if (!strcmp(line, "run")) go = 1;
			else if (k) { if (n == cap) ls = realloc(ls, (cap = cap ? cap * 2 : 64) * sizeof *ls); ls[n++] = strdup(line); continue; }
		}
		if (!go || (id >= 0 && n == 0)) continue;
		/* the first run only tells the names of the queues */
		const char *outp = id < 0 ? "/dev/null" : argv[2];
		if (id >= 0) {
			fprintf(po, "{\"id\":%ld,\"ev\":[{\"e\":\"begin\"", id);
			int w = 2, c0 = 0, nf = 0, port = 8080; (void)c0;
			for (int i = 0; i < n; i++) if (!strncmp(ls[i], "opt", 3)) {
				char *x; if ((x = strstr(ls[i], "workers="))) w = atoi(x + 8); if ((x = strstr(ls[i], " nf="))) nf = atoi(x + 4); if ((x = strstr(ls[i], "port="))) port = atoi(x + 5);
			}
			int fails = 0;
			for (int i = 0; i < n; i++) if (!strncmp(ls[i], "opt", 3)) for (const char **q = (const char *[]){"fsock=", "fbind=", "flisten=", "fmq=", "fthread=", NULL}; *q; q++) { char *x = strstr(ls[i], *q); if (x && atoi(x + strlen(*q)) > 0) fails = 1; }
			fprintf(po, ",\"workers\":%d,\"nf\":%d,\"port\":%d,\"fails\":%d,\"conns\":[", w, nf, port, fails);
			int k = 0;
			for (int i = 0; i < n; i++) if (!strncmp(ls[i], "conn", 4)) {
				char *cp = strdup(ls[i]), *sv = NULL; strtok_r(cp, " ", &sv);
				char *kind = strtok_r(NULL, " ", &sv), *slot = strtok_r(NULL, " ", &sv), *size = strtok_r(NULL, " ", &sv), *hold = strtok_r(NULL, " ", &sv);
				strtok_r(NULL, " ", &sv); strtok_r(NULL, " ", &sv);
				fprintf(po, "%s{\"kind\":\"%s\",\"slot\":%s,\"size\":%s,\"hold\":%s,\"req\":[", k++ ? "," : "", kind, slot, size, hold);
				int f = 0;
				for (char *x; (x = strtok_r(NULL, " ", &sv)); ) if (strcmp(x, ".")) for (; *x; x += 2) fprintf(po, f++ ? ",%d" : "%d", hexv(x[0]) * 16 + hexv(x[1]));
				fprintf(po, "]}"); free(cp);
			}
			fprintf(po, "]}"); fflush(po);
		}
		fflush(NULL);
		pid_t p = fork();
		if (p == 0) {
			__real_close(0); open("/dev/null", O_RDONLY);
			int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("SIM_VERBOSE")) dup2(dn, 2);
			for (int i = 0; i < n; i++) if (strstr(ls[i], " fd0=")) for (int k; (k = dup(0)) < NF && k >= 0; ) ;
			OUT = fopen(outp, "a");
			static char ob[1 << 16]; setvbuf(OUT, ob, _IOFBF, sizeof ob);
			signal(SIGALRM, on_alarm); signal(SIGABRT, on_abort);
			__sanitizer_set_death_callback(on_death);
			struct itimerval it = { {0,0}, {10,0} }; setitimer(ITIMER_REAL, &it, NULL);
			rs = 12345;
			for (int i = 0; i < n; i++) parse(ls[i]);
			if (o_fd0) FB = 0;
			run();
			_exit(0);
		}
		int st = 0; waitpid(p, &st, 0);
		if (id >= 0) {
			int rc = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
			if (rc) fprintf(po, ",{\"e\":\"%s\",\"rc\":%d}", rc == 99 ? "hang" : "crash", rc);
			fprintf(po, "]}\n"); fflush(po);
		}
		(void)probe;
		for (int i = 0; i < n; i++) free(ls[i]);
		n = 0; id++;
		/* files of the run */
		for (int i = 0; i < NC; i++) { char f[32]; sprintf(f, "f%d.txt", i); unlink(f); }
	}
	fclose(po);
	return 0;
}
