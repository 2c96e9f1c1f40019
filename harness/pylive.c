// Memory the library holds, for the Python driver: every block it allocates and has not released.
#include <pthread.h>
#include <stdlib.h>
#include <string.h>
#define N (1 << 20)
void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); void *__real_realloc(void *, size_t); void __real_free(void *);
char *__real_strdup(const char *); char *__real_strndup(const char *, size_t);
static void *tab[N]; static long live;
static pthread_mutex_t mu = PTHREAD_MUTEX_INITIALIZER;
static size_t at(void *p) { return ((size_t)p >> 4) * 2654435761u % N; }
static void *in(void *p) {
	if (!p) return p;
	pthread_mutex_lock(&mu);
	size_t k = at(p);
	while (tab[k] && tab[k] != (void *)1) k = (k + 1) % N;
	tab[k] = p; live++;
	pthread_mutex_unlock(&mu);
	return p;
}
static void out(void *p) {
	if (!p) return;
	pthread_mutex_lock(&mu);
	for (size_t k = at(p); tab[k]; k = (k + 1) % N) if (tab[k] == p) { tab[k] = (void *)1; live--; break; }
	pthread_mutex_unlock(&mu);
}
void *__wrap_malloc(size_t n) { return in(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t b) { return in(__real_calloc(a, b)); }
void *__wrap_realloc(void *p, size_t n) { out(p); return in(__real_realloc(p, n)); }
void __wrap_free(void *p) { out(p); __real_free(p); }
char *__wrap_strdup(const char *s) { return in(__real_strdup(s)); }
char *__wrap_strndup(const char *s, size_t n) { return in(__real_strndup(s, n)); }
long vt_live(void) { return live; }
