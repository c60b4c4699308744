/* Minimal OpenMP runtime on plain threads, for the ThreadSanitizer build: every fork, join, barrier and
 * lock is a pthread call that the race detector sees (libgomp synchronises with futexes that it does not
 * see). The harness sets the number of threads, and may have the threads of a region start in a random
 * order after random delays, or run one after the other in a random order. */
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdlib.h>
#include <unistd.h>
#define API __attribute__((visibility("default")))
#define MAXT 64

static int nthreads = 1, order_mode = 0;
static unsigned long long rnd = 88172645463325252ULL;
static long n_regions = 0, n_multi = 0;
struct team { void (*fn)(void *); void *data; int n; pthread_barrier_t bar; pthread_mutex_t mu; long next, end, incr, chunk; bool up; int single, single_gen[MAXT]; };
static __thread struct team *cur = 0;
static __thread int me = 0;
static pthread_mutex_t crit = PTHREAD_MUTEX_INITIALIZER, atomics = PTHREAD_MUTEX_INITIALIZER;
struct arg { struct team *t; int id; int delay; };

static unsigned next_rnd(void) { rnd ^= rnd << 13; rnd ^= rnd >> 7; rnd ^= rnd << 17; return (unsigned)(rnd >> 11); }

API void verif_omp(int n, int mode, unsigned long long seed) { nthreads = n < 1 ? 1 : n > MAXT ? MAXT : n; order_mode = mode; rnd = seed * 2654435761ULL + 88172645463325252ULL; }
API long verif_omp_regions(int multi) { return multi ? n_multi : n_regions; }

static void *body(void *p) {
  struct arg *a = (struct arg *)p;
  struct team *old = cur;
  int oldme = me;
  if (a->delay) usleep(a->delay);
  cur = a->t;
  me = a->id;
  a->t->fn(a->t->data);
  cur = old;
  me = oldme;
  return 0;
}

static void run(struct team *t, unsigned n) {
  t->n = cur ? 1 : (n ? (n > MAXT ? MAXT : (int)n) : nthreads);
  pthread_barrier_init(&t->bar, 0, t->n);
  pthread_mutex_init(&t->mu, 0);
  n_regions++;
  struct arg a[MAXT];
  int perm[MAXT];
  for (int i = 0; i < t->n; i++) { a[i].t = t; a[i].id = i; a[i].delay = 0; perm[i] = i; }
  if (t->n > 1) {
    n_multi++;
    for (int i = t->n - 1; i > 0; i--) { int j = next_rnd() % (i + 1), k = perm[i]; perm[i] = perm[j]; perm[j] = k; }
    for (int i = 0; i < t->n; i++) if (order_mode == 1) a[i].delay = next_rnd() % 200;
    pthread_t th[MAXT];
    for (int i = 0; i < t->n; i++) {
      pthread_create(&th[i], 0, body, &a[perm[i]]);
      if (order_mode == 2) pthread_join(th[i], 0); /* one after the other (regions without barriers only) */
    }
    if (order_mode != 2) for (int i = 0; i < t->n; i++) pthread_join(th[i], 0);
  } else
    body(&a[0]);
  pthread_barrier_destroy(&t->bar);
  pthread_mutex_destroy(&t->mu);
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { struct team t = {fn, data}; run(&t, n); }
static void loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c) {
  struct team t = {fn, data}; t.next = s; t.end = e; t.incr = i; t.chunk = c < 1 ? 1 : c; run(&t, n);
}
#define PLOOP(name) void name(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { loop(fn, d, n, s, e, i, c); }
PLOOP(GOMP_parallel_loop_dynamic)
PLOOP(GOMP_parallel_loop_guided)
PLOOP(GOMP_parallel_loop_nonmonotonic_dynamic)
PLOOP(GOMP_parallel_loop_nonmonotonic_guided)
#define NEXT(name) bool name(long *s, long *e) { struct team *t = cur; pthread_mutex_lock(&t->mu); \
  long a = t->next, b = a + t->incr * t->chunk; bool ok = t->incr > 0 ? a < t->end : a > t->end; \
  if (t->incr > 0 ? b > t->end : b < t->end) b = t->end; if (ok) { t->next = b; *s = a; *e = b; } pthread_mutex_unlock(&t->mu); return ok; }
NEXT(GOMP_loop_dynamic_next)
NEXT(GOMP_loop_guided_next)
NEXT(GOMP_loop_nonmonotonic_dynamic_next)
NEXT(GOMP_loop_nonmonotonic_guided_next)
void GOMP_loop_end_nowait(void) {}
void GOMP_barrier(void) { if (cur && cur->n > 1) pthread_barrier_wait(&cur->bar); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_critical_start(void) { pthread_mutex_lock(&crit); }
void GOMP_critical_end(void) { pthread_mutex_unlock(&crit); }
void GOMP_critical_name_start(void **p) { pthread_mutex_lock(&crit); }
void GOMP_critical_name_end(void **p) { pthread_mutex_unlock(&crit); }
void GOMP_atomic_start(void) { pthread_mutex_lock(&atomics); }
void GOMP_atomic_end(void) { pthread_mutex_unlock(&atomics); }
bool GOMP_single_start(void) { if (!cur) return true; pthread_mutex_lock(&cur->mu); bool r = cur->single_gen[me]++ == cur->single; if (r) cur->single++; pthread_mutex_unlock(&cur->mu); return r; }
int omp_get_num_threads(void) { return cur ? cur->n : 1; }
int omp_get_thread_num(void) { return cur ? me : 0; }
int omp_get_max_threads(void) { return nthreads; }
int omp_in_parallel(void) { return cur && cur->n > 1; }
void omp_set_num_threads(int n) { (void)n; }
int omp_get_num_procs(void) { return nthreads; }

/* a race on purpose: shows that the detector is alive */
static volatile int canary;
static void bump(void *p) { canary = canary + 1; }
API int verif_race(void) { int n = nthreads; nthreads = 4; GOMP_parallel(bump, 0, 0, 0); nthreads = n; return canary; }
