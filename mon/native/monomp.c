/* A small OpenMP runtime for the monitored builds: every parallel region gets fresh POSIX threads (so that
 * ThreadSanitizer knows the real ordering), loops hand out their chunks through one relaxed atomic, and the schedule
 * is perturbed on purpose: threads are delayed or yield before chunks, from a seed.  Who got which chunk is recorded. */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define MAXT 32
#define WS 64

struct share { long next_init; _Atomic long next; long end, incr, chunk; int ready; };
struct team {
    int n;
    void (*fn)(void *);
    void *data;
    pthread_mutex_t lock;
    pthread_barrier_t bar;
    struct share ws[WS];
    uint64_t sig[MAXT];
};
struct self { struct team *t; int id; int ws; uint64_t rnd; uint64_t sig; };

static __thread struct self me;
static struct team solo;         /* a work share outside any region */
static int threads = 1, mode = 0;
static uint64_t seed = 1, regions = 0, parallel_regions = 0;
static pthread_mutex_t critical_lock = PTHREAD_MUTEX_INITIALIZER, atomic_lock = PTHREAD_MUTEX_INITIALIZER;
static uint64_t *seen; static size_t nseen, cap;

void mon_set(int n, int m, unsigned long s) { threads = n < 1 ? 1 : n > MAXT ? MAXT : n; mode = m; seed = s * 2654435761u + 88172645463325252ull; }
/* regions run, regions with more than one thread, distinct assignments of chunks to threads */
void mon_stats(unsigned long *out) { out[0] = regions; out[1] = parallel_regions; out[2] = nseen; }

static uint64_t rnd(void) {
    uint64_t x = me.rnd;
    x ^= x << 13; x ^= x >> 7; x ^= x << 17;
    return me.rnd = x;
}

static void disturb(void) {
    if (!me.t || me.t->n < 2 || !mode) return;
    uint64_t r = rnd();
    if (mode == 1) {
        if (r % 4 == 0) sched_yield();
        else if (r % 16 == 1) usleep(r / 16 % 60);
    } else if (mode == 2) {         /* one thread starves */
        if (me.id == (int)(seed % me.t->n)) usleep(30);
        else if (r % 8 == 0) sched_yield();
    } else {                        /* late start of most */
        if (me.ws == 0 && r % 3) usleep(r / 8 % 200);
    }
}

static void note(uint64_t h) {
    for (size_t i = 0; i < nseen; i++) if (seen[i] == h) return;
    if (nseen >= 4096) return;
    if (nseen == cap) { cap = cap ? 2 * cap : 64; seen = realloc(seen, cap * sizeof *seen); }
    seen[nseen++] = h;
}

static void run(struct team *t, int id) {
    struct self old = me;
    me.t = t; me.id = id; me.ws = 0; me.sig = 1469598103934665603ull;
    me.rnd = (seed ^ (regions * 0x9E3779B97F4A7C15ull) ^ ((uint64_t)(id + 1) << 40)) | 1;
    disturb();
    t->fn(t->data);
    t->sig[id] = me.sig;
    me = old;
}

struct arg { struct team *t; int id; };
static void *entry(void *p) { struct arg *a = p; run(a->t, a->id); return 0; }

void MON_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) {
    struct team *t = calloc(1, sizeof *t);
    pthread_t th[MAXT];
    struct arg a[MAXT];
    int k = n ? (int)n : threads;
    if (me.t) k = 1;                 /* no nested parallelism, as by default */
    if (k > MAXT) k = MAXT;
    t->n = k; t->fn = fn; t->data = data;
    pthread_mutex_init(&t->lock, 0);
    pthread_barrier_init(&t->bar, 0, k);
    regions++;
    for (int i = 1; i < k; i++) {
        a[i].t = t; a[i].id = i;
        if (pthread_create(&th[i], 0, entry, &a[i])) { perror("monomp"); abort(); }
    }
    run(t, 0);
    for (int i = 1; i < k; i++) pthread_join(th[i], 0);
    if (k > 1) {
        uint64_t h = 1469598103934665603ull;
        parallel_regions++;
        for (int i = 0; i < k; i++) h = (h ^ t->sig[i]) * 1099511628211ull;
        note(h);
    }
    pthread_barrier_destroy(&t->bar);
    pthread_mutex_destroy(&t->lock);
    free(t);
}

static bool take(struct share *s, long *is, long *ie) {
    disturb();
    long step = s->chunk * s->incr;
    long i = atomic_fetch_add_explicit(&s->next, step, memory_order_relaxed);
    if (s->incr > 0 ? i >= s->end : i <= s->end) return false;
    long e = i + step;
    if (s->incr > 0 ? e > s->end : e < s->end) e = s->end;
    *is = i; *ie = e;
    me.sig = (me.sig ^ (uint64_t)i) * 1099511628211ull;
    return true;
}

bool MON_loop_start(long start, long end, long incr, long chunk, long *is, long *ie) {
    struct team *t = me.t ? me.t : &solo;
    if (!me.t) solo.ws[0].ready = 0, me.ws = 0;
    struct share *s = &t->ws[me.ws % WS];
    if (me.t) pthread_mutex_lock(&t->lock);
    if (!s->ready) {
        atomic_store_explicit(&s->next, start, memory_order_relaxed);
        s->end = end; s->incr = incr; s->chunk = chunk > 0 ? chunk : 1; s->ready = 1;
        t->ws[(me.ws + WS / 2) % WS].ready = 0;
    }
    if (me.t) pthread_mutex_unlock(&t->lock);
    return take(s, is, ie);
}

bool MON_loop_next(long *is, long *ie) {
    struct team *t = me.t ? me.t : &solo;
    return take(&t->ws[me.ws % WS], is, ie);
}

void MON_barrier(void) { if (me.t) pthread_barrier_wait(&me.t->bar); }
void MON_loop_end(void) { me.ws++; MON_barrier(); }
void MON_loop_end_nowait(void) { me.ws++; }
void MON_critical_name_start(void **p) { pthread_mutex_lock(&critical_lock); }
void MON_critical_name_end(void **p) { pthread_mutex_unlock(&critical_lock); }
void MON_critical_start(void) { pthread_mutex_lock(&critical_lock); }
void MON_critical_end(void) { pthread_mutex_unlock(&critical_lock); }
void MON_atomic_start(void) { pthread_mutex_lock(&atomic_lock); }
void MON_atomic_end(void) { pthread_mutex_unlock(&atomic_lock); }
int MON_get_num_threads(void) { return me.t ? me.t->n : 1; }
int MON_get_thread_num(void) { return me.t ? me.id : 0; }
int MON_get_max_threads(void) { return threads; }
int MON_in_parallel(void) { return me.t && me.t->n > 1; }
void MON_set_num_threads(int n) { threads = n < 1 ? 1 : n > MAXT ? MAXT : n; }

int MON_get_num_procs(void) { return threads; }
double MON_get_wtime(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
bool MON_loop_runtime_start(long start, long end, long incr, long *is, long *ie) { return MON_loop_start(start, end, incr, 1, is, ie); }

struct combined { void (*fn)(void *); void *data; long start, end, incr, chunk; };
static void opened(void *p) {       /* the loop of a combined region is open when its body starts */
    struct combined *c = p;
    struct share *s = &me.t->ws[0];
    pthread_mutex_lock(&me.t->lock);
    if (!s->ready) {
        atomic_store_explicit(&s->next, c->start, memory_order_relaxed);
        s->end = c->end; s->incr = c->incr; s->chunk = c->chunk > 0 ? c->chunk : 1; s->ready = 1;
    }
    pthread_mutex_unlock(&me.t->lock);
    c->fn(c->data);
}
void MON_parallel_loop(void (*fn)(void *), void *data, unsigned n, long start, long end, long incr, long chunk, unsigned flags) {
    struct combined c = {fn, data, start, end, incr, chunk};
    MON_parallel(opened, &c, n, flags);
}
void MON_parallel_loop_runtime(void (*fn)(void *), void *data, unsigned n, long start, long end, long incr, unsigned flags) {
    MON_parallel_loop(fn, data, n, start, end, incr, 1, flags);
}
bool MON_single_start(void) {
    if (!me.t) return true;
    struct share *s = &me.t->ws[me.ws++ % WS];
    pthread_mutex_lock(&me.t->lock);
    bool first = !s->ready;
    s->ready = 1;
    me.t->ws[(me.ws - 1 + WS / 2) % WS].ready = 0;
    pthread_mutex_unlock(&me.t->lock);
    return first;
}
