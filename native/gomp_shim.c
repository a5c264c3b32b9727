/* A small OpenMP runtime that can be observed and perturbed.
 *
 * libgomp synchronises with futexes that ThreadSanitizer does not see; this
 * one only uses pthreads, so every ordering it provides is visible to the race
 * detector, and nothing else is.  The size of the teams, the order in which
 * their members run and random delays are set by the test process (vp_omp_set).
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <sched.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>

#define MAXSHARE 16

enum { FREE = 0, SERIAL = 1 };

typedef struct {
    bool set, guided;
    long next, end, incr, chunk;
    bool taken;
} share_t;

typedef struct {
    int n;
    void (*fn)(void *);
    void *data;
    uint64_t seed;
    pthread_mutex_t lock;
    pthread_cond_t turn;
    int order[256];
    int position;
    int mode;
    int delay;
    share_t shares[MAXSHARE];
} team_t;

typedef struct {
    team_t *team;
    int id;
    int nshare;
    uint64_t rng;
} self_t;

static __thread self_t self;
static int team_size = 1, mode = FREE, delay = 0;
static uint64_t seed = 1;
static pthread_mutex_t critical = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t atomic = PTHREAD_MUTEX_INITIALIZER;
static pthread_mutex_t stats = PTHREAD_MUTEX_INITIALIZER;
static long nregions, nthreads, ncritical, nchunks;
static uint64_t trace = 1469598103934665603ULL;

static uint64_t next(uint64_t *s)
{
    uint64_t z = (*s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

static void record(int what)
{
    /* relaxed: what is recorded must not order anything */
    uint64_t old = __atomic_load_n(&trace, __ATOMIC_RELAXED);
    while (!__atomic_compare_exchange_n(&trace, &old, (old ^ (uint64_t)(what + 1)) * 1099511628211ULL,
                                        true, __ATOMIC_RELAXED, __ATOMIC_RELAXED))
        ;
}

static void perturb(void)
{
    team_t *t = self.team;
    if (!t || !t->delay || t->mode == SERIAL)
        return;
    uint64_t r = next(&self.rng);
    if (r % 4 == 0)
        sched_yield();
    else if (r % 8 == 1) {
        struct timespec ts = {0, (long)((r >> 8) % 1000) * t->delay};
        nanosleep(&ts, NULL);
    }
}

void vp_omp_set(int n, int m, int d, uint64_t s)
{
    team_size = n < 1 ? 1 : n > 256 ? 256 : n;
    mode = m;
    delay = d;
    seed = s;
}

void vp_omp_stats(int64_t *out)
{
    out[0] = nregions;
    out[1] = nthreads;
    out[2] = ncritical;
    out[3] = nchunks;
    out[4] = (int64_t)trace;
}

void vp_omp_reset_trace(void)
{
    trace = 1469598103934665603ULL;
}

static void member(team_t *t, int id)
{
    self_t before = self;
    self.team = t;
    self.id = id;
    self.nshare = 0;
    self.rng = t->seed + 7919 * (uint64_t)id;
    if (t->mode == SERIAL) {
        pthread_mutex_lock(&t->lock);
        while (t->order[t->position] != id)
            pthread_cond_wait(&t->turn, &t->lock);
        /* the lock is not kept while the member runs: it would order the members for
           the race detector; serial teams are for values, not for races */
        pthread_mutex_unlock(&t->lock);
    } else
        perturb();
    t->fn(t->data);
    perturb();
    pthread_mutex_lock(&t->lock);
    t->position++;
    pthread_cond_broadcast(&t->turn);
    record(id);
    pthread_mutex_unlock(&t->lock);
    self = before;
}

typedef struct { team_t *team; int id; } start_t;

static void *entry(void *arg)
{
    start_t s = *(start_t *)arg;
    member(s.team, s.id);
    return NULL;
}

void GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags)
{
    (void)flags;
    team_t t;
    memset(&t, 0, sizeof t);
    t.n = self.team ? 1 : n ? (int)n : team_size;
    t.fn = fn;
    t.data = data;
    t.mode = mode;
    t.delay = delay;
    t.seed = next(&seed);
    pthread_mutex_init(&t.lock, NULL);
    pthread_cond_init(&t.turn, NULL);
    for (int i = 0; i < t.n; i++)
        t.order[i] = i;
    uint64_t r = t.seed;
    for (int i = t.n - 1; i > 0; i--) {
        int j = (int)(next(&r) % (uint64_t)(i + 1)), k = t.order[i];
        t.order[i] = t.order[j];
        t.order[j] = k;
    }
    pthread_mutex_lock(&stats);
    nregions++;
    nthreads += t.n;
    record(1000 + t.n);
    pthread_mutex_unlock(&stats);
    pthread_t th[256];
    start_t st[256];
    for (int i = 1; i < t.n; i++) {
        st[i].team = &t;
        st[i].id = i;
        if (pthread_create(&th[i], NULL, entry, &st[i]))
            abort();
    }
    member(&t, 0);
    for (int i = 1; i < t.n; i++)
        pthread_join(th[i], NULL);
    pthread_cond_destroy(&t.turn);
    pthread_mutex_destroy(&t.lock);
}

int omp_get_thread_num(void) { return self.team ? self.id : 0; }
int omp_get_num_threads(void) { return self.team ? self.team->n : 1; }
int omp_get_max_threads(void) { return team_size; }
int omp_get_num_procs(void) { return team_size; }
int omp_in_parallel(void) { return self.team && self.team->n > 1; }
void omp_set_num_threads(int n) { (void)n; }

void GOMP_barrier(void) { abort(); } /* no region of the extension has one */

void GOMP_critical_start(void)
{
    perturb();
    pthread_mutex_lock(&critical);
    ncritical++;
    record(2000 + omp_get_thread_num());
}

void GOMP_critical_end(void)
{
    pthread_mutex_unlock(&critical);
    perturb();
}

void GOMP_atomic_start(void)
{
    perturb();
    pthread_mutex_lock(&atomic);
    record(3000 + omp_get_thread_num());
}

void GOMP_atomic_end(void)
{
    pthread_mutex_unlock(&atomic);
    perturb();
}

static share_t *share(void)
{
    if (!self.team || self.nshare >= MAXSHARE)
        abort();
    return &self.team->shares[self.nshare];
}

bool GOMP_single_start(void)
{
    if (!self.team)
        return true;
    share_t *s = share();
    self.nshare++;
    return !__atomic_exchange_n(&s->taken, true, __ATOMIC_RELAXED);
}

bool GOMP_loop_nonmonotonic_guided_next(long *istart, long *iend)
{
    share_t *s = share();
    perturb();
    long from = __atomic_load_n(&s->next, __ATOMIC_RELAXED), k;
    do {
        long left = (s->end - from + s->incr + (s->incr > 0 ? -1 : 1)) / s->incr;
        if (left <= 0)
            return false;
        k = (left + self.team->n - 1) / self.team->n;
        if (k < s->chunk)
            k = s->chunk;
        if (k > left)
            k = left;
    } while (!__atomic_compare_exchange_n(&s->next, &from, from + k * s->incr, true, __ATOMIC_RELAXED,
                                          __ATOMIC_RELAXED));
    *istart = from;
    *iend = from + k * s->incr;
    __atomic_fetch_add(&nchunks, 1, __ATOMIC_RELAXED);
    record(4000 + self.id);
    return true;
}

bool GOMP_loop_nonmonotonic_guided_start(long start, long end, long incr, long chunk, long *istart, long *iend)
{
    share_t *s = share();
    pthread_mutex_lock(&self.team->lock);
    if (!s->set) {
        s->set = true;
        s->next = start;
        s->end = end;
        s->incr = incr;
        s->chunk = chunk < 1 ? 1 : chunk;
    }
    pthread_mutex_unlock(&self.team->lock);
    return GOMP_loop_nonmonotonic_guided_next(istart, iend);
}

void GOMP_loop_end_nowait(void) { self.nshare++; }

static long shared_counter;

static void racy(void *data)
{
    (void)data;
    for (int i = 0; i < 1000; i++)
        shared_counter++;
}

void vp_omp_canary(void) { GOMP_parallel(racy, NULL, 2, 0); }
