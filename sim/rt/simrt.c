/* Deterministic simulated OpenMP runtime + allocator + LAPACK seam.
 *
 * Linked into an instrumented build (-fopenmp -fsanitize=thread) of the
 * extension in place of libgomp and libtsan.  Worker threads are real
 * pthreads, but only the one holding the baton runs; at every instrumented
 * memory access (and at every runtime call) the simulator decides, from the
 * seed or from an explicit switch list, who runs next.  The instrumentation
 * also feeds a happens-before (vector clock) data race detector, and malloc
 * and friends are wrapped for fault injection and accounting.
 */
#define _GNU_SOURCE
#include <pthread.h>
#include <semaphore.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>

#define EXPORT __attribute__((visibility("default")))
#define MAXT 40
#define MAXSW 65536
#define MAXRACE 64
typedef uint64_t u64;

/* ---------------------------------------------------------------- config */
static struct {
    int enabled;            /* simulate: otherwise run threads one after another */
    u64 seed;
    u64 mean_gap;           /* mean number of accesses between switches */
    int max_switches;
    int team_cap;           /* deliver at most this many threads (0 = as asked) */
    int explicit_sched;     /* use the switch list only */
    int n_list;
    u64 list_step[MAXSW];
    int list_tid[MAXSW];
    int fill;               /* fresh memory fill byte, -1 = leave */
    int n_fail;             /* failing allocation indices */
    u64 fail_idx[256];
    int n_zfail;
    u64 zfail_idx[256];
    int zfail_info[256];
    int detect_races;
} C;

/* ----------------------------------------------------------------- state */
static struct {
    u64 steps;              /* instrumented accesses inside parallel regions */
    u64 accesses;           /* all instrumented accesses */
    u64 regions;
    u64 switches;
    u64 allocs, frees, failed_allocs, zcalls, zfaults, bad_free, overflow;
    u64 max_team;
    u64 live;
    u64 races;
    u64 hash;               /* digest of the schedule taken */
    int n_rec;
    u64 rec_step[MAXSW];
    int rec_tid[MAXSW];
    int n_race;
    char race[MAXRACE][256];
} S;

static u64 rng_state;
static u64 rnd(void) {      /* splitmix64 */
    u64 z = (rng_state += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31);
}
static void mix(u64 v) { S.hash = (S.hash ^ v) * 0x100000001B3ULL; S.hash ^= S.hash >> 29; }

/* ------------------------------------------------------------------ team */
enum { RUNNABLE, BLOCKED, DONE };
typedef struct { u64 c[MAXT]; } VC;
static struct {
    int n, cur, active;
    int st[MAXT];
    void *wait_on[MAXT];
    sem_t sem[MAXT];
    pthread_t th[MAXT];
    void (*fn)(void *);
    void *data;
    u64 gap;
    int list_pos;
    int barrier_count; u64 barrier_gen;
    u64 single_count[MAXT], single_claimed;
    VC vc[MAXT];
    VC barrier_vc;
    /* work-sharing loops/sections, keyed on construct number */
    u64 ws_count[MAXT];
} T;
static __thread int my_tid = -1;
static int want_threads = 1;
static u64 next_gap(void) {
    if (C.mean_gap == 0) return ~0ULL;
    /* mixture: short and long gaps */
    u64 m = C.mean_gap;
    u64 g = 1 + rnd() % (2 * m);
    if (rnd() % 8 == 0) g = 1 + rnd() % 4;
    return g;
}

static void deadlock(void) {
    static const char msg[] = "SIMRT-DEADLOCK\n";
    ssize_t r = write(2, msg, sizeof msg - 1); (void)r;
    _exit(86);
}


static int pick(int not_me) {
    int cand[MAXT], k = 0;
    for (int i = 0; i < T.n; i++) if (T.st[i] == RUNNABLE && i != not_me) cand[k++] = i;
    if (!k) return -1;
    if (!C.enabled || C.explicit_sched) return cand[0];
    return cand[rnd() % k];
}
static void record(int tid) {
    S.switches++;
    mix(S.steps * 31 + tid);
    if (S.n_rec < MAXSW) { S.rec_step[S.n_rec] = S.steps; S.rec_tid[S.n_rec++] = tid; }
}
static void hand_to(int to) {
    int me = my_tid;
    T.cur = to;
    sem_post(&T.sem[to]);
    while (sem_wait(&T.sem[me]) != 0) ;
}
static void maybe_switch(void) {
    /* called by the running thread at a scheduling point */
    if (!T.active || my_tid < 0) return;
    S.steps++;
    if (C.explicit_sched) {
        while (T.list_pos < C.n_list && C.list_step[T.list_pos] <= S.steps) {
            int to = C.list_tid[T.list_pos]; 
            bool due = C.list_step[T.list_pos] == S.steps;
            T.list_pos++;
            if (due && to >= 0 && to < T.n && to != my_tid && T.st[to] == RUNNABLE) {
                record(to); hand_to(to); return;
            }
        }
        return;
    }
    if (!C.enabled) return;
    if (T.gap-- > 1) return;
    T.gap = next_gap();
    if ((int)S.switches >= C.max_switches) { T.gap = ~0ULL; return; }
    int to = pick(my_tid);
    if (to < 0) return;
    record(to);
    hand_to(to);
}
static int forced_choice(void) {
    /* the running thread cannot go on: somebody else has to run */
    S.steps++;
    int to = -1;
    if (C.explicit_sched) {
        while (T.list_pos < C.n_list && C.list_step[T.list_pos] < S.steps) T.list_pos++;
        if (T.list_pos < C.n_list && C.list_step[T.list_pos] == S.steps) {
            int t = C.list_tid[T.list_pos++];
            if (t >= 0 && t < T.n && t != my_tid && T.st[t] == RUNNABLE) to = t;
        }
    }
    if (to < 0) to = pick(my_tid);
    if (to < 0) deadlock();
    record(to);
    return to;
}
static void must_switch(void) { hand_to(forced_choice()); }
static void block_on(void *obj) { T.st[my_tid] = BLOCKED; T.wait_on[my_tid] = obj; must_switch(); }
static void wake_all(void *obj) {
    for (int i = 0; i < T.n; i++)
        if (T.st[i] == BLOCKED && T.wait_on[i] == obj) { T.st[i] = RUNNABLE; T.wait_on[i] = NULL; }
}

/* ---------------------------------------------------------- vector clocks */
static void vc_join(VC *a, const VC *b) { for (int i = 0; i < MAXT; i++) if (b->c[i] > a->c[i]) a->c[i] = b->c[i]; }

/* shadow memory: 4-byte granules, open addressing, invalidated per region */
typedef struct { u64 key; u64 gen; u64 w_clk; int w_tid; const void *w_pc; const void *r_pc[2]; u64 r_clk[MAXT]; } Cell;
static Cell *shadow; static u64 shadow_n, shadow_used, shadow_gen;
static Cell *cell(u64 key) {
    if (!shadow) { shadow_n = 1 << 14; shadow = calloc(shadow_n, sizeof(Cell)); shadow_gen = 1; }
    if (shadow_used * 2 > shadow_n) {
        u64 on = shadow_n; Cell *o = shadow;
        shadow_n *= 2; shadow = calloc(shadow_n, sizeof(Cell)); shadow_used = 0;
        for (u64 i = 0; i < on; i++) if (o[i].gen == shadow_gen) {
            u64 h = (o[i].key * 0x9E3779B97F4A7C15ULL) >> 20; 
            while (shadow[h & (shadow_n - 1)].gen == shadow_gen) h++;
            shadow[h & (shadow_n - 1)] = o[i]; shadow_used++;
        }
        free(o);
    }
    u64 h = (key * 0x9E3779B97F4A7C15ULL) >> 20;
    for (;; h++) {
        Cell *c = &shadow[h & (shadow_n - 1)];
        if (c->gen != shadow_gen) {
            memset(c, 0, offsetof(Cell, r_clk) + T.n*sizeof(u64)); c->gen = shadow_gen; c->key = key; c->w_tid = -1; shadow_used++;
            return c;
        }
        if (c->key == key) return c;
    }
}
static void shadow_reset(void) { shadow_gen++; shadow_used = 0; }
extern char __executable_start __attribute__((weak));
static const void *module_base;
static void report_race(const char *kind, u64 key, int other, const void *pc, const void *opc) {
    S.races++;
    if (S.n_race >= MAXRACE) return;
    for (int i = 0; i < S.n_race; i++) {
        char tmp[64]; snprintf(tmp, sizeof tmp, "pc=+0x%lx", (long)((char*)pc - (char*)module_base));
        if (strstr(S.race[i], tmp)) return;
    }
    snprintf(S.race[S.n_race++], 256, "%s pc=+0x%lx (thread %d) with pc2=+0x%lx (thread %d) step=%lu", kind,
             (long)((char*)pc - (char*)module_base), my_tid, opc ? (long)((char*)opc - (char*)module_base) : 0, other, (unsigned long)S.steps);
    (void)key;
}
static void touch(const void *p, u64 size, int write, const void *pc) {
    if (!T.active || my_tid < 0 || !C.detect_races || !size) return;
    int me = my_tid; VC *v = &T.vc[me];
    for (u64 k = (u64)p >> 2; k <= ((u64)p + size - 1) >> 2; k++) {
        Cell *c = cell(k);
        if (c->w_tid >= 0 && c->w_tid != me && c->w_clk > v->c[c->w_tid])
            report_race(write ? "write-after-write" : "read-after-write", k, c->w_tid, pc, c->w_pc);
        if (write) {
            for (int t = 0; t < T.n; t++)
                if (t != me && c->r_clk[t] > v->c[t]) { report_race("write-after-read", k, t, pc, c->r_pc[0]); break; }
            c->w_tid = me; c->w_clk = v->c[me]; c->w_pc = pc;
        } else { c->r_clk[me] = v->c[me]; c->r_pc[0] = pc; }
    }
}
static void forget(const void *p, u64 size) {
    if (!T.active || !C.detect_races || !size) return;
    for (u64 k = (u64)p >> 2; k <= ((u64)p + size - 1) >> 2; k++) {
        Cell *c = cell(k); c->w_tid = -1; c->w_clk = 0; memset(c->r_clk, 0, T.n*sizeof(u64));
    }
}

/* -------------------------------------------------------- instrumentation */
#define ACC(name, size, w) \
    void name(void *p); void name(void *p) { S.accesses++; if (T.active) { touch(p, size, w, __builtin_return_address(0)); maybe_switch(); } }
ACC(__tsan_read1, 1, 0) ACC(__tsan_read2, 2, 0) ACC(__tsan_read4, 4, 0) ACC(__tsan_read8, 8, 0) ACC(__tsan_read16, 16, 0)
ACC(__tsan_write1, 1, 1) ACC(__tsan_write2, 2, 1) ACC(__tsan_write4, 4, 1) ACC(__tsan_write8, 8, 1) ACC(__tsan_write16, 16, 1)
ACC(__tsan_unaligned_read2, 2, 0) ACC(__tsan_unaligned_read4, 4, 0) ACC(__tsan_unaligned_read8, 8, 0) ACC(__tsan_unaligned_read16, 16, 0)
ACC(__tsan_unaligned_write2, 2, 1) ACC(__tsan_unaligned_write4, 4, 1) ACC(__tsan_unaligned_write8, 8, 1) ACC(__tsan_unaligned_write16, 16, 1)
ACC(__tsan_volatile_read1, 1, 0) ACC(__tsan_volatile_read2, 2, 0) ACC(__tsan_volatile_read4, 4, 0) ACC(__tsan_volatile_read8, 8, 0)
ACC(__tsan_volatile_write1, 1, 1) ACC(__tsan_volatile_write2, 2, 1) ACC(__tsan_volatile_write4, 4, 1) ACC(__tsan_volatile_write8, 8, 1)
void __tsan_read_range(void *p, unsigned long n) { S.accesses++; if (T.active) { touch(p, n, 0, __builtin_return_address(0)); maybe_switch(); } }
void __tsan_write_range(void *p, unsigned long n) { S.accesses++; if (T.active) { touch(p, n, 1, __builtin_return_address(0)); maybe_switch(); } }
void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_vptr_update(void **a, void *b) { (void)a; (void)b; }
void __tsan_vptr_read(void **a) { (void)a; }

/* sync variables (atomics, locks, criticals): address -> vector clock */
typedef struct { const void *k; VC vc; } SyncVar;
static SyncVar syncs[1024]; static int n_sync;
static SyncVar *sync_of(const void *k) {
    for (int i = 0; i < n_sync; i++) if (syncs[i].k == k) return &syncs[i];
    if (n_sync == 1024) n_sync = 0;
    syncs[n_sync].k = k; memset(&syncs[n_sync].vc, 0, sizeof(VC));
    return &syncs[n_sync++];
}
static void acquire(const void *k) { if (T.active && my_tid >= 0) vc_join(&T.vc[my_tid], &sync_of(k)->vc); }
static void release(const void *k) { if (T.active && my_tid >= 0) { vc_join(&sync_of(k)->vc, &T.vc[my_tid]); T.vc[my_tid].c[my_tid]++; } }
#define ATOMICS(bits, type) \
  type __tsan_atomic##bits##_load(const volatile type *a, int mo) { maybe_switch(); acquire((void*)a); (void)mo; return *a; } \
  void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) { maybe_switch(); *a = v; release((void*)a); (void)mo; } \
  type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo) { maybe_switch(); acquire((void*)a); type o = *a; *a = v; release((void*)a); (void)mo; return o; } \
  type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int mo) { maybe_switch(); acquire((void*)a); type o = *a; *a = o + v; release((void*)a); (void)mo; return o; } \
  type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int mo) { maybe_switch(); acquire((void*)a); type o = *a; *a = o - v; release((void*)a); (void)mo; return o; } \
  type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int mo) { maybe_switch(); acquire((void*)a); type o = *a; *a = o & v; release((void*)a); (void)mo; return o; } \
  type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int mo) { maybe_switch(); acquire((void*)a); type o = *a; *a = o | v; release((void*)a); (void)mo; return o; } \
  type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int mo) { maybe_switch(); acquire((void*)a); type o = *a; *a = o ^ v; release((void*)a); (void)mo; return o; } \
  type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int mo) { maybe_switch(); acquire((void*)a); type o = *a; *a = ~(o & v); release((void*)a); (void)mo; return o; } \
  int __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *e, type v, int mo, int fmo) { maybe_switch(); acquire((void*)a); (void)mo; (void)fmo; if (*a == *e) { *a = v; release((void*)a); return 1; } *e = *a; return 0; } \
  int __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *e, type v, int mo, int fmo) { return __tsan_atomic##bits##_compare_exchange_strong(a, e, v, mo, fmo); } \
  type __tsan_atomic##bits##_compare_exchange_val(volatile type *a, type e, type v, int mo, int fmo) { maybe_switch(); acquire((void*)a); (void)mo; (void)fmo; type o = *a; if (o == e) { *a = v; release((void*)a); } return o; }
ATOMICS(8, unsigned char) ATOMICS(16, unsigned short) ATOMICS(32, unsigned int) ATOMICS(64, unsigned long)
void __tsan_atomic_thread_fence(int mo) { (void)mo; maybe_switch(); acquire(&syncs); release(&syncs); }
void __tsan_atomic_signal_fence(int mo) { (void)mo; }

/* --------------------------------------------------------- OpenMP runtime */
int omp_get_thread_num(void) { return my_tid < 0 ? 0 : my_tid; }
int omp_get_num_threads(void) { return T.active ? T.n : 1; }
int omp_get_max_threads(void) { return want_threads; }
int omp_get_num_procs(void) { return 8; }
int omp_get_thread_limit(void) { return MAXT; }
int omp_in_parallel(void) { return T.active && T.n > 1; }
int omp_get_level(void) { return T.active; }
void omp_set_num_threads(int n) { if (n > 0) want_threads = n; }
void omp_set_dynamic(int d) { (void)d; }
int omp_get_dynamic(void) { return 0; }
void omp_set_nested(int d) { (void)d; }
int omp_get_nested(void) { return 0; }
void omp_set_schedule(int k, int c) { (void)k; (void)c; }
double omp_get_wtime(void) { return (double)S.accesses * 1e-9; }
double omp_get_wtick(void) { return 1e-9; }

static void region_reset(int n) {
    T.n = n; T.barrier_count = 0; T.single_claimed = 0;
    memset(T.single_count, 0, sizeof T.single_count);
    memset(T.ws_count, 0, sizeof T.ws_count);
    memset(T.vc, 0, sizeof T.vc);
    memset(&T.barrier_vc, 0, sizeof T.barrier_vc);
    n_sync = 0;
    shadow_reset();
    for (int i = 0; i < n; i++) { T.st[i] = RUNNABLE; T.wait_on[i] = NULL; T.vc[i].c[i] = 1; sem_init(&T.sem[i], 0, 0); }
}
static void *worker(void *arg) {
    int me = (int)(intptr_t)arg;
    my_tid = me;
    while (sem_wait(&T.sem[me]) != 0) ;
    T.fn(T.data);
    T.st[me] = DONE;
    wake_all(&T.active);
    /* the master may be waiting for everybody; hand the baton on without coming back */
    int to = forced_choice();
    T.cur = to;
    sem_post(&T.sem[to]);
    return NULL;
}
static void ws_reset(void);
static void ws_combined(void);
void GOMP_parallel(void (*fn)(void *), void *data, unsigned num_threads, unsigned flags) {
    (void)flags;
    S.regions++;
    int n = num_threads ? (int)num_threads : want_threads;
    if (n > MAXT) n = MAXT;
    if (C.team_cap && n > C.team_cap) n = C.team_cap;
    if (T.active) n = 1;                        /* nested: serialised */
    if (T.active) { fn(data); return; }
    if ((u64)n > S.max_team) S.max_team = n;
    region_reset(n);
    ws_reset();
    ws_combined();
    T.fn = fn; T.data = data; T.active = 1; T.cur = 0;
    T.gap = next_gap();
    my_tid = 0;
    for (int i = 1; i < n; i++) {
        if (pthread_create(&T.th[i], NULL, worker, (void *)(intptr_t)i) != 0) { perror("SIMRT pthread_create"); _exit(87); }
    }
    if (n > 1) { T.gap = 1; maybe_switch(); }   /* anybody may start */
    fn(data);
    T.st[0] = DONE;
    while (1) {
        int left = 0;
        for (int i = 1; i < n; i++) left += T.st[i] != DONE;
        if (!left) break;
        T.wait_on[0] = &T.active; T.st[0] = BLOCKED;
        must_switch();
    }
    for (int i = 1; i < n; i++) pthread_join(T.th[i], NULL);
    for (int i = 0; i < n; i++) sem_destroy(&T.sem[i]);
    T.active = 0; my_tid = -1;
}
void GOMP_barrier(void) {
    if (!T.active) return;
    maybe_switch();
    vc_join(&T.barrier_vc, &T.vc[my_tid]);
    u64 gen = T.barrier_gen;
    T.barrier_count++;
    int alive = 0;
    for (int i = 0; i < T.n; i++) alive += T.st[i] != DONE;
    if (T.barrier_count >= alive) {
        T.barrier_count = 0; T.barrier_gen++;
        for (int i = 0; i < T.n; i++) { vc_join(&T.vc[i], &T.barrier_vc); T.vc[i].c[i]++; }
        wake_all(&T.barrier_count);
    } else {
        while (T.barrier_gen == gen) block_on(&T.barrier_count);
    }
}
typedef struct { int held; } SimLock;
static SimLock crit_lock, atomic_lock;
static struct { void **p; SimLock l; } named[64]; static int n_named;
static void lock(SimLock *l) { maybe_switch(); while (l->held) { if (!T.active) deadlock(); block_on(l); } l->held = 1; acquire(l); }
static void unlock(SimLock *l) { release(l); l->held = 0; wake_all(l); maybe_switch(); }
static SimLock *named_lock(void **p) {
    for (int i = 0; i < n_named; i++) if (named[i].p == p) return &named[i].l;
    named[n_named].p = p; named[n_named].l.held = 0; return &named[n_named++].l;
}
void GOMP_critical_start(void) { lock(&crit_lock); }
void GOMP_critical_end(void) { unlock(&crit_lock); }
void GOMP_critical_name_start(void **p) { lock(named_lock(p)); }
void GOMP_critical_name_end(void **p) { unlock(named_lock(p)); }
void GOMP_atomic_start(void) { lock(&atomic_lock); }
void GOMP_atomic_end(void) { unlock(&atomic_lock); }
void omp_init_lock(void **l) { *l = (void *)1; named_lock(l)->held = 0; }
void omp_destroy_lock(void **l) { (void)l; }
void omp_set_lock(void **l) { lock(named_lock(l)); }
void omp_unset_lock(void **l) { unlock(named_lock(l)); }
int omp_test_lock(void **l) { maybe_switch(); SimLock *s = named_lock(l); if (s->held) return 0; s->held = 1; acquire(s); return 1; }

/* work sharing: dynamic-like chunking for every non-inlined schedule */
#define MAXWS 64
static struct { int init; long next, end, incr, chunk; int sections; } ws[MAXWS];
static void ws_reset(void) { memset(ws, 0, sizeof ws); }
static __thread int my_ws;
static bool ws_next(long *is, long *ie) {
    maybe_switch();
    long n = ws[my_ws].next, e = ws[my_ws].end, inc = ws[my_ws].incr, ch = ws[my_ws].chunk;
    if ((inc > 0 && n >= e) || (inc < 0 && n <= e)) return false;
    long stop = n + ch * inc;
    if ((inc > 0 && stop > e) || (inc < 0 && stop < e)) stop = e;
    ws[my_ws].next = stop; *is = n; *ie = stop;
    return true;
}
static bool ws_start(long start, long end, long incr, long chunk, long *is, long *ie) {
    int me = my_tid < 0 ? 0 : my_tid;
    int k = (int)(T.ws_count[me]++ % MAXWS);
    my_ws = k;
    if (ws[k].init != (int)T.ws_count[me]) {
        ws[k].init = (int)T.ws_count[me];
        ws[k].next = start; ws[k].end = end; ws[k].incr = incr; ws[k].chunk = chunk > 0 ? chunk : 1;
    }
    return ws_next(is, ie);
}
#define LOOP(kind) \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long c, long *is, long *ie) { return ws_start(s, e, i, c, is, ie); } \
  bool GOMP_loop_##kind##_next(long *is, long *ie) { return ws_next(is, ie); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) { \
      GOMP_parallel_loop(fn, d, n, s, e, i, c, fl); }
static void GOMP_parallel_loop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl);
LOOP(static) LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided)
#define LOOPR(kind) \
  bool GOMP_loop_##kind##_start(long s, long e, long i, long *is, long *ie) { return ws_start(s, e, i, 1, is, ie); } \
  bool GOMP_loop_##kind##_next(long *is, long *ie) { return ws_next(is, ie); } \
  void GOMP_parallel_loop_##kind(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned fl) { \
      GOMP_parallel_loop(fn, d, n, s, e, i, 1, fl); }
LOOPR(runtime) LOOPR(nonmonotonic_runtime) LOOPR(maybe_nonmonotonic_runtime)
static struct { int on; long s, e, i, c; void (*fn)(void *); void *d; } pl;
static void ws_combined(void) {
    if (!pl.on) return;
    ws[0].init = 1; ws[0].next = pl.s; ws[0].end = pl.e; ws[0].incr = pl.i; ws[0].chunk = pl.c;
}
static void pl_fn(void *d) {
    (void)d;
    int me = my_tid < 0 ? 0 : my_tid;
    T.ws_count[me] = 1; my_ws = 0;      /* construct 0 pre-initialised */
    pl.fn(pl.d);
}
static void GOMP_parallel_loop(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned fl) {
    pl.fn = fn; pl.d = d; pl.s = s; pl.e = e; pl.i = i; pl.c = c > 0 ? c : 1; pl.on = 1;
    GOMP_parallel(pl_fn, NULL, n, fl);
    pl.on = 0;
}
void GOMP_loop_end(void) { GOMP_barrier(); }
bool GOMP_loop_end_cancel(void) { GOMP_barrier(); return false; }
void GOMP_loop_end_nowait(void) {}
bool GOMP_single_start(void) {
    int me = my_tid < 0 ? 0 : my_tid;
    if (!T.active) return true;
    maybe_switch();
    u64 k = ++T.single_count[me];
    if (k > T.single_claimed) { T.single_claimed = k; return true; }
    return false;
}
unsigned GOMP_sections_start(unsigned count) { long a, b; return ws_start(1, (long)count + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned GOMP_sections_next(void) { long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
void GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned count, unsigned fl) {
    GOMP_parallel_loop(fn, d, n, 1, (long)count + 1, 1, 1, fl);
}
void GOMP_task(void (*fn)(void *), void *data, void (*cpy)(void *, void *), long size, long align, bool if_c, unsigned flags) {
    (void)if_c; (void)flags;
    if (cpy) { char buf[size + align]; char *a = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1)); cpy(a, data); fn(a); }
    else { char buf[size + align]; char *a = (char *)(((uintptr_t)buf + align - 1) & ~(uintptr_t)(align - 1)); memcpy(a, data, size); fn(a); }
}
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) { maybe_switch(); }
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
bool GOMP_cancel(int which, bool do_cancel) { (void)which; (void)do_cancel; return false; }
bool GOMP_cancellation_point(int which) { (void)which; return false; }

/* --------------------------------------------------------------- allocator */
#define RZ 64
typedef struct Blk { void *p; size_t n; struct Blk *next; } Blk;
static Blk *blks;

static int should_fail(void) {
    u64 idx = S.allocs;
    for (int i = 0; i < C.n_fail; i++) if (C.fail_idx[i] == idx) return 1;
    return 0;
}
static void *sim_alloc(size_t n, int zero) {
    maybe_switch();
    int f = should_fail();
    S.allocs++;
    if (f) { S.failed_allocs++; return NULL; }
    size_t rn = (n + 15) & ~(size_t)15;
    char *r = malloc(rn + 2 * RZ);
    if (!r) return NULL;
    memset(r, 0xA5, RZ); memset(r + RZ + n, 0xA5, rn - n + RZ);
    if (zero) memset(r + RZ, 0, n);
    else if (C.fill >= 0) memset(r + RZ, C.fill, n);
    Blk *b = malloc(sizeof *b); b->p = r + RZ; b->n = n; b->next = blks; blks = b;
    S.live++;
    forget(r + RZ, n);
    return r + RZ;
}
static int rz_ok(Blk *b) {
    unsigned char *p = b->p; size_t rn = (b->n + 15) & ~(size_t)15;
    for (int i = 1; i <= RZ; i++) if (p[-i] != 0xA5) return 0;
    for (size_t i = b->n; i < rn + RZ; i++) if (p[i] != 0xA5) return 0;
    return 1;
}
static void sim_free(void *p) {
    maybe_switch();
    if (!p) return;
    for (Blk **q = &blks; *q; q = &(*q)->next) if ((*q)->p == p) {
        Blk *b = *q; *q = b->next;
        if (!rz_ok(b)) S.overflow++;
        S.live--; S.frees++;
        if (C.fill >= 0) memset(b->p, C.fill, b->n);
        forget(b->p, b->n);
        free((char *)b->p - RZ); free(b);
        return;
    }
    S.bad_free++;
}
void *__wrap_malloc(size_t n) { return sim_alloc(n, 0); }
void *__wrap_calloc(size_t a, size_t b) { return sim_alloc(a * b, 1); }
void __wrap_free(void *p) { sim_free(p); }
void *__wrap_realloc(void *p, size_t n) {
    if (!p) return sim_alloc(n, 0);
    size_t old = 0; for (Blk *b = blks; b; b = b->next) if (b->p == p) old = b->n;
    void *q = sim_alloc(n, 0);
    if (!q) return NULL;
    memcpy(q, p, old < n ? old : n); sim_free(p);
    return q;
}
void *__wrap_aligned_alloc(size_t a, size_t n) { (void)a; return sim_alloc(n, 0); }
int __wrap_posix_memalign(void **o, size_t a, size_t n) { (void)a; void *p = sim_alloc(n, 0); if (!p) return 12; *o = p; return 0; }
void *__wrap_PyMem_RawMalloc(size_t n) { return sim_alloc(n ? n : 1, 0); }
void *__wrap_PyMem_RawCalloc(size_t a, size_t b) { return sim_alloc(a * b ? a * b : 1, 1); }
void *__wrap_PyMem_RawRealloc(void *p, size_t n) { return __wrap_realloc(p, n); }
void __wrap_PyMem_RawFree(void *p) { sim_free(p); }
void *__wrap_memset(void *p, int c, size_t n) { S.accesses++; if (T.active) { touch(p, n, 1, __builtin_return_address(0)); maybe_switch(); } return memset(p, c, n); }
void *__wrap_memcpy(void *p, const void *q, size_t n) { S.accesses++; if (T.active) { touch(q, n, 0, __builtin_return_address(0)); touch(p, n, 1, __builtin_return_address(0)); maybe_switch(); } return memcpy(p, q, n); }
void *__wrap_memmove(void *p, const void *q, size_t n) { S.accesses++; if (T.active) { touch(q, n, 0, __builtin_return_address(0)); touch(p, n, 1, __builtin_return_address(0)); maybe_switch(); } return memmove(p, q, n); }

/* ------------------------------------------------------------------ LAPACK */
typedef void (*zheevd_t)(char *, char *, int *, double *, int *, double *, double *, int *, double *, int *, int *, int *, int *);
static zheevd_t real_zheevd;
EXPORT void sim_zheevd(char *jobz, char *uplo, int *n, double *a, int *lda, double *w, double *work, int *lwork,
                       double *rwork, int *lrwork, int *iwork, int *liwork, int *info) {
    maybe_switch();
    u64 idx = S.zcalls++;
    int query = *lwork == -1 || *lrwork == -1 || *liwork == -1;
    const void *pc = __builtin_return_address(0);
    if (!query) {
        touch(a, (u64)*n * *lda * 16, 1, pc); touch(w, (u64)*n * 8, 1, pc);
        touch(work, (u64)(*lwork > 0 ? *lwork : 0) * 16, 1, pc); touch(rwork, (u64)(*lrwork > 0 ? *lrwork : 0) * 8, 1, pc);
        touch(iwork, (u64)(*liwork > 0 ? *liwork : 0) * 4, 1, pc);
        maybe_switch();
    }
    for (int i = 0; i < C.n_zfail; i++) if (C.zfail_idx[i] == idx) {
        S.zfaults++;
        if (query) { *info = -(C.zfail_info[i]); return; }
        real_zheevd(jobz, uplo, n, a, lda, w, work, lwork, rwork, lrwork, iwork, liwork, info);
        /* failed to converge: the outputs are unspecified */
        for (int k = 0; k < *n; k++) w[k] = w[k] * 0.5 + 1e-3 * (k + 1);
        *info = C.zfail_info[i];
        return;
    }
    real_zheevd(jobz, uplo, n, a, lda, w, work, lwork, rwork, lrwork, iwork, liwork, info);
    if (!query) maybe_switch();
}

/* --------------------------------------------------------------- interface */
EXPORT void sim_reset(void) { memset(&S, 0, sizeof S); Blk *b = blks; while (b) { Blk *n = b->next; free((char *)b->p - RZ); free(b); b = n; } blks = NULL;
    want_threads = 1; crit_lock.held = atomic_lock.held = 0; n_named = 0; S.hash = 0xcbf29ce484222325ULL; module_base = NULL; }
EXPORT void sim_config(int enabled, u64 seed, u64 mean_gap, int max_switches, int team_cap, int fill, int races) {
    C.enabled = enabled; C.seed = seed; rng_state = seed; C.mean_gap = mean_gap; C.max_switches = max_switches; C.team_cap = team_cap;
    C.fill = fill; C.detect_races = races; C.explicit_sched = 0; C.n_list = 0; C.n_fail = 0; C.n_zfail = 0; T.list_pos = 0;
}
EXPORT void sim_schedule(int n, const u64 *steps, const int *tids) {
    C.explicit_sched = 1; C.n_list = n > MAXSW ? MAXSW : n; T.list_pos = 0;
    for (int i = 0; i < C.n_list; i++) { C.list_step[i] = steps[i]; C.list_tid[i] = tids[i]; }
}
EXPORT void sim_fail_alloc(int n, const u64 *idx) { C.n_fail = n > 256 ? 256 : n; for (int i = 0; i < C.n_fail; i++) C.fail_idx[i] = idx[i]; }
EXPORT void sim_fail_zheevd(int n, const u64 *idx, const int *info) { C.n_zfail = n > 256 ? 256 : n; for (int i = 0; i < C.n_zfail; i++) { C.zfail_idx[i] = idx[i]; C.zfail_info[i] = info[i]; } }
EXPORT void sim_set_real_zheevd(void *p) { real_zheevd = (zheevd_t)p; }
EXPORT void sim_set_base(void *p) { module_base = p; }
EXPORT void sim_stats(u64 *o) {
    o[0] = S.steps; o[1] = S.accesses; o[2] = S.regions; o[3] = S.switches; o[4] = S.allocs; o[5] = S.frees; o[6] = S.failed_allocs;
    o[7] = S.zcalls; o[8] = S.zfaults; o[9] = S.bad_free; o[10] = S.overflow; o[11] = S.max_team; o[12] = S.live; o[13] = S.races; o[14] = S.hash;
    o[15] = (u64)S.n_rec;
}
EXPORT int sim_live_overflow(void) { int k = 0; for (Blk *b = blks; b; b = b->next) k += !rz_ok(b); return k; }
EXPORT void sim_record(u64 *steps, int *tids) { for (int i = 0; i < S.n_rec; i++) { steps[i] = S.rec_step[i]; tids[i] = S.rec_tid[i]; } }
EXPORT int sim_race(int i, char *out, int n) { if (i >= S.n_race) return 0; snprintf(out, n, "%s", S.race[i]); return 1; }
EXPORT void *sim_self(void) { return (void *)&sim_zheevd; }
