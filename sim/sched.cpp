// Steps, preemption, crashes of the process, signals, violations.
#include "sim.h"
#include <dlfcn.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <stdio.h>
#include <sys/mman.h>
#include <errno.h>
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

namespace sim {

Res *res;
uint8_t *cov, *image;
uint32_t cov_edges;
Scenario *scn;
thread_local int t_insim;
thread_local OpCtx *t_op;
uint64_t g_tick, g_trip = ~0ull, g_cap = ~0ull, g_crash_tick = ~0ull;

// ------------------------------------------------------------- violations
void finish() {
    t_insim = 0;
    res->ticks = g_tick;
    res->done = 1;
    _exit(0);
}
static bool in_violation;
void violation(int cls, const char *fmt, ...) {
    t_insim = 0;
    if (in_violation) _exit(5);
    in_violation = true;
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(res->text, sizeof res->text, fmt, ap);
    va_end(ap);
    bool faulted = res->faulted;
    res->cls = cls;
    res->viol_op = t_op ? t_op->id : -1;
    log_event(0xdead, cls);
    if (wanted(*scn, cls, faulted)) res->viol = 1; else res->other = 1;
    finish();
}
void log_event(uint64_t a, uint64_t b, uint64_t c) {
    uint64_t h = res->hash;
    h = mix(h, a); h = mix(h, b); h = mix(h, c);
    res->hash = h;
    if (getenv("SIM_TRACE")) {
        char t[160];
        int n = snprintf(t, sizeof t, "[%llu] %llx %llx %llx\n", (unsigned long long)g_tick, (unsigned long long)a, (unsigned long long)b, (unsigned long long)c);
        if (write(2, t, n) < 0) {}
    }
}

// -------------------------------------------------------------- scheduler
static Rng srng(1);
static bool multi;
static int nthreads, cur;
static bool alive[16], stalled[16];
static sem_t sems[16];
static sem_t main_sem;
static uint64_t next_preempt = ~0ull;
static size_t next_switch;
static thread_local int me = -1;
static uint64_t stalled_at[16];
static bool no_more_stalls;
static int blocked_spins;
static std::vector<OpCtx *> *ctxs; // per thread current op (for tick accounting)

bool sched_multi() { return multi; }

void retrip() {
    uint64_t t = g_cap;
    if (g_crash_tick < t) t = g_crash_tick;
    if (multi) {
        if (scn->explicit_sched) {
            if (next_switch < scn->switches.size() && (uint64_t)scn->switches[next_switch][0] < t)
                t = scn->switches[next_switch][0];
        } else if (next_preempt < t)
            t = next_preempt;
    }
    g_trip = t;
}
static void draw() {
    if (scn->explicit_sched) return;
    next_preempt = g_tick + 4000000; // nobody runs for ever: the others may be what it spins for
    if (scn->gap > 0) next_preempt = g_tick + 1 + srng.below(2 * (uint64_t)scn->gap);
}
// must: someone else has to go on, so when all the others are stalled they are released
static int pick_other(bool must) {
    int c[16], n = 0;
    for (int i = 0; i < nthreads; i++) if (stalled[i] && g_tick > stalled_at[i] + 8000000) { stalled[i] = false; no_more_stalls = true; } // the others may be spinning for it
    for (int i = 0; i < nthreads; i++) if (alive[i] && i != me && !stalled[i]) c[n++] = i;
    if (!n && must) {
        for (int i = 0; i < nthreads; i++) if (alive[i] && i != me) { c[n++] = i; stalled[i] = false; }
    }
    if (!n) return -1;
    return c[srng.below(n)];
}
static bool stalls(int kind) {
    return !no_more_stalls && (scn->park_mask >> kind & 1) && !(srng.next() & ((1ull << scn->park_shift) - 1));
}
static void record(int to) {
    if (res->nrec < 4096) { res->rec[res->nrec][0] = g_tick; res->rec[res->nrec][1] = to; }
    res->nrec++;
    res->switches++;
    res->sched_hash = mix(mix(res->sched_hash, g_tick), to);
    log_event(0x5c, to);
}
static void hand_over(int to) {
    int errno_here = errno;
    int self = me;
    int ins = t_insim;
    t_insim = 0;
    record(to);
    if (t_op) t_op->ticks += g_tick - t_op->tick0;
    cur = to;
    sem_post(&sems[to]);
    while (sem_wait(&sems[self]) != 0) {}
    if (t_op) t_op->tick0 = g_tick;
    t_insim = ins;
    errno = errno_here;
}
static void do_trip() {
    Out o;
    if (g_tick >= g_cap) {
        violation(V_HANG, "no end after %llu steps (budget)", (unsigned long long)g_tick);
    }
    if (g_tick >= g_crash_tick) {
        for (auto &f : t_op->faults) if (f.kind == F_CRASH_TICK) fault_fired(t_op, f, false);
        do_crash();
    }
    if (multi) {
        if (scn->explicit_sched) {
            while (next_switch < scn->switches.size() && (uint64_t)scn->switches[next_switch][0] <= g_tick) {
                int to = scn->switches[next_switch][1];
                next_switch++;
                retrip();
                if (to >= 0 && to < nthreads && alive[to] && to != me) { hand_over(to); break; }
            }
        } else if (g_tick >= next_preempt) {
            draw();
            bool stall = stalls(PT_EDGE);
            int to = pick_other(stall);
            retrip();
            if (to >= 0) {
                if (stall) { stalled[me] = true; stalled_at[me] = g_tick; res->probes[P_STALLED]++; }
                hand_over(to);
                stalled[me] = false;
            }
        }
    }
    retrip();
}
static inline void step() { if (__builtin_expect(++g_tick >= g_trip, 0)) do_trip(); }

void sched_point(int kind) {
    Out o;
    uint64_t t = g_tick;
    step();
    blocked_spins = 0;
    if (!multi || scn->explicit_sched || g_tick != t + 1) return;
    if (stalls(kind)) {
        int to = pick_other(true);
        if (to >= 0) {
            stalled[me] = true; stalled_at[me] = g_tick;
            res->probes[P_STALLED]++;
            draw(); retrip(); hand_over(to);
            stalled[me] = false;
        }
        return;
    }
    if (scn->call_p && (int)srng.below(256) < scn->call_p) {
        int to = pick_other(false);
        if (to >= 0) { draw(); retrip(); hand_over(to); }
    }
}
void sched_yield_blocked() {
    Out o;
    if (++blocked_spins > 200000) violation(V_HANG, "deadlock: every thread waits for another");
    ++g_tick;
    if (!multi) violation(V_HANG, "deadlock: waits for a lock that nobody can release");
    // round robin, so that progress does not depend on chance
    for (int k = 1; k < nthreads; k++) {
        int to = (me + k) % nthreads;
        if (alive[to]) { hand_over(to); retrip(); return; }
    }
    violation(V_HANG, "deadlock: waits for a lock held by a thread that ended");
}

static void (*the_body)(int);
static void setup_altstack() {
    stack_t ss;
    ss.ss_size = 65536;
    ss.ss_sp = mmap(NULL, ss.ss_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ss.ss_flags = 0;
    sigaltstack(&ss, NULL);
}
static void *thread_main(void *a) {
    me = (int)(intptr_t)a;
    setup_altstack();
    while (sem_wait(&sems[me]) != 0) {}
    the_body(me);
    alive[me] = false;
    int to = -1;
    if (scn->explicit_sched) {
        // an explicit entry at this very moment decides, else the lowest one
        ++g_tick;
        if (next_switch < scn->switches.size() && (uint64_t)scn->switches[next_switch][0] == g_tick &&
            alive[scn->switches[next_switch][1]])
            to = scn->switches[next_switch++][1];
        else
            for (int i = 0; i < nthreads && to < 0; i++) if (alive[i]) to = i;
    } else {
        ++g_tick;
        to = pick_other(true);
        draw();
    }
    retrip();
    if (to < 0) sem_post(&main_sem);
    else { record(to); cur = to; sem_post(&sems[to]); }
    return NULL;
}
void run_threads(int n, void (*body)(int)) {
    if (n <= 1) { me = 0; body(0); return; }
    nthreads = n;
    the_body = body;
    sem_init(&main_sem, 0, 0);
    srng = Rng(scn->sched_seed);
    multi = true;
    pthread_t th[16];
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, STACK_BYTES);
    for (int i = 0; i < n; i++) { sem_init(&sems[i], 0, 0); alive[i] = true; }
    for (int i = 0; i < n; i++) if (pthread_create(&th[i], &at, thread_main, (void *)(intptr_t)i)) { fprintf(stderr, "sim: pthread_create\n"); _exit(4); }
    draw();
    retrip();
    cur = scn->explicit_sched ? 0 : (int)srng.below(n);
    if (cur) { me = -1; record(cur); }
    if (scn->explicit_sched && next_switch < scn->switches.size() && (uint64_t)scn->switches[next_switch][0] == g_tick) {
        cur = scn->switches[next_switch++][1];
        if (cur < 0 || cur >= n) cur = 0;
        record(cur);
        retrip();
    }
    sem_post(&sems[cur]);
    while (sem_wait(&main_sem) != 0) {}
    for (int i = 0; i < n; i++) pthread_join(th[i], NULL);
    multi = false;
    retrip();
}

// ---------------------------------------------------------------- op frame
static std::vector<std::array<uint64_t, 5>> *counts;
void fault_counts(int op, uint64_t out[5]) {
    for (int i = 0; i < 5; i++) out[i] = counts && op >= 0 && (size_t)op < counts->size() ? (*counts)[op][i] : 0;
}
void begin_op(OpCtx &c, int id) {
    c.id = id;
    for (size_t k = 0; k < scn->faults.size(); k++) {
        Fault f = scn->faults[k];
        if (f.op != id) continue;
        if (f.rel >= 0 && f.ref >= 0) {
            uint64_t n[5];
            fault_counts(f.ref, n);
            uint64_t m;
            switch (f.kind) {
            case F_ALLOC: case F_ALLOC_FROM: case F_CRASH_ALLOC: m = n[0]; break;
            case F_CRASH_IO: m = n[1]; break;
            case F_CRASH_TICK: m = n[2]; break;
            case F_READ: case F_READ_EOF: case F_READ_SHORT: case F_SHRINK: case F_GROW: m = n[3]; break;
            case F_WRITE: case F_WRITE_ALL: case F_WRITE_SHORT: m = n[4]; break;
            default: m = 1;
            }
            f.nth = 1 + (int64_t)((double)f.rel * (double)m / 1000.0);
            if (m && f.nth > (int64_t)m) f.nth = m;
        }
        if (k < 64) res->resolved[k] = f.nth;
        res->planned[f.kind]++;
        c.faults.push_back(f);
        if (f.kind == F_CRASH_TICK) g_crash_tick = g_tick + f.nth;
    }
    c.tick0 = g_tick;
    t_op = &c;
    heap_op(&c, true);
    retrip();
    log_event(0x0b, id);
}
void end_op(OpCtx &c) {
    c.ticks += g_tick - c.tick0;
    g_crash_tick = ~0ull;
    if (!counts) counts = new std::vector<std::array<uint64_t, 5>>;
    if ((size_t)c.id >= counts->size()) counts->resize(c.id + 1);
    (*counts)[c.id] = {{c.allocs, c.ios, c.ticks, c.reads, c.writes}};
    t_op = NULL;
    heap_op(&c, false);
    retrip();
    res->ios += c.ios;
    log_event(0x0e, c.allocs, c.ios);
    log_event(0x0f, c.ticks);
}
void fault_fired(OpCtx *c, const Fault &f, bool output_side) {
    res->fired[f.kind]++;
    log_event(0xfa, f.kind, f.nth);
    if (!fk_benign(f.kind)) {
        res->faulted = 1;
        if (c) {
            c->hard_fault = true;
            if (output_side) c->out_fault = true;
            else if (f.kind > F_ALLOC_CAP && f.kind < F_CRASH_IO) c->input_fault = true;
        }
    }
}
void do_crash() {
    t_insim = 0;
    // what the post-crash checks need to know about the dying call
    uint64_t n[5] = {0, 0, 0, 0, 0};
    int ref = -1;
    for (auto &f : t_op->faults) if (f.kind == F_CRASH_IO || f.kind == F_CRASH_ALLOC || f.kind == F_CRASH_TICK) ref = f.ref;
    fault_counts(ref, n);
    res->crash_computing = n[0] && t_op->allocs + 8 <= n[0];
    res->crash_op = t_op->id;
    if (t_op->out_opened) res->probes[P_CRASH_AFTER_OUT]++; else res->probes[P_CRASH_BEFORE_OUT]++;
    log_event(0xc4, t_op->allocs, t_op->ios);
    disk_dump();
    res->ticks = g_tick;
    res->crashed = 1;
    res->done = 1;
    _exit(0);
}

// ---------------------------------------------------------- bad endings
static void describe_and_report(const char *what, uintptr_t addr, bool write, bool has_addr) {
    std::string d;
    bool caller = false;
    int cls = V_MEMORY;
    if (has_addr) {
        if (ro_contains(addr)) {
            d = "; near the caller's read-only buffer";
            if (write) cls = V_BUFFER;
        } else {
            d = heap_describe(addr, &caller);
            if (caller) cls = V_BUFFER;
        }
    }
    violation(cls, "%s%s", what, d.c_str());
}
static void on_signal(int sig, siginfo_t *si, void *uc) {
    int errno_here = errno;
    if (sig == SIGSEGV && heap_touch((uintptr_t)si->si_addr)) { errno = errno_here; return; }
    t_insim = 0;
    if (sig == SIGALRM) violation(V_HANG, "the call does not end (wall clock limit; %llu steps)", (unsigned long long)g_tick);
    if (sig == SIGABRT && res->abort_ok) { res->abort_ok = 0; abort_hook(); }
    bool write = false;
#ifdef __x86_64__
    if (sig == SIGSEGV) write = (((ucontext_t *)uc)->uc_mcontext.gregs[REG_ERR] & 2) != 0;
#endif
    signal_hook();
    char b[100];
    snprintf(b, sizeof b, "killed by %s%s", sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "a signal",
             sig == SIGSEGV && write ? " (write)" : "");
    describe_and_report(b, sig == SIGSEGV ? (uintptr_t)si->si_addr : 0, write, sig == SIGSEGV);
}
void install_handlers() {
    setup_altstack();
    struct sigaction sa;
    memset(&sa, 0, sizeof sa);
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (int s : sigs) sigaction(s, &sa, NULL);
}
#ifdef SIM_ASAN
static void asan_death() {
    t_insim = 0;
    if (!__asan_report_present()) violation(V_MEMORY, "sanitizer ended the process");
    const char *d = __asan_get_report_description();
    uintptr_t a = (uintptr_t)__asan_get_report_address();
    char b[200];
    snprintf(b, sizeof b, "memory error: %s (%s of %zu bytes)", d ? d : "?", __asan_get_report_access_type() ? "write" : "read", __asan_get_report_access_size());
    describe_and_report(b, a, __asan_get_report_access_type(), true);
}
void install_asan() { __sanitizer_set_death_callback(asan_death); }
#else
void install_asan() {}
#endif

} // namespace sim

using namespace sim;
#ifdef SIM_ASAN
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:handle_segv=0:handle_sigbus=0:handle_abort=0:handle_sigfpe=0:handle_sigill=0:"
           "allocator_may_return_null=1:detect_stack_use_after_return=0:symbolize=0:exitcode=99:"
           "print_legend=0:print_full_thread_history=0:log_path=/dev/null:alloc_dealloc_mismatch=0:"
           "use_sigaltstack=0:quarantine_size_mb=1:intercept_tls_get_addr=0:check_initialization_order=0";
}
#endif

// ------------------------------------------------------ compiler callbacks
extern "C" {
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) {
    if (a == b || *a) return;
    for (uint32_t *g = a; g < b; g++) *g = ++cov_edges < COV_MAX ? cov_edges : COV_MAX - 1;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) {
    if (t_insim <= 0) return;
    cov[*g] = 1;
    step();
}
extern char __data_start, _end;
extern char sim_tunables_lo, sim_tunables_hi;
static inline void access_at(void *q) {
    if (t_insim <= 0) return;
    char *p = (char *)q;
    if (p < &__data_start || p >= &_end) return;
    if (p >= &sim_tunables_lo && p < &sim_tunables_hi) return;
    res->probes[P_GLOBAL_ACCESS]++;
    sched_point(PT_GLOBAL);
}
void __sanitizer_cov_load1(uint8_t *p) { access_at(p); }
void __sanitizer_cov_load2(uint16_t *p) { access_at(p); }
void __sanitizer_cov_load4(uint32_t *p) { access_at(p); }
void __sanitizer_cov_load8(uint64_t *p) { access_at(p); }
void __sanitizer_cov_load16(__uint128_t *p) { access_at(p); }
void __sanitizer_cov_store1(uint8_t *p) { access_at(p); }
void __sanitizer_cov_store2(uint16_t *p) { access_at(p); }
void __sanitizer_cov_store4(uint32_t *p) { access_at(p); }
void __sanitizer_cov_store8(uint64_t *p) { access_at(p); }
void __sanitizer_cov_store16(__uint128_t *p) { access_at(p); }

// ------------------------------------------------------------------- locks
int __real_pthread_mutex_lock(pthread_mutex_t *);
int __wrap_pthread_mutex_lock(pthread_mutex_t *m) {
    if (t_insim <= 0) return __real_pthread_mutex_lock(m);
    sched_point(PT_LOCK);
    for (;;) {
        int r = pthread_mutex_trylock(m);
        if (r != EBUSY) { blocked_spins = 0; return r; }
        sched_yield_blocked();
    }
}
int __real___cxa_guard_acquire(uint64_t *);
void __real___cxa_guard_release(uint64_t *);
void __real___cxa_guard_abort(uint64_t *);
int __wrap___cxa_guard_acquire(uint64_t *g) {
    uint8_t *b = (uint8_t *)g; // [0] initialised, [1] in progress
    if (t_insim <= 0) return __real___cxa_guard_acquire(g);
    for (;;) {
        if (b[0]) return 0;
        if (!b[1]) { b[1] = 1; sched_point(PT_LOCK); return 1; }
        sched_yield_blocked();
    }
}
void __wrap___cxa_guard_release(uint64_t *g) {
    if (t_insim <= 0) { __real___cxa_guard_release(g); return; }
    ((uint8_t *)g)[1] = 0; ((uint8_t *)g)[0] = 1;
    blocked_spins = 0;
}
void __wrap___cxa_guard_abort(uint64_t *g) {
    if (t_insim <= 0) { __real___cxa_guard_abort(g); return; }
    ((uint8_t *)g)[1] = 0;
}
#define TRY_LOCK(NAME, TYPE, TRY) \
int __real_##NAME(TYPE *); \
int __wrap_##NAME(TYPE *m) { \
    if (t_insim <= 0) return __real_##NAME(m); \
    sched_point(PT_LOCK); \
    for (;;) { \
        int r = TRY(m); \
        if (r != EBUSY) { blocked_spins = 0; return r; } \
        sched_yield_blocked(); \
    } \
}
TRY_LOCK(pthread_rwlock_rdlock, pthread_rwlock_t, pthread_rwlock_tryrdlock)
TRY_LOCK(pthread_rwlock_wrlock, pthread_rwlock_t, pthread_rwlock_trywrlock)
TRY_LOCK(pthread_spin_lock, pthread_spinlock_t, pthread_spin_trylock)
// waiting for a condition: it may always end too early
static int wait_once(pthread_cond_t *c, pthread_mutex_t *m) {
    pthread_mutex_unlock(m);
    sched_yield_blocked();
    while (pthread_mutex_trylock(m) == EBUSY) sched_yield_blocked();
    return 0;
}
typedef int (*cond_wait_fn)(pthread_cond_t *, pthread_mutex_t *);
typedef int (*cond_timed_fn)(pthread_cond_t *, pthread_mutex_t *, const timespec *);
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { // also what libstdc++ calls
    static cond_wait_fn real = (cond_wait_fn)dlsym(RTLD_NEXT, "pthread_cond_wait");
    return t_insim <= 0 ? real(c, m) : wait_once(c, m);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const timespec *t) {
    static cond_timed_fn real = (cond_timed_fn)dlsym(RTLD_NEXT, "pthread_cond_timedwait");
    if (t_insim <= 0) return real(c, m, t);
    wait_once(c, m);
    return ETIMEDOUT;
}
int __real_pthread_once(pthread_once_t *, void (*)(void));
int __wrap_pthread_once(pthread_once_t *o, void (*f)(void)) {
    if (t_insim <= 0) return __real_pthread_once(o, f);
    volatile int *v = (volatile int *)o;
    for (;;) {
        if (*v == 2) return 0;
        if (*v == 0) {
            *v = 1; sched_point(PT_LOCK);
            try { f(); } catch (...) { *v = 0; throw; }
            *v = 2;
            return 0;
        }
        sched_yield_blocked();
    }
}
}

// bulk work in the C library costs what a loop would: a step for every eight bytes
namespace sim {
void sched_bulk(size_t n) {
    if (t_insim <= 0 || n < 8) return;
    g_tick += n / 8;
    if (g_tick >= g_trip) { int e = errno; do_trip(); errno = e; }
}
}
extern "C" {
#define BULK(name) \
    void *__real_##name(void *, const void *, size_t); \
    void *__wrap_##name(void *d, const void *s, size_t n) { sched_bulk(n); return __real_##name(d, s, n); }
BULK(memcpy) BULK(memmove)
void *__real_memset(void *, int, size_t);
void *__wrap_memset(void *d, int c, size_t n) { sched_bulk(n); return __real_memset(d, c, n); }
#ifdef SIM_ASAN
BULK(__asan_memcpy) BULK(__asan_memmove)
void *__real___asan_memset(void *, int, size_t);
void *__wrap___asan_memset(void *d, int c, size_t n) { sched_bulk(n); return __real___asan_memset(d, c, n); }
#endif
static size_t alike(const void *a, const void *b, size_t n) {
    size_t i = 0;
    while (i < n && ((volatile const char *)a)[i] == ((volatile const char *)b)[i]) i++;
    return i;
}
int __real_memcmp(const void *, const void *, size_t);
int __wrap_memcmp(const void *a, const void *b, size_t n) {
    int r = __real_memcmp(a, b, n); // checks the memory
    if (t_insim > 0) sched_bulk(alike(a, b, n));
    return r;
}
int __real_bcmp(const void *, const void *, size_t);
int __wrap_bcmp(const void *a, const void *b, size_t n) {
    int r = __real_bcmp(a, b, n);
    if (t_insim > 0) sched_bulk(alike(a, b, n));
    return r;
}
void *__real_memchr(const void *, int, size_t);
void *__wrap_memchr(const void *a, int c, size_t n) {
    void *r = __real_memchr(a, c, n);
    sched_bulk(r ? (char *)r - (char *)a : n);
    return r;
}
size_t __real_strlen(const char *);
size_t __wrap_strlen(const char *a) { size_t n = __real_strlen(a); sched_bulk(n); return n; }
}
