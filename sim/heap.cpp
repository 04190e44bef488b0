// Simulated heap: decides placement, contents, reuse, relocation and refusals.
#include "sim.h"
#include <sys/mman.h>
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <new>
#include <map>
#include <deque>
#ifdef SIM_ASAN
#include <sanitizer/asan_interface.h>
#define POISON(p, n) __asan_poison_memory_region((void *)(p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((void *)(p), (n))
#define NOSAN __attribute__((no_sanitize("address")))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#define NOSAN
#endif

extern "C" {
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void __real_free(void *);
}

namespace sim {

static const uintptr_t ARENA = 0x200000000000ull;
static size_t ARENA_SIZE = 3ull << 30;
static const uintptr_t HUGE0 = 0x210000000000ull;
static const size_t HUGE_SLOT = 10ull << 40;
static const int HUGE_SLOTS = 4;
static const size_t HUGE_MIN = 64ull << 20;

struct Chunk {
    uintptr_t p;
    size_t n, cap;
    int kind, op, huge; // huge: slot + 1
    bool live, caller;
};
static std::deque<Chunk> *chunks;
static std::multimap<size_t, uint32_t> *freed;
static uint32_t *index16; // chunk number + 1 per 16 bytes of the arena
static uintptr_t bump;
static Rng hrng(1);
static size_t copy_budget;
static uint64_t live_bytes, live_count, peak_bytes;
static uint32_t huge_chunk[HUGE_SLOTS];
static bool huge_mapped;
static std::map<int, OpCtx *> *ops_live;

void heap_init() {
    static bool mapped;
    if (!mapped) {
        if (!scn->giant.empty()) ARENA_SIZE = 30ull << 30;
        void *a = mmap((void *)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        void *b = mmap(NULL, ARENA_SIZE / 16 * 4, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (a != (void *)ARENA || b == MAP_FAILED) {
            fprintf(stderr, "sim: cannot map the arena\n");
            _Exit(4);
        }
        index16 = (uint32_t *)b;
        mapped = true;
        chunks = new std::deque<Chunk>;
        freed = new std::multimap<size_t, uint32_t>;
        ops_live = new std::map<int, OpCtx *>;
        bump = ARENA + 4096;
        POISON(ARENA, 4096);
    }
    hrng = Rng(scn->heap_seed * 0x9e37 + 17);
    copy_budget = 48u << 20;
    if (scn->huge && !huge_mapped) {
        void *h = mmap((void *)HUGE0, HUGE_SLOT * HUGE_SLOTS, PROT_NONE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (h != (void *)HUGE0) {
            fprintf(stderr, "sim: cannot map sparse memory\n");
            _Exit(4);
        }
        huge_mapped = true;
    }
}

static Chunk *find(const void *q) {
    uintptr_t p = (uintptr_t)q;
    if (p >= ARENA && p < ARENA + ARENA_SIZE) {
        if (p % 16) return NULL;
        uint32_t i = index16[(p - ARENA) / 16];
        return i ? &(*chunks)[i - 1] : NULL;
    }
    if (huge_mapped && p >= HUGE0 && p < HUGE0 + HUGE_SLOT * HUGE_SLOTS) {
        uint32_t i = huge_chunk[(p - HUGE0) / HUGE_SLOT];
        if (i && (*chunks)[i - 1].p == p) return &(*chunks)[i - 1];
    }
    return NULL;
}
static bool in_arena(const void *q) {
    uintptr_t p = (uintptr_t)q;
    return (p >= ARENA && p < ARENA + ARENA_SIZE) ||
           (huge_mapped && p >= HUGE0 && p < HUGE0 + HUGE_SLOT * HUGE_SLOTS);
}
bool heap_owns(const void *p) { return in_arena(p); }
bool heap_is_live(const void *p) { Chunk *c = find(p); return c && c->live; }
int heap_kind(const void *p) { Chunk *c = find(p); return c && c->live ? c->kind : -1; }
size_t heap_size(const void *p) { Chunk *c = find(p); return c && c->live ? c->n : 0; }
void heap_mark_caller(void *p) { if (Chunk *c = find(p)) c->caller = true; }
uint32_t heap_serial(const void *p) {
    if (!find(p)) return 0;
    if ((uintptr_t)p >= HUGE0) return huge_chunk[((uintptr_t)p - HUGE0) / HUGE_SLOT];
    return index16[((uintptr_t)p - ARENA) / 16];
}
bool heap_serial_live(uint32_t s) { return s && (*chunks)[s - 1].live; }
uint64_t heap_live_bytes() { return live_bytes; }
uint64_t heap_live_count() { return live_count; }
uint64_t heap_peak() { return peak_bytes; }
void heap_reset_peak() { peak_bytes = live_bytes; }

std::string heap_describe(uintptr_t a, bool *caller) {
    char b[200];
    *caller = false;
    const Chunk *best = NULL;
    for (auto &c : *chunks) {
        if (a + 4096 < c.p || a >= c.p + c.cap + 4096) continue;
        if (!best || (a >= c.p && a < c.p + c.cap)) best = &c;
        if (a >= c.p && a < c.p + c.cap) break;
    }
    if (!best) return "";
    *caller = best->caller;
    snprintf(b, sizeof b, "; at offset %lld of a %s%s block of %llu bytes",
             (long long)(int64_t)(a - best->p), best->live ? "live" : "released",
             best->caller ? " caller's" : "", (unsigned long long)best->n);
    return b;
}

NOSAN static void fill(uintptr_t p, size_t n) {
    if (!n) return;
    if (n > (256u << 20)) return;
    switch (scn->fill) {
    case 0: break; // fresh pages are zero, recycled ones are cleared by the caller
    case 1: for (size_t i = 0; i < n; i++) ((volatile uint8_t *)p)[i] = 0xff; return;
    case 3: { uint64_t x = hrng.next() | 1;
        for (size_t i = 0; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; ((volatile uint8_t *)p)[i] = (x >> 60) & 3; }
        return; }
    default: { uint64_t x = hrng.next() | 1; size_t i = 0;
        for (; i + 8 <= n; i += 8) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; *(volatile uint64_t *)(p + i) = x; }
        for (; i < n; i++) ((volatile uint8_t *)p)[i] = (uint8_t)(x >> (8 * (i & 7)));
        return; }
    }
    for (size_t i = 0; i < n; i++) ((volatile uint8_t *)p)[i] = 0;
}

static void account(Chunk &c, int64_t d) {
    live_bytes += d;
    if (live_bytes > peak_bytes) peak_bytes = live_bytes;
    if (c.op >= 0) {
        auto it = ops_live->find(c.op);
        if (it != ops_live->end()) { OpCtx &o = *it->second; o.live += d; if (o.live > o.most) o.most = o.live; }
    }
}
void heap_op(OpCtx *c, bool on) {
    if (on) (*ops_live)[c->id] = c; else ops_live->erase(c->id);
}

// the simulator's own limit, not the code's fault: the run says nothing
static void exhausted() __attribute__((noreturn));
static void exhausted() {
    res->probes[P_EXHAUSTED]++;
    if (scn->prop == "C19" && t_op && t_op->most > (1 << 30)) violation(V_COST, "one call holds more than the simulator has (%zu MB)", ARENA_SIZE >> 20);
    finish();
}
// a first touch of sparse memory: only the pages of a live block open, and only as many as the host can give
bool heap_touch(uintptr_t a) {
    static size_t opened;
    if (!huge_mapped || a < HUGE0 || a >= HUGE0 + HUGE_SLOT * HUGE_SLOTS) return false;
    uint32_t i = huge_chunk[(a - HUGE0) / HUGE_SLOT];
    if (!i) return false;
    const Chunk &c = (*chunks)[i - 1];
    uintptr_t from = a & ~65535ull, to = from + 65536, first = c.p & ~4095ull, last = (c.p + c.n + 4095) & ~4095ull;
    if (from < first) from = first;
    if (to > last) to = last;
    if (a < from || a >= to) return false;
    if ((opened += to - from) > (256u << 20)) exhausted();
    return mprotect((void *)from, to - from, PROT_READ | PROT_WRITE) == 0;
}
static void *place(size_t n, size_t cap, int kind, bool sim) {
    Chunk c{};
    c.n = n; c.kind = kind; c.live = true; c.op = sim && t_op ? t_op->id : -1;
    if (scn->huge && cap >= HUGE_MIN) {
        for (int s = 0; s < HUGE_SLOTS; s++) {
            if (huge_chunk[s]) continue;
            if (n > HUGE_SLOT - 65536) { if (n < (64ull << 40)) exhausted(); return NULL; }
            c.p = HUGE0 + s * HUGE_SLOT + 4096;
            c.cap = n; c.huge = s + 1;
            chunks->push_back(c);
            huge_chunk[s] = chunks->size();
            POISON(c.p - 4096, 4096);
            UNPOISON(c.p, n < 65536 ? n : 65536);
            POISON((c.p + n + 7) / 8 * 8, 4096);
            fill(c.p, 64);
            account(chunks->back(), n);
            live_count++;
            return (void *)c.p;
        }
        exhausted();
    }
    if (cap > (1ull << 40)) return NULL;
    if (scn->reuse) {
        auto it = freed->lower_bound((cap + 15) / 16 * 16);
        if (it != freed->end() && it->first <= 2 * cap + 256) {
            // last one of the equal ones: LIFO
            auto e = freed->upper_bound(it->first);
            --e;
            Chunk &o = (*chunks)[e->second];
            freed->erase(e);
            c.p = o.p; c.cap = o.cap;
            o.cap = 0; // the record now belongs to the new block
            chunks->push_back(c);
            index16[(c.p - ARENA) / 16] = chunks->size();
            UNPOISON(c.p, n);
            res->probes[P_REUSED]++;
            account(chunks->back(), n);
            live_count++;
            return (void *)c.p;
        }
    }
    size_t red = 32 + (n / 8 < 2048 ? n / 8 / 16 * 16 : 2048);
    if (scn->spread) red += 16 * hrng.below(scn->spread == 1 ? 64 : 4096);
    cap = (cap + 15) / 16 * 16;
    if (bump + cap + red > ARENA + ARENA_SIZE) exhausted();
    c.p = bump; c.cap = cap;
    bump += cap + red;
    chunks->push_back(c);
    index16[(c.p - ARENA) / 16] = chunks->size();
    UNPOISON(c.p, n);
    POISON((c.p + n + 7) / 8 * 8, bump - (c.p + n + 7) / 8 * 8);
    if (scn->fill) fill(c.p, n);
    account(chunks->back(), n);
    live_count++;
    return (void *)c.p;
}

// true: this request is refused
static bool refused(size_t n, int64_t growth) {
    sched_point(PT_ALLOC);
    res->allocs++;
    if (!t_op) return false;
    OpCtx &c = *t_op;
    c.allocs++;
    for (auto &f : c.faults) {
        bool hit = false;
        switch (f.kind) {
        case F_ALLOC: hit = c.allocs == (uint64_t)f.nth; break;
        case F_ALLOC_FROM: hit = c.allocs >= (uint64_t)f.nth; break;
        case F_ALLOC_BIG: hit = (int64_t)n >= f.arg; break;
        case F_ALLOC_CAP: hit = c.live + growth > f.arg; break;
        case F_CRASH_ALLOC:
            if (c.allocs == (uint64_t)f.nth) { fault_fired(&c, f, false); do_crash(); }
            break;
        }
        if (hit) {
            fault_fired(&c, f, false);
            if (!c.alloc_fails) c.first_alloc_fail = c.allocs;
            c.alloc_fails++;
            if (c.alloc_fails > 20000) violation(V_HANG, "memory requested %d times after refusals", c.alloc_fails);
            return true;
        }
    }
    return false;
}

void *heap_alloc(size_t n, int kind) {
    Out o;
    bool sim = o.old > 0;
    if (sim && refused(n, n)) { errno = ENOMEM; return NULL; }
    void *p = place(n, n ? n : 1, kind, sim);
    if (!p) { errno = ENOMEM; res->probes[P_NATURAL_OOM]++; }
    return p;
}

static void release(Chunk &c) {
    c.live = false;
    account(c, -(int64_t)c.n);
    live_count--;
    if (c.huge) {
        huge_chunk[c.huge - 1] = 0;
        UNPOISON((c.p + c.n) / 8 * 8, 4096 + 16); // what follows has no pages
        madvise((void *)(c.p - 4096), HUGE_SLOT, MADV_DONTNEED);
        mprotect((void *)(c.p - 4096), HUGE_SLOT, PROT_NONE);
        c.p = 1; c.cap = 0; // address may be given out again
        return;
    }
    POISON(c.p, c.cap);
    if (!scn->giant.empty() && c.cap > (64u << 20)) madvise((void *)((c.p + 4095) & ~4095ull), (c.cap - 4096) & ~4095ull, MADV_DONTNEED);
    if (scn->reuse) freed->insert({c.cap, index16[(c.p - ARENA) / 16] - 1});
}

static const char *kname[] = {"malloc", "new", "new[]"};
static const char *fname[] = {"free", "delete", "delete[]"};

void heap_free(void *p, int kind) {
    Out o;
    if (o.old > 0) sched_point(PT_FREE);
    Chunk *c = find(p);
    if (!c) violation(V_MEMORY, "%s of a pointer that is not the start of a block", fname[kind]);
    if (!c->live) violation(c->caller ? V_BUFFER : V_DOUBLE, "%s of a%s block already released (%llu bytes)", fname[kind], c->caller ? " caller's" : "", (unsigned long long)c->n);
    if (c->kind != kind) violation(c->caller ? V_BUFFER : V_MISFREE, "block of %llu bytes obtained by %s released by %s", (unsigned long long)c->n, kname[c->kind], fname[kind]);
    if (c->caller) res->caller_frees++;
    release(*c);
}

NOSAN static void copy_bytes(uintptr_t d, uintptr_t s, size_t n) {
    memcpy((void *)d, (void *)s, n);
}

void *heap_realloc(void *p, size_t n) {
    Out o;
    Chunk *c = find(p);
    if (!c || !c->live) violation(V_MEMORY, "realloc of a %s block", c ? "released" : "foreign");
    if (c->kind != K_MALLOC) violation(V_MISFREE, "realloc of a block obtained by %s", kname[c->kind]);
    if (o.old > 0 && refused(n, (int64_t)n - (int64_t)c->n)) { errno = ENOMEM; return NULL; }
    if (c->huge) {
        if (n > HUGE_SLOT - 65536) { if (n < (64ull << 40)) exhausted(); errno = ENOMEM; return NULL; }
        UNPOISON((c->p + c->n) / 8 * 8, 4096 + 16);
        account(*c, (int64_t)n - (int64_t)c->n);
        size_t was = c->n;
        c->n = c->cap = n;
        if (n >= was) fill(c->p + was, n - was < 16 ? n - was : 16);
        POISON((c->p + n + 7) / 8 * 8, 4096);
        res->probes[P_REALLOC_INPLACE]++;
        return p;
    }
    bool inplace = n <= c->cap;
    if (inplace && scn->move && copy_budget >= c->n && !(scn->huge && n >= HUGE_MIN))
        inplace = scn->move == 2 && hrng.below(4) != 0;
    if (inplace) {
        size_t old = c->n;
        account(*c, (int64_t)n - (int64_t)old);
        c->n = n;
        if (n > old) {
            UNPOISON(c->p, n);
            if (scn->fill) fill(c->p + old, n - old);
        } else
            POISON((c->p + n + 7) / 8 * 8, (c->p + old + 7) / 8 * 8 - (c->p + n + 7) / 8 * 8);
        res->probes[P_REALLOC_INPLACE]++;
        return p;
    }
    size_t keep = c->n < n ? c->n : n;
    copy_budget -= keep < copy_budget ? keep : copy_budget;
    size_t cap = n;
    if (scn->move != 1 || copy_budget < (8u << 20)) cap = n + n / 2 + 4096;
    uint32_t ci = index16[(c->p - ARENA) / 16] - 1;
    void *q = place(n, cap, K_MALLOC, o.old > 0);
    if (!q) { errno = ENOMEM; return NULL; }
    c = &(*chunks)[ci];
    copy_bytes((uintptr_t)q, c->p, keep);
    bool caller = c->caller;
    release(*c);
    if (caller) heap_mark_caller(q);
    res->probes[P_REALLOC_MOVED]++;
    return q;
}

// ------------------------------------------------- caller's read-only buffers
struct Ro { uintptr_t lo, hi, p; size_t n; };
static std::deque<Ro> *ros;
const uint8_t *ro_buffer(const Bytes &b) {
    if (!ros) ros = new std::deque<Ro>;
    size_t n = b.size() + 1, len = (n + 3 * 4096) / 4096 * 4096 + 4096;
    uint8_t *m = (uint8_t *)mmap(NULL, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == MAP_FAILED) { fprintf(stderr, "sim: mmap\n"); _Exit(4); }
    // alternate between a buffer that starts on a page and one that ends on a page
    size_t off = ros->size() % 2 ? len - 4096 - n : 4096;
    memset(m, 0x5a, len);
    if (!b.empty()) memcpy(m + off, b.data(), b.size());
    m[off + n - 1] = 0;
    mprotect(m, len, PROT_READ);
    uintptr_t s = (uintptr_t)m + off, e = s + n;
    POISON((uintptr_t)m, s / 8 * 8 - (uintptr_t)m);
    POISON((e + 7) / 8 * 8, (uintptr_t)m + len - (e + 7) / 8 * 8);
    ros->push_back(Ro{(uintptr_t)m, (uintptr_t)m + len, s, n});
    return (const uint8_t *)s;
}
bool ro_contains(uintptr_t a) {
    if (ros) for (auto &r : *ros) if (a >= r.lo && a < r.hi) return true;
    return false;
}

} // namespace sim

using namespace sim;
// ---------------------------------------------------------------- the seams
static void *sim_new(size_t n, int kind) {
    if (t_insim <= 0) {
        void *p = __real_malloc(n ? n : 1);
        if (!p) { fprintf(stderr, "sim: harness out of memory\n"); _Exit(4); }
        return p;
    }
    for (;;) {
        void *p = heap_alloc(n, kind);
        if (p) return p;
        std::new_handler h = std::get_new_handler();
        if (!h) throw std::bad_alloc();
        h();
    }
}
static void sim_delete(void *p, int kind) {
    if (!p) return;
    if (heap_owns(p)) heap_free(p, kind);
    else if (ro_contains((uintptr_t)p)) violation(V_BUFFER, "the caller's buffer was released (%s)", fname[kind]);
    else __real_free(p);
}
void *operator new(size_t n) { return sim_new(n, K_NEW); }
void *operator new[](size_t n) { return sim_new(n, K_NEWARR); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { try { return sim_new(n, K_NEW); } catch (...) { return NULL; } }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { try { return sim_new(n, K_NEWARR); } catch (...) { return NULL; } }
void operator delete(void *p) noexcept { sim_delete(p, K_NEW); }
void operator delete[](void *p) noexcept { sim_delete(p, K_NEWARR); }
void operator delete(void *p, size_t) noexcept { sim_delete(p, K_NEW); }
void operator delete[](void *p, size_t) noexcept { sim_delete(p, K_NEWARR); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim_delete(p, K_NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim_delete(p, K_NEWARR); }

extern "C" {
void *__wrap_malloc(size_t n) { return t_insim > 0 ? heap_alloc(n, K_MALLOC) : __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
    if (t_insim <= 0) return __real_calloc(a, b);
    size_t n;
    if (__builtin_mul_overflow(a, b, &n)) { errno = ENOMEM; return NULL; }
    void *p = heap_alloc(n, K_MALLOC);
    sched_bulk(n);
    if (p && !(scn->huge && n >= HUGE_MIN)) { Out o; memset(p, 0, n); }
    return p;
}
void *__wrap_realloc(void *p, size_t n) {
    if (p && ro_contains((uintptr_t)p)) violation(V_BUFFER, "the caller's buffer was passed to realloc");
    if (p && heap_owns(p)) {
        if (n == 0) { heap_free(p, K_MALLOC); return NULL; }
        return heap_realloc(p, n);
    }
    if (t_insim <= 0) return __real_realloc(p, n);
    if (!p) return heap_alloc(n, K_MALLOC);
    return __real_realloc(p, n);
}
void __wrap_free(void *p) {
    if (!p) return;
    if (heap_owns(p)) heap_free(p, K_MALLOC);
    else if (ro_contains((uintptr_t)p)) violation(V_BUFFER, "the caller's buffer was released (free)");
    else __real_free(p);
}
int __real_posix_memalign(void **, size_t, size_t);
void *__real_aligned_alloc(size_t, size_t);
int __wrap_posix_memalign(void **q, size_t a, size_t n) {
    if (t_insim <= 0 || a > 16) return __real_posix_memalign(q, a, n);
    void *p = heap_alloc(n, K_MALLOC);
    if (!p) return ENOMEM;
    *q = p;
    return 0;
}
void *__wrap_aligned_alloc(size_t a, size_t n) {
    if (t_insim <= 0 || a > 16) return __real_aligned_alloc(a, n);
    return heap_alloc(n, K_MALLOC);
}
size_t __real_malloc_usable_size(void *);
size_t __wrap_malloc_usable_size(void *p) { return p && heap_owns(p) ? heap_size(p) : __real_malloc_usable_size(p); }
char *__wrap_strdup(const char *s) {
    size_t n = strlen(s) + 1;
    char *p = (char *)__wrap_malloc(n);
    if (p) memcpy(p, s, n);
    return p;
}
void *__real___cxa_allocate_exception(size_t);
void *__wrap___cxa_allocate_exception(size_t n) { Out o; return __real___cxa_allocate_exception(n); }
}
