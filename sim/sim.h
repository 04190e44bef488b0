// Deterministic simulator for flbwt: shared declarations.
#pragma once
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <string>
#include <vector>
#include <array>

namespace sim {

// ------------------------------------------------------------------ prng
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) {}
    uint64_t next() { // splitmix64
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a + 1)); }
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
};
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 32);
}

// -------------------------------------------------------------- scenario
typedef std::vector<uint8_t> Bytes;
typedef std::vector<std::array<int64_t, 2>> Runs; // byte, how many

// fault kinds; the name table is in scenario.cpp
enum FK {
    F_ALLOC,      // refuse the nth memory request of the op
    F_ALLOC_FROM, // refuse it and all later ones of the op
    F_ALLOC_BIG,  // refuse every request of at least arg bytes
    F_ALLOC_CAP,  // refuse what would make the op's live bytes exceed arg
    F_OPEN,       // nth open fails with err (arg 1: all later too)
    F_SEEK,       // nth seek fails with err (arg 1: all later too)
    F_READ,       // nth read fails with err (arg 1: all later too)
    F_READ_EOF,   // nth read delivers nothing (arg 1: all later too)
    F_READ_SHORT, // nth read delivers at most arg bytes            (benign)
    F_READ_CHUNK, // every read delivers at most arg bytes          (benign)
    F_SHRINK,     // the input shrinks to arg bytes before the nth read
    F_GROW,       // the input grows by arg bytes before the nth read (benign)
    F_WRITE,      // nth write fails with err after arg bytes
    F_WRITE_ALL,  // nth write and all later ones fail with err
    F_WRITE_SHORT,// nth write is split after arg bytes             (benign)
    F_CAPACITY,   // the disk has room for arg bytes of output
    F_CLOSE,      // nth close fails with err (arg 1: the last block written is lost, 2: all later closes too)
    F_CRASH_IO,   // the process dies at the nth disk request (arg: 0 before, 1 after, 2 inside)
    F_CRASH_ALLOC,// the process dies at the nth memory request
    F_CRASH_TICK, // the process dies at the nth step
    F_NKINDS
};
extern const char *fk_name[F_NKINDS];
bool fk_benign(int k);

struct Fault {
    int op = 0, kind = 0;
    int64_t nth = 1;
    int64_t rel = -1; // per mille of what op `ref` counted; then nth is computed
    int ref = -1;
    int64_t arg = 0;
    int err = 0;
};

enum NodeKind { N_MISSING, N_FILE, N_DIR, N_FIFO, N_LINK };
struct File {
    std::string path;
    int kind = N_FILE;
    int input = -1; // index of initial content, -1 empty, -2 the giant text
    bool noread = false, nowrite = false;
    std::string to; // a second name (N_LINK) of this file
    int64_t vsize = 0; // a sparse file of this size: what follows the content are zeros
};

enum OpKind { OP_STRING, OP_FILE, OP_CLI, OP_BADARG, OP_GIANT, OP_GIANT_FILE };
struct Op {
    int kind = OP_STRING;
    int thread = 0, phase = 0;
    int input = 0;
    bool free_t = false;
    std::string in, out;
    int argc = 3; // CLI
    int bad = 0;  // BADARG: 0 null buffer, 1 zero length
};

struct Scenario {
    std::string prop;
    uint64_t seed = 0;
    // capacities (0: as shipped)
    uint64_t table_size = 0, table_block = 0, queue_block = 0, index_bits = 0;
    // heap behaviour
    int fill = 0;   // 0 zeros, 1 ones, 2 random, 3 small integers
    int reuse = 0;  // 1: freed blocks are handed out again, contents kept
    int move = 0;   // realloc: 0 in place, 1 always moves, 2 either
    int huge = 0;   // 1: growing blocks live in sparse memory
    int spread = 0; // gaps between blocks
    uint64_t heap_seed = 1;
    std::vector<Bytes> inputs;
    Runs giant; // the input of a giant call: runs of a byte
    std::vector<File> files;
    std::vector<Op> ops;
    std::vector<Fault> faults;
    // schedule: gap>0 draws preemptions, call_p is the chance (in 256) of a
    // switch at an intercepted call or global access; else the explicit list
    uint64_t sched_seed = 1;
    int64_t gap = 0;
    int call_p = 0;
    int park_mask = 0, park_shift = 0; // which points may stall a thread until the others cannot go on, and how rarely (2^-shift)
    bool explicit_sched = false;
    std::vector<std::array<int64_t, 2>> switches; // tick, thread
    uint64_t crash_seed = 1;
    // component workloads: op code and arguments
    int64_t param[8] = {0, 0, 0, 0, 0, 0, 0, 0};
    std::vector<std::array<int64_t, 3>> seq;
};
std::string to_text(const Scenario &);
bool from_text(const std::string &, Scenario &, std::string &err);
// flags: 1 thorough, 2 large inputs, 4 a component property decided through the whole system
uint64_t step_budget(const Scenario &s, const Op &o); // steps a call may take
Scenario generate(const std::string &prop, uint64_t seed, uint64_t index, int flags);
Bytes gen_text(Rng &r, size_t maxn);
size_t gen_len(Rng &r, size_t maxn);
uint64_t giant_size(const Scenario &s);

// ---------------------------------------------------------------- result
enum Cls {
    V_NONE, V_WRONG_RESULT, V_WRONG_OUTPUT, V_SPURIOUS, V_UNREPORTED, V_EXCEPTION,
    V_MEMORY, V_INPUT_CHANGED, V_OUTPUT_DAMAGED, V_HANDLE_LEAK, V_LEAK, V_HANG,
    V_BUFFER, V_STATUS, V_MODEL, V_MISFREE, V_DOUBLE, V_STRAY, V_COST, V_STATE, V_NCLS
};
extern const char *cls_name[V_NCLS];

enum Probe { // rare conditions worth reaching
    P_TIER32, P_TIER40, P_TIER48, P_TIER56, P_TIER64, P_REALLOC_MOVED, P_REALLOC_INPLACE,
    P_REUSED, P_HUGE_OFFSET, P_OOM_RECOVERED, P_INPLACE_IO, P_CRASH_BEFORE_OUT,
    P_CRASH_AFTER_OUT, P_LOST_TAIL, P_SHARED_INPUT, P_OVERLAP, P_EXC_BADALLOC, P_EXC_RUNTIME,
    P_EXC_INVALID, P_EXC_OTHER, P_BIG_INPUT, P_GLOBAL_ACCESS, P_ALLOC_KEPT_GOING,
    P_NATURAL_OOM, P_HELD_OVER, P_EXHAUSTED, P_OVERSIZED, P_STALLED, P_GIANT, P_NPROBES
};
extern const char *probe_name[P_NPROBES];

struct Res { // lives in shared memory, written by the child
    int done, viol, crashed, other;
    uint32_t soft[32];
    int cls, viol_op, faulted; // faulted: a non-benign fault had fired
    char text[1500];
    uint64_t hash, ticks, switches, sched_hash, allocs, ios, bytes, peak;
    uint32_t fired[F_NKINDS], planned[F_NKINDS];
    uint32_t ops_ok, ops_exc, checks, caller_frees;
    uint32_t probes[P_NPROBES];
    int phase, badarg;
    int crash_computing, crash_op, abort_ok;
    int64_t resolved[64];
    uint32_t nrec;
    int64_t rec[4096][2];
    uint64_t image_len;
};
extern Res *res;
extern uint8_t *cov; // edge bitmap, shared between children
extern uint8_t *image;
enum { IMAGE_MAX = 96 << 20, COV_MAX = 1 << 16 };
extern uint32_t cov_edges;

// violation: does not return
void violation(int cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void finish() __attribute__((noreturn));
void log_event(uint64_t a, uint64_t b = 0, uint64_t c = 0);
bool wanted(const Scenario &, int cls, bool faulted); // does the property own this class?

// --------------------------------------------------------------- runtime
extern Scenario *scn;
extern thread_local int t_insim;   // >0: repository code is running on this thread
struct In {  int old; In() : old(t_insim) { t_insim = 1; }  ~In() { t_insim = old; } };
struct Out { int old; Out() : old(t_insim) { t_insim = 0; } ~Out() { t_insim = old; } };

struct OpCtx { // counters of one running op
    int id = -1;
    uint64_t allocs = 0, opens = 0, seeks = 0, reads = 0, writes = 0, closes = 0, ios = 0;
    uint64_t tick0 = 0, ticks = 0;
    int64_t live = 0, most = 0;   // bytes held by blocks of this call
    bool hard_fault = false;      // a non-benign fault fired
    bool out_fault = false;       // ... on the output side
    bool out_close_failed = false;
    bool out_opened = false;      // output opened for writing
    bool input_fault = false;     // a hard fault on the input side fired
    int alloc_fails = 0;
    uint64_t first_alloc_fail = 0;
    int open_handles = 0;
    uint64_t io_cap = 0;
    std::vector<Fault> faults;    // resolved
    std::vector<std::vector<uint8_t>> snapshots; // contents of the input during the op
    std::string in, out;
};
extern thread_local OpCtx *t_op;
void fault_fired(OpCtx *, const Fault &, bool output_side);
void begin_op(OpCtx &c, int id);
void end_op(OpCtx &c);
void fault_counts(int op, uint64_t out[5]); // what a finished op counted

// heap
void heap_init();
void *heap_alloc(size_t n, int kind);
void *heap_realloc(void *p, size_t n);
void heap_free(void *p, int kind);
bool heap_touch(uintptr_t a);     // a page fault the heap can serve
bool heap_owns(const void *p);
bool heap_is_live(const void *p);
uint64_t heap_live_bytes();
uint64_t heap_live_count();
std::string heap_describe(uintptr_t a, bool *caller);
int heap_kind(const void *p);     // of a live block, else -1
size_t heap_size(const void *p);
void heap_mark_caller(void *p);   // the block is the caller's buffer
uint32_t heap_serial(const void *p);
bool heap_serial_live(uint32_t s);
uint64_t heap_peak();
void heap_reset_peak();
void heap_op(OpCtx *c, bool on);  // live bytes are charged to running ops
enum { K_MALLOC, K_NEW, K_NEWARR };
const uint8_t *ro_buffer(const Bytes &b); // read-only, poisoned around, b.size()+1 bytes with final 0
bool ro_contains(uintptr_t a);

// disk
void disk_init(const Scenario &);
bool disk_exists(const std::string &path);
bool disk_same(const std::string &a, const std::string &b); // one file under both names
Bytes disk_content(const std::string &path);
bool disk_runs(const std::string &path, Runs &r); // content kept as runs (giant scenarios)
std::vector<std::string> disk_paths();
int disk_open_handles();
void disk_dump();  // to the shared image, with the crash model applied
void disk_load();
void disk_restore(const std::string &path, bool exists, const Bytes &b);
void disk_forget_handles();
void disk_flush_at_exit(); // what exit() does to streams left open
void exit_hook(int status) __attribute__((noreturn));       // exit() called by the code under test
void quick_exit_hook(int status) __attribute__((noreturn)); // _exit()

// scheduler
static const size_t STACK_BYTES = 512 << 10;
enum Point { PT_ALLOC, PT_FREE, PT_IO, PT_GLOBAL, PT_LOCK, PT_CALL, PT_EDGE };
void sched_point(int kind);
void sched_bulk(size_t bytes); // work done inside the C library
void sched_yield_blocked();
void run_threads(int n, void (*body)(int));
bool sched_multi();
extern uint64_t g_tick, g_trip, g_cap, g_crash_tick;
void retrip();
void do_crash() __attribute__((noreturn));
void install_handlers();
void install_asan();
void signal_hook(); // called before a fatal signal is reported
void soft(int cls, const char *fmt, ...) __attribute__((format(printf, 2, 3))); // a violation only if the property owns the class
void scrub_stack();
enum Ending { E_RETURNED, E_STD, E_OTHER };
void abort_hook() __attribute__((noreturn)); // abort() where it is allowed (command line)

// entry points
void run_scenario(Scenario &s, int phase); // in the child; ends in finish()
void workload(Scenario &s, int phase);     // provided by the system or a component

// oracles
struct BwtView { uint64_t last; const uint8_t *col; uint64_t n; }; // col has n+1 entries
bool check_giant(const BwtView &v, const Runs &runs, std::string &why);
bool check_runs(uint64_t last, const Runs &column, const Runs &runs, std::string &why);
bool add_runs(Runs &r, const uint8_t *p, uint64_t n);
bool check_bwt(const BwtView &v, const uint8_t *T, std::string &why);
bool check_file(const Bytes &out, const Bytes &in, std::string &why);
Bytes encode_file(const Bytes &in);
void naive_bwt(const Bytes &t, uint64_t &last, Bytes &col);

typedef std::vector<std::pair<std::string, std::string>> ProcessState;
ProcessState process_state();
std::string process_change(const ProcessState &a, const ProcessState &b); // empty: none

} // namespace sim
