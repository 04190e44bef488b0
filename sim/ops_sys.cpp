// Workload of the whole library: in-memory calls, file calls, the program.
#include "sim.h"
#include "flbwt.hpp"
#include <string.h>
#include <errno.h>
#include <stdlib.h>
#include <unistd.h>
#include <sys/mman.h>
#include <stdexcept>
#include <typeinfo>
#include <algorithm>
#include <new>
#include <map>
#include <set>

int flbwt_cli_main(int argc, char *argv[]);

namespace sim {

// --------------------------------------------------------------- one call
static std::string exc_text;
static thread_local int kept_errno = -1; // as the last call left it; before the first one, anything
static thread_local std::string *state_change;
template <class F> static Ending guarded(F f) {
    Ending e = E_RETURNED;
    ProcessState state;
    if (scn->prop == "C20") state = process_state();
    scrub_stack();
    if (kept_errno < 0) {
        static const int any[] = {0, 0, 0, EINTR, ENOENT, EIO, ENOMEM, EAGAIN, ERANGE, EINVAL};
        kept_errno = scn->prop == "C13" ? 0 : any[scn->heap_seed % 10];
    }
    struct Keep { ~Keep() { kept_errno = errno; } };
    try {
        In in;
        Keep keep;
        errno = kept_errno;
        f();
    } catch (const std::bad_alloc &x) {
        res->probes[P_EXC_BADALLOC]++; exc_text = x.what(); e = E_STD;
    } catch (const std::invalid_argument &x) {
        res->probes[P_EXC_INVALID]++; exc_text = x.what(); e = E_STD;
    } catch (const std::runtime_error &x) {
        res->probes[P_EXC_RUNTIME]++; exc_text = x.what(); e = E_STD;
    } catch (const std::exception &x) {
        res->probes[P_EXC_OTHER]++; exc_text = x.what(); e = E_STD;
    } catch (...) {
        e = E_OTHER;
    }
    if (scn->prop == "C20") { delete state_change; state_change = new std::string(process_change(state, process_state())); }
    return e;
}
static uint64_t hash_bytes(const uint8_t *p, size_t n) {
    uint64_t h = n;
    for (size_t i = 0; i < n; i++) h = (h ^ p[i]) * 0x100000001b3ull;
    return h;
}
static void tier_probe(const Op &o) {
    switch (scn->index_bits) {
    case 0: res->probes[scn->huge ? P_HUGE_OFFSET : P_TIER32]++; break;
    case 33: res->probes[P_TIER40]++; break;
    case 40: res->probes[P_TIER48]++; break;
    case 48: res->probes[P_TIER56]++; break;
    case 56: res->probes[P_TIER64]++; break;
    }
    if (o.input < (int)scn->inputs.size() && scn->inputs[o.input].size() > 100000) res->probes[P_BIG_INPUT]++;
}
static int running_calls;
struct Running { Running() { if (running_calls++) res->probes[P_OVERLAP]++; } ~Running() { running_calls--; } };

// ------------------------------------------------------------------- cost
// What a call may hold and do: a multiple of the input's length and of what the capacities fix.
struct Cost { double bytes, steps; };
static Cost allowance(const Bytes &t, bool file) {
    // the substrings between local minima: how many, how many different ones, their total length
    uint64_t n = t.size(), m = 0, q = n;
    std::set<Bytes> seen;
    uint64_t u = 0;
    bool up = false;
    for (int64_t i = (int64_t)n - 2; i >= 0; i--) {
        if (t[i] < t[i + 1]) up = true;
        else if (t[i] > t[i + 1]) {
            if (up) {
                m++;
                Bytes s(t.begin() + i + 1, t.begin() + std::min(q + 1, n));
                size_t l = s.size();
                if (seen.insert(std::move(s)).second) u += l;
                q = i + 1;
            }
            up = false;
        }
    }
    double d = seen.size(), H = scn->table_size ? scn->table_size : 67777, B = scn->table_block ? scn->table_block : 512, Q = scn->queue_block ? scn->queue_block : 1024;
    double table = std::min(H, d) * B + 4 * (u + 10 * d) + 2.0 * n, w = 1;
    while (w < 64 && (double)(1ull << (int)w) < table) w++;
    Cost c;
    c.bytes = (file ? n + 20000 : 0) + 16 * H + 2 * table + 8 * d + 9.0 * m + 16 * d + 4.0 * m + 774 * (1200 + Q * w / 8) + n * w / 4 + n + 40000;
    double g = 1; while (g < 64 && (double)(1ull << (int)g) < d + 2) g++;
    c.steps = 400000 + 60.0 * n + 250.0 * m + 20 * d * g + H + 5.0 * m * d / H;
    return c;
}
static void cost_check(const OpCtx &c, const Op &o) {
    Cost a = allowance(scn->inputs[o.input], o.kind == OP_FILE);
    res->checks++;
    if (getenv("SIM_COST")) dprintf(9, "COST %zu most %lld ticks %llu caps %llu %llu %llu %llu kind %d free %d ratios %.3f %.3f\n", scn->inputs[o.input].size(), (long long)c.most, (unsigned long long)c.ticks, (unsigned long long)scn->table_size, (unsigned long long)scn->table_block, (unsigned long long)scn->queue_block, (unsigned long long)scn->index_bits, o.kind, o.free_t, c.most / a.bytes, c.ticks / a.steps);
    if (c.most > 2 * a.bytes)
        soft(V_COST, "op %d: transforming %zu bytes held %lld bytes at once; 2 * %.0f are plenty", c.id, scn->inputs[o.input].size(), (long long)c.most, a.bytes);
    if (c.ticks > 3 * a.steps)
        soft(V_COST, "op %d: transforming %zu bytes took %llu steps; 3 * %.0f are plenty", c.id, scn->inputs[o.input].size(), (unsigned long long)c.ticks, a.steps);
    // the same call again: no dearer than the first one
    static std::map<std::pair<int, int>, std::pair<int64_t, uint64_t>> *first;
    if (!first) first = new std::map<std::pair<int, int>, std::pair<int64_t, uint64_t>>;
    if (c.hard_fault || !c.faults.empty() || !scn->param[5]) return;
    auto f = first->insert({{o.kind, o.input}, {c.most, c.ticks}}).first->second;
    if (c.most > 2 * f.first + 65536)
        soft(V_COST, "op %d: the same call held %lld bytes at once, %lld the first time", c.id, (long long)c.most, (long long)f.first);
    if (c.ticks > f.second + f.second / 2 + 20000)
        soft(V_COST, "op %d: the same call took %llu steps, %llu the first time", c.id, (unsigned long long)c.ticks, (unsigned long long)f.second);
}

static void common_end(OpCtx &c, const Op &o, Ending e) {
    end_op(c);
    log_event(0xe0 + e, o.kind);
    if (e == E_RETURNED) res->ops_ok++; else res->ops_exc++;
    t_op = &c; // so that a violation names the operation
    if (c.open_handles != 0) {
        int k = c.open_handles;
        disk_forget_handles();
        soft(V_HANDLE_LEAK, "op %d: %d file(s) still open after the call %s", c.id, k, e == E_RETURNED ? "returned" : "failed");
    }
    if (e == E_OTHER) soft(V_EXCEPTION, "op %d: the exception is not a std::exception", c.id);
    if (e == E_STD && !c.hard_fault && o.kind != OP_BADARG)
        soft(V_SPURIOUS, "op %d: failed (%s) although nothing failed under it", c.id, exc_text.c_str());
    if (scn->prop == "C19") cost_check(c, o);
    if (scn->prop == "C20") {
        res->checks++;
        if (state_change && !state_change->empty()) soft(V_STATE, "op %d: the call %s, and %s", c.id, e == E_RETURNED ? "returned" : "failed", state_change->c_str());
    }
    if (c.alloc_fails && e == E_RETURNED) res->probes[P_OOM_RECOVERED]++;
}

// files that are none of the call's business
typedef std::map<std::string, uint64_t> Others;
static Others others(const Op &o) {
    Others m;
    if (scn->prop != "C20") return m;
    for (auto &p : disk_paths()) {
        if (o.kind == OP_FILE && (p == o.in || p == o.out || disk_same(p, o.in) || disk_same(p, o.out))) continue;
        bool sparse = false;
        for (auto &f : scn->files) sparse |= f.vsize && (f.path == p || f.to == p);
        Bytes b;
        if (!sparse) b = disk_content(p);
        m[p] = hash_bytes(b.data(), b.size());
    }
    return m;
}
static void others_check(const Others &a, const Op &o, int id) {
    if (scn->prop != "C20") return;
    Others b = others(o);
    for (auto &x : b) {
        auto y = a.find(x.first);
        if (y == a.end()) soft(V_STATE, "op %d: the call left a file behind (%s)", id, x.first.c_str());
        else if (y->second != x.second) soft(V_STATE, "op %d: the call changed a file that is neither input nor output (%s)", id, x.first.c_str());
    }
    for (auto &x : a) if (!b.count(x.first) && !disk_exists(x.first)) soft(V_STATE, "op %d: the call removed a file that is neither input nor output (%s)", id, x.first.c_str());
}

// results that the caller has not released yet
struct Held { int id; flbwt::BWT_result *r; uint8_t *col; uint64_t last, n, before, after; };
static std::vector<Held> *held;
static void held_check() {
    if (!held) return;
    for (auto &h : *held) {
        res->checks++;
        if (!heap_is_live(h.r) || !heap_is_live(h.col)) soft(V_WRONG_RESULT, "op %d: its result was released by a later call", h.id);
        else if (h.r->BWT != h.col || h.r->last != h.last) soft(V_WRONG_RESULT, "op %d: its result was changed by a later call", h.id);
        else if (hash_bytes(h.col, h.last) != h.before || hash_bytes(h.col + h.last + 1, h.n - h.last) != h.after) soft(V_WRONG_RESULT, "op %d: the column it returned was changed by a later call", h.id);
    }
}
static void held_release() {
    if (!held) return;
    for (auto &h : *held) { delete[] h.col; free(h.r); }
    held->clear();
}

static void string_op(int id) {
    Op &o = scn->ops[id];
    Others files = others(o);
    const Bytes &in = scn->inputs[o.input];
    tier_probe(o);
    uint64_t n = in.size();
    const uint8_t *ro = NULL;
    uint8_t *T;
    uint32_t serial = 0;
    if (o.free_t || o.bad == 3) {
        T = (uint8_t *)heap_alloc(n + 1, K_MALLOC);
        if (!T) { fprintf(stderr, "sim: buffer\n"); _exit(4); }
        memcpy(T, in.data(), n);
        T[n] = 0;
        heap_mark_caller(T);
        serial = heap_serial(T);
    } else {
        static std::vector<const uint8_t *> *made;
        if (!made) made = new std::vector<const uint8_t *>(scn->inputs.size(), nullptr);
        if (!(*made)[o.input]) (*made)[o.input] = ro_buffer(in); else res->probes[P_SHARED_INPUT]++;
        ro = (*made)[o.input];
        T = const_cast<uint8_t *>(ro);
    }
    OpCtx c;
    flbwt::BWT_result *r = NULL;
    begin_op(c, id);
    Ending e;
    { Running run; e = guarded([&] { r = flbwt::bwt_string(T, n, o.free_t); }); }
    common_end(c, o, e);
    if (serial) {
        bool live = heap_serial_live(serial);
        if (!o.free_t) {
            if (!live) soft(V_BUFFER, "op %d: the caller's buffer was released though the flag was off", id);
            else if (memcmp(T, in.data(), n) || T[n]) soft(V_BUFFER, "op %d: the caller's buffer was changed", id);
        } else if (e == E_RETURNED && live)
            soft(V_BUFFER, "op %d: the caller's buffer was not released though the flag was on", id);
        if (live) heap_free(T, K_MALLOC);
    } else if (memcmp(ro, in.data(), n) || ro[n])
        soft(V_BUFFER, "op %d: the caller's read-only buffer was changed", id);
    if (e == E_RETURNED) {
        if (!r) { soft(c.hard_fault ? V_UNREPORTED : V_WRONG_RESULT, "op %d: returned a null result", id); t_op = NULL; return; }
        if (!heap_is_live(r) || heap_size(r) < sizeof *r) { soft(V_WRONG_RESULT, "op %d: the result is not a live block of its size", id); t_op = NULL; return; }
        if (!heap_is_live(r->BWT) || heap_size(r->BWT) < n + 1) { soft(V_WRONG_RESULT, "op %d: the column is not a live block of n + 1 bytes", id); t_op = NULL; return; }
        std::string why;
        BwtView v = {r->last, r->BWT, n};
        if (!check_bwt(v, in.data(), why)) soft(V_WRONG_RESULT, "op %d: wrong transform of %llu bytes: %s", id, (unsigned long long)n, why.c_str());
        if (r->last <= n) {
            log_event(0x7e, hash_bytes(r->BWT, r->last), r->last);
            log_event(0x7f, hash_bytes(r->BWT + r->last + 1, n - r->last));
        }
        if ((scn->prop == "C13" || scn->prop == "C07") && (scn->heap_seed >> (id % 50) & 1) && r->last <= n) {
            if (!held) held = new std::vector<Held>;
            held->push_back({id, r, r->BWT, r->last, n, hash_bytes(r->BWT, r->last), hash_bytes(r->BWT + r->last + 1, n - r->last)});
        } else {
            delete[] r->BWT;
            free(r);
        }
    }
    others_check(files, o, id);
    t_op = NULL;
}

// a text of more than 2^31 bytes, few runs
static void giant_op(int id) {
    Op &o = scn->ops[id];
    uint64_t n = giant_size(*scn), at = 0;
    uint8_t *T = o.free_t ? (uint8_t *)heap_alloc(n + 1, K_MALLOC)
                          : (uint8_t *)mmap(NULL, n + 1, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!T || T == MAP_FAILED) { fprintf(stderr, "sim: buffer\n"); _exit(4); }
    for (auto &g : scn->giant) { memset(T + at, g[0], g[1]); at += g[1]; }
    T[n] = 0;
    if (o.free_t) heap_mark_caller(T); else mprotect(T, n + 1, PROT_READ);
    res->probes[P_GIANT]++;
    OpCtx c;
    flbwt::BWT_result *r = NULL;
    begin_op(c, id);
    Ending e;
    { Running run; e = guarded([&] { r = flbwt::bwt_string(T, n, o.free_t); }); }
    common_end(c, o, e);
    if (o.free_t && e == E_RETURNED && heap_is_live(T)) soft(V_BUFFER, "op %d: the caller's buffer was not released though the flag was on", id);
    if (e == E_RETURNED) {
        if (!r || !heap_is_live(r) || !heap_is_live(r->BWT) || heap_size(r->BWT) < n + 1) { soft(V_WRONG_RESULT, "op %d: the result is not a live block of its size", id); t_op = NULL; return; }
        std::string why;
        BwtView v = {r->last, r->BWT, n};
        res->checks++;
        if (!check_giant(v, scn->giant, why)) soft(V_WRONG_RESULT, "op %d: wrong transform of %llu bytes: %s", id, (unsigned long long)n, why.c_str());
        log_event(0x7e, r->last, n);
        delete[] r->BWT;
        free(r);
    }
    t_op = NULL;
}

static void giant_file_op(int id) {
    Op &o = scn->ops[id];
    res->probes[P_GIANT]++;
    OpCtx c;
    c.in = o.in; c.out = o.out;
    c.io_cap = 2000 + giant_size(*scn) / 1000;
    begin_op(c, id);
    Ending e;
    { Running run; e = guarded([&] { flbwt::bwt_file(o.in.c_str(), o.out.c_str()); }); }
    common_end(c, o, e);
    if (e == E_RETURNED) {
        std::string why;
        Runs r, column;
        uint64_t last = 0, at = 0;
        res->checks++;
        bool ok = disk_runs(o.out, r);
        if (!ok) why = "the output has more than 1000000 runs, or there is none";
        for (auto &g : r) { // eight bytes of row index, then the column
            int64_t l = g[1];
            while (l > 0 && at < 8) { last = last << 8 | g[0]; at++; l--; }
            if (l > 0) column.push_back({{g[0], l}});
        }
        if (ok && at < 8) { ok = false; why = "the output is shorter than its header"; }
        if (!ok || !check_runs(last, column, scn->giant, why)) soft(c.hard_fault ? V_UNREPORTED : V_WRONG_OUTPUT, "op %d: the transform of %llu bytes returned normally but %s", id, (unsigned long long)giant_size(*scn), why.c_str());
        log_event(0x7e, last, giant_size(*scn));
    }
    t_op = NULL;
}

static void badarg_op(int id) {
    Op &o = scn->ops[id];
    const Bytes &in = scn->inputs[o.input];
    uint64_t n = in.size();
    uint8_t *T;
    uint32_t serial = 0;
    if (o.free_t) {
        T = (uint8_t *)heap_alloc(n + 1, K_MALLOC);
        memcpy(T, in.data(), n);
        T[n] = 0;
        heap_mark_caller(T);
        serial = heap_serial(T);
    } else
        T = const_cast<uint8_t *>(ro_buffer(in));
    OpCtx c;
    flbwt::BWT_result *r = NULL;
    uint8_t *arg = o.bad == 1 ? T : NULL;
    uint64_t len = o.bad == 0 ? n : 0;
    begin_op(c, id);
    res->badarg = 1;
    Ending e = guarded([&] { r = flbwt::bwt_string(arg, len, o.free_t); });
    common_end(c, o, e);
    if (e == E_RETURNED) {
        soft(V_UNREPORTED, "op %d: %s accepted", id, o.bad == 0 ? "a null buffer was" : o.bad == 1 ? "a zero length was" : "a null buffer of zero length was");
        if (r && heap_is_live(r)) { if (heap_is_live(r->BWT)) delete[] r->BWT; free(r); }
    }
    if (serial && !heap_serial_live(serial)) soft(V_BUFFER, "op %d: the buffer of a refused call was released", id);
    else {
        if (memcmp(T, in.data(), n) || T[n]) soft(V_BUFFER, "op %d: the buffer of a refused call was changed", id);
        if (serial) heap_free(T, K_MALLOC);
    }
    res->badarg = 0;
    t_op = NULL;
}

// the state of the files before a call, and whether the call can succeed
struct Before {
    Bytes in, out;
    bool in_exists, out_exists, in_ok, out_ok, same, oversized;
};
static const File *initial(const std::string &p) {
    for (auto &f : scn->files) if (f.path == p) return &f;
    return NULL;
}
static Before look(const Op &o) {
    Before b;
    b.in = disk_content(o.in); b.out = disk_content(o.out);
    b.in_exists = disk_exists(o.in); b.out_exists = disk_exists(o.out);
    b.same = disk_same(o.in, o.out);
    const File *fi = initial(o.in), *fo = initial(o.out);
    b.oversized = fi && fi->vsize > 0;
    if (b.oversized) res->probes[P_OVERSIZED]++;
    b.in_ok = !b.oversized && b.in_exists && !b.in.empty() && !(fi && (fi->kind != N_FILE || fi->noread));
    b.out_ok = !o.out.empty() && !(fo && (fo->kind == N_DIR || fo->nowrite));
    return b;
}
static bool exact(const OpCtx &c, const Op &o, const Before &b, std::string &why) {
    if (!disk_exists(o.out)) { why = "there is no output file"; return false; }
    Bytes out = disk_content(o.out);
    if (b.in_ok && check_file(out, b.in, why)) return true;
    std::string w;
    for (auto &s : c.snapshots) if (!s.empty() && check_file(out, s, w)) return true;
    if (!b.in_ok) why = "the input cannot be transformed";
    return false;
}
static void file_probes(const Before &b) { if (b.same) res->probes[P_INPLACE_IO]++; }

static void check_files_after(const OpCtx &c, const Op &o, const Before &b, Ending e) {
    if (!b.same) {
        const Bytes &want = c.snapshots.empty() ? b.in : c.snapshots.back();
        if (disk_exists(o.in) != b.in_exists || disk_content(o.in) != want)
            soft(V_INPUT_CHANGED, "op %d: the input file was changed", c.id);
    }
    if (scn->prop == "C02") {
        for (auto &p : disk_paths()) {
            bool known = initial(p) != NULL;
            for (auto &x : scn->ops) known |= x.out == p;
            if (!known) { soft(V_STRAY, "op %d: the call left a file behind (%s)", c.id, p.c_str()); break; }
        }
    }
    if (e == E_RETURNED || c.out_fault || b.same || !b.out_ok) return;
    bool input_failed = c.input_fault || !b.in_ok;
    bool computing = false;
    if (c.alloc_fails) {
        uint64_t n[5] = {0, 0, 0, 0, 0};
        for (auto &f : c.faults) if (f.kind <= F_ALLOC_CAP) fault_counts(f.ref >= 0 ? f.ref : 0, n);
        computing = c.id != 0 && n[0] && c.first_alloc_fail + 8 <= n[0];
    }
    if (!(c.alloc_fails && !b.oversized ? computing : input_failed)) return;
    if (disk_exists(o.out) != b.out_exists)
        soft(V_OUTPUT_DAMAGED, "op %d: the call failed before a result existed, yet an output file %s", c.id, b.out_exists ? "disappeared" : "appeared");
    else if (disk_content(o.out) != b.out)
        soft(V_OUTPUT_DAMAGED, "op %d: the call failed before a result existed, yet the existing output changed from %zu to %zu bytes", c.id, b.out.size(), disk_content(o.out).size());
}
static void set_io_cap(OpCtx &c, const Before &b) { c.io_cap = 2000 + 4 * b.in.size() + (b.oversized ? 1ull << 33 : 0); }

static void file_op(int id) {
    Op &o = scn->ops[id];
    Before b = look(o);
    Others files = others(o);
    file_probes(b);
    tier_probe(o);
    OpCtx c;
    c.in = o.in; c.out = o.out;
    set_io_cap(c, b);
    if (!b.in_ok || !b.out_ok) { c.hard_fault = true; res->faulted = 1; }
    begin_op(c, id);
    Ending e;
    { Running run; e = guarded([&] { flbwt::bwt_file(o.in.c_str(), o.out.c_str()); }); }
    common_end(c, o, e);
    if (e == E_RETURNED) {
        std::string why;
        if (!exact(c, o, b, why))
            soft(c.hard_fault ? V_UNREPORTED : V_WRONG_OUTPUT, "op %d: the transform returned normally but %s", id, why.c_str());
    }
    check_files_after(c, o, b, e);
    others_check(files, o, id);
    Bytes out = disk_content(o.out);
    log_event(0x7d, hash_bytes(out.data(), out.size()), out.size());
    t_op = NULL;
}

// ------------------------------------------------------------ the program
static OpCtx *cli_ctx;
static Before *cli_before;
static bool cli_running;
static void cli_judge(bool abnormal, int status) {
    OpCtx &c = *cli_ctx;
    Op &o = scn->ops[c.id];
    cli_running = false;
    res->abort_ok = 0;
    log_event(0xc1, abnormal, status);
    status &= 0xff;
    bool zero = !abnormal && status == 0;
    if (zero) res->ops_ok++; else res->ops_exc++;
    if (o.argc != 3) {
        if (zero) soft(V_STATUS, "op %d: status 0 with %d instead of 2 arguments", c.id, o.argc ? o.argc - 1 : 0);
        if (c.opens) soft(V_STATUS, "op %d: a file was opened although the arguments were wrong", c.id);
        return;
    }
    std::string why;
    if (zero && !exact(c, o, *cli_before, why)) soft(V_STATUS, "op %d: status 0 but %s", c.id, why.c_str());
    if (!zero && !c.hard_fault) soft(V_STATUS, "op %d: %s although nothing failed", c.id, abnormal ? "abnormal end" : ("status " + std::to_string(status)).c_str());
}
void exit_hook(int status) {
    t_insim = 0;
    if (cli_running) { { In in; disk_flush_at_exit(); } cli_judge(false, status); finish(); }
    violation(V_MEMORY, "the library ended the process (exit %d)", status);
}
void quick_exit_hook(int status) {
    t_insim = 0;
    if (cli_running) { cli_judge(false, status); finish(); }
    violation(V_MEMORY, "the library ended the process (_exit %d)", status);
}
void abort_hook() { t_insim = 0; cli_judge(true, 0); finish(); }
void signal_hook() { if (cli_running) { cli_judge(true, 0); finish(); } }

static void cli_op(int id) {
    Op &o = scn->ops[id];
    static Before b;
    b = look(o);
    static OpCtx c;
    c.in = o.in; c.out = o.out;
    set_io_cap(c, b);
    if (!b.in_ok || !b.out_ok) { c.hard_fault = true; res->faulted = 1; }
    std::vector<std::string> a = {"bwt", o.in, o.out, "/sim/in0", "-v", "x"};
    static char *argv[8];
    int n = o.argc < 0 ? 0 : o.argc > 6 ? 6 : o.argc;
    for (int i = 0; i < n; i++) argv[i] = strdup(a[i].c_str());
    argv[n] = NULL;
    cli_ctx = &c; cli_before = &b;
    begin_op(c, id);
    cli_running = true;
    res->abort_ok = 1;
    int status = 0;
    Ending e = guarded([&] { status = flbwt_cli_main(n, argv); });
    if (e == E_RETURNED) { In in; disk_flush_at_exit(); }
    end_op(c);
    t_op = &c;
    cli_judge(e != E_RETURNED, status);
    t_op = NULL;
}

// --------------------------------------------------------------- the whole
static std::vector<std::vector<int>> *lanes;
static void one_op(int id) {
    switch (scn->ops[id].kind) {
    case OP_STRING: string_op(id); break;
    case OP_FILE: file_op(id); break;
    case OP_CLI: cli_op(id); break;
    case OP_BADARG: badarg_op(id); break;
    case OP_GIANT: giant_op(id); break;
    case OP_GIANT_FILE: giant_file_op(id); break;
    }
}
static void lane(int t) { for (int id : (*lanes)[t]) one_op(id); }

void workload(Scenario &s, int phase) {
    if (phase == 1) { // a new process after the crash
        Op o = s.ops[res->crash_op];
        const Bytes &in = s.inputs[o.input];
        if (!disk_exists(o.in) || disk_content(o.in) != in) soft(V_INPUT_CHANGED, "after the crash: the input file was changed");
        if (res->crash_computing) {
            const File *f = initial(o.out);
            bool was = f && f->kind == N_FILE;
            Bytes before = was && f->input >= 0 ? s.inputs[f->input] : Bytes();
            if (disk_exists(o.out) != was) soft(V_OUTPUT_DAMAGED, "after a crash while computing: the output file %s", was ? "is gone" : "exists");
            else if (was && disk_content(o.out) != before) soft(V_OUTPUT_DAMAGED, "after a crash while computing: the existing output changed");
        }
        s.faults.clear();
        s.ops.assign(1, o);
        g_cap = g_tick + step_budget(s, o);
        retrip();
        one_op(0);
        return;
    }
    std::vector<uint64_t> bytes, count;
    std::vector<bool> ended;
    int last = -1;
    for (auto &o : s.ops) last = std::max(last, o.phase);
    for (int p = 0; p <= last; p++) {
        std::vector<std::vector<int>> l;
        g_cap = g_tick;
        for (size_t i = 0; i < s.ops.size(); i++) {
            Op &o = s.ops[i];
            if (o.phase != p) continue;
            if ((int)l.size() <= o.thread) l.resize(o.thread + 1);
            l[o.thread].push_back(i);
            g_cap += step_budget(s, o);
        }
        l.erase(std::remove_if(l.begin(), l.end(), [](const std::vector<int> &v) { return v.empty(); }), l.end());
        if (l.empty()) continue;
        retrip();
        lanes = &l;
        uint64_t b0 = heap_live_bytes(), exc0 = res->ops_exc;
        run_threads(l.size(), lane);
        held_check();
        if (l.size() == 1 && heap_live_bytes() > b0) res->probes[P_HELD_OVER]++;
        ended.push_back(res->ops_exc == exc0);
        bytes.push_back(heap_live_bytes());
        count.push_back(heap_live_count());
    }
    held_release();
    if (s.param[0]) {
        // repeated rounds of the same calls: compare the ends of later rounds
        size_t k = s.param[1] ? s.param[1] : 1, from = s.param[1] ? 2 * k - 1 : 2;
        for (size_t i = from; i + k < bytes.size(); i += k) {
            bool good = true; // a call that ran out of memory may keep some
            for (size_t j = i + 1 - k; j <= i + k; j++) good &= ended[j] || s.prop != "C10";
            if (good && (bytes[i + k] > bytes[i] || count[i + k] > count[i]))
                soft(V_LEAK, "repeating the same calls grew the memory in use by %lld bytes in %lld blocks (after calls %zu and %zu)",
                     (long long)(bytes[i + k] - bytes[i]), (long long)(count[i + k] - count[i]), i, i + k);
        }
    }
}

} // namespace sim
