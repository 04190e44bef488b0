// Frame of the component workloads.
#include "ops_part.h"
#include <new>
#include <stdexcept>
#include <unistd.h>

namespace sim {

Ending part_call(int id, int64_t fail, const std::function<void()> &f, bool *refused, std::string *what) {
    OpCtx c;
    begin_op(c, id);
    if (fail) {
        Fault x;
        x.op = id;
        x.kind = fail > 0 ? F_ALLOC : F_ALLOC_FROM;
        x.nth = fail > 0 ? fail : -fail;
        c.faults.push_back(x);
        res->planned[x.kind]++;
    }
    Ending e = E_RETURNED;
    if (id < 8 || id % 53 == 0) scrub_stack();
    try {
        In in;
        f();
    } catch (const std::bad_alloc &x) {
        res->probes[P_EXC_BADALLOC]++; e = E_STD; if (what) *what = x.what();
    } catch (const std::runtime_error &x) {
        res->probes[P_EXC_RUNTIME]++; e = E_STD; if (what) *what = x.what();
    } catch (const std::exception &x) {
        res->probes[P_EXC_OTHER]++; e = E_STD; if (what) *what = x.what();
    } catch (...) {
        e = E_OTHER;
    }
    end_op(c);
    t_op = &c;
    if (e == E_OTHER) soft(V_EXCEPTION, "step %d: the exception is not a std::exception", id);
    t_op = NULL;
    *refused = c.alloc_fails > 0;
    if (e == E_RETURNED) { res->ops_ok++; if (*refused) res->probes[P_OOM_RECOVERED]++; } else res->ops_exc++;
    log_event(0xe0 + e, id);
    return e;
}
void exit_hook(int status) { violation(V_MEMORY, "the library ended the process (exit %d)", status); }
void quick_exit_hook(int status) { violation(V_MEMORY, "the library ended the process (_exit %d)", status); }
void abort_hook() { violation(V_MEMORY, "abort"); }
void signal_hook() {}

void workload(Scenario &s, int) {
    g_cap = g_tick + 3000000000ull;
    retrip();
    uint64_t b0 = heap_live_bytes(), c0 = heap_live_count();
    for (auto &x : s.seq) log_event(x[0], x[1], x[2]);
    for (int64_t x : s.param) log_event(0x9a, x);
    part(s);
    uint64_t b1 = heap_live_bytes(), c1 = heap_live_count();
    if (s.param[7] == 0 && c1 > c0)
        soft(V_LEAK, "%llu bytes in %llu blocks were not released", (unsigned long long)(b1 - b0), (unsigned long long)(c1 - c0));
}
}
