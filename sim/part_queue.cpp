// Two queues at once against list models.
// param[0], param[1]: widths.  seq: {op + 10 * queue, value, refusal}
//   op 0 insert at the end, 1 insert at the beginning, 2 remove, 3 destroy and make anew with the width in value
//   op 4, 5: many insertions at the end, at the beginning; 6 many removals (how many is where the refusal was)
#include "ops_part.h"
#include "queue.hpp"
#include <algorithm>
#include <deque>
#include <memory>
#include <new>
#include <string.h>

namespace sim {

static uint64_t fit(uint64_t v, int w) { return w >= 64 ? v : v & ((1ull << w) - 1); }

// More than 2^32 elements: seq {op, count, 0}, op 0 insert at the end, 1 at the
// beginning, 2 remove; the values are a function of their place.
static void giant(Scenario &s) {
    int w = (int)s.param[0];
    alignas(16) unsigned char mem[sizeof(flbwt::Queue)];
    memset(mem, 0xa5, sizeof mem);
    flbwt::Queue *q = NULL;
    bool refused;
    std::string what;
    int id = 0;
    uint64_t base = heap_live_count();
    res->probes[P_GIANT]++;
    part_call(id++, 0, [&] { q = new (mem) flbwt::Queue((uint8_t)w); }, &refused);
    auto value = [&](int64_t i) { uint64_t x = (uint64_t)i * 0x9e3779b97f4a7c15ull; return fit(x >> 32 ^ x, w); };
    int64_t lo = 0, hi = 0, bad = 0;
    uint64_t got = 0, hash = 0;
    for (size_t k = 0; k <= s.seq.size(); k++) {
        int op = k < s.seq.size() ? (int)s.seq[k][0] : 2;
        uint64_t n = k < s.seq.size() ? (uint64_t)s.seq[k][1] : ~0ull;
        if (op == 2) n = std::min<uint64_t>(n, hi - lo);
        int wrong = 0;
        Ending e = part_call(id++, 0, [&] {
            for (uint64_t i = 0; i < n && !wrong; i++) {
                if (op == 0) q->enqueue(value(hi++));
                else if (op == 1) q->enqueue_l(value(--lo));
                else {
                    got = (uint64_t)q->dequeue();
                    if (got != value(lo)) wrong = 1;
                    bad = lo++;
                    hash = hash * 31 + got;
                }
                if (q->is_empty() != (lo == hi)) wrong = 2;
            }
        }, &refused, &what);
        res->checks++;
        if (e != E_RETURNED) { soft(V_MODEL, "phase %zu: failed (%s) though memory was available", k, what.c_str()); return; }
        if (wrong == 2) { soft(V_MODEL, "phase %zu: is_empty is wrong with %llu elements", k, (unsigned long long)(hi - lo)); return; }
        if (wrong) { soft(V_MODEL, "phase %zu: removal returned %llu instead of %llu, %llu elements left", k, (unsigned long long)got, (unsigned long long)value(bad), (unsigned long long)(hi - lo)); return; }
    }
    log_event(0x7d, hash, s.giant[0][1]);
    part_call(id++, 0, [&] { q->~Queue(); }, &refused);
    if (heap_live_count() != base) soft(V_LEAK, "the queue is gone but %llu blocks are not", (unsigned long long)(heap_live_count() - base));
}

void part(Scenario &s) {
    if (!s.giant.empty()) { giant(s); return; }
    struct Q { alignas(16) unsigned char mem[sizeof(flbwt::Queue)]; flbwt::Queue *q = NULL; std::deque<uint64_t> model; int w = 1; bool ever_refused = false; };
    Q q[2];
    bool refused;
    int id = 0;
    uint64_t base = heap_live_count();
    auto make = [&](Q &x, int w) {
        x.w = w;
        x.model.clear();
        for (auto &b : x.mem) b = s.fill == 1 ? 0xff : s.fill == 0 ? 0 : 0xa5;
        Ending e = part_call(id++, 0, [&] { x.q = new (x.mem) flbwt::Queue((uint8_t)w); }, &refused);
        if (e != E_RETURNED) violation(V_MODEL, "making a queue failed without a refusal");
    };
    auto destroy = [&](Q &x) {
        uint64_t before = heap_live_count();
        part_call(id++, 0, [&] { x.q->~Queue(); }, &refused);
        (void)before;
        x.q = NULL;
    };
    auto empty_check = [&](Q &x, int k) {
        bool e = false;
        part_call(id++, 0, [&] { e = x.q->is_empty(); }, &refused);
        if (e != x.model.empty()) soft(V_MODEL, "step %d: is_empty says %d with %zu elements", k, e, x.model.size());
    };
    auto drain = [&](Q &x, uint64_t n, int k) {
        static int64_t got[4096];
        for (uint64_t done = 0; done < n && !x.model.empty();) {
            uint64_t m = std::min<uint64_t>({n - done, x.model.size(), 4096});
            std::string what;
            Ending e = part_call(id++, 0, [&] { for (uint64_t i = 0; i < m; i++) got[i] = x.q->dequeue(); }, &refused, &what);
            if (e != E_RETURNED) { soft(V_MODEL, "step %d: one of %llu removals failed (%s)", k, (unsigned long long)m, what.c_str()); return; }
            for (uint64_t i = 0; i < m; i++, done++) {
                if ((uint64_t)got[i] != x.model.front()) { soft(V_MODEL, "step %d: removal %llu from a queue of %d bits returned %llu instead of %llu (%zu elements)", k, (unsigned long long)done, x.w, (unsigned long long)got[i], (unsigned long long)x.model.front(), x.model.size()); return; }
                x.model.pop_front();
            }
        }
    };
    for (int i = 0; i < 2; i++) make(q[i], (int)s.param[i]);
    int k = 0;
    for (auto &st : s.seq) {
        int qi = (st[0] / 10) & 1;
        Q &x = q[qi];
        uint64_t v = fit((uint64_t)st[1], x.w);
        std::string what;
        Ending e;
        switch (st[0] % 10) {
        case 0: case 1:
            e = part_call(id++, st[2], [&] { if (st[0] % 10) x.q->enqueue_l(v); else x.q->enqueue(v); }, &refused, &what);
            if (e == E_RETURNED) { if (st[0] % 10) x.model.push_front(v); else x.model.push_back(v); }
            else if (!refused) soft(V_MODEL, "step %d: insertion failed (%s) though memory was available", k, what.c_str());
            break;
        case 2: {
            if (x.model.empty()) break;
            int64_t got = 0;
            e = part_call(id++, st[2], [&] { got = x.q->dequeue(); }, &refused, &what);
            if (e != E_RETURNED) { soft(V_MODEL, "step %d: removal failed (%s)", k, what.c_str()); break; }
            if ((uint64_t)got != x.model.front())
                soft(V_MODEL, "step %d: queue %d of %d bits returned %llu instead of %llu (%zu elements)", k, qi, x.w, (unsigned long long)got, (unsigned long long)x.model.front(), x.model.size());
            x.model.pop_front();
            break;
        }
        case 3:
            destroy(x);
            make(x, 1 + (int)((uint64_t)st[1] % 64));
            break;
        case 4: case 5: {
            uint64_t n = (uint64_t)st[2] % 1000000;
            e = part_call(id++, 0, [&] {
                for (uint64_t i = 0; i < n; i++) if (st[0] % 10 == 5) x.q->enqueue_l(fit((uint64_t)st[1] + i * 0x9e3779b97f4a7c15ull, x.w)); else x.q->enqueue(fit((uint64_t)st[1] + i * 0x9e3779b97f4a7c15ull, x.w));
            }, &refused, &what);
            if (e != E_RETURNED) { violation(V_MODEL, "step %d: one of %llu insertions failed (%s) though memory was available", k, (unsigned long long)n, what.c_str()); }
            for (uint64_t i = 0; i < n; i++) { uint64_t y = fit((uint64_t)st[1] + i * 0x9e3779b97f4a7c15ull, x.w); if (st[0] % 10 == 5) x.model.push_front(y); else x.model.push_back(y); }
            break;
        }
        case 6:
            drain(x, (uint64_t)st[2] % 1000000, k);
            break;
        }
        res->checks++;
        if (st[0] % 10 != 3) empty_check(x, k);
        k++;
    }
    // drain one, drop the other as it is
    Q &d = q[s.param[2] & 1];
    drain(d, ~0ull, k);
    empty_check(d, k);
    for (auto &x : q) destroy(x);
    if (heap_live_count() != base) soft(V_LEAK, "the queues are gone but %llu blocks are not", (unsigned long long)(heap_live_count() - base));
}
}
