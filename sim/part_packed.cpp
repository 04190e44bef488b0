// Two packed arrays at once against vectors.
// param[0..1]: lengths, param[2..3]: widths, param[4]: refusal of the construction.
// seq: {array, index, value} (index modulo length, value cut to the width)
#include "ops_part.h"
#include "packed_array.hpp"
#include <map>
#include <new>

namespace sim {

static uint64_t fit(uint64_t v, int w) { return w >= 64 ? v : v & ((1ull << w) - 1); }

void part(Scenario &s) {
    struct A { alignas(16) unsigned char mem[sizeof(flbwt::PackedArray)]; flbwt::PackedArray *a = NULL; std::map<uint64_t, uint64_t> model; uint64_t n = 1; int w = 1; };
    A a[2];
    bool refused;
    int id = 0;
    uint64_t base = heap_live_count();
    std::string what;
    for (int i = 0; i < 2; i++) {
        A &x = a[i];
        x.n = (uint64_t)s.param[i];
        x.w = (int)s.param[2 + i];
        for (auto &b : x.mem) b = s.fill == 1 ? 0xff : 0x5a;
        if (i == 0 && s.param[4]) {
            Ending e = part_call(id++, s.param[4], [&] { x.a = new (x.mem) flbwt::PackedArray(x.n, (uint8_t)x.w); }, &refused, &what);
            if (e == E_RETURNED && !refused) { x.a->~PackedArray(); }
            else if (e == E_RETURNED) {} // it did without the memory: use it below as any other
            else if (!refused) soft(V_MODEL, "construction failed (%s) though memory was available", what.c_str());
            if (e == E_STD && heap_live_count() != base) soft(V_LEAK, "a refused construction left a block behind");
            if (e == E_RETURNED && refused) continue;
        }
        Ending e = part_call(id++, 0, [&] { x.a = new (x.mem) flbwt::PackedArray(x.n, (uint8_t)x.w); }, &refused, &what);
        if (e != E_RETURNED) violation(V_MODEL, "construction failed (%s) though memory was available", what.c_str());
    }
    auto get = [&](A &x, uint64_t i) {
        uint64_t v = 0;
        part_call(id++, 0, [&] { v = x.a->get_value(i); }, &refused);
        return v;
    };
    auto compare = [&](A &x, uint64_t i, int k) {
        uint64_t v = get(x, i);
        if (v != x.model[i]) soft(V_MODEL, "after store %d: index %llu of %llu x %d bits holds %llu instead of %llu", k, (unsigned long long)i, (unsigned long long)x.n, x.w, (unsigned long long)v, (unsigned long long)x.model[i]);
    };
    int k = 0;
    for (auto &st : s.seq) {
        A &x = a[st[0] & 1];
        uint64_t i = (uint64_t)st[1] % x.n, v = fit((uint64_t)st[2], x.w);
        part_call(id++, 0, [&] { x.a->set_value(i, v); }, &refused);
        x.model[i] = v;
        res->checks++;
        compare(x, i, k);
        auto it = x.model.find(i);
        if (it != x.model.begin()) { auto b = it; --b; compare(x, b->first, k); }
        auto nx = it; ++nx;
        if (nx != x.model.end()) compare(x, nx->first, k);
        k++;
    }
    for (auto &x : a) {
        for (auto &e : x.model) compare(x, e.first, k);
        uint64_t l = 0; int b = 0;
        part_call(id++, 0, [&] { l = x.a->get_length(); b = x.a->get_integer_bits(); }, &refused);
        if (l != x.n || b != x.w) soft(V_MODEL, "reported as %llu x %d bits instead of %llu x %d", (unsigned long long)l, b, (unsigned long long)x.n, x.w);
    }
    for (auto &x : a) part_call(id++, 0, [&] { x.a->~PackedArray(); }, &refused);
}
}
