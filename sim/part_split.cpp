// Split-width integers: arrays of 40, 48 and 56 bit values in two or three parts, against maps.
// param[0..2]: lengths of the three arrays.
// seq: {what, index, value}: what 0..2 a store in that array (index modulo length, value cut to
// the width), 3 a bit length.
#include "ops_part.h"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "utility.hpp"
#include <map>

namespace sim {

static int64_t cut(int64_t v, int w) { return (int64_t)((uint64_t)v << (64 - w)) >> (64 - w); }

void part(Scenario &s) {
    struct A { uint32_t *L = NULL; void *M = NULL, *U = NULL; uint64_t n = 1; int w = 0; std::map<uint64_t, int64_t> model; } a[3];
    bool refused;
    int id = 0;
    for (int i = 0; i < 3; i++) {
        A &x = a[i];
        x.w = 40 + 8 * i;
        x.n = (uint64_t)s.param[i];
        x.L = (uint32_t *)heap_alloc(x.n * 4, K_NEWARR);
        if (i == 2) x.M = heap_alloc(x.n * 2, K_NEWARR);
        x.U = heap_alloc(x.n * (i == 1 ? 2 : 1), K_NEWARR);
        if (!x.L || !x.U || (i == 2 && !x.M)) violation(V_MODEL, "no memory for the arrays");
    }
    auto set = [&](A &x, uint64_t i, int64_t v) {
        part_call(id++, 0, [&] {
            if (x.w == 40) flbwt::set_40bit_value(x.L, (int8_t *)x.U, i, v);
            else if (x.w == 48) flbwt::set_48bit_value(x.L, (int16_t *)x.U, i, v);
            else flbwt::set_56bit_value(x.L, (uint16_t *)x.M, (int8_t *)x.U, i, v);
        }, &refused);
    };
    auto compare = [&](A &x, uint64_t i, int k) {
        int64_t v = 0;
        part_call(id++, 0, [&] {
            if (x.w == 40) v = flbwt::get_40bit_value(x.L, (int8_t *)x.U, i);
            else if (x.w == 48) v = flbwt::get_48bit_value(x.L, (int16_t *)x.U, i);
            else v = flbwt::get_56bit_value(x.L, (uint16_t *)x.M, (int8_t *)x.U, i);
        }, &refused);
        if (v != x.model[i]) soft(V_MODEL, "after step %d: index %llu of %llu x %d bits holds %lld instead of %lld", k, (unsigned long long)i, (unsigned long long)x.n, x.w, (long long)v, (long long)x.model[i]);
    };
    int k = 0;
    for (auto &st : s.seq) {
        res->checks++;
        if (st[0] == 3) {
            uint64_t v = (uint64_t)st[2];
            if (!v) v = 1;
            int want = 0, got = 0;
            for (uint64_t y = v; y; y >>= 1) want++;
            part_call(id++, 0, [&] { got = flbwt::position_of_msb(v); }, &refused);
            if (got != want) soft(V_MODEL, "step %d: bit length of %llu reported as %d instead of %d", k, (unsigned long long)v, got, want);
            k++;
            continue;
        }
        A &x = a[st[0] % 3];
        uint64_t i = (uint64_t)st[1] % x.n;
        int64_t v = cut(st[2], x.w);
        set(x, i, v);
        x.model[i] = v;
        compare(x, i, k);
        auto it = x.model.find(i);
        if (it != x.model.begin()) { auto b = it; --b; compare(x, b->first, k); }
        auto nx = it; ++nx;
        if (nx != x.model.end()) compare(x, nx->first, k);
        k++;
    }
    for (auto &x : a) {
        std::map<uint64_t, int64_t> m = x.model;
        for (auto &e : m) compare(x, e.first, k);
    }
    for (auto &x : a) {
        heap_free(x.L, K_NEWARR);
        heap_free(x.U, K_NEWARR);
        if (x.M) heap_free(x.M, K_NEWARR);
    }
}
}
