// The five suffix sorters.
// param[0] bits per element, param[1] alphabet, param[2] extra workspace,
// param[3] mask of sorters, param[4] refusal, param[5] sorter that meets the refusal.
// seq: {element, 0, 0}
#include "ops_part.h"
#include "packed_array.hpp"
#include "sais32bit.hpp"
#include "sais40bit.hpp"
#include "sais48bit.hpp"
#include "sais56bit.hpp"
#include "sais64bit.hpp"
#include <algorithm>
#include <string.h>
#include <stdlib.h>
#include <sys/mman.h>

namespace sim {

static const int widths[] = {32, 40, 48, 56, 64};
static const int tier[] = {P_TIER32, P_TIER40, P_TIER48, P_TIER56, P_TIER64};
struct Work { void *a = NULL, *b = NULL, *c = NULL; };
static Work work_mem(int w, size_t m) {
    auto get_mem = [&](size_t e) { void *p = heap_alloc(m * e, K_NEWARR); if (!p) violation(V_MODEL, "no workspace"); return p; };
    Work x;
    switch (w) {
    case 0: x.a = get_mem(4); break;
    case 1: x.a = get_mem(4); x.b = get_mem(1); break;
    case 2: x.a = get_mem(4); x.b = get_mem(2); break;
    case 3: x.a = get_mem(4); x.b = get_mem(2); x.c = get_mem(1); break;
    case 4: x.a = get_mem(8); break;
    }
    return x;
}
static void sort_with(int w, uint8_t *T, Work &x, uint64_t fs, uint64_t n, uint64_t k, int cs) {
    switch (w) {
    case 0: flbwt::sais_32bit(T, (int32_t *)x.a, fs, n, k, cs); break;
    case 1: flbwt::sais_40bit(T, NULL, NULL, (uint32_t *)x.a, (int8_t *)x.b, fs, n, k, cs); break;
    case 2: flbwt::sais_48bit(T, NULL, NULL, (uint32_t *)x.a, (int16_t *)x.b, fs, n, k, cs); break;
    case 3: flbwt::sais_56bit(T, NULL, NULL, NULL, (uint32_t *)x.a, (uint16_t *)x.b, (int8_t *)x.c, fs, n, k, cs); break;
    case 4: flbwt::sais_64bit(T, (int64_t *)x.a, fs, n, k, cs); break;
    }
}
static int64_t rank_at(int w, const Work &x, size_t i) {
    switch (w) {
    case 0: return ((int32_t *)x.a)[i];
    case 1: return (int64_t)((int8_t *)x.b)[i] << 32 | ((uint32_t *)x.a)[i];
    case 2: return (int64_t)((int16_t *)x.b)[i] << 32 | ((uint32_t *)x.a)[i];
    case 3: return (int64_t)((int8_t *)x.c)[i] << 48 | (int64_t)((uint16_t *)x.b)[i] << 32 | ((uint32_t *)x.a)[i];
    default: return ((int64_t *)x.a)[i];
    }
}
static void work_free(Work &x) { heap_free(x.a, K_NEWARR); if (x.b) heap_free(x.b, K_NEWARR); if (x.c) heap_free(x.c, K_NEWARR); }
static void put(uint64_t *w, uint64_t i, int cs, uint64_t v) { // most significant bit first, element i at bits [cs * (i + 1), ...)
    uint64_t bit = (i + 1) * (uint64_t)cs, at = bit / 64, off = bit % 64, m = cs == 64 ? ~0ull : (1ull << cs) - 1;
    if (off + cs <= 64) { int sh = 64 - off - cs; w[at] = (w[at] & ~(m << sh)) | v << sh; }
    else { int lo = off + cs - 64; w[at] = (w[at] & ~(m >> lo)) | v >> lo; w[at + 1] = (w[at + 1] & ~(~0ull << (64 - lo))) | v << (64 - lo); }
}

// giant[0][1] elements: the pattern in seq again and again, the last element param[6]
static void giant(Scenario &s) {
    uint64_t n = s.giant[0][1], p = s.seq.size(), k = (uint64_t)s.param[1], end = (uint64_t)s.param[6];
    int cs = (int)s.param[0], w = (int)s.param[3];
    if (!p || n < 4 * p) return;
    std::vector<uint64_t> pat(2 * p);
    for (uint64_t i = 0; i < 2 * p; i++) pat[i] = (uint64_t)s.seq[i % p][0] % k;
    for (uint64_t q = 1; q < p; q++) { // a pattern that repeats within itself: its shortest period
        if (p % q) continue;
        bool same = true;
        for (uint64_t i = q; i < p; i++) same = same && pat[i] == pat[i - q];
        if (same) { p = q; break; }
    }
    uint64_t bytes = ((n + 1) * (uint64_t)cs / 64 + 2) * 8;
    uint8_t *T = (uint8_t *)mmap(NULL, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (uint64_t i = 0, j = 0; i < n; i++) { put((uint64_t *)T, i, cs, i + 1 == n ? end : pat[j]); if (++j == p) j = 0; }
    mprotect(T, bytes, PROT_READ);
    Work x = work_mem(w, n);
    bool refused;
    std::string what;
    res->probes[P_GIANT]++;
    res->probes[tier[w]]++;
    uint64_t live0 = heap_live_count();
    Ending e = part_call(w, 0, [&] { sort_with(w, T, x, 0, n, k, cs); }, &refused, &what);
    res->checks++;
    if (e != E_RETURNED) {
        if (!refused) soft(V_MODEL, "the %d bit sorter failed (%s) though memory was available", widths[w], what.c_str());
        s.param[7] = 1;
    } else {
        if (heap_live_count() != live0) soft(V_LEAK, "the %d bit sorter kept %llu blocks", widths[w], (unsigned long long)(heap_live_count() - live0));
        // strictly increasing suffixes that are n numbers below n are all of them in order
        auto less = [&](uint64_t a, uint64_t b) {
            for (uint64_t i = a % p, j = b % p;; i = i + 1 == p ? 0 : i + 1, j = j + 1 == p ? 0 : j + 1, a++, b++) {
                if (a == n || b == n) return a == n && b != n;
                uint64_t u = a + 1 == n ? end : pat[i], v = b + 1 == n ? end : pat[j];
                if (u != v) return u < v;
                if (i == j && a + 1 < n && b + 1 < n) { // in step to the end of the shorter
                    uint64_t d = n - 1 - std::max(a, b);
                    a += d; b += d; i = a % p; j = b % p;
                    u = a + 1 == n ? end : pat[i]; v = b + 1 == n ? end : pat[j];
                    if (u != v) return u < v;
                }
            }
        };
        uint64_t before = 0, hash = 0;
        for (uint64_t i = 0; i < n; i++) {
            uint64_t v = (uint64_t)rank_at(w, x, i);
            if (v >= n || (i && !less(before, v))) {
                soft(V_MODEL, "the %d bit sorter of %llu elements of %d bits has %lld at rank %llu after %llu", widths[w], (unsigned long long)n, cs, (long long)v, (unsigned long long)i, (unsigned long long)before);
                break;
            }
            before = v;
            hash = hash * 31 + v;
        }
        log_event(0x7d, hash, n);
    }
    work_free(x);
    munmap(T, bytes);
}

void part(Scenario &s) {
    if (!s.giant.empty()) { giant(s); return; }
    size_t n = s.seq.size();
    if (!n) return;
    int cs = (int)s.param[0];
    uint64_t k = (uint64_t)s.param[1];
    uint64_t fs = (uint64_t)s.param[2];
    std::vector<uint64_t> t(n);
    for (size_t i = 0; i < n; i++) t[i] = (uint64_t)s.seq[i][0] % k;
    // packed as the library packs: element i at bits [cs * (i + 1), ...), most significant first
    size_t words = ((n + 1) * (size_t)cs) / 64 + 1;
    Bytes raw(words * 8);
    {
        std::vector<uint64_t> w(words, 0);
        Rng g(s.heap_seed);
        for (auto &x : w) x = g.next(); // what surrounds the elements is arbitrary
        for (size_t i = 0; i < n; i++)
            for (int b = 0; b < cs; b++) {
                size_t bit = (i + 1) * cs + b;
                uint64_t m = 1ull << (63 - bit % 64);
                if (t[i] >> (cs - 1 - b) & 1) w[bit / 64] |= m; else w[bit / 64] &= ~m;
            }
        memcpy(raw.data(), w.data(), raw.size());
    }
    // read-only text, aligned to 8
    uint8_t *T = (uint8_t *)mmap(NULL, (raw.size() + 4095) / 4096 * 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    memcpy(T, raw.data(), raw.size());
    mprotect(T, (raw.size() + 4095) / 4096 * 4096, PROT_READ);

    std::vector<uint64_t> want(n);
    for (size_t i = 0; i < n; i++) want[i] = i;
    {   // prefix doubling, independent of the code under test
        std::vector<uint64_t> rank(t), tmp(n);
        for (size_t h = 1;; h *= 2) {
            auto key2 = [&](uint64_t i) { return i + h < n ? rank[i + h] + 1 : 0; };
            auto less = [&](uint64_t a, uint64_t b) { return rank[a] != rank[b] ? rank[a] < rank[b] : key2(a) < key2(b); };
            std::sort(want.begin(), want.end(), less);
            tmp[want[0]] = 0;
            for (size_t i = 1; i < n; i++) tmp[want[i]] = tmp[want[i - 1]] + less(want[i - 1], want[i]);
            rank = tmp;
            if (rank[want[n - 1]] == n - 1) break;
        }
    }
    for (int w = 0; w < 5; w++) {
        if (!(s.param[3] >> w & 1) || cs == widths[w]) continue;
        size_t m = n + fs;
        Work x = work_mem(w, m);
        bool refused;
        std::string what;
        int64_t fail = s.param[5] == w ? s.param[4] : 0;
        uint64_t live0 = heap_live_count();
        Ending e = part_call(w, fail, [&] { sort_with(w, T, x, fs, n, k, cs); }, &refused, &what);
        res->checks++;
        res->probes[tier[w]]++;
        if (e != E_RETURNED) {
            if (!refused) soft(V_MODEL, "the %d bit sorter failed (%s) though memory was available", widths[w], what.c_str());
            s.param[7] = 1; // what a refused sorter holds is not judged
        } else {
            if (heap_live_count() != live0) soft(V_LEAK, "the %d bit sorter kept %llu blocks", widths[w], (unsigned long long)(heap_live_count() - live0));
            for (size_t i = 0; i < n; i++) {
                int64_t v = rank_at(w, x, i);
                if (v != (int64_t)want[i]) {
                    soft(V_MODEL, "the %d bit sorter has %lld instead of %llu at rank %zu of %zu (alphabet %llu, %d bits, %llu extra)", widths[w], (long long)v, (unsigned long long)want[i], i, n, (unsigned long long)k, cs, (unsigned long long)fs);
                    break;
                }
            }
        }
        work_free(x);
    }
    munmap(T, (raw.size() + 4095) / 4096 * 4096);
}
}
