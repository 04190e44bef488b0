// Scenarios of the component workloads.
#include "sim.h"
#include <algorithm>

namespace sim {

static int width(Rng &r) {
    return r.chance(1, 2) ? r.pick<int>({1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 47, 48, 62, 63, 64, 64}) : 1 + (int)r.below(64);
}
static int64_t value(Rng &r) { return r.chance(1, 5) ? r.pick<int64_t>({0, -1, 1, INT64_MIN, INT64_MAX}) : (int64_t)(r.next() >> r.below(64)); }

// one that is larger than 2^31 or 2^32 somewhere
static void gen_giant(const std::string &prop, Scenario &s, Rng &r, uint64_t index) {
    s.fill = 0; s.huge = 0; s.reuse = 1; s.spread = 0; s.move = 0;
    if (prop == "C14") { // more than 2^32 elements
        s.param[0] = index ? 1 + (int64_t)r.below(3) : 1;
        s.queue_block = r.pick<uint64_t>({8192, 65536, 100000, 1 << 20});
        int64_t n = (1ll << 32) + 1 + (int64_t)r.below(1000000), a = r.chance(1, 3) ? n : (int64_t)r.below(n);
        s.giant.push_back({{0, n}});
        s.seq.push_back({{0, a, 0}});
        if (r.chance(1, 2)) s.seq.push_back({{2, (int64_t)r.below(1000000), 0}});
        s.seq.push_back({{1, n - a, 0}});
        s.seq.push_back({{0, 2000000, 0}});
        return;
    }
    if (prop == "C17") { // more than 2^32 bits of text for each sorter, or more than 2^31 or 2^32 elements
        int w = index % 5, cs = 63;
        uint64_t n = ((1ull << 32) / 63) + r.below(3000000) + 100;
        if (index >= 5) { // 40 bit past 2^31 and 2^32, then the others past 2^31, 32 bit up to it
            static const int ws[] = {1, 1, 2, 3, 4, 0};
            w = ws[(index - 5) % 6];
            cs = 2 + r.below(2);
            n = w == 0 ? (1ull << 31) - 2 - r.below(3) : (index == 6 ? 1ull << 32 : 1ull << 31) + 1 + r.below(100000);
        }
        s.giant.push_back({{0, (int64_t)n}});
        int64_t k = index >= 5 ? 3 + (int64_t)r.below((1 << cs) - 2) : r.pick<int64_t>({3, 5, 100, 70000});
        s.param[0] = cs;
        s.param[1] = k;
        s.param[3] = w;
        size_t p = index >= 5 ? 2 + r.below(6) : 2 + r.below(30);
        for (size_t i = 0; i < p; i++) s.seq.push_back({{i == 0 ? 1 : i == 1 ? k - 1 : 1 + (int64_t)r.below(k - 1), 0, 0}});
        s.param[6] = r.chance(1, 2) ? 0 : (int64_t)r.below(k);
    }
}

void gen_part(const std::string &prop, Scenario &s, Rng &r, bool thorough, bool giant, uint64_t index) {
    size_t big = thorough ? 3 : 1;
    if (giant) { gen_giant(prop, s, r, index); return; }
    if (prop == "C14") {
        s.queue_block = r.pick<uint64_t>({1, 2, 3, 4, 5, 7, 8, 16, 63, 64, 65, 0});
        s.param[0] = width(r);
        s.param[1] = width(r);
        s.param[2] = r.below(2);
        size_t n = s.queue_block == 0 || s.queue_block > 60 ? 200 + r.below(4000 * big) : 1 + r.below(300 * big);
        bool faults = r.chance(1, 2);
        int mode = 0;
        for (size_t i = 0; i < n; i++) {
            // phases that fill, drain, or mix, at either end
            if (r.chance(1, 40) || i == 0) mode = r.below(6);
            static const int mix[6][4] = {{6, 1, 1, 0}, {1, 6, 1, 0}, {1, 1, 6, 0}, {3, 3, 4, 0}, {4, 0, 4, 0}, {0, 4, 4, 0}};
            int tot = 0, x, op = 0;
            for (int k = 0; k < 4; k++) tot += mix[mode][k];
            x = r.below(tot);
            while (x >= mix[mode][op]) x -= mix[mode][op++];
            if (r.chance(1, 400)) op = 3;
            int64_t fail = faults && op < 2 && r.chance(1, 6) ? (r.chance(1, 4) ? -1 : 1 + (int64_t)r.below(3)) : 0;
            s.seq.push_back({{op + 10 * (int64_t)r.below(2), value(r), fail}});
        }
        if (r.chance(1, 60)) { // more than 2^16 elements at once
            s.queue_block = r.pick<uint64_t>({0, 0, 64, 65, 256, 1000});
            s.seq.resize(std::min<size_t>(s.seq.size(), 300));
            int64_t q = 10 * (int64_t)r.below(2);
            size_t at = r.below(s.seq.size() + 1);
            std::vector<std::array<int64_t, 3>> bulk;
            for (int i = 0, m = 1 + r.below(2); i < m; i++) bulk.push_back({{4 + (int64_t)r.below(2) + q, value(r), r.pick<int64_t>({65535, 65536, 65537, 70000, 131072}) - (int64_t)r.below(2)}});
            if (r.chance(1, 2)) bulk.push_back({{6 + q, 0, r.pick<int64_t>({65535, 65536, 65537, 300, 140000})}});
            s.seq.insert(s.seq.begin() + at, bulk.begin(), bulk.end());
        }
        return;
    }
    if (prop == "C16") {
        for (int i = 0; i < 2; i++) {
            s.param[i] = 1 + r.below(r.chance(1, 4) ? 2000 * big : 80);
            s.param[2 + i] = width(r);
        }
        if (r.chance(1, 6)) { // sparse arrays: bit positions past 2^32 and beyond
            s.huge = 1;
            for (int i = 0; i < 2; i++) {
                if (i && r.chance(1, 2)) continue;
                int e = r.pick<int>({30, 31, 32, 33, 34, 35, 36, 38, 40, 42, 45});
                s.param[i] = (int64_t)(((1ull << e) / 1000 * (600 + r.below(1300))) / s.param[2 + i]);
            }
        }
        if (r.chance(1, 4)) s.param[4] = r.chance(1, 2) ? 1 : -1;
        size_t n = 1 + r.below(r.chance(1, 3) ? 3000 * big : 300);
        int64_t at = 0;
        int style = s.huge ? 2 + r.below(4) : r.below(4);
        for (size_t i = 0; i < n; i++) {
            int64_t a = r.below(2);
            if (style >= 4) { // around bit positions that are powers of two, or anywhere
                if (r.chance(1, 3)) at = r.below(s.param[a]);
                else at = (int64_t)((1ull << (28 + r.below(18))) / s.param[2 + a]) + (int64_t)r.below(5) - 2;
                s.seq.push_back({{a, std::max<int64_t>(0, at), value(r)}});
                continue;
            }
            switch (style) {
            case 0: at = r.below(s.param[a]); break;
            case 1: at++; break;
            case 2: at = r.chance(1, 2) ? 0 : s.param[a] - 1 - (int64_t)r.below(std::min<int64_t>(s.param[a], 3)); break;
            default: at = std::max<int64_t>(0, (at + (int64_t)r.below(5)) - 2); break;
            }
            s.seq.push_back({{a, at, value(r)}});
        }
        return;
    }
    if (prop == "C15") {
        s.table_block = r.pick<uint64_t>({0, 0, 20, 24, 30, 33, 40, 48, 64, 100, 300, 1000});
        if (r.chance(2, 5)) {
            s.param[0] = 1;
            s.table_size = r.pick<uint64_t>({0, 1, 2, 3, 16, 101, 1009});
            s.inputs.push_back(gen_text(r, s.table_size && s.table_size < 16 ? 2500 : 12000));
            if (r.chance(1, 6)) s.param[3 + r.below(3)] = r.chance(1, 2) ? 1 + (int64_t)r.below(30) : -(int64_t)(1 + r.below(30));
            return;
        }
        s.param[1] = r.pick<int64_t>({1, 1, 2, 3, 7, 64, 256, 1009, 67777});
        s.param[2] = r.pick<int64_t>({3, 100, 508, 509, 510, 511, 512, 513, 5000, 131069, 131070, 131072, 1 << 20, 1 << 25, (1ll << 32), (1ll << 40)});
        if (r.chance(1, 6)) { // blocks far apart: positions past 2^31, 2^32 and beyond
            s.huge = 1;
            s.table_block = (1ull << r.pick<int>({27, 28, 29, 30, 30, 31, 32, 33, 35, 37})) / 1000 * (700 + r.below(600));
            s.param[1] = r.pick<int64_t>({3, 7, 64, 1009, 67777});
        }
        size_t k = 1 + r.below(60);
        int alph = r.pick<int>({2, 2, 3, 5, 256});
        static const int lens[] = {3, 3, 4, 5, 8, 20, 127, 128, 254, 255, 256, 257, 258, 511, 512, 513, 767, 768, 1024, 2048, 65535, 65536, 65537, 131072};
        for (size_t i = 0; i < k; i++) {
            Bytes b;
            if (i && r.chance(2, 5)) { // a relative: prefix, extension, one byte changed, colliding
                b = s.inputs[r.below(i)];
                switch (r.below(5)) {
                case 0: b.resize(3 + r.below(b.size() - 2)); break;
                case 1: b.push_back(r.below(alph)); break;
                case 2: b[r.below(b.size())] ^= 1; break;
                case 3: b.insert(b.begin(), 0); break; // the same hash
                case 4: { size_t j = r.below(b.size() - 1); if (b[j] < 255 && b[j + 1] >= 101) { b[j]++; b[j + 1] -= 101; } break; }
                }
            } else {
                size_t l = r.chance(1, 3) ? lens[r.below(sizeof lens / sizeof *lens)] : 3 + r.below(30);
                if (l > 5000 && !r.chance(1, 8)) l = 3 + r.below(900);
                int lo = r.below(257 - alph);
                for (size_t j = 0; j < l; j++) b.push_back(lo + r.below(alph));
            }
            s.inputs.push_back(b);
        }
        if (r.chance(1, 400)) { // lengths that take a fourth byte
            s.inputs.resize(std::min<size_t>(k, 4));
            k = s.inputs.size();
            Bytes b(r.pick<size_t>({8388608, 16777215, 16777216, 16777217, 33554432}), (uint8_t)r.below(256));
            for (int i = 0; i < 5; i++) b[r.below(b.size())] = (uint8_t)r.below(256);
            b.back() = 0;
            s.inputs[0] = b;
            if (k > 1) { if (r.chance(1, 2)) b.pop_back(); else b[r.below(b.size())] ^= 1; s.inputs[1] = b; }
        }
        size_t n = 1 + r.below(3 * k);
        bool faults = r.chance(1, 2);
        for (size_t i = 0; i < n; i++)
            s.seq.push_back({{r.chance(1, 4), (int64_t)r.below(k), faults && r.chance(1, 5) ? (r.chance(1, 3) ? -1 : 1) : 0}});
        if (s.huge && r.chance(1, 2)) { // small blocks, one or a few far away, small blocks again: links that lead far
            s.param[1] = r.pick<int64_t>({2, 3, 7, 16, 64});
            int64_t big = s.table_block;
            s.table_block = r.pick<uint64_t>({20, 33, 64, 0});
            size_t at = r.below(s.seq.size() / 3 + 1);
            s.seq.insert(s.seq.begin() + at, {{2, big, 0}});
            at += 2 + r.below(3);
            if (at > s.seq.size()) at = s.seq.size();
            s.seq.insert(s.seq.begin() + at, {{2, r.pick<int64_t>({20, 33, 64, 512}), 0}});
        }
        return;
    }
    if (prop == "C18") {
        for (int i = 0; i < 3; i++) s.param[i] = 1 + r.below(r.chance(1, 4) ? 3000 * big : 40);
        int far = -1;
        if (r.chance(1, 4)) { // sparse: indices past 2^31, 2^32 and beyond
            s.huge = 1;
            far = r.below(3);
            s.param[far] = (int64_t)((1ull << r.pick<int>({27, 30, 31, 32, 33, 34, 36, 39, 40})) / 1000 * (700 + r.below(900)));
        }
        size_t n = 1 + r.below(r.chance(1, 4) ? 2000 * big : 200);
        int style = r.below(4);
        int64_t at = 0;
        for (size_t i = 0; i < n; i++) {
            if (r.chance(1, 8)) {
                int b = 1 + r.below(63);
                int64_t v = r.chance(1, 2) ? value(r) : (int64_t)((1ull << b) + r.below(5) - 2 - (r.chance(1, 4) ? r.below(1ull << b) >> r.below(b + 1) : 0));
                s.seq.push_back({{3, 0, v}});
                continue;
            }
            int64_t w = r.below(3), len = s.param[w], v = value(r);
            switch (r.below(8)) { // around the ends of each part and of the width
            case 0: v = (int64_t)(1ull << r.below(63)) + (int64_t)r.below(5) - 2; break;
            case 1: v = -((int64_t)(1ull << r.below(63)) + (int64_t)r.below(5) - 2); break;
            case 2: v = (int64_t)r.below(200) - 100; break;
            case 3: v = (int64_t)(((1ull << (39 + 8 * w)) - 1) & ~(0xffull << r.below(57))); break;
            }
            if (w == far && r.chance(2, 3)) at = (int64_t)(1ull << (20 + r.below(21))) + (int64_t)r.below(5) - 2;
            else if (style == 0) at = r.below(len);
            else if (style == 1) at++;
            else if (style == 2) at = r.chance(1, 2) ? 0 : len - 1;
            else at = std::max<int64_t>(0, at + (int64_t)r.below(5) - 2);
            s.seq.push_back({{w, std::max<int64_t>(0, at), v}});
        }
        return;
    }
    // C17
    int bits = r.chance(1, 3) ? 1 + (int)r.below(3) : 1 + (int)r.below(16);
    bool large = r.chance(1, 250); // positions and names past 2^16
    if (large) bits = r.pick<int>({1, 2, 8, 16, 17, 18});
    int64_t k = bits == 1 ? 1 + (int64_t)r.below(2) : 1 + (int64_t)r.below(1ull << bits);
    int cs = bits;
    if (r.chance(1, 3)) cs += (int)r.below(63 - bits);
    for (int b : {32, 40, 48, 56, 64}) if (cs == b && r.chance(3, 4)) cs--;
    s.param[0] = std::max(cs, bits);
    s.param[1] = k;
    size_t n = 1 + r.below(r.chance(1, 3) ? 12 : r.chance(1, 8) ? 4000 * big : 500);
    if (large) n = r.pick<size_t>({65535, 65536, 65537, 66000, 131071, 132000, 200000});
    s.param[2] = r.chance(1, 3) ? 0 : r.chance(1, 2) ? (int64_t)r.below(2 * k + 8) : r.pick<int64_t>({k - 1, k, k + 1, 2 * k - 1, 2 * k, 2 * k + 1, (int64_t)n});
    s.param[3] = 31;
    if (large) s.param[3] = 1 << r.below(5) | 1 << r.below(5);
    if (r.chance(1, 4)) { s.param[4] = r.chance(1, 2) ? 1 + (int64_t)r.below(12) : -(int64_t)(1 + r.below(12)); s.param[5] = r.below(5); }
    std::vector<int64_t> t;
    switch (r.below(7)) {
    case 0: case 1: for (size_t i = 0; i < n; i++) t.push_back(r.below(k)); break;
    case 2: { size_t p = 1 + r.below(12); for (size_t i = 0; i < n; i++) t.push_back(i < p ? (int64_t)r.below(k) : t[i - p]); break; }
    case 3: { std::vector<int64_t> a{0}, b{k - 1}; while (b.size() < n) { auto c = b; c.insert(c.end(), a.begin(), a.end()); a = b; b = c; } t = b; break; }
    case 4: while (t.size() < n) { int64_t v = r.below(k); size_t l = 1 + r.below(20); while (l-- && t.size() < n) t.push_back(v); } break;
    case 5: for (size_t i = 0; i < n; i++) t.push_back(i % 2 ? k / 2 + (int64_t)r.below(k - k / 2) : (int64_t)r.below(k / 2 + 1)); break;
    case 6: { // copies with errors
        while (t.size() < n) {
            if (t.empty() || r.chance(1, 4)) { t.push_back(r.below(k)); continue; }
            size_t a = r.below(t.size()), l = 1 + r.below(t.size() - a);
            for (size_t i = 0; i < l; i++) t.push_back(t[a + i]);
        }
        break;
    }
    }
    t.resize(n);
    if (r.chance(1, 3)) t[n - 1] = 0; // as the library calls it: an end marker
    for (auto v : t) s.seq.push_back({{v, 0, 0}});
}
}
