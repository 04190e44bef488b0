// Texts and scenarios, all drawn from one generator.
#include "sim.h"
#include <errno.h>
#include <string.h>
#include <algorithm>

namespace sim {

static const int special_len[] = {1, 2, 3, 15, 16, 17, 63, 64, 65, 127, 128, 129, 253, 254, 255, 256, 257, 258, 259, 511, 512, 513, 767, 768, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097};
static size_t special(Rng &r, size_t maxv) {
    for (int k = 0; k < 20; k++) {
        size_t v = special_len[r.below(sizeof special_len / sizeof *special_len)];
        if (v <= maxv) return v;
    }
    return 1 + r.below(maxv);
}
size_t gen_len(Rng &r, size_t maxn) {
    if (maxn < 1) return 1;
    size_t n;
    switch (r.below(20)) {
    case 0: case 1: n = 1 + r.below(4); break;
    case 2: case 3: case 4: case 5: n = 1 + r.below(40); break;
    case 6: case 7: case 8: case 9: n = 20 + r.below(300); break;
    case 10: case 11: case 12: n = 200 + r.below(3000); break;
    case 13: case 14: n = special(r, maxn); break;
    case 15: n = 65536 + r.below(9) - 4; break;
    case 16: n = r.pick<size_t>({8191, 8192, 8193, 4096, 16384, 16383, 8184, 8185, 4088, 12288}); break;
    default: n = 1 + r.below(20000); break;
    }
    if (n > maxn) n = 1 + r.below(maxn);
    return n;
}
static void clip(Bytes &b, size_t n, Rng &r) {
    if (b.empty()) b.push_back(r.next());
    if (b.size() > n) b.resize(n);
}
static Bytes uniform(Rng &r, size_t n, int k, int base) {
    Bytes b(n);
    for (auto &c : b) c = base + r.below(k);
    return b;
}
static void put_run(Bytes &b, uint8_t c, size_t n) { b.insert(b.end(), n, c); }

// a substring that starts and ends at a local minimum, of a wanted length
static void put_valley(Rng &r, Bytes &b, size_t len, uint8_t lo, uint8_t mid, uint8_t hi, int shape) {
    b.push_back(lo);
    if (len < 3) len = 3;
    size_t m = len - 2;
    switch (shape) {
    case 0: put_run(b, hi, m); break;
    case 1: put_run(b, mid, m / 2); put_run(b, hi, m - m / 2); break;
    case 2: put_run(b, hi, m / 2); put_run(b, mid, m - m / 2); break;
    default: { // up then down
        size_t u = r.below(m + 1);
        for (size_t i = 0; i < u; i++) b.push_back(i * 2 < u ? mid : hi);
        for (size_t i = u; i < m; i++) b.push_back((i - u) * 2 < m - u ? hi : mid);
    }
    }
}
// many different substrings that are alike: the same beginning, the same end, the same letters or the same length
static Bytes alike_text(Rng &r, size_t n) {
    Bytes b;
    uint8_t lo = r.below(60);
    size_t pre = r.chance(1, 2) ? 1 + r.below(8) : 1 + r.below(60), suf = r.chance(1, 2) ? r.below(3) : r.below(60), len = 4 + r.below(r.chance(1, 2) ? 6 : 40);
    bool fixed = r.chance(1, 2), few = r.chance(1, 3);
    while (b.size() < n) {
        b.push_back(lo);
        Bytes w(fixed ? len : 1 + r.below(len));
        for (auto &c : w) c = lo + 20 + r.below(few ? 3 : 150);
        std::sort(w.begin(), w.end());
        put_run(b, lo + 10, pre);
        b.insert(b.end(), w.begin(), w.end());
        put_run(b, lo + 5, suf);
    }
    b.push_back(lo);
    return b;
}
// counts, lengths and positions past 2^16: long substrings that repeat, many substrings, long runs
static Bytes long_text(Rng &r) {
    Bytes b, w;
    uint8_t lo = r.below(100);
    size_t m = r.pick<size_t>({65534, 65535, 65536, 65537, 65538, 66000, 70000, 131070, 131072, 131074});
    switch (r.below(5)) {
    case 0: case 1: { // the same long substring, or long ones that differ late
        int k = m > 100000 ? 2 : 2 + r.below(2);
        put_valley(r, w, m + r.below(2), lo, lo + 1 + r.below(9), lo + 11 + r.below(40), r.below(4));
        for (int i = 0; i <= k; i++) {
            b.insert(b.end(), w.begin(), w.end());
            if (r.chance(1, 3)) put_valley(r, b, 3 + r.below(300), lo, lo + 1, lo + 12, r.below(4));
            if (r.chance(1, 3)) b[b.size() - 2 - r.below(300)] = lo + 120;
        }
        b.push_back(lo);
        break;
    }
    case 2: // more than 2^16 substrings
        for (size_t i = 0, n = 133000 + r.below(9000), k = r.pick<int>({1, 2, 16, 100, 125}); i < n; i++) b.push_back(i % 2 ? r.below(k) : 125 + r.below(k));
        break;
    case 3: // long runs
        for (int i = 0; i < 3; i++) put_run(b, lo + r.below(3), r.chance(2, 3) ? m : 1 + r.below(300));
        break;
    default: // long head or tail
        w = uniform(r, 1 + r.below(3000), 3, 100);
        if (r.chance(1, 2)) b = w;
        for (size_t i = 0; i < m; i++) b.push_back(255 - (uint8_t)(i * 100 / m));
        if (b.size() == m || r.chance(1, 2)) b.insert(b.end(), w.begin(), w.end());
    }
    return b;
}
Bytes gen_text(Rng &r, size_t maxn) {
    if (maxn >= 12000 && r.chance(1, 120)) return long_text(r);
    size_t n = gen_len(r, maxn);
    Bytes b;
    static const int alph[] = {1, 2, 2, 3, 4, 8, 26, 64, 200, 256};
    int k = alph[r.below(10)];
    int base = r.chance(1, 2) ? 0 : r.below(257 - k);
    switch (r.below(22)) {
    case 0: case 1: b = uniform(r, n, k, base); break;
    case 2: // runs
        while (b.size() < n) put_run(b, base + r.below(k), r.chance(1, 3) ? special(r, n) : 1 + r.below(1 + r.below(40)));
        break;
    case 3: { // periodic
        Bytes p = uniform(r, 1 + r.below(1 + r.below(60)), k, base);
        while (b.size() < n) b.insert(b.end(), p.begin(), p.end());
        if (r.chance(1, 2)) b[r.below(b.size())] ^= 1 + r.below(255);
        break;
    }
    case 4: { // Fibonacci or Thue-Morse
        uint8_t x = r.next(), y = r.next();
        if (r.chance(1, 2)) {
            Bytes a(1, x), c(1, y);
            while (c.size() < n) { Bytes t = c; t.insert(t.end(), a.begin(), a.end()); a = c; c = t; }
            b = c;
        } else
            for (size_t i = 0; i < n; i++) b.push_back(__builtin_popcountll(i) & 1 ? x : y);
        break;
    }
    case 5: { // de Bruijn (binary, by greedy prefer-one on a small order)
        int o = 3 + r.below(9);
        std::vector<bool> seen(1u << o);
        uint32_t w = 0;
        uint8_t x = r.next(), y = r.next();
        for (int i = 0; i < o; i++) b.push_back(x);
        for (;;) {
            uint32_t m = (1u << o) - 1, w1 = ((w << 1) | 1) & m, w0 = (w << 1) & m;
            if (!seen[w1]) { seen[w1] = true; w = w1; b.push_back(y); }
            else if (!seen[w0]) { seen[w0] = true; w = w0; b.push_back(x); }
            else break;
        }
        break;
    }
    case 6: { // monotone and sawtooth
        size_t step = 1 + r.below(n / 4 + 1), teeth = 1 + r.below(6);
        for (size_t t = 0; t < teeth && b.size() < n; t++) {
            bool up = r.chance(1, 2);
            for (int c = 0; c < 256 && b.size() < n; c++)
                put_run(b, up ? c : 255 - c, r.chance(1, 4) ? special(r, step) : 1 + r.below(step / 64 + 1));
        }
        break;
    }
    case 7: case 8: { // valleys from a small dictionary, prefix-related and repeated
        std::vector<Bytes> dict;
        uint8_t lo = r.below(200);
        int words = 1 + r.below(8);
        for (int i = 0; i < words; i++) {
            Bytes w;
            if (i && r.chance(1, 2)) { // relative of an earlier one
                w = dict[r.below(i)];
                if (r.chance(1, 2)) w.resize(1 + r.below(w.size()));
                if (r.chance(1, 2)) w.push_back(lo + 1 + r.below(40));
            }
            put_valley(r, w, 3 + (r.chance(1, 3) ? special(r, 600) : r.below(12)), lo, lo + 1 + r.below(10), lo + 11 + r.below(40), r.below(4));
            dict.push_back(w);
        }
        while (b.size() < n) { const Bytes &w = dict[r.below(words)]; b.insert(b.end(), w.begin(), w.end()); }
        break;
    }
    case 9: { // valleys whose lengths are exactly the interesting ones
        uint8_t lo = r.below(100);
        while (b.size() < n) put_valley(r, b, r.chance(2, 3) ? special(r, std::max<size_t>(n / 2, 4)) - r.below(2) : 3 + r.below(5), lo + r.below(2), lo + 3, lo + 5 + r.below(3), r.below(4));
        break;
    }
    case 10: { // same polynomial hash: +1 at i, -101 at i+1
        Bytes w;
        uint8_t lo = r.below(20);
        w.push_back(lo);
        size_t l = 2 + r.below(12);
        for (size_t i = 0; i < l; i++) w.push_back(i % 2 ? 130 + r.below(100) : 30 + r.below(60));
        std::sort(w.begin() + 1, w.end());
        while (b.size() < n) {
            Bytes v = w;
            size_t i = 1 + r.below(l);
            if (i + 1 < v.size() && v[i + 1] >= 101 + lo + 1 && v[i] < 250 && r.chance(3, 4)) { v[i]++; v[i + 1] -= 101; }
            b.insert(b.end(), v.begin(), v.end());
        }
        break;
    }
    case 11: { // text
        static const char *words[] = {"the ", "of ", "transform ", "burrows ", "wheeler ", "a ", "suffix ", "sort", "ing ", "induced ", "\n", ". ", "banana ", "mississippi ", "  ", "and "};
        while (b.size() < n) { const char *w = words[r.below(16)]; b.insert(b.end(), w, w + strlen(w)); }
        break;
    }
    case 12: put_run(b, r.pick<uint8_t>({0, 1, 'a', 254, 255}), n); break;
    case 13: { // random morphism
        Bytes img[4];
        for (auto &i : img) i = uniform(r, 1 + r.below(4), 4, 0);
        b = uniform(r, 1 + r.below(3), 4, 0);
        for (int d = 0; d < 30 && b.size() < n; d++) {
            Bytes t;
            for (uint8_t c : b) { t.insert(t.end(), img[c & 3].begin(), img[c & 3].end()); if (t.size() > n) break; }
            if (t.size() <= b.size()) break;
            b = t;
        }
        uint8_t off = r.below(250);
        for (auto &c : b) c += off;
        break;
    }
    case 14: // extremes
        for (size_t i = 0; i < n; i++) b.push_back(r.chance(1, 2) ? 0 : r.chance(1, 8) ? r.next() : 255);
        break;
    case 15: { // copies with errors
        b = uniform(r, 1 + r.below(40), k, base);
        while (b.size() < n) {
            size_t s = r.below(b.size()), l = 1 + r.below(b.size() - s);
            for (size_t i = 0; i < l && b.size() < n; i++) b.push_back(b[s + i]);
            if (r.chance(1, 3)) b.push_back(r.next());
        }
        break;
    }
    case 16: case 17: { // zigzag: as many substrings of length 3 as possible
        int lo = 1 + r.below(120), hi = 1 + r.below(120);
        for (size_t i = 0; i < n; i++) b.push_back(i % 2 ? r.below(lo) : 125 + r.below(hi));
        break;
    }
    case 18: { // long head before the first minimum
        size_t h = r.chance(1, 2) ? special(r, n) : 1 + r.below(n);
        for (size_t i = 0; i < h; i++) b.push_back(255 - (uint8_t)(i * 100 / h));
        Bytes t = uniform(r, n > h ? n - h : 1, 4, 100);
        b.insert(b.end(), t.begin(), t.end());
        break;
    }
    case 19: { // long plateau or zeros at the end
        b = uniform(r, n / 2 + 1, k, base);
        put_run(b, r.pick<uint8_t>({0, 0, 255, 'a'}), r.chance(1, 2) ? special(r, n) : n / 2 + 1);
        break;
    }
    case 20: { // exactly two minima
        put_run(b, 'b', 1 + r.below(n));
        put_run(b, 'a', 1 + r.below(4));
        put_run(b, 'c', r.chance(1, 2) ? special(r, n) : 1 + r.below(n));
        put_run(b, 'a', r.below(3));
        if (r.chance(1, 2)) put_run(b, 'd', 1 + r.below(4));
        break;
    }
    default: { // two of the above
        if (maxn < 8) { b = uniform(r, n, k, base); break; }
        b = gen_text(r, maxn / 2);
        Bytes c = gen_text(r, maxn / 2);
        b.insert(b.end(), c.begin(), c.end());
        n = b.size();
    }
    }
    clip(b, n, r);
    return b;
}

// ------------------------------------------------------------- ingredients
static void heap_style(Scenario &s, Rng &r) {
    s.fill = r.below(4);
    s.reuse = r.chance(1, 2);
    s.move = r.below(3);
    s.spread = r.below(3);
    s.heap_seed = r.next() >> 1;
    s.sched_seed = r.next() >> 1;
    s.crash_seed = r.next() >> 1;
}
static void caps_style(Scenario &s, Rng &r, unsigned p) { // p in 8: chance of each knob
    if (r.chance(p, 8)) s.table_size = r.pick<uint64_t>({1, 2, 3, 7, 16, 64, 101, 257, 1009, 4096});
    if (r.chance(p, 8)) s.table_block = r.pick<uint64_t>({64, 64, 65, 80, 100, 128, 200, 256, 300, 1000, 4096});
    if (r.chance(p, 8)) s.queue_block = r.pick<uint64_t>({8, 8, 16, 32, 64, 128, 256, 512});
}
static void width_style(Scenario &s, Rng &r) { s.index_bits = r.pick<uint64_t>({0, 33, 40, 48, 56}); }
static int add_input(Scenario &s, const Bytes &b) { s.inputs.push_back(b); return s.inputs.size() - 1; }
static void add_file(Scenario &s, const std::string &p, int kind, int input, bool nr = false, bool nw = false) {
    File f;
    f.path = p; f.kind = kind; f.input = input; f.noread = nr; f.nowrite = nw;
    s.files.push_back(f);
}
static Op &add_op(Scenario &s, int kind) {
    Op o;
    o.kind = kind;
    o.phase = s.ops.size();
    s.ops.push_back(o);
    return s.ops.back();
}
static Fault &add_fault(Scenario &s, int op, int kind) {
    Fault f;
    f.op = op; f.kind = kind;
    s.faults.push_back(f);
    return s.faults.back();
}
// what the output path holds before: nothing, shorter, longer, same length, the same bytes
static void add_output(Scenario &s, Rng &r, const std::string &p, const Bytes &in) {
    switch (r.below(5)) {
    case 0: case 1: return;
    case 2: add_file(s, p, N_FILE, add_input(s, uniform(r, r.below(in.size() + 8), 256, 0))); return;
    case 3: add_file(s, p, N_FILE, add_input(s, uniform(r, in.size() + 9 + r.below(5000), 256, 0))); return;
    default: add_file(s, p, N_FILE, add_input(s, uniform(r, in.size() + 8, 256, 0))); return;
    }
}
static Fault &add_fault(Scenario &s, int op, int kind);
// an input that no memory can hold: sparse, its size near or past what 31, 32 or more bits count
static void oversized(Scenario &s, Rng &r, const std::string &p, int input) {
    add_file(s, p, N_FILE, input);
    int e = r.pick<int>({30, 31, 31, 32, 32, 32, 32, 33, 34, 36, 40, 48, 62});
    int64_t v = (int64_t)((1ull << e) * (r.chance(1, 3) ? 1 : 1 + r.below(e < 60 ? 3 : 1)));
    v += r.chance(1, 4) ? -(int64_t)(1 + r.below(3)) : r.chance(1, 3) ? (int64_t)r.below(4) : (int64_t)r.below(3000);
    s.files.back().vsize = r.chance(1, 20) ? INT64_MAX : v;
}
static void refuse_big(Scenario &s) { // every call
    for (size_t i = 0; i < s.ops.size(); i++) add_fault(s, i, F_ALLOC_BIG).arg = 16 << 20;
}
static void benign_io(Scenario &s, Rng &r, int op, size_t n) {
    if (r.chance(1, 4)) { Fault &f = add_fault(s, op, F_READ_CHUNK); f.arg = n > 2000 ? 1 + r.below(5000) + n / 200 : 1 + r.below(n + 1); }
    if (r.chance(1, 4)) { Fault &f = add_fault(s, op, F_READ_SHORT); f.nth = 1 + r.below(3); f.arg = 1 + r.below(n); }
    if (r.chance(1, 4)) { Fault &f = add_fault(s, op, F_WRITE_SHORT); f.nth = 1 + r.below(3); f.arg = 1 + r.below(n + 8); }
    if (r.chance(1, 8)) { Fault &f = add_fault(s, op, F_GROW); f.nth = 1 + r.below(2 + n / 8192); f.arg = 1 + r.below(300); }
}
enum { W_IN = 1, W_OUT = 2, W_MEM = 4 };
static void hard_fault(Scenario &s, Rng &r, int op, int ref, size_t n, int which) {
    std::vector<int> k;
    if (which & W_IN) for (int x : {F_OPEN, F_SEEK, F_READ, F_READ, F_READ_EOF, F_SHRINK, F_SHRINK}) k.push_back(x);
    if (which & W_OUT) for (int x : {F_OPEN, F_WRITE, F_WRITE, F_WRITE_ALL, F_CAPACITY, F_CAPACITY, F_CLOSE, F_CLOSE}) k.push_back(x);
    if (which & W_MEM) for (int x : {F_ALLOC, F_ALLOC, F_ALLOC_FROM, F_ALLOC_BIG, F_ALLOC_CAP}) k.push_back(x);
    Fault &f = add_fault(s, op, k[r.below(k.size())]);
    switch (f.kind) {
    case F_OPEN:
        f.nth = (which & W_IN) && (which & W_OUT) ? 1 + r.below(2) : (which & W_OUT) ? 2 : 1;
        f.arg = r.chance(1, 2);
        f.err = r.pick<int>({ENOENT, EACCES, EMFILE, ENFILE, ENOMEM, EINTR, EIO, EROFS, ENOSPC});
        break;
    case F_SEEK: f.nth = 1 + r.below(4); f.arg = r.chance(1, 2); f.err = r.pick<int>({EIO, ESPIPE, EOVERFLOW}); break;
    case F_READ: f.rel = r.below(1001); f.ref = ref; f.arg = r.chance(1, 2); f.err = r.pick<int>({EIO, EIO, EINTR, EAGAIN, ENOMEM, EISDIR}); if (f.arg && f.err == EINTR && s.prop != "C12") f.err = EIO; break; // interrupted for ever: C12 alone
    case F_READ_EOF: f.rel = r.below(1001); f.ref = ref; f.arg = r.chance(1, 2); break;
    case F_SHRINK: f.rel = r.below(1001); f.ref = ref; f.arg = r.chance(1, 4) ? 0 : r.chance(1, 3) ? (int64_t)n - 1 : (int64_t)r.below(n); break;
    case F_WRITE: f.rel = r.below(1001); f.ref = ref; f.arg = r.chance(1, 2) ? 0 : 1 + r.below(n + 7); f.err = r.pick<int>({EIO, ENOSPC, EINTR, EDQUOT, EFBIG, EAGAIN}); break;
    case F_WRITE_ALL: f.rel = r.below(1001); f.ref = ref; f.err = r.pick<int>({EIO, ENOSPC, EINTR, EPIPE}); if (f.err == EINTR && s.prop != "C12") f.err = EIO; break;
    case F_CAPACITY: f.arg = r.chance(1, 4) ? (int64_t)n + 7 : r.chance(1, 4) ? (int64_t)r.below(9) : (int64_t)r.below(n + 8); break;
    case F_CLOSE: f.nth = (which & W_IN) && (which & W_OUT) ? 1 + r.below(2) : (which & W_OUT) ? 2 : 1; f.arg = r.chance(2, 3); f.err = r.pick<int>({EIO, ENOSPC, EDQUOT, EINTR}); break;
    case F_ALLOC: case F_ALLOC_FROM:
        // early requests are few and large, late ones many and alike: sample both by rank and by position
        if (r.chance(1, 3)) f.nth = 1 + r.below(40);
        else { f.rel = r.chance(1, 4) ? 900 + r.below(101) : r.below(1001); f.ref = ref; }
        if (f.kind == F_ALLOC && r.chance(1, 6)) { Fault g = f; g.rel = r.below(1001); g.ref = ref; s.faults.push_back(g); }
        break;
    case F_ALLOC_BIG: f.arg = r.pick<int64_t>({1, 8, 16, 24, 33, 64, 100, 200, 500, 1000, 3000, 10000, 100000}) + r.below(n); break;
    case F_ALLOC_CAP: f.arg = r.chance(1, 2) ? r.below(1200000 + 8 * n) : r.below(60000 + 12 * n); break;
    }
}
static std::string path(const char *p, int i) { return std::string("/sim/") + p + std::to_string(i); }

// ------------------------------------------------------------- one per property
void gen_part(const std::string &prop, Scenario &s, Rng &r, bool thorough, bool giant, uint64_t index); // component workloads

static Bytes large_text(Rng &r, int flags);
static Scenario generate_raw(const std::string &given, uint64_t seed, uint64_t index, int flags);

// a text whose row lies next to a multiple of a size that buffers and pieces have
static Bytes placed_row(Rng &r, bool large) {
    uint64_t unit = large ? r.pick<uint64_t>({4096, 65536, 65536, 131072, 1 << 20}) : r.pick<uint64_t>({256, 512, 1024, 4096, 4096, 8192, 16384});
    uint64_t row = unit * (1 + r.below(large ? 1 + 600000 / unit : 1 + 20000 / unit)) + r.pick<int64_t>({0, 0, 0, 1, -1, -7, -8, -9});
    uint64_t n = row + (r.chance(1, 6) ? r.below(10) : r.below(2 * unit)), low = row - 1, high = n - row;
    int kl = r.pick<int>({1, 2, 20, 128}), kh = r.pick<int>({1, 2, 20, 127}), most = r.pick<int>({1, 4, 40, 4000});
    Bytes b(1, 128);
    while (low + high) { // so many smaller and so many larger suffixes
        bool l = r.below(low + high) < low;
        uint64_t m = std::min<uint64_t>(1 + r.below(most), l ? low : high);
        put_run(b, l ? 127 - r.below(kl) : 129 + r.below(kh), m);
        (l ? low : high) -= m;
    }
    return b;
}
// half of the runs: other directories and names than /sim/in0 and /sim/out0
static void name_files(Scenario &s) {
    Rng r(mix(s.seed, 0x4e414d45));
    if (s.files.empty() || r.chance(1, 2)) return;
    std::string dir[2], tail[2];
    for (int k = 0; k < 2; k++) {
        dir[k] = r.pick<std::string>({"", "./", "../", "/", "/sim/", "/sim/a.b/", "a dir/b/", std::string(60, 'd') + "/" + std::string(100, 'e') + "/"});
        tail[k] = r.pick<std::string>({"", ".txt", ".bwt", ".tmp", "~", " %s%n.x", "\xff\xc3", std::string(80, 'n')});
    }
    auto name = [&](std::string &p) {
        if (p.compare(0, 5, "/sim/")) return;
        std::string b = p.substr(5);
        int k = b[0] == 'i' ? 0 : 1;
        p = dir[k] + b + tail[k];
    };
    for (auto &f : s.files) { name(f.path); name(f.to); }
    for (auto &o : s.ops) { name(o.in); name(o.out); }
}
Scenario generate(const std::string &given, uint64_t seed, uint64_t index, int flags) {
    Scenario s = generate_raw(given, seed, index, flags);
    name_files(s);
    // an input cut and then extended within one call is a torn read no reader can notice: not demanded
    for (size_t i = 0; i < s.faults.size();) {
        bool cut = false;
        if (s.faults[i].kind == F_GROW)
            for (auto &f : s.faults) cut |= f.kind == F_SHRINK && f.op == s.faults[i].op;
        if (cut) s.faults.erase(s.faults.begin() + i); else i++;
    }
    // few buckets and many substrings: keep the chains affordable
    uint64_t n = 0;
    for (auto &b : s.inputs) n = std::max<uint64_t>(n, b.size());
    if (s.table_size && n * n / s.table_size > 10000000) s.table_size = n * n / 10000000 + 1;
    return s;
}
static Scenario generate_raw(const std::string &given, uint64_t seed, uint64_t index, int flags) {
    if (given == "C20") { // the calls of the others
        static const char *from[] = {"C01", "C02", "C03", "C05", "C06", "C08", "C09", "C10", "C12", "C13"};
        Scenario s = generate_raw(from[mix(seed, index) % 10], seed ^ 0x20, index, flags);
        s.prop = "C20";
        return s;
    }
    const bool thorough = flags & 1;
    std::string prop = given;
    uint64_t h = 0x5eed;
    for (char c : prop) h = mix(h, c);
    h = mix(mix(h, seed), index);
    Rng r(h);
    Scenario s;
    s.prop = prop;
    s.seed = h;
    heap_style(s, r);
    size_t maxn = thorough && r.chance(1, 8) ? 70000 : 24000;

    if (prop == "C14" || prop == "C15" || prop == "C16" || prop == "C17" || prop == "C18") {
        if (!(flags & 4)) { gen_part(prop, s, r, thorough, flags & 8, index); return s; }
        prop = "C06";
    }
    if (flags & 8) { // one text of more than 2^32, or 2^31 bytes
        s.fill = 0; s.huge = 0; s.reuse = 1; s.spread = 0; s.move = 0;
        uint64_t n = (index % 2 && prop != "C06" ? 1ull << 31 : 1ull << 32) + 1 + r.below(100000);
        // one substring between two minima that is nearly all; or the largest suffix, or anything
        int style = index == 0 ? (prop == "C01" ? 1 : 0) : prop == "C06" && index == 1 ? 1 : r.below(3);
        static const int bits[] = {33, 56, 40, 48, 0};
        if (prop == "C06") s.index_bits = bits[index % 5];
        int k = style == 0 ? 5 + r.below(3) : style == 1 ? 3 + r.below(3) : 1 + r.below(6), big = style == 0 ? 2 : style == 1 ? 0 : r.below(k), c = r.below(256);
        for (int i = 0; i < k; i++) { // most of it in one run
            int64_t l = i == big ? n : 1000003;
            if (style == 0) c = i % 2 ? r.below(128) : 128 + r.below(128);
            if (style == 1) c = i == 0 ? 200 + r.below(56) : i % 2 ? r.below(100) : 100 + r.below(100);
            s.giant.push_back({{c, l}});
            c = (c + 1 + r.below(255)) & 255;
        }
        Op &o = add_op(s, prop == "C01" ? OP_GIANT_FILE : OP_GIANT);
        o.free_t = r.chance(1, 2);
        if (prop == "C01") {
            o.in = path("in", 0); o.out = path("out", 0);
            add_file(s, o.in, N_FILE, -2);
            if (r.chance(1, 2)) { Fault &f = add_fault(s, 0, F_READ_CHUNK); f.arg = (100 << 20) + r.below(1u << 30); }
        }
        if (r.chance(1, 2)) s.queue_block = r.pick<uint64_t>({512, 4096, 65536});
        return s;
    }
    if (flags & 2) { // one large text
        int in = add_input(s, large_text(r, flags));
        if (prop == "C06") width_style(s, r);
        if (r.chance(1, 3)) s.table_size = r.pick<uint64_t>({4096, 20011, 300007});
        if (r.chance(1, 3)) s.table_block = r.pick<uint64_t>({64, 100, 256, 4096, 100000});
        if (prop == "C19") s.table_block = std::min<uint64_t>(s.table_block, 256);
        if (s.table_block >= 4096) s.table_size = r.pick<uint64_t>({1009, 4096}); // one block per bucket is memory the host must have
        if (r.chance(1, 3)) s.queue_block = r.pick<uint64_t>({64, 128, 512, 4096});
        if (prop == "C01") {
            add_file(s, path("in", 0), N_FILE, in);
            Op &o = add_op(s, OP_FILE);
            o.in = path("in", 0); o.out = path("out", 0); o.input = in;
            if (r.chance(1, 2)) benign_io(s, r, 0, s.inputs[0].size());
        } else {
            Op &o = add_op(s, OP_STRING);
            o.input = in;
            o.free_t = r.chance(1, 2);
        }
        return s;
    }
    if (prop == "C05" || prop == "C06") {
        bool wide = prop == "C06";
        if (wide) width_style(s, r);
        caps_style(s, r, wide ? 5 : 2);
        int k = 1 + r.below(3);
        for (int i = 0; i < k; i++) {
            Bytes b = gen_text(r, s.table_size && s.table_size < 16 ? 4000 : maxn);
            int in = add_input(s, b);
            Op &o = add_op(s, OP_STRING);
            o.input = in;
            o.free_t = r.chance(1, 3);
        }
        if (wide && r.chance(1, 4)) { // offsets that really are wide
            s.huge = 1;
            s.index_bits = r.chance(3, 4) ? 0 : s.index_bits;
            s.table_size = r.pick<uint64_t>({0, 0, 1009, 4096});
            s.inputs.clear(); s.ops.clear();
            Bytes b;
            // enough distinct substrings to open many blocks
            int lo = 2 + r.below(60), hi = 2 + r.below(60);
            size_t n = 20 + r.below(1500);
            for (size_t i = 0; i < n; i++) b.push_back(i % 2 ? r.below(lo) : 125 + r.below(hi));
            if (r.chance(1, 3)) b = gen_text(r, 1500);
            size_t distinct = 1;
            { // an estimate is enough to aim at a power of two
                std::vector<Bytes> v;
                size_t from = 0;
                for (size_t i = 1; i + 1 < b.size(); i++) {
                    size_t j = i;
                    while (j + 1 < b.size() && b[j + 1] == b[i]) j++;
                    if (b[i - 1] > b[i] && j + 1 < b.size() && b[j + 1] > b[i]) { v.push_back(Bytes(b.begin() + from, b.begin() + i + 1)); from = i; }
                }
                std::sort(v.begin(), v.end());
                v.erase(std::unique(v.begin(), v.end()), v.end());
                if (!v.empty()) distinct = v.size();
            }
            int bit = r.pick<int>({30, 31, 31, 31, 32, 32, 35, 38, 39, 39, 40, 40, 41, 42});
            double target = (double)(1ull << bit) * (0.6 + 0.01 * r.below(130));
            uint64_t blk = (uint64_t)(target / distinct);
            uint64_t least = (80ull << 20), most = (1ull << 43) / (distinct + 2);
            if (blk < least) blk = least;
            if (blk > most) blk = most;
            s.table_block = blk;
            int in = add_input(s, b);
            add_op(s, OP_STRING).input = in;
        }
        return s;
    }
    if (prop == "C01" || prop == "C02" || prop == "C03" || prop == "C04") {
        caps_style(s, r, 2);
        if (r.chance(1, 4)) width_style(s, r);
        Bytes b = gen_text(r, prop == "C01" ? maxn : 20000);
        if (r.chance(1, 10)) b.resize(r.pick<size_t>({8184, 8185, 8191, 8192, 8193, 4088, 4096, 16376, 16384}), r.next());
        else if (r.chance(1, prop == "C01" ? 6 : 30)) b = placed_row(r, false);
        size_t n = b.size();
        int in = add_input(s, b);
        add_file(s, path("in", 0), N_FILE, in);
        bool same = prop != "C04" && r.chance(1, 12);
        if (!same) add_output(s, r, path("out", 0), b);
        else if (prop == "C03") same = false;
        auto call = [&](const std::string &i, const std::string &o) -> Op & {
            Op &x = add_op(s, OP_FILE);
            x.in = i; x.out = o; x.input = in;
            return x;
        };
        std::string out = same ? path("in", 0) : path("out", 0);
        if (same && r.chance(1, 2)) { // the same file by another name
            out = path("out", 0);
            add_file(s, out, N_LINK, -1);
            s.files.back().to = path("in", 0);
        }
        if (prop == "C01") {
            bool hard = r.chance(2, 5);
            if (hard) call(path("in", 0), path("ref", 0));
            call(path("in", 0), out);
            int op = s.ops.size() - 1;
            if (r.chance(3, 5)) benign_io(s, r, op, n);
            if (hard) {
                hard_fault(s, r, op, 0, n, r.chance(1, 8) ? W_MEM : W_IN | W_OUT);
                if (r.chance(1, 4)) hard_fault(s, r, op, 0, n, W_IN | W_OUT | W_MEM);
                if (!same && r.chance(1, 2)) call(path("in", 0), out); // and once more, over what is there now
            }
            return s;
        }
        if (prop == "C02") {
            call(path("in", 0), path("ref", 0));
            int bad = r.below(10);
            if (bad < 3) { // the files themselves are the fault
                std::string i = path("in", 1), o = path("out", 1);
                int what = r.below(11);
                switch (what) {
                case 0: break; // missing
                case 1: add_file(s, i, N_DIR, -1); break;
                case 2: add_file(s, i, N_FIFO, in); break;
                case 3: add_file(s, i, N_FILE, in, true); break;
                case 4: add_file(s, i, N_FILE, -1); break; // empty
                case 5: i = path("in", 0); add_file(s, o, N_DIR, -1); break;
                case 6: i = path("in", 0); add_file(s, o, N_FILE, in, false, true); break;
                case 7: i = path("in", 0); o = ""; break;
                default: oversized(s, r, i, in); break;
                }
                int k = 1 + r.below(5);
                while (k--) call(i, o);
                if (what > 7) refuse_big(s);
            } else {
                int k = r.chance(1, 2) ? 1 : 4;
                uint64_t state = r.next();
                int which = r.chance(1, 2) ? W_IN : W_OUT;
                for (int i = 0; i < k; i++) {
                    call(path("in", 0), k > 1 ? path("out", 0) : out);
                    Rng q(state); // the same faults every time
                    hard_fault(s, q, s.ops.size() - 1, 0, n, which);
                    if (q.chance(1, 3)) benign_io(s, q, s.ops.size() - 1, n);
                }
                bool shrink = false;
                for (auto &f : s.faults) shrink |= f.kind == F_SHRINK || f.kind == F_GROW;
                s.param[0] = k > 1 && !shrink; // all alike: memory must not grow
            }
            if (bad < 3 && s.ops.size() > 3) s.param[0] = 1;
            return s;
        }
        if (prop == "C03") {
            call(path("in", 0), path("ref", 0));
            int bad = r.below(10);
            if (bad < 2) {
                std::string i = path("in", 1);
                int what = r.below(8);
                switch (what) {
                case 0: break;
                case 1: add_file(s, i, N_DIR, -1); break;
                case 2: add_file(s, i, N_FIFO, in); break;
                case 3: add_file(s, i, N_FILE, in, true); break;
                case 4: add_file(s, i, N_FILE, -1); break;
                default: oversized(s, r, i, in); break;
                }
                call(i, path("out", 0));
                if (what > 4) refuse_big(s);
            } else {
                call(path("in", 0), path("out", 0));
                hard_fault(s, r, 1, 0, n, r.chance(1, 2) ? W_IN : W_MEM);
                for (auto &f : s.faults) if (f.kind == F_OPEN || f.kind == F_CLOSE) f.nth = 1;
                if (r.chance(1, 6)) hard_fault(s, r, 1, 0, n, W_OUT); // input bytes must survive this too
            }
            return s;
        }
        // C04
        call(path("in", 0), path("ref", 0));
        call(path("in", 0), path("out", 0));
        if (r.chance(1, 3)) benign_io(s, r, 1, n);
        for (size_t i = 0; i < s.faults.size();) // the input stays what it is
            if (s.faults[i].kind == F_GROW) s.faults.erase(s.faults.begin() + i); else i++;
        Fault &f = add_fault(s, 1, r.pick<int>({F_CRASH_IO, F_CRASH_IO, F_CRASH_IO, F_CRASH_ALLOC, F_CRASH_TICK}));
        f.ref = 0;
        f.rel = r.chance(1, 3) ? 950 + r.below(51) : r.below(1001);
        f.arg = f.kind == F_CRASH_IO ? r.below(3) : 0;
        return s;
    }
    if (prop == "C07") {
        if (r.chance(7, 8)) s.table_size = r.pick<uint64_t>({1, 3, 16, 64});
        if (r.chance(1, 2)) s.table_block = r.pick<uint64_t>({64, 100, 256});
        if (r.chance(1, 2)) s.queue_block = r.pick<uint64_t>({8, 16, 64});
        if (r.chance(1, 3)) width_style(s, r);
        int k = 2 + r.below(3), phases = 1 + r.below(2);
        int shared = -1, files = r.pick<int>({1, 1, 1, 3});
        if (r.chance(1, 3)) {
            Bytes b = gen_text(r, 400);
            shared = add_input(s, b);
            add_file(s, path("in", 9), N_FILE, shared);
        }
        for (int p = 0; p < phases; p++)
            for (int t = 0; t < k; t++) {
                bool file = r.chance(files, 3);
                int in = shared >= 0 && r.chance(2, 3) ? shared : add_input(s, gen_text(r, r.chance(1, 6) ? 3000 : 300));
                Op &o = add_op(s, file ? OP_FILE : OP_STRING);
                o.thread = t; o.phase = p; o.input = in;
                int id = s.ops.size() - 1;
                if (file) {
                    o.in = in == shared ? path("in", 9) : path("in", 10 + id);
                    o.out = path("out", id);
                    if (in != shared) add_file(s, o.in, N_FILE, in);
                    if (r.chance(1, 3)) add_output(s, r, o.out, s.inputs[in]);
                    if (r.chance(1, 5)) hard_fault(s, r, id, -1, s.inputs[in].size(), W_OUT);
                } else {
                    o.free_t = in != shared && r.chance(1, 3);
                    if (r.chance(1, 8)) { Fault &f = add_fault(s, id, F_ALLOC); f.nth = 1 + r.below(1500); }
                }
            }
        for (auto &f : s.faults) { f.rel = -1; if (f.nth < 1) f.nth = 1; }
        static const int64_t gaps[] = {0, 20, 100, 400, 1500, 6000, 25000};
        s.gap = gaps[r.below(7)];
        s.call_p = r.pick<int>({0, 4, 30, 128});
        if (!s.gap && !s.call_p) s.call_p = 16;
        if (r.chance(1, 2)) { // a thread that stands still while the others go on
            switch (r.below(6)) {
            case 0: case 1: s.park_mask = 1 << PT_GLOBAL; s.park_shift = r.below(12); break;
            case 2: s.park_mask = 1 << PT_GLOBAL | 1 << PT_LOCK | 1 << PT_CALL | 1 << PT_IO; s.park_shift = r.below(6); break;
            case 3: s.park_mask = 1 << PT_ALLOC | 1 << PT_FREE; s.park_shift = 3 + r.below(9); break;
            case 4: s.park_mask = 1 << PT_EDGE; s.park_shift = r.below(6); if (!s.gap) s.gap = 400; break;
            default: s.park_mask = 127; s.park_shift = 1 + r.below(9); break;
            }
            if (r.chance(1, 2)) { s.call_p = 0; if (s.park_mask != 1 << PT_EDGE) s.gap = 0; }
        }
        return s;
    }
    if (prop == "C08") {
        caps_style(s, r, 2);
        if (r.chance(1, 3)) width_style(s, r);
        bool file = r.chance(1, 4), over = file && r.chance(1, 6);
        Bytes b = gen_text(r, 12000);
        int in = add_input(s, b);
        add_file(s, path("in", 0), N_FILE, in);
        if (over) oversized(s, r, path("in", 1), in);
        int rounds = 1 + r.below(4);
        for (int i = 0; i < rounds * 2 + 1; i++) {
            Op &o = add_op(s, file ? OP_FILE : OP_STRING);
            o.input = in;
            o.in = path("in", 0);
            o.out = path("out", i == 0 ? 0 : 1);
            o.free_t = !file && r.chance(1, 3);
            if (i % 2 && over) { o.in = path("in", 1); add_fault(s, i, F_ALLOC_BIG).arg = 16 << 20; }
            else if (i % 2) hard_fault(s, r, i, 0, b.size(), W_MEM);
        }
        return s;
    }
    if (prop == "C09") {
        caps_style(s, r, 2);
        if (r.chance(1, 3)) width_style(s, r);
        int k = 1 + r.below(4);
        for (int i = 0; i < k; i++) {
            if (r.chance(1, 5)) {
                int in = add_input(s, gen_text(r, 40));
                Op &o = add_op(s, OP_BADARG);
                o.input = in;
                o.bad = r.below(3);
                o.free_t = r.chance(1, 2);
                continue;
            }
            int in = i && r.chance(1, 2) ? 0 : add_input(s, gen_text(r, maxn));
            Op &o = add_op(s, OP_STRING);
            o.input = in;
            o.free_t = r.chance(1, 2);
            o.bad = r.chance(1, 4) ? 0 : 3; // 3: flag off, buffer in the heap instead of read-only pages (released blocks are noticed)
            if (r.chance(1, 4)) o.bad = 0;
        }
        return s;
    }
    if (prop == "C10") {
        caps_style(s, r, 3);
        if (r.chance(1, 2)) width_style(s, r);
        int kinds = 1 + r.below(3), rounds = 3 + r.below(2);
        s.param[0] = 1;
        std::vector<Op> proto;
        for (int i = 0; i < kinds; i++) {
            Bytes b = gen_text(r, r.chance(1, 8) ? maxn : 3000);
            int in = add_input(s, b);
            add_file(s, path("in", i), N_FILE, in);
            Op o;
            o.kind = r.chance(1, 3) ? OP_FILE : OP_STRING;
            o.input = in;
            o.in = path("in", i); o.out = path("out", i);
            o.free_t = r.chance(1, 2);
            proto.push_back(o);
        }
        bool refused = r.chance(1, 4), odd = r.chance(1, 4); // the same fault in every round but the first: calls that get over it keep nothing either
        if (refused || odd) rounds = 4;
        for (int k = 0; k < rounds; k++) for (auto &o : proto) { s.ops.push_back(o); s.ops.back().phase = s.ops.size() - 1; }
        if (refused || odd) {
            for (int j = 0; j < kinds; j++) {
                size_t n = s.inputs[proto[j].input].size();
                if (refused && (kinds == 1 || r.chance(2, 3))) hard_fault(s, r, kinds + j, j, n, W_MEM);
                if (odd && proto[j].kind == OP_FILE) benign_io(s, r, kinds + j, n);
            }
            for (size_t i = 0, e = s.faults.size(); i < e; i++)
                for (int k = 2; k < rounds; k++) { Fault f = s.faults[i]; f.op += (k - 1) * kinds; s.faults.push_back(f); }
            for (size_t i = 0; i < s.faults.size();) if (s.faults[i].kind == F_GROW) s.faults.erase(s.faults.begin() + i); else i++;
        }
        s.param[1] = kinds;
        return s;
    }
    if (prop == "C11") {
        caps_style(s, r, 2);
        Bytes b = gen_text(r, 16000);
        size_t n = b.size();
        int in = add_input(s, b);
        add_file(s, path("in", 0), N_FILE, in);
        std::string i = path("in", 0), o = path("out", 0);
        if (r.chance(1, 10)) {
            switch (r.below(8)) {
            default: i = path("in", 1); oversized(s, r, i, in); s.param[6] = 1; break;
            case 0: i = path("in", 1); break;
            case 1: i = path("in", 1); add_file(s, i, N_DIR, -1); break;
            case 2: i = path("in", 1); add_file(s, i, N_FILE, -1); break;
            case 3: i = path("in", 1); add_file(s, i, N_FIFO, in); break;
            case 4: o = path("out", 1); add_file(s, o, N_DIR, -1); break;
            case 5: o = path("out", 1); add_file(s, o, N_FILE, in, false, true); break;
            }
        } else
            add_output(s, r, o, b);
        int ref = -1;
        if (r.chance(1, 2)) { Op &q = add_op(s, OP_FILE); q.in = path("in", 0); q.out = path("ref", 0); q.input = in; ref = 0; }
        Op &q = add_op(s, OP_CLI);
        q.in = i; q.out = o; q.input = in;
        if (s.param[6]) { s.param[6] = 0; refuse_big(s); }
        q.argc = r.chance(1, 8) ? r.pick<int>({0, 1, 2, 4, 5, 6}) : 3;
        int id = s.ops.size() - 1;
        if (r.chance(1, 3)) benign_io(s, r, id, n);
        if (r.chance(3, 5)) hard_fault(s, r, id, ref, n, r.chance(1, 5) ? W_MEM : W_IN | W_OUT);
        if (ref < 0) for (auto &f : s.faults) if (f.rel >= 0) { f.rel = -1; f.nth = 1 + r.below(f.kind == F_ALLOC || f.kind == F_ALLOC_FROM ? 1200 : 4); }
        return s;
    }
    if (prop == "C12") {
        if (r.chance(1, 3)) width_style(s, r);
        caps_style(s, r, 4);
        bool file = r.chance(2, 3);
        Bytes b = gen_text(r, s.table_size && s.table_size < 64 ? 3000 : maxn);
        int in = add_input(s, b);
        add_file(s, path("in", 0), N_FILE, in);
        if (file) {
            add_output(s, r, path("out", 0), b);
            { Op &q = add_op(s, OP_FILE); q.in = path("in", 0); q.out = path("ref", 0); q.input = in; }
            { Op &q = add_op(s, OP_FILE); q.in = path("in", 0); q.out = path("out", 0); q.input = in; }
            switch (r.below(11)) {
            case 9: s.ops[1].in = path("in", 2); oversized(s, r, path("in", 2), in); refuse_big(s); break;
            case 0: { Fault &f = add_fault(s, 1, F_READ); f.rel = r.below(1001); f.ref = 0; f.arg = 1; f.err = r.pick<int>({EINTR, EAGAIN, EIO}); break; }
            case 1: { Fault &f = add_fault(s, 1, F_READ_EOF); f.rel = r.below(1001); f.ref = 0; f.arg = 1; break; }
            case 2: { Fault &f = add_fault(s, 1, F_WRITE_ALL); f.rel = r.below(1001); f.ref = 0; f.err = r.pick<int>({EINTR, EAGAIN, EIO, ENOSPC}); break; }
            case 3: { Fault &f = add_fault(s, 1, F_CAPACITY); f.arg = r.below(b.size() + 8); break; }
            case 4: { Fault &f = add_fault(s, 1, F_SHRINK); f.rel = r.below(1001); f.ref = 0; f.arg = r.below(b.size()); break; }
            case 5: { Fault &f = add_fault(s, 1, F_READ_CHUNK); f.arg = b.size() > 3000 ? 1 + b.size() / 1500 : 1; break; }
            case 6: { Fault &f = add_fault(s, 1, F_SEEK); f.nth = 1 + r.below(3); f.arg = 1; f.err = EIO; break; }
            case 7: { Fault &f = add_fault(s, 1, F_CLOSE); f.nth = 1 + r.below(2); f.arg = r.below(3); f.err = r.pick<int>({EINTR, EIO}); break; }
            case 8: { Fault &f = add_fault(s, 1, F_OPEN); f.nth = 1 + r.below(2); f.arg = 1; f.err = r.pick<int>({EINTR, EINTR, EAGAIN, EMFILE, ENFILE, EBUSY}); break; }
            default: hard_fault(s, r, 1, 0, b.size(), W_MEM); break;
            }
        } else {
            add_op(s, OP_STRING).input = in;
            if (r.chance(1, 2)) { add_op(s, OP_STRING).input = in; hard_fault(s, r, 1, 0, b.size(), W_MEM); }
        }
        return s;
    }
    if (prop == "C19") {
        bool many = r.chance(1, 25); // small calls, again and again
        if (r.chance(1, 2)) width_style(s, r);
        if (many || r.chance(1, 2)) s.table_size = r.pick<uint64_t>({257, 1009, 4096, 20011});
        if (r.chance(1, 2)) s.table_block = r.pick<uint64_t>({64, 80, 128, 256, 1000});
        if (r.chance(2, 3)) s.queue_block = r.pick<uint64_t>({8, 16, 64, 128, 256});
        if (many) { s.table_size = r.pick<uint64_t>({16, 64, 101, 257}); s.queue_block = r.pick<uint64_t>({8, 16, 64}); s.reuse = 1; }
        Bytes b = many ? gen_text(r, 100) : r.chance(1, 12) ? alike_text(r, 30000 + r.below(200000)) : r.chance(1, 20) ? long_text(r) : gen_text(r, r.chance(1, 10) ? 100000 : maxn);
        int in = add_input(s, b), k = many ? 80 + (int)r.below(140) : b.size() > 30000 ? 1 + (int)r.below(2) : r.pick<int>({1, 1, 1, 2, 3, 4});
        add_file(s, path("in", 0), N_FILE, in);
        bool file = r.chance(1, 3), free_t = r.chance(1, 2);
        for (int i = 0; i < k; i++) {
            Op &o = add_op(s, file ? OP_FILE : OP_STRING);
            o.input = in; o.in = path("in", 0); o.out = path("out", 0); o.free_t = free_t;
        }
        s.param[5] = 1;
        // some of the calls in the middle fail or are slowed down
        for (int i = 1; i + 1 < k; i++) if (r.chance(1, many ? 6 : 2)) hard_fault(s, r, i, 0, b.size(), file ? W_IN | W_OUT | W_MEM : W_MEM);
        for (size_t i = 0; i < s.faults.size();) if (s.faults[i].kind == F_SHRINK) s.faults.erase(s.faults.begin() + i); else i++;
        if (file && r.chance(1, 4)) { Fault &f = add_fault(s, r.below(k), F_READ_CHUNK); f.arg = 1 + b.size() / 50 + r.below(5000); }
        return s;
    }
    // C13
    s.reuse = r.chance(7, 8);
    caps_style(s, r, 2);
    if (r.chance(1, 3)) width_style(s, r);
    int k = 2 + r.below(thorough ? 40 : 16);
    int pool = 1 + r.below(4);
    for (int i = 0; i < pool; i++) {
        add_input(s, gen_text(r, r.chance(1, 6) ? 9000 : 800));
        add_file(s, path("in", i), N_FILE, i);
    }
    for (int i = 0; i < k; i++) {
        bool final = i >= k - 2;
        int in = r.below(pool), w = r.below(10);
        if (!final && w == 0) {
            Op &o = add_op(s, OP_BADARG);
            o.input = in; o.bad = r.below(3); o.free_t = r.chance(1, 2);
        } else if (w < 5) {
            Op &o = add_op(s, OP_FILE);
            o.input = in; o.in = path("in", in); o.out = path("out", r.below(3));
            if (!final && r.chance(1, 8)) o.in = path("none", 0);
            else if (!final && r.chance(1, 2)) hard_fault(s, r, i, -1, s.inputs[in].size(), W_IN | W_OUT | W_MEM);
        } else {
            Op &o = add_op(s, OP_STRING);
            o.input = in; o.free_t = r.chance(1, 3);
            if (!final && r.chance(1, 3)) hard_fault(s, r, i, -1, s.inputs[in].size(), W_MEM);
        }
    }
    for (size_t i = 0; i < s.faults.size();) { // inputs stay what they are; no reference run to aim with
        Fault &f = s.faults[i];
        if (f.kind == F_SHRINK) { s.faults.erase(s.faults.begin() + i); continue; }
        if (f.rel >= 0) { f.rel = -1; f.nth = 1 + r.below(f.kind == F_ALLOC || f.kind == F_ALLOC_FROM ? 1400 : 4); }
        i++;
    }
    return s;
}

// more than 2^24 bytes that cost little: few runs
static Bytes few_runs(Rng &r) {
    Bytes b;
    size_t n = 16777200 + r.below(r.chance(1, 3) ? 40 : 3000000);
    int k = 1 + r.below(r.chance(1, 2) ? 2 : 6), c = r.below(256);
    for (int i = 0; i < k; i++) { put_run(b, c, i + 1 == k ? n - std::min(n, b.size()) : n / k + r.below(7)); c = (c + 1 + r.below(255)) & 255; }
    b.resize(n, c);
    return b;
}
static Bytes large_text(Rng &r, int flags) {
    Bytes b;
    if (r.chance(1, 20)) return few_runs(r);
    if (r.chance(1, 6)) return placed_row(r, true);
    size_t n = (flags & 1) && r.chance(1, 12) ? 17000000 + r.below(18000000) : (flags & 1) && r.chance(1, 3) ? 600000 + r.below(3000000) : r.chance(1, 12) ? 1000000 + r.below(4000000) : 66000 + r.below(500000);
    int k = r.pick<int>({2, 3, 4, 20, 100, 256}), base = r.below(257 - k);
    switch (r.below(8)) {
    case 7: b = alike_text(r, n); break;
    case 0: case 1: b = uniform(r, n, k, base); break;
    case 2: // one substring longer than 2^16 (2^24 when it fits), between others
        b = uniform(r, 1 + r.below(5000), 3, 40);
        put_valley(r, b, n > 20000000 && r.chance(1, 2) ? 16777214 + r.below(5) : 65534 + r.below(5), 10, 20, 30, r.below(4));
        while (b.size() < n) put_valley(r, b, 3 + r.below(400), 10, 20 + r.below(3), 30 + r.below(3), r.below(4));
        break;
    case 3: { Bytes p = uniform(r, 1 + r.below(5000), k, base); while (b.size() < n) b.insert(b.end(), p.begin(), p.end()); break; }
    case 4: while (b.size() < n) put_run(b, base + r.below(k), 1 + r.below(1 + r.below(3000))); break;
    case 5: { // pieces of small texts
        while (b.size() < n) { Bytes t = gen_text(r, 20000); b.insert(b.end(), t.begin(), t.end()); if (r.chance(1, 2)) b.insert(b.end(), t.begin(), t.end()); }
        break;
    }
    default: for (size_t i = 0; i < n; i++) b.push_back(i % 2 ? r.below(125) : 125 + r.below(125)); break;
    }
    clip(b, n, r);
    return b;
}

} // namespace sim
