// Independent judgement of transforms.
#include "sim.h"
#include <string.h>
#include <algorithm>

namespace sim {

// (last, col) is the transform of T exactly when the LF walk from row 0 visits
// every row once, ends at row `last`, and spells T backwards.
static bool lf_check(uint64_t last, const uint8_t *col, bool gap, uint64_t n, const uint8_t *T, std::string &why) {
    // gap: col has n entries, row `last` omitted; else n+1 entries
    char b[160];
    if (last > n) {
        snprintf(b, sizeof b, "row index %llu of a text of %llu bytes", (unsigned long long)last, (unsigned long long)n);
        why = b;
        return false;
    }
    if (last == 0) { why = "row index 0 (the end marker cannot be in row 0)"; return false; }
    auto at = [&](uint64_t r) { return gap && r > last ? col[r - 1] : col[r]; };
    uint64_t start[257];
    memset(start, 0, sizeof start);
    for (uint64_t r = 0; r <= n; r++) if (r != last) start[at(r) + 1]++;
    uint64_t want[256];
    memset(want, 0, sizeof want);
    for (uint64_t i = 0; i < n; i++) want[T[i]]++;
    for (int c = 0; c < 256; c++) if (want[c] != start[c + 1]) {
        snprintf(b, sizeof b, "byte %d occurs %llu times in the column, %llu times in the text", c, (unsigned long long)start[c + 1], (unsigned long long)want[c]);
        why = b;
        return false;
    }
    start[0] = 1; // row 0 starts with the end marker
    for (int c = 1; c < 257; c++) start[c] += start[c - 1];
    std::vector<uint32_t> occ(n + 1);
    uint64_t cnt[256];
    memset(cnt, 0, sizeof cnt);
    for (uint64_t r = 0; r <= n; r++) if (r != last) occ[r] = cnt[at(r)]++;
    uint64_t row = 0;
    for (uint64_t i = n; i-- > 0;) {
        if (row == last) {
            snprintf(b, sizeof b, "the inverse transform ends %llu bytes early", (unsigned long long)(i + 1));
            why = b;
            return false;
        }
        uint8_t c = at(row);
        if (c != T[i]) {
            snprintf(b, sizeof b, "the inverse transform gives %d, not %d, at byte %llu of %llu", c, T[i], (unsigned long long)i, (unsigned long long)n);
            why = b;
            return false;
        }
        row = start[c] + occ[row];
    }
    if (row != last) { why = "the inverse transform does not end at the row index"; return false; }
    return true;
}
void naive_bwt(const Bytes &t, uint64_t &last, Bytes &col) {
    size_t n = t.size();
    std::vector<uint32_t> sa(n + 1);
    for (size_t i = 0; i <= n; i++) sa[i] = i;
    std::sort(sa.begin(), sa.end(), [&](uint32_t a, uint32_t b) {
        if (a == b) return false;
        size_t m = n - std::max(a, b);
        int c = m ? memcmp(t.data() + a, t.data() + b, m) : 0;
        if (c) return c < 0;
        return a > b; // the shorter one meets the end marker first
    });
    col.resize(n + 1);
    for (size_t i = 0; i <= n; i++) {
        if (sa[i] == 0) { last = i; col[i] = 0; } else col[i] = t[sa[i] - 1];
    }
}
// the column of a text of few runs: the same walk, over the runs of the column
bool check_runs(uint64_t last, const Runs &column, const Runs &runs, std::string &why) { // column: without the row at the index
    char b[200];
    uint64_t n = 0;
    for (auto &g : runs) n += g[1];
    if (last > n) { why = "row index " + std::to_string(last) + " is past the column"; return false; }
    struct R { uint64_t at, rank; uint8_t c; };
    std::vector<R> col;
    uint64_t count[256] = {0}, first[256], at = 0;
    for (auto &g : column) {
        uint64_t l = g[1];
        if (at <= last && last < at + l) { // split around the row of the text
            if (last > at) col.push_back({at, count[g[0]], (uint8_t)g[0]});
            count[g[0]] += last - at;
            l -= last - at;
            at = last + 1;
        } else if (at == last) at++;
        col.push_back({at, count[g[0]], (uint8_t)g[0]});
        count[g[0]] += l;
        at += l;
    }
    uint64_t want[256] = {0}, sum = 1;
    for (auto &g : runs) want[g[0]] += g[1];
    for (int c = 0; c < 256; c++) {
        if (count[c] != want[c]) { snprintf(b, sizeof b, "byte %d occurs %llu times in the column, %llu times in the text", c, (unsigned long long)count[c], (unsigned long long)want[c]); why = b; return false; }
        first[c] = sum; sum += count[c];
    }
    uint64_t row = 0, i = n;
    size_t k = 0;
    for (size_t g = runs.size(); g-- > 0;)
        for (int64_t left = runs[g][1]; left > 0; left--, i--) {
            if (row == last) { snprintf(b, sizeof b, "the walk ends %llu bytes too early", (unsigned long long)i); why = b; return false; }
            if (!(col[k].at <= row && (k + 1 == col.size() || row < col[k + 1].at))) {
                size_t lo = 0, hi = col.size();
                while (hi - lo > 1) { size_t m = (lo + hi) / 2; if (col[m].at <= row) lo = m; else hi = m; }
                k = lo;
            }
            if (col[k].c != (uint8_t)runs[g][0]) { snprintf(b, sizeof b, "byte %llu of the text comes back as %d instead of %d", (unsigned long long)(i - 1), col[k].c, (int)runs[g][0]); why = b; return false; }
            row = first[col[k].c] + col[k].rank + (row - col[k].at);
        }
    if (row != last) { why = "the row index is not the row of the text"; return false; }
    return true;
}
bool add_runs(Runs &r, const uint8_t *p, uint64_t n) {
    for (uint64_t i = 0; i < n;) {
        uint64_t j = i + 1, same = p[i] * 0x0101010101010101ull, x;
        while (j + 8 <= n && (memcpy(&x, p + j, 8), x == same)) j += 8;
        while (j < n && p[j] == p[i]) j++;
        if (!r.empty() && r.back()[0] == p[i]) r.back()[1] += j - i;
        else { if (r.size() > 1000000) return false; r.push_back({{p[i], (int64_t)(j - i)}}); }
        i = j;
    }
    return true;
}
bool check_giant(const BwtView &v, const Runs &runs, std::string &why) {
    Runs c;
    if (v.last > v.n) { why = "row index " + std::to_string(v.last) + " is past the column"; return false; }
    if (!add_runs(c, v.col, v.last) || !add_runs(c, v.col + v.last + 1, v.n - v.last)) { why = "the column has more than 1000000 runs"; return false; }
    return check_runs(v.last, c, runs, why);
}
bool check_bwt(const BwtView &v, const uint8_t *T, std::string &why) {
    res->checks++;
    if (!lf_check(v.last, v.col, false, v.n, T, why)) return false;
    if (v.n <= 300) {
        uint64_t last = 0;
        Bytes col;
        naive_bwt(Bytes(T, T + v.n), last, col);
        if (last != v.last) { why = "row index differs from the sorted rotations"; return false; }
        for (uint64_t i = 0; i <= v.n; i++) if (i != last && col[i] != v.col[i]) { why = "column differs from the sorted rotations"; return false; }
    }
    return true;
}
bool check_file(const Bytes &out, const Bytes &in, std::string &why) {
    res->checks++;
    char b[160];
    if (out.size() != in.size() + 8) {
        snprintf(b, sizeof b, "output of %zu bytes for an input of %zu bytes", out.size(), in.size());
        why = b;
        return false;
    }
    uint64_t last = 0;
    for (int i = 0; i < 8; i++) last = last << 8 | out[i];
    if (!lf_check(last, out.data() + 8, true, in.size(), in.data(), why)) return false;
    if (in.size() <= 300 && !in.empty() && out != encode_file(in)) { why = "output differs from the sorted rotations"; return false; }
    return true;
}
Bytes encode_file(const Bytes &in) {
    uint64_t last = 0;
    Bytes col, o;
    naive_bwt(in, last, col);
    for (int i = 7; i >= 0; i--) o.push_back(last >> (8 * i));
    for (size_t i = 0; i < col.size(); i++) if (i != last) o.push_back(col[i]);
    return o;
}

} // namespace sim
