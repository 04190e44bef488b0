// The substring table.
// param[0] 0: histories against a set.  param[1] buckets, param[2] text length given to the table.
//   inputs: the strings.  seq: {0 insert | 1 look up, string, refusal} {2, slack of new blocks from here on, 0}
// param[0] 1: extraction, sorting, naming and shortening of the text in inputs[0];
//   param[3]: refusal in extraction, param[4]: in sorting, param[5]: in shortening
#include "ops_part.h"
#include "flbwt.hpp"
#include "hashtable.hpp"
#include "packed_array.hpp"
#include <set>
#include <map>
#include <new>
#include <stdlib.h>
#include <string.h>

namespace sim {

static void history(Scenario &s) {
    bool refused;
    int id = 0;
    alignas(16) unsigned char mem[sizeof(flbwt::HashTable)];
    memset(mem, s.fill == 1 ? 0xff : s.fill == 0 ? 0 : 0x5a, sizeof mem);
    flbwt::HashTable *t = NULL;
    std::string what;
    std::vector<const uint8_t *> str;
    for (auto &b : s.inputs) str.push_back(ro_buffer(b));
    uint64_t base = heap_live_count();
    Ending e = part_call(id++, 0, [&] { t = new (mem) flbwt::HashTable((uint64_t)s.param[1], (uint64_t)s.param[2]); }, &refused, &what);
    if (e != E_RETURNED) violation(V_MODEL, "making the table failed (%s) though memory was available", what.c_str());
    std::set<Bytes> model;
    auto lookup = [&](int k, size_t i, int64_t fail) {
        const Bytes &b = s.inputs[i];
        Ending e = part_call(id++, fail, [&] { (void)t->find_name(b.size(), (uint8_t *)str[i]); }, &refused, &what);
        bool in = model.count(b);
        if ((e == E_RETURNED) != in && !refused)
            soft(V_MODEL, "step %d: looking up a string of %zu bytes that was %sinserted %s", k, b.size(), in ? "" : "never ", e == E_RETURNED ? "succeeded" : "failed");
    };
    int k = 0;
    for (auto &st : s.seq) {
        if (st[0] == 2) { t->HBSIZE = st[1] < 20 ? 20 : st[1]; k++; continue; }
        size_t i = (size_t)st[1] % s.inputs.size();
        const Bytes &b = s.inputs[i];
        if (b.size() < 3) { k++; continue; }
        res->checks++;
        if (st[0] == 1) { lookup(k, i, st[2]); k++; continue; }
        int r = -1;
        Ending e = part_call(id++, st[2], [&] { r = t->insert_string(b.size(), (uint8_t *)str[i]); }, &refused, &what);
        bool in = model.count(b);
        if (e == E_RETURNED) {
            if ((r != 0) != !in) soft(V_MODEL, "step %d: inserting a string of %zu bytes %s said %s", k, b.size(), in ? "for the second time" : "for the first time", r ? "new" : "known");
            model.insert(b);
        } else if (!refused)
            soft(V_MODEL, "step %d: insertion failed (%s) though memory was available", k, what.c_str());
        k++;
    }
    for (size_t i = 0; i < s.inputs.size(); i++) if (s.inputs[i].size() >= 3) lookup(k, i, 0);
    part_call(id++, 0, [&] { t->~HashTable(); }, &refused);
    if (heap_live_count() != base) soft(V_LEAK, "the table is gone but %llu blocks are not", (unsigned long long)(heap_live_count() - base));
}

static void pipeline(Scenario &s) {
    const Bytes &in = s.inputs[0];
    size_t n = in.size();
    if (n < 1) return;
    uint8_t *T = const_cast<uint8_t *>(ro_buffer(in));
    bool refused;
    std::string what;
    s.param[7] = 1;
    // the substrings, right to left: each starts and ends at a byte that is
    // smaller than the one before it (plateaus count by their first byte) and not larger than what follows
    std::vector<bool> small(n + 1); // smaller type
    small[n] = true;
    for (size_t i = n; i-- > 0;) small[i] = i + 1 < n ? in[i] < in[i + 1] || (in[i] == in[i + 1] && small[i + 1]) : false;
    std::vector<size_t> starts;
    for (size_t i = 1; i < n; i++) if (small[i] && !small[i - 1]) starts.push_back(i);
    std::vector<Bytes> subs; // in text order
    Bytes z = in;
    z.push_back(0);
    for (size_t k = 0; k < starts.size(); k++) {
        size_t e = k + 1 < starts.size() ? starts[k + 1] : n;
        subs.push_back(Bytes(z.begin() + starts[k], z.begin() + e + 1));
    }
    auto before = [](const Bytes &a, const Bytes &b) { // a longer string comes before its own prefix
        size_t m = std::min(a.size(), b.size());
        int c = memcmp(a.data(), b.data(), m);
        return c ? c < 0 : a.size() > b.size();
    };
    std::set<Bytes, decltype(before)> uniq(before);
    for (auto &x : subs) uniq.insert(x);
    std::map<Bytes, uint64_t> name;
    uint64_t next = 0;
    for (auto &x : uniq) name[x] = ++next;

    flbwt::Container *c = NULL;
    Ending e = part_call(0, s.param[3], [&] { c = flbwt::extract_LMS_strings(T, n); }, &refused, &what);
    if (e != E_RETURNED) { if (!refused) soft(V_MODEL, "extraction failed (%s) though memory was available", what.c_str()); return; }
    res->checks++;
    if (c->num_of_substrings != subs.size()) soft(V_MODEL, "%llu substrings counted, there are %zu", (unsigned long long)c->num_of_substrings, subs.size());
    if (c->num_of_unique_substrings != uniq.size()) soft(V_MODEL, "%llu different substrings counted, there are %zu", (unsigned long long)c->num_of_unique_substrings, uniq.size());
    size_t head = starts.empty() ? n : starts[0];
    if (c->head_string_end != head) soft(V_MODEL, "the head string ends at %llu, not at %zu", (unsigned long long)c->head_string_end, head);
    uint8_t **S = NULL;
    e = part_call(1, s.param[4], [&] { S = flbwt::sort_LMS_strings(T, c); }, &refused, &what);
    if (e != E_RETURNED) { if (!refused) soft(V_MODEL, "sorting failed (%s) though memory was available", what.c_str()); return; }
    uint64_t k = 1;
    for (auto &x : uniq) {
        uint64_t l = 0, nm = 0;
        uint8_t *p = NULL;
        part_call(2, 0, [&] { l = c->hashtable->get_length(S[k]); nm = c->hashtable->get_name(S[k]); p = c->hashtable->get_first_character_pointer(S[k]); }, &refused);
        if (l != x.size()) { soft(V_MODEL, "substring %llu in order has %llu bytes, not %zu", (unsigned long long)k, (unsigned long long)l, x.size()); break; }
        if (memcmp(p, x.data(), l)) { soft(V_MODEL, "substring %llu in order has other bytes", (unsigned long long)k); break; }
        if (nm != k) { soft(V_MODEL, "substring %llu in order is named %llu", (unsigned long long)k, (unsigned long long)nm); break; }
        uint64_t f = 0;
        const uint8_t *b = ro_buffer(x);
        part_call(3, 0, [&] { f = c->hashtable->find_name(x.size(), (uint8_t *)b); }, &refused);
        if (f != k) { soft(V_MODEL, "looking up substring %llu gives name %llu", (unsigned long long)k, (unsigned long long)f); break; }
        if (k > 60 && x.size() > 1) { /* ro buffers are pages: sample */ }
        if (++k > 400) break;
    }
    flbwt::PackedArray *T1 = NULL;
    e = part_call(4, s.param[5], [&] { T1 = flbwt::create_shortened_string(T, n, c); }, &refused, &what);
    if (e != E_RETURNED) { if (!refused) soft(V_MODEL, "shortening failed (%s) though memory was available", what.c_str()); return; }
    uint64_t v = 0;
    part_call(5, 0, [&] { v = T1->get_value(0); }, &refused);
    if (v != uniq.size() + 1) soft(V_MODEL, "the shortened text starts with %llu, not %zu", (unsigned long long)v, uniq.size() + 1);
    for (size_t i = 0; i < subs.size(); i++) {
        part_call(6, 0, [&] { v = T1->get_value(i + 1); }, &refused);
        if (v != name[subs[i]]) { soft(V_MODEL, "place %zu of the shortened text holds %llu instead of %llu", i + 1, (unsigned long long)v, (unsigned long long)name[subs[i]]); break; }
    }
    part_call(7, 0, [&] { v = T1->get_value(subs.size() + 1); }, &refused);
    if (v != 0) soft(V_MODEL, "the shortened text ends with %llu", (unsigned long long)v);
    part_call(8, 0, [&] { free(S); delete T1; delete c; }, &refused);
    s.param[7] = 0;
}

void part(Scenario &s) {
    if (s.param[0] == 0) history(s); else pipeline(s);
}
}
