// Names, text form of scenarios, and which violation classes a property owns.
#include "sim.h"
#include <string.h>
#include <stdlib.h>
#include <sstream>

namespace sim {

const char *fk_name[F_NKINDS] = {
    "alloc", "alloc-from", "alloc-big", "alloc-cap", "open", "seek", "read", "read-eof", "read-short",
    "read-chunk", "shrink", "grow", "write", "write-all", "write-short", "capacity", "close",
    "crash-io", "crash-alloc", "crash-tick"};
bool fk_benign(int k) {
    return k == F_READ_SHORT || k == F_READ_CHUNK || k == F_GROW || k == F_WRITE_SHORT;
}
const char *cls_name[V_NCLS] = {
    "none", "wrong-result", "wrong-output", "spurious-failure", "unreported-failure", "foreign-exception",
    "memory-error", "input-changed", "output-damaged", "handle-leak", "memory-growth", "no-end",
    "buffer-misuse", "status", "model-mismatch", "mismatched-release", "double-release", "stray-file", "cost", "process-state"};
const char *probe_name[P_NPROBES] = {
    "width32", "width40", "width48", "width56", "width64", "realloc_moved", "realloc_in_place",
    "block_reused", "offset_past_2_31", "exact_result_despite_refusal", "same_path_in_and_out", "crash_before_output_opened",
    "crash_after_output_opened", "power_loss_model", "shared_input", "calls_overlapped", "bad_alloc", "runtime_error",
    "invalid_argument", "other_std_exception", "input_over_100k", "global_accesses", "kept_going_after_refusal",
    "request_too_large_for_any_heap", "failed_call_left_memory", "simulated_memory_exhausted_run_abandoned", "input_larger_than_memory", "thread_stalled_until_the_others_could_not_go_on", "scenario_past_2_31_or_2_32"};

static std::string hex(const Bytes &b) {
    static const char *d = "0123456789abcdef";
    std::string s;
    s.reserve(b.size() * 2);
    for (uint8_t c : b) { s += d[c >> 4]; s += d[c & 15]; }
    return s.empty() ? "-" : s;
}
static bool unhex(const std::string &s, Bytes &b) {
    b.clear();
    if (s == "-") return true;
    if (s.size() % 2) return false;
    for (size_t i = 0; i < s.size(); i += 2) {
        auto v = [](char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : -1; };
        int x = v(s[i]), y = v(s[i + 1]);
        if (x < 0 || y < 0) return false;
        b.push_back(x * 16 + y);
    }
    return true;
}
// runs of equal bytes are common: r<count>x<hex byte>
static std::string pack(const Bytes &b) {
    if (b.size() < 4096) return hex(b);
    std::string s;
    size_t i = 0;
    std::string lit;
    while (i < b.size()) {
        size_t j = i;
        while (j < b.size() && b[j] == b[i]) j++;
        if (j - i >= 16) {
            if (!lit.empty()) { s += "h" + lit + ","; lit.clear(); }
            s += "r" + std::to_string(j - i) + "x" + hex(Bytes(1, b[i])) + ",";
        } else
            lit += hex(Bytes(b.begin() + i, b.begin() + j));
        i = j;
    }
    if (!lit.empty()) s += "h" + lit + ",";
    return s;
}
static bool unpack(const std::string &s, Bytes &b) {
    if (s.empty() || (s[0] != 'h' && s[0] != 'r')) return unhex(s, b);
    b.clear();
    size_t i = 0;
    while (i < s.size()) {
        size_t e = s.find(',', i);
        if (e == std::string::npos) return false;
        Bytes t;
        if (s[i] == 'h') { if (!unhex(s.substr(i + 1, e - i - 1), t)) return false; }
        else {
            size_t x = s.find('x', i);
            if (x == std::string::npos || x > e) return false;
            size_t n = strtoull(s.c_str() + i + 1, NULL, 10);
            if (!unhex(s.substr(x + 1, e - x - 1), t) || t.size() != 1 || n > (1u << 30)) return false;
            t.assign(n, t[0]);
        }
        b.insert(b.end(), t.begin(), t.end());
        i = e + 1;
    }
    return true;
}

// paths in replay files: no blanks; "-" is the empty one
static std::string quote(const std::string &p) {
    std::string o;
    char b[4];
    for (unsigned char c : p) {
        if (c > 32 && c < 127 && c != '%') o += c;
        else { snprintf(b, sizeof b, "%%%02x", c); o += b; }
    }
    return o.empty() ? "-" : o;
}
static std::string unquote(const std::string &p) {
    if (p == "-") return "";
    std::string o;
    for (size_t i = 0; i < p.size(); i++) {
        if (p[i] == '%' && i + 2 < p.size()) { o += (char)strtol(p.substr(i + 1, 2).c_str(), NULL, 16); i += 2; }
        else o += p[i];
    }
    return o;
}

std::string to_text(const Scenario &s) {
    std::ostringstream o;
    o << "property " << s.prop << "\nseed " << s.seed << "\n";
    o << "caps " << s.table_size << " " << s.table_block << " " << s.queue_block << " " << s.index_bits << "\n";
    o << "heap " << s.fill << " " << s.reuse << " " << s.move << " " << s.huge << " " << s.spread << " " << s.heap_seed << "\n";
    o << "sched " << s.sched_seed << " " << s.gap << " " << s.call_p << " " << s.explicit_sched << " " << s.crash_seed << " " << s.park_mask << " " << s.park_shift << "\n";
    o << "param";
    for (int64_t p : s.param) o << " " << p;
    o << "\n";
    for (auto &b : s.inputs) o << "input " << pack(b) << "\n";
    for (auto &g : s.giant) o << "giant " << g[0] << " " << g[1] << "\n";
    for (auto &f : s.files) o << "file " << quote(f.path) << " " << f.kind << " " << f.input << " " << f.noread << " " << f.nowrite << " " << f.vsize << " " << quote(f.to) << "\n";
    for (auto &p : s.ops)
        o << "op " << p.kind << " " << p.thread << " " << p.phase << " " << p.input << " " << p.free_t << " "
          << quote(p.in) << " " << quote(p.out) << " " << p.argc << " " << p.bad << "\n";
    for (auto &f : s.faults)
        o << "fault " << f.op << " " << fk_name[f.kind] << " " << f.nth << " " << f.rel << " " << f.ref << " " << f.arg << " " << f.err << "\n";
    for (auto &x : s.switches) o << "switch " << x[0] << " " << x[1] << "\n";
    for (auto &x : s.seq) o << "seq " << x[0] << " " << x[1] << " " << x[2] << "\n";
    return o.str();
}
bool from_text(const std::string &t, Scenario &s, std::string &err) {
    s = Scenario();
    std::istringstream in(t);
    std::string line;
    int ln = 0;
    while (std::getline(in, line)) {
        ln++;
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        std::string k;
        l >> k;
        bool ok = true;
        if (k == "property") l >> s.prop;
        else if (k == "seed") l >> s.seed;
        else if (k == "caps") l >> s.table_size >> s.table_block >> s.queue_block >> s.index_bits;
        else if (k == "heap") l >> s.fill >> s.reuse >> s.move >> s.huge >> s.spread >> s.heap_seed;
        else if (k == "sched") {
            l >> s.sched_seed >> s.gap >> s.call_p >> s.explicit_sched >> s.crash_seed;
            if (!(l >> s.park_mask >> s.park_shift)) { s.park_mask = s.park_shift = 0; l.clear(); }
        }
        else if (k == "param") { for (int64_t &p : s.param) l >> p; }
        else if (k == "input") { std::string h; l >> h; Bytes b; ok = unpack(h, b); s.inputs.push_back(b); }
        else if (k == "file") { File f; l >> f.path >> f.kind >> f.input >> f.noread >> f.nowrite; if (!(l >> f.vsize)) { f.vsize = 0; l.clear(); } if (!(l >> f.to)) l.clear(); f.path = unquote(f.path); f.to = unquote(f.to); s.files.push_back(f); }
        else if (k == "op") {
            Op p;
            l >> p.kind >> p.thread >> p.phase >> p.input >> p.free_t >> p.in >> p.out >> p.argc >> p.bad;
            p.in = unquote(p.in); p.out = unquote(p.out);
            s.ops.push_back(p);
        } else if (k == "fault") {
            Fault f;
            std::string n;
            l >> f.op >> n >> f.nth >> f.rel >> f.ref >> f.arg >> f.err;
            ok = false;
            for (int i = 0; i < F_NKINDS; i++) if (n == fk_name[i]) { f.kind = i; ok = true; }
            s.faults.push_back(f);
        } else if (k == "switch") { std::array<int64_t, 2> x; l >> x[0] >> x[1]; s.switches.push_back(x); }
        else if (k == "seq") { std::array<int64_t, 3> x; l >> x[0] >> x[1] >> x[2]; s.seq.push_back(x); }
        else if (k == "giant") { std::array<int64_t, 2> x; l >> x[0] >> x[1]; s.giant.push_back(x); }
        else if (k == "class" || k == "hash" || k == "text" || k == "binary") {}
        else ok = false;
        if (!ok || l.fail()) { err = "line " + std::to_string(ln) + ": " + line.substr(0, 80); return false; }
    }
    return true;
}

bool wanted(const Scenario &s, int c, bool faulted) {
    const std::string &p = s.prop;
    bool mem = c == V_MEMORY || c == V_DOUBLE, wrong = c == V_WRONG_RESULT || c == V_WRONG_OUTPUT || c == V_SPURIOUS;
    bool bad = mem || c == V_EXCEPTION || c == V_HANG;
    if (p == "C01") return c == V_WRONG_OUTPUT || c == V_UNREPORTED || c == V_SPURIOUS || (bad && !faulted);
    if (p == "C02") return c == V_UNREPORTED || c == V_HANDLE_LEAK || c == V_STRAY || c == V_LEAK || ((bad || c == V_MISFREE || c == V_BUFFER) && faulted);
    if (p == "C03") return c == V_INPUT_CHANGED || c == V_OUTPUT_DAMAGED;
    if (p == "C04") return c == V_INPUT_CHANGED || c == V_OUTPUT_DAMAGED || (res->phase == 1 && (wrong || bad || c == V_UNREPORTED));
    if (p == "C05" || p == "C06" || p == "C07" || p == "C13") return wrong || bad || c == V_UNREPORTED;
    if (p == "C08") return faulted && (wrong || bad || c == V_UNREPORTED || c == V_HANDLE_LEAK || c == V_BUFFER);
    if (p == "C09") return c == V_BUFFER || (res->badarg && (c == V_UNREPORTED || bad));
    if (p == "C10") return c == V_LEAK || c == V_MISFREE || c == V_DOUBLE || c == V_BUFFER;
    if (p == "C11") return c == V_STATUS;
    if (p == "C12") return c == V_HANG;
    if (p == "C19") return c == V_COST || (c == V_HANG && !faulted);
    if (p == "C20") return c == V_STATE || c == V_HANDLE_LEAK || c == V_STRAY || c == V_INPUT_CHANGED;
    return c == V_MODEL || c == V_MISFREE || c == V_LEAK || c == V_BUFFER || bad || wrong; // C14 to C18
}

uint64_t giant_size(const Scenario &s) { uint64_t n = 0; for (auto &g : s.giant) n += g[1]; return n; }
uint64_t step_budget(const Scenario &s, const Op &o) {
    if (o.kind >= OP_GIANT) return 50000000ull + 2000ull * giant_size(s);
    uint64_t n = o.input >= 0 && o.input < (int)s.inputs.size() ? s.inputs[o.input].size() : 0;
    uint64_t buckets = s.table_size ? s.table_size : 67777;
    for (auto &f : s.files) if (f.path == o.in && f.vsize) n += 1000000;
    return 50000000ull + 2000ull * n + (uint64_t)(40.0 * n * n / buckets);
}
} // namespace sim
