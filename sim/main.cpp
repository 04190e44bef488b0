// Runs scenarios in fresh processes, minimises violations, writes results.
#include "sim.h"
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <alloca.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <fstream>
#include <sstream>
#include <set>
#include <functional>
#include <algorithm>

namespace flbwt { extern uint64_t sim_table_size, sim_table_block, sim_queue_block, sim_index_bits; }

namespace sim {

void soft(int cls, const char *fmt, ...) {
    char b[1200];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    res->soft[cls]++;
    log_event(0x50f7, cls);
    if (wanted(*scn, cls, res->faulted)) violation(cls, "%s", b);
}

__attribute__((noinline, no_sanitize("address"))) void scrub_stack() {
    size_t n = 64 << 10;
    volatile uint8_t *p = (volatile uint8_t *)alloca(n);
    static const uint8_t v[] = {0, 0xff, 0x5b, 2};
    for (size_t i = 0; i < n; i++) p[i] = v[scn->fill & 3];
}

static int wall_limit = 150;

void run_scenario(Scenario &s, int phase) { // in the child
    scn = &s;
    res->phase = phase;
    install_handlers();
    install_asan();
    flbwt::sim_table_size = s.table_size;
    flbwt::sim_table_block = s.table_block;
    flbwt::sim_queue_block = s.queue_block;
    flbwt::sim_index_bits = s.index_bits;
    heap_init();
    if (phase == 0) disk_init(s); else disk_load();
    size_t n = 0;
    for (auto &b : s.inputs) n += b.size();
    alarm(wall_limit + n / 100000 + giant_size(s) / 2000000); // a wide safety net: the step budget decides first
    workload(s, phase);
    finish();
}

static bool verbose;
struct Run { bool viol, other; int cls; std::string text; uint64_t hash; std::string error; Res r; };

extern "C" void *__libc_stack_end;
static char *environ_end() { // the kernel counts the strings of the environment as stack
    char *e = (char *)__libc_stack_end;
    for (char **p = ::environ; p && *p; p++) if (*p > e && *p < (char *)__libc_stack_end + (8 << 20)) e = *p + strlen(*p);
    return e;
}

static void one_child(const Scenario &s, int phase) {
    fflush(NULL);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(4); }
    if (pid == 0) {
        if (!verbose) {
            int n = open("/dev/null", O_RDWR);
            dup2(n, 1); dup2(n, 2);
        }
        struct rlimit rl; // as much stack as a thread may have on a small system, whatever the input
        getrlimit(RLIMIT_STACK, &rl);
        uintptr_t top = std::max<uintptr_t>((uintptr_t)__libc_stack_end, (uintptr_t)environ_end());
        rl.rlim_cur = top - (uintptr_t)__builtin_frame_address(0) + STACK_BYTES;
        setrlimit(RLIMIT_STACK, &rl);
        Scenario c = s;
        run_scenario(c, phase);
        _exit(0);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!res->done) {
        res->done = 2;
        if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { snprintf(res->text, sizeof res->text, "simulator failure"); res->done = 4; }
        else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { snprintf(res->text, sizeof res->text, "the run was killed"); res->done = 4; }
        else {
            res->cls = V_MEMORY;
            snprintf(res->text, sizeof res->text, "the process ended unexpectedly (%s %d)", WIFEXITED(st) ? "exit" : "signal", WIFEXITED(st) ? WEXITSTATUS(st) : WTERMSIG(st));
            res->viol = wanted(s, V_MEMORY, res->faulted);
            res->other = !res->viol;
            res->done = 1;
        }
    }
}
static void merge(Res &a, const Res &b) { // b: phase 1
    Res t = b;
    for (int i = 0; i < F_NKINDS; i++) { t.fired[i] += a.fired[i]; t.planned[i] += a.planned[i]; }
    for (int i = 0; i < P_NPROBES; i++) t.probes[i] += a.probes[i];
    for (int i = 0; i < 32; i++) t.soft[i] += a.soft[i];
    t.ticks += a.ticks; t.switches += a.switches; t.allocs += a.allocs; t.ios += a.ios;
    t.ops_ok += a.ops_ok; t.ops_exc += a.ops_exc; t.checks += a.checks;
    memcpy(t.resolved, a.resolved, sizeof t.resolved);
    t.crashed = 1; t.hash = mix(a.hash, b.hash);
    a = t;
}
static Run raw_run(const Scenario &s) {
    memset(res, 0, sizeof *res);
    one_child(s, 0);
    Res r = *res;
    if (r.done == 1 && r.crashed && !r.viol) {
        int cc = r.crash_computing, co = r.crash_op;
        uint64_t len = r.image_len;
        memset(res, 0, sizeof *res);
        res->crash_computing = cc; res->crash_op = co; res->image_len = len; res->faulted = 1;
        one_child(s, 1);
        merge(r, *res);
    }
    Run o;
    o.r = r;
    o.viol = r.viol; o.other = r.other; o.cls = r.cls; o.text = r.text; o.hash = r.hash;
    if (r.done == 4) o.error = r.text;
    return o;
}
static Scenario without_ops(const Scenario &s, const std::vector<bool> &drop) {
    Scenario t = s;
    std::vector<int> map(s.ops.size(), -1);
    t.ops.clear(); t.faults.clear();
    for (size_t i = 0; i < s.ops.size(); i++) if (!drop[i]) { map[i] = t.ops.size(); t.ops.push_back(s.ops[i]); }
    for (auto f : s.faults) {
        if (f.op < 0 || f.op >= (int)map.size() || map[f.op] < 0) continue;
        f.op = map[f.op];
        if (f.ref >= 0) f.ref = f.ref < (int)map.size() ? map[f.ref] : -1;
        t.faults.push_back(f);
    }
    return t;
}
static void absolute(Scenario &s, const Res &r) {
    for (size_t k = 0; k < s.faults.size() && k < 64; k++)
        if (s.faults[k].rel >= 0 && r.resolved[k] > 0) { s.faults[k].nth = r.resolved[k]; s.faults[k].rel = -1; }
}
// a run, and for properties about interference the same calls without it
static Run run(const Scenario &s) {
    Run o = raw_run(s);
    if (!o.viol || !o.error.empty()) return o;
    if (s.prop == "C07") {
        Scenario t = s;
        absolute(t, o.r);
        for (size_t i = 0; i < t.ops.size(); i++) { t.ops[i].phase = i; t.ops[i].thread = 0; }
        t.switches.clear(); t.gap = 0; t.call_p = 0; t.park_mask = 0;
        if (o.cls != V_HANG || o.r.probes[P_OVERLAP]) {
            Run q = raw_run(t);
            if (q.viol) { o.viol = false; o.other = true; }
        }
    } else if (s.prop == "C13") {
        if (o.r.viol_op < 0 || o.r.viol_op >= (int)s.ops.size()) return o;
        Scenario t = s;
        absolute(t, o.r);
        std::vector<bool> drop(s.ops.size(), true);
        drop[o.r.viol_op] = false;
        t = without_ops(t, drop);
        Run q = raw_run(t);
        if (q.viol) { o.viol = false; o.other = true; }
    }
    return o;
}

// ------------------------------------------------------------ minimisation
static int evals_left;
static double stop_at;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static bool still(const Scenario &t, int cls) {
    if (evals_left <= 0 || now() > stop_at) return false;
    evals_left--;
    Run o = run(t);
    return o.viol && o.cls == cls;
}
template <class V> static void ddmin(V &v, const std::function<bool(const V &)> &ok) {
    size_t chunk = v.size() / 2;
    while (chunk >= 1) {
        bool any = false;
        for (size_t i = 0; i < v.size();) {
            if (evals_left <= 0 || now() > stop_at) return;
            V t(v.begin(), v.begin() + i);
            t.insert(t.end(), v.begin() + std::min(v.size(), i + chunk), v.end());
            if (t.size() < v.size() && ok(t)) { v = t; any = true; } else i += chunk;
        }
        if (!any || chunk == 1) { if (chunk == 1) break; chunk /= 2; }
        else if (chunk > v.size()) chunk = v.size() / 2;
    }
}
static Scenario shrink(Scenario s, const Run &first, double seconds) {
    int cls = first.cls;
    if (!s.giant.empty()) return s;
    evals_left = 500;
    stop_at = now() + seconds;
    Scenario t = s;
    absolute(t, first.r);
    if (still(t, cls)) s = t;
    for (int round = 0; round < 2; round++) {
        for (size_t i = s.faults.size(); i-- > 0;) { t = s; t.faults.erase(t.faults.begin() + i); if (still(t, cls)) s = t; }
        for (size_t i = s.ops.size(); i-- > 0;) {
            if (s.ops.size() == 1) break;
            std::vector<bool> d(s.ops.size(), false);
            d[i] = true;
            t = without_ops(s, d);
            if (still(t, cls)) s = t;
        }
        if (s.table_size) { t = s; t.table_size = 0; if (still(t, cls)) s = t; }
        if (s.table_block && !s.huge) { t = s; t.table_block = 0; if (still(t, cls)) s = t; }
        if (s.queue_block) { t = s; t.queue_block = 0; if (still(t, cls)) s = t; }
        if (s.index_bits) { t = s; t.index_bits = 0; if (still(t, cls)) s = t; }
        if (s.fill) { t = s; t.fill = 0; if (still(t, cls)) s = t; }
        if (s.reuse) { t = s; t.reuse = 0; if (still(t, cls)) s = t; }
        if (s.move) { t = s; t.move = 0; if (still(t, cls)) s = t; }
        if (s.spread) { t = s; t.spread = 0; if (still(t, cls)) s = t; }
        if (!s.seq.empty()) ddmin<decltype(s.seq)>(s.seq, [&](const decltype(s.seq) &v) { Scenario q = s; q.seq = v; return still(q, cls); });
        for (size_t k = 0; k < s.inputs.size(); k++) {
            if (s.inputs[k].empty()) continue;
            bool used = false;
            for (auto &o : s.ops) used |= o.input == (int)k;
            for (auto &f : s.files) used |= f.input == (int)k;
            if (!used && s.prop < "C14") { s.inputs[k].clear(); continue; }
            ddmin<Bytes>(s.inputs[k], [&](const Bytes &v) { if (v.empty()) return false; Scenario q = s; q.inputs[k] = v; return still(q, cls); });
        }
        if (round == 0) continue;
        for (size_t k = 0; k < s.inputs.size(); k++) { // simpler bytes
            std::set<uint8_t> vals(s.inputs[k].begin(), s.inputs[k].end());
            uint8_t next = 'a';
            if (vals.size() > 20) continue;
            t = s;
            for (uint8_t v : vals) { for (size_t i = 0; i < s.inputs[k].size(); i++) if (s.inputs[k][i] == v) t.inputs[k][i] = next; next++; }
            if (t.inputs[k] != s.inputs[k] && still(t, cls)) s = t;
        }
    }
    bool threads = false;
    for (auto &o : s.ops) threads |= o.thread > 0;
    if (threads && !s.explicit_sched) {
        Run o = run(s);
        if (o.viol && o.r.nrec < 4096) {
            t = s;
            t.explicit_sched = true;
            t.switches.clear();
            for (uint32_t i = 0; i < o.r.nrec; i++) t.switches.push_back({{o.r.rec[i][0], o.r.rec[i][1]}});
            evals_left += 200; stop_at += 15;
            if (still(t, cls)) {
                s = t;
                ddmin<decltype(s.switches)>(s.switches, [&](const decltype(s.switches) &v) { Scenario q = s; q.switches = v; return still(q, cls); });
            }
        }
    }
    return s;
}

// ------------------------------------------------------------------ modes
static std::string js(const std::string &t) {
    std::string o = "\"";
    for (char c : t) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", (unsigned char)c); o += b; }
        else o += c;
    }
    return o + "\"";
}
static std::string hex16(uint64_t h) { char b[20]; snprintf(b, sizeof b, "%016llx", (unsigned long long)h); return b; }
static std::string describe(const Scenario &s, const Run &o, uint64_t index) {
    std::ostringstream d;
    d << "index " << index << " seed " << hex16(s.seed) << ": ";
    static const char *kinds[] = {"string", "file", "program", "bad-arguments", "giant string", "giant file"};
    size_t k = 0;
    for (auto &p : s.ops) { if (k++ == 6) { d << "... "; break; } d << kinds[p.kind] << "(" << (p.kind >= OP_GIANT ? giant_size(s) : p.input < (int)s.inputs.size() ? s.inputs[p.input].size() : 0) << " bytes"; if (p.thread) d << ", thread " << p.thread; d << ") "; }
    if (!s.seq.empty()) d << s.seq.size() << " component steps ";
    for (auto &f : s.faults) d << "fault " << fk_name[f.kind] << "@op" << f.op << " ";
    d << "caps " << s.table_size << "/" << s.table_block << "/" << s.queue_block << "/" << s.index_bits << " heap fill" << s.fill << " reuse" << s.reuse << " move" << s.move;
    if (s.gap || s.call_p || s.park_mask) d << " schedule gap " << s.gap << " call " << s.call_p << " stalls " << s.park_mask << "/" << s.park_shift;
    d << " -> " << o.r.ops_ok << " ok " << o.r.ops_exc << " failed, " << o.r.switches << " switches, " << o.r.ticks << " steps, log " << hex16(o.hash);
    return d.str();
}

static int work(int argc, char **argv) {
    // work PROP SEED FLAGS FROM STRIDE COUNT SECONDS PREFIX DET_EVERY
    // SIM_STOP: ends the search when this file exists; SIM_KNOWN: lines class<TAB>text of known findings
    if (argc < 11) return 2;
    std::string prop = argv[2], prefix = argv[9];
    uint64_t seed = strtoull(argv[3], 0, 10), from = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10), count = strtoull(argv[7], 0, 10);
    int flags = atoi(argv[4]);
    double limit = now() + atof(argv[8]);
    uint64_t det = strtoull(argv[10], 0, 10);
    uint64_t runs = 0, repeats = 0, mismatches = 0, nviol = 0, other = 0, ticks = 0, switches = 0, allocs = 0, ios = 0, ok = 0, exc = 0, checks = 0, crashed = 0, nontrivial = 0;
    uint64_t fired[F_NKINDS] = {0}, planned[F_NKINDS] = {0}, probes[P_NPROBES] = {0}, runs_fired[F_NKINDS] = {0}, softs[32] = {0};
    std::set<uint64_t> logs, all, scheds;
    std::vector<std::pair<std::string, std::string>> known;
    if (const char *k = getenv("SIM_KNOWN")) {
        std::ifstream f(k);
        std::string l;
        while (std::getline(f, l)) { size_t t = l.find('\t'); if (t != std::string::npos) known.push_back({l.substr(0, t), l.substr(t + 1)}); }
    }
    const char *stop = getenv("SIM_STOP");
    uint64_t nknown = 0;
    std::vector<std::string> samples;
    std::string viols, mism, error, others;
    double slowest = 0, of_budget = 0;
    for (uint64_t i = 0; i < count && now() < limit; i++) {
        if (stop && access(stop, F_OK) == 0) break;
        uint64_t index = from + i * stride;
        Scenario s = generate(prop, seed, index, flags);
        double t0 = now();
        Run o = run(s);
        double dt = now() - t0;
        if (dt > slowest) slowest = dt;
        uint64_t allowed = 0;
        for (auto &x : s.ops) allowed += step_budget(s, x);
        if (allowed && !o.viol && !o.other && (double)o.r.ticks / allowed > of_budget) { of_budget = (double)o.r.ticks / allowed; if (getenv("SIM_BUDGET")) fprintf(stderr, "%s %llu ticks %llu of %llu (%zu ops, n %zu ts %llu) %.2fs\n", prop.c_str(), (unsigned long long)index, (unsigned long long)o.r.ticks, (unsigned long long)allowed, s.ops.size(), s.inputs.empty() ? 0 : s.inputs[0].size(), (unsigned long long)s.table_size, dt); }
        if (!o.error.empty()) { error = "index " + std::to_string(index) + ": " + o.error; break; }
        runs++;
        if (det && i % det == 0) {
            Run p = run(s);
            repeats++;
            if (p.hash != o.hash || p.viol != o.viol || p.cls != o.cls || p.r.ticks != o.r.ticks) { mismatches++; mism += std::to_string(index) + " "; }
        }
        ticks += o.r.ticks; switches += o.r.switches; allocs += o.r.allocs; ios += o.r.ios; ok += o.r.ops_ok; exc += o.r.ops_exc; checks += o.r.checks; crashed += o.r.crashed;
        bool any = s.fill || s.reuse || s.move || s.table_size || s.table_block || s.queue_block || s.index_bits || o.r.switches;
        bool plan = false, hit = false;
        for (int k = 0; k < F_NKINDS; k++) {
            fired[k] += o.r.fired[k]; planned[k] += o.r.planned[k];
            if (o.r.planned[k]) plan = true;
            if (o.r.fired[k]) { hit = true; runs_fired[k]++; }
        }
        for (int k = 0; k < P_NPROBES; k++) probes[k] += o.r.probes[k];
        for (int k = 0; k < 32; k++) softs[k] += o.r.soft[k];
        all.insert(o.hash);
        if (((plan && hit) || (!plan && any)) && o.r.checks + o.r.ops_exc > 0 && logs.insert(o.hash).second) nontrivial++;
        if (o.r.switches) scheds.insert(o.r.sched_hash);
        if (samples.size() < 3 && (plan ? hit : true)) samples.push_back(describe(s, o, index));
        if (o.other) {
            other++;
            if (others.size() < 600) others += "index " + std::to_string(index) + " " + cls_name[o.cls] + ": " + o.text + "\n";
        }
        bool is_known = false;
        for (auto &k : known) if (o.viol && k.first == cls_name[o.cls] && o.text.find(k.second) != std::string::npos) is_known = true;
        if (is_known) nknown++;
        if (o.viol && !is_known) {
            nviol++;
            Scenario m = shrink(s, o, 25);
            Run f = run(m);
            if (!f.viol || f.cls != o.cls) { m = s; f = run(m); }
            std::string file = prefix + "-" + std::to_string(index) + ".replay";
            std::ofstream w(file);
            auto line = [](std::string x) { for (auto &c : x) if ((unsigned char)c < 32) c = ' '; return x; };
            w << "# " << line(f.text) << "\n# found at index " << index << " of VERIF_SEED " << seed << "; the unreduced run said: " << line(o.text) << "\n" << to_text(m);
            w << "class " << cls_name[f.cls] << "\nhash " << hex16(f.hash) << "\n";
            w.close();
            if (!viols.empty()) viols += ",";
            viols += "{\"index\":" + std::to_string(index) + ",\"class\":" + js(cls_name[f.cls]) + ",\"text\":" + js(f.text) + ",\"replay\":" + js(file) + "}";
            break;
        }
    }
    std::ofstream b(prefix + ".hashes", std::ios::binary);
    uint64_t nl = logs.size(), ns = scheds.size();
    b.write((char *)&nl, 8); b.write((char *)&ns, 8);
    for (uint64_t h : logs) b.write((char *)&h, 8);
    for (uint64_t h : scheds) b.write((char *)&h, 8);
    b.write((char *)&cov_edges, 4);
    b.write((char *)cov, COV_MAX);
    b.close();
    std::ostringstream j;
    j << "{\"runs\":" << runs << ",\"repeats\":" << repeats << ",\"mismatches\":" << mismatches << ",\"mismatch_at\":" << js(mism)
      << ",\"other\":" << other << ",\"others\":" << js(others) << ",\"ticks\":" << ticks << ",\"switches\":" << switches << ",\"allocs\":" << allocs << ",\"ios\":" << ios
      << ",\"ops_ok\":" << ok << ",\"ops_failed\":" << exc << ",\"checks\":" << checks << ",\"crashed\":" << crashed << ",\"nontrivial\":" << nontrivial
      << ",\"distinct\":" << all.size() << ",\"known\":" << nknown << ",\"slowest\":" << slowest << ",\"of_budget\":" << of_budget << ",\"error\":" << js(error) << ",\"violations\":[" << viols << "]";
    auto arr = [&](const char *n, const char **names, const uint64_t *v, int k) {
        j << ",\"" << n << "\":{";
        for (int i = 0; i < k; i++) j << (i ? "," : "") << "\"" << names[i] << "\":" << v[i];
        j << "}";
    };
    arr("fired", fk_name, fired, F_NKINDS);
    arr("planned", fk_name, planned, F_NKINDS);
    arr("runs_with", fk_name, runs_fired, F_NKINDS);
    arr("probes", probe_name, probes, P_NPROBES);
    arr("seen_not_owned", cls_name, softs, V_NCLS);
    j << ",\"samples\":[";
    for (size_t i = 0; i < samples.size(); i++) j << (i ? "," : "") << js(samples[i]);
    j << "]}";
    std::ofstream(prefix + ".json") << j.str() << "\n";
    return 0;
}
static bool load(const char *f, Scenario &s) {
    std::ifstream in(f);
    std::stringstream b;
    b << in.rdbuf();
    std::string err;
    if (!in || !from_text(b.str(), s, err)) { fprintf(stderr, "cannot read %s: %s\n", f, err.c_str()); return false; }
    return true;
}

} // namespace sim

using namespace sim;
int main(int argc, char **argv) {
    // one and the same address space layout in every run
    if (!getenv("SIM_LAYOUT")) {
        setenv("SIM_LAYOUT", "1", 1);
        int p = personality(0xffffffff);
        if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(p | ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    struct rlimit nocore = {0, 0};
    setrlimit(RLIMIT_CORE, &nocore);
    auto shared = [](size_t n) { void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) { perror("mmap"); exit(4); } return p; };
    res = (Res *)shared(sizeof(Res));
    cov = (uint8_t *)shared(COV_MAX);
    image = (uint8_t *)shared(IMAGE_MAX);
    if (argc >= 3 && !strcmp(argv[1], "work")) return work(argc, argv);
    if (argc >= 3 && !strcmp(argv[1], "replay")) {
        Scenario s;
        if (!load(argv[2], s)) return 2;
        verbose = argc > 3;
        Run o = run(s);
        printf("{\"violation\":%d,\"other\":%d,\"class\":%s,\"hash\":\"%s\",\"text\":%s,\"error\":%s,\"ticks\":%llu,\"switches\":%llu}\n", o.viol, o.other, js(cls_name[o.cls]).c_str(), hex16(o.hash).c_str(), js(o.text).c_str(), js(o.error).c_str(), (unsigned long long)o.r.ticks, (unsigned long long)o.r.switches);
        return 0;
    }
    if (argc >= 5 && !strcmp(argv[1], "show")) { // show PROP SEED INDEX [THOROUGH]
        printf("%s", to_text(generate(argv[2], strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), argc > 5 ? atoi(argv[5]) : 0)).c_str());
        return 0;
    }
    fprintf(stderr, "usage: work ... | replay FILE | show PROP SEED INDEX\n");
    return 2;
}
