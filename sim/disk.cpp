// Simulated files behind real stdio streams (fopencookie) and behind descriptors.
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <unistd.h>
#include <poll.h>
#include <sys/ioctl.h>
#include <limits.h>
#include <map>
#include <algorithm>
#include <memory>
#include <setjmp.h>

namespace sim {

struct Node {
    int kind = N_FILE;
    Bytes data;
    bool noread = false, nowrite = false;
    bool dirty = false, existed = false;
    Bytes before; // content when it first became dirty
    int64_t vsize = 0; // zeros up to here
    uint64_t ino = ++inodes;
    static uint64_t inodes;
    bool rle = false, messy = false; // the content is kept as runs
    Runs runs;
    int64_t total = 0;
    int64_t size() const { return rle ? total : std::max<int64_t>(vsize, data.size()); }
    void rle_read(char *to, int64_t pos, int64_t n) const {
        int64_t at = 0;
        for (auto &g : runs) {
            int64_t a = std::max(at, pos), b = std::min(at + g[1], pos + n);
            if (a < b) memset(to + (a - pos), g[0], b - a);
            at += g[1];
        }
    }
    void rle_write(const char *from, int64_t pos, int64_t n) {
        Runs r;
        int64_t at = 0;
        auto add = [&](int64_t c, int64_t l) { if (l <= 0) return; if (!r.empty() && r.back()[0] == c) r.back()[1] += l; else r.push_back({{c, l}}); };
        if (pos == total) r.swap(runs);
        else for (auto &g : runs) { add(g[0], std::min(g[1], pos - at)); at += g[1]; }
        if (pos > total) add(0, pos - total);
        if (!add_runs(r, (const uint8_t *)from, n)) messy = true;
        if (pos + n < total) { at = 0; for (auto &g : runs) { add(g[0], std::min(g[1], at + g[1] - (pos + n))); at += g[1]; } }
        runs.swap(r);
        total = std::max(total, pos + n);
    }
};
uint64_t Node::inodes;
typedef std::shared_ptr<Node> NodeP;
struct Handle {
    NodeP node;
    std::string path;
    int64_t pos = 0;
    bool rd = false, wr = false, append = false;
    FILE *fp = NULL;
    int fd = -1;
    OpCtx *op = NULL;
    Bytes last_block;
    int64_t last_at = -1;
    bool closed = false;
};
static std::map<std::string, NodeP> *fs;
static std::map<int, std::shared_ptr<Handle>> *fds;
static int next_fd = 1000;
static int open_count;

void disk_init(const Scenario &s) {
    fs = new std::map<std::string, NodeP>;
    fds = new std::map<int, std::shared_ptr<Handle>>;
    next_fd = 1000;
    open_count = 0;
    for (auto &f : s.files) {
        if (f.kind == N_MISSING || f.kind == N_LINK) continue;
        NodeP n = std::make_shared<Node>();
        n->kind = f.kind;
        n->noread = f.noread; n->nowrite = f.nowrite;
        if (f.input >= 0 && f.input < (int)s.inputs.size()) n->data = s.inputs[f.input];
        n->existed = true;
        n->vsize = f.vsize;
        n->rle = !s.giant.empty();
        if (f.input == -2) { n->runs = s.giant; n->total = giant_size(s); }
        (*fs)[f.path] = n;
    }
    for (auto &f : s.files) if (f.kind == N_LINK && fs->count(f.to)) (*fs)[f.path] = (*fs)[f.to];
}
bool disk_same(const std::string &a, const std::string &b) {
    auto i = fs->find(a), j = fs->find(b);
    return a == b || (i != fs->end() && j != fs->end() && i->second == j->second);
}
bool disk_runs(const std::string &p, Runs &r) {
    auto i = fs->find(p);
    if (i == fs->end() || i->second->messy) return false;
    r = i->second->runs;
    return true;
}
bool disk_exists(const std::string &p) { return fs->count(p) != 0; }
Bytes disk_content(const std::string &p) { auto i = fs->find(p); return i == fs->end() ? Bytes() : i->second->data; }
std::vector<std::string> disk_paths() {
    std::vector<std::string> v;
    for (auto &e : *fs) v.push_back(e.first);
    return v;
}
int disk_open_handles() { return open_count; }
void disk_restore(const std::string &p, bool exists, const Bytes &b) {
    if (!exists) { fs->erase(p); return; }
    NodeP &n = (*fs)[p];
    if (!n) n = std::make_shared<Node>();
    n->data = b;
}
void disk_forget_handles() { // after a leak was accounted for
    open_count = 0;
}

static void touch(Handle &h) {
    if (!h.node->dirty) { h.node->dirty = true; h.node->before = h.node->data; }
}
static void snapshot(const NodeP &n) {
    if (!t_op) return;
    auto i = fs->find(t_op->in);
    if (i != fs->end() && i->second == n) t_op->snapshots.push_back(n->data);
}

// one disk request; kind: 0 open 1 seek 2 read 3 write 4 close 5 other
static bool crash_here(int when) {
    if (!t_op) return false;
    for (auto &f : t_op->faults)
        if (f.kind == F_CRASH_IO && t_op->ios == (uint64_t)f.nth && f.arg == when) return true;
    return false;
}
static void crash_now() {
    for (auto &f : t_op->faults) if (f.kind == F_CRASH_IO) fault_fired(t_op, f, false);
    do_crash();
}
static void request(int kind, int64_t size) {
    sched_point(PT_IO);
    log_event(0x10 + kind, size);
    if (!t_op) return;
    t_op->ios++;
    if (t_op->io_cap && t_op->ios > t_op->io_cap)
        violation(V_HANG, "more than %llu disk requests in one call", (unsigned long long)t_op->io_cap);
    switch (kind) {
    case 0: t_op->opens++; break;
    case 1: t_op->seeks++; break;
    case 2: t_op->reads++; break;
    case 3: t_op->writes++; break;
    case 4: t_op->closes++; break;
    }
    if (crash_here(0)) crash_now();
}
static void request_done() { if (crash_here(1)) crash_now(); }

static std::shared_ptr<Handle> do_open(const char *path, bool rd, bool wr, bool create, bool trunc, bool append, bool excl) {
    Out out_guard;
    request(0, wr);
    std::string p = path ? path : "";
    if (t_op) for (auto &f : t_op->faults)
        if (f.kind == F_OPEN && (t_op->opens == (uint64_t)f.nth || (f.arg && t_op->opens > (uint64_t)f.nth))) { fault_fired(t_op, f, wr); errno = f.err ? f.err : EMFILE; return nullptr; }
    auto i = fs->find(p);
    NodeP n;
    if (i != fs->end()) {
        n = i->second;
        if (create && excl) { errno = EEXIST; return nullptr; }
        if (n->kind == N_DIR && wr) { errno = EISDIR; return nullptr; }
        if ((rd && n->noread) || (wr && n->nowrite)) { errno = EACCES; return nullptr; }
    } else {
        if (!create || p.empty()) { errno = ENOENT; return nullptr; }
        n = std::make_shared<Node>();
        n->dirty = true;
        n->rle = !scn->giant.empty();
        (*fs)[p] = n;
    }
    auto h = std::make_shared<Handle>();
    h->node = n; h->path = p; h->rd = rd; h->wr = wr; h->append = append; h->op = t_op;
    if (wr && t_op) t_op->out_opened = true;
    if (wr && trunc && n->kind == N_FILE) { touch(*h); n->data.clear(); n->vsize = 0; n->runs.clear(); n->total = 0; n->messy = false; }
    h->fd = next_fd++;
    (*fds)[h->fd] = h;
    open_count++;
    if (t_op) t_op->open_handles++;
    request_done();
    return h;
}

static ssize_t do_read(Handle &h, char *buf, size_t n) {
    Out out_guard;
    request(2, n);
    OpCtx *c = t_op;
    if (!h.rd) { errno = EBADF; return -1; }
    size_t lim = n;
    if (c) for (auto &f : c->faults) {
        bool now = c->reads == (uint64_t)f.nth, later = f.arg && c->reads > (uint64_t)f.nth;
        switch (f.kind) {
        case F_READ: if (now || later) { fault_fired(c, f, false); errno = f.err ? f.err : EIO; return -1; } break;
        case F_READ_EOF: if (now || later) { if (h.pos < h.node->size()) fault_fired(c, f, false); return 0; } break;
        case F_READ_SHORT: if (now && f.arg > 0 && (int64_t)lim > f.arg) { lim = f.arg; fault_fired(c, f, false); } break;
        case F_READ_CHUNK: if (f.arg > 0 && (int64_t)lim > f.arg) { lim = f.arg; if (c->reads == 1) fault_fired(c, f, false); } break;
        case F_SHRINK: if (now && f.arg < (int64_t)h.node->data.size()) { fault_fired(c, f, false); h.node->data.resize(f.arg); h.node->vsize = 0; snapshot(h.node); } break;
        case F_GROW: if (now) {
            fault_fired(c, f, false);
            for (int64_t k = 0; k < f.arg; k++) h.node->data.push_back((uint8_t)(k * 7 + f.arg));
            snapshot(h.node);
            } break;
        }
    }
    if (h.node->kind == N_DIR) { errno = EISDIR; return -1; }
    int64_t left = h.node->size() - h.pos;
    if (left <= 0) { request_done(); return 0; }
    if ((int64_t)lim > left) lim = left;
    if (lim > 0x7ffff000) lim = 0x7ffff000; // as Linux does
    if (h.node->rle) h.node->rle_read(buf, h.pos, lim);
    else {
        int64_t real = (int64_t)h.node->data.size() - h.pos;
        if (real < 0) real = 0;
        if (real > (int64_t)lim) real = lim;
        memcpy(buf, h.node->data.data() + h.pos, real);
        memset(buf + real, 0, lim - real);
    }
    h.pos += lim;
    request_done();
    return lim;
}

static ssize_t put(Handle &h, const char *buf, size_t n) { // up to the capacity
    OpCtx *c = t_op;
    Node &nd = *h.node;
    if (h.append) h.pos = nd.rle ? nd.total : nd.data.size();
    if (nd.kind != N_FILE) return n;
    size_t room = n;
    if (c) for (auto &f : c->faults) if (f.kind == F_CAPACITY) {
        int64_t free_ = f.arg - h.pos;
        if (free_ < 0) free_ = 0;
        if ((int64_t)room > free_) { room = free_; fault_fired(c, f, true); }
    }
    if (room) {
        touch(h);
        if (nd.rle) nd.rle_write(buf, h.pos, room);
        else {
            if ((size_t)h.pos + room > nd.data.size()) nd.data.resize(h.pos + room);
            memcpy(nd.data.data() + h.pos, buf, room);
        }
        h.last_at = h.pos;
        h.pos += room;
    }
    return room;
}
// stream: the caller is stdio, which repeats short writes itself
static ssize_t do_write(Handle &h, const char *buf, size_t n, bool stream) {
    Out out_guard;
    size_t done = 0;
    while (done < n || n == 0) {
        request(3, n - done);
        OpCtx *c = t_op;
        if (!h.wr) { errno = EBADF; return done ? (ssize_t)done : -1; }
        size_t want = n - done;
        if (c) {
            for (auto &f : c->faults) {
                bool now = c->writes == (uint64_t)f.nth;
                if ((f.kind == F_WRITE && now) || (f.kind == F_WRITE_ALL && c->writes >= (uint64_t)f.nth)) {
                    int64_t part = f.kind == F_WRITE ? f.arg : 0;
                    if (part > (int64_t)want) part = want;
                    fault_fired(c, f, true);
                    if (part > 0) { ssize_t w = put(h, buf + done, part); done += w; }
                    errno = f.err ? f.err : EIO;
                    return done ? (ssize_t)done : -1;
                }
                if (f.kind == F_WRITE_SHORT && now && f.arg > 0 && (int64_t)want > f.arg) { want = f.arg; fault_fired(c, f, true); }
            }
            if (crash_here(2)) { put(h, buf + done, want / 2); crash_now(); }
        }
        if (n == 0) return 0;
        ssize_t w = put(h, buf + done, want);
        done += w;
        request_done();
        if ((size_t)w < want) { errno = ENOSPC; return done ? (ssize_t)done : -1; }
        if (!stream) return done;
    }
    return done;
}
static int64_t do_seek(Handle &h, int64_t off, int whence) {
    Out out_guard;
    request(1, off);
    OpCtx *c = t_op;
    if (c) for (auto &f : c->faults)
        if (f.kind == F_SEEK && (c->seeks == (uint64_t)f.nth || (f.arg && c->seeks > (uint64_t)f.nth))) {
            fault_fired(c, f, h.wr);
            errno = f.err ? f.err : EIO;
            return -1;
        }
    if (h.node->kind == N_FIFO) { errno = ESPIPE; return -1; }
    int64_t size = h.node->kind == N_DIR ? LLONG_MAX : h.node->size();
    int64_t p = whence == SEEK_SET ? off : whence == SEEK_CUR ? h.pos + off : (off > 0 && size == LLONG_MAX ? size : size + off);
    if (p < 0) { errno = EINVAL; return -1; }
    h.pos = p;
    request_done();
    return p;
}
static int do_close(Handle &h) {
    Out out_guard;
    request(4, 0);
    if (h.closed) { errno = EBADF; return -1; }
    h.closed = true;
    fds->erase(h.fd);
    open_count--;
    OpCtx *c = t_op;
    if (h.op && h.op == c) c->open_handles--;
    int r = 0;
    if (c) for (auto &f : c->faults)
        if (f.kind == F_CLOSE && (c->closes == (uint64_t)f.nth || (f.arg == 2 && c->closes > (uint64_t)f.nth))) {
            fault_fired(c, f, h.wr);
            if (h.wr && f.arg == 1 && h.last_at >= 0 && h.node->kind == N_FILE && (size_t)h.last_at < h.node->data.size())
                h.node->data.resize(h.last_at);
            errno = f.err ? f.err : EIO;
            r = -1;
        }
    request_done();
    return r;
}

// ------------------------------------------------ crash and durable image
static void put64(Bytes &b, uint64_t v) { for (int i = 0; i < 8; i++) b.push_back(v >> (8 * i)); }
static uint64_t get64(const uint8_t *&p) { uint64_t v = 0; for (int i = 0; i < 8; i++) v |= (uint64_t)*p++ << (8 * i); return v; }

void disk_dump() {
    Rng r(scn->crash_seed * 31 + 7);
    Bytes b;
    put64(b, fs->size());
    for (auto &e : *fs) {
        Node &n = *e.second;
        Bytes d = n.data;
        bool gone = false;
        if (n.dirty && n.kind == N_FILE && r.chance(2, 3)) { // power loss
            res->probes[P_LOST_TAIL]++;
            switch (r.below(7)) {
            case 0: d.resize(r.below(d.size() + 1)); break;
            case 1: { size_t k = r.below(d.size() + 1); for (size_t i = k; i < d.size(); i++) d[i] = 0; break; }
            case 2: if (n.existed) d = n.before; else gone = true; break;
            case 3: d.clear(); break;
            case 4: for (size_t i = 0; i < d.size(); i += 512) if (r.chance(1, 2)) for (size_t j = i; j < i + 512 && j < d.size(); j++) d[j] = (uint8_t)r.next(); break;
            case 5: d.resize(d.size() + r.below(4096)); break;
            case 6: { Bytes o = n.before; for (size_t i = 0; i < d.size() && i < o.size(); i++) o[i] = d[i]; d = o; break; } // metadata lost
            }
        }
        put64(b, e.first.size());
        b.insert(b.end(), e.first.begin(), e.first.end());
        put64(b, n.kind); put64(b, n.noread); put64(b, n.nowrite); put64(b, gone);
        put64(b, d.size());
        b.insert(b.end(), d.begin(), d.end());
    }
    if (b.size() > IMAGE_MAX) { fprintf(stderr, "sim: image too big\n"); _exit(4); }
    memcpy(image, b.data(), b.size());
    res->image_len = b.size();
    uint64_t h = 0;
    for (uint8_t c : b) h = mix(h, c);
    log_event(0xd15c, h);
}
void disk_load() {
    disk_init(Scenario());
    const uint8_t *p = image;
    uint64_t k = get64(p);
    while (k--) {
        uint64_t l = get64(p);
        std::string name((const char *)p, l);
        p += l;
        NodeP n = std::make_shared<Node>();
        n->kind = get64(p); n->noread = get64(p); n->nowrite = get64(p);
        bool gone = get64(p);
        l = get64(p);
        n->data.assign(p, p + l);
        p += l;
        n->existed = true;
        if (!gone) (*fs)[name] = n;
    }
}

static Handle *by_fd(int fd) {
    if (fd < 1000 || !fds) return NULL;
    auto i = fds->find(fd);
    return i == fds->end() ? NULL : i->second.get();
}
static Handle *by_fp(FILE *fp) {
    if (fds) for (auto &e : *fds) if (e.second->fp == fp) return e.second.get();
    return NULL;
}
void disk_flush_at_exit() {
    std::vector<FILE *> v;
    for (auto &e : *fds) if (e.second->fp) v.push_back(e.second->fp);
    for (FILE *f : v) fclose(f);
}

// ------------------------------------------------------------ stdio cookies
static ssize_t ck_read(void *c, char *b, size_t n) { return do_read(*(Handle *)c, b, n); }
static ssize_t ck_write(void *c, const char *b, size_t n) {
    ssize_t r = do_write(*(Handle *)c, b, n, true);
    return r < 0 ? 0 : r;
}
static int ck_seek(void *c, off64_t *o, int w) {
    int64_t r = do_seek(*(Handle *)c, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int ck_close(void *c) {
    Handle *h = (Handle *)c;
    std::shared_ptr<Handle> keep;
    auto i = fds->find(h->fd);
    if (i != fds->end()) keep = i->second;
    return do_close(*h);
}
static FILE *open_stream(const char *path, const char *mode) {
    bool plus = strchr(mode, '+') != NULL, x = strchr(mode, 'x') != NULL;
    bool rd, wr, cr, tr, ap;
    switch (mode[0]) {
    case 'r': rd = true; wr = plus; cr = tr = ap = false; break;
    case 'w': wr = true; rd = plus; cr = tr = true; ap = false; break;
    case 'a': wr = true; rd = plus; cr = ap = true; tr = false; break;
    default: errno = EINVAL; return NULL;
    }
    auto h = do_open(path, rd, wr, cr, tr, ap, x);
    if (!h) return NULL;
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    char m[8];
    snprintf(m, sizeof m, "%c%s", mode[0], plus ? "+" : "");
    h->fp = fopencookie(h.get(), m, io);
    return h->fp;
}

} // namespace sim

using namespace sim;
#define SIMFD(fd) (t_insim > 0 && by_fd(fd))

extern "C" {
FILE *__real_fopen(const char *, const char *);
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) {
    if (t_insim <= 0) return __real_fopen(p, m);
    return open_stream(p, m);
}
FILE *__wrap_fopen64(const char *p, const char *m) {
    if (t_insim <= 0) return __real_fopen64(p, m);
    return open_stream(p, m);
}
// a switch may come between preparing a buffer and handing it over
size_t __real_fwrite(const void *, size_t, size_t, FILE *);
size_t __wrap_fwrite(const void *p, size_t a, size_t b, FILE *f) { if (t_insim > 0) sched_point(PT_CALL); return __real_fwrite(p, a, b, f); }
size_t __real_fread(void *, size_t, size_t, FILE *);
size_t __wrap_fread(void *p, size_t a, size_t b, FILE *f) {
    size_t r = __real_fread(p, a, b, f);
    if (t_insim > 0) { int e = errno; sched_point(PT_CALL); errno = e; }
    return r;
}
int __real_fileno(FILE *);
int __wrap_fileno(FILE *f) {
    if (t_insim > 0) { Handle *h = by_fp(f); if (h) return h->fd; }
    return __real_fileno(f);
}
int __real_open(const char *, int, ...);
int __real_open64(const char *, int, ...);
static int sim_open(const char *p, int fl) {
    int acc = fl & O_ACCMODE;
    auto h = do_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND, fl & O_EXCL);
    return h ? h->fd : -1;
}
int __wrap_open(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if (t_insim <= 0) return __real_open(p, fl, m);
    return sim_open(p, fl);
}
int __wrap_open64(const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if (t_insim <= 0) return __real_open64(p, fl, m);
    return sim_open(p, fl);
}
int __real_creat(const char *, mode_t);
int __wrap_creat(const char *p, mode_t m) { return t_insim <= 0 ? __real_creat(p, m) : sim_open(p, O_CREAT | O_WRONLY | O_TRUNC); }
int __wrap_creat64(const char *p, mode_t m) { return __wrap_creat(p, m); }
int __real_openat(int, const char *, int, ...);
int __wrap_openat(int d, const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if (t_insim <= 0) return __real_openat(d, p, fl, m);
    return sim_open(p, fl);
}
int __real_openat64(int, const char *, int, ...);
int __wrap_openat64(int d, const char *p, int fl, ...) {
    va_list a; va_start(a, fl); int m = va_arg(a, int); va_end(a);
    if (t_insim <= 0) return __real_openat64(d, p, fl, m);
    return sim_open(p, fl);
}
int __real_mkostemp(char *, int);
int __wrap_mkostemp(char *t, int fl) {
    if (t_insim <= 0) return __real_mkostemp(t, fl);
    size_t l = strlen(t);
    if (l < 6 || strcmp(t + l - 6, "XXXXXX")) { errno = EINVAL; return -1; }
    static int serial;
    snprintf(t + l - 6, 7, "t%05d", ++serial % 100000);
    auto h = do_open(t, true, true, true, false, false, true);
    return h ? h->fd : -1;
}
int __wrap_mkstemp(char *t) { return __wrap_mkostemp(t, 0); }
int __wrap_mkstemp64(char *t) { return __wrap_mkostemp(t, 0); }
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int prot, int fl, int fd, off_t o) { // a private copy: enough for reading
    if (!SIMFD(fd)) return __real_mmap(a, n, prot, fl, fd, o);
    Handle *h = by_fd(fd);
    if (n > (1u << 30)) { errno = ENOMEM; return MAP_FAILED; }
    if ((prot & PROT_WRITE) && !(fl & MAP_PRIVATE)) { errno = ENODEV; return MAP_FAILED; }
    char *p = (char *)__real_mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) return p;
    int64_t keep = h->pos;
    h->pos = o;
    size_t got = 0;
    bool bad = false;
    while (got < n) {
        ssize_t k = do_read(*h, p + got, n - got);
        if (k < 0) { bad = true; break; }
        if (k == 0) break;
        got += k;
    }
    h->pos = keep;
    if (bad) { int e = errno; munmap(p, n); errno = e; return MAP_FAILED; }
    mprotect(p, n, prot);
    return p;
}
void *__wrap_mmap64(void *a, size_t n, int prot, int fl, int fd, off_t o) { return __wrap_mmap(a, n, prot, fl, fd, o); }
FILE *__real_fdopen(int, const char *);
FILE *__wrap_fdopen(int fd, const char *mode) {
    if (!SIMFD(fd)) return __real_fdopen(fd, mode);
    Handle *h = by_fd(fd);
    cookie_io_functions_t io = {ck_read, ck_write, ck_seek, ck_close};
    char m[8];
    snprintf(m, sizeof m, "%c%s", mode[0], strchr(mode, '+') ? "+" : "");
    return h->fp = fopencookie(h, m, io);
}
ssize_t __real_read(int, void *, size_t);
ssize_t __wrap_read(int fd, void *b, size_t n) { return SIMFD(fd) ? do_read(*by_fd(fd), (char *)b, n) : __real_read(fd, b, n); }
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) { return SIMFD(fd) ? do_write(*by_fd(fd), (const char *)b, n, false) : __real_write(fd, b, n); }
ssize_t __real_pread(int, void *, size_t, off_t);
ssize_t __wrap_pread(int fd, void *b, size_t n, off_t o) {
    if (!SIMFD(fd)) return __real_pread(fd, b, n, o);
    Handle *h = by_fd(fd); int64_t s = h->pos; h->pos = o; ssize_t r = do_read(*h, (char *)b, n); h->pos = s; return r;
}
ssize_t __wrap_pread64(int fd, void *b, size_t n, off_t o) { return __wrap_pread(fd, b, n, o); }
ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) {
    if (!SIMFD(fd)) return __real_pwrite(fd, b, n, o);
    Handle *h = by_fd(fd); int64_t s = h->pos; h->pos = o; ssize_t r = do_write(*h, (const char *)b, n, false); h->pos = s; return r;
}
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __real_writev(int, const struct iovec *, int);
ssize_t __wrap_writev(int fd, const struct iovec *v, int c) {
    if (!SIMFD(fd)) return __real_writev(fd, v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) {
        if (!v[i].iov_len) continue;
        ssize_t r = do_write(*by_fd(fd), (const char *)v[i].iov_base, v[i].iov_len, false);
        if (r < 0) return t ? t : -1;
        t += r;
        if ((size_t)r < v[i].iov_len) return t;
    }
    return t;
}
ssize_t __real_readv(int, const struct iovec *, int);
ssize_t __wrap_readv(int fd, const struct iovec *v, int c) {
    if (!SIMFD(fd)) return __real_readv(fd, v, c);
    for (int i = 0; i < c; i++) if (v[i].iov_len) return do_read(*by_fd(fd), (char *)v[i].iov_base, v[i].iov_len);
    return 0;
}
off_t __real_lseek(int, off_t, int);
off_t __wrap_lseek(int fd, off_t o, int w) { return SIMFD(fd) ? do_seek(*by_fd(fd), o, w) : __real_lseek(fd, o, w); }
off_t __wrap_lseek64(int fd, off_t o, int w) { return __wrap_lseek(fd, o, w); }
int __real_close(int);
int __wrap_close(int fd) {
    if (!SIMFD(fd)) return __real_close(fd);
    auto k = (*fds)[fd];
    return do_close(*k);
}
int __real_fsync(int);
int __wrap_fsync(int fd) {
    if (!SIMFD(fd)) return __real_fsync(fd);
    Handle *h = by_fd(fd);
    Out out_guard;
    request(5, 0);
    h->node->dirty = false;
    request_done();
    return 0;
}
int __wrap_fdatasync(int fd) { return __wrap_fsync(fd); }
static void fill_stat(Node &n, struct stat *st) {
    memset(st, 0, sizeof *st);
    st->st_mode = (n.kind == N_DIR ? S_IFDIR : n.kind == N_FIFO ? S_IFIFO : S_IFREG) | 0644;
    st->st_size = n.kind == N_FILE ? n.size() : 0;
    st->st_blksize = 4096;
    st->st_nlink = 1;
    st->st_ino = n.ino;
}
int __real_fstat(int, struct stat *);
int __wrap_fstat(int fd, struct stat *st) {
    if (!SIMFD(fd)) return __real_fstat(fd, st);
    Handle *h = by_fd(fd);
    Out out_guard;
    request(5, 0);
    fill_stat(*h->node, st);
    return 0;
}
int __wrap_fstat64(int fd, struct stat *st) { return __wrap_fstat(fd, st); }
int __real_stat(const char *, struct stat *);
int __wrap_stat(const char *p, struct stat *st) {
    if (t_insim <= 0) return __real_stat(p, st);
    Out out_guard;
    request(5, 0);
    auto i = fs->find(p);
    if (i == fs->end()) { errno = ENOENT; return -1; }
    fill_stat(*i->second, st);
    return 0;
}
int __wrap_stat64(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __wrap_lstat(const char *p, struct stat *st) { return __wrap_stat(p, st); }
int __real_access(const char *, int);
int __wrap_access(const char *p, int m) {
    if (t_insim <= 0) return __real_access(p, m);
    Out out_guard;
    request(5, 0);
    auto i = fs->find(p);
    if (i == fs->end()) { errno = ENOENT; return -1; }
    if (((m & R_OK) && i->second->noread) || ((m & W_OK) && i->second->nowrite)) { errno = EACCES; return -1; }
    return 0;
}
int __real_unlink(const char *);
int __wrap_unlink(const char *p) {
    if (t_insim <= 0) return __real_unlink(p);
    Out out_guard;
    request(5, 0);
    auto i = fs->find(p);
    if (i == fs->end()) { errno = ENOENT; return -1; }
    if (i->second->kind == N_DIR) { errno = EISDIR; return -1; }
    fs->erase(i);
    request_done();
    return 0;
}
int __real_mkdir(const char *, mode_t);
int __wrap_mkdir(const char *p, mode_t m) {
    if (t_insim <= 0) return __real_mkdir(p, m);
    Out out_guard;
    request(5, 0);
    if (fs->count(p)) { errno = EEXIST; return -1; }
    NodeP n = std::make_shared<Node>();
    n->kind = N_DIR;
    (*fs)[p] = n;
    request_done();
    return 0;
}
int __real_rmdir(const char *);
int __wrap_rmdir(const char *p) {
    if (t_insim <= 0) return __real_rmdir(p);
    Out out_guard;
    request(5, 0);
    auto i = fs->find(p);
    if (i == fs->end() || i->second->kind != N_DIR) { errno = i == fs->end() ? ENOENT : ENOTDIR; return -1; }
    fs->erase(i);
    request_done();
    return 0;
}
int __real_link(const char *, const char *);
int __wrap_link(const char *a, const char *b) {
    if (t_insim <= 0) return __real_link(a, b);
    Out out_guard;
    request(5, 0);
    auto i = fs->find(a);
    if (i == fs->end()) { errno = ENOENT; return -1; }
    if (fs->count(b)) { errno = EEXIST; return -1; }
    (*fs)[b] = i->second;
    request_done();
    return 0;
}
int __real_chmod(const char *, mode_t);
int __wrap_chmod(const char *p, mode_t m) {
    if (t_insim <= 0) return __real_chmod(p, m);
    Out out_guard;
    request(5, 0);
    if (!fs->count(p)) { errno = ENOENT; return -1; }
    return 0;
}
int __real_fchmod(int, mode_t);
int __wrap_fchmod(int fd, mode_t m) { return SIMFD(fd) ? 0 : __real_fchmod(fd, m); }
int __real_remove(const char *);
int __wrap_remove(const char *p) { return t_insim <= 0 ? __real_remove(p) : __wrap_unlink(p); }
int __real_rename(const char *, const char *);
int __wrap_rename(const char *a, const char *b) {
    if (t_insim <= 0) return __real_rename(a, b);
    Out out_guard;
    request(5, 0);
    auto i = fs->find(a);
    if (i == fs->end()) { errno = ENOENT; return -1; }
    NodeP n = i->second;
    auto j = fs->find(b);
    if (j != fs->end() && j->second->kind == N_DIR) { errno = EISDIR; return -1; }
    if (j != fs->end() && j->second != n) { n->existed = true; n->before = j->second->data; }
    fs->erase(i);
    (*fs)[b] = n;
    request_done();
    return 0;
}
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t l) {
    if (!SIMFD(fd)) return __real_ftruncate(fd, l);
    Handle *h = by_fd(fd);
    Out out_guard;
    request(5, l);
    touch(*h);
    h->node->data.resize(l);
    return 0;
}
int __wrap_ftruncate64(int fd, off_t l) { return __wrap_ftruncate(fd, l); }
int __real_truncate(const char *, off_t);
int __wrap_truncate(const char *p, off_t l) {
    if (t_insim <= 0) return __real_truncate(p, l);
    Out out_guard;
    auto i = fs->find(p);
    if (i == fs->end()) { errno = ENOENT; return -1; }
    i->second->dirty = true;
    i->second->data.resize(l);
    return 0;
}
int __real_poll(struct pollfd *, nfds_t, int);
int __wrap_poll(struct pollfd *f, nfds_t n, int t) {
    if (n == 1 && SIMFD(f->fd)) { f->revents = f->events; return 1; }
    return __real_poll(f, n, t);
}
int __real_ioctl(int, unsigned long, void *);
int __wrap_ioctl(int fd, unsigned long r, void *p) {
    if (!SIMFD(fd)) return __real_ioctl(fd, r, p);
    Handle *h = by_fd(fd);
    if (r == FIONREAD) { *(int *)p = (int)(h->node->size() - h->pos); return 0; }
    errno = ENOTTY;
    return -1;
}
// sleeping costs nothing in simulated time, but it is a step
unsigned __real_sleep(unsigned);
unsigned __wrap_sleep(unsigned s) { if (t_insim <= 0) return __real_sleep(s); request(5, 0); return 0; }
int __real_usleep(useconds_t);
int __wrap_usleep(useconds_t s) { if (t_insim <= 0) return __real_usleep(s); request(5, 0); return 0; }
int __real_nanosleep(const struct timespec *, struct timespec *);
int __wrap_nanosleep(const struct timespec *a, struct timespec *b) { if (t_insim <= 0) return __real_nanosleep(a, b); request(5, 0); return 0; }
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int s) {
    if (t_insim <= 0) __real_exit(s);
    exit_hook(s);
}
void __real__exit(int) __attribute__((noreturn));
void __wrap__exit(int s) {
    if (t_insim <= 0) __real__exit(s);
    quick_exit_hook(s);
}
}
