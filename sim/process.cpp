// What a process has besides memory and files, taken before and after a call.
#include "sim.h"
#include <dirent.h>
#include <fcntl.h>
#include <fenv.h>
#include <locale.h>
#include <sched.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>
#include <exception>
#include <iostream>
#include <locale>
#include <new>

namespace sim {

static bool ready;
static char rand_state[128];
static int memory_file(const char *name, const char *content) {
    int fd = syscall(SYS_memfd_create, name, 0u);
    if (fd < 0) { fprintf(stderr, "sim: memfd\n"); _exit(4); }
    if (*content) { if (syscall(SYS_write, fd, content, strlen(content)) < 0) _exit(4); syscall(SYS_lseek, fd, 0, SEEK_SET); }
    return fd;
}
static void no_memory() { throw std::bad_alloc(); }
// standard input, output and error of their own, a known random sequence, and settings that are not the usual ones
static void prepare() {
    ready = true;
    setlocale(LC_ALL, "C.UTF-8");
    umask(027);
    if (chdir("/proc")) {}
    std::set_new_handler(no_memory);
    std::cout.precision(9);
    struct sigaction a;
    memset(&a, 0, sizeof a);
    a.sa_handler = SIG_IGN;
    sigaction(SIGUSR2, &a, NULL);
    sigaction(SIGPIPE, &a, NULL);
    sigset_t set;
    sigemptyset(&set);
    sigaddset(&set, SIGUSR1);
    pthread_sigmask(SIG_BLOCK, &set, NULL);
    fflush(stdout); fflush(stderr);
    static const char *name[] = {"stdin", "stdout", "stderr"};
    for (int i = 0; i < 3; i++) {
        int fd = memory_file(name[i], i == 0 ? "standard input\n" : "");
        dup2(fd, i);
        syscall(SYS_close, fd);
    }
    initstate(12345, rand_state, sizeof rand_state);
    srand48(99);
}
static std::string number(int64_t v) { return std::to_string(v); }
static uint64_t hash_of(const void *p, size_t n) { uint64_t h = n; for (size_t i = 0; i < n; i++) h = (h ^ ((const uint8_t *)p)[i]) * 0x100000001b3ull; return h; }
static std::string entries(const char *dir) {
    std::string s;
    DIR *d = opendir(dir);
    int n = 0;
    if (!d) return "?";
    while (struct dirent *e = readdir(d)) if (e->d_name[0] != '.') { n++; if (dir[11] == 'f' && atoi(e->d_name) != dirfd(d)) s += std::string(e->d_name) + " "; }
    closedir(d);
    return dir[11] == 'f' ? s : number(n);
}
static std::string content(int fd) { // what arrived at standard output or error
    char b[81];
    struct stat st;
    if (fcntl(fd, F_GETFD) < 0 || syscall(SYS_fstat, fd, &st)) return "closed";
    if (!st.st_size) return "nothing";
    int64_t n = syscall(SYS_pread64, fd, b, 80, 0);
    b[n < 0 ? 0 : n] = 0;
    for (char *c = b; *c; c++) if (*c < 32 || *c > 126) *c = ' ';
    return number(st.st_size) + " bytes: " + b;
}
ProcessState process_state() {
    if (!ready) prepare();
    ProcessState s;
    auto add = [&](const char *what, std::string v) { s.push_back({what, v}); };
    std::cout.flush(); std::clog.flush();
    fflush(stdout); fflush(stderr);
    add("standard output", content(1));
    add("standard error", content(2));
    add("the place in standard input", number(syscall(SYS_lseek, 0, 0, SEEK_CUR)));
    add("the state of the standard streams", number(ferror(stdin) | feof(stdin) << 1 | ferror(stdout) << 2 | ferror(stderr) << 3 | (int)std::cout.rdstate() << 8 | (int)std::cerr.rdstate() << 12) + " " + number(std::cout.flags()) + " " + number(std::cerr.flags()) + " " + number(std::cout.precision()));
    char b[4096];
    add("the working directory", getcwd(b, sizeof b) ? b : "none");
    mode_t m = umask(0);
    umask(m);
    add("the file mode mask", number(m));
    std::string env;
    for (char **e = ::environ; e && *e; e++) env += std::string(*e) + "\n";
    add("the environment", number(hash_of(env.data(), env.size())));
    add("the C locale", setlocale(LC_ALL, NULL));
    add("the C++ locale", std::locale().name());
    std::string sig;
    for (int i = 1; i < 65; i++) {
        struct sigaction a;
        memset(&a, 0, sizeof a);
        if (sigaction(i, NULL, &a)) continue;
        sig += number(i) + ":" + number((int64_t)a.sa_sigaction) + ":" + number(a.sa_flags & ~0x04000000) + " ";
    }
    add("signal handlers", sig);
    sigset_t set;
    sigemptyset(&set);
    pthread_sigmask(SIG_SETMASK, NULL, &set);
    add("the signal mask", number(hash_of(&set, 8)));
    std::string lim;
    for (int i = 0; i < RLIM_NLIMITS; i++) { struct rlimit r; if (!getrlimit((__rlimit_resource_t)i, &r)) lim += number(r.rlim_cur) + "/" + number(r.rlim_max) + " "; }
    add("resource limits", lim);
    add("the floating-point mode", number(fegetround()) + " " + number(_mm_getcsr() & ~0x3f));
    add("the random number sequence", number(hash_of(rand_state, sizeof rand_state)));
    unsigned short probe[3] = {1, 2, 3}, old[3];
    memcpy(old, seed48(probe), sizeof old);
    seed48(old);
    add("the 48 bit random number sequence", number(hash_of(old, sizeof old)));
    add("the new handler", number((int64_t)std::get_new_handler()));
    add("the terminate handler", number((int64_t)std::get_terminate()));
    add("the number of threads", entries("/proc/self/task"));
    add("open descriptors", entries("/proc/self/fd"));
    siginfo_t si;
    memset(&si, 0, sizeof si);
    add("child processes", number(waitid(P_ALL, 0, &si, WEXITED | WNOHANG | WNOWAIT)));
    struct itimerval it;
    getitimer(ITIMER_VIRTUAL, &it);
    std::string t = number(it.it_value.tv_sec > 0);
    getitimer(ITIMER_PROF, &it);
    t += number(it.it_value.tv_sec > 0);
    getitimer(ITIMER_REAL, &it);
    add("timers", t + number(it.it_value.tv_sec > 0 || it.it_value.tv_usec > 0));
    timespec now;
    clock_gettime(CLOCK_MONOTONIC, &now);
    add("the alarm", number(now.tv_sec + it.it_value.tv_sec));
    add("the priority", number(getpriority(PRIO_PROCESS, 0)) + " " + number(sched_getscheduler(0)));
    cpu_set_t cpus;
    CPU_ZERO(&cpus);
    sched_getaffinity(0, sizeof cpus, &cpus);
    add("the processor affinity", number(hash_of(&cpus, sizeof cpus)));
    memset(b, 0, 32);
    prctl(PR_GET_NAME, b);
    add("the name of the process", b);
    add("what the process lets others do", number(prctl(PR_GET_DUMPABLE)) + " " + number(prctl(PR_GET_NO_NEW_PRIVS, 0, 0, 0, 0)));
    return s;
}
std::string process_change(const ProcessState &a, const ProcessState &b) {
    for (size_t i = 0; i < a.size() && i < b.size(); i++)
        if (a[i].first == "the alarm" && llabs(atoll(a[i].second.c_str()) - atoll(b[i].second.c_str())) < 5) continue;
        else if (a[i].second != b[i].second) return a[i].first + " changed (" + a[i].second.substr(0, 200) + " -> " + b[i].second.substr(0, 200) + ")";
    return "";
}

} // namespace sim
