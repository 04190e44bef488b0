"""Builds the simulator from /repo's working tree.  Objects are kept under
/verif/build by the hash of what they are made from (preprocessed source,
command line), so a check only compiles what changed."""
import glob, hashlib, os, subprocess, sys, fcntl
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")
CXX = "clang++"

WRAP = """malloc calloc realloc free posix_memalign aligned_alloc malloc_usable_size strdup __cxa_allocate_exception
pthread_mutex_lock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_spin_lock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort
fopen fopen64 fwrite fread mkstemp mkstemp64 mkostemp mmap mmap64 fileno open open64 fdopen read write pread pread64 pwrite pwrite64 writev readv lseek lseek64 close fsync
fdatasync fstat fstat64 stat stat64 lstat access unlink remove rename creat creat64 openat openat64 mkdir rmdir link chmod fchmod ftruncate ftruncate64 truncate poll ioctl sleep
usleep nanosleep exit _exit memcpy memmove memset memcmp bcmp memchr strlen""".split()

BASE = ["-std=c++14", "-g", "-w", "-pthread", "-DFLBWT_SIM", "-fno-omit-frame-pointer"]
FLAVOUR = {  # name: (repo flags, harness flags, link flags)
    "asan": (["-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard"], ["-O1", "-fsanitize=address", "-DSIM_ASAN"], ["-fsanitize=address"]),
    "mt": (["-O1", "-fsanitize=address", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"], ["-O1", "-fsanitize=address", "-DSIM_ASAN"], ["-fsanitize=address"]),
    "fast": (["-O2", "-fsanitize-coverage=trace-pc-guard"], ["-O2"], []),
    "plain": (["-O2"], ["-O2"], []),
}
COMMON = ["heap", "sched", "disk", "scenario", "oracle", "gen", "gen_part", "main"]
BINARY = {  # name: (flavour, harness files, repo parts)
    "sys": ("asan", COMMON + ["ops_sys", "process", "tunables"], "all"),
    "sys_mt": ("mt", COMMON + ["ops_sys", "process", "tunables"], "all"),
    "sys_big": ("fast", COMMON + ["ops_sys", "process", "tunables"], "all"),
    "sys_giant": ("plain", COMMON + ["ops_sys", "process", "tunables"], "all"),
    "part_queue": ("asan", COMMON + ["part_queue", "ops_part", "tunables"], "lib"),
    "part_table": ("asan", COMMON + ["part_table", "ops_part", "tunables"], "lib"),
    "part_packed": ("asan", COMMON + ["part_packed", "ops_part", "tunables"], "lib"),
    "part_split": ("asan", COMMON + ["part_split", "ops_part", "tunables"], "lib"),
    "part_queue_giant": ("plain", COMMON + ["part_queue", "ops_part", "tunables"], "lib"),
    "part_sais_giant": ("plain", COMMON + ["part_sais", "ops_part", "tunables"], "lib"),
    "part_sais": ("asan", COMMON + ["part_sais", "ops_part", "tunables"], "lib"),
}


class BuildError(Exception):
    def __init__(self, msg, where):
        super().__init__(msg)
        self.where = where  # "repo" or "harness"


def run(cmd):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)


def obj(src, flags, where):
    """object file of one source, keyed by its preprocessed text"""
    inc = ["-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "sim")]
    cmd = [CXX] + BASE + flags + inc
    pp = run(cmd + ["-E", "-P", src])
    if pp.returncode:
        raise BuildError("%s does not preprocess:\n%s" % (src, pp.stderr.decode(errors="replace")[-3000:]), where)
    # with line markers removed, asserts and reports must not depend on lines: -E output with __LINE__ expanded
    h = hashlib.sha256(("\0".join(cmd + [os.path.basename(src)])).encode() + b"\0" + pp.stdout).hexdigest()[:24]
    o = os.path.join(OUT, "obj", h + ".o")
    if not os.path.exists(o):
        tmp = "%s.%d.tmp" % (o, os.getpid())
        r = run(cmd + ["-c", src, "-o", tmp])
        if r.returncode:
            raise BuildError("%s does not compile:\n%s" % (src, r.stderr.decode(errors="replace")[-3000:]), where)
        os.replace(tmp, o)
    else:
        os.utime(o)
    return o


def binary(name):
    os.makedirs(os.path.join(OUT, "obj"), exist_ok=True)
    os.makedirs(os.path.join(OUT, "bin"), exist_ok=True)
    flavour, harness, parts = BINARY[name]
    rf, hf, lf = FLAVOUR[flavour]
    with open(os.path.join(OUT, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        jobs = []
        srcs = sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True) + glob.glob(os.path.join(REPO, "src", "**", "*.cc"), recursive=True))
        with ThreadPoolExecutor(8) as ex:
            for s in srcs:
                jobs.append(ex.submit(obj, s, rf, "repo"))
            if parts == "all":
                jobs.append(ex.submit(obj, os.path.join(REPO, "examples", "bwt.cpp"), rf + ["-Dmain=flbwt_cli_main"], "repo"))
            for h in harness:
                jobs.append(ex.submit(obj, os.path.join(VERIF, "sim", h + ".cpp"), hf, "harness"))
            objs = [j.result() for j in jobs]
        link = [CXX] + lf + ["-static-libstdc++", "-pthread"] + ["-Wl,--wrap=" + w for w in WRAP + (["__asan_memcpy", "__asan_memmove", "__asan_memset"] if "-fsanitize=address" in lf else [])]
        key = hashlib.sha256("\0".join(link + objs).encode()).hexdigest()[:24]
        out = os.path.join(OUT, "bin", name + "-" + key)
        if not os.path.exists(out):
            tmp = "%s.%d.tmp" % (out, os.getpid())
            r = run(link + objs + ["-o", tmp])
            if r.returncode:
                raise BuildError("%s does not link:\n%s" % (name, r.stderr.decode(errors="replace")[-3000:]), "harness")
            os.replace(tmp, out)
        return out


if __name__ == "__main__":
    for n in sys.argv[1:] or list(BINARY):
        try:
            print(n, binary(n))
        except BuildError as e:
            print(e)
            sys.exit(1)
