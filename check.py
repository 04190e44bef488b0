#!/usr/bin/env python3
"""check.py PROPERTY: seeded search over simulated runs.  VERIF_SEED and VERIF_TIER choose the runs.
exit 0: held on everything explored; 1: VIOLATION line; 2: the check itself failed."""
import json, os, shutil, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import build

WORKERS = 8
SYS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C19", "C20"]
PART = {"C14": "part_queue", "C15": "part_table", "C16": "part_packed", "C17": "part_sais", "C18": "part_split"}
REAL = {"sys": "every file of src/, examples/bwt.cpp (as a function), libstdc++, glibc stdio on top of the simulated files"}
REAL["sys_mt"] = REAL["sys"] + ", real threads of which exactly one runs at a time"
REAL["sys_giant"] = REAL["sys"] + " (built without AddressSanitizer and without steps: only intercepted calls are counted)"
REAL["sys_big"] = REAL["sys"] + " (built without AddressSanitizer)"
for p in PART.values():
    REAL[p] = REAL[p + "_giant"] = "every file of src/, driven at the component named by the property"
STUBS = ["heap: malloc, realloc, free, operator new/delete (simulated, poisoned under AddressSanitizer)",
         "kernel files: open, read, write, seek, close and what fopen streams do underneath (simulated disk)",
         "thread scheduler (the simulator decides who runs)", "process death and restart (a forked process and its durable files)"]

# scenarios past 2^31 and 2^32 (index, GB of memory): quick, and what thorough adds
GIANTS = {"C01": ([(0, 9)], [(1, 9), (2, 9)]), "C05": ([(0, 9)], [(1, 9), (2, 9)]), "C06": ([(0, 9), (1, 13)], [(2, 13), (3, 13), (4, 13)]),
          "C14": ([(0, 1)], [(1, 2), (2, 2)]),
          "C17": ([(0, 1), (1, 1), (2, 1), (3, 1), (4, 1), (5, 11)], [(6, 23), (7, 14), (8, 16), (9, 19), (10, 10)])}
GIANT_GB = 26  # of them at once

# (binary, generator flags, runs quick, runs thorough, seconds quick, seconds thorough, repeat every nth run)
def plan(prop):
    if prop == "C07":
        return [("sys_mt", 0, 12000, 120000, 45, 600, 40)]
    if prop in PART:
        n = {"C14": 60000, "C15": 30000, "C16": 60000, "C17": 30000, "C18": 60000}[prop]
        return [(PART[prop], 0, n, n * 12, 40, 420, 100)]
    big = {"C01": 80, "C05": 160, "C06": 160, "C19": 160}.get(prop)
    out = [("sys", 0, 16000, 160000, 40 if big else 45, 450 if big else 600, 60)]
    if big:
        out.append(("sys_big", 2, big, big * 10, 12, 240, 20))
    return out


def note(*a):
    print(*a, flush=True)


def fail(*a):
    note("ERROR:", *a)
    sys.exit(2)


def read_known():
    known, path = [], os.path.join(HERE, "known_findings.txt")
    for l in open(path) if os.path.exists(path) else []:
        if l.startswith("KNOWN:"):
            head, what = l[6:].split("|", 1)
            d = dict(x.split("=", 1) for x in head.split(None, 2))
            known.append((d["property"], d["class"], d["match"].strip(), what.strip()))
    return known


def replay(binary, path):
    r = subprocess.run([binary, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=1200)
    try:
        return json.loads(r.stdout.decode(errors="replace").strip().splitlines()[-1])
    except Exception:
        return {"violation": 0, "class": "no-answer", "hash": "", "text": "", "error": "no answer (%d)" % r.returncode}


def read_hashes(j, prefix):
    b = open(prefix + ".hashes", "rb").read()
    nl, ns = struct.unpack_from("<QQ", b)
    j["logs"] = set(struct.unpack_from("<%dQ" % nl, b, 16))
    j["scheds"] = set(struct.unpack_from("<%dQ" % ns, b, 16 + 8 * nl))
    off = 16 + 8 * (nl + ns)
    j["edges"] = struct.unpack_from("<I", b, off)[0]
    j["cov"] = int.from_bytes(b[off + 4:].translate(bytes([0]) + bytes([1]) * 255), "little")


def batch(prop, binary, flags, count, seconds, seed, tier, det, scratch, known):
    """one search by WORKERS processes; returns their summaries"""
    stop = os.path.join(scratch, "stop-%d" % flags)
    kn = os.path.join(scratch, "known")
    with open(kn, "w") as f:
        for p, c, m, _ in known:
            if p == prop:
                f.write("%s\t%s\n" % (c, m))
    env = dict(os.environ, SIM_STOP=stop, SIM_KNOWN=kn)
    fl = flags | (1 if tier == "thorough" else 0)
    ps = []
    for w in range(WORKERS):
        n = (count - w + WORKERS - 1) // WORKERS
        prefix = os.path.join(scratch, "%d-w%d" % (flags, w))
        ps.append((prefix, subprocess.Popen([binary, "work", prop, str(seed), str(fl), str(w), str(WORKERS), str(n), str(seconds), prefix, str(det)], env=env, stdin=subprocess.DEVNULL)))
    left = dict(ps)
    deadline = time.time() + seconds + 200
    while left:
        for prefix in list(left):
            if left[prefix].poll() is None:
                continue
            del left[prefix]
            try:
                if json.load(open(prefix + ".json"))["violations"]:
                    open(stop, "w").close()
            except Exception:
                open(stop, "w").close()
        if time.time() > deadline:
            for p in left.values():
                p.kill()
            fail("a worker did not end")
        time.sleep(0.05)
    out = []
    for prefix, p in ps:
        if p.returncode or not os.path.exists(prefix + ".json"):
            fail("worker %s ended with %s" % (os.path.basename(prefix), p.returncode))
        j = json.load(open(prefix + ".json"))
        read_hashes(j, prefix)
        out.append(j)
    return out


def main():
    if len(sys.argv) != 2 or sys.argv[1] not in SYS + list(PART):
        fail("usage: check.py C01..C20")
    prop = sys.argv[1]
    tier = "thorough" if os.environ.get("VERIF_TIER") == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = float(os.environ.get("SIM_SCALE", "1"))
    t0 = time.time()
    known = read_known()
    steps, downgraded = plan(prop), None
    try:
        bins = [build.binary(s[0]) for s in steps]
        gname = PART.get(prop, "sys") + "_giant"
        gbin = build.binary(gname) if prop in GIANTS else None
    except build.BuildError as e:
        if e.where == "repo" or prop not in PART:
            fail("build:", e)
        # the component's interface changed: decide it as far as the whole system shows it
        downgraded = str(e).splitlines()[0]
        gbin = None
        note("the component harness does not build (%s); running the whole system instead" % downgraded)
        steps = [("sys", 4, 16000, 160000, 45, 600, 60)]
        try:
            bins = [build.binary("sys")]
        except build.BuildError as e:
            fail("build:", e)
    t_build = time.time() - t0
    scratch = tempfile.mkdtemp(prefix="sim-%s-" % prop)
    js, binmap, giants, unfinished = [], [], None, 0
    try:
        t1 = time.time()
        verdict = None
        if gbin and scale >= 1:
            giants = Giants(prop, gbin, seed, tier, scratch)
        for (name, flags, nq, nt, sq, st, det), b in zip(steps, bins):
            n, sec = (nq, sq) if tier == "quick" else (nt, st)
            part = batch(prop, b, flags, max(8, int(n * scale)), sec * max(scale, 0.2), seed, tier, det, scratch, known)
            js += part
            binmap += [name] * len(part)
            for j in part:
                if j["error"]:
                    fail("simulator:", j["error"])
            viols = [v for j in part for v in j["violations"]]
            if viols:
                v = min(viols, key=lambda v: v["index"])
                verdict = (v, b, name)
                break
        if giants and not verdict:
            part, unfinished = giants.end(t1 + (400 if tier == "quick" else 3600))
            js += part
            binmap += [gname] * len(part)
            for j in part:
                for v in j["violations"]:
                    if v["class"] != "no-end" and not verdict:  # decided by the wall clock here: no answer
                        verdict = (v, gbin, gname)
        t_run = time.time() - t1
        if verdict:
            v, b, name = verdict
            if giants:
                giants.kill()
            with ThreadPoolExecutor(2) as ex:
                r1, r2 = ex.map(lambda _: replay(b, v["replay"]), range(2))
            if "no-answer" in (r1["class"], r2["class"]):  # no room for two at once
                r1, r2 = replay(b, v["replay"]), replay(b, v["replay"])
            if not (r1["violation"] and r2["violation"] and r1["class"] == r2["class"] == v["class"]):
                write_evidence(prop, tier, seed, js, binmap, t0, t_build, t_run, 0, downgraded, known)
                fail("index %d reported %s (%s), but replays gave %s and %s" % (v["index"], v["class"], v["text"], r1, r2))
            os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
            dst = os.path.join(HERE, "replays", "%s-seed%d-%d.replay" % (prop, seed, v["index"]))
            shutil.copy(v["replay"], dst)
            with open(dst, "a") as f:
                f.write("binary %s\n" % name)
            note("%s: %s" % (v["class"], r1["text"]))
            if r1["hash"] != r2["hash"]:
                note("note: the code under test behaves differently from run to run; the violation reproduces, the event log does not")
            note("replay with: python3 %s %s" % (os.path.join(HERE, "replay.py"), dst))
        write_evidence(prop, tier, seed, js, binmap, t0, t_build, t_run, 1 if verdict else 0, downgraded, known, unfinished)
        hit = sum(j["known"] for j in js)
        if hit:
            for p, c, m, what in known:
                if p == prop:
                    note("KNOWN-FINDING: property=%s %s" % (p, what))
        if verdict:
            note("VIOLATION property=%s replay=%s" % (prop, dst))
            return 1
        note("%s: held on %d runs (%.0f s)" % (prop, sum(j["runs"] for j in js), time.time() - t0))
        return 0
    finally:
        if giants:
            giants.kill()
        shutil.rmtree(scratch, ignore_errors=True)


class Giants:
    """the giant scenarios, one process each, beside the search, as memory allows"""

    def __init__(self, prop, binary, seed, tier, scratch):
        quick, more = GIANTS[prop]
        todo = quick + (more if tier == "thorough" else [])
        flags = "9" if tier == "thorough" else "8"
        self.left = [(gb, os.path.join(scratch, "giant%d" % i), [binary, "work", prop, str(seed), flags, str(i), "8", "1", "60"]) for i, gb in todo]
        self.running, self.done, self.stopped = [], [], False
        self.poll()
        self.thread = threading.Thread(target=self.loop, daemon=True)
        self.thread.start()

    def poll(self):
        for x in list(self.running):
            if x[2].poll() is not None:
                self.running.remove(x)
                self.done.append(x)
                try:
                    if json.load(open(x[1] + ".json"))["violations"]:
                        self.stopped = True
                except Exception:
                    pass
        while self.left and not self.stopped:
            gb, prefix, cmd = self.left[0]
            if self.running and sum(x[0] for x in self.running) + gb > GIANT_GB:
                break
            self.left.pop(0)
            self.running.append((gb, prefix, subprocess.Popen(cmd + [prefix, "0"], stdin=subprocess.DEVNULL)))

    def loop(self):
        while (self.left or self.running) and not self.stopped:
            self.poll()
            time.sleep(0.2)

    def kill(self):
        self.stopped = True
        self.thread.join()
        for x in self.running:
            if x[2].poll() is None:
                x[2].kill()
                x[2].wait()

    def end(self, deadline):
        """what they found; one that does not get its memory or its time is not counted"""
        self.thread.join(max(0.1, deadline - time.time()))
        self.kill()
        js, unfinished = [], len(self.left) + len(self.running)
        for _, prefix, p in self.done:
            try:
                j = json.load(open(prefix + ".json"))
                if p.returncode or j["error"]:
                    raise ValueError
                read_hashes(j, prefix)
                js.append(j)
            except Exception:
                unfinished += 1
        return js, unfinished


def write_evidence(prop, tier, seed, js, binmap, t0, t_build, t_run, nviol, downgraded, known, unfinished=0):
    tot = lambda k: sum(j[k] for j in js)
    add = lambda k: {n: sum(j[k].get(n, 0) for j in js) for n in js[0][k]}
    logs, scheds, cov, edges = set(), set(), {}, {}
    for j, name in zip(js, binmap):
        logs |= j["logs"]
        scheds |= j["scheds"]
        cov[name] = cov.get(name, 0) | j["cov"]
        edges[name] = j["edges"]
    runs, fired, runs_with, probes = tot("runs"), add("fired"), add("runs_with"), add("probes")
    planned = add("planned")
    cv = {
        "evaluations": runs,
        "distinct_nontrivial": len(logs),
        "rule": "one case = one simulated run in a fresh process: inputs, files, calls, faults, heap behaviour, capacities and schedule all drawn from (property, VERIF_SEED, index). "
                "Non-trivial: at least one call finished and was checked, and either a planned fault fired, or, in runs planned without faults, the heap, capacities or schedule were not the plain ones; "
                "distinct: by the hash of the run's event log (every allocation, I/O request, fault, switch and outcome).",
        "samples": [s for j in js for s in j["samples"]][:6],
        "runs_per_hour": round(runs / max(t_run, 1e-9) * 3600),
        "seeds_per_hour": round(runs / max(t_run, 1e-9) * 3600),
        "simulated_time": "%d steps (basic-block edges and intercepted calls; the code has no clock)" % tot("ticks"),
        "memory_requests": tot("allocs"), "io_requests": tot("ios"),
        "calls_returned": tot("ops_ok"), "calls_failed_with_exception": tot("ops_failed"), "results_checked": tot("checks"),
        "crashes_followed_by_restart": tot("crashed"),
        "faults_fired": {k: v for k, v in fired.items() if v},
        "runs_in_which_fault_fired": {k: v for k, v in runs_with.items() if v},
        "faults_planned": {k: v for k, v in planned.items() if v},
        "context_switches": tot("switches"),
        "distinct_interleavings": len(scheds),
        "rare_conditions_reached": {k: v for k, v in probes.items() if v},
        "rare_conditions_not_reached": [k for k, v in probes.items() if not v],
        "code_edges_reached": {n: "%d of %d" % (bin(cov[n]).count("1"), edges[n]) for n in cov if edges[n]},
        "determinism": {"runs_repeated": tot("repeats"), "event_logs_that_differed": tot("mismatches")},
        "noticed_but_not_this_property": {k: v for k, v in add("seen_not_owned").items() if v},
        "runs_ended_by_another_propertys_violation": tot("other"),
        "known_findings_met": tot("known"),
        "real_code": {n: REAL[n] for n in cov},
        "stubs": STUBS,
        "build_s": round(t_build, 1), "search_s": round(t_run, 1), "slowest_run_s": round(max(j["slowest"] for j in js), 3),
    }
    if prop in GIANTS:
        cv["giants_not_finished"] = unfinished
    if downgraded:
        cv["component_harness"] = "did not build: " + downgraded
    other = [j["others"] for j in js if j["others"]]
    if other:
        cv["other_properties_violations"] = other[0][:600]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cv,
          "assumptions": ["sampled, not exhaustive: a clean batch is evidence, not proof",
                          "the simulated heap, disk and scheduler behave like ones a real system can have (listed in DESIGN.md)",
                          "preemption happens at basic-block edges, intercepted calls and global accesses, sequentially consistent"],
          "wall_s": round(time.time() - t0, 2), "violations": nviol}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", prop + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(p + ".tmp", p)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:
        import traceback
        traceback.print_exc()
        fail(repr(e))
