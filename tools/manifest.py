"""Writes MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: seeded search over simulated "
NOTE = {
 "C01": (T + "disks (splits, short counts, I/O and capacity faults, changing input)", "output bytes of every normal return compared with an independent inverse transform of the input"),
 "C02": (T + "I/O faults at every request of the call", "how each call ended, handles left open, memory growth over repetitions"),
 "C03": (T + "input and memory faults before the result exists", "all files compared byte for byte after each failed call"),
 "C04": (T + "crashes at I/O requests, allocations and steps, with restart from the durable files", "durable files checked after the crash; the second run must be exact"),
 "C05": (T + "heaps (contents, placement, reuse, relocation)", "exact result by an independent inverse transform; AddressSanitizer on the simulated heap"),
 "C06": (T + "index widths, capacities and sparse memories up to 2^43 bytes", "as C05, in each of the five index widths"),
 "C07": (T + "thread interleavings (preemption at basic-block edges, calls, global accesses)", "each result exact; a failure counts only when the calls are correct one after the other"),
 "C08": (T + "memory exhaustion at every request", "exact result or standard exception, then exact again"),
 "C09": (T + "heaps and protected buffers", "read-only pages, release counts, poisoned released buffer"),
 "C10": (T + "histories of calls over a simulated heap", "live blocks after each round; each release matched with its allocation"),
 "C11": (T + "disks and memory faults under the command-line program", "exit status against exactness of the output file"),
 "C12": (T + "persistent and transient faults, worst-case capacities", "step and request budgets, deadlock detection"),
 "C13": (T + "histories of successful and failing calls over recycled memory", "exact results; a failure counts only when the call is correct alone"),
 "C14": (T + "operation histories and refusals on the queue", "list model"),
 "C15": (T + "insertion histories, relocations and refusals on the substring table", "set model and direct naming"),
 "C16": (T + "store histories over garbage memory and refusals on packed arrays", "vector model"),
 "C18": (T + "store histories over garbage and sparse memory on arrays of split-width integers", "map model; bit lengths counted directly"),
 "C19": (T + "heaps, refusals and histories of calls, with steps as the clock", "steps and peak of live bytes of each call against an allowance computed from the text and the capacities, and against the first such call"),
 "C20": (T + "I/O and memory faults and histories of calls, around which the process is looked at", "process settings, standard streams, descriptors, threads and all other files compared before and after each call"),
 "C17": (T + "workspaces, memories and refusals under the five suffix sorters", "direct suffix comparison"),
}
LEVEL = " Sampled: a clean batch is evidence, not proof. Trusts the simulator's heap, disk and scheduler models (DESIGN.md) and the oracle in sim/oracle.cpp."
m = {"version": 1, "setup_cmd": "bash setup.sh",
     "hooks": {"guard": "FLBWT_SIM", "enable": "the checks compile /repo/src and /repo/examples/bwt.cpp with -DFLBWT_SIM (tools/build.py)",
               "source_commits": [subprocess.check_output(["git", "-C", "/repo", "rev-parse", "be70cc4"], text=True).strip()]},
     "checks": [], "not_applicable": [],
     "notes": "properties.jsonl, DESIGN.md; replay a violation with: python3 replay.py FILE; known_findings.txt lists repaired defects"}
for p in sorted(NOTE):
    t, n = NOTE[p]
    m["checks"].append({"property": p, "quick_cmd": "VERIF_TIER=quick python3 check.py " + p, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p,
                        "technique": t, "level": "exploration", "level_note": n + "." + LEVEL})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
