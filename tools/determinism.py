"""Runs the same indices under different worker counts and seeds and compares the sets of event-log hashes."""
import os, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
PARTS = {"C07": "sys_mt", "C14": "part_queue", "C15": "part_table", "C16": "part_packed", "C17": "part_sais", "C18": "part_split"}
props = sys.argv[2:] or ["C%02d" % i for i in range(1, 19)]
n = int(sys.argv[1]) if len(sys.argv) > 1 else 160
bad = 0
with tempfile.TemporaryDirectory() as d:
    for p in props:
        b = build.binary(PARTS.get(p, "sys"))
        for seed in (1, 2, 77):
            seen = []
            for workers in (1, 5, 16):
                ps = [subprocess.Popen([b, "work", p, str(seed), "0", str(w), str(workers), str((n - w + workers - 1) // workers), "600", "%s/%d" % (d, w), "0"]) for w in range(workers)]
                [x.wait() for x in ps]
                logs = set()
                for w in range(workers):
                    raw = open("%s/%d.hashes" % (d, w), "rb").read()
                    nl, ns = struct.unpack_from("<QQ", raw)
                    logs |= set(struct.unpack_from("<%dQ" % nl, raw, 16)) | {~x for x in struct.unpack_from("<%dQ" % ns, raw, 16 + 8 * nl)}
                seen.append(logs)
            same = all(x == seen[0] for x in seen)
            bad += not same
            print(p, "seed", seed, len(seen[0]), "hashes", "identical" if same else "DIFFER", flush=True)
sys.exit(bad != 0)
