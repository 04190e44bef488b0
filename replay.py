#!/usr/bin/env python3
"""replay.py FILE [-v]: builds the simulator from /repo's current tree and runs the recorded scenario again.
exit 1 when the recorded violation happens again, 0 when it does not."""
import json, os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "tools"))
import build
f = sys.argv[1]
text = open(f).read()
prop = next(l.split()[1] for l in text.splitlines() if l.startswith("property "))
want = [l.split()[1] for l in text.splitlines() if l.startswith("class ")]
want_hash = [l.split()[1] for l in text.splitlines() if l.startswith("hash ")]
name = {"C07": "sys_mt", "C14": "part_queue", "C15": "part_table", "C16": "part_packed", "C17": "part_sais", "C18": "part_split"}.get(prop, "sys")
recorded = [l.split()[1] for l in text.splitlines() if l.startswith("binary ")]
size = max((len(l) for l in text.splitlines() if l.startswith("input ")), default=0)
if "\nop " in text and prop in ("C14", "C15", "C16", "C17", "C18"):
    name = "sys"
if name == "sys" and size > 300000:
    name = "sys_big"
if recorded:
    name = recorded[0]
b = build.binary(name)
r = subprocess.run([b, "replay", f] + sys.argv[2:], stdout=subprocess.PIPE)
out = r.stdout.decode(errors="replace")
sys.stdout.write(out)
j = json.loads(out.strip().splitlines()[-1])
same = bool(j["violation"]) and (not want or j["class"] == want[0])
print("reproduced" if same else "not reproduced", "(event log %s)" % ("identical" if want_hash and want_hash[0] == j["hash"] else "differs"))
sys.exit(1 if same else 0)
