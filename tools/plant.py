"""Development aid: write /verif/seeded/<id>/ from a description, or confirm it.

    plant.add(id, prop, file, old, new, demo, needs, breaks, extra="g++ flags")
Confirmation (tools/confirm.sh) happens in a scratch copy, never in /repo."""
import os, subprocess, json, difflib
ROOT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded")
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds on these inputs
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -f "$t/demo" && rmdir "$t"' EXIT
g++ -std=c++14 -O1 -w %s -I include "$d/demo.cpp" -o "$t/demo" -lmpfr -lgmp || exit 3
timeout 250 "$t/demo" >/dev/null
'''
def add(id, prop, edits, demo, needs, breaks, extra=""):
    d = os.path.join(ROOT, id)
    os.makedirs(d, exist_ok=True)
    out = ""
    byf = {}
    for (f, old, new) in edits:
        s = byf.setdefault(f, [open("/repo/" + f).read()] * 2)
        assert s[1].count(old) == 1, (id, f, s[1].count(old), old)
        byf[f] = [s[0], s[1].replace(old, new)]
    for f, (a, b) in byf.items():
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(a.splitlines(True), b.splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w").write(out)
    open(d + "/demo.cpp", "w").write(demo)
    open(d + "/demo.sh", "w").write(SH % extra)
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
