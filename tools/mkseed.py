#!/usr/bin/env python3
"""mkseed.py SPEC.py: SPEC defines id, property, needs, breaks, edits=[(file, old, new)], demo (C++ text), flags."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def make(id, property, needs, breaks, edits, demo, flags="", compiler="g++", run="$W/demo", extra=None, standin=False):
    d = os.path.join(V, "seeded", id); os.makedirs(d, exist_ok=True)
    subprocess.run("rm -rf /tmp/mkseed_copy && git clone -q /repo /tmp/mkseed_copy", shell=True, check=True)
    for f, a, b in edits:
        p = "/tmp/mkseed_copy/include/qlpeps/" + f; t = open(p).read(); assert t.count(a) == 1, (id, f, t.count(a)); open(p, "w").write(t.replace(a, b))
    open(d + "/patch.diff", "w").write(subprocess.run("git -C /tmp/mkseed_copy diff", shell=True, capture_output=True, text=True).stdout)
    subprocess.run("rm -rf /tmp/mkseed_copy", shell=True)
    if standin: subprocess.run(["cp", "-r", V + "/standin", d + "/standin"], check=True) if not os.path.exists(d + "/standin") else None; flags = '-I "$D/standin" ' + flags
    open(d + "/demo.cpp", "w").write(demo)
    for k, v in (extra or {}).items(): open(d + "/" + k, "w").write(v)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0: behaves as stated; nonzero: the property is broken\nset -e\nD="$(cd "$(dirname "$0")" && pwd)"\nW="$(mktemp -d)"; trap \'rm -rf "$W"\' EXIT\n%s -std=c++20 -O1 -w -I "$PWD/include" -I "$D" %s "$D/demo.cpp" -o "$W/demo"\ncd "$W"\n%s\n' % (compiler, flags, run))
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
if __name__ == "__main__":
    exec(open(sys.argv[1]).read())
