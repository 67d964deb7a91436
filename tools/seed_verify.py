#!/usr/bin/env python3
"""seed_verify.py ID...: confirm a planted bug (applies, builds, tests pass, demo 0 -> nonzero) and run its property's check on it."""
import json, os, subprocess, sys, shutil, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def tests():
    b = sh("bash /opt/vp/build.sh"); t = sh("bash /opt/vp/test.sh /tmp/sv.json")
    if b.returncode: return "build failed"
    st = json.load(open("/opt/vp/BASELINE.json"))["stable"]; got = json.load(open("/tmp/sv.json"))["passed"]
    return "ok" if set(st) <= set(got) else "tests failed: %s" % (set(st) - set(got))
assert not sh("git -C /repo status --porcelain").stdout.strip(), "/repo dirty"
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for i in ids:
    d = os.path.join(V, "seeded", i); meta = json.load(open(d + "/meta.json")); p = meta["property"]
    tmp = tempfile.mkdtemp(); dd = tmp + "/x"; shutil.copytree(d, dd)
    for f in os.listdir(dd):
        if f.endswith((".diff", ".patch")) or f == "meta.json": os.unlink(dd + "/" + f)
    d0 = sh("bash %s/demo.sh" % dd, cwd="/repo")
    try:
        a = sh("git -C /repo apply %s/patch.diff" % d)
        t = tests(); d1 = sh("bash %s/demo.sh" % dd, cwd="/repo")
        c = sh("python3 %s/check.py %s" % (V, p), cwd=V)
    finally:
        sh("git -C /repo checkout -- .")
    why = [l for l in c.stdout.splitlines() if l.startswith(("VIOLATION", "  why", "CHECK-ERROR"))]
    ok = a.returncode == 0 and t == "ok" and d0.returncode == 0 and d1.returncode not in (0,)
    print("%-28s %s apply=%d tests=%s demo=%d/%d check=%d %s %s" % (i, p, a.returncode, t, d0.returncode, d1.returncode, c.returncode, "VALID" if ok else "INVALID", "CAUGHT" if c.returncode == 1 else "MISSED"), flush=True)
    for l in why[:2]: print("     " + l[:200])
    if not ok: print(a.stdout[-500:], d0.stdout[-800:], "-----", d1.stdout[-800:])
    shutil.rmtree(tmp)
