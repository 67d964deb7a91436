#!/usr/bin/env python3
"""Driver: build the harnesses of one property from /repo's working tree, run them, shrink, replay, report.

  check.py <ID>                    run at $VERIF_TIER (quick|thorough) with $VERIF_SEED
  check.py <ID> --replay FILE      rebuild and re-run one saved failing case
Exit 0 held, 1 VIOLATION, 2 the check itself could not run.
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

NCPU = min(8, os.cpu_count() or 8)
BASE = ["-std=c++20", "-I", os.path.join(REPO, "include"), "-I", os.path.join(VERIF, "pbt"), "-I", VERIF,
        "-w", "-fno-strict-aliasing"]
ENV = dict(os.environ)
ENV.update({"OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
            "OMPI_MCA_rmaps_base_oversubscribe": "1", "OMPI_MCA_btl": "self,vader,tcp", "OMPI_MCA_mpi_yield_when_idle": "1",
            "OMPI_MCA_btl_vader_single_copy_mechanism": "none", "OMP_NUM_THREADS": "1",
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1",
            "UBSAN_OPTIONS": "print_stacktrace=0:halt_on_error=1"})

# memory per MPI rank lives in shm; keep sessions small
MPIRUN = ["mpirun", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-q", "-np"]


class Cpu:
    """Weighted semaphore so that MPI jobs and serial shards together use at most NCPU cores."""
    def __init__(self, n):
        self.free, self.n, self.cv = n, n, threading.Condition()

    def take(self, k):
        k = min(k, self.n)
        with self.cv:
            while self.free < k:
                self.cv.wait()
            self.free -= k
        return k

    def give(self, k):
        with self.cv:
            self.free += k
            self.cv.notify_all()


CPU = Cpu(NCPU)


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


WATCHDOG = 60  # CPU seconds of one case before it counts as hanging; confirmed with three times as many


def build(job, work):
    key = hashlib.sha1(json.dumps([job["src"], job.get("flags", []), job.get("cxx")]).encode()).hexdigest()[:12]
    exe = os.path.join(work, os.path.basename(job["src"]).rsplit(".", 1)[0] + "-" + key)
    cxx = job.get("cxx", "g++")
    cmd = [cxx] + BASE + [f.replace("@VERIF@", VERIF).replace("@REPO@", REPO) for f in job.get("flags", ["-O1", "-g0"])] + \
          [os.path.join(VERIF, job["src"]), "-o", exe] + job.get("libs", [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=ENV)
    return exe, p.returncode, " ".join(cmd), p.stdout


def launch(job, exe, args, work, tag, timeout, budget=None):
    scratch = os.path.join(work, "scratch-" + tag)
    os.makedirs(scratch, exist_ok=True)
    env = dict(ENV); env["PBT_SCRATCH"] = scratch
    env.update(job.get("env", {}))
    np = job.get("np", 0)
    if np:  # a session directory of its own: concurrent mpiruns race on the shared default one
        env["OMPI_MCA_orte_tmpdir_base"] = os.path.join(scratch, "ompi")
        env["TMPDIR"] = scratch
        os.makedirs(env["OMPI_MCA_orte_tmpdir_base"], exist_ok=True)
    k = CPU.take(max(1, np))
    t0 = time.time()
    if budget:  # decided when the cores are there: late starters on a slow machine explore less
        b = budget()
        args = args + ["--budget", "%.0f" % b]
        timeout += b
    cmd = (MPIRUN + [str(np)] if np else []) + [exe] + args
    log = os.path.join(work, "log-" + tag)
    try:
        with open(log, "wb") as lf:
            p = subprocess.Popen(cmd, stdout=lf, stderr=subprocess.STDOUT, env=env, cwd=scratch, start_new_session=True)
            try:
                rc = p.wait(timeout=timeout)
                to = False
            except subprocess.TimeoutExpired:
                to, rc = True, -9
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
    finally:
        CPU.give(k)
        shutil.rmtree(scratch, ignore_errors=True)
    with open(log, "rb") as lf:
        lf.seek(max(0, os.path.getsize(log) - 6000))
        tail = lf.read().decode(errors="replace")
    if not to:
        os.unlink(log)
    return {"rc": rc, "timeout": to, "tail": tail, "wall": time.time() - t0}


def read_crash(path):
    try:
        b = open(path, "rb").read()
    except OSError:
        return None
    if len(b) < 96 or b[:8] != b"PBTCRASH":
        return None
    prop = b[8:72].split(b"\0")[0].decode()
    running, hang, n = struct.unpack("<QQQ", b[72:96])
    n = min(n, (len(b) - 96) // 8)
    return {"prop": prop, "running": running, "hang": hang, "choices": list(struct.unpack("<%dQ" % n, b[96:96 + 8 * n]))}


def write_choices(path, prop, choices):
    with open(path, "w") as f:
        f.write(prop + "\n%d" % len(choices) + "".join(" %d" % c for c in choices) + "\n")


def replay_once(job, exe, prop, choices, work, tag, timeout, watchdog=None):
    cf_, out, cr = (os.path.join(work, tag + x) for x in (".in", ".out", ".crash"))
    for p in (out, cr):
        if os.path.exists(p):
            os.unlink(p)
    write_choices(cf_, prop, choices)
    r = launch(job, exe, ["--replay", cf_, "--out", out, "--crash", cr, "--watchdog", str(watchdog or job.get("watchdog", WATCHDOG))], work, tag, timeout)
    res = {"failed": False, "msg": "", "desc": ""}
    if os.path.exists(out):
        try:
            res = json.load(open(out))
            return res
        except ValueError:
            pass
    if r["rc"] != 0 or r["timeout"]:
        c = read_crash(cr)
        res["failed"] = True
        res["msg"] = ("hang: no progress within the watchdog budget" if r["timeout"] or (c and c["hang"]) or r["rc"] == 71
                      else "process died (exit %s): %s" % (r["rc"], summarise(r["tail"])))
        res["crash"] = True
    return res


def summarise(tail):
    keep = [l for l in tail.splitlines() if re.search(r"ERROR|runtime error|terminate|what\(\)|SUMMARY|Assert|signal|free\(\)|corrupt", l)]
    return " / ".join((keep or tail.splitlines()[-3:])[:4])[:600]


def shrink_crash(job, exe, prop, choices, work, tag, budget, per):
    """Process-level shrinking for cases that kill or hang the process."""
    t0, best, n = time.time(), list(choices), 0
    def bad(c):
        nonlocal n
        n += 1
        return replay_once(job, exe, prop, c, work, "%s-s%d" % (tag, n), per)["failed"]
    blk = max(1, len(best) // 2)
    while blk >= 1 and time.time() - t0 < budget:
        i, moved = len(best) - blk, False
        while i >= 0 and time.time() - t0 < budget:
            c = best[:i] + best[i + blk:]
            if bad(c):
                best, moved = c, True
            i -= blk
        blk = blk // 2 if not moved or blk > 1 else 0
    for i in range(len(best)):
        if time.time() - t0 > budget:
            break
        if best[i]:
            c = list(best); c[i] = 0
            if bad(c):
                best = c
    return best


def main():
    if len(sys.argv) < 2 or sys.argv[1] not in CHECKS:
        die("unknown property; known: " + " ".join(sorted(CHECKS)))
    pid = sys.argv[1]
    chk = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    tier = tier if tier in ("quick", "thorough") else "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed = abs(seed) or 1
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=os.environ.get("VERIF_WORK"))
    try:
        rc = run(pid, chk, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def run(pid, chk, tier, seed, work, t0):
    jobs = [j for j in chk["jobs"] if tier == "thorough" or not j.get("thorough_only")]
    # ---- build
    exes, keyed = {}, {}
    for j in jobs:
        keyed.setdefault(json.dumps([j["src"], j.get("flags"), j.get("cxx"), j.get("libs")]), []).append(j)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {k: ex.submit(build, js[0], work) for k, js in keyed.items()}
        for k, f in futs.items():
            exe, brc, cmd, outp = f.result()
            if brc != 0:
                print(outp[-4000:])
                die("%s: harness does not build against %s: %s" % (pid, REPO, cmd))
            for j in keyed[k]:
                exes[j["name"]] = exe
    t_build = time.time() - t0
    if len(sys.argv) >= 4 and sys.argv[2] == "--replay":
        rp = json.load(open(sys.argv[3]))
        job = next(j for j in jobs if j["name"] == rp["job"])
        r = replay_once(job, exes[job["name"]], rp["prop"], rp["choices"], work, "replay", 120)
        print(json.dumps(r, indent=1))
        return 1 if r["failed"] else 0
    # ---- run
    per_job_budget = chk.get("budget", {}).get(tier, 150 if tier == "quick" else 600)

    def budget():
        return per_job_budget if tier != "quick" else max(10, min(per_job_budget, 450 - (time.time() - t0)))
    tasks = []
    for j in jobs:
        sh = j.get("shards", {}).get(tier, 1) if isinstance(j.get("shards"), dict) else j.get("shards", 1)
        for s in range(sh):
            tasks.append((j, s, sh))
    results = []

    def one(t):
        j, s, sh = t
        tag = "%s-%d" % (j["name"], s)
        out, cr = os.path.join(work, tag + ".json"), os.path.join(work, tag + ".crash")
        args = ["--seed", str(seed * 1000 + s), "--tier", tier, "--out", out, "--crash", cr,
                "--mult", repr(j.get("mult", 1.0) / sh), "--watchdog", str(j.get("watchdog", WATCHDOG))]
        for attempt in range(3):
            r = launch(j, exes[j["name"]], args, work, tag, 180, budget)
            c = read_crash(cr)
            # mpirun itself could not start the ranks (no case ever ran): try again
            if not (j.get("np") and r["rc"] and not r["timeout"] and not os.path.exists(out) and not (c and c["running"])):
                break
        res = None
        if os.path.exists(out):
            try:
                res = json.load(open(out))
            except ValueError:
                res = None
        return j, s, r, res, read_crash(cr)

    with cf.ThreadPoolExecutor(NCPU) as ex:
        for x in ex.map(one, tasks):
            results.append(x)
    # ---- merge
    props, failures, errors = {}, [], []
    for j, s, r, res, cr in results:
        if res is None:
            if cr and cr["running"]:
                failures.append({"job": j, "prop": cr["prop"], "choices": cr["choices"], "crash": True,
                                 "msg": "hang" if (cr["hang"] or r["timeout"]) else summarise(r["tail"]), "desc": ""})
            else:
                errors.append("%s shard %d: no result (exit %s) %s" % (j["name"], s, r["rc"], r["tail"][-400:]))
            continue
        for p in res["props"]:
            key = j["name"] + "/" + p["name"]
            a = props.setdefault(key, {"cases": 0, "distinct_nontrivial": 0, "discarded": 0, "labels": {}, "samples": [], "rule": p["rule"], "truncated": False})
            a["cases"] += p["cases"]; a["distinct_nontrivial"] += p["distinct_nontrivial"]; a["discarded"] += p["discarded"]
            a["truncated"] |= p["truncated"]
            a["slowest_case_s"] = round(max(a.get("slowest_case_s", 0), p.get("slowest_case_s", 0)), 3)
            for k, v in p["labels"].items():
                a["labels"][k] = a["labels"].get(k, 0) + v
            a["samples"] = (a["samples"] + p["samples"])[:2]
        if res["failure"]:
            f = dict(res["failure"]); f["job"] = j; f["crash"] = False
            failures.append(f)
    # ---- confirm failures
    confirmed = None
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    seen = set()
    for f in failures[:6]:
        j = f["job"]; exe = exes[j["name"]]
        if f["prop"] in seen or (confirmed and time.time() - t0 > 300):
            continue
        seen.add(f["prop"])
        wd = j.get("watchdog", WATCHDOG)
        per, runs = 2 * wd + 30, None
        if f["crash"]:
            first = replay_once(j, exe, f["prop"], f["choices"], work, "c0", 3 * wd + 60, 3 * wd)
            if first["failed"] and "hang" not in first["msg"]:
                f["choices"] = shrink_crash(j, exe, f["prop"], f["choices"], work, "sh", 60, per)
            elif first["failed"]:
                runs = [first]
            elif "hang" in f["msg"]:
                continue  # slow, not stuck
        runs = runs or [replay_once(j, exe, f["prop"], f["choices"], work, "c%d" % i, per) for i in range(1, 4)]
        bad = [r for r in runs if r["failed"]]
        if not bad:
            errors.append("failure of %s did not reproduce on replay: %s" % (f["prop"], f["msg"]))
            continue
        msg, desc = bad[0]["msg"] or f["msg"], bad[0]["desc"] or f["desc"]
        h = hashlib.sha1(json.dumps([f["prop"], f["choices"]]).encode()).hexdigest()[:10]
        path = os.path.join(VERIF, "replays", "%s-%s-%s.json" % (pid, f["prop"], h))
        json.dump({"property": pid, "job": j["name"], "prop": f["prop"], "choices": f["choices"], "case": desc, "message": msg,
                   "seed": seed, "tier": tier, "reproduced": "%d/%d" % (len(bad), len(runs)),
                   "how": "python3 check.py %s --replay <this file>" % pid}, open(path, "w"), indent=1)
        confirmed = confirmed or []
        confirmed.append((f["prop"], path, msg, desc))
    # ---- known findings
    kf_path = os.path.join(VERIF, "known_findings.json")
    known = [k for k in json.load(open(kf_path)).get("findings", []) if k["property"] == pid] if os.path.exists(kf_path) else []
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    # ---- evidence
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {
              "evaluations": sum(a["cases"] for a in props.values()),
              "distinct_nontrivial": sum(a["distinct_nontrivial"] for a in props.values()),
              "rule": chk["rule"],
              "samples": [{"check": k, "case": s} for k, a in props.items() for s in a["samples"][:1]],
              "per_check": props},
          "assumptions": chk.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed or [])}
    ev["coverage"]["build_s"] = round(t_build, 2)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", pid + ".json"), "w"), indent=1)
    tot = ev["coverage"]
    print("%s tier=%s seed=%d cases=%d distinct_nontrivial=%d build=%.1fs wall=%.1fs" %
          (pid, tier, seed, tot["evaluations"], tot["distinct_nontrivial"], t_build, time.time() - t0))
    for k, a in sorted(props.items()):
        print("   %-58s cases=%-7d nontrivial=%-7d discarded=%d%s" % (k, a["cases"], a["distinct_nontrivial"], a["discarded"], " TRUNCATED" if a["truncated"] else ""))
        if os.environ.get("VERIF_LABELS"):
            print("       ", a["labels"])
    if confirmed:
        for prop, path, msg, desc in confirmed:
            print("  failing check: %s\n  case: %s\n  why: %s" % (prop, desc[:1500], msg[:1500]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for e in errors:
            print("CHECK-ERROR: " + e)
        return 2
    if not any(a["distinct_nontrivial"] for a in props.values()):
        print("CHECK-ERROR: nothing non-trivial explored")
        return 2
    for k, a in props.items():
        if (a["cases"] == 0 and not a["truncated"]) or (a["distinct_nontrivial"] == 0 and a["cases"] > 50):
            print("CHECK-ERROR: %s explored nothing non-trivial" % k)
            return 2
    return 0


if __name__ == "__main__":
    main()
