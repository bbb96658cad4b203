#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decide one property on /repo's current tree.

Builds the harness binaries the property's jobs need from /repo's working tree,
explores every job's bounded space exhaustively (mcrt), replays any violation
before reporting it, and rewrites evidence/<PROPERTY>.json."""
import json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild, jobs as jobdefs

NCPU = int(os.environ.get("VERIF_JOBS", "8"))


class Tokens:
    def __init__(self, n):
        self.n, self.cv = n, threading.Condition()

    def take(self, k):
        with self.cv:
            while self.n < k:
                self.cv.wait()
            self.n -= k

    def give(self, k):
        with self.cv:
            self.n += k
            self.cv.notify_all()


def load_known():
    p = os.path.join(HERE, "known-findings.json")
    return json.load(open(p)) if os.path.exists(p) else []


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    only = sys.argv[3] if len(sys.argv) > 3 else None
    t0 = time.time()
    deadline = t0 + float(os.environ.get("VERIF_DEADLINE", "780" if tier == "quick" else "36000"))
    spec = jobdefs.PROPS[prop]
    jl = [j for j in spec["jobs"](tier) if not only or re.search(only, j.name)]
    known = [k for k in load_known() if k["property"] == prop and k.get("status") == "known"]
    evdir = os.path.join(HERE, "evidence")
    repdir = os.path.join(HERE, "evidence", "replays")
    os.makedirs(repdir, exist_ok=True)
    for f in os.listdir(repdir):
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(repdir, f))

    # ---- build
    results = {}

    def build(j):
        try:
            j.binary = j.build()
        except vbuild.BuildError as e:
            j.binary = None
            j.build_error = str(e)
    ths = []
    sem = threading.Semaphore(NCPU)

    def bt(j):
        with sem:
            build(j)
    for j in jl:
        t = threading.Thread(target=bt, args=(j,))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()
    tb = time.time() - t0

    # ---- run
    tok = Tokens(NCPU)
    stop = threading.Event()
    lock = threading.Lock()
    errors, violations, knowns, skipped = [], [], [], []

    def execute(j, extra=(), limit=None):
        args = [j.binary] + j.args + list(extra)
        to = limit or j.time + 60
        try:
            r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=to, cwd="/tmp",
                               errors="replace", start_new_session=True)
            return r.returncode, r.stdout, r.stderr
        except subprocess.TimeoutExpired:
            return -999, "", "timeout"

    def parse(out):
        try:
            return json.loads(out)
        except ValueError:
            return None

    def run(j):
        k = min(j.cpus, NCPU)
        tok.take(k)
        try:
            if stop.is_set():
                return
            left = deadline - time.time()
            if left < 5:
                skipped.append((j.name, "no time left"))
                return
            t = min(j.time, left)
            st = time.time()
            rc, out, err = execute(j, ["--jobs", str(k), "--time", str(int(t))], t + 60)
            res = parse(out)
            if rc not in (0, 1) or res is None or res.get("internal"):
                # one retry: an exploration process may have been ended from outside
                rc, out, err = execute(j, ["--jobs", str(k), "--time", str(int(t))], t + 60)
                res = parse(out)
            if rc not in (0, 1) or res is None or (res.get("internal") and not res.get("violation")):
                with lock:
                    errors.append("%s: exit %s %s" % (j.name, rc, (err or out)[-300:]))
                return
            res["t"] = time.time() - st
            v = res.get("violation")
            if v:
                tr = os.path.join(repdir, "%s-%s.trace" % (prop, re.sub(r"[^A-Za-z0-9_.+-]", "_", j.name)))
                with open(tr, "w") as f:
                    f.write(v["trace"])
                # a schedule that ran out of time gets a longer limit before it counts as a hang
                rc2, out2, _ = execute(j, ["--jobs", "1", "--replay", tr, "--cpu", "40"], 120)
                v2 = rc2 == 1 and "REPLAY violation" in out2
                if not v2:
                    if v["msg"].startswith("hang"):
                        with lock:
                            skipped.append((j.name, "slow execution, ended by itself: " + v["msg"][:100]))
                        v = None
                        res["violation"] = None
                    else:
                        with lock:
                            errors.append("%s: violation did not replay: %s" % (j.name, v["msg"]))
                        return
                if v:
                    v["replayed"] = True
                    m = re.search(r"at pc (0x[0-9a-f]+)", v["msg"])
                    if m:
                        where = subprocess.run(["addr2line", "-f", "-i", "-s", "-e", j.binary, m.group(1)], capture_output=True, text=True).stdout.split("\n")
                        v["msg"] += " [%s]" % " < ".join("%s %s" % (where[i], where[i + 1]) for i in range(0, min(len(where) - 1, 6), 2))
                    with open(tr + ".txt", "w") as f:
                        f.write("%s\nbinary: %s\nargs: %s\nreplay: %s --replay %s %s\n\n%s\n\n%s\n" % (
                            j.name, j.binary, " ".join(j.args), j.binary, tr, " ".join(j.args), v["msg"], v["log"]))
                    kf = [x for x in known if re.search(x["job"], j.name) and re.search(x["match"], v["msg"])]
                    with lock:
                        if kf:
                            knowns.append((kf[0], j.name, v["msg"]))
                        else:
                            violations.append((j.name, v["msg"], tr))
                            if not os.environ.get("VERIF_KEEP_GOING"):
                                stop.set()
            results[j.name] = res
        finally:
            tok.give(k)

    runnable = [j for j in jl if j.binary]
    for j in jl:
        if not j.binary:
            skipped.append((j.name, "does not build: " + j.build_error[-600:]))
    ths = []
    for j in sorted(runnable, key=lambda j: -j.weight):
        t = threading.Thread(target=run, args=(j,))
        t.start()
        ths.append(t)
    for t in ths:
        t.join()

    # ---- report
    done = list(results.values())
    S = lambda k: sum(int(r.get(k) or 0) for r in done)
    trunc = [n for n, r in results.items() if r.get("truncated")]
    samples = []
    for n, r in results.items():
        for s in (r.get("samples") or [])[:1]:
            if len(samples) < 12:
                samples.append({"job": n, "case": s})
        if len(samples) >= 12:
            break
    if not samples:
        samples = [{"job": n} for n in list(results)[:5]]
    perjob = {n: {k: r.get(k) for k in ("executions", "states", "outcomes", "transitions", "points", "max_choices", "bound_complete",
                                         "rounds", "points_fixpoint", "crash_ok", "truncated", "t")} for n, r in results.items()}
    for n, r in results.items():
        cl = {i: c for i, c in enumerate(r.get("classes") or []) if c}
        if cl:
            perjob[n]["classes"] = cl
    cov = {"samples": samples, "exhaustive": not trunc and not errors and not skipped and not violations,
           "bounds": spec.get("bounds", ""), "jobs": perjob, "jobs_run": len(done), "jobs_skipped": [list(x) for x in skipped],
           "truncated_jobs": trunc, "build_s": round(tb, 1)}
    lvl = spec["level"]
    if lvl == "model_checking":
        cov.update(states=S("states"), transitions=S("transitions") + S("points"), traces_validated_against_impl=S("executions"),
                   distinct_final_states=S("outcomes"))
    else:
        cov.update(evaluations=S("executions") + S("transitions"), distinct_nontrivial=max(S("outcomes"), S("states")), rule=spec["rule"])
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": lvl, "coverage": cov,
          "assumptions": spec.get("assumptions", []) + jobdefs.COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(os.path.join(evdir, prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for w in dict.fromkeys(k["what"] for k, n, m in knowns):
        print("KNOWN-FINDING: property=%s %s" % (prop, w))
    for n, why in skipped:
        print("note: job %s skipped: %s" % (n, why[:300]))
    for n in trunc:
        print("note: job %s truncated by its time limit" % n)
    for n, m, tr in violations:
        print("violation in %s: %s" % (n, m))
        print("VIOLATION property=%s replay=%s" % (prop, tr))
    print("%s %s: %d jobs, %d executions, %d states, build %.0f s, %.0f s in all" % (
        prop, tier, len(done), S("executions"), S("states"), tb, time.time() - t0))
    if os.environ.get("VERIF_TIMES"):
        for n, r in sorted(results.items(), key=lambda x: -x[1]["t"])[:15]:
            print("   %6.1f s %8d exec %s" % (r["t"], r["executions"], n))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("error: " + e)
        return 2
    if not done:
        print("error: nothing could be explored")
        return 2
    return 0


sys.exit(main())
