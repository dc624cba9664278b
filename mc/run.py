"""Entry point of every check:  python3 -m mc.run C07 [--replay FILE]

Starts worker processes (one interpreter per worker, because numba reads
NUMBA_DISABLE_JIT at import), merges what they explored, writes the evidence
file, prints the verdict.  Exit 0: held on everything explored.  Exit 1:
VIOLATION line printed.  Anything else is an error of the check.
"""
import argparse
import importlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO_SRC = os.environ.get("VERIF_REPO_SRC", "/repo/src")
PY = "/opt/venv/bin/python"
BUDGET = float(os.environ.get("VERIF_BUDGET_S", "840"))


def env_for(mode, scratch):
    env = dict(os.environ)
    for k in list(env):
        if k.startswith("NUMBA_"):
            env.pop(k)
    env["PYTHONPATH"] = REPO_SRC + os.pathsep + ROOT
    env["PYTHONPYCACHEPREFIX"] = os.path.join(scratch, "pyc")
    env["PYTHONHASHSEED"] = "0"
    env["OMP_NUM_THREADS"] = "1"
    env["OPENBLAS_NUM_THREADS"] = "1"
    env["MPLBACKEND"] = "agg"
    env["TMPDIR"] = scratch
    env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "nb")
    env["NUMBA_DISABLE_JIT"] = "1" if mode in ("interp", "spark") else "0"
    env["PYSPARK_PYTHON"] = PY
    env["PYSPARK_DRIVER_PYTHON"] = PY
    env["SPARK_LOCAL_IP"] = "127.0.0.1"
    env["SPARK_LOCAL_HOSTNAME"] = "localhost"
    env["SPARK_LOCAL_DIRS"] = scratch
    env["PYSPARK_SUBMIT_ARGS"] = (
        "--conf spark.ui.enabled=false --conf spark.ui.showConsoleProgress=false "
        "--conf spark.python.worker.reuse=true --conf spark.driver.host=127.0.0.1 "
        "--conf spark.sql.warehouse.dir=" + scratch + " "
        "--driver-java-options -Djava.io.tmpdir=" + scratch + " pyspark-shell"
    )
    return env


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [x for x in data.get("known", []) if x["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--section")
    ap.add_argument("--modes")
    ap.add_argument("--verbose", action="store_true")
    args = ap.parse_args()
    tier = args.tier if args.tier in ("quick", "thorough") else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = args.check
    t0 = time.time()

    sys.path.insert(0, ROOT)
    meta = json.load(open(os.path.join(ROOT, "mc", "plan.json")))[prop]
    plan = dict(meta["workers"][tier])  # mode -> number of workers
    replay = None
    if args.replay:
        replay = json.load(open(args.replay))
        plan = {replay["mode"]: 1}
        tier = replay["tier"]
    if args.modes:
        plan = {m: plan.get(m, 1) for m in args.modes.split(",")}

    scratch = tempfile.mkdtemp(prefix="mc_%s_" % prop)
    procs = []
    jobs = []
    for mode, n in plan.items():
        for s in range(n):
            jobs.append((mode, s, n))
    # JIT and Spark workers have a long start-up: start them first
    jobs.sort(key=lambda j: {"spark": 0, "jit": 1, "interp": 2}[j[0]])
    pending = list(jobs)
    running = []
    outs = []
    errors = []
    hung = []
    deadline = t0 + (BUDGET if tier == "quick" else BUDGET * 12)
    try:
        while pending or running:
            while pending and len(running) < 8:
                mode, s, n = pending.pop(0)
                out = os.path.join(scratch, "out_%s_%d.json" % (mode, s))
                cmd = [PY, "-m", "mc.worker", prop, tier, mode, str(s), str(n), out,
                       str(seed)]
                if replay:
                    cmd += [replay["section"], replay["key"]]
                elif args.section:
                    cmd += [args.section]
                log = open(os.path.join(scratch, "log_%s_%d" % (mode, s)), "w+")
                p = subprocess.Popen(
                    cmd, env=env_for(mode, scratch), cwd=scratch, stdout=log,
                    stderr=subprocess.STDOUT, start_new_session=True,
                )
                running.append((p, mode, s, out, log))
            for item in list(running):
                p, mode, s, out, log = item
                rc = p.poll()
                if rc is None:
                    if time.time() > deadline:
                        killpg(p)
                        hung.append((mode, s, tail(log)))
                        running.remove(item)
                    continue
                running.remove(item)
                if rc == 0 and os.path.exists(out):
                    outs.append((mode, s, json.load(open(out))))
                else:
                    errors.append((mode, s, rc, tail(log), last_case(out)))
                if args.verbose:
                    print("worker", mode, s, "rc", rc, "%.1fs" % (time.time() - t0))
                    print(tail(log, 1500))
            time.sleep(0.05)
    finally:
        for p, *_ in running:
            killpg(p)
        shutil.rmtree(scratch, ignore_errors=True)

    return report(prop, tier, seed, meta, plan, outs, errors, hung, t0, args)


def killpg(p):
    try:
        os.killpg(p.pid, 9)
    except OSError:
        pass
    try:
        p.wait(5)
    except Exception:
        pass


def tail(log, n=3000):
    try:
        log.flush()
        log.seek(0)
        return log.read()[-n:]
    except Exception:
        return ""


def last_case(out):
    try:
        return json.load(open(out + ".case"))
    except Exception:
        return None


def report(prop, tier, seed, meta, plan, outs, errors, hung, t0, args):
    states = set()
    tot = dict(executions=0, transitions=0, cases=0)
    samples, viol, notes, inconclusive = [], [], {}, []
    per = {}
    bymode = {}
    for mode, s, o in outs:
        states.update(o["states"])
        for k in tot:
            tot[k] += o[k]
        bymode[mode] = bymode.get(mode, 0) + o["executions"]
        samples += o["samples"]
        viol += o["violations"]
        inconclusive += o["inconclusive"]
        for k, v in o["notes"].items():
            notes[k] = notes.get(k, 0) + v
        for k, v in o["per_section"].items():
            x = per.setdefault(mode + "/" + k, [0, 0])
            x[0] += v[0]
            x[1] += v[1]

    # a worker killed by a signal (segfault, abort) inside a case of the code
    # under test, or one that never finishes, is itself an observation
    for mode, s, rc, log, case in errors:
        if case is not None and rc is not None and rc < 0 and rc != -9:
            viol.append(dict(property=prop, section=case["section"], key=case["key"],
                             mode=mode, tier=tier, what="process died with signal %d" % -rc,
                             detail={"log": log[-800:]}))
    hard = [e for e in errors if not (e[4] is not None and e[2] is not None and e[2] < 0 and e[2] != -9)]
    for mode, s, log in hung:
        viol.append(dict(property=prop, section="*", key="*", mode=mode, tier=tier,
                         what="exploration did not terminate within its time limit",
                         detail={"worker": s, "log": log[-500:]}))

    known = known_findings(prop)
    listed, new = {}, []
    for v in viol:
        hit = None
        for k in known:
            if k["what"] == v["what"] and k["section"] == v["section"] and (
                k.get("key") is None or k["key"] == v["key"]
                or (k.get("keys") and v["key"] in k["keys"])
            ):
                hit = k
        if hit is not None:
            listed[hit["summary"]] = listed.get(hit["summary"], 0) + 1
        else:
            new.append(v)

    wall = time.time() - t0
    cov = {
        "states": len(states),
        "transitions": tot["transitions"],
        "traces_validated_against_impl": sum(
            n for m, n in bymode.items() if m in ("jit", "spark")
        ),
        "executions_on_source_interpreter": bymode.get("interp", 0),
        "executions_on_compiled_code": bymode.get("jit", 0),
        "executions_on_real_spark": bymode.get("spark", 0),
        "cases": tot["cases"],
        "exhaustive": not (errors or hung or inconclusive),
        "rule": meta["rule"],
        "bounds": meta["bounds"][tier],
        "per_section_cases_and_executions": per,
        "samples": samples[:6],
        "notes": notes,
        "inconclusive": inconclusive[:20],
    }
    ev = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": meta["level"],
        "coverage": cov,
        "assumptions": meta["assumptions"],
        "wall_s": round(wall, 2),
        "violations": len(new),
    }
    os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
    if not args.replay and not args.section and not args.modes:
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)

    print("%s tier=%s cases=%d executions=%d transitions=%d states=%d wall=%.1fs"
          % (prop, tier, tot["cases"], tot["executions"], tot["transitions"],
             len(states), wall))
    for s, n in sorted(listed.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, s))
    for m in sorted(set(inconclusive))[:5]:
        print("note: not explored here:", m)
    if new:
        total, seen = len(new), {}
        for v in new:
            seen.setdefault((v["section"], v["what"], v["key"].split(".")[0]), v)
        new = list(seen.values())
        top = 60 if args.verbose else 12
        for i, v in enumerate(new[:top]):
            path = os.path.join(ROOT, "evidence", "replay", "%s-%d.json" % (prop, i))
            with open(path, "w") as f:
                json.dump(v, f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("   [%s] %s | case %s | %s" % (
                v["section"], v["what"], v["key"], json.dumps(v["detail"])[:700]))
        print("   %d violations recorded, %d kinds" % (total, len(new)))
        return 1
    if hard:
        for e in hard:
            print("check error: worker %s/%s rc=%s\n%s" % (e[0], e[1], e[2], e[3]))
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
