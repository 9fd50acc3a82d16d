#!/usr/bin/env python3
"""Driver.

    run.py check C07 [--tier quick|thorough]   decide one property
    run.py list                                cases per property
    run.py replay FILE                         run a recorded counterexample on the real code
    run.py setup                               self-test of the engine
"""
import argparse
import fnmatch
import glob
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
BUDGET = {"quick": 600.0, "thorough": 3000.0}


def reexec():
    """z3 lives in the tool venv; hash seeds are fixed for reproducible runs"""
    ok = os.environ.get("PYTHONHASHSEED") == "0"
    try:
        import z3  # noqa: F401
    except ImportError:
        ok = False
    if not ok and os.environ.get("VERIF_REEXEC") != "1":
        env = dict(os.environ, PYTHONHASHSEED="0", VERIF_REEXEC="1", PYTHONDONTWRITEBYTECODE="1")
        env.pop("PYTHONPATH", None)
        exe = PY if os.path.exists(PY) else sys.executable
        os.execve(exe, [exe, "-B"] + sys.argv, env)


def all_cases():
    out = []
    for path in sorted(glob.glob(os.path.join(HERE, "harness", "*.py"))):
        name = os.path.basename(path)[:-3]
        if name == "__init__":
            continue
        mod = importlib.import_module("harness." + name)
        for case in getattr(mod, "CASES", ()):
            case.setdefault("module", name)
            case.setdefault("params", {})
            out.append(case)
    names = [c["name"] for c in out]
    assert len(set(names)) == len(names), "duplicate case names"
    return out


def load_known():
    with open(os.path.join(HERE, "known_findings.json")) as fd:
        return json.load(fd)


def known_for(known, prop, case, msg):
    for k in known["findings"]:
        if k["property"] == prop and fnmatch.fnmatchcase(case, k["case"]) and re.fullmatch(k["msg"], msg):
            return k
    return None


class Pool:
    def __init__(self, n):
        from symex import worker
        ctx = mp.get_context("fork")
        self.results = ctx.Queue()
        self.workers = []
        for _ in range(n):
            tasks = ctx.SimpleQueue()
            proc = ctx.Process(target=worker.main_loop, args=(tasks, self.results), daemon=True)
            proc.start()
            self.workers.append([proc, tasks, None])

    def stop(self, hard):
        for proc, tasks, busy in self.workers:
            if hard and busy is not None:
                proc.terminate()
            else:
                tasks.put(None)
        end = time.monotonic() + 10
        for proc, _t, _b in self.workers:
            proc.join(max(0.1, end - time.monotonic()))
            if proc.is_alive():
                proc.kill()
                proc.join(2)


def explore(cases, budget, samples, jobs, known, prop, keep=False):
    import queue
    start = time.monotonic()
    deadline = start + budget
    per = {c["name"]: dict(case=c, stats={}, reached=set(), violations=[], bad=[], mismatch=[], validated=0,
                           samples=[], wall=0.0, left=0, jobs=0) for c in cases}
    pending = [dict(case=c, stack=[[]], samples=c.get("samples", samples), first=True) for c in
               sorted(cases, key=lambda c: -c.get("weight", 1))]
    functions = set()
    slowest = 0.0
    crash = []
    pool = Pool(min(jobs, max(1, jobs)))
    next_id = 0
    stop_at = None
    running = {}
    try:
        while pending or running:
            now = time.monotonic()
            if stop_at is not None and now > stop_at:
                for r in running.values():
                    per[r["case"]["name"]]["left"] += len(r["stack"])
                for r in pending:
                    per[r["case"]["name"]]["left"] += len(r["stack"])
                break
            idle = [w for w in pool.workers if w[2] is None]
            while idle and pending and stop_at is None:
                w = idle.pop()
                job = pending.pop(0)
                next_id += 1
                job["id"] = next_id
                job["deadline"] = deadline
                job["slice"] = 0.7 if len(pending) < jobs else 4.0
                w[2] = next_id
                running[next_id] = job
                w[1].put({k: job[k] for k in ("id", "case", "stack", "deadline", "slice", "samples")})
            if not running:
                break
            try:
                jid, out = pool.results.get(timeout=1.0)
            except queue.Empty:
                for w in pool.workers:
                    if w[2] is not None and not w[0].is_alive():
                        job = running.pop(w[2])
                        crash.append("worker died in case %s (exit %s)" % (job["case"]["name"], w[0].exitcode))
                        w[2] = -1
                if now > deadline + 60:
                    crash.append("workers do not answer")
                    break
                continue
            job = running.pop(jid, None)
            for w in pool.workers:
                if w[2] == jid:
                    w[2] = None
            if job is None:
                continue
            if "crash" in out:
                crash.append("%s: %s" % (job["case"]["name"], out["crash"]))
                continue
            rec = per[job["case"]["name"]]
            rec["jobs"] += 1
            for k, v in out["stats"].items():
                rec["stats"][k] = rec["stats"].get(k, 0) + v
            rec["reached"].update(out["reached"])
            rec["violations"] += out["violations"]
            rec["bad"] += out["bad"]
            rec["mismatch"] += out["mismatch"]
            rec["validated"] += out["validated"]
            rec["samples"] += out["samples"]
            functions.update(map(tuple, out["functions"]))
            slowest = max(slowest, out["slowest"])
            if not keep and stop_at is None and any(
                    (v["confirmed"] and known_for(known, prop, job["case"]["name"], v["msg"]) is None)
                    for v in out["violations"]):
                stop_at = time.monotonic() + 3.0
            left = out["leftover"]
            if left:
                if time.monotonic() > deadline:
                    rec["left"] += len(left)
                    continue
                # shallow prefixes are the big subtrees: deal them out
                want = max(1, jobs - len(pending) - len(running)) if len(pending) < jobs else 1
                want = min(len(left), max(want, 1 if len(pending) >= 2 * jobs else 4))
                for i in range(want):
                    pending.append(dict(case=job["case"], stack=left[i::want],
                                        samples=max(0, min(4, job["samples"] - 4)), first=False))
    finally:
        pool.stop(hard=True)
    for r in pending:
        if stop_at is None:
            per[r["case"]["name"]]["left"] += len(r["stack"])
    return per, functions, crash, time.monotonic() - start, slowest


def check(prop, tier, opts):
    known = load_known()
    cases = [c for c in all_cases() if c["prop"] == prop and tier in c.get("tiers", ("quick", "thorough"))]
    if opts.case:
        cases = [c for c in cases if fnmatch.fnmatchcase(c["name"], opts.case)]
    if not cases:
        print("no cases for %s" % prop)
        return 2
    budget = opts.budget or BUDGET[tier]
    per, functions, crash, wall, slowest = explore(cases, budget, 6 if tier == "quick" else 20, opts.jobs, known, prop,
                                            opts.keep)
    confirmed, unconfirmed, known_hit = [], [], {}
    problems = list(crash)
    for name, rec in sorted(per.items()):
        for v in rec["violations"]:
            if not v["confirmed"]:
                unconfirmed.append((name, v))
                continue
            # what the real code did decides, where it stopped somewhere else than the engine
            msg = v["msg"] if v["msg"] in v["native"]["violations"] or not v["native"]["violations"] \
                else v["native"]["violations"][0]
            k = known_for(known, prop, name, msg)
            if k is not None:
                known_hit.setdefault(k["id"], (k, name, v))
            else:
                confirmed.append((name, msg, v))
        for m in rec["mismatch"]:
            nat = m["native"]
            if nat["violations"] or (nat["error"] and not nat["error"].startswith("replay:")):
                msg = nat["violations"][0] if nat["violations"] else "uncaught " + nat["error"]
                k = known_for(known, prop, name, msg)
                if k is None:
                    confirmed.append((name, msg, dict(inputs=m["inputs"], native=nat, msg=msg)))
                    continue
            problems.append("%s: engine and real code disagree (%s) on %s\n   engine %s\n   real   %s" % (
                name, m["why"], json.dumps(m["inputs"])[:500], json.dumps(m["symbolic"])[:600],
                json.dumps(nat)[:900]))
        for b in rec["bad"][:3]:
            problems.append("%s: %s: %s\n%s" % (name, b.get("status"), b.get("why"), (b.get("trace") or "")[-1800:]))
        if rec["left"]:
            problems.append("%s: budget used up, %d prefixes unexplored" % (name, rec["left"]))
        missing = set(rec["case"].get("reach", ())) - rec["reached"]
        if missing and not rec["violations"]:
            problems.append("%s: never reached %s" % (name, sorted(missing)))
        # a listed finding that no longer shows up is no alarm
    for name, v in unconfirmed[:5]:
        problems.append("%s: counterexample not reproduced by the real code: %s %s native=%s\n%s" % (
            name, v["msg"], json.dumps(v["inputs"])[:600], json.dumps(v["native"])[:600], (v.get("trace") or "")[-1500:]))

    total = {}
    for rec in per.values():
        for k, v in rec["stats"].items():
            total[k] = total.get(k, 0) + v
    rate = {}
    for rec in per.values():
        s = rec["stats"]
        rate[rec["case"]["name"]] = {
            "paths": s.get("paths", 0), "solver_queries": s.get("queries", 0),
            "bounds": rec["case"].get("bounds", rec["case"]["params"]), "reached": sorted(rec["reached"]),
            "complete": not rec["left"] and not rec["bad"]}
    exhaustive = not problems and not confirmed
    evidence = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking",
        "coverage": {
            "states": int(total.get("paths", 0)), "transitions": int(total.get("branches", 0)),
            "traces_validated_against_impl": sum(r["validated"] for r in per.values()),
            "samples": [s for r in per.values() for s in r["samples"]][:8],
            "exhaustive": exhaustive,
            "explanation": "states = feasible symbolic paths through the real functions, transitions = symbolic "
                           "branches decided by z3; every path condition covers all inputs that follow it. "
                           "traces_validated = one concrete model of a path, run on the unmodified code in a plain "
                           "interpreter with identical observations.",
            "functions_encoded": sorted("%s:%s" % f for f in functions),
            "functions_encoded_count": len(functions),
            "solver_queries": int(total.get("queries", 0)),
            "solver_seconds": round(total.get("solver_s", 0.0), 2),
            "assertions": int(total.get("checks", 0)),
            "assertions_trivial": int(total.get("checks_trivial", 0)),
            "cases": rate,
            "slowest_path_s": round(slowest, 2),
            "known_findings_seen": sorted(known_hit),
            "unfinished": problems[:20],
        },
        "assumptions": sorted({a for r in per.values() for a in r["case"].get("assumes", ())}) + [
            "CPython semantics of the interpreted built-ins as modelled in symex/ (validated by the replayed traces)",
            "asyncio, sockets and the clock are replaced by a deterministic virtual loop"],
        "wall_s": round(wall, 2), "violations": len(confirmed),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as fd:
        json.dump(evidence, fd, indent=1)
    if opts.verbose:
        for name, rec in sorted(per.items()):
            s = rec["stats"]
            print("%-40s paths %6d queries %6d solver %.1fs validated %d reached %s" % (
                name, s.get("paths", 0), s.get("queries", 0), s.get("solver_s", 0), rec["validated"],
                ",".join(sorted(rec["reached"]))))
    print("%s %s: %d cases, %d paths, %d branches, %d queries (%.1fs), %d assertions, %d traces validated, %.1fs" % (
        prop, tier, len(per), total.get("paths", 0), total.get("branches", 0), total.get("queries", 0),
        total.get("solver_s", 0.0), total.get("checks", 0),
        evidence["coverage"]["traces_validated_against_impl"], wall))
    for k, name, v in known_hit.values():
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    folder = os.path.join(HERE, "evidence", "replay")
    if os.path.isdir(folder):
        for old in os.listdir(folder):
            if old.startswith(prop + "-"):
                os.unlink(os.path.join(folder, old))
    if confirmed:
        os.makedirs(folder, exist_ok=True)
        seen = set()
        for i, (name, msg, v) in enumerate(confirmed):
            if msg in seen:
                continue
            seen.add(msg)
            path = os.path.join(folder, "%s-%d.json" % (prop, i))
            case = per[name]["case"]
            with open(path, "w") as fd:
                json.dump({"property": prop, "case": name, "module": case["module"], "fn": case["fn"],
                           "params": case["params"], "inputs": v["inputs"], "what": msg, "native": v["native"],
                           "command": "python3 run.py replay %s" % path}, fd, indent=1)
            print("  %s: %s" % (name, msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            if len(seen) >= 5:
                break
        return 1
    if problems:
        print("INCONCLUSIVE property=%s" % prop)
        for p in problems[:10]:
            print("  " + p)
        return 2
    return 0


def replay(path):
    from symex import worker
    with open(path) as fd:
        rec = json.load(fd)
    server = worker.NativeServer()
    out = server.run(rec, rec["inputs"])
    server.stop()
    print(json.dumps(out, indent=1))
    return 1 if out["violations"] or out["error"] else 0


def main():
    ap = argparse.ArgumentParser()
    sub = ap.add_subparsers(dest="cmd", required=True)
    c = sub.add_parser("check")
    c.add_argument("prop")
    c.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=("quick", "thorough"))
    c.add_argument("--budget", type=float)
    c.add_argument("--jobs", type=int, default=JOBS)
    c.add_argument("--case")
    c.add_argument("-v", "--verbose", action="store_true")
    c.add_argument("--keep", action="store_true", help="explore everything, also after a violation")
    r = sub.add_parser("replay")
    r.add_argument("file")
    sub.add_parser("list")
    sub.add_parser("setup")
    opts = ap.parse_args()
    reexec()
    sys.path.insert(0, HERE)
    sys.dont_write_bytecode = True
    if opts.cmd == "check":
        sys.stdout.flush()
        code = check(opts.prop, opts.tier, opts)
        sys.stdout.flush()
        os._exit(code)
    if opts.cmd == "replay":
        sys.exit(replay(opts.file))
    if opts.cmd == "list":
        for case in all_cases():
            print(case["prop"], case["name"], case.get("tiers", "both"), case["params"])
        return
    if opts.cmd == "setup":
        from symex import worker
        w = worker.Worker()
        if w.import_error is not None:
            print("setup: import of pyzwave under the engine failed: %r" % (w.import_error,))
            os._exit(1)
        print("setup: ok")
        os._exit(0)


if __name__ == "__main__":
    main()
