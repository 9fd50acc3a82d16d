"""One exploration process: runs harness cases symbolically, path by path."""
import importlib
import json
import os
import signal
import subprocess
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SITE = "/opt/venv/lib/python3.12/site-packages"
TOPS = {"pyzwave", "harness"}
TOOL = 3
TIMED_OUT = "replay: killed or timed out"
PATH_S = 12     # processor seconds one path may take outside the solver


class NativeServer:
    def __init__(self):
        py = "/opt/venv/bin/python"
        if not os.path.exists(py):
            py = sys.executable
        environ = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH",)}
        environ["PYTHONPATH"] = os.pathsep.join([REPO, HERE])
        environ["PYTHONHASHSEED"] = "0"
        self.proc = subprocess.Popen(
            [py, "-B", "-m", "symex.native"], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
            stderr=subprocess.DEVNULL, env=environ, cwd=HERE, text=True)

    def run(self, case, inputs, timeout=30):
        req = dict(module=case["module"], fn=case["fn"], params=case["params"], inputs=inputs, timeout=timeout)
        self.proc.stdin.write(json.dumps(req) + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline()
        if not line:
            return {"error": "replay: server died", "violations": [], "reached": [], "observations": [],
                    "assume": False}
        return json.loads(line)

    def stop(self):
        try:
            self.proc.stdin.close()
            self.proc.wait(5)
        except Exception:  # noqa: B902
            self.proc.kill()


class Worker:
    def __init__(self):
        sys.path.append(SITE)
        sys.setrecursionlimit(20000)
        sys.unraisablehook = lambda *_a: None
        from . import core, loader
        self.core, self.loader = core, loader
        for name in list(sys.modules):
            if name.split(".")[0] in TOPS:
                del sys.modules[name]
        sys.path_importer_cache.clear()
        loader.install({"pyzwave": REPO, "harness": HERE})
        core.ENG = self.eng = core.Engine()
        self.functions = set()
        self.native = None
        self.state = None
        self.reloads = 0
        self.slowest = 0.0
        self._path_start = None
        signal.signal(signal.SIGPROF, self._tick)
        self._monitor()
        self._load()

    # ------------------------------------------------------------ loading
    def _monitor(self):
        mon = sys.monitoring
        mon.use_tool_id(TOOL, "encoded-functions")
        prefix = os.path.join(REPO, "pyzwave") + os.sep

        def start(code, _offset):
            if code.co_filename.startswith(prefix):
                self.functions.add((code.co_filename[len(REPO) + 1:], code.co_qualname))
            return mon.DISABLE

        mon.register_callback(TOOL, mon.events.PY_START, start)
        mon.set_events(TOOL, mon.events.PY_START)

    def _load(self):
        self.loader.purge(TOPS)
        self.eng.begin([])
        self.import_error = None
        try:
            for name in ("pyzwave.application", "pyzwave.message", "pyzwave.zipgateway", "pyzwave.mailbox",
                         "pyzwave.persistantstorage"):
                importlib.import_module(name)
        except self.core.PathAbort as exc:
            self.import_error = exc
        except Exception as exc:  # noqa: B902
            self.import_error = exc
        self.containers = None

    def _snapshot(self):
        self.containers = self.loader.mutable_state(TOPS)
        self.state = self.loader.fingerprint(self.containers)

    def _restore(self):
        if self.containers is None:
            return
        if self.loader.fingerprint(self.containers) != self.state:
            self.reloads += 1
            self._load()

    # ----------------------------------------------------------- one path
    def _spent(self):
        cpu, solver = self._path_start
        return time.process_time() - cpu - (self.eng.stats["solver_s"] - solver)

    def _tick(self, _signum, _frame):
        eng = self.eng
        if self._path_start is None or eng.solving or self._spent() < PATH_S:
            return
        eng.aborted = self.core.Endless("more than %d s of processor time on one path" % PATH_S)
        raise eng.aborted

    def path(self, case, prefix, model=None):
        core, eng = self.core, self.eng
        mod = importlib.import_module("harness." + case["module"])
        fn = getattr(mod, case["fn"])
        if self.containers is None:
            self._snapshot()
        from . import env as envmod
        eng.begin(prefix, model)
        env = envmod.SymEnv(case["params"], eng)
        res = {"status": "ok", "violations": [], "reached": [], "prefix": prefix}
        eng.solving = False
        try:
            self._path_start = (time.process_time(), eng.stats["solver_s"])
            signal.setitimer(signal.ITIMER_PROF, 2, 2)
            try:
                fn(env)
            except core.PathAbort:
                raise
            except Exception as exc:  # noqa: B902
                if eng.aborted is not None:
                    raise eng.aborted from exc
                res["trace"] = traceback.format_exc()[-4000:]
                env.violations.append(("uncaught %s" % type(exc).__name__, env.inputs(eng.get_model())))
                res["status"] = "raised"
            finally:
                signal.setitimer(signal.ITIMER_PROF, 0)
                self.slowest = max(self.slowest, self._spent())
                self._path_start = None
            if eng.aborted is not None:
                raise eng.aborted
        except core.Infeasible:
            res["status"] = "infeasible"
        except core.PathDone:
            res["status"] = "done"
        except core.Budget as exc:
            res["status"] = "budget"
            res["why"] = str(exc)
        except core.Endless as exc:
            res["status"] = "endless"
            res["why"] = str(exc)
            res["trace"] = traceback.format_exc()[-4000:]
            eng.aborted, eng.deadline, keep = None, None, eng.deadline
            try:
                res["inputs"] = env.inputs(eng.get_model())
            except core.PathAbort:
                pass
            eng.deadline = keep
        except core.Unsupported as exc:
            res["status"] = "unsupported"
            res["why"] = str(exc)
            res["trace"] = traceback.format_exc()[-4000:]
        except core.PathAbort as exc:
            res["status"] = "unsupported"
            res["why"] = repr(exc)
        except RecursionError as exc:
            res["status"] = "unsupported"
            res["why"] = repr(exc)
        res["violations"] = env.violations
        res["reached"] = env.reached
        res["decisions"] = len(eng.decisions)
        if res["status"] == "ok":
            try:
                eng.deadline, keep = None, eng.deadline
                model = eng.get_model()
                eng.deadline = keep
                res["inputs"] = env.inputs(model)
                res["observed"] = env.observed(model)
            except core.PathAbort as exc:
                res["status"] = "infeasible" if isinstance(exc, core.Infeasible) else "unsupported"
                res["why"] = repr(exc)
        if res["status"] != "infeasible":
            eng.stats["paths"] += 1
        spawned = eng.spawned
        eng.aborted = core.PathDone()   # nothing may consult the solver from here on
        try:
            env.finish()
        except BaseException:  # noqa: B902  discarded coroutines
            pass
        env.observations = []
        del env
        self._restore()
        return res, spawned

    # ---------------------------------------------------------------- job
    def job(self, job):
        """Explore from the given prefixes for a while"""
        case, stack = job["case"], [(list(map(_untuple, p)), None) for p in job["stack"]]
        eng = self.eng
        base = dict(eng.stats)
        start = time.monotonic()
        deadline = job["deadline"]
        eng.deadline = deadline
        out = {"violations": [], "bad": [], "reached": set(), "samples": [], "mismatch": [], "validated": 0,
               "leftover": [], "case": case["name"]}
        want = job["samples"]
        count = 0
        if self.import_error is not None:
            out["bad"].append({"status": "unsupported", "why": "import: %r" % (self.import_error,)})
            stack = []
        while stack:
            now = time.monotonic()
            if now > deadline or (now - start > job["slice"] and count):
                out["leftover"] = [p for p, _m in stack]
                break
            prefix, model = stack.pop()
            res, spawned = self.path(case, prefix, model)
            if res["violations"] and len(out["violations"]) < 12 and self.replay(
                    case, res["violations"][0][1])["assume"]:
                # the inputs break an assumption the path made: ask solvers that start from nothing
                eng.careful = True
                try:
                    res, spawned = self.path(case, prefix)
                finally:
                    eng.careful = False
            count += 1
            stack.extend(spawned)
            out["reached"].update(res["reached"])
            for msg, inputs in res["violations"]:
                if sum(v["msg"] == msg for v in out["violations"]) < 2 and len(out["violations"]) < 12:
                    rep = self.replay(case, inputs)
                    out["violations"].append({
                        "msg": msg, "inputs": inputs, "native": rep, "trace": res.get("trace"),
                        "confirmed": bool(rep["violations"]) or (
                            rep["error"] is not None and not rep["error"].startswith("replay:"))})
            if res["status"] == "endless":
                # the real code decides: it has to run out of time on the same inputs
                res["status"] = "unsupported"
                if res.get("inputs") is not None:
                    rep = self.replay(case, res["inputs"], 15)
                    if rep["error"] in (TIMED_OUT, "MemoryError") or rep["violations"]:
                        res["status"] = "done"
                        out["violations"].append({
                            "msg": rep["violations"][0] if rep["violations"] else "does not come to an end",
                            "inputs": res["inputs"], "native": rep, "trace": res.get("trace"), "confirmed": True})
                        out["leftover"] = [p for p, _m in stack]
                        break
            if res["status"] in ("unsupported", "budget"):
                if res["status"] == "budget":
                    out["leftover"] = [p for p, _m in stack] + [prefix]
                    break
                out["bad"].append({k: res.get(k) for k in ("status", "why", "trace")})
                if len(out["bad"]) > 20:
                    out["leftover"] = [p for p, _m in stack]
                    break
            if res["status"] == "ok" and want > 0 and not res["violations"] and (
                    want > job["samples"] // 2 or count % 7 == 0):
                want -= 1
                rep = self.replay(case, res["inputs"])
                problem = None
                if rep["error"] is not None or rep["violations"] or rep["assume"]:
                    problem = "native run differs"
                elif json.loads(json.dumps(res["observed"])) != rep["observations"]:
                    problem = "observations differ"
                elif res["reached"] != rep["reached"]:
                    problem = "labels differ"
                if problem:
                    out["mismatch"].append({"why": problem, "inputs": res["inputs"], "native": rep,
                                            "symbolic": res["observed"], "reached": res["reached"]})
                else:
                    out["validated"] += 1
                    if len(out["samples"]) < 2:
                        out["samples"].append({"case": case["name"], "inputs": _short(res["inputs"]),
                                               "observed": _short(res["observed"])})
        out["stats"] = {k: eng.stats[k] - base[k] for k in base}
        out["functions"] = sorted(self.functions)
        out["reached"] = sorted(out["reached"])
        out["reloads"] = self.reloads
        out["slowest"] = self.slowest
        return out

    def replay(self, case, inputs, timeout=30):
        if self.native is None:
            self.native = NativeServer()
        rep = self.native.run(case, inputs, timeout)
        if rep["error"] == "replay: server died":
            self.native = NativeServer()
        return rep


def _untuple(d):
    return tuple(d) if isinstance(d, list) else d


def _short(x, limit=40):
    if isinstance(x, dict):
        return dict(list(x.items())[:limit])
    return x[:limit]


def main_loop(tasks, results):
    worker = None
    while True:
        job = tasks.get()
        if job is None:
            break
        try:
            if worker is None:
                worker = Worker()
            results.put((job["id"], worker.job(job)))
        except BaseException as exc:  # noqa: B902
            results.put((job["id"], {"crash": "%r\n%s" % (exc, traceback.format_exc()[-3000:])}))
            worker = None if worker is None else worker
    if worker is not None and worker.native is not None:
        worker.native.stop()
