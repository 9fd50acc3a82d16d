"""Replay server: runs harnesses with concrete inputs against the real code.

One JSON request per line on stdin, one JSON reply per line on stdout; every
request runs in a forked child, so no state survives it.
"""
import importlib
import json
import os
import sys


def one(req):
    import logging
    import traceback
    from symex import env as envmod
    logging.disable(logging.CRITICAL)
    sys.unraisablehook = lambda *_a: None
    env = envmod.NativeEnv(req["params"], req["inputs"])
    out = {"error": None, "assume": False}
    try:
        mod = importlib.import_module("harness." + req["module"])
        getattr(mod, req["fn"])(env)
    except envmod.AssumeFailed:
        out["assume"] = True
    except envmod.CheckStop:
        pass
    except Exception as exc:  # noqa: B902
        out["error"] = type(exc).__name__
        out["trace"] = traceback.format_exc()[-3000:]
    except KeyboardInterrupt:
        out["error"] = "KeyboardInterrupt"
    out["violations"] = env.violations
    out["reached"] = env.reached
    out["observations"] = [(l, envmod.canon(v)) for l, v in env.observations]
    try:
        env.finish()
    except Exception:  # noqa: B902
        pass
    return out


def main():
    sys.dont_write_bytecode = True
    import asyncio  # noqa: F401
    import yaml  # noqa: F401
    import crcmod.predefined  # noqa: F401
    real_out = os.fdopen(os.dup(1), "w")
    os.dup2(2, 1)
    try:
        for name in ("pyzwave.application", "pyzwave.zipgateway", "pyzwave.mailbox", "pyzwave.persistantstorage"):
            importlib.import_module(name)
    except Exception:  # noqa: B902  reported by the individual requests
        pass
    for line in sys.stdin:
        req = json.loads(line)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            import resource
            import signal
            resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
            signal.alarm(req.get("timeout", 30))
            try:
                data = json.dumps(one(req))
            except BaseException as exc:  # noqa: B902
                data = json.dumps({"error": "replay: %r" % (exc,), "violations": [], "reached": [],
                                   "observations": [], "assume": False})
            with os.fdopen(w, "w") as f:
                f.write(data)
            os._exit(0)
        os.close(w)
        with os.fdopen(r) as f:
            data = f.read()
        os.waitpid(pid, 0)
        if not data:
            data = json.dumps({"error": "replay: killed or timed out", "violations": [], "reached": [],
                               "observations": [], "assume": False})
        real_out.write(data + "\n")
        real_out.flush()


if __name__ == "__main__":
    main()
