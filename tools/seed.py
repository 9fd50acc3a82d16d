"""Verifies seeded bugs: tools/seed.py ID... (or all)

applies the patch in a scratch copy, checks that it builds, passes the stable
tests, that the demo tells the difference, and (with --check) that the check of
its property reports it.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

ROOT = "/verif/seeded"
args = [a for a in sys.argv[1:] if not a.startswith("-")]
ids = args or sorted(os.listdir(ROOT))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def demo(repo, sid):
    with tempfile.TemporaryDirectory() as d:
        where = os.path.join(d, "x")
        shutil.copytree(os.path.join(ROOT, sid), where, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        return sh("bash %s/demo.sh" % where, cwd=repo, timeout=300)


for sid in ids:
    meta = json.load(open(os.path.join(ROOT, sid, "meta.json")))
    patch = os.path.join(ROOT, sid, "patch.diff")
    removed = [l[1:] for l in open(patch) if l.startswith("-") and not l.startswith("---")]
    base = sh("git -C /repo diff d9dc1d0 HEAD").stdout
    mine = set(l[1:] for l in base.splitlines(True) if l.startswith("+") and not l.startswith("+++"))
    own = [l for l in removed if l in mine and l.strip()]
    note = " OWN-LINES %r" % own if own else ""
    if removed == []:
        note += " ADDS-ONLY"
    scratch = tempfile.mkdtemp(prefix="seed.")
    try:
        # all of it in a copy, so that /repo stays as it is meanwhile
        sh("cp -a /repo %s/repo" % scratch)
        repo = scratch + "/repo"
        sh("git checkout -- .", cwd=repo)
        clean = demo(repo, sid)
        r = sh("git apply %s" % patch, cwd=repo)
        assert r.returncode == 0, (sid, r.stderr)
        broken = demo(repo, sid)
        out = ["demo clean=%d patched=%d" % (clean.returncode, broken.returncode)]
        if clean.returncode or not broken.returncode:
            print(clean.stdout, clean.stderr, broken.stdout)
        r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider", cwd=repo)
        bad = [t for t in re.findall(r"^FAILED (\S+)", r.stdout, re.M) if "test_enum_t_IntFlags" not in t]
        out.append("tests %s" % ("ok" if not bad and " passed" in r.stdout else "FAIL %s" % bad[:3]))
        if "--check" in sys.argv:
            c = sh("python3 /verif/run.py check %s --tier quick" % meta["property"], cwd="/verif",
                   env=dict(os.environ, VERIF_REPO=repo))
            caught = c.returncode == 1 and "VIOLATION property=%s" % meta["property"] in c.stdout
            out.append("CAUGHT" if caught else "MISSED rc=%d" % c.returncode)
            out.append([l.strip() for l in c.stdout.splitlines()][1:2])
    finally:
        shutil.rmtree(scratch)
    print(sid, meta["property"], *out, note)
