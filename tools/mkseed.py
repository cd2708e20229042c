"""Plants a bug: mk(id, property, [(file, old, new)...], needs, breaks, demo) writes seeded/<id> after confirming, in a scratch
copy of /repo, that the change compiles, that the existing tests still pass and that the demonstration tells both apart."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", PYTHONPYCACHEPREFIX="/opt/vp/no-pycache", LANG="C.UTF-8", TZ="UTC",
           TEST_INTEGRATION="0", TEST_POSTGRESQL="1", TEST_MYSQL="1", TEST_ORACLE="1", TEST_MSSQL="1")
ENV.pop("PYTHONPATH", None)
DEMO = """#!/bin/bash
# exit 0: the property holds; nonzero: it is broken.  Run with cwd /repo.
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/opt/vp/no-pycache LANG=C.UTF-8 TZ=UTC
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
"""
HEAD = "import os, sys\nsys.path.insert(0, os.getcwd())\n"


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def mk(id, prop, edits, needs, breaks, demo, tests=True):
    scratch = tempfile.mkdtemp(prefix="seed_")
    root = os.path.join(scratch, "repo")
    try:
        shutil.copytree("/repo", root, symlinks=True)
        d = os.path.join(HERE, "seeded", id)
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        open(os.path.join(d, "demo.py"), "w").write(HEAD + demo.strip("\n") + "\n")
        json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(os.path.join(d, "meta.json"), "w"), indent=1)
        r = sh(["bash", os.path.join(d, "demo.sh")], root)
        ok = r.returncode == 0
        msg = [] if ok else ["demo fails unpatched: " + r.stdout[-1500:]]
        for f, old, new in edits:
            p = os.path.join(root, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(id, "EDIT does not match once:", f, s.count(old)); shutil.rmtree(d); return False
            open(p, "w").write(s.replace(old, new))
        patch = sh(["git", "diff"], root).stdout
        open(os.path.join(d, "patch.diff"), "w").write(patch)
        r = sh(["bash", os.path.join(d, "demo.sh")], root)
        if r.returncode == 0:
            msg.append("demo passes patched: " + r.stdout[-800:])
        if tests:
            r = sh(["/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-x", "tests"], root)
            last = r.stdout.strip().splitlines()[-1]
            if "failed" in last or "error" in last:
                msg.append("tests: " + r.stdout[-2500:])
        if msg:
            print(id, "REJECTED\n", "\n".join(msg)); shutil.rmtree(d); return False
        print(id, "ok")
        return True
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
