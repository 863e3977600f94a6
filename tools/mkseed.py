"""usage: mkseed.py [ids...]  Builds /verif/seeded/<id>/ from tools/seeds.py and validates each in a scratch copy of /repo:
patch applies, package builds, stable tests pass, demo passes on the unchanged tree and fails with the patch."""
import json, os, shutil, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seeds import SEEDS
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
notest = "--notest" in sys.argv
want = [a for a in sys.argv[1:] if not a.startswith("-")]
W = os.environ.get("SEEDWORK", "/tmp/seedwork")


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def demo(d):
    env = dict(os.environ, PYTHONPATH=W, PYTHONDONTWRITEBYTECODE="1")
    try:
        r = sh(["bash", os.path.join(d, "demo.sh")], cwd=W, env=env, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-600:]
    except subprocess.TimeoutExpired:
        return 124, "timeout"


for s in SEEDS:
    if want and s["id"] not in want:
        continue
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree(os.environ.get("SEEDSRC", "/repo"), W, symlinks=True)
    sh(["git", "-C", W, "checkout", "-q", "--", "."])
    for (f, a, b) in s["edits"]:
        p = os.path.join(W, f)
        t = open(p, newline="").read()
        if "\r\n" in t:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        if t.count(a) != 1:
            print(s["id"], "EDIT", f, t.count(a)); break
        open(p, "w", newline="").write(t.replace(a, b))
    else:
        d = os.path.join(V, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(["git", "-C", W, "diff"], capture_output=True).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(s["demo"].lstrip("\n"))
        open(os.path.join(d, "demo.sh"), "w").write('#!/bin/bash\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, out = demo(d)
        ok = rc not in (0,)
        msg = out if not ok else out.strip().splitlines()[-1:] if out.strip() else ""
        tests = "not run"
        if not notest:
            t = open("/opt/vp/test.sh").read().replace("/opt/vp/reports", "/tmp/seedreports").replace("/repo", W).replace("unset PYTHONPATH PYTEST_ADDOPTS", "unset PYTEST_ADDOPTS; export PYTHONPATH=" + W)
            open("/tmp/seedtest.sh", "w").write(t)
            r = sh(["bash", "/tmp/seedtest.sh", "/tmp/seedout.json"])
            tests = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else r.stderr[-300:]
        sh(["git", "-C", W, "checkout", "-q", "--", "."])
        rc0, out0 = demo(d)
        print(s["id"], "demo with bug rc=%s (%s)" % (rc, msg), "| clean rc=%s %s" % (rc0, out0[-300:] if rc0 else ""), "| tests:", tests, flush=True)
shutil.rmtree(W, ignore_errors=True)
