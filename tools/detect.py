"""usage: detect.py [ids...]  apply each planted bug to /repo, run its property's quick check, undo"""
import json, os, subprocess, sys
V = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(V, "seeded")))
for i in ids:
    d = os.path.join(V, "seeded", i)
    m = json.load(open(os.path.join(d, "meta.json")))
    p = m["property"]
    if not os.path.exists(os.path.join(V, "harness", p.lower() + ".py")):
        print(i, p, "no check"); continue
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == ""
    subprocess.check_call(["git", "-C", "/repo", "apply", os.path.join(d, "patch.diff")])
    try:
        r = subprocess.run([sys.executable, "check.py", p, "quick"], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "--", "."])
    print(i, p, "CAUGHT" if r.returncode == 1 and "VIOLATION property=%s" % p in r.stdout else "MISSED rc=%d" % r.returncode,
          [l for l in r.stdout.splitlines() if "violated" in l or "INCONC" in l][:1], flush=True)
