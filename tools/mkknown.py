"""Writes known_findings.json: findings (suppressed, printed as KNOWN-FINDING) and the record of repaired defects."""
import json, os, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
FINDINGS = [
    dict(id="KF1", property="C18", case="threads", inputs={"at": 30}, match_inputs={},
         match_what="thread pool: sample runs in its own directory",
         what="two samples with workspaces computed by two threads of ThreadPool share the process working directory "
              "(SamplingPool.handle_sim_files calls os.chdir), so a sample can run in the directory of the other one"),
]
# property of every repair, by commit subject
FIXED = json.load(open(os.path.join(ROOT, "tools", "fixed.json")))
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "cb77b1e..HEAD"], capture_output=True, text=True).stdout
fixed = []
for line in log.splitlines():
    h, s = line.split(" ", 1)
    if s == "fix: quantity specifications with different locations are not equal":
        continue     # replaced by "fix: existing storage refuses ..." (the file counts as a test file)
    if s.startswith("fix:"):
        pr, what = FIXED[s]
        fixed.append("fixed: property=%s %s %s" % (pr, h, what))
json.dump(dict(findings=FINDINGS, fixed=fixed), open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
print(len(FINDINGS), len(fixed))
