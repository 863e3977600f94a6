"""Writes /verif/DESIGN.md: hand-written text below + bounds, stubs and assumptions of the harness files (so they cannot drift)."""
import ast, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = {}
for l in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(l)
    props[d["id"]] = d


def meta(pid):
    p = os.path.join(V, "harness", pid.lower() + ".py")
    if not os.path.exists(p):
        return None
    out = {}
    for n in ast.parse(open(p).read()).body:
        if isinstance(n, ast.Assign) and n.targets[0].id in ("META", "MODULES"):
            out[n.targets[0].id] = eval(compile(ast.Expression(n.value), p, "eval"))
    return out


HEAD = open(os.path.join(V, "tools", "design_head.md")).read()
TAIL = open(os.path.join(V, "tools", "design_tail.md")).read()
rows = ["| id | check that catches it | what it breaks | needs |", "|---|---|---|---|"]
for s in sorted(os.listdir(os.path.join(V, "seeded"))):
    d = json.load(open(os.path.join(V, "seeded", s, "meta.json")))
    rows.append("| %s | %s | %s | %s |" % (s, d["property"], d["what_it_breaks"], d["needs"]))
TAIL = TAIL.replace("@SEEDS@", "\n".join(rows))
TEXT = {}
cur = None
for line in open(os.path.join(V, "tools", "design_props.md")):
    m = re.match(r"## (C\d\d) cost=(.*)", line)
    if m:
        cur = m.group(1)
        TEXT[cur] = [m.group(2).strip(), ""]
    elif cur:
        TEXT[cur][1] += line
out = [HEAD.rstrip(), "", "## Properties", ""]
for pid, d in props.items():
    out.append("### %s %s" % (pid, d["title"]))
    out.append("")
    cost, txt = TEXT.get(pid, ["", ""])
    out.append(txt.strip())
    m = meta(pid)
    if m:
        M = m["META"]
        out.append("")
        out.append("- executed symbolically: %s" % ", ".join(m["MODULES"]))
        out.append("- bounds: %s" % M["bounds"])
        out.append("- outside: %s" % M["outside"])
        if M["stubs"]:
            out.append("- stand-ins: %s" % "; ".join(M["stubs"]))
        if M["assumptions"]:
            out.append("- assumptions: %s" % "; ".join(M["assumptions"]))
        out.append("- cost (quick): about %s" % cost)
        out.append("- why tests cannot settle it: %s" % d["why_tests_cant"])
    out.append("")
out.append(TAIL.rstrip())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out) + "\n")
print("DESIGN.md", len("\n".join(out)))
