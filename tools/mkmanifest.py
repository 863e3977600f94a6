"""Writes /verif/MANIFEST.json from the harness files present and properties.jsonl."""
import json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NA = {
 "C28": "the fit runs scipy's iterative minimiser and adaptive quadrature (compiled LAPACK/QUADPACK code, unbounded iterations over transcendental functions): neither can be executed symbolically nor bounded meaningfully; the derivative consistency the fit relies on is decided under C21",
 "C29": "distinctness of md5-derived seeds and statistical independence of a pseudo random generator is a hash/PRNG quality claim, false in the worst case (32-bit seeds collide) and not decidable by symbolic execution; that the seed depends on the id alone is decided under C10",
}
pid = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
have = sorted(f[:-3].upper() for f in os.listdir(os.path.join(V, "harness")) if re.match(r"c\d\d\.py$", f))
checks = []
for p in pid:
    if p not in have:
        continue
    checks.append(dict(property=p, quick_cmd="python3 check.py %s quick" % p, thorough_cmd="python3 check.py %s thorough" % p,
        technique="bounded symbolic execution of the real Python functions + Z3, counterexamples replayed on the unpatched code",
        level="other",
        level_note="Path-exhaustive within the bounds written to the evidence file; floats are modelled as exact reals plus NaN/inf, transcendental functions as uninterpreted functions with axioms; stubs and assumptions are listed in the evidence. Trusted: the symbolic numpy layer (every reported violation is reproduced on the real code first; path witnesses are replayed as well) and Z3."))
na = [dict(property=p, reason=NA.get(p, "check not built yet")) for p in pid if p not in have]
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), [x["property"] for x in na])
