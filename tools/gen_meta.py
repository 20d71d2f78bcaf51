#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after editing them)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G, R, W, F, U, S = ("src/gsply/gsdata.py", "src/gsply/reader.py", "src/gsply/writer.py", "src/gsply/formats.py",
                    "src/gsply/utils.py", "src/gsply/sog_reader.py")
T, TC, TI = "src/gsply/torch/gstensor.py", "src/gsply/torch/compression.py", "src/gsply/torch/io.py"
P = []      # properties
CLAIM = {}  # id -> (technique, level_note)


def prop(i, title, statement, over, text, why, files, mech, note=None, state=None):
    d = dict(id=i, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, (i, len(title))
    P.append(d)
    if note:
        CLAIM[i] = note


TECH = ("symbolic execution of the real Python/Numba/NumPy source (AST to SMT, regenerated each run), z3 decides every "
        "obligation over all values within the bounds; counterexamples replayed on the real code")

exec(open(os.path.join(HERE, "tools", "props.py")).read())

NA = [dict(property=i, reason=r) for i, r in NOT_APPLICABLE.items()]
man = dict(version=1,
           setup_cmd="python3-vt -c 'import z3, numpy' && /opt/venv/bin/python -c 'import numpy, numba'",
           checks=[dict(property=i, quick_cmd=f"python3-vt run.py {i} --tier quick",
                        thorough_cmd=f"python3-vt run.py {i} --tier thorough",
                        evidence_file=f"evidence/{i}.json", technique=TECH, level="model_checking", level_note=n)
                   for i, n in CLAIM.items()],
           not_applicable=NA,
           notes="See DESIGN.md. No hooks in /repo. /repo carries 'fix:' commits only, listed in KNOWN_FINDINGS.txt.")
missing = [d["id"] for d in P if d["id"] not in CLAIM and d["id"] not in NOT_APPLICABLE]
assert not missing, missing
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for d in P:
        jsonschema.validate(d, s)
    jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(P), "properties,", len(CLAIM), "claimed")
