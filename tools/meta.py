"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # claimed
NA = []     # not claimed


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=observe, hook_needed=None)))


NOTEST = "The existing tests only exercise argument casting on a few sample values; nothing runs this code at all."
exec(open(os.path.join(HERE, "tools", "table.py")).read())

LEVEL_NOTE = ("Every feasible path of the real code is executed symbolically within the bounds stated in the evidence and "
              "z3 decides each assertion for all values of the path; nothing is claimed beyond the bounds. Trusted: "
              "the proxy engine (cross-checked by re-running path models on the plain code), z3, and the listed stubs "
              "of randomness and user-supplied model hooks. Real numbers stand for floats.")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P + [n[0] for n in NA]:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
man = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for p in P:
    i = p["id"]
    man["checks"].append({"property": i, "quick_cmd": "python3 run.py %s --tier quick" % i,
                          "thorough_cmd": "python3 run.py %s --tier thorough" % i,
                          "technique": "bounded symbolic execution of the real Python code, every path decided by z3",
                          "level": "model_checking", "level_note": LEVEL_NOTE})
for p, r in NA:
    man["not_applicable"].append({"property": p["id"], "reason": r})
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
