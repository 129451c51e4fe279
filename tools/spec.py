"""Source of properties.jsonl and MANIFEST.json (run: python tools/spec.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
PROPS, CHECKS, NA = [], [], []


def prop(id, title, statement, over, text, why, files, mechanism, technique, note,
         observe=None, na=None):
    anchors = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism])
    if observe:
        anchors["observe_at"] = observe if isinstance(observe, list) else [observe]
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=anchors))
    if na:
        NA.append(dict(property=id, reason=na))
        return
    CHECKS.append(dict(
        property=id,
        quick_cmd="%s -m regmon %s --tier quick" % (PY, id),
        thorough_cmd="%s -m regmon %s --tier thorough" % (PY, id),
        evidence_file="evidence/%s.json" % id,
        technique=technique, level="exploration", level_note=note))


TRUST = (" Trusts numpy/scipy linear algebra and the independent reference code in regmon; "
         "sampled executions, not a proof.")
SOLV_NOTE = ("Every observed solver run that claims convergence is compared with a feasible "
             "point found by an independent solver started both at the answer and cold; "
             "exploration of several hundred (quick) to several thousand (thorough) seeded "
             "problems." + TRUST)

exec(open(os.path.join(ROOT, "tools", "spec_props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1,
                   setup_cmd=PY + " -c \"import regmon.core, regmon.refsolve\"",
                   checks=CHECKS, not_applicable=NA,
                   notes="No hooks are compiled into /repo: monitors wrap public entry points "
                         "and callables at run time from /verif/regmon."), f, indent=1)
    f.write("\n")
import sys
try:
    import jsonschema
    s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPS:
        jsonschema.validate(p, s)
    jsonschema.validate(json.load(open(os.path.join(ROOT, "MANIFEST.json"))),
                        json.load(open("/root/.vp/MANIFEST.schema.json")))
    print("valid", len(PROPS), len(CHECKS))
except ImportError:
    print("written (not validated)")
for p in PROPS:
    for f in p["anchors"]["files"]:
        if not os.path.exists("/repo/" + f):
            print("no such file:", f)
