#!/usr/bin/env python3
"""write MANIFEST.json from properties.jsonl and the constants of checks/cNN.py"""
import ast, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
NA = {}
for line in open(os.path.join(ROOT, "properties.jsonl")):
    pid = json.loads(line)["id"]
    f = os.path.join(ROOT, "checks", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append(dict(property=pid, reason=NA.get(pid, "check not built yet")))
        continue
    c = {}
    for n in ast.parse(open(f).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id.isupper():
            try: c[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    run = "/opt/venv/bin/python run.py %s " % pid
    checks.append(dict(property=pid, quick_cmd=run + "quick", thorough_cmd=run + "thorough", evidence_file="evidence/%s.json" % pid,
                       technique=c["TECHNIQUE"], level=c.get("LEVEL", "exploration"), level_note=c["NOTE"]))
m = dict(version=1, setup_cmd="/opt/venv/bin/python vlib/build.py plain asan", checks=checks, not_applicable=na,
         notes="No hooks in /repo: all monitors attach from outside (user model, pipes, shared values, files, public attributes). "
               "run.py builds an overlay of /repo's current cpnest package under /verif/.cache, keyed by content.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
