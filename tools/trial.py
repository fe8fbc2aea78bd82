#!/usr/bin/env python3
"""trial.py [id...] [--checks C01,C02]: run the checks of the planted changes' properties against scratch copies with the change applied"""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def trial(i):
    d = os.path.join(ROOT, "seeded", i)
    prop = json.load(open(d + "/meta.json"))["property"]
    work = "/tmp/trial-%s" % i
    shutil.rmtree(work, ignore_errors=True)
    subprocess.run(["cp", "-a", "/repo", work], check=True)
    out = []
    try:
        subprocess.run(["git", "-C", work, "apply", d + "/patch.diff"], check=True)
        for c in (CHECKS or [prop]):
            t = time.time()
            r = subprocess.run(["/opt/venv/bin/python", ROOT + "/run.py", c], cwd=ROOT, env=dict(os.environ, VERIF_REPO=work), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION") or "kind" in l[:12]]
            extra = [l for l in r.stdout.splitlines() if not l.startswith(("observed", "KNOWN"))]
            hit = r.returncode == 1 and any("property=%s " % c in l for l in v)
            out.append("%s %s %s %.0fs | %s" % (i, c, "CAUGHT" if hit else "MISSED rc=%d" % r.returncode, time.time() - t, (" / ".join(extra))[:330]))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for l in out:
        print(l, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    CHECKS = None
    if "--checks" in a:
        k = a.index("--checks")
        CHECKS = a[k + 1].split(",")
        del a[k:k + 2]
    ids = a or sorted(os.listdir(ROOT + "/seeded"))
    with ThreadPoolExecutor(int(os.environ.get("J", "2"))) as ex:
        list(ex.map(trial, ids))
