#!/usr/bin/env python3
"""seed.py SPEC.py [id...]: make /verif/seeded/<id> from a specification, after confirming in a scratch copy that the change
applies to original lines, builds, passes the stable tests, and that the demonstration tells the two apart."""
import json, os, re, runpy, shutil, signal, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "52479c7"
DEMO = '''#!/bin/bash
export MPLBACKEND=Agg OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0
exec timeout -k 5 %d /opt/venv/bin/python "$(realpath "$(dirname "$0")")/demo.py"
'''


class Result:
    pass


def sh(cmd, cwd=None, env=None, timeout=600):
    """the output goes to a file: a process that outlives the command must not keep us waiting; what is left of it is ended"""
    r = Result()
    with tempfile.TemporaryFile("w+") as f:
        p = subprocess.Popen(cmd, shell=True, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            r.returncode = p.wait(timeout)
        except subprocess.TimeoutExpired:
            r.returncode = 124
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        f.seek(0)
        r.stdout = f.read()
    return r


def original(repo, diff):
    """does the diff remove or change a line that was there originally"""
    n = 0
    f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
        m = re.match(r"@@ -(\d+)(?:,(\d+))?", l)
        if m:
            no = int(m[1]) - 1
            continue
        if f and l.startswith("-") and not l.startswith("---"):
            no += 1
            b = sh("git blame -s -l -L %d,%d -- %s" % (no, no, f), cwd=repo).stdout
            if b.startswith("^"):
                n += 1
            else:
                # an old commit of the original history
                r = sh("git merge-base --is-ancestor %s %s" % (b.split()[0], BASE), cwd=repo)
                n += r.returncode == 0
        elif f and l.startswith(" "):
            no += 1
    return n


def make(s):
    work = "/tmp/seedwork-%s" % s["id"]
    shutil.rmtree(work, ignore_errors=True)
    sh("cp -a /repo %s" % work)
    try:
        for f, old, new in s["edits"]:
            p = os.path.join(work, f)
            t = open(p).read()
            if t.count(old) != 1:
                return "text found %d times: %r" % (t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", cwd=work).stdout
        if not original("/repo", diff):
            return "changes no original line\n" + diff
        out = "/tmp/seedout-%s" % s["id"]
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        open(out + "/demo.py", "w").write(s["demo"].lstrip("\n"))
        open(out + "/demo.sh", "w").write(DEMO % s.get("limit", 250))
        os.chmod(out + "/demo.sh", 0o755)
        r = sh("bash %s/demo.sh" % out, cwd="/repo")
        if r.returncode != 0:
            return "demo fails on the unchanged tree: " + r.stdout[-1500:]
        if any(f.endswith((".pyx", ".pxd")) for f, _, _ in s["edits"]):
            r = sh("/opt/venv/bin/python setup.py build_ext --inplace --force", cwd=work, env=dict(os.environ, SETUPTOOLS_SCM_PRETEND_VERSION="0.11.0"))
            if r.returncode:
                return "does not build: " + r.stdout[-1500:]
        r = sh("bash %s/demo.sh" % out, cwd=work)
        if r.returncode == 0:
            return "demo passes with the change"
        said = r.stdout.strip().splitlines()[-1:] or ["(silent)"]
        os.makedirs(work + "-t")
        env = dict(os.environ, PYTHONPATH=work, MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1")
        r = sh("/opt/venv/bin/python -m pytest -q -p no:cacheprovider --rootdir=%s --timeout=200 %s/tests/test_gaussian.py %s/tests/test_verbosity.py -k test_run; pkill -g 0 -f nothing" % (work, work, work), cwd=work + "-t", env=env)
        if " 2 passed" not in r.stdout and "2 passed" not in r.stdout:
            return "stable tests fail: " + r.stdout[-800:]
        dest = os.path.join(ROOT, "seeded", s["id"])
        shutil.rmtree(dest, ignore_errors=True)
        shutil.copytree(out, dest)
        open(dest + "/patch.diff", "w").write(diff)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(dest + "/meta.json", "w"), indent=1)
        shutil.rmtree(out)
        return "ok: " + said[0][:160]
    finally:
        shutil.rmtree(work, ignore_errors=True)
        shutil.rmtree(work + "-t", ignore_errors=True)


if __name__ == "__main__":
    specs = runpy.run_path(sys.argv[1])["SEEDS"]
    from concurrent.futures import ThreadPoolExecutor
    todo = [s for s in specs if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    with ThreadPoolExecutor(int(os.environ.get("J", "3"))) as ex:
        for s, r in zip(todo, ex.map(make, todo)):
            print(s["id"], "->", r)
